//! C08: forward-market-model steps, bookkeeping, bonds and bank account.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams::with_normals;
use crate::core::simworld::*;
use crate::core::stepworld;
use crate::core::util::*;
use crate::ensure;
use finquant::models::interestrate::fmm::{Fmm, FmmPath, InitialDiscountCurve, bank_account, bond_price};

pub struct C08;

/// the initial curve the tenor's rates say, log-linear between tenor dates
struct Curve<'a> {
    q: &'a FmmQ,
}
impl InitialDiscountCurve for Curve<'_> {
    fn p0(&self, t: f64) -> f64 {
        let mut l = 0.0;
        for j in 1..=self.q.m() {
            let part = ((t - self.q.dates[j - 1]) / self.q.tau(j)).clamp(0.0, 1.0);
            l -= part * (1.0 + self.q.tau(j) * self.q.rates[j - 1]).ln();
        }
        l.exp()
    }
}

fn bond(f: &Fmm, p: &FmmPath, t: f64, c: &Curve) -> Result<f64, Violation> {
    no_panic("bond_price", || bond_price(f, p, t, c))
}

/// static relations of one state
fn static_checks(q: &FmmQ, f: &Fmm, p: &FmmPath, ctx: &mut Ctx, here: &str) -> Outcome {
    let (m, t) = (q.m(), p.t);
    let c = Curve { q };
    if q.dates[0] != 0.0 || t > q.dates[m] {
        return Ok(());
    }
    let one = bond(f, p, t, &c)?;
    ensure!(close(one, 1.0, 1e-12), "bond", "P(t,t) = {one}; {here}");
    let e = q.eta(t);
    let mut df = if t == q.dates[e] { 1.0 } else { bond(f, p, q.dates[e], &c)? };
    let mut b = df;
    for j in 1..=e {
        b *= 1.0 + q.tau(j) * p.rates[j - 1];
    }
    let got = no_panic("bank_account", || bank_account(f, p, &c))?;
    ensure!(close_rel(got, b, 1e-10), "bank-account", "bank account {got}, realised periods and bond {b}; {here}");
    for j in e + 1..=m {
        df /= 1.0 + q.tau(j) * p.rates[j - 1];
        let x = bond(f, p, q.dates[j], &c)?;
        ensure!(close_rel(x, df, 1e-10), "bond", "P(t, {}) = {x}, one-period bonds compose to {df}; {here}", q.dates[j]);
    }
    if t == 0.0 {
        for k in 0..=8 {
            let x = q.dates[m] * k as f64 / 8.0;
            let (a, w) = (bond(f, p, x, &c)?, c.p0(x));
            ensure!(close_rel(a, w, 1e-10), "initial-curve", "P(0, {x}) = {a}, curve {w}; {here}");
        }
        ensure!(close(got, 1.0, 1e-10), "bank-account", "B(0) = {got}; {here}");
    }
    // arriving at a tenor date from inside the period: nothing jumps
    ctx.count("states_priced");
    Ok(())
}

/// one very short step from inside a period: the bank account earns the short rate and nothing
/// else, and tenor bonds earn the short rate on average
#[allow(clippy::too_many_arguments)]
fn riskless(spec: &Spec, inst: &mut Inst, s: &[f64], foreign: bool, q: &FmmQ, f: &Fmm, ctx: &mut Ctx, here: &str) -> Outcome {
    let side = |v: &[f64]| if matches!(spec, Spec::Fmm { .. }) { fmm_st(v) } else { side_path(v, foreign) };
    let p = side(s);
    let (m, t) = (q.m(), p.t);
    let k = q.period(t);
    let dt = 1e-5;
    if q.dates[0] != 0.0 || k == 0 || k > m || spec.breaks().iter().any(|b| t >= b - 1e-9 && t < b + 1e-9 && *b > 0.0 && *b != q.dates[k - 1]) || spec.breaks().iter().any(|b| *b > t && *b < t + 1e-3) {
        return Ok(());
    }
    let c = Curve { q };
    let go = |inst: &mut Inst, z: &[f64]| no_panic("step", || with_normals(z, || inst.own_step(s, t + 0.5 * dt, dt).0));
    let (_, draws) = no_panic("step", || with_normals(&[], || inst.own_step(s, t + 0.5 * dt, dt)))?;
    let n = draws as usize;
    ensure!(n <= 64, "draws", "{n} draws in one step; {here}");
    let w = (n as f64).sqrt();
    let b0 = no_panic("bank_account", || bank_account(f, &p, &c))?;
    let grow = -bond(f, &p, t + dt, &c)?.ln();
    let vols: Vec<f64> = (1..=m).map(|j| (q.vol(j, t + 0.5 * dt, p.rates[j - 1]) / (p.rates[j - 1] + 1.0 / q.tau(j))).abs()).collect();
    let sk = vols[k - 1];
    let tot: f64 = vols.iter().sum();
    let mut mean_b = 0.0;
    // tenor dates and dates between them
    let mats: Vec<f64> = (k..=m).flat_map(|j| [0.3, 0.75, 1.0].map(|u| q.dates[j] - (1.0 - u) * q.tau(j))).filter(|x| *x > t + 0.01).collect();
    let mut mean_p = vec![0.0; mats.len()];
    let base: Vec<f64> = mats.iter().map(|x| bond(f, &p, *x, &c)).collect::<Result<_, _>>()?;
    for i in 0..n {
        let mut ln = [0.0; 2];
        for (d, sign) in [1.0, -1.0].into_iter().enumerate() {
            let mut z = vec![0.0; n];
            z[i] = sign * w;
            let v = go(inst, &z)?.0;
            let p2 = side(&v);
            let b1 = no_panic("bank_account", || bank_account(f, &p2, &c))?;
            ln[d] = (b1 / b0).ln();
            mean_b += (b1 / b0 - 1.0) / (2 * n) as f64;
            for (j, x) in mats.iter().enumerate() {
                mean_p[j] += (bond(f, &p2, *x, &c)? / base[j] - 1.0) / (2 * n) as f64;
            }
        }
        let noise = (ln[0] - ln[1]).abs() / 2.0;
        let allow = sk * sk * (1.0 + w * w) * dt + 3.0 * sk * w * dt.powf(1.5) / q.tau(k) + 1e-13;
        ensure!(noise <= allow, "bank-account-noise", "over {dt} a shock of {w:.2} on draw {i} moves the bank account (foreign side: {foreign}) by {noise:e} (rate volatility {sk:e}); {here}");
    }
    let allow = 0.1 * sk * sk * dt + 1e-12;
    ensure!((mean_b - grow).abs() <= allow, "bank-account-growth", "over {dt} the bank account (foreign side: {foreign}) grows by {mean_b:e}, short rate says {grow:e} (rate volatility {sk:e}); {here}");
    if !foreign {
        for (j, x) in mats.iter().enumerate() {
            let allow = 0.05 * tot * tot * dt + 1e-12;
            ensure!((mean_p[j] - grow).abs() <= allow, "bond-martingale", "over {dt} the bond to {x} grows by {:e} on average, short rate says {grow:e}; {here}", mean_p[j]);
        }
    }
    ctx.count("short_rate_experiments");
    Ok(())
}

fn state_checks(spec: &Spec, s: &[f64], t: f64, inst: &mut Inst, ctx: &mut Ctx) -> Outcome {
    let here = format!("{} at {t}, state {s:?}, parameters {}", spec.name(), serde_json::to_string(spec).unwrap());
    let time = match spec {
        Spec::Fmm { .. } => fmm_st(s).t,
        _ => fxfmm_st(s).t,
    };
    ensure!(time == t || (time - t).abs() < 1e-12, "clock", "state time {time}; {here}");
    match spec {
        Spec::Fmm { q } => {
            let f = q.lib();
            static_checks(q, &f, &fmm_st(s), ctx, &here)?;
            if ctx.trace & 1 == 0 {
                riskless(spec, inst, s, false, q, &f, ctx, &here)?;
            }
        }
        Spec::FxFmm { q } => {
            for foreign in [false, true] {
                let q = q.side(foreign);
                let f = q.lib();
                static_checks(&q, &f, &side_path(s, foreign), ctx, &here)?;
                if ctx.trace & 1 == 0 {
                    riskless(spec, inst, s, foreign, &q, &f, ctx, &here)?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}

impl Property for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 6_000_000 } else { 250_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one FMM or FX-FMM simulator with a seeded tenor, volatility shape and correlations walked through 2-14 steps ending on, short of, past and across tenor dates along its own or scripted shocks; at visited steps the scripted-draw experiment is compared with the stated drift, covariance and bookkeeping, at visited states bonds and bank account with each other and with a very short scripted step, and batches and dated runs with the iteration of steps; non-trivial = a step was taken; distinct by hash of the visited states"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["FmmSimulator", "FxFmmSimulator", "FmmTenor, LinearDecay, VolSchedule", "bond_price, bank_account and the stub formulas", "simulate_at_dates", "rand_distr StandardNormal"], &["ChaCha20 word stream (scripted during experiments)", "initial discount curve"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["bond and bank-account relations are checked for tenors starting at the valuation date (the documented convention)", "states whose accrual factors 1 + tau R fall below 0.25 are not continued"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        stepworld::generate(r, &[8, 8, 9])
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        stepworld::execute(plan, ctx, |spec, s, t, inst, ctx| {
            // its own instance, so that the walk's random numbers go on undisturbed
            let _ = inst;
            let mut twin = spec.build(1)?;
            state_checks(spec, s, t, &mut twin, ctx)
        })
    }
}
