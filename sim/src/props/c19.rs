//! C19: smile calibration behind a faulting quote feed, cut off at any iteration.
use crate::core::effref;
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::simworld::{self, FxFmmQ, HhwQ, Spec};
use crate::core::util::*;
use crate::ensure;
use finquant::math::optimize::{Minimum, NelderMeadOptions};
use finquant::models::common::calibration::Calibration;
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::fx_fmm_calibrator::{self, FxFmmSmileCalibrator};
use finquant::models::forex::fx_hhw_calibrator::{self, FxHhwSmileCalibrator};
use finquant::models::forex::fx_hlmm::{DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
use finquant::models::forex::fx_hlmm_calibrator::{self, FxHlmmSmileCalibrator};
use finquant::models::forex::market_data::MarketSmileStrip;
use finquant::models::forex::sabr::SabrParams;
use finquant::models::forex::sabr_calibrator::SabrSmileCalibrator;
use finquant::models::forex::sabr_effective::{PiecewiseConstant, effective_correlation, effective_term_structure, effective_vol_vol};
use finquant::models::forex::sabr_time_dependent_calibrator::{SabrTimeDependentSurfaceCalibrator, calibrate_time_dependent};
use serde::{Deserialize, Serialize};
use serde_json::json;

pub struct C19;

#[derive(Serialize, Deserialize, Clone)]
enum Model {
    Sabr { alpha: f64, beta: f64, rho: f64, nu: f64 },
    Tsabr { beta: f64, f0: f64 },
    Hhw { q: HhwQ, floor: f64, cap: Option<f64> },
    Hlmm { q: FxFmmQ, floor: f64 },
    Fmm { q: FxFmmQ, floor: f64 },
}

#[derive(Serialize, Deserialize, Clone)]
struct Strip {
    t: f64,
    f: f64,
    k: Vec<f64>,
    v: Vec<f64>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    model: Model,
    strips: Vec<Strip>,
    /// the strips were made by the model family itself, so a good fit exists
    attainable: bool,
    /// and the start parameters are in its neighbourhood
    near: bool,
}

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    Vol { p: usize, i: usize, v: f64, bad: u8 },
    Strike { p: usize, i: usize, bad: u8 },
    Forward { p: usize, f: f64, bad: u8 },
    Lose { p: usize, i: usize },
    Dup { p: usize, i: usize },
    /// the vol column arrives one entry short (or long)
    Torn { p: usize, long: bool },
    Roll { days: i64 },
    Swap { p: usize },
    /// the effective parameters of schedules of all shapes
    Schedules { seed: u64 },
    Calib { iters: usize, more: usize, ftol: f64, step: f64 },
}

fn spoil(v: f64, bad: u8) -> f64 {
    match bad {
        1 => f64::NAN,
        2 => f64::INFINITY,
        3 => 0.0,
        4 => -v,
        5 => f64::NEG_INFINITY,
        6 => v * 100.0,
        7 => v / 100.0,
        _ => v,
    }
}

/// the semi-analytic pricers divide by these
fn tame(q: &mut simworld::CirQ) {
    q.v0 = q.v0.clamp(0.002, 0.2);
    q.theta = q.theta.clamp(0.002, 0.2);
    q.gamma = q.gamma.max(0.02);
    q.kappa = q.kappa.clamp(0.1, 5.0);
}

/// the best a compass search around `p` finds
fn compass(p: &SabrParams, s: &Strip) -> f64 {
    let at = |x: &[f64; 3]| {
        let q = SabrParams { alpha: x[0].exp(), beta: p.beta, rho: x[1].tanh(), nu: x[2].exp() };
        rms(&s.k.iter().map(|k| Some(hagan(&q, s.f, *k, s.t))).collect::<Vec<_>>(), &s.v).unwrap_or(f64::INFINITY)
    };
    let mut x = [p.alpha.ln(), p.rho.atanh(), p.nu.max(1e-8).ln()];
    let (mut best, mut h) = (at(&x), 0.2);
    while h > 1e-7 {
        let mut moved = false;
        for i in 0..26 {
            let m = if i < 13 { i } else { i + 1 };
            let mut y = x;
            for (j, y) in y.iter_mut().enumerate() {
                *y += h * ((m / 3usize.pow(j as u32)) % 3) as f64 - h;
            }
            let v = at(&y);
            if v < best {
                (x, best, moved) = (y, v, true);
            }
        }
        if !moved {
            h *= 0.5;
        }
    }
    best
}

/// √(1−2ρz+z²) and that plus z−ρ, without cancellation
fn chi_parts(z: f64, rho: f64) -> (f64, f64) {
    let s = ((z - rho) * (z - rho) + (1.0 - rho) * (1.0 + rho)).sqrt();
    (s, if z < rho { (1.0 - rho) * (1.0 + rho) / (s - (z - rho)) } else { s + z - rho })
}
fn chi(z: f64, rho: f64) -> f64 {
    let (s, num) = chi_parts(z, rho);
    if z.abs() < 0.1 {
        // through ln(1+x), so that it stays exact for small z
        let s1 = (z * z - 2.0 * rho * z) / (s + 1.0);
        (z * (s1 + z + 2.0 * (1.0 - rho)) / ((s + 1.0) * (1.0 - rho))).ln_1p()
    } else {
        (num / (1.0 - rho)).ln()
    }
}

/// Hagan et al. (2002), written from the paper
fn hagan(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    let b1 = 1.0 - p.beta;
    let l = (f / k).ln();
    let fk = (f * k).powf(b1 / 2.0);
    let z = p.nu / p.alpha * fk * l;
    let zx = if z == 0.0 { 1.0 } else { z / chi(z, p.rho) };
    let den = fk * (1.0 + b1 * b1 / 24.0 * l * l + b1.powi(4) / 1920.0 * l.powi(4));
    let corr = 1.0 + t * (b1 * b1 * p.alpha * p.alpha / (24.0 * fk * fk) + p.rho * p.beta * p.nu * p.alpha / (4.0 * fk) + (2.0 - 3.0 * p.rho * p.rho) / 24.0 * p.nu * p.nu);
    p.alpha / den * zx * corr
}

/// what rounding may do to the textbook form of Hagan's formula
fn hagan_noise(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    let z = p.nu / p.alpha * (f * k).powf((1.0 - p.beta) / 2.0) * (f / k).ln();
    let (s, num) = chi_parts(z, p.rho);
    // the square root loses digits where its argument cancels, the sum where s is close to ρ − z
    let size = 1.0 + 2.0 * (p.rho * z).abs() + z * z;
    let ds = (4e-16 * size / s).min((4e-16 * size).sqrt());
    let e = (ds + 1e-15 * (s + z.abs() + 1.0)) / num.abs() + 1e-15 / (1.0 - p.rho);
    let chi = chi(z, p.rho);
    let v = hagan(p, f, k, t).abs();
    if z.abs() < 1e-8 { v * (1e-8 + z.abs() / (1.0 - p.rho)) } else { v * (e / chi.abs()).min(1e3) }
}
fn noise(p: &SabrParams, s: &Strip) -> f64 {
    s.k.iter().map(|k| hagan_noise(p, s.f, *k, s.t)).fold(0.0, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) })
}

fn black(f: f64, k: f64, vol: f64, t: f64, df: f64) -> f64 {
    let s = vol * t.sqrt();
    let d1 = (f / k).ln() / s + 0.5 * s;
    df * (f * norm_cdf(d1) - k * norm_cdf(d1 - s))
}

fn hlmm(q: &FxFmmQ) -> FxHlmmParams {
    let side = |s: &Vec<f64>, c: &Vec<Vec<f64>>| DdSvLmm { sigmas: s.clone(), betas: vec![0.9; s.len()], lambda: 1.0, eta: 0.1, v_0: 1.0, libor_corr: c.clone() };
    FxHlmmParams {
        fx_0: q.fx0,
        heston: q.var.lib(),
        tenor: LiborTenor::new(q.dates.clone(), q.rates.clone()),
        domestic: side(&q.sig_d, &q.rho_d),
        foreign: side(&q.sig_f, &q.rho_f),
        correlations: FxHlmmCorrelations { rho_xi_sigma: q.xs, rho_xi_d: q.xd.clone(), rho_xi_f: q.xf.clone(), libor_cross_corr: q.cross.clone() },
    }
}

fn strip(s: &Strip) -> MarketSmileStrip {
    MarketSmileStrip { expiry_yf: s.t, forward: s.f, strikes: s.k.clone(), vols: s.v.clone() }
}

/// what is wrong with a strip, if anything
fn invalid(s: &Strip) -> Option<String> {
    let good = |x: f64| x.is_finite() && x > 0.0;
    if s.k.is_empty() || s.k.len() != s.v.len() {
        return Some(format!("{} strikes and {} vols", s.k.len(), s.v.len()));
    }
    if !good(s.t) {
        return Some(format!("expiry {}", s.t));
    }
    if !good(s.f) {
        return Some(format!("forward {}", s.f));
    }
    s.k.iter().chain(&s.v).find(|x| !good(**x)).map(|x| format!("strike or vol {x}"))
}

fn rms(model: &[Option<f64>], v: &[f64]) -> Option<f64> {
    let mut s = 0.0;
    for (m, v) in model.iter().zip(v) {
        s += (m.filter(|m| m.is_finite() && *m > 0.0)? - v).powi(2);
    }
    Some((s / v.len() as f64).sqrt())
}

/// (value, fields) of one calibration, uniform over the models
#[derive(Clone, PartialEq, Debug)]
struct Fit {
    rmse: u64,
    params: String,
    err: bool,
}

fn name(m: &Model) -> &'static str {
    match m {
        Model::Sabr { .. } => "sabr",
        Model::Tsabr { .. } => "tsabr",
        Model::Hhw { cap, .. } => {
            if cap.is_some() { "hhw-capped" } else { "hhw" }
        }
        Model::Hlmm { .. } => "hlmm",
        Model::Fmm { .. } => "fmm",
    }
}

struct Run<'a> {
    cfg: &'a Cfg,
    strips: &'a [Strip],
}

/// Is there a vol-of-vol schedule, far from any overflow, whose effective
/// vol-of-vol meets the target of every pillar (each grown on the last)?
fn reachable(strips: &[Strip], market: &[SabrParams]) -> bool {
    let mut nu: Vec<f64> = vec![];
    let mut grown = 0.0;
    for (i, (s, m)) in strips.iter().zip(market).enumerate() {
        let knots: Vec<f64> = std::iter::once(0.0).chain(strips[..=i].iter().map(|s| s.t)).collect();
        let gap = knots[i + 1] - knots[i];
        let omega = PiecewiseConstant::new(knots.clone(), vec![m.alpha; i + 1]);
        let at = |x: f64| {
            let mut v = nu.clone();
            v.push(x);
            effective_vol_vol(&PiecewiseConstant::new(knots.clone(), v), &omega, s.t)
        };
        let mut hi = (2.0 * m.nu).max(0.1);
        loop {
            if 6.0 * (grown + hi * hi * gap) > 100.0 || !(m.alpha > 1e-3 && m.alpha < 1e3) || s.t > 50.0 || gap < 1e-3 {
                return false;
            }
            if at(hi) >= m.nu {
                break;
            }
            hi *= 2.0;
        }
        let mut lo = 1e-6;
        for _ in 0..60 {
            let mid = 0.5 * (lo + hi);
            if at(mid) < m.nu { lo = mid } else { hi = mid }
        }
        if hi < 1e-4 {
            return false;
        }
        nu.push(hi);
        grown += hi * hi * gap;
    }
    true
}

impl Run<'_> {
    fn what(&self) -> String {
        self.strips.iter().map(|s| format!("[T {} F {} K {:?} vols {:?}]", s.t, s.f, s.k, s.v)).collect::<Vec<_>>().join(" ")
    }
    fn bad(&self) -> Option<String> {
        let tail = match self.cfg.model {
            Model::Tsabr { .. } => {
                if self.strips.is_empty() {
                    return Some("no pillars".into());
                }
                self.strips.windows(2).find(|w| !(w[1].t > w[0].t)).map(|w| format!("pillars {} then {}", w[0].t, w[1].t))
            }
            _ => None,
        };
        let n = if matches!(self.cfg.model, Model::Tsabr { .. }) { self.strips.len() } else { 1 };
        self.strips[..n].iter().find_map(invalid).or(tail)
    }

    /// Heston-block checks shared by the three characteristic-function models
    #[allow(clippy::too_many_arguments)]
    fn heston(&self, h: &CirProcess, rho: f64, floor: f64, cap: Option<f64>, rmse: f64, vols: &[Option<f64>], prices: &[f64], df: f64, seed: &[Option<f64>], fwd: f64, ctx: &mut Ctx) -> Outcome {
        let s = &self.strips[0];
        ensure!(h.kappa >= floor && h.kappa.is_finite(), "domain", "kappa {} below its floor {floor}: {}", h.kappa, self.what());
        for (n, x) in [("gamma", h.gamma), ("theta", h.theta), ("sigma_0", h.sigma_0)] {
            ensure!(x >= 0.0 && x.is_finite(), "domain", "{n} = {x}: {}", self.what());
        }
        if let Some(c) = cap {
            ensure!(h.gamma <= c, "domain", "gamma {} above its cap {c}: {}", h.gamma, self.what());
        }
        ensure!(rho.abs() <= 1.0, "domain", "correlation {rho}: {}", self.what());
        let ssr = rmse * rmse * s.v.len() as f64;
        if ssr < 0.9e6 {
            let Some(own) = rms(vols, &s.v) else { return fail("rmse", format!("reports rmse {rmse} but its own model vols are {vols:?}: {}", self.what())) };
            ensure!(close(own, rmse, 1e-7), "rmse", "reports rmse {rmse}, the returned parameters give {own} (vols {vols:?}): {}", self.what());
            for ((v, p), k) in vols.iter().zip(prices).zip(&s.k) {
                let v = v.unwrap();
                let bs = black(fwd, *k, v, s.t, df);
                ensure!((bs - p).abs() <= 1e-6 * fwd.max(1.0), "vols", "the call at {k} costs {p}, its reported vol {v} gives {bs}: {}", self.what());
            }
            ctx.count("probe.rmse_recomputed");
        } else {
            ctx.count("probe.no_fit");
        }
        if let Some(s0) = rms(seed, &s.v) {
            ensure!(rmse <= s0 + 1e-6 + 1e-5 * s0, "worse", "rmse {rmse}, the seed itself has {s0}: {}", self.what());
            ctx.count("probe.not_worse_than_seed");
        }
        Ok(())
    }

    fn one(&self, opts: NelderMeadOptions, check: bool, ctx: &mut Ctx) -> Result<(Fit, f64, Option<f64>), Violation> {
        let s = self.strips.first();
        let min_ok = |m: &Option<Minimum>| -> Outcome {
            let Some(m) = m else { return fail("minimum", "no optimiser diagnostics".to_string()) };
            ensure!(m.iterations <= opts.max_iter, "budget", "{} iterations of {}", m.iterations, opts.max_iter);
            Ok(())
        };
        let err = |ctx: &mut Ctx| -> Result<(Fit, f64, Option<f64>), Violation> {
            ctx.count("probe.rejected");
            Ok((Fit { rmse: 0, params: String::new(), err: true }, f64::NAN, None))
        };
        match &self.cfg.model {
            Model::Sabr { alpha, beta, rho, nu } => {
                let initial = SabrParams::new(*alpha, *beta, *rho, *nu);
                let s = s.unwrap();
                let got = no_panic("SabrSmileCalibrator::calibrate", || SabrSmileCalibrator { initial }.calibrate(&strip(s), opts))?;
                let Ok(g) = got else { return err(ctx) };
                let p = g.params;
                let mut seed_rmse = None;
                if check {
                    min_ok(&g.optimiser)?;
                    ensure!(p.beta.to_bits() == beta.to_bits(), "fixed", "beta moved from {beta} to {}: {}", p.beta, self.what());
                    ensure!(p.alpha > 0.0 && p.alpha.is_finite() && p.nu >= 0.0 && p.nu.is_finite() && p.rho.abs() < 1.0, "domain", "{p:?}: {}", self.what());
                    let vols: Vec<Option<f64>> = s.k.iter().map(|k| Some(hagan(&p, s.f, *k, s.t))).collect();
                    if g.rmse * g.rmse * (s.v.len() as f64) < 0.9e6 {
                        let own = rms(&vols, &s.v);
                        ensure!(noise(&p, s) > 1.0 || own.is_some_and(|o| (o - g.rmse).abs() <= 1e-7 * o.max(1.0) + noise(&p, s)), "rmse", "reports rmse {}, Hagan's vols of {p:?} give {own:?}: {}", g.rmse, self.what());
                        ctx.count("probe.rmse_recomputed");
                    } else {
                        ctx.count("probe.no_fit");
                    }
                    let seed: Vec<Option<f64>> = s.k.iter().map(|k| Some(hagan(&initial, s.f, *k, s.t))).collect();
                    seed_rmse = rms(&seed, &s.v);
                    if let Some(s0) = seed_rmse {
                        ensure!(g.rmse <= s0 + 1e-6 + 1e-5 * s0 + noise(&initial, s), "worse", "rmse {}, the seed itself has {s0}: {}", g.rmse, self.what());
                        ctx.count("probe.not_worse_than_seed");
                    }
                }
                Ok((Fit { rmse: g.rmse.to_bits(), params: format!("{p:?}"), err: false }, g.rmse, seed_rmse))
            }
            Model::Tsabr { beta, f0 } => {
                let ms: Vec<MarketSmileStrip> = self.strips.iter().map(strip).collect();
                let cal = SabrTimeDependentSurfaceCalibrator { beta: *beta, forward_0: *f0 };
                let got = no_panic("SabrTimeDependentSurfaceCalibrator::calibrate", || cal.calibrate(&ms, opts))?;
                let Ok(g) = got else {
                    // smiles outside the reach of the effective-parameter map are reported
                    if check {
                        let market: Option<Vec<SabrParams>> = self
                            .strips
                            .iter()
                            .map(|s| SabrSmileCalibrator { initial: SabrParams::new(s.v[s.v.len() / 2], *beta, -0.20, 0.30) }.calibrate(&strip(s), opts).ok().map(|g| g.params))
                            .collect();
                        let Some(market) = market else { return fail("rejected", format!("a valid strip was rejected: {}", self.what())) };
                        ensure!(!reachable(self.strips, &market), "rejected", "valid pillars were rejected ({:?}), though a schedule reaches {market:?}: {}", got.err().map(|e| e.to_string()), self.what());
                        ctx.count("probe.out_of_reach");
                    }
                    return err(ctx);
                };
                let p = &g.params;
                if check {
                    let n = self.strips.len();
                    ensure!(p.beta.to_bits() == beta.to_bits() && p.forward_0.to_bits() == f0.to_bits(), "fixed", "beta/forward {} {} became {} {}", beta, f0, p.beta, p.forward_0);
                    let knots: Vec<f64> = std::iter::once(0.0).chain(self.strips.iter().map(|s| s.t)).collect();
                    for (w, c) in [("alpha", &p.alpha), ("rho", &p.rho), ("nu", &p.nu)] {
                        ensure!(c.knots == knots && c.values.len() == n, "schedule", "the {w} schedule is {c:?} for expiries {knots:?}");
                        ensure!(c.values.iter().all(|x| x.is_finite()), "domain", "{w} = {c:?}: {}", self.what());
                    }
                    ensure!(p.alpha.values.iter().all(|x| *x > 0.0) && p.nu.values.iter().all(|x| *x >= 0.0) && p.rho.values.iter().all(|x| x.abs() < 1.0), "domain", "{p:?}: {}", self.what());
                    let res = no_panic("calibrate_time_dependent", || calibrate_time_dependent(&ms.iter().map(|m| m.pillar_target()).collect::<Vec<_>>(), *beta, *f0, opts))?;
                    ensure!(format!("{:?}", res.params) == format!("{p:?}"), "history", "the surface calibrator and the function it wraps disagree");
                    let mut worst: f64 = 0.0;
                    for (i, (d, s)) in res.per_pillar.iter().zip(self.strips).enumerate() {
                        let vols: Vec<Option<f64>> = s.k.iter().map(|k| Some(hagan(&d.market_effective, s.f, *k, s.t))).collect();
                        if let Some(own) = rms(&vols, &s.v) {
                            ensure!((own - d.stage1_rmse).abs() <= 1e-7 * own.max(1.0) + noise(&d.market_effective, s), "rmse", "pillar {i} reports {}, its effective parameters {:?} give {own}: {}", d.stage1_rmse, d.market_effective, self.what());
                            ctx.count("probe.rmse_recomputed");
                        }
                        worst = worst.max(d.stage1_rmse);
                        let cut = |c: &PiecewiseConstant| PiecewiseConstant::new(c.knots[..=i + 1].to_vec(), c.values[..=i].to_vec());
                        let (a, r, v) = (cut(&p.alpha), cut(&p.rho), cut(&p.nu));
                        let m = &d.market_effective;
                        let e = [effective_vol_vol(&v, &a, s.t) - m.nu, effective_term_structure(&v, &a, s.t) - m.alpha, effective_correlation(&v, &a, &r, s.t) - m.rho];
                        if check {
                            effref::check(&v, &a, &r, i + 1, ctx)?;
                        }
                        let own = (e.iter().map(|x| x * x).sum::<f64>() / 3.0).sqrt();
                        ensure!(close(own, d.post_fit_rmse, 1e-9), "postfit", "pillar {i} reports a residual of {}, the schedules give {own} ({e:?}): {}", d.post_fit_rmse, self.what());
                        // the level is solved last but one and exactly, unless the pillar is out of reach
                        let floor = p.alpha.values[i] <= 1.1e-6;
                        if e[1].is_finite() && !floor && m.nu * m.nu * s.t < 1.0 {
                            ensure!(e[1].abs() <= 1e-6 * m.alpha.max(1.0), "level", "pillar {i}: effective level is off its target {} by {}: {}", m.alpha, e[1], self.what());
                            ctx.count("probe.level_solved");
                        }
                        // the first segment alone carries the first pillar: its vol-of-vol is solved too
                        if i == 0 && m.nu > 1e-5 && m.nu * m.nu * s.t < 1.0 {
                            ensure!(e[0].abs() <= 1e-6 * m.nu.max(1.0) + 1e-3 * m.nu, "volvol", "pillar 0: effective vol-of-vol is off its target {} by {}: {}", m.nu, e[0], self.what());
                            ctx.count("probe.volvol_solved");
                        }
                    }
                    ensure!(close(worst, g.rmse, 1e-12), "rmse", "reports {}, the worst pillar has {worst}: {}", g.rmse, self.what());
                }
                Ok((Fit { rmse: g.rmse.to_bits(), params: format!("{p:?}"), err: false }, g.rmse, None))
            }
            Model::Hhw { q, floor, cap } => {
                let initial = q.lib();
                let s = s.unwrap();
                let cal = FxHhwSmileCalibrator { initial, kappa_floor: *floor, gamma_max: *cap };
                let got = no_panic("FxHhwSmileCalibrator::calibrate", || cal.calibrate(&strip(s), opts))?;
                let Ok(g) = got else { return err(ctx) };
                let p = g.params;
                if check {
                    min_ok(&g.optimiser)?;
                    let mut back = p;
                    back.heston = initial.heston;
                    back.correlations.rho_xi_sigma = initial.correlations.rho_xi_sigma;
                    ensure!(format!("{back:?}") == format!("{initial:?}"), "fixed", "held-fixed parameters moved: {p:?}");
                    let df = (-p.rd_0 * s.t).exp();
                    let fwd = p.fx_0 * ((p.rd_0 - p.rf_0) * s.t).exp();
                    let vols = fx_hhw_calibrator::model_implied_vols(&p, s.t, &s.k);
                    let prices: Vec<f64> = s.k.iter().map(|k| fx_hhw_calibrator::price_call(&p, s.t, *k)).collect();
                    // a seed outside the reach of the reparameterisation is moved first
                    let inside = q.var.kappa > floor + 1e-6 && cap.is_none_or(|c| q.var.gamma < 0.999 * c);
                    let seed = if inside { fx_hhw_calibrator::model_implied_vols(&initial, s.t, &s.k) } else { vec![None] };
                    self.heston(&p.heston, p.correlations.rho_xi_sigma, *floor, *cap, g.rmse, &vols, &prices, df, &seed, fwd, ctx)?;
                }
                Ok((Fit { rmse: g.rmse.to_bits(), params: format!("{p:?}"), err: false }, g.rmse, None))
            }
            Model::Hlmm { q, floor } => {
                let initial = hlmm(q);
                let s = s.unwrap();
                let cal = FxHlmmSmileCalibrator { initial: initial.clone(), kappa_floor: *floor };
                let got = no_panic("FxHlmmSmileCalibrator::calibrate", || cal.calibrate(&strip(s), opts))?;
                let Ok(g) = got else { return err(ctx) };
                let p = g.params;
                if check {
                    min_ok(&g.optimiser)?;
                    let mut back = p.clone();
                    back.heston = initial.heston;
                    back.correlations.rho_xi_sigma = initial.correlations.rho_xi_sigma;
                    ensure!(back == initial, "fixed", "held-fixed parameters moved: {p:?}");
                    let df = fx_hlmm_calibrator::discount_factor(&p, s.t);
                    let vols = fx_hlmm_calibrator::model_implied_vols(&p, s.t, &s.k);
                    let prices: Vec<f64> = s.k.iter().map(|k| fx_hlmm_calibrator::price_call(&p, s.t, *k)).collect();
                    let seed = if q.var.kappa > floor + 1e-6 { fx_hlmm_calibrator::model_implied_vols(&initial, s.t, &s.k) } else { vec![None] };
                    self.heston(&p.heston, p.correlations.rho_xi_sigma, *floor, None, g.rmse, &vols, &prices, df, &seed, p.fx_0, ctx)?;
                }
                Ok((Fit { rmse: g.rmse.to_bits(), params: format!("{p:?}"), err: false }, g.rmse, None))
            }
            Model::Fmm { q, floor } => {
                let initial = q.lib();
                let s = s.unwrap();
                let cal = FxFmmSmileCalibrator { initial: initial.clone(), kappa_floor: *floor };
                let got = no_panic("FxFmmSmileCalibrator::calibrate", || cal.calibrate(&strip(s), opts))?;
                let Ok(g) = got else { return err(ctx) };
                let p = g.params;
                if check {
                    min_ok(&g.optimiser)?;
                    let mut back = p.clone();
                    back.heston = initial.heston;
                    back.correlations.rho_xi_sigma = initial.correlations.rho_xi_sigma;
                    ensure!(format!("{back:?}") == format!("{initial:?}"), "fixed", "held-fixed parameters moved: {p:?}");
                    let df = fx_fmm_calibrator::discount_factor(&p, s.t);
                    let vols = fx_fmm_calibrator::model_implied_vols(&p, s.t, &s.k);
                    let prices: Vec<f64> = s.k.iter().map(|k| fx_fmm_calibrator::price_call(&p, s.t, *k)).collect();
                    let seed = if q.var.kappa > floor + 1e-6 { fx_fmm_calibrator::model_implied_vols(&initial, s.t, &s.k) } else { vec![None] };
                    self.heston(&p.heston, p.correlations.rho_xi_sigma, *floor, None, g.rmse, &vols, &prices, df, &seed, p.fx_0, ctx)?;
                }
                Ok((Fit { rmse: g.rmse.to_bits(), params: format!("{p:?}"), err: false }, g.rmse, None))
            }
        }
    }
}

impl Property for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 200_000 } else { 14_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one calibrator (constant SABR, time-dependent SABR, FX-HHW bounded or not, FX-HLMM, FX-FMM) with seeded start parameters and strips, fed with injected quote loss, duplication, torn columns, corruption, forward changes, misordered pillars and date rolls, and cut off after a seeded number of iterations, 1-4 times; non-trivial = a fit was returned; distinct by hash of the fits"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["SabrSmileCalibrator", "SabrTimeDependentSurfaceCalibrator", "FxHhwSmileCalibrator", "FxHlmmSmileCalibrator", "FxFmmSmileCalibrator", "nelder_mead", "CosPricer", "bs_implied_vol", "MarketSmileStrip"], &["quote feed (simulated)"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["model vols of the characteristic-function models are those of the library's own pricer (checked against Black prices)"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let kind = r.weighted(&[0.57, 0.39, 0.02, 0.01, 0.01]);
        let heavy = kind >= 2;
        let beta = *r.pick(&[0.5, 0.5, 0.5, 1.0, 0.7, 0.0]);
        let spot: f64 = *r.pick(&[1.1, 1.1, 0.8, 150.0]);
        let mut attainable = false;
        let mut near = false;
        let mut truths = vec![];
        let mut strips = vec![];
        let nk = |r: &mut Prng| {
            let lo = if r.chance(0.1) { 1 } else { 3 };
            r.usize(lo, if heavy { 4 } else { 9 })
        };
        let model = match kind {
            0 | 1 => {
                attainable = r.chance(0.6);
                let np = if kind == 1 { r.usize(1, 4) } else { 1 };
                let mut t = 0.0;
                for _ in 0..np {
                    let lo = if r.chance(0.1) { 1 } else { 20 };
                    t += r.range(lo, 700) as f64 / 365.0;
                    let f = spot * (1.0 + r.dec(-0.03, 0.03, 4));
                    let lvl = r.dec(0.05, 0.25, 3);
                    let truth = SabrParams::new(lvl * f.powf(1.0 - beta), beta, r.dec(-0.6, 0.6, 2), r.dec(0.1, 0.9, 2));
                    truths.push(truth);
                    let n = nk(r);
                    let w = 2.0 * lvl * t.sqrt();
                    let mut k: Vec<f64> = (0..n).map(|i| f * (w * (if n == 1 { 0.0 } else { 2.0 * i as f64 / (n - 1) as f64 - 1.0 })).exp()).collect();
                    if r.chance(0.2) {
                        r.shuffle(&mut k);
                    }
                    let v = k.iter().map(|k| if attainable { hagan(&truth, f, *k, t) } else { (lvl * (1.0 + r.dec(-0.3, 0.3, 3)) * 1e6).round() / 1e6 }).collect();
                    strips.push(Strip { t, f, k, v });
                }
                if strips.iter().any(|s| s.v.iter().any(|v| !(v.is_finite() && *v > 0.0))) {
                    attainable = false;
                    for s in &mut strips {
                        for v in &mut s.v {
                            *v = 0.1;
                        }
                    }
                }
                if kind == 0 {
                    let s = &strips[0];
                    let wild = r.chance(0.15);
                    let a = s.v[s.v.len() / 2] * s.f.powf(1.0 - beta) * if wild { r.dec(0.01, 20.0, 2) } else { 1.0 };
                    if wild {
                        attainable = false;
                    }
                    near = attainable && strips[0].k.len() >= 3 && r.chance(0.6);
                    if near {
                        let t = truths[0];
                        let rho = (t.rho + r.dec(-0.1, 0.1, 2)).clamp(-0.95, 0.95);
                        Model::Sabr { alpha: t.alpha * (1.0 + r.dec(-0.1, 0.1, 2)), beta, rho: if rho * t.rho > 0.0 { rho } else { t.rho }, nu: t.nu * (1.0 + r.dec(-0.2, 0.2, 2)) }
                    } else {
                    Model::Sabr { alpha: a.max(1e-6), beta, rho: if wild { r.dec(-0.999, 0.999, 3) } else { r.dec(-0.3, 0.3, 2) }, nu: if wild { *r.pick(&[0.0, 1e-9, 5.0, 40.0]) } else { r.dec(0.2, 0.6, 2) } }
                    }
                } else {
                    Model::Tsabr { beta, f0: strips[0].f }
                }
            }
            _ => {
                let floor = *r.pick(&[0.0, 0.0, 0.1, 0.5]);
                let t = r.range(30, 1500) as f64 / 365.0;
                let (m, f, lvl) = if kind == 2 {
                    let Spec::Hhw { mut q } = simworld::gen_spec(r, 4) else { unreachable!() };
                    q.fit = None;
                    tame(&mut q.var);
                    q.lam = q.lam.map(|x| x.clamp(0.005, 1.0));
                    q.eta = q.eta.map(|x| x.max(0.002));
                    let f = q.fx0 * ((q.r0[0] - q.r0[1]) * t).exp();
                    let lvl = q.var.theta.sqrt();
                    let cap = r.chance(0.4).then(|| r.dec(0.1, 1.0, 2));
                    (Model::Hhw { q, floor, cap }, f, lvl)
                } else {
                    let Spec::FxFmm { mut q } = simworld::gen_spec(r, 9) else { unreachable!() };
                    tame(&mut q.var);
                    let (f, lvl) = (q.fx0, q.var.theta.sqrt());
                    (if kind == 3 { Model::Hlmm { q, floor } } else { Model::Fmm { q, floor } }, f, lvl)
                };
                let n = nk(r);
                let w = 1.2 * lvl * t.sqrt();
                let k: Vec<f64> = (0..n).map(|i| f * (w * (if n == 1 { 0.0 } else { 2.0 * i as f64 / (n - 1) as f64 - 1.0 })).exp()).collect();
                let lvl = lvl * (1.0 + r.dec(-0.3, 0.3, 3));
                let v = k.iter().map(|_| ((lvl * (1.0 + r.dec(-0.15, 0.15, 3))) * 1e6).round() / 1e6).collect();
                strips.push(Strip { t, f, k, v });
                m
            }
        };
        let np = strips.len();
        let mut events: Vec<Ev> = vec![];
        let rounds = if heavy { if r.chance(0.2) { 2 } else { 1 } } else { r.usize(1, 4) };
        let hostile = r.chance(0.6);
        for i in 0..rounds {
            if hostile && (i > 0 || r.chance(0.5)) {
                attainable = false;
                for _ in 0..r.usize(1, 3) {
                    let p = r.usize(0, np - 1);
                    let n = strips[p].k.len();
                    let q = r.usize(0, n - 1);
                    let bad = |r: &mut Prng| if r.chance(0.3) { r.range(1, 7) as u8 } else { 0 };
                    events.push(match r.below(9) {
                        0..=2 => Ev::Vol { p, i: q, v: (strips[p].v[q] * (1.0 + r.dec(-0.5, 0.5, 3)) * 1e6).round() / 1e6, bad: bad(r) },
                        3 => Ev::Strike { p, i: q, bad: r.range(1, 7) as u8 },
                        4 => Ev::Forward { p, f: strips[p].f * (1.0 + r.dec(-0.1, 0.1, 3)), bad: bad(r) },
                        5 => Ev::Lose { p, i: q },
                        6 => {
                            if r.chance(0.4) {
                                Ev::Torn { p, long: r.chance(0.5) }
                            } else {
                                Ev::Dup { p, i: q }
                            }
                        }
                        7 => Ev::Roll { days: if r.chance(0.8) { r.range(1, 30) } else { r.range(-500, 500) } },
                        _ => Ev::Swap { p },
                    });
                }
            }
            let iters = if heavy { if r.chance(0.05) { 12 } else { *r.pick(&[0usize, 1, 1, 2, 3, 5]) } } else { *r.pick(&[0usize, 1, 3, 10, 50, 200, 500]) };
            let more = if heavy { r.usize(0, 3) } else { *r.pick(&[0usize, 1, 7, 100]) };
            events.push(Ev::Calib { iters: if attainable && !hostile && r.chance(0.7) && !heavy { 1500 } else { iters }, more, ftol: *r.pick(&[1e-8, 1e-8, 1e-14, 0.0]), step: *r.pick(&[0.05, 0.05, 0.3]) });
        }
        if r.chance(0.3) {
            let at = r.usize(0, events.len());
            events.insert(at, Ev::Schedules { seed: r.u64() >> 12 });
        }
        Plan { scenario: if hostile { "hostile".into() } else { "clean".into() }, cfg: json!(Cfg { model, strips, attainable, near }), events: events.into_iter().map(|e| serde_json::to_value(e).unwrap()).collect() }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let mut strips = cfg.strips.clone();
        let mut touched = false;
        let mut past: Vec<(Vec<Strip>, NelderMeadOptions, Fit)> = vec![];
        for e in &plan.events {
            match serde_json::from_value::<Ev>(e.clone()).unwrap() {
                Ev::Vol { p, i, v, bad } => {
                    touched = true;
                    ctx.count(if bad > 0 { "fault.vol_corrupt" } else { "op.vol_tick" });
                    if let Some(x) = strips.get_mut(p).and_then(|s| s.v.get_mut(i)) {
                        *x = spoil(v, bad);
                    }
                }
                Ev::Strike { p, i, bad } => {
                    touched = true;
                    ctx.count("fault.strike_corrupt");
                    if let Some(x) = strips.get_mut(p).and_then(|s| s.k.get_mut(i)) {
                        *x = spoil(*x, bad);
                    }
                }
                Ev::Forward { p, f, bad } => {
                    touched = true;
                    ctx.count(if bad > 0 { "fault.forward_corrupt" } else { "op.forward_tick" });
                    if let Some(s) = strips.get_mut(p) {
                        s.f = spoil(f, bad);
                    }
                }
                Ev::Lose { p, i } => {
                    touched = true;
                    ctx.count("fault.quote_lost");
                    if let Some(s) = strips.get_mut(p) {
                        if i < s.k.len().min(s.v.len()) {
                            s.k.remove(i);
                            s.v.remove(i);
                        }
                    }
                }
                Ev::Dup { p, i } => {
                    touched = true;
                    ctx.count("fault.quote_duplicated");
                    if let Some(s) = strips.get_mut(p) {
                        if i < s.k.len().min(s.v.len()) {
                            s.k.push(s.k[i]);
                            s.v.push(s.v[i]);
                        }
                    }
                }
                Ev::Torn { p, long } => {
                    touched = true;
                    ctx.count("fault.column_torn");
                    if let Some(s) = strips.get_mut(p) {
                        if long { s.v.push(0.1) } else { s.v.pop().map_or((), |_| ()) }
                    }
                }
                Ev::Roll { days } => {
                    touched = true;
                    ctx.count("fault.date_roll");
                    ctx.sim_days += days.abs() as f64;
                    for s in &mut strips {
                        s.t -= days as f64 / 365.0;
                    }
                }
                Ev::Schedules { seed } => effref::probe(&mut Prng::new(seed), ctx)?,
                Ev::Swap { p } => {
                    if p + 1 < strips.len() {
                        touched = true;
                        ctx.count("fault.pillars_misordered");
                        strips.swap(p, p + 1);
                    }
                }
                Ev::Calib { iters, more, ftol, step } => {
                    let opts = NelderMeadOptions { max_iter: iters, ftol, xtol: ftol, step_frac: step };
                    let run = Run { cfg: &cfg, strips: &strips };
                    let bad = run.bad();
                    ctx.count("op.calibrate");
                    let (fit, rmse, _) = run.one(opts, bad.is_none(), ctx)?;
                    if let Some(why) = bad {
                        ctx.count("probe.invalid_market");
                        ensure!(fit.err, "accepted", "a strip with {why} was calibrated: {}", run.what());
                        continue;
                    }
                    if fit.err && matches!(cfg.model, Model::Tsabr { .. }) {
                        continue;
                    }
                    ensure!(!fit.err, "rejected", "a valid strip was rejected: {}", run.what());
                    ctx.nontrivial = true;
                    ctx.obs("rmse", rmse);
                    // a larger budget never ends worse
                    if more > 0 && !matches!(cfg.model, Model::Tsabr { .. }) {
                        let (_, r2, _) = run.one(NelderMeadOptions { max_iter: iters + more, ..opts }, false, ctx)?;
                        ensure!(r2 <= rmse || (r2 - rmse).abs() <= 1e-12 * rmse, "budget", "rmse {rmse} after {iters} iterations, {r2} after {}: {}", iters + more, run.what());
                        ctx.count("probe.budget_monotone");
                    }
                    if cfg.near && !touched && iters >= 1500 {
                        // liveness: from the neighbourhood of an exact fit, an ample budget finds a good
                        // one; a simplex may collapse short of it, so each fit seeds the next
                        let Model::Sabr { alpha, beta, rho, nu } = &cfg.model else { unreachable!() };
                        let (mut initial, mut r) = (SabrParams::new(*alpha, *beta, *rho, *nu), rmse);
                        let mut seen = vec![rmse];
                        for k in 0..8 {
                            if r <= 1e-4 {
                                break;
                            }
                            ctx.count("probe.liveness_restarts");
                            let opts = NelderMeadOptions { step_frac: [0.3, 0.05, 0.6][k % 3], ..opts };
                            if let Ok(g) = no_panic("SabrSmileCalibrator::calibrate", || SabrSmileCalibrator { initial }.calibrate(&strip(&strips[0]), opts))? {
                                (initial, r) = (g.params, g.rmse);
                            }
                            seen.push(r);
                        }
                        // (and some smiles have a second hollow, or lead out onto the plateaus at the
                        // ends of the parameter range, which no descent leaves)
                        let near = compass(&initial, &strips[0]);
                        if r > 1e-4 && (near > 0.5 * r || initial.nu < 0.01 || initial.rho.abs() > 0.999) {
                            ctx.count("probe.second_hollow");
                            continue;
                        }
                        ensure!(r <= 1e-4, "liveness", "{iters} iterations from {:?}, again from every end, end at rmse {seen:?} in {initial:?}, next to {near}, on a smile that model makes: {}", json!(cfg.model), run.what());
                        ctx.count("probe.liveness_checked");
                    }
                    ctx.state(&format!("{} n{} it{} q{}", name(&cfg.model), strips.iter().map(|s| s.k.len()).sum::<usize>(), iters, if rmse.is_finite() { rmse.max(1e-9).log10().round() as i32 } else { 99 }));
                    past.push((strips.clone(), opts, fit));
                }
            }
        }
        // the same market gives the same fit, whatever was fitted in between
        for (s, o, was) in past.iter().take(if matches!(cfg.model, Model::Sabr { .. } | Model::Tsabr { .. }) { 4 } else { 1 }) {
            let run = Run { cfg: &cfg, strips: s };
            let (now, ..) = run.one(*o, false, ctx)?;
            ensure!(now == *was, "history", "the same market was fitted to {was:?} first and to {now:?} later: {}", run.what());
            ctx.count("probe.asked_again");
        }
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let mut cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let mut out = vec![];
        for p in 0..cfg.strips.len() {
            if cfg.strips.len() > 1 {
                let mut c = cfg.clone();
                c.strips.remove(p);
                out.push(Plan { cfg: json!(c), ..plan.clone() });
            }
            if cfg.strips[p].k.len() > 1 {
                let mut c = cfg.clone();
                c.strips[p].k.pop();
                c.strips[p].v.pop();
                c.attainable = false;
                c.near = false;
                out.push(Plan { cfg: json!(c), ..plan.clone() });
            }
        }
        cfg.attainable = false;
        cfg.near = false;
        out
    }
}
