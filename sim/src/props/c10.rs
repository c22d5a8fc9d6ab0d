//! C10: no shock sequence drives a simulator out of its state space.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams::with_normals;
use crate::core::simworld::*;
use crate::core::stepworld::{DIMS, gen_dt};
use crate::ensure;
use serde::{Deserialize, Serialize};
use serde_json::json;

pub struct C10;

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    Step { dt: f64, own: bool, z: Vec<f64> },
    /// a whole batch under one scripted stream
    Batch { dt: f64, steps: usize, paths: usize, z: Vec<f64> },
}

const MAX_Z: f64 = 11.9;

/// one adversarial shock vector
fn hostile(r: &mut Prng, style: u64, k: usize) -> Vec<f64> {
    (0..DIMS)
        .map(|i| match style {
            0 => -MAX_Z,
            1 => MAX_Z,
            2 => if (i + k) % 2 == 0 { MAX_Z } else { -MAX_Z },
            3 => if i == 0 { -9.0 } else { 9.0 },
            4 => if k % 2 == 0 { -8.0 } else { 8.0 },
            5 => *r.pick(&[0.0, -6.0, 6.0, MAX_Z, -MAX_Z]),
            6 => r.normal() * 2.0,
            _ => -0.7 - 0.1 * i as f64,
        })
        .collect()
}

/// can the step be taken without floating-point overflow whatever the (bounded) shocks?
fn representable(spec: &Spec, s: &[f64], mid: f64, dt: f64, own: bool) -> bool {
    if !spec.sane(s) && matches!(spec, Spec::Fmm { .. } | Spec::FxFmm { .. }) {
        return false;
    }
    let st = spec.stated(s, mid, dt, own);
    (0..st.a.len()).all(|i| {
        let far = st.a[i].abs() + MAX_Z * 4.0 * st.c[i][i].sqrt();
        if st.kind[i] == Co::Log { far < 600.0 } else { far < 1e150 }
    })
}

/// the invariants of a state reached from `prev`
fn check(spec: &Spec, prev: Option<&[f64]>, s: &[f64], here: &str) -> Outcome {
    let n = spec.name();
    for (i, x) in s.iter().enumerate() {
        ensure!(x.is_finite(), "finite", "{n}: coordinate {i} is {x}; {here}");
    }
    let sign = |i: usize, what: &str| -> Outcome {
        ensure!(s[i] > 0.0, "sign", "{n}: {what} is {}; {here}", s[i]);
        Ok(())
    };
    let nonneg = |i: usize, what: &str| -> Outcome {
        ensure!(s[i] >= 0.0, "negative", "{n}: {what} is {}; {here}", s[i]);
        Ok(())
    };
    match spec {
        Spec::Bm { .. } | Spec::Hw { .. } => {}
        Spec::Gbm { .. } => sign(0, "price")?,
        Spec::Cir { .. } => nonneg(0, "variance")?,
        Spec::Hhw { .. } => {
            sign(0, "FX rate")?;
            nonneg(1, "variance")?;
        }
        Spec::Stock { .. } => {
            sign(0, "FX rate")?;
            nonneg(1, "variance")?;
            sign(4, "stock price")?;
            nonneg(5, "stock variance")?;
        }
        Spec::Sabr { b, .. } | Spec::Td { b, .. } => {
            nonneg(0, "forward")?;
            sign(1, "volatility")?;
            if let Some(p) = prev {
                ensure!(*b == 0.0 || p[0] > 0.0 || s[0] == 0.0, "absorption", "{n}: forward left zero for {}; {here}", s[0]);
            }
        }
        Spec::Fmm { q } => {
            let m = q.m();
            fmm_bits(q, prev.map(fmm_st), &fmm_st(s), m, n, here)?;
        }
        Spec::FxFmm { q } => {
            sign(0, "FX rate")?;
            nonneg(1, "variance")?;
            for f in [false, true] {
                fmm_bits(&q.side(f), prev.map(|p| side_path(p, f)), &side_path(s, f), q.rates.len(), n, here)?;
            }
        }
    }
    Ok(())
}
fn fmm_bits(q: &FmmQ, prev: Option<finquant::models::interestrate::fmm::FmmPath>, p: &finquant::models::interestrate::fmm::FmmPath, m: usize, n: &str, here: &str) -> Outcome {
    for j in 0..m {
        ensure!(p.y_diag[j] >= 0.0 && p.y_at_start[j] >= 0.0 && p.y_at_start[j] <= p.y_diag[j], "accrued-variance", "{n}: period {} has accrued {} and started from {}; {here}", j + 1, p.y_diag[j], p.y_at_start[j]);
        if let Some(b) = &prev {
            ensure!(p.y_diag[j] >= b.y_diag[j], "accrued-variance", "{n}: the accrued variance of period {} fell from {} to {}; {here}", j + 1, b.y_diag[j], p.y_diag[j]);
            if b.t >= q.dates[j + 1] {
                ensure!(p.rates[j] == b.rates[j] && p.y_diag[j] == b.y_diag[j], "frozen", "{n}: rate {} moved after its period ended; {here}", j + 1);
            }
        }
    }
    Ok(())
}

impl Property for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 12_000_000 } else { 500_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one simulator (any of the ten, or a SABR-LV population) driven by 4-30 adversarial shock vectors (the largest the generator can draw, one-sided, alternating, pushing opposite ways, creeping) over uneven steps, state-space invariants after every step, then again as a batch under one hostile stream; non-trivial = a step was taken; distinct by hash of the states"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["all ten path simulators and the SABR-LV population", "rand_distr StandardNormal"], &["ChaCha20 word stream (scripted)"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["shocks up to 11.9 standard deviations (the generator's own limit is about 12.2)", "steps whose stated result could leave the range of floating-point numbers, and market-model states with accrual factors below 0.25, are not taken"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let kind = r.usize(0, KINDS);
        if kind == KINDS {
            let mut q = gen_slv(r);
            let style = r.below(8);
            let mut dt = *r.pick(&[1.0 / 64.0, 1.0 / 16.0, 0.125, 0.25]);
            if r.chance(0.25) {
                let by = *r.pick(&[3.0, 20.0]);
                if let Spec::Td { nu, .. } = &mut q.td {
                    nu.iter_mut().for_each(|x| *x *= by);
                }
                dt = *r.pick(&[1.0 / 65536.0, 1.0 / 4096.0, 1.0 / 1024.0]);
            }
            let steps = ((q.td.horizon() / dt) as usize).clamp(1, 10);
            let paths = r.usize(1, 20);
            let z: Vec<f64> = (0..steps * paths * 2 / DIMS + 1).flat_map(|k| hostile(r, style, k)).collect();
            let ev = Ev::Batch { dt, steps, paths, z };
            return Plan { scenario: "slv".into(), cfg: json!({"slv": q}), events: vec![serde_json::to_value(ev).unwrap()] };
        }
        let mut spec = gen_spec(r, kind);
        let style = r.below(8);
        // wild: parameters far outside the usual range, over very short steps
        let wild = r.chance(0.25);
        if wild {
            let by = *r.pick(&[3.0, 10.0, 60.0]);
            match &mut spec {
                Spec::Bm { sig, .. } | Spec::Gbm { sig, .. } => *sig *= by,
                Spec::Cir { p } => p.gamma *= by,
                Spec::Hw { eta, .. } => *eta *= by,
                Spec::Hhw { q } => q.var.gamma *= by,
                Spec::Stock { q, st } => {
                    q.var.gamma *= by;
                    st.var.gamma *= by;
                }
                Spec::Sabr { nu, .. } => *nu *= by,
                Spec::Td { nu, .. } => nu.iter_mut().for_each(|x| *x *= by),
                Spec::Fmm { .. } => {}
                Spec::FxFmm { q } => q.var.gamma *= by,
            }
        }
        let mut t = 0.0;
        let mut events = vec![];
        for k in 0..r.usize(4, 30) {
            let dt = if wild && r.chance(0.6) {
                *r.pick(&[1.0 / 1048576.0, 1.0 / 65536.0, 1.0 / 16384.0, 1.0 / 4096.0, 1.0 / 1024.0])
            } else if r.chance(0.05) { *r.pick(&[2.0, 1.0 / 1048576.0]) } else { gen_dt(r, &spec, t) };
            t += dt;
            let st = if r.chance(0.2) { r.below(8) } else { style };
            events.push(serde_json::to_value(Ev::Step { dt, own: r.chance(0.5), z: hostile(r, st, k) }).unwrap());
        }
        let steps = r.usize(1, 8);
        let z: Vec<f64> = (0..steps * 2).flat_map(|k| hostile(r, style, k)).collect();
        events.push(serde_json::to_value(Ev::Batch { dt: *r.pick(&[1.0 / 64.0, 1.0 / 16.0, 0.25]), steps, paths: 2, z }).unwrap());
        Plan { scenario: spec.name().into(), cfg: json!({"spec": spec}), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        if plan.scenario == "slv" {
            let q: SlvQ = serde_json::from_value(plan.cfg["slv"].clone()).unwrap();
            for e in &plan.events {
                let Ev::Batch { dt, steps, paths, z } = serde_json::from_value(e.clone()).unwrap() else { continue };
                if dt * steps as f64 > q.td.horizon() {
                    continue;
                }
                let mut sim = q.build(1)?;
                let out = no_panic("SABR-LV simulate", || with_normals(&z, || sim.simulate(dt * steps as f64, steps, paths)).0)?;
                for (i, s) in out.iter().enumerate() {
                    ensure!(s.forward.is_finite() && s.forward >= 0.0, "negative", "SABR-LV particle {i} has forward {}; {steps} steps of {dt}, {q:?}", s.forward);
                    ensure!(s.vol.is_finite() && s.vol > 0.0, "sign", "SABR-LV particle {i} has volatility {}; {steps} steps of {dt}, {q:?}", s.vol);
                    ctx.obs("f", s.forward);
                    if s.forward == 0.0 {
                        ctx.count("probe.at_zero");
                    }
                }
                ctx.count("op.batch.SabrLv");
                ctx.add("fault.hostile_shocks", (steps * paths * 2) as u64);
                ctx.nontrivial = true;
            }
            return Ok(());
        }
        let spec: Spec = serde_json::from_value(plan.cfg["spec"].clone()).unwrap();
        let name = spec.name();
        let mut inst = spec.build(1)?;
        let mut s = inst.initial();
        let mut t = 0.0;
        for e in &plan.events {
            match serde_json::from_value(e.clone()).unwrap() {
                Ev::Step { dt, own, z } => {
                    let mid = t + 0.5 * dt;
                    if (matches!(spec, Spec::Td { .. }) && mid > spec.horizon()) || !representable(&spec, &s, mid, dt, own) {
                        ctx.count("steps_not_representable");
                        continue;
                    }
                    let n = no_panic(name, || with_normals(&z, || if own { inst.own_step(&s, mid, dt).0 } else { inst.step(&s, mid, dt) }).0)?;
                    check(&spec, Some(&s), &n, &format!("from {s:?} at {t} over {dt} under shocks {z:?}, parameters {}", plan.cfg["spec"]))?;
                    ctx.add("fault.hostile_shocks", z.len() as u64);
                    ctx.count(&format!("op.step.{name}"));
                    let boundary = n.contains(&0.0) && !matches!(spec, Spec::Fmm { .. } | Spec::FxFmm { .. });
                    if boundary {
                        ctx.count("probe.at_boundary");
                    }
                    ctx.state(&format!("{name} {boundary} {}", (n[0].abs().max(1e-300).log10() * 2.0) as i32));
                    ctx.obs("s", n[0]);
                    s = n;
                    t += dt;
                    ctx.sim_days += dt * 365.25;
                    ctx.nontrivial = true;
                }
                Ev::Batch { dt, steps, paths, z } => {
                    // follow the same stream step by step first: only representable walks
                    let end = dt * steps as f64;
                    if matches!(spec, Spec::Td { .. }) && end > spec.horizon() {
                        continue;
                    }
                    let mut twin = spec.build(1)?;
                    let fine = no_panic(name, || {
                        with_normals(&z, || {
                            (0..paths).all(|_| {
                                let mut s = twin.initial();
                                (0..steps).all(|k| {
                                    let mid = (k as f64 + 0.5) * dt;
                                    let ok = representable(&spec, &s, mid, dt, true);
                                    if ok {
                                        s = twin.own_step(&s, mid, dt).0;
                                    }
                                    ok
                                })
                            })
                        })
                        .0
                    })?;
                    if !fine {
                        continue;
                    }
                    let mut b = spec.build(1)?;
                    let Some(out) = no_panic(name, || with_normals(&z, || b.batch(end, steps, paths)).0)? else { continue };
                    for s in &out {
                        check(&spec, None, s, &format!("end of a batch of {steps} steps of {dt} under {z:?}, parameters {}", plan.cfg["spec"]))?;
                    }
                    ctx.count(&format!("op.batch.{name}"));
                }
            }
        }
        Ok(())
    }
}
