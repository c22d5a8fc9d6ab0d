//! C13: Nelder-Mead under a faulting objective.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::ensure;
use finquant::math::optimize::{NelderMeadOptions, nelder_mead};
use serde::{Deserialize, Serialize};
use serde_json::json;

pub struct C13;

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    kind: String,
    x0: Vec<f64>,
    /// target / centre
    c: Vec<f64>,
    /// curvatures
    k: Vec<f64>,
    max_iter: usize,
    ftol: f64,
    xtol: f64,
    step_frac: f64,
    /// added to every value
    off: f64,
    /// run with the library's default options
    defaults: bool,
}
/// A fault of the objective.
#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    /// evaluation number `at` (1-based), and the following `n - 1`, fail
    At { at: u64, n: u64, nan: bool },
    /// every evaluation in the half space x[i] > bound (or < bound) fails
    Region { i: usize, bound: f64, above: bool, nan: bool },
    /// from evaluation `at` on, everything fails
    Forever { at: u64, nan: bool },
    /// failures in a band of objective values
    Band { lo: f64, hi: f64, nan: bool },
}

fn objective(c: &Cfg, x: &[f64]) -> f64 {
    c.off + match c.kind.as_str() {
        "bowl" => x.iter().zip(&c.c).zip(&c.k).map(|((a, b), k)| k * (a - b) * (a - b)).sum(),
        "rosen" => {
            let mut s = 0.0;
            for i in 0..x.len().max(2) - 1 {
                let (a, b) = (x[i], *x.get(i + 1).unwrap_or(&x[0]));
                s += (1.0 - a).powi(2) + 100.0 * (b - a * a).powi(2);
            }
            s
        }
        "abs" => x.iter().zip(&c.c).map(|(a, b)| (a - b).abs()).sum(),
        "flat" => 3.25,
        "linear" => x.iter().zip(&c.k).map(|(a, k)| a * k).sum(),
        // domain-limited: NaN outside
        "log" => x.iter().zip(&c.c).map(|(a, b)| (a.ln() - b.abs().max(0.1).ln()).powi(2)).sum(),
        _ => x.iter().zip(&c.c).map(|(a, b)| (a - b).sin().powi(2) + 0.01 * (a - b).powi(2)).sum(),
    }
}

impl Property for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 12_000_000 } else { 600_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one minimisation of a seeded objective (bowls, Rosenbrock, kinks, flat, unbounded, domain-limited, multimodal) in 1-6 dimensions with 0-5 injected objective faults (NaN or +inf at an evaluation, for a burst, for a half space, for a band of values, for ever); non-trivial = a fault fired or convergence was decided; distinct by hash of the evaluation values"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["nelder_mead"], &["objective function (seeded, fault-injecting)"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["injected values are NaN or +infinity (an objective of -infinity would be a legitimate best)"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let kind = *r.pick(&["bowl", "bowl", "bowl", "rosen", "abs", "flat", "linear", "log", "wavy"]);
        let converge = kind == "bowl" && r.chance(0.5);
        let n = r.usize(1, if converge { 3 } else { 8 });
        let lo = if kind == "log" { 0.1 } else { -5.0 };
        let c: Vec<f64> = (0..n).map(|_| r.dec(-5.0, 5.0, 3)).collect();
        let k: Vec<f64> = (0..n).map(|_| r.dec(0.5, 4.0, 2)).collect();
        // a start whose simplex is not degenerate, where progress is required
        let x0: Vec<f64> = (0..n)
            .map(|_| {
                if converge {
                    r.dec(1.0, 5.0, 3) * if r.chance(0.5) { 1.0 } else { -1.0 }
                } else if r.chance(0.15) && kind != "log" {
                    0.0
                } else if r.chance(0.06) {
                    *r.pick(&[1e-13, 1e-6, 1e6])
                } else {
                    r.dec(lo, 5.0, 3)
                }
            })
            .collect();
        let defaults = !converge && r.chance(0.1);
        let mut cfg = Cfg {
            off: if r.chance(0.3) { *r.pick(&[-7.5, 100.0, -0.001]) } else { 0.0 },
            defaults,
            kind: kind.into(),
            x0,
            c,
            k,
            max_iter: if converge { 2000 } else { *r.pick(&[0usize, 1, 2, 5, 20, 100, 500]) },
            ftol: if converge { 1e-8 } else { *r.pick(&[1e-8, 1e-4, 0.0, 1e-12, 1.0]) },
            xtol: if converge { 1e-8 } else { *r.pick(&[1e-8, 1e-4, 0.0, 1e-12, 1.0]) },
            step_frac: if converge { 0.05 } else { *r.pick(&[0.05, 0.5, 0.001, 1.0]) },
        };
        if defaults {
            (cfg.max_iter, cfg.ftol, cfg.xtol, cfg.step_frac) = (500, 1e-8, 1e-8, 0.05);
        }
        let mut events = vec![];
        let nf = if r.chance(0.2) { 0 } else { r.usize(1, 4) };
        for _ in 0..nf {
            let nan = r.chance(0.7);
            let e = match r.below(if converge { 1 } else { 6 }) {
                0..=2 => {
                    // never hit the start itself in the convergence scenario
                    let at = if converge { r.range(2, 60) as u64 } else { r.range(1, 120) as u64 };
                    Ev::At { at, n: if r.chance(0.7) { 1 } else { r.range(2, if converge { 4 } else { 12 }) as u64 }, nan }
                }
                3 => Ev::Region { i: r.usize(0, n - 1), bound: r.dec(-4.0, 4.0, 2), above: r.chance(0.5), nan },
                4 => Ev::Forever { at: r.range(1, 80) as u64, nan },
                _ => {
                    let a = r.dec(0.0, 20.0, 2);
                    Ev::Band { lo: a, hi: a + r.dec(0.0, 10.0, 2), nan }
                }
            };
            events.push(serde_json::to_value(e).unwrap());
        }
        Plan { scenario: if converge { "converge".into() } else { "faults".into() }, cfg: serde_json::to_value(cfg).unwrap(), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let faults: Vec<Ev> = plan.events.iter().map(|e| serde_json::from_value(e.clone()).unwrap()).collect();
        let n = cfg.x0.len();
        let mut evals: Vec<(Vec<f64>, f64)> = vec![];
        // every iteration costs at most n + 2 evaluations; generous fixed multiple
        let bound = (cfg.max_iter as u64 + 2) * (n as u64 + 3) * 4 + 100;
        let (mut fired_nan, mut fired_inf) = (0u64, 0u64);
        let f = |x: &[f64]| -> f64 {
            let k = evals.len() as u64 + 1;
            assert!(k <= bound, "evaluation budget exceeded");
            let mut v = objective(&cfg, x);
            for e in &faults {
                let hit = match e {
                    Ev::At { at, n, nan } => (k >= *at && k < *at + *n).then_some(*nan),
                    Ev::Region { i, bound, above, nan } => (x.get(*i).is_some_and(|y| (*y > *bound) == *above)).then_some(*nan),
                    Ev::Forever { at, nan } => (k >= *at).then_some(*nan),
                    Ev::Band { lo, hi, nan } => (v >= *lo && v <= *hi).then_some(*nan),
                };
                if let Some(nan) = hit {
                    v = if nan { f64::NAN } else { f64::INFINITY };
                }
            }
            if v.is_nan() {
                fired_nan += 1
            } else if v.is_infinite() {
                fired_inf += 1
            }
            evals.push((x.to_vec(), v));
            v
        };
        let opts = if cfg.defaults { NelderMeadOptions::default() } else { NelderMeadOptions { max_iter: cfg.max_iter, ftol: cfg.ftol, xtol: cfg.xtol, step_frac: cfg.step_frac } };
        let m = sut(|| nelder_mead(f, &cfg.x0, opts)).map_err(|e| Violation { class: if e.contains("budget") { "budget".into() } else { "panic".into() }, msg: format!("nelder_mead panicked: {e}") })?;
        ctx.add("fault.objective_nan", fired_nan);
        ctx.add("fault.objective_inf", fired_inf);
        ctx.count("op.minimise");
        ctx.add("op.evaluations", evals.len() as u64);
        ensure!(m.x.len() == n, "shape", "result has {} coordinates", m.x.len());
        ensure!(m.iterations <= cfg.max_iter, "iterations", "{} iterations, limit {}", m.iterations, cfg.max_iter);
        // the start must have been evaluated first-hand
        ensure!(evals.iter().any(|(x, _)| *x == cfg.x0), "start", "the starting point was never evaluated");
        let finite_best = evals.iter().filter(|e| e.1.is_finite()).map(|e| e.1).fold(f64::INFINITY, f64::min);
        // reported value belongs to an evaluation of the reported point
        let same = |a: f64, b: f64| a == b || (!a.is_finite() && !b.is_finite());
        let here: Vec<f64> = evals.iter().filter(|(x, _)| *x == m.x).map(|e| e.1).collect();
        ensure!(!here.is_empty(), "point", "the reported point {:?} was never evaluated", m.x);
        ensure!(here.iter().any(|v| same(*v, m.f)), "value", "reported value {:e} at {:?}, evaluations there gave {here:?}", m.f, m.x);
        if finite_best.is_finite() {
            ensure!(m.f.is_finite(), "best", "reported value {:e} although a finite value {finite_best:e} was found", m.f);
            ensure!(m.f <= finite_best, "best", "reported value {:e}, but {finite_best:e} was evaluated", m.f);
        } else {
            ctx.count("probe.never_finite");
            ensure!(!m.converged, "converged", "claims convergence without one finite value");
        }
        let f0 = evals.iter().find(|(x, _)| *x == cfg.x0).unwrap().1;
        if f0.is_finite() {
            ensure!(m.f <= f0, "start", "reported value {:e} is worse than the start {f0:e}", m.f);
        }
        if m.converged {
            ctx.count("probe.converged");
            // every vertex of the last simplex was evaluated
            let tight = evals.iter().filter(|(x, v)| *v - m.f < cfg.ftol && x.iter().zip(&m.x).all(|(a, b)| (a - b).abs() < cfg.xtol)).count();
            ensure!(tight > n, "converged", "claims convergence at {:?} ({:e}) in {n} dimensions, but only {tight} evaluations lie within {:e} in value and {:e} in place", m.x, m.f, cfg.ftol, cfg.xtol);
        } else {
            ensure!(m.iterations == cfg.max_iter, "iterations", "gave up after {} of {} iterations", m.iterations, cfg.max_iter);
        }
        if plan.scenario == "converge" && f0.is_finite() {
            ctx.count("probe.liveness_checked");
            let d0: f64 = objective(&cfg, &cfg.x0);
            ensure!(m.f - cfg.off <= 1e-6 + 1e-6 * (d0 - cfg.off), "progress", "bowl in {n} dimensions: best value {:e} after {} iterations, start {d0:e} (minimum 0)", m.f - cfg.off, m.iterations);
            ensure!(m.converged, "progress", "bowl in {n} dimensions: not converged after {} iterations", m.iterations);
        }
        ctx.nontrivial = fired_nan + fired_inf > 0 || m.converged;
        for (_, v) in &evals {
            ctx.obs("f", *v);
        }
        ctx.obs("min", m.f);
        ctx.state(&format!("{} n{n} nan{} inf{} conv{} it{}", cfg.kind, fired_nan.min(6), fired_inf.min(6), m.converged, (m.iterations as f64 + 1.0).log2() as u32));
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let mut out = vec![];
        if plan.scenario != "converge" {
            for m in [1usize, 2, 5, 20, 100] {
                if m < cfg.max_iter {
                    let mut c = cfg.clone();
                    c.max_iter = m;
                    out.push(Plan { cfg: json!(c), ..plan.clone() });
                }
            }
        }
        out
    }
}
