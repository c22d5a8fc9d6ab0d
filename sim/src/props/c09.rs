//! C09: the SABR-LV particle population against a lock-step reference population.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams::{realised, with_normals};
use crate::core::simworld::*;
use crate::core::util::*;
use crate::ensure;
use serde::{Deserialize, Serialize};
use serde_json::json;

pub struct C09;

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    q: SlvQ,
    dt: f64,
    seed: u64,
}

/// one particle: its shocks, two per step (forward, then the part of the volatility's shock
/// independent of it); steps beyond the list are without shock
#[derive(Serialize, Deserialize, Clone)]
struct Ev {
    z: Vec<[f64; 2]>,
}

/// the stated particle method; None when equal forwards with different volatilities meet at a bin
/// boundary (the bins are then not determined by the population)
fn reference(q: &SlvQ, dt: f64, steps: usize, ps: &[Ev]) -> Option<Vec<[f64; 2]>> {
    let Spec::Td { knots, al, rho, nu, b, f0 } = &q.td else { unreachable!() };
    let n = ps.len();
    let mut st = vec![[*f0, al[0]]; n];
    for s in 0..steps {
        let t = (s as f64 + 0.5) * dt;
        let k = (1..knots.len()).find(|k| t <= knots[*k]).unwrap_or(knots.len() - 1) - 1;
        let (rho, nu) = (rho[k], nu[k]);
        let mut by: Vec<usize> = (0..n).collect();
        by.sort_by(|a, c| st[*a][0].total_cmp(&st[*c][0]));
        let size = n.div_ceil(q.bins);
        let bins: Vec<(f64, f64)> = by.chunks(size).map(|c| (st[*c.last().unwrap()][0], c.iter().map(|i| st[*i][1].powi(2)).sum::<f64>() / c.len() as f64)).collect();
        for i in (size..n).step_by(size) {
            let (x, y) = (st[by[i - 1]], st[by[i]]);
            if close_rel(x[0], y[0], 1e-11) && !(x[0] == y[0] && st.iter().filter(|p| p[0] == x[0]).all(|p| p[1] == x[1])) {
                return None;
            }
        }
        let old = st.clone();
        for (i, p) in st.iter_mut().enumerate() {
            let z = ps[i].z.get(s).copied().unwrap_or([0.0; 2]).map(realised);
            let (wf, wa) = (dt.sqrt() * z[0], dt.sqrt() * (rho * z[0] + (1.0 - rho * rho).sqrt() * z[1]));
            let f = old[i][0].max(1e-12);
            let v = old[i][1];
            let e = bins.iter().find(|c| c.0 >= f).unwrap_or(bins.last().unwrap()).1;
            let lev = (q.local_variance(t, f) / (e * f.powf(2.0 * b - 2.0)).max(1e-12)).sqrt();
            *p = [(f + lev * v * f.powf(*b) * wf).max(0.0), v * (-0.5 * nu * nu * dt + nu * wa).exp()];
        }
    }
    Some(st)
}

impl Property for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 12_000_000 } else { 600_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one SABR-LV population of 1-40 (at times up to 400) particles with seeded parameter schedules, local-variance surface and bin count over 1-8 steps under scripted shocks per particle; the terminal population is compared with the lock-step reference, again with the particles listed in another order, and for one step more; non-trivial = more than one bin in use; distinct by hash of the terminal states"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["TimeDependentSabrSlvSimulator", "TimeDependentSabrParams, PiecewiseConstant", "DupireLocalVol::local_variance", "rand_distr StandardNormal"], &["ChaCha20 word stream (scripted)", "local-variance surface given as data"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["each step draws two shocks per particle in the particles' order, the forward's first", "populations in which equal forwards with different volatilities meet at a bin boundary are not compared (the bins are not determined)"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let q = gen_slv(r);
        let dt = *r.pick(&[1.0 / 64.0, 1.0 / 32.0, 1.0 / 16.0, 0.125]);
        let most = ((q.td.horizon() / dt) as usize).clamp(1, 8);
        let steps = r.usize(1, most);
        let n = match r.below(6) {
            0 => r.usize(1, 3),
            1..=3 => r.usize(4, 15),
            _ if r.chance(0.01) => r.usize(100, 400),
            _ => r.usize(16, 40),
        };
        let wild = r.chance(0.2);
        let events = (0..n)
            .map(|_| {
                let z = (0..steps)
                    .map(|_| {
                        [0, 1].map(|_| if wild && r.chance(0.2) { r.dec(-11.5, 11.5, 4) } else { r.normal() })
                    })
                    .collect();
                serde_json::to_value(Ev { z }).unwrap()
            })
            .collect();
        Plan { scenario: "population".into(), cfg: json!({"q": q, "dt": dt, "seed": r.u64() >> 12, "steps": steps}), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let steps = plan.cfg["steps"].as_u64().unwrap() as usize;
        let ps: Vec<Ev> = plan.events.iter().map(|e| serde_json::from_value(e.clone()).unwrap()).collect();
        if ps.is_empty() {
            return Ok(());
        }
        let q = &cfg.q;
        let go = |ps: &[Ev], steps: usize| -> Result<Vec<[f64; 2]>, Violation> {
            let mut sim = q.build(cfg.seed)?;
            let zs: Vec<f64> = (0..steps).flat_map(|s| ps.iter().flat_map(move |p| p.z.get(s).copied().unwrap_or([0.0; 2]))).collect();
            let out = no_panic("SABR-LV simulate", || with_normals(&zs, || sim.simulate(cfg.dt * steps as f64, steps, ps.len())).0)?;
            Ok(out.iter().map(|s| [s.forward, s.vol]).collect())
        };
        let here = || format!("{} particles, {steps} steps of {}, {}", ps.len(), cfg.dt, serde_json::to_string(q).unwrap());
        // the population after every number of steps up to the last
        let mut prev_ok = true;
        for k in 1..=steps {
            let got = go(&ps, k)?;
            ensure!(got.len() == ps.len(), "population", "{} particles left; {}", got.len(), here());
            for (i, p) in got.iter().enumerate() {
                ensure!(p[0].is_finite() && p[0] >= 0.0, "forward", "particle {i} has forward {} after {k} steps; {}", p[0], here());
                ensure!(p[1].is_finite() && p[1] > 0.0, "volatility", "particle {i} has volatility {} after {k} steps; {}", p[1], here());
            }
            let Some(want) = (if prev_ok { reference(q, cfg.dt, k, &ps) } else { None }) else {
                prev_ok = false;
                ctx.count("undetermined_bins");
                continue;
            };
            for (i, (a, b)) in got.iter().zip(&want).enumerate() {
                let ok = |x: f64, y: f64| (x - y).abs() <= 1e-8 * x.abs().max(y.abs()) + 1e-14;
                ensure!(ok(a[0], b[0]) && ok(a[1], b[1]), "population-step", "after {k} steps particle {i} is {a:?}, the particle method says {b:?}; {}", here());
            }
            ctx.count("populations_compared");
        }
        let last = go(&ps, steps)?;
        if prev_ok && ps.len() > 1 {
            // listed in another order
            let mut order: Vec<usize> = (0..ps.len()).collect();
            Prng::new(cfg.seed).shuffle(&mut order);
            let ps2: Vec<Ev> = order.iter().map(|i| ps[*i].clone()).collect();
            let got = go(&ps2, steps)?;
            for (j, i) in order.iter().enumerate() {
                let ok = |x: f64, y: f64| (x - y).abs() <= 1e-8 * x.abs().max(y.abs()) + 1e-14;
                ensure!(ok(got[j][0], last[*i][0]) && ok(got[j][1], last[*i][1]), "order", "particle {i} ends in {:?}, listed as number {j} in {:?}; {}", last[*i], got[j], here());
            }
            ctx.count("reorderings_compared");
        }
        for p in &last {
            ctx.obs("f", p[0]);
            ctx.obs("v", p[1]);
            if p[0] == 0.0 {
                ctx.count("probe.forward_at_zero");
            }
        }
        ctx.add("op.particle_steps", (ps.len() * steps) as u64);
        ctx.sim_days += cfg.dt * steps as f64 * 365.25;
        let bins = ps.len().div_ceil(ps.len().div_ceil(q.bins));
        ctx.nontrivial = bins > 1;
        ctx.state(&format!("n{} bins{bins} steps{steps} zeros{}", ps.len() / 4, last.iter().filter(|p| p[0] == 0.0).count().min(3)));
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        let steps = plan.cfg["steps"].as_u64().unwrap();
        if steps > 1 {
            let mut p = plan.clone();
            p.cfg["steps"] = json!(steps - 1);
            out.push(p);
        }
        out
    }
}
