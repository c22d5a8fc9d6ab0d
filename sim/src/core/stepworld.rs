//! Walks: a simulator driven step by step from its initial state, every visited step compared with
//! the stated dynamics, and whole batches and dated runs compared with the iteration of steps.
use super::catalog;
use super::engine::*;
use super::prng::Prng;
use super::seams::with_normals;
use super::simworld::*;
use super::util::*;
use crate::ensure;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone)]
pub struct Cfg {
    pub spec: Spec,
    pub seed: u64,
}

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
pub enum Ev {
    /// check the step from here, then move on over `dt`: along the simulator's own random
    /// numbers, or along the scripted shocks
    Step { dt: f64, check: bool, own: bool, shocks: Vec<Vec<f64>>, drive: Option<Vec<f64>>, poke: Option<Vec<f64>> },
    Batch { dt: f64, steps: usize, paths: usize },
    Dated { val: i64, obs: Vec<i64>, cap: u32, paths: usize, dc: Value },
}

pub const DIMS: usize = 12;

pub fn gen_dt(r: &mut Prng, spec: &Spec, t: f64) -> f64 {
    let br = spec.breaks();
    let ahead: Vec<f64> = br.iter().copied().filter(|b| *b > t).collect();
    if !ahead.is_empty() && r.chance(0.45) {
        // on, just short of, just past or across several breaks
        let b = ahead[r.usize(0, (ahead.len() - 1).min(2))];
        return match r.below(4) {
            0 | 1 => b - t,
            2 if b - t > 1.0 / 512.0 => b - t - 1.0 / 1024.0,
            _ => b - t + 1.0 / 1024.0,
        };
    }
    // lengths in no simple proportion to the breaks, and very long or short steps; dyadic all the
    // same, so that sums of steps meet the breaks without rounding
    if r.chance(0.12) {
        return (*r.pick(&[0.0137, 0.0871, 0.1003, 0.2717, 3.0, 1.0 / 16384.0]) * 1048576.0f64).round() / 1048576.0;
    }
    *r.pick(&[1.0 / 1024.0, 1.0 / 256.0, 1.0 / 64.0, 1.0 / 64.0, 1.0 / 16.0, 1.0 / 16.0, 0.125, 0.25, 0.5, 1.0])
}

pub fn gen_shocks(r: &mut Prng, big: bool) -> Vec<f64> {
    let k = r.usize(1, DIMS);
    (0..if r.chance(0.6) { DIMS } else { k })
        .map(|_| match r.below(12) {
            0 => 0.0,
            1 if big => *r.pick(&[-3.6, 3.6, -5.5, 5.5, -2.0, 2.0]),
            _ => (r.normal() * 1000.0).round() / 1000.0,
        })
        .collect()
}

pub fn generate(r: &mut Prng, kinds: &[usize]) -> Plan {
    let kind = *r.pick(kinds);
    let spec = gen_spec(r, kind);
    let seed = r.u64() >> 12;
    let mut events = vec![];
    let mut t = 0.0;
    for _ in 0..r.usize(2, 14) {
        let dt = gen_dt(r, &spec, t);
        t += dt;
        let drive = match r.below(10) {
            0..=5 => None,
            // down and stuck: visits the boundaries
            6 => Some((0..DIMS).map(|i| if i == 0 { -3.5 } else { 0.5 }).collect()),
            7 => Some((0..DIMS).map(|_| -2.5).collect()),
            _ => Some(gen_shocks(r, true)),
        };
        let poke = r.chance(0.35).then(|| (0..DIMS).map(|_| if r.chance(0.3) { 0.0 } else { (r.normal() * 1000.0).round() / 1000.0 }).collect());
        events.push(Ev::Step { dt, poke, check: r.chance(0.7), own: r.chance(0.5), shocks: (0..r.usize(1, 3)).map(|_| gen_shocks(r, true)).collect(), drive });
    }
    for _ in 0..r.usize(0, 2) {
        if r.chance(0.5) {
            let steps = r.usize(1, 12);
            let dt = *r.pick(&[1.0 / 64.0, 1.0 / 16.0, 0.125, 0.25]);
            events.push(Ev::Batch { dt, steps, paths: r.usize(1, 4) });
        } else {
            events.push(gen_dated(r));
        }
    }
    r.shuffle(&mut events);
    Plan { scenario: spec.name().into(), cfg: serde_json::to_value(Cfg { spec, seed }).unwrap(), events: events.iter().map(|e| serde_json::to_value(e).unwrap()).collect() }
}

pub fn gen_dated(r: &mut Prng) -> Ev {
    let val = ord(d(2001, 1, 1)) + r.range(0, 15_000);
    let span = *r.pick(&[5i64, 40, 200, 700, 1500, 4500]);
    let mut obs: Vec<i64> = (0..r.usize(1, 5)).map(|_| val + r.range(1, span)).collect();
    if r.chance(0.3) {
        obs.push(obs[0]);
    }
    let cap = *r.pick(&[1u32, 2, 7, 30, 31, 91, 365, 366, 5000]);
    let cap = cap.max((span / 60) as u32);
    let dc = if r.chance(0.5) { serde_json::json!({"type": "Actual365Fixed", "market": null}) } else { r.pick(&catalog::day_counter_specs()).clone() };
    Ev::Dated { val, obs, cap, paths: r.usize(1, 3), dc }
}

/// would rounding of the step times decide which regime a step falls into?
fn ambiguous(spec: &Spec, times: &[f64]) -> bool {
    let br = spec.breaks();
    let near = |x: f64| br.iter().any(|b| *b > 0.0 && (x - b).abs() < 1e-9);
    times.iter().any(|t| near(*t)) || times.windows(2).any(|w| near(0.5 * (w[0] + w[1])))
}

pub fn execute(plan: &Plan, ctx: &mut Ctx, mut extra: impl FnMut(&Spec, &[f64], f64, &mut Inst, &mut Ctx) -> Outcome) -> Outcome {
    let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
    let spec = &cfg.spec;
    let name = spec.name();
    let mut inst = spec.build(cfg.seed)?;
    let mut s = inst.initial();
    let want = spec.initial();
    ensure!(vec_close(&s, &want, 1e-15), "initial", "{name} starts from {s:?}, parameters say {want:?}");
    let mut t = 0.0f64;
    extra(spec, &s, t, &mut inst, ctx)?;
    for e in &plan.events {
        let e: Ev = serde_json::from_value(e.clone()).unwrap();
        match e {
            Ev::Step { dt, check, own, shocks, drive, poke } => {
                let mid = t + 0.5 * dt;
                if mid > spec.horizon() + 1.0 || (matches!(spec, Spec::Td { .. }) && mid > spec.horizon()) || !spec.sane(&s) {
                    continue;
                }
                if check {
                    // scripted draws on a copy, so that the path's own randomness goes on undisturbed
                    let mut twin = spec.build(cfg.seed)?;
                    check_step(spec, &mut twin, &s, mid, dt, own, &shocks, ctx)?;
                    // and from a state the path has not reached
                    if let Some(z) = &poke {
                        let s = spec.poke(&s, z);
                        if spec.sane(&s) {
                            check_step(spec, &mut twin, &s, mid, dt, own, &shocks, ctx)?;
                            ctx.count("probe.steps_from_unreached_states");
                        }
                    }
                }
                let step = |inst: &mut Inst| if own { inst.own_step(&s, mid, dt).0 } else { inst.step(&s, mid, dt) };
                let next = match drive {
                    None => no_panic(name, || step(&mut inst))?,
                    Some(z) => no_panic(name, || with_normals(&z, || step(&mut inst)).0)?,
                };
                ctx.count(&format!("op.step.{name}"));
                let crossed = spec.breaks().iter().filter(|b| **b > t && **b <= t + dt).count();
                if crossed > 0 {
                    ctx.count("probe.breaks_crossed");
                }
                ctx.state(&format!("{name} own{own} dt{} crossed{} zero{} t{}", dt.log2() as i32, crossed, s.contains(&0.0), (t * 4.0) as i32));
                t += dt;
                ctx.sim_days += dt * 365.25;
                s = next;
                ctx.obs("s", s[0]);
                ctx.nontrivial = true;
                if spec.sane(&s) {
                    extra(spec, &s, t, &mut inst, ctx)?;
                }
            }
            Ev::Batch { dt, steps, paths } => {
                let steps = if matches!(spec, Spec::Td { .. }) { steps.min((spec.horizon() / dt) as usize) } else { steps };
                if steps == 0 {
                    continue;
                }
                let (mut a, mut b) = (spec.build(cfg.seed ^ 1)?, spec.build(cfg.seed ^ 1)?);
                let Some(x) = no_panic(name, || a.batch(dt * steps as f64, steps, paths))? else { continue };
                let y = no_panic(name, || b.batch_by_steps(dt * steps as f64, steps, paths))?;
                ensure!(x.len() == paths, "batch", "{name}: {} paths, {paths} asked for", x.len());
                for (i, (u, v)) in x.iter().zip(&y).enumerate() {
                    if !spec.sane(v) {
                        break;
                    }
                    ensure!(vec_close(u, v, 1e-9), "batch", "{name}: path {i} of {steps} steps of {dt} ends in {u:?}, the steps one by one in {v:?}; parameters {}", serde_json::to_string(spec).unwrap());
                    ctx.obs("b", u[0]);
                }
                ctx.count(&format!("op.batch.{name}"));
            }
            Ev::Dated { val, obs, cap, paths, dc } => {
                let (val, obs) = (from_ord(val), obs.iter().map(|o| from_ord(*o)).collect::<Vec<_>>());
                let dc = catalog::dc(&dc);
                let last = *obs.iter().max().unwrap();
                                let mut times = vec![];
                let mut x = val;
                let mut all = obs.clone();
                while x < last {
                    all.push(x);
                    x = add(x, cap as i64);
                }
                all.sort();
                for x in all {
                    times.push(dc.year_fraction(val, x).unwrap_or(f64::NAN));
                }
                // (a counter whose fractions run backwards, like actual/actual over some year ends, has no
                // time line to walk along)
                let late = matches!(spec, Spec::Td { .. }) && times.last().is_none_or(|t| *t > spec.horizon());
                if late || times.iter().any(|t| t.is_nan()) || times.windows(2).any(|w| w[1] < w[0]) || ambiguous(spec, &times) {
                    ctx.count("dated_runs_skipped");
                    continue;
                }
                let (mut a, mut b) = (spec.build(cfg.seed ^ 2)?, spec.build(cfg.seed ^ 2)?);
                let x = no_panic(name, || a.dated(val, &obs, paths, cap, dc.as_ref()))?;
                let y = no_panic(name, || b.dated_by_steps(val, &obs, paths, cap, dc.as_ref()))?;
                let mut fine = true;
                for (i, (u, v)) in x.iter().zip(&y).enumerate() {
                    fine &= v.iter().all(|s| spec.sane(s));
                    if !fine {
                        break;
                    }
                    ensure!(u.len() == v.len() && u.iter().zip(v).all(|(a, b)| vec_close(a, b, 1e-9)), "dated", "{name}: path {i} visits {u:?}, the steps one by one {v:?}; from {val}, dates {obs:?}, cap {cap}, {dc:?}, parameters {}", serde_json::to_string(spec).unwrap());
                    ctx.obs("d", u[0][0]);
                }
                ctx.count(&format!("op.dated.{name}"));
            }
        }
    }
    Ok(())
}
