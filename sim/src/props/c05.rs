//! C05: simulations depend on inputs and seed alone.
use crate::core::catalog;
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams::{set_clock, set_entropy, with_normals};
use crate::core::simworld::*;
use crate::core::stepworld::gen_dated;
use crate::core::util::*;
use crate::ensure;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub struct C05;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Model {
    Walk(Spec),
    Slv(SlvQ),
}
#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    /// parameters and seed of every simulator alive in the run
    sims: Vec<(Model, u64)>,
}

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    Step { sim: usize, dt: f64, own: bool },
    /// start the walk again from the initial state
    Rewind { sim: usize },
    Batch { sim: usize, dt: f64, steps: usize, paths: usize },
    Dated { sim: usize, run: serde_json::Value },
    Clock { secs: i64 },
    Entropy { seed: u64 },
    /// a further simulator comes to life and is thrown away
    Stranger { of: usize, seed: u64 },
}

enum Live {
    Walk(Inst, Vec<f64>, f64),
    Slv(finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator),
}

fn build(m: &Model, seed: u64) -> Result<Live, Violation> {
    Ok(match m {
        Model::Walk(s) => {
            let i = s.build(seed)?;
            let st = i.initial();
            Live::Walk(i, st, 0.0)
        }
        Model::Slv(q) => Live::Slv(q.build(seed)?),
    })
}

/// run one operation; its complete output, bit for bit
fn apply(m: &Model, l: &mut Live, e: &Ev) -> Result<Option<Vec<Vec<f64>>>, Violation> {
    let bounded = |spec: &Spec, t: f64| !matches!(spec, Spec::Td { .. }) || t <= spec.horizon();
    Ok(match (m, l, e) {
        (Model::Walk(spec), Live::Walk(i, s, t), Ev::Step { dt, own, .. }) => {
            if !bounded(spec, *t + dt) || !spec.sane(s) {
                return Ok(None);
            }
            let mid = *t + 0.5 * dt;
            let n = no_panic(spec.name(), || if *own { i.own_step(s, mid, *dt).0 } else { i.step(s, mid, *dt) })?;
            *t += dt;
            *s = n.clone();
            Some(vec![n])
        }
        (_, Live::Walk(i, s, t), Ev::Rewind { .. }) => {
            *s = i.initial();
            *t = 0.0;
            None
        }
        (Model::Walk(spec), Live::Walk(i, ..), Ev::Batch { dt, steps, paths, .. }) => {
            let end = dt * *steps as f64;
            if !bounded(spec, end) {
                return Ok(None);
            }
            no_panic(spec.name(), || i.batch(end, *steps, *paths))?
        }
        (Model::Walk(spec), Live::Walk(i, ..), Ev::Dated { run, .. }) => {
            let crate::core::stepworld::Ev::Dated { val, obs, cap, paths, dc } = serde_json::from_value(run.clone()).unwrap() else { unreachable!() };
            let (val, obs) = (from_ord(val), obs.iter().map(|o| from_ord(*o)).collect::<Vec<_>>());
            let dc = catalog::dc(&dc);
            let last = *obs.iter().max().unwrap();
            let mut x = val;
            while x <= last {
                match dc.year_fraction(val, x) {
                    Ok(t) if bounded(spec, t) => {}
                    _ => return Ok(None),
                }
                x = add(x, 1);
            }
            let p = no_panic(spec.name(), || i.dated(val, &obs, paths, cap, dc.as_ref()))?;
            Some(p.into_iter().flatten().collect())
        }
        (Model::Slv(q), Live::Slv(x), Ev::Batch { dt, steps, paths, .. }) => {
            let end = dt * *steps as f64;
            if !bounded(&q.td, end) {
                return Ok(None);
            }
            Some(no_panic("SABR-LV simulate", || x.simulate(end, *steps, *paths))?.iter().map(|s| vec![s.forward, s.vol]).collect())
        }
        _ => None,
    })
}
fn target(e: &Ev) -> Option<usize> {
    match e {
        Ev::Step { sim, .. } | Ev::Rewind { sim } | Ev::Batch { sim, .. } | Ev::Dated { sim, .. } => Some(*sim),
        _ => None,
    }
}
fn same(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(u, v)| u.to_bits() == v.to_bits() || u == v || (u.is_nan() && v.is_nan())))
}
impl Property for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 4_000_000 } else { 150_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = 2-5 simulators (some identical, some differing in the seed alone) alive at once, driven through 4-24 interleaved steps, batches and dated runs while the wall clock and OS entropy change and other simulators come and go; each simulator's transcript is compared bit for bit with a solo replay in another environment, batches with prefixes, splits and single steps; non-trivial = two simulators produced output; distinct by hash of all outputs"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["all ten path simulators and the SABR-LV population", "simulate_at_dates", "ChaCha20 generators with their own seeds", "rand_distr StandardNormal"], &["wall clock", "OS entropy"])
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let n = r.usize(2, 5);
        let mut sims: Vec<(Model, u64)> = vec![];
        for i in 0..n {
            if i > 0 && r.chance(0.5) {
                let (m, s) = r.pick(&sims).clone();
                sims.push((m, if r.chance(0.5) { s } else { r.u64() >> 12 }));
            } else {
                let kind = r.usize(0, KINDS);
                let m = if kind == KINDS { Model::Slv(gen_slv(r)) } else { Model::Walk(gen_spec(r, kind)) };
                sims.push((m, *r.pick(&[0u64, 1, 42, u64::MAX >> 12, r.clone().u64() >> 12])));
            }
        }
        let mut events = vec![];
        for _ in 0..r.usize(4, 24) {
            let sim = r.usize(0, n - 1);
            let dt = *r.pick(&[1.0 / 256.0, 1.0 / 64.0, 1.0 / 16.0, 0.25]);
            let e = match r.below(20) {
                0..=8 => Ev::Step { sim, dt, own: r.chance(0.5) },
                9 => Ev::Rewind { sim },
                10..=13 => Ev::Batch { sim, dt, steps: r.usize(1, 8), paths: if r.chance(0.004) { r.usize(40, 300) } else { r.usize(1, 6) } },
                14..=15 => Ev::Dated { sim, run: serde_json::to_value(gen_dated(r)).unwrap() },
                16..=17 => Ev::Clock { secs: r.range(-2_000_000_000, 6_000_000_000) },
                18 => Ev::Entropy { seed: r.u64() >> 12 },
                _ => Ev::Stranger { of: sim, seed: r.u64() >> 12 },
            };
            events.push(serde_json::to_value(e).unwrap());
        }
        Plan { scenario: "interleaved".into(), cfg: serde_json::to_value(Cfg { sims }).unwrap(), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let evs: Vec<Ev> = plan.events.iter().map(|e| serde_json::from_value(e.clone()).unwrap()).collect();
        let n = cfg.sims.len();
        set_clock(1_700_000_000);
        set_entropy(7);
        let mut live: Vec<Live> = cfg.sims.iter().map(|(m, s)| build(m, *s)).collect::<Result<_, _>>()?;
        let mut log: Vec<Vec<Option<Vec<Vec<f64>>>>> = vec![vec![]; n];
        for e in &evs {
            match e {
                Ev::Clock { secs } => {
                    set_clock(*secs);
                    ctx.count("fault.clock_jump");
                }
                Ev::Entropy { seed } => {
                    set_entropy(*seed);
                    ctx.count("fault.entropy_change");
                    // hash maps of the process get new keys
                    let _: HashMap<u8, u8> = HashMap::new();
                }
                Ev::Stranger { of, seed } => {
                    let m = &cfg.sims[*of % n].0;
                    let mut x = build(m, *seed)?;
                    apply(m, &mut x, &Ev::Step { sim: 0, dt: 1.0 / 64.0, own: false })?;
                    apply(m, &mut x, &Ev::Batch { sim: 0, dt: 1.0 / 64.0, steps: 1, paths: 2 })?;
                    ctx.count("op.stranger");
                }
                e => {
                    let i = target(e).unwrap() % n;
                    let out = apply(&cfg.sims[i].0, &mut live[i], e)?;
                    if let Some(o) = &out {
                        ctx.count(match e {
                            Ev::Step { .. } => "op.step",
                            Ev::Batch { .. } => "op.batch",
                            _ => "op.dated",
                        });
                        for x in o.iter().flatten().take(8) {
                            ctx.obs("x", *x);
                        }
                    }
                    log[i].push(out);
                }
            }
        }
        // solo, in another environment
        for (i, (m, seed)) in cfg.sims.iter().enumerate() {
            set_clock(1_000_000_000 + 86_400 * i as i64);
            set_entropy(1000 + i as u64);
            let mut solo = build(m, *seed)?;
            let mine: Vec<&Ev> = evs.iter().filter(|e| target(e).is_some_and(|s| s % n == i)).collect();
            for (k, e) in mine.iter().enumerate() {
                let out = apply(m, &mut solo, e)?;
                let ok = match (&out, &log[i][k]) {
                    (None, None) => true,
                    (Some(a), Some(b)) => same(a, b),
                    _ => false,
                };
                ensure!(ok, "environment", "simulator {i} ({m:?}, seed {seed}), its call {k} ({}): {:?} among others, {:?} on its own", serde_json::to_string(e).unwrap(), log[i][k], out);
            }
            ctx.count("solo_replays");
        }
        // twins: same model, same calls from the start
        let mut batches = 0;
        for (i, (m, seed)) in cfg.sims.iter().enumerate() {
            let Some((dt, steps, paths)) = evs.iter().find_map(|e| match e {
                Ev::Batch { sim, dt, steps, paths } if sim % n == i => Some((*dt, *steps, *paths)),
                _ => None,
            }) else {
                continue;
            };
            let batch = |l: &mut Live, paths: usize| apply(m, l, &Ev::Batch { sim: 0, dt, steps, paths });
            let Some(whole) = batch(&mut build(m, *seed)?, paths)? else { continue };
            ensure!(whole.len() == paths, "paths", "{m:?}: {} paths for {paths}", whole.len());
            batches += 1;
            // another seed moves every path
            // (unless noise does not reach the end of this batch at all: zero volatilities,
            // rates fixed, every path absorbed)
            let quiet = with_normals(&[], || build(m, *seed).and_then(|mut l| batch(&mut l, 1))).0?.unwrap();
            let pushed = with_normals(&vec![0.3; 40 * steps], || build(m, *seed).and_then(|mut l| batch(&mut l, 1))).0?.unwrap();
            let noisy = !stuck(m, &quiet[0]) && !stuck(m, &pushed[0]) && !vec_close(&quiet[0], &pushed[0], 1e-6);
            if noisy && !whole.iter().all(|p| stuck(m, p)) {
                let other = batch(&mut build(m, seed ^ 0x5555)?, paths)?.unwrap();
                ensure!(!same(&whole, &other), "seed", "{m:?}: seeds {seed} and {} give the same batch {whole:?}", seed ^ 0x5555);
                for a in 0..paths {
                    for b in 0..a {
                        ensure!(stuck(m, &whole[a]) || whole[a] != whole[b], "paths", "{m:?} seed {seed}: paths {a} and {b} are identical: {:?}", whole[a]);
                    }
                }
                ctx.count("seeds_told_apart");
            }
            let Model::Walk(spec) = m else { continue };
            let close = |a: &[Vec<f64>], b: &[Vec<f64>]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| !spec.sane(y) || vec_close(x, y, 1e-12));
            for k in (1..paths).step_by((paths / 6).max(1)) {
                let mut l = build(m, *seed)?;
                let first = batch(&mut l, k)?.unwrap();
                let rest = batch(&mut l, paths - k)?.unwrap();
                ensure!(close(&first, &whole[..k]), "prefix", "{m:?} seed {seed}: the batch of {k} is {first:?}, the first of {paths} are {:?}", &whole[..k]);
                ensure!(close(&rest, &whole[k..]), "split", "{m:?} seed {seed}: after a batch of {k}, a batch of {} gives {rest:?}, the whole batch {:?}", paths - k, &whole[k..]);
                ctx.count("splits_compared");
            }
            let Live::Walk(mut x, ..) = build(m, *seed)? else { unreachable!() };
            let by = no_panic(spec.name(), || x.batch_by_steps(dt * steps as f64, steps, paths))?;
            ensure!(close(&whole, &by), "composition", "{m:?} seed {seed}: batch {whole:?}, single steps {by:?}");
        }
        let talkers = log.iter().filter(|l| l.iter().any(|o| o.is_some())).count();
        ctx.nontrivial = talkers >= 2;
        ctx.state(&format!("talkers{talkers} batches{batches} {}", cfg.sims.iter().map(|(m, _)| match m { Model::Walk(s) => s.name(), Model::Slv(_) => "Slv" }).collect::<Vec<_>>().join(",")));
        Ok(())
    }
}

/// an absorbed or frozen path may coincide with another
fn stuck(m: &Model, s: &[f64]) -> bool {
    match m {
        Model::Walk(Spec::Cir { .. }) => s[0] == 0.0,
        Model::Walk(Spec::Sabr { .. } | Spec::Td { .. }) | Model::Slv(_) => s[0] <= 1e-11,
        // before the first tenor date nothing else may have moved
        Model::Walk(Spec::Fmm { q }) => q.sig.iter().any(|x| *x == 0.0) || s.iter().any(|x| !x.is_finite()),
        _ => false,
    }
}
