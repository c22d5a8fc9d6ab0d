//! C04: dated Monte Carlo schedule semantics, observed by a probe model.
use crate::core::catalog;
use crate::core::engine::*;
use crate::core::faults;
use crate::core::prng::Prng;
use crate::core::util::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::models::common::simulation::{DatedPaths, SimulationModel, simulate_at_dates};
use finquant::time::daycounters::DayCounters;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeSet;

pub struct C04;

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    val: i64,
    dc: Value,
    /// some runs use several simulations on one model (state carried by the model itself)
    probe_seed: u64,
}

/// One simulation request.
#[derive(Serialize, Deserialize, Clone)]
struct Ev {
    obs: Vec<i64>,
    paths: usize,
    cap: u32,
    /// day-counter fault: 0 none, else the number of the failing call
    fault: u64,
    persistent: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Probe {
    /// global numbers of the steps that led here
    lineage: Vec<u64>,
    value: f64,
}

struct ProbeModel {
    calls: Vec<(f64, f64)>,
    parents: Vec<Option<u64>>,
    x0: f64,
}

impl SimulationModel for ProbeModel {
    type State = Probe;
    fn initial_state(&self) -> Probe {
        Probe { lineage: vec![], value: self.x0 }
    }
    fn step(&mut self, s: &Probe, t: f64, dt: f64) -> Probe {
        let n = self.calls.len() as u64;
        self.calls.push((t, dt));
        self.parents.push(s.lineage.last().copied());
        let mut l = s.lineage.clone();
        l.push(n);
        // value depends on the order, times and step number
        Probe { lineage: l, value: s.value * 1.0000001 + dt * (1.0 + t) + n as f64 }
    }
}

fn reference_grid(val: NaiveDate, obs: &[NaiveDate], cap: u32) -> Vec<NaiveDate> {
    let last = *obs.iter().max().unwrap();
    let mut g: BTreeSet<NaiveDate> = obs.iter().copied().collect();
    let mut k = val;
    while k < last {
        g.insert(k);
        k = add(k, cap as i64);
    }
    g.insert(val);
    g.into_iter().collect()
}

impl Property for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 6_000_000 } else { 300_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = 1-4 dated simulations (dates unsorted/repeated/adjacent, step cap, paths, day counter incl. ones with zero-length days, optional failing day-counter call) of one probe model; non-trivial = at least one simulation recorded more than one observation or met a zero-length interval or a fired fault; distinct by hash of all recorded (t, dt) schedules and states"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["simulate_at_dates, DatedPaths and all shipped day counters"], &["SimulationModel probe (records its calls)", "day counters: stair-step and failing ones"])
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let specs = catalog::day_counter_specs();
        let dc = match r.below(10) {
            0..=3 => r.pick(&specs).clone(),
            4..=5 => json!({"type": "StairDayCounter", "every": r.range(2, 9), "phase": r.range(0, 8)}),
            6 => json!({"type": "Thirty360", "market": *r.pick(&["USA", "European", "ISMA", "NASD"])}),
            _ => json!({"type": "Actual365Fixed", "market": null}),
        };
        let val = ord(d(2001, 1, 1)) + r.range(0, 20_000);
        let n = r.usize(1, 4);
        let faulty = r.chance(0.25);
        let events = (0..n)
            .map(|_| {
                let k = match r.below(8) {
                    0 => 1,
                    1..=5 => r.usize(2, 6),
                    _ => r.usize(7, 14),
                };
                let span = *r.pick(&[3i64, 10, 40, 120, 400, 400, 3000, 9000]);
                let mut obs: Vec<i64> = (0..k).map(|_| val + r.range(1, span)).collect();
                if r.chance(0.3) && k > 1 {
                    let j = r.usize(0, k - 1);
                    let i = r.usize(0, k - 1);
                    obs[i] = obs[j]; // duplicates
                }
                if r.chance(0.3) {
                    obs.sort();
                }
                let cap = match r.below(6) {
                    0 => 1,
                    1 => 7,
                    2 => span as u32,
                    3 => (span * 2) as u32,
                    _ => r.range(1, span.max(2)) as u32,
                };
                // keep runs bounded
                let cap = cap.max((span / 120) as u32).max(1);
                let fault = if faulty && r.chance(0.5) { r.range(1, 30) as u64 } else { 0 };
                serde_json::to_value(Ev { obs, paths: if r.chance(0.05) { r.usize(5, 20) } else { r.usize(1, 4) }, cap, fault, persistent: r.chance(0.3) }).unwrap()
            })
            .collect();
        Plan { scenario: "dated".into(), cfg: serde_json::to_value(Cfg { val, dc, probe_seed: r.below(1000) }).unwrap(), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let val = from_ord(cfg.val);
        let dcx = catalog::dc(&catalog::sim_dc(&cfg.dc));
        let mut model = ProbeModel { calls: vec![], parents: vec![], x0: cfg.probe_seed as f64 };
        for e in &plan.events {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            self.one(&cfg, val, dcx.as_ref(), &mut model, &ev, ctx)?;
        }
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        for (i, e) in plan.events.iter().enumerate() {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            let mut push = |n: Ev| {
                let mut p = plan.clone();
                p.events[i] = serde_json::to_value(n).unwrap();
                if p != *plan {
                    out.push(p)
                }
            };
            for k in 0..ev.obs.len() {
                if ev.obs.len() > 1 {
                    let mut n = ev.clone();
                    n.obs.remove(k);
                    push(n);
                }
            }
            let mut n = ev.clone();
            n.paths = 1;
            push(n);
            let mut n = ev.clone();
            n.fault = 0;
            push(n);
            let mut n = ev.clone();
            n.cap = 10_000;
            push(n);
        }
        out
    }
}

impl C04 {
    fn one(&self, cfg: &Cfg, val: NaiveDate, dcx: &dyn DayCounters, model: &mut ProbeModel, ev: &Ev, ctx: &mut Ctx) -> Outcome {
        let obs: Vec<NaiveDate> = ev.obs.iter().map(|o| from_ord(*o)).collect();
        let mut sorted = obs.clone();
        sorted.sort();
        ctx.count("op.simulate");
        ctx.sim_days += (ord(*sorted.last().unwrap()) - cfg.val) as f64 * ev.paths as f64;
        let calls0 = model.calls.len();
        if ev.fault > 0 {
            faults::arm(ev.fault, ev.persistent);
        } else {
            faults::disarm();
        }
        let res = sut(|| simulate_at_dates(model, val, &obs, ev.paths, ev.cap, dcx));
        let f = faults::disarm();
        ctx.add("fault.day_counter_error", f.fired_dc);
        let out: DatedPaths<Probe> = match res {
            Err(m) => {
                ensure!(f.fired > 0, "panic", "simulate_at_dates panicked without any fault: {m}");
                ctx.nontrivial = true;
                ctx.ev("refused");
                ctx.count("probe.refused_after_fault");
                return Ok(());
            }
            Ok(o) => o,
        };
        // schedule as seen by the model
        let grid = reference_grid(val, &obs, ev.cap);
        let yf: Vec<f64> = grid.iter().map(|g| dcx.year_fraction(val, *g).unwrap()).collect();
        // time runs forward, at calendar pace: no shipped day counter is further than five days
        // (nine if it counts business days) or 20% from the calendar
        if cfg.dc["type"] != "StairDayCounter" {
            let slack = if cfg.dc["type"] == "Business252" { 9.0 } else { 5.0 };
            for (g, t) in grid.iter().zip(&yf) {
                let days = (ord(*g) - cfg.val) as f64;
                ctx.count("probe.time_pace");
                ensure!((t * 365.25 - days).abs() < (0.2 * days).max(slack), "pace", "{} measures the {days} days from {val} to {g} as {t} years", cfg.dc);
            }
        }
        let monotone = yf.windows(2).all(|w| w[1] >= w[0]);
        ensure!(out.valuation_date == val, "header", "valuation date of the result is {} not {val}", out.valuation_date);
        ensure!(out.observation_dates == sorted, "header", "observation dates {:?}, expected {:?}", out.observation_dates, sorted);
        ensure!(out.paths.len() == ev.paths && out.n_paths() == ev.paths, "paths", "{} paths returned, {} requested", out.paths.len(), ev.paths);
        for (p, path) in out.paths.iter().enumerate() {
            ensure!(path.len() == sorted.len(), "observations", "path {p} holds {} states for {} observation dates (day counter {}, fault fired {})", path.len(), sorted.len(), cfg.dc, f.fired);
        }
        for dd in &sorted {
            let s = no_panic("states_at", || out.states_at(*dd))?;
            ensure!(s.is_some(), "lookup", "states_at({dd}) is None");
            let k = no_panic("sample", || out.sample(*dd, |s| s.value))?;
            ensure!(k.map(|k| k.len()) == Some(ev.paths), "lookup", "sample({dd}) has the wrong size");
            // the state returned must be one recorded for that date
            let s = s.unwrap();
            ensure!(s.len() == ev.paths, "lookup", "states_at({dd}) has the wrong size");
            for (p, st) in s.iter().enumerate() {
                let ok = sorted.iter().zip(&out.paths[p]).any(|(o, q)| o == dd && q == st);
                ensure!(ok, "lookup", "states_at({dd}) is not the state recorded for that date");
            }
        }
        ensure!(out.states_at(add(*sorted.last().unwrap(), 1)).is_none(), "lookup", "states_at of a date outside the grid is not None");
        if !monotone {
            ctx.count("probe.non_monotone_day_counter");
            return Ok(());
        }
        // expected steps (zero-length ones make no call)
        let mut exp: Vec<(f64, f64)> = vec![];
        let mut upto: Vec<usize> = vec![0; grid.len()]; // steps taken when the grid date is reached
        let mut zero = 0u64;
        for i in 1..grid.len() {
            let dt = yf[i] - yf[i - 1];
            if dt > 0.0 {
                exp.push((0.5 * (yf[i] + yf[i - 1]), dt));
            } else {
                zero += 1;
            }
            upto[i] = exp.len();
        }
        ctx.add("probe.zero_length_intervals", zero);
        let made = &model.calls[calls0..];
        ensure!(made.len() == exp.len() * ev.paths, "steps", "{} steps were made, {} expected ({} per path x {} paths; cap {} days; fault fired {})", made.len(), exp.len() * ev.paths, exp.len(), ev.paths, ev.cap, f.fired);
        let mut used: BTreeSet<u64> = BTreeSet::new();
        for (p, path) in out.paths.iter().enumerate() {
            let full = &path.last().unwrap().lineage;
            ensure!(full.len() == exp.len(), "tiling", "path {p} took {} steps to the last observation, expected {}", full.len(), exp.len());
            for (k, n) in full.iter().enumerate() {
                ensure!(used.insert(*n), "paths", "paths share a step");
                let (t, dt) = model.calls[*n as usize];
                let (et, edt) = exp[k];
                ensure!(close(dt, edt, 1e-12), "dt", "path {p} step {k}: dt {dt:e}, the day counter gives {edt:e} (fault fired {})", f.fired);
                ensure!(close(t, et, 1e-12), "midpoint", "path {p} step {k}: t {t:e}, interval midpoint {et:e} (fault fired {})", f.fired);
                let parent = model.parents[*n as usize];
                let want = if k == 0 { None } else { Some(full[k - 1]) };
                ensure!(parent == want, "chain", "path {p} step {k} did not start from the previous state");
            }
            for (j, dd) in sorted.iter().enumerate() {
                let gi = grid.binary_search(dd).unwrap();
                let want = upto[gi];
                ensure!(path[j].lineage.len() == want && path[j].lineage[..] == full[..want], "observation", "path {p}: state recorded for {dd} was taken after {} steps, the date is reached after {want}", path[j].lineage.len());
                let mut v = cfg.probe_seed as f64;
                for n in &full[..want] {
                    let (t, dt) = model.calls[*n as usize];
                    v = v * 1.0000001 + dt * (1.0 + t) + *n as f64;
                }
                ensure!(v == path[j].value, "observation", "path {p}: state recorded for {dd} is not the state reached there");
            }
        }
        if sorted.len() > 1 || zero > 0 || f.fired > 0 {
            ctx.nontrivial = true;
        }
        for (t, dt) in made {
            ctx.obs("t", *t);
            ctx.obs("dt", *dt);
        }
        ctx.state(&format!("{}|z{}|o{}|dup{}|g{}|p{}", cfg.dc, zero.min(9), sorted.len().min(6), sorted.windows(2).any(|w| w[0] == w[1]), (exp.len() as f64).log2().ceil(), ev.paths));
        Ok(())
    }
}
