//! C02: a failed market-data update is reported and leaves no damaged curve behind.
use crate::core::engine::*;
use crate::core::market::*;
use crate::core::prng::Prng;
use crate::core::yieldworld::*;
use serde_json::{Value, json};

pub struct C02;

impl Property for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 400_000 } else { 16_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one live yield market with 1-4 attached curves and observers; after each edit of quotes or dates, calls of the caller-supplied calendars and day counters made by the rebuild are failed one by one (every call of small rebuilds in sequence over the run, evenly spread ones of large rebuilds), once or for good, observers fail, or a quote is made unbootstrappable; after each failure every curve must be exactly the old or exactly the new bootstrap, and after each fault-free notification exactly the new one; non-trivial = at least one fault fired; distinct by hash of fault positions and outcomes"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["YieldTermMarketData", "YieldTermStructure", "OISRate / FuturesRate / InterestRateSwap bootstrap", "observer wiring"], &["calendars and day counters: shipped ones behind a failing wrapper", "failing observer"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a calendar fails only in its fallible operation (advance); a notification that stops at its first failing observer is allowed to leave later observers un-notified"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let swaps = if r.chance(0.6) { 0 } else { 1 };
        let mq = gen_market(r, true, swaps);
        let mut events = vec![];
        for _ in 0..r.usize(1, 3) {
            events.push(Ev::New { kind: r.below(3) as u8, attach: true });
            if r.chance(0.3) {
                events.push(Ev::NewProbe { failing: r.chance(0.3) });
            }
            if r.chance(0.2) {
                events.push(Ev::Attach { k: r.usize(0, 3) });
            }
        }
        let rounds = r.usize(2, if swaps == 0 { 10 } else { 4 });
        let phase = r.unit();
        for k in 0..rounds {
            for _ in 0..r.usize(1, 3) {
                events.push(gen_edit(r, &mq, true));
            }
            let nf = r.usize(1, 4);
            for j in 0..nf {
                let at = if r.chance(0.3) { r.unit() } else { (phase + (k * nf + j) as f64 / (rounds * nf) as f64).fract() };
                events.push(Ev::Fault { at: (at * 1e6).floor() / 1e6, n: 0, persistent: r.chance(0.4) });
                if r.chance(0.1) {
                    events.push(Ev::FlipProbe { k: r.usize(0, 3) });
                }
            }
            if r.chance(0.2) {
                events.push(Ev::FlipProbe { k: r.usize(0, 3) });
            }
            events.push(Ev::Notify);
            if r.chance(0.2) {
                events.push(Ev::Drop { k: r.usize(0, 7) });
                events.push(Ev::New { kind: 2, attach: true });
            }
        }
        // enumeration: small rebuilds call by call, without notifications in between
        if swaps == 0 && r.chance(0.3) {
            events.push(gen_edit(r, &mq, false));
            for n in 1..=40 {
                events.push(Ev::Fault { at: 0.0, n, persistent: r.chance(0.3) });
            }
            events.push(Ev::Notify);
        }
        Plan { scenario: "yield-faults".into(), cfg: json!(mq), events: events.iter().map(|e| json!(e)).collect() }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let mq: MarketQ = serde_json::from_value(plan.cfg.clone()).unwrap();
        let mut w = World::new(mq);
        for e in &plan.events {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            w.step(&ev, ctx)?;
        }
        // faults over: progress to the state that would have been
        for p in &w.probes {
            if let Some(p) = &p.rc {
                p.borrow_mut().failing = false;
            }
        }
        w.step(&Ev::Notify, ctx)?;
        // and the quotes mended: progress, not an error
        w.mend();
        let before = ctx.counters.get("notify_err").copied();
        w.step(&Ev::Notify, ctx)?;
        crate::ensure!(ctx.counters.get("notify_err").copied() == before, "no-recovery", "the notification still fails after every fault and bad quote is gone");
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        // transient instead of persistent
        for (i, e) in plan.events.iter().enumerate() {
            if e["op"] == "Fault" && e["persistent"] == Value::Bool(true) {
                let mut p = plan.clone();
                p.events[i]["persistent"] = json!(false);
                out.push(p);
            }
        }
        out
    }
}
