//! C01: a notified yield curve equals a fresh bootstrap of the current market.
use crate::core::engine::*;
use crate::core::market::*;
use crate::core::prng::Prng;
use crate::core::yieldworld::*;
use crate::ensure;
use serde_json::json;

pub struct C01;

impl Property for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 1_000_000 } else { 40_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one live yield market (deposits, futures, swaps; five calendars) with 8-40 events: quote and list edits, rolls of the valuation date, curves created empty/stale/current, attached late, twice, dropped, observers and observables of other types, notifications, lookups; after every event each curve is compared with its expected pillars; non-trivial = at least two successful rebuilds with an edit between them; distinct by hash of the notification outcomes, solved rates and lookups"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["YieldTermMarketData", "YieldTermStructure", "OISRate / FuturesRate / InterestRateSwap bootstrap", "observer wiring", "IMM", "calendars", "day counters"], &["counting observer of another type", "observable of another type"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["swap quotes are bootstrapped over zero rates in 0..50 %, the documented range of the solver; a quote within 1e-9 of that edge may go either way"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let swaps = if r.chance(0.5) { 0 } else { 2 };
        let mq = gen_market(r, false, swaps);
        let mut events = vec![Ev::New { kind: r.below(3) as u8, attach: true }];
        for _ in 0..r.usize(7, if swaps == 0 { 40 } else { 20 }) {
            events.push(match r.below(20) {
                0..=6 => gen_edit(r, &mq, false),
                7..=11 => Ev::Notify,
                12..=14 => gen_query(r),
                15 => Ev::New { kind: r.below(3) as u8, attach: r.chance(0.7) },
                16 => Ev::Attach { k: r.usize(0, 7) },
                17 => Ev::Drop { k: r.usize(0, 7) },
                18 => match r.below(3) {
                    0 => Ev::NewProbe { failing: false },
                    1 => Ev::DropProbe { k: r.usize(0, 3) },
                    _ => Ev::ForeignUpdate { k: r.usize(0, 7) },
                },
                _ => Ev::Notify,
            });
        }
        Plan { scenario: "yield-market".into(), cfg: json!(mq), events: events.iter().map(|e| json!(e)).collect() }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let mq: MarketQ = serde_json::from_value(plan.cfg.clone()).unwrap();
        let mut w = World::new(mq);
        let (mut edits, mut rebuilt_after_edit) = (0, 0);
        for e in &plan.events {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            ensure!(!matches!(ev, Ev::Fault { .. }), "plan", "C01 plans carry no faults");
            let before = ctx.counters.get("rebuilds_checked").copied().unwrap_or(0);
            w.step(&ev, ctx)?;
            match ev {
                Ev::Notify => {
                    if ctx.counters.get("rebuilds_checked").copied().unwrap_or(0) > before && edits > 0 {
                        rebuilt_after_edit += 1;
                        edits = 0;
                    }
                }
                Ev::Query { .. } | Ev::New { .. } | Ev::Attach { .. } | Ev::Drop { .. } | Ev::NewProbe { .. } | Ev::DropProbe { .. } | Ev::ForeignUpdate { .. } => {}
                _ => edits += 1,
            }
        }
        ctx.nontrivial = rebuilt_after_edit >= 2;
        Ok(())
    }
}
