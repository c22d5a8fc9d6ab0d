//! C17: a failing calendar or day counter surfaces as an error in every pricer.
use crate::core::capworld::*;
use crate::core::catalog;
use crate::core::engine::*;
use crate::core::faults;
use crate::core::market::*;
use crate::core::prng::Prng;
use crate::core::util::*;
use crate::core::yieldworld::{blank_curve, ref_of};
use crate::ensure;
use finquant::derivatives::interestrate::basic::{IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSwap;
use finquant::error::Result as FqResult;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapletVolPillar, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::{InterestRateQuote, YieldTermMarketData};
use finquant::time::calendars::{Calendar, JointCalendar};
use finquant::time::period::Period;
use iso_currency::Currency;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

pub struct C17;

#[derive(Serialize, Deserialize)]
struct Cfg {
    mq: MarketQ,
    zeros: Vec<(i64, f64)>,
    nodes: Vec<(i64, Vec<(f64, f64)>)>,
    swaps: Vec<SwapQ>,
    caps: Vec<CapQ>,
    vol: f64,
}

/// One operation, failed at every call it makes.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
enum Op {
    Strip,
    Cash { i: usize, what: u8 },
    Future { i: usize, what: u8 },
    /// dates and prices of a swap
    Swap { i: usize, what: u8 },
    Cap { i: usize, what: u8 },
    /// rebuild of the caplet surface
    Surface,
    IrContext,
    FxContext,
    /// `year_fraction_to_date` on top of a failing year fraction
    ToDate { dc: Value, t: f64 },
    /// a date computation straight on a calendar, or a joint one with the failing calendar in it
    Advance { joint: bool, days: i64, months: u32, eom: bool },
}
#[derive(Serialize, Deserialize, Clone)]
struct Ev {
    what: Op,
    /// how many failing positions to try at most; positions are spread evenly from `phase`
    most: u64,
    phase: f64,
    /// exactly this position and kind (after minimisation)
    only: Option<(u64, u8)>,
}

struct Live {
    md: YieldTermMarketData,
    ctx: IrMarketContext,
    swaps: Vec<InterestRateSwap>,
    caps: Vec<CapFloor>,
    capmd: IRCapMarketData,
    surface: IRNormalVolSurface,
}

fn show<T: std::fmt::Debug>(r: FqResult<T>) -> std::result::Result<String, String> {
    r.map(|x| format!("{x:?}")).map_err(|e| e.to_string())
}

fn hand_nodes(c: &Cfg) -> Vec<CapletVolPillar> {
    c.nodes.iter().map(|(t, n)| CapletVolPillar { expiry: add(from_ord(c.mq.val), *t), nodes: n.clone() }).collect()
}

fn run_op(c: &Cfg, l: &mut Live, op: &Op) -> std::result::Result<String, String> {
    let val = from_ord(c.mq.val);
    match op {
        Op::Strip => show(l.md.get_stripped_curve()),
        Op::Cash { i, what } => {
            let q = &l.md.cash_quote[i % l.md.cash_quote.len()];
            match what {
                0 => show(q.settle_date(val)),
                1 => show(q.maturity_date(val)),
                2 => show(q.zero_rate(val)),
                _ => show(q.discount(val)),
            }
        }
        Op::Future { i, what } => {
            let q = &l.md.futures_quote[i % l.md.futures_quote.len()];
            let p = zero_pillars(val, &c.zeros);
            match what {
                0 => show(q.settle_date(val)),
                1 => show(q.maturity_date(val)),
                2 => show(q.zero_rate(val, &p)),
                _ => show(q.discount(val, &p)),
            }
        }
        Op::Swap { i, what } => {
            let s = &l.swaps[i % l.swaps.len()];
            match what {
                0 => show(s.mtm(&l.ctx).map(|v| (v.value, v.currency))),
                1 => show(s.dv01(&l.ctx)),
                2 => show(s.gamma(&l.ctx, 10.0, RateShiftMode::Zeros)),
                3 => show(s.modified_duration(&l.ctx)),
                4 => show(s.npv(val, &mut blank_curve(val, zero_pillars(val, &c.zeros)))),
                5 => show(s.settle_date(val)),
                6 => show(s.maturity_date(val)),
                7 => show(s.legs.iter().map(|g| g.generate_schedule(val)).collect::<FqResult<Vec<_>>>()),
                8 => show(s.legs.iter().map(|g| g.effective_date(val)).collect::<FqResult<Vec<_>>>()),
                9 => show(s.vega(&l.ctx, 1.0)),
                _ => show(s.try_solve_zero_rate(val, zero_pillars(val, &c.zeros))),
            }
        }
        Op::Cap { i, what } => {
            let x = &l.caps[i % l.caps.len()];
            match what {
                0 => show(x.mtm(&l.ctx).map(|v| (v.value, v.currency))),
                1 => show(x.dv01(&l.ctx)),
                2 => show(x.gamma(&l.ctx, 10.0, RateShiftMode::Zeros)),
                3 => show(x.vega(&l.ctx, 1.0)),
                _ => show(x.modified_duration(&l.ctx)),
            }
        }
        Op::Surface => {
            l.surface.pillars = hand_nodes(c);
            l.surface.valuation_date = add(val, -1);
            let before = (l.surface.valuation_date, surface_nodes(&l.surface));
            let r = l.surface.rebuild(&l.ctx.curve, &l.capmd);
            let after = (l.surface.valuation_date, surface_nodes(&l.surface));
            match r {
                Ok(()) => Ok(format!("{after:?}")),
                Err(e) if after == before => Err(e.to_string()),
                Err(e) => Ok(format!("damaged by a rebuild that failed with {e}: {after:?}")),
            }
        }
        Op::IrContext => show(
            IrMarketContext::from_raw_quotes(val, Currency::EUR, c.mq.lib(), Some(IRCapMarketData::new(val, vec![])), catalog::cal(&catalog::sim_cal(&c.mq.cal)), catalog::dc(&catalog::sim_dc(&c.mq.dc)))
                .map(|x| (x.curve.stripped_curves, x.curve.valuation_date, x.cap_surface.map(|s| surface_nodes(&s)))),
        ),
        Op::FxContext => {
            let smile = |t: i64| FXDeltaVolPillar { expiry: add(val, t), forward: 1.1, quotes: vec![FXVolQuote::Atm(0.1), FXVolQuote::RiskReversal { delta: 0.25, vol: 0.002 }, FXVolQuote::Butterfly { delta: 0.25, vol: 0.003 }] };
            let sc = || catalog::cal(&catalog::sim_cal(&c.mq.cal));
            let sd = || catalog::dc(&catalog::sim_dc(&c.mq.dc));
            show(
                FxMarketContext::from_raw_quotes(val, 1.1, (Currency::USD, Currency::EUR), c.mq.lib(), c.mq.lib(), vec![], vec![smile(91), smile(365)], sc(), sc(), sd(), sd())
                    .map(|x| (x.domestic_curve.stripped_curves, x.foreign_curve.stripped_curves, x.spot)),
            )
        }
        Op::ToDate { dc, t } => show(catalog::dc(&json!({"type": "SimYearFraction", "inner": dc})).year_fraction_to_date(val, *t)),
        Op::Advance { joint, days, months, eom } => {
            let cal = catalog::cal(&catalog::sim_cal(&c.mq.cal));
            let cal: Box<dyn Calendar> = if *joint { Box::new(JointCalendar::new(vec![cal])) } else { cal };
            let bdc = finquant::time::businessdayconvention::BusinessDayConvention::ModifiedFollowing;
            show((|| {
                let a = cal.advance(val, Period::Days(*days), bdc, None)?;
                let b = cal.advance(a.unwrap_or(val), Period::Months(*months), bdc, Some(*eom))?;
                Ok((a, b))
            })())
        }
    }
}

impl Property for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 200_000 } else { 5_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one market with a rates book and 2-6 operations on it (curve strip, dates and rates of cash quotes, futures and swaps, schedules, value and every greek of swaps and caps, swap-rate solve, caplet-surface rebuild, market contexts from raw quotes, date-from-year-fraction, calendar advances); each operation is run once undisturbed, then again with each of its calendar and day-counter calls failing in turn (all calls up to 48, evenly spread ones beyond), as a transient error, a persistent error and a calendar without a date to offer, each followed by an undisturbed repeat; non-trivial = a fault fired; distinct by hash of operations, positions and outcomes"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (
            &["InterestRateSwap", "CapFloor", "OISRate", "FuturesRate", "YieldTermMarketData", "IRNormalVolSurface", "IrMarketContext and FxMarketContext constructors", "DayCounters::year_fraction_to_date", "JointCalendar"],
            &["calendars and day counters: shipped ones behind a failing wrapper"],
        )
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a calendar fails in its fallible operation (advance), by an error or by offering no date; the FX ladder only asks infallible calendar questions, so no call of it can fail; simulate_at_dates has no error channel and is judged by C04"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, thorough: bool) -> Plan {
        let swaps = if r.chance(0.25) { 1 } else { 0 };
        let mq = gen_market(r, true, swaps);
        let mut t = r.range(20, 200);
        let zeros = (0..r.usize(1, 5))
            .map(|_| {
                let x = (t, r.dec(0.0, 0.06, 4));
                t += r.range(60, 1500);
                x
            })
            .collect();
        let mut t = r.range(30, 300);
        let nodes = (0..r.usize(1, 3))
            .map(|_| {
                let x = (t, (0..r.usize(1, 3)).map(|k| (0.01 + 0.01 * k as f64, r.dec(0.004, 0.015, 5))).collect());
                t += r.range(91, 800);
                x
            })
            .collect();
        let swapq = (0..r.usize(1, 2))
            .map(|_| {
                let years = r.usize(1, 5) as u32;
                let lvl = r.dec(0.0, 0.06, 4);
                let mut q = if r.chance(0.5) { gen_quote_swap(r, years, lvl) } else { crate::props::c16::gen_trade_swap(r, mq.val) };
                if r.chance(0.2) {
                    let start = mq.val + r.range(-500, 60);
                    let n = r.usize(1, 6) as i64;
                    for l in q.legs.iter_mut() {
                        l.schedule = (0..n).map(|k| SchedQ { start: start + k * 182, end: start + (k + 1) * 182, pay: start + (k + 1) * 182, balance: l.notional }).collect();
                    }
                }
                if q.legs.is_empty() {
                    return q;
                }
                if r.chance(0.1) {
                    let k = r.usize(0, q.legs.len() - 1);
                    q.legs[k].freq = r.pick(&["Daily", "Biweekly"]).to_string();
                }
                // legs no schedule can be generated for are refused
                if r.chance(0.05) {
                    q.legs[0].freq = "Once".into();
                } else if r.chance(0.03) {
                    q.legs[0].tenor = Period::Months(0);
                }
                q
            })
            .collect();
        let caps = (0..r.usize(1, 2))
            .map(|_| {
                let b = r.dec(0.0, 0.05, 3);
                if r.chance(0.5) { gen_cap(r, b) } else { gen_trade_cap(r, b) }
            })
            .collect();
        let mut events = vec![];
        for _ in 0..r.usize(2, 6) {
            let i = r.usize(0, 7);
            let what = match r.below(20) {
                0..=1 => Op::Strip,
                2..=3 => Op::Cash { i, what: r.below(4) as u8 },
                4 if !mq.fut.is_empty() => Op::Future { i, what: r.below(4) as u8 },
                4..=10 => Op::Swap { i, what: r.below(11) as u8 },
                11..=14 => Op::Cap { i, what: r.below(5) as u8 },
                15 => Op::Surface,
                16 => Op::IrContext,
                17 => Op::FxContext,
                18 => Op::ToDate { dc: r.pick(&catalog::day_counter_specs()).clone(), t: r.dec(0.0, 8.0, 3) },
                _ => Op::Advance { joint: r.chance(0.3), days: r.range(-5, 5), months: r.usize(0, 30) as u32, eom: r.chance(0.5) },
            };
            let what = match what {
                Op::Cash { .. } if mq.cash.is_empty() => Op::Strip,
                x => x,
            };
            events.push(serde_json::to_value(Ev { what, most: if thorough { 160 } else { 48 }, phase: r.unit(), only: None }).unwrap());
        }
        Plan { scenario: "failing-conventions".into(), cfg: serde_json::to_value(Cfg { mq, zeros, nodes, swaps: swapq, caps, vol: r.dec(0.004, 0.012, 4) }).unwrap(), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let c: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        faults::disarm();
        let val = from_ord(c.mq.val);
        let mut surface = IRNormalVolSurface::new(val);
        surface.pillars = hand_nodes(&c);
        let curve = blank_curve(val, zero_pillars(val, &c.zeros));
        let rc = ref_of(&curve);
        let quotes = c.caps.iter().map(|q| q.lib_quote(val, cap_pv(q, &q.periods(val), val, &rc, 0.0, &|_| c.vol), true)).collect();
        let mut s2 = IRNormalVolSurface::new(add(val, -1));
        s2.pillars = hand_nodes(&c);
        let mut l = Live {
            md: c.mq.lib(),
            ctx: IrMarketContext::new(val, Currency::EUR, curve, Some(surface)),
            swaps: c.swaps.iter().map(|q| c.mq.lib_swap(q)).collect(),
            caps: c.caps.iter().map(|q| q.lib_cap(val, val, true)).collect(),
            capmd: IRCapMarketData::new(val, quotes),
            surface: s2,
        };
        for e in &plan.events {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            let name = json!(ev.what).to_string();
            faults::disarm();
            let base = no_panic(&name, || run_op(&c, &mut l, &ev.what))?;
            let calls = faults::disarm().calls;
            ctx.ev(&format!("{name} {calls} {}", base.is_ok()));
            ctx.count(if base.is_ok() { "op.priced" } else { "op.refused_without_fault" });
            let positions: Vec<(u64, u8)> = match ev.only {
                Some(p) => vec![p],
                None if calls <= ev.most => (1..=calls).flat_map(|n| (0..3).map(move |k| (n, k))).collect(),
                None => (0..ev.most).map(|j| 1 + (((j as f64 + ev.phase) / ev.most as f64) * calls as f64) as u64).flat_map(|n| (0..3).map(move |k| (n.min(calls), k))).collect(),
            };
            ctx.count(if calls <= ev.most { "op.enumerated_completely" } else { "op.enumerated_in_part" });
            for (n, kind) in positions {
                match kind {
                    0 => faults::arm(n, false),
                    1 => faults::arm(n, true),
                    _ => faults::arm_none(n, false),
                }
                let how = ["failing", "failing for good", "without an answer"][kind as usize];
                let got = sut(|| run_op(&c, &mut l, &ev.what));
                let f = faults::disarm();
                ctx.add("fault.calendar", f.fired_cal);
                ctx.add("fault.day_counter", f.fired_dc);
                ctx.add(["fault.transient", "fault.persistent", "fault.no_date"][kind as usize], (f.fired > 0) as u64);
                ctx.nontrivial |= f.fired > 0;
                let got = match got {
                    Ok(g) => g,
                    Err(m) => return fail("panic", format!("{name}, call {n} of {calls} {how}: {m}")),
                };
                ctx.ev(if got.is_ok() { "ok" } else { "err" });
                match (&got, &base) {
                    (Err(_), _) => ctx.count("error_surfaced"),
                    (Ok(a), Ok(b)) => {
                        // a calendar asked directly may hand its missing answer through
                        let direct = matches!(ev.what, Op::Advance { .. } | Op::Swap { what: 8, .. });
                        ensure!(a == b || kind == 2 && direct, "wrong-value", "{name}, call {n} of {calls} {how}: {a}, without the fault {b}");
                        ctx.count(if f.fired > 0 { "fault_without_effect" } else { "fault_not_reached" });
                    }
                    (Ok(a), Err(b)) => ensure!(kind == 2 && matches!(ev.what, Op::Advance { .. }), "wrong-value", "{name}, call {n} of {calls} {how}: {a}, without the fault refused: {b}"),
                }
                let again = no_panic(&name, || run_op(&c, &mut l, &ev.what))?;
                ensure!(again == base, "not-recovered", "{name} after call {n} of {calls} was {how}: {again:?}, before the fault {base:?}");
            }
            ctx.state(&format!("{} c{}", name.chars().filter(|x| !x.is_ascii_digit()).take(60).collect::<String>(), (calls as f64 + 1.0).log2().floor()));
        }
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        for (i, e) in plan.events.iter().enumerate() {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            if ev.only.is_none() && plan.events.len() == 1 {
                for n in 1..=60 {
                    for k in 0..3 {
                        let mut p = plan.clone();
                        p.events[i] = serde_json::to_value(Ev { only: Some((n, k)), ..ev.clone() }).unwrap();
                        out.push(p);
                    }
                }
            }
        }
        out
    }
}
