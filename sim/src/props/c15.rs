//! C15: FX market clock, settlement dates and forward ladders.
use crate::core::engine::*;
use crate::core::fxworld::*;
use crate::core::prng::Prng;
use crate::core::util::*;
use crate::core::yieldworld::Probe;
use crate::ensure;
use chrono::{NaiveDate, NaiveTime, Timelike};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::patterns::observer::Observable;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub struct C15;

#[derive(Serialize, Deserialize)]
struct Cfg {
    pair: String,
    date: i64,
    minute: i64,
    quotes: Vec<(Period, f64)>,
}

#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "op")]
enum Ev {
    /// let market time pass
    Tick { minutes: i64 },
    /// jump to some seconds around the next cut-off
    Cutoff { seconds: i64 },
    /// the ladder takes over the effective valuation date
    Roll,
    /// the ladder is moved to another date outright
    Date { days: i64 },
    Add { p: Period, v: f64 },
    Del { i: usize },
    Set { i: usize, v: f64 },
    Swap { i: usize, j: usize },
    Rebuild,
    Lookup { days: i64 },
    LookupAt { i: usize, off: i64 },
    Sweep { from: i64, n: i64 },
    Dates { p: Period },
    Attach { new: bool, i: usize },
    Drop { i: usize },
    Failing { i: usize, on: bool },
    Notify,
    Batch,
}

struct W {
    rp: RefPair,
    u: FXUnderlying,
    /// minutes
    date: NaiveDate,
    second: i64,
    val: NaiveDate,
    quotes: Vec<(Period, f64)>,
    h: FXForwardHelper,
    probes: Vec<(Option<Rc<RefCell<Probe>>>, u64, u64)>,
    last_eff: Option<NaiveDate>,
}

impl W {
    fn time(&self) -> NaiveTime {
        NaiveTime::from_num_seconds_from_midnight_opt(self.second as u32, 0).unwrap()
    }
    fn pass(&mut self, seconds: i64, ctx: &mut Ctx) -> Outcome {
        let s = self.second + seconds;
        self.date = add(self.date, s.div_euclid(86400));
        self.second = s.rem_euclid(86400);
        ctx.sim_days += seconds as f64 / 86400.0;
        let want = self.rp.effective(self.date, self.time());
        let got = no_panic("effective_valuation_date", || self.u.effective_valuation_date(self.date, self.time()))?;
        ctx.ev(&format!("eff {got}"));
        ensure!(got == want, "effective-date", "{} at {} {}: effective valuation date {got}, expected {want}", self.rp.name, self.date, self.time());
        if let Some(l) = self.last_eff {
            ensure!(got >= l, "effective-date", "{}: effective valuation date ran back from {l} to {got}", self.rp.name);
        }
        self.last_eff = Some(got);
        ctx.count("ticks_checked");
        Ok(())
    }
    fn lookup(&self, t: NaiveDate, ctx: &mut Ctx) -> Outcome {
        let cal = self.u.calendar();
        let got = no_panic("get_forward", || self.h.get_forward(t, &cal))?;
        let want = self.rp.points(&self.quotes, self.val, t);
        let ok = match &got {
            Err(_) => false,
            Ok(None) => want.contains(&None),
            Ok(Some(v)) => want.iter().any(|w| w.is_some_and(|w| close(*v, w, 1e-11))),
        };
        match &got {
            Ok(Some(v)) => {
                ctx.obs("pts", *v);
                ctx.count("lookups_hit");
            }
            _ => ctx.count("lookups_none"),
        }
        ensure!(ok, "lookup", "{} ladder of {:?} dated {}: points to {t} are {got:?}, expected {want:?}", self.rp.name, self.quotes, self.val);
        Ok(())
    }
    fn dates(&self, p: Period, ctx: &mut Ctx) -> Outcome {
        let e = self.rp.effective(self.date, self.time());
        for v in [e, self.val] {
            let far = no_panic("settlement_date", || self.u.settlement_date(p, v))?;
            let near = no_panic("near_date", || self.u.near_date(p, v))?;
            let (wf, wn) = (self.rp.far(p, v), self.rp.near(p, v));
            ensure!(far.as_ref().is_ok_and(|x| *x == wf), "settlement-date", "{} {p:?} valued {v}: settles {far:?}, expected {wf}", self.rp.name);
            ensure!(near.as_ref().is_ok_and(|x| *x == wn), "near-date", "{} {p:?} valued {v}: near date {near:?}, expected {wn:?}", self.rp.name);
            // the standard-lag entry points
            let cal = self.u.calendar();
            let far = no_panic("Period::settlement_date", || p.settlement_date(v, &cal))?;
            let near = no_panic("Period::near_date", || p.near_date(v, &cal))?;
            let (wf2, wn2) = (self.rp.far_lag(p, v, 2), self.rp.near_lag(p, v, 2));
            ensure!(far.as_ref().is_ok_and(|x| *x == wf2), "settlement-date", "{p:?} valued {v} on {}'s calendar: settles {far:?}, expected {wf2}", self.rp.name);
            ensure!(near.as_ref().is_ok_and(|x| *x == wn2), "near-date", "{p:?} valued {v} on {}'s calendar: near date {near:?}, expected {wn2:?}", self.rp.name);
            ctx.ev(&format!("{p:?} {wf}"));
            ctx.count("dates_checked");
        }
        Ok(())
    }
    fn notify(&mut self, ctx: &mut Ctx) -> Outcome {
        let got = no_panic("notify_observers", || self.h.notify_observers())?;
        let failing = self.probes.iter().any(|p| p.1 > 0 && p.0.as_ref().is_some_and(|x| x.borrow().failing));
        ensure!(got.is_err() == failing, "notify-result", "notification returned {got:?} with failing observers attached: {failing}");
        for (rc, att, want) in self.probes.iter_mut() {
            let Some(rc) = rc else { continue };
            let seen = rc.borrow().seen;
            if failing {
                ensure!(seen >= *want && seen <= *want + *att, "observer-calls", "observer attached {att} times was called {} times by one notification", seen - *want);
                *want = seen;
            } else {
                *want += *att;
                ensure!(seen == *want, "observer-calls", "observer attached {att} times was called {seen} times in all, expected {want}");
            }
        }
        ctx.count(if failing { "fault.observer_failed" } else { "notified" });
        Ok(())
    }
    fn quiet(&self) -> Outcome {
        for (rc, att, want) in &self.probes {
            let Some(rc) = rc else { continue };
            ensure!(rc.borrow().seen == *want, "observer-calls", "observer attached {att} times was called without a notification");
        }
        Ok(())
    }
}

impl Property for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 10_000_000 } else { 400_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one pair's market along 10-60 events of simulated time (ticks, jumps to seconds around the cut-off, rolls of the ladder, quote edits, observers attached, dropped and failing, notifications, lookups, settlement dates); every answer is compared with an independent calculation; non-trivial = at least one lookup that returned points and one move of the clock; distinct by hash of dates and points returned"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["FXUnderlying", "FXForwardHelper", "Period settlement dates", "JointCalendar", "country calendars"], &["market clock", "counting / failing observers"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["single-country business-day verdicts are taken from the library's calendars (their holiday tables are C31)", "quotes sharing a settlement date: either quote's points are accepted"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let pair = if r.chance(0.3) { *r.pick(&["USDCAD", "USDMXN", "USDTRY", "USDRUB"]) } else { *r.pick(PAIRS) };
        let quotes = gen_ladder(r);
        let cfg = Cfg { pair: pair.into(), date: ord(awkward_date(r)), minute: r.range(0, 1439), quotes };
        let mut ev = vec![];
        for _ in 0..r.usize(10, 60) {
            let i = r.usize(0, 15);
            ev.push(match r.below(24) {
                0 => Ev::Tick { minutes: r.range(1, 600) },
                1 => Ev::Tick { minutes: r.range(600, 20_000) },
                2 | 3 => Ev::Cutoff { seconds: *r.pick(&[-60i64, -1, 0, 1, 60]) },
                4 | 5 => Ev::Roll,
                6 => Ev::Date { days: r.range(-40, 400) },
                7 => Ev::Add { p: tenor(r), v: r.dec(-80.0, 80.0, 2) },
                8 => Ev::Del { i },
                9 => Ev::Set { i, v: r.dec(-80.0, 80.0, 2) },
                10 => Ev::Swap { i, j: r.usize(0, 15) },
                11 => Ev::Rebuild,
                12..=14 => Ev::Lookup { days: if r.chance(0.4) { r.range(-3, 12) } else { r.range(-10, 900) } },
                15 | 16 => Ev::LookupAt { i, off: r.range(-1, 1) },
                17 => Ev::Sweep { from: r.range(-2, 400), n: 12 },
                18 | 19 => Ev::Dates { p: tenor(r) },
                20 => Ev::Attach { new: r.chance(0.6), i },
                21 => match r.below(3) {
                    0 => Ev::Drop { i },
                    1 => Ev::Failing { i, on: r.chance(0.5) },
                    _ => Ev::Batch,
                },
                _ => Ev::Notify,
            });
        }
        Plan { scenario: "fx-clock".into(), cfg: json!(cfg), events: ev.iter().map(|e| json!(e)).collect() }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let c: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let rp = RefPair::new(&c.pair);
        let u = underlying(&c.pair);
        ensure!(u.settles() as i64 == rp.lag && u.cutoff_utc() == rp.cutoff, "conventions", "{} settles T+{} cutting at {}", c.pair, u.settles(), u.cutoff_utc());
        let date = from_ord(c.date);
        let h = u.forward_helper(date, 1.2, lib_quotes(&c.quotes));
        let mut w = W { rp, u, date, second: c.minute * 60, val: date, quotes: c.quotes, h, probes: vec![], last_eff: None };
        w.pass(0, ctx)?;
        let (mut hits, mut moves) = (0, 0);
        for e in &plan.events {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            let n = w.quotes.len();
            match ev {
                Ev::Tick { minutes } => {
                    w.pass(minutes * 60, ctx)?;
                    moves += 1;
                }
                Ev::Cutoff { seconds } => {
                    let mut gap = w.rp.cutoff.num_seconds_from_midnight() as i64 + seconds - w.second;
                    if gap < 0 {
                        gap += 86400;
                    }
                    ctx.count("clock_at_cutoff");
                    w.pass(gap, ctx)?;
                    moves += 1;
                }
                Ev::Roll => {
                    w.val = w.rp.effective(w.date, w.time());
                    w.h.valuation_date = w.u.effective_valuation_date(w.date, w.time());
                }
                Ev::Date { days } => {
                    w.val = add(w.val, days);
                    w.h.valuation_date = w.val;
                }
                Ev::Add { p, v } if n < 20 => {
                    w.quotes.push((p, v));
                    w.h.quotes.push(FXForwardQuote { tenor: p, value: v });
                }
                Ev::Del { i } if n > 0 => {
                    w.quotes.remove(i % n);
                    w.h.quotes.remove(i % n);
                }
                Ev::Set { i, v } if n > 0 => {
                    w.quotes[i % n].1 = v;
                    w.h.quotes[i % n].value = v;
                }
                Ev::Swap { i, j } if n > 0 => {
                    w.quotes.swap(i % n, j % n);
                    w.h.quotes.swap(i % n, j % n);
                }
                Ev::Rebuild => {
                    // a fresh ladder answers like the long-lived one; observers start over
                    w.h = w.u.forward_helper(w.val, 1.2, lib_quotes(&w.quotes));
                    for p in w.probes.iter_mut() {
                        p.1 = 0;
                    }
                }
                Ev::Lookup { days } => {
                    w.lookup(add(w.val, days), ctx)?;
                    hits += 1;
                }
                Ev::LookupAt { i, off } if n > 0 => {
                    w.lookup(add(w.rp.far(w.quotes[i % n].0, w.val), off), ctx)?;
                    hits += 1;
                }
                Ev::Sweep { from, n } => {
                    for k in 0..n {
                        w.lookup(add(w.val, from + k), ctx)?;
                    }
                }
                Ev::Dates { p } => w.dates(p, ctx)?,
                Ev::Attach { new, i } => {
                    if new || w.probes.is_empty() {
                        if w.probes.len() < 8 {
                            w.probes.push((Some(Rc::new(RefCell::new(Probe::default()))), 0, 0));
                        }
                        let k = w.probes.len() - 1;
                        if let Some(rc) = &w.probes[k].0 {
                            w.h.attach(rc.clone());
                            w.probes[k].1 += 1;
                        }
                    } else {
                        let k = i % w.probes.len();
                        if let Some(rc) = &w.probes[k].0 {
                            w.h.attach(rc.clone());
                            w.probes[k].1 += 1;
                        }
                    }
                }
                Ev::Drop { i } if !w.probes.is_empty() => {
                    let k = i % w.probes.len();
                    if let Some(rc) = w.probes[k].0.take() {
                        let weak = Rc::downgrade(&rc);
                        drop(rc);
                        ensure!(weak.upgrade().is_none(), "observer-leak", "a dropped observer is kept alive by the ladder");
                        ctx.count("observers_dropped");
                    }
                }
                Ev::Failing { i, on } if !w.probes.is_empty() => {
                    let k = i % w.probes.len();
                    if let Some(rc) = &w.probes[k].0 {
                        rc.borrow_mut().failing = on;
                    }
                }
                Ev::Notify => w.notify(ctx)?,
                Ev::Batch => {
                    for p in [Period::ON, Period::TN, Period::SPOT, Period::SN] {
                        w.dates(p, ctx)?;
                    }
                }
                _ => {}
            }
            w.quiet()?;
            ctx.state(&format!("{} q{} lag{} eff{} att{}", w.rp.business(w.date), w.quotes.len().min(6), w.rp.lag, (ord(w.rp.effective(w.date, w.time())) - ord(w.date)).min(5), w.probes.iter().map(|p| p.1).sum::<u64>().min(4)));
        }
        ctx.nontrivial = hits > 0 && moves > 0;
        Ok(())
    }
}
