//! C03: caplet-volatility surface rebuilds.
use crate::core::capworld::*;
use crate::core::engine::*;
use crate::core::faults;
use crate::core::prng::Prng;
use crate::core::util::*;
use crate::core::yieldworld::{Probe, blank_curve, ref_of};
use crate::ensure;
use chrono::NaiveDate;
use finquant::derivatives::interestrate::basic::IRDerivatives;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::YieldTermStructure;
use finquant::patterns::observer::Observable;
use iso_currency::Currency;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

pub struct C03;

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    val: i64,
    zeros: Vec<(i64, f64)>,
    start_val: i64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
enum Ev {
    /// new quote, premium from a flat volatility on the current curve
    Add { q: CapQ, vol: f64 },
    Del { i: usize },
    /// reprice at a flat volatility on the current curve
    Vol { i: usize, vol: f64 },
    /// reprice every quote at one volatility plus a per-quote spread
    VolAll { vol: f64, spread: f64 },
    /// scale one premium (possibly out of reach)
    Scale { i: usize, by: f64 },
    Premium { i: usize, v: f64 },
    /// a quote whose strike is not a number
    BadStrike { i: usize, kind: u8 },
    /// quote with an empty schedule
    Empty { i: usize },
    Shift { bp: f64 },
    /// curve, market data roll together or alone
    Roll { days: i64, curve: bool, md: bool },
    Rebuild,
    Fault { at: f64, persistent: bool },
    Notify,
    /// another observer, or the `again`-th live one once more
    Attach { again: Option<usize> },
    /// an observer goes out of scope
    Detach { i: usize },
    Lookup { days: i64, k: f64 },
    Sweep,
    DelEmpty,
}

struct Q {
    q: CapQ,
    base: NaiveDate,
    premium: f64,
    empty: bool,
}

type Nodes = Vec<(NaiveDate, Vec<(f64, f64)>)>;

struct W {
    val: NaiveDate,
    quotes: Vec<Q>,
    curve: YieldTermStructure,
    md: IRCapMarketData,
    s: IRNormalVolSurface,
    snap: (NaiveDate, Nodes),
    /// live observers, how often each is attached, how often it was called
    probes: Vec<(Rc<RefCell<Probe>>, u64, u64)>,
}

enum Want {
    Ok,
    Refuse(String),
    Edge,
}

fn same(a: &Nodes, b: &Nodes) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(m, n)| m.0.to_bits() == n.0.to_bits() && m.1.to_bits() == n.1.to_bits()))
}

impl W {
    fn periods(q: &Q) -> Vec<Per> {
        if q.empty { vec![] } else { q.q.periods(q.base) }
    }
    /// quotes that add a new expiry on their strike, per strike, in strip order
    fn columns(&self) -> Vec<(f64, Vec<(usize, NaiveDate)>)> {
        let mut ks: Vec<f64> = vec![];
        for q in &self.quotes {
            if !ks.contains(&q.q.strike) {
                ks.push(q.q.strike);
            }
        }
        ks.sort_by(f64::total_cmp);
        ks.into_iter()
            .map(|k| {
                let mut v: Vec<(usize, NaiveDate)> = self.quotes.iter().enumerate().filter(|(_, q)| q.q.strike == k).map(|(i, q)| (i, Self::periods(q).last().map(|p| p.start).unwrap_or(self.val))).collect();
                v.sort_by_key(|x| x.1);
                let mut out: Vec<(usize, NaiveDate)> = vec![];
                for x in v {
                    if out.last().is_none_or(|l| x.1 > l.1) {
                        out.push(x);
                    }
                }
                (k, out)
            })
            .collect()
    }
    fn pv(&self, i: usize, strip: &[(NaiveDate, f64)], trial: f64) -> f64 {
        let q = &self.quotes[i];
        let rc = ref_of(&self.curve);
        cap_pv(&q.q, &Self::periods(q), self.md.valuation_date, &rc, 0.0, &|t| strip.iter().find(|s| t <= s.0).map(|s| s.1).unwrap_or(trial))
    }
    /// whether the current market can be stripped (reference bisection)
    fn want(&self) -> Want {
        if self.quotes.iter().any(|q| q.empty) {
            return Want::Refuse("a quote has no caplets".into());
        }
        if self.quotes.iter().any(|q| !q.q.strike.is_finite()) {
            return Want::Refuse("a strike is not a number".into());
        }
        for (_, col) in self.columns() {
            let mut strip: Vec<(NaiveDate, f64)> = vec![];
            for (i, exp) in col {
                let q = &self.quotes[i];
                let f = |s: f64| self.pv(i, &strip, s) - q.premium;
                let (mut lo, mut hi) = (1e-5, 0.10);
                let (a, b) = (f(lo), f(hi));
                let tol = 1e-7 * q.q.notional;
                if a.is_nan() || b.is_nan() {
                    return Want::Refuse("premium is not a number".into());
                }
                if a.abs() < tol || b.abs() < tol {
                    return Want::Edge;
                }
                if a * b > 0.0 {
                    return Want::Refuse(format!("premium {} of quote {i} out of reach", q.premium));
                }
                for _ in 0..100 {
                    let m = 0.5 * (lo + hi);
                    if (f(m) > 0.0) == (a > 0.0) {
                        lo = m
                    } else {
                        hi = m
                    }
                }
                strip.push((exp, 0.5 * (lo + hi)));
            }
        }
        Want::Ok
    }
    fn undisturbed(&self, what: &str) -> Outcome {
        ensure!(self.s.valuation_date == self.snap.0 && same(&surface_nodes(&self.s), &self.snap.1), "surface-changed", "the surface changed without a successful rebuild ({what})");
        Ok(())
    }
    fn fresh(&self) -> Option<IRNormalVolSurface> {
        let mut f = IRNormalVolSurface::new(add(self.val, -400));
        let md = IRCapMarketData::new(
            self.md.valuation_date,
            self.quotes
                .iter()
                .map(|q| {
                    let mut l = q.q.lib_quote(q.base, q.premium, true);
                    if q.empty {
                        l.schedule.clear();
                    }
                    l
                })
                .collect(),
        );
        match sut(|| f.rebuild(&self.curve, &md)) {
            Ok(Ok(())) => Some(f),
            _ => None,
        }
    }
    /// after a reported success
    fn check_new(&mut self, ctx: &mut Ctx) -> Outcome {
        let nodes = surface_nodes(&self.s);
        ensure!(self.s.valuation_date == self.md.valuation_date, "valuation-date", "the rebuilt surface is dated {}, its market {}", self.s.valuation_date, self.md.valuation_date);
        let Some(f) = self.fresh() else {
            return fail("not-fresh", "the live rebuild succeeded, a fresh surface's rebuild of the same market fails");
        };
        ensure!(same(&surface_nodes(&f), &nodes) && f.valuation_date == self.s.valuation_date, "not-fresh", "the rebuilt surface differs from a fresh strip of the same market");
        // structure: union of expiries, per pillar the latest point of each column
        let cols = self.columns();
        let mut exps: Vec<NaiveDate> = cols.iter().flat_map(|c| c.1.iter().map(|x| x.1)).collect();
        exps.sort();
        exps.dedup();
        ensure!(nodes.iter().map(|n| n.0).collect::<Vec<_>>() == exps, "pillars", "surface expiries {:?}, expected {exps:?}", nodes.iter().map(|n| n.0).collect::<Vec<_>>());
        let at = |e: NaiveDate, k: f64| nodes.iter().find(|n| n.0 == e).and_then(|n| n.1.iter().find(|x| x.0 == k)).map(|x| x.1);
        let mut colpts: Vec<(f64, Vec<(NaiveDate, f64)>)> = vec![];
        for (k, col) in &cols {
            let mut strip: Vec<(NaiveDate, f64)> = vec![];
            for (i, exp) in col {
                let Some(s) = at(*exp, *k) else {
                    return fail("pillars", format!("no node for strike {k} at its own expiry {exp}"));
                };
                let q = &self.quotes[*i];
                let pv = self.pv(*i, &strip, s);
                let h = 1e-6;
                let vega = (self.pv(*i, &strip, s + h) - self.pv(*i, &strip, s)).abs() / h;
                let tol = 1e-9 + 1e-9 * vega + 1e-12 * q.q.notional;
                if !((pv - q.premium).abs() <= tol) {
                    return ctx.report("reprice", format!("quote {i} (strike {k}, last caplet {exp}) was quoted {} and reprices to {pv} at the stripped volatility {s}", q.premium));
                }
                ensure!((1e-5..=0.1).contains(&s), "reprice", "stripped volatility {s} outside the solver's range");
                ctx.count("quote_reprices_checked");
                strip.push((*exp, s));
            }
            colpts.push((*k, strip));
        }
        for (e, ns) in &nodes {
            let want: Vec<(f64, f64)> = colpts.iter().filter_map(|(k, st)| st.iter().rev().find(|x| x.0 <= *e).map(|x| (*k, x.1))).collect();
            ensure!(*ns == want, "pillars", "nodes at {e} are {ns:?}, expected {want:?}");
        }
        // on a rectangular grid the cap valued on the surface gives its premium
        let rect = cols.iter().all(|c| c.1.iter().map(|x| x.1).collect::<Vec<_>>() == exps);
        if rect {
            for (_, col) in &cols {
                for (i, exp) in col {
                    let q = &self.quotes[*i];
                    let cap = q.q.lib_cap(q.base, self.md.valuation_date, false);
                    let mut surf = IRNormalVolSurface::new(self.s.valuation_date);
                    surf.pillars = self.s.pillars.clone();
                    let m = IrMarketContext::new(self.val, Currency::USD, blank_curve(self.curve.valuation_date, self.curve.stripped_curves.clone()), Some(surf));
                    let got = no_panic("CapFloor::mtm", || cap.mtm(&m))?;
                    let Ok(got) = got else { return fail("reprice", "CapFloor::mtm failed on a stripped market") };
                    let want = q.premium;
                    let tol = 1e-6 * q.q.notional.max(1.0);
                    ensure!((got.value - want).abs() <= tol, "reprice", "the cap of quote {i} (last caplet {exp}) is worth {} on the surface, quoted {want}", got.value);
                    ctx.count("cap_reprices_checked");
                }
            }
        }
        for n in &nodes {
            ctx.obs("s", n.1[0].1);
        }
        self.snap = (self.s.valuation_date, nodes);
        Ok(())
    }
    fn check_failed(&mut self, what: &str) -> Outcome {
        self.undisturbed(what)
    }
    fn rebuild_calls(&mut self) -> u64 {
        let mut f = IRNormalVolSurface::new(self.val);
        faults::disarm();
        let _ = sut(|| f.rebuild(&self.curve, &self.md));
        faults::disarm().calls
    }
    fn fault(&mut self, n: u64, persistent: bool, calls: u64, ctx: &mut Ctx) -> Outcome {
        faults::arm(n, persistent);
        let got = no_panic("rebuild with a failing day counter", || self.s.rebuild(&self.curve, &self.md));
        let ctl = faults::disarm();
        let got = got?;
        ctx.add("fault.day_counter", ctl.fired_dc);
        ctx.ev(&format!("f{n}/{calls} {}", got.is_ok()));
        if ctl.fired > 0 {
            ctx.nontrivial = true;
            ctx.state(&format!("fault q{} pos{}", self.quotes.len().min(4), n * 8 / calls.max(1)));
        }
        if got.is_ok() {
            if ctl.fired > 0 {
                let f = self.fresh();
                ensure!(f.is_some_and(|f| same(&surface_nodes(&f), &surface_nodes(&self.s))), "error-lost", "day-counter call {n} failed during the rebuild, success was reported and the surface is not the fault-free one");
            }
            self.snap = (self.s.valuation_date, surface_nodes(&self.s));
            return Ok(());
        }
        self.check_failed(&format!("failed rebuild, call {n} of {calls}"))
    }
}

impl Property for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 1_000_000 } else { 40_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one caplet-volatility surface with 5-30 events: quotes added, removed, repriced (also out of reach, NaN, empty schedules), curve shifts and rolls, rebuilds, lookups, a day-counter call failing at a chosen or at every position of a rebuild; non-trivial = at least two successful rebuilds or one fired fault; distinct by hash of stripped volatilities and outcomes"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["IRNormalVolSurface::rebuild / caplet_volatility", "IRCapMarketData", "YieldTermStructure lookups", "CapFloor::mtm", "Bachelier pricing"], &["accrual day counters: shipped ones behind a failing wrapper", "counting observer"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["volatilities are stripped within 0.1 bp..1000 bp, the solver's range; a premium within 1e-7 of notional of either end may go either way", "on non-rectangular grids a quote reprices from its strike's own column (as documented), the surface itself only on rectangular grids"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let val = ord(d(2010, 1, 1)) + r.range(0, 8000);
        let lvl = if r.chance(0.15) { r.dec(-0.01, 0.005, 3) } else { r.dec(0.005, 0.05, 3) };
        let zeros: Vec<(i64, f64)> = [30i64, 180, 365, 730, 1825].iter().map(|t| (*t, ((lvl + r.dec(-0.003, 0.003, 5)) * 1e5).round() / 1e5)).collect();
        let mut ev = vec![];
        // a grid of quotes
        let tmpl = gen_cap(r, lvl);
        let grid = r.chance(0.5);
        // neighbouring strikes may be far apart or almost the same
        let gap = *r.pick(&[0.005, 0.005, 0.005, 0.0025, 0.00025, 0.00005, 1e-6, 1e-8]);
        for k in 0..r.usize(1, 7) {
            let mut q = if grid { tmpl.clone() } else { gen_cap(r, lvl) };
            if grid {
                q.n = 2 + 2 * (k % 3);
                q.strike = tmpl.strike + gap * (k / 3) as f64;
                q.strike = (q.strike * 1e9).round() / 1e9;
            } else if r.chance(0.2) {
                q.strike = ((tmpl.strike + gap) * 1e9).round() / 1e9;
            }
            ev.push(Ev::Add { q, vol: r.dec(0.003, 0.015, 4) });
        }
        ev.push(Ev::Rebuild);
        for _ in 0..r.usize(3, 24) {
            let i = r.usize(0, 9);
            ev.push(match r.below(24) {
                0 => Ev::Add { q: gen_cap(r, lvl), vol: r.dec(0.003, 0.015, 4) },
                1 => Ev::Del { i },
                2..=3 => Ev::Vol { i, vol: r.dec(0.003, 0.015, 4) },
                4..=5 => Ev::VolAll { vol: r.dec(0.003, 0.015, 4), spread: r.dec(-0.0002, 0.0004, 5) },
                6 => Ev::Scale { i, by: *r.pick(&[0.9, 1.02, 1.1, 3.0, 0.1]) },
                7 => Ev::Premium { i, v: *r.pick(&[-1.0, 1e9, 0.0]) },
                8 => {
                    if r.chance(0.3) {
                        Ev::Empty { i }
                    } else if r.chance(0.2) {
                        Ev::BadStrike { i, kind: r.below(3) as u8 }
                    } else {
                        Ev::Rebuild
                    }
                }
                9 => Ev::Shift { bp: r.dec(-20.0, 20.0, 1) },
                10 => Ev::Roll { days: r.range(1, 40), curve: r.chance(0.8), md: r.chance(0.8) },
                11..=15 => Ev::Rebuild,
                16..=18 => Ev::Fault { at: (r.unit() * 1e6).floor() / 1e6, persistent: r.chance(0.5) },
                19 => match r.below(6) {
                    0..=2 => Ev::Notify,
                    3 => Ev::Attach { again: None },
                    4 => Ev::Attach { again: Some(r.usize(0, 3)) },
                    _ => Ev::Detach { i: r.usize(0, 3) },
                },
                20 if r.chance(0.05) => Ev::Sweep,
                _ => Ev::Lookup { days: r.range(0, 1200), k: r.dec(-0.02, 0.06, 4) },
            });
        }
        ev.push(Ev::DelEmpty);
        ev.push(Ev::VolAll { vol: r.dec(0.005, 0.012, 4), spread: 0.0001 });
        ev.push(Ev::Rebuild);
        Plan { scenario: "vol-surface".into(), cfg: json!(Cfg { val, zeros, start_val: val - r.range(0, 30) }), events: ev.iter().map(|e| json!(e)).collect() }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let c: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let val = from_ord(c.val);
        let probe = Rc::new(RefCell::new(Probe::default()));
        let mut w = W {
            val,
            quotes: vec![],
            curve: blank_curve(val, zero_pillars(val, &c.zeros)),
            md: IRCapMarketData::new(val, vec![]),
            s: IRNormalVolSurface::new(from_ord(c.start_val)),
            snap: (from_ord(c.start_val), vec![]),
            probes: vec![(probe.clone(), 1, 0)],
        };
        w.md.attach(probe);
        let mut ok_rebuilds = 0;
        let flat = |w: &W, q: &CapQ, base: NaiveDate, vol: f64| cap_pv(q, &q.periods(base), w.md.valuation_date, &ref_of(&w.curve), 0.0, &|_| vol);
        for e in &plan.events {
            let ev: Ev = serde_json::from_value(e.clone()).unwrap();
            let n = w.quotes.len();
            match &ev {
                Ev::Add { q, vol } => {
                    if n < 8 {
                        let p = flat(&w, q, w.val, *vol);
                        w.md.cap_quotes.push(q.lib_quote(w.val, p, true));
                        w.quotes.push(Q { q: q.clone(), base: w.val, premium: p, empty: false });
                    }
                }
                Ev::Del { i } if n > 0 => {
                    w.quotes.remove(i % n);
                    w.md.cap_quotes.remove(i % n);
                }
                Ev::DelEmpty => {
                    for k in (0..n).rev().filter(|k| w.quotes[*k].empty || !w.quotes[*k].q.strike.is_finite()).collect::<Vec<_>>() {
                        w.quotes.remove(k);
                        w.md.cap_quotes.remove(k);
                    }
                }
                Ev::Vol { i, vol } if n > 0 => {
                    let p = flat(&w, &w.quotes[i % n].q, w.quotes[i % n].base, *vol);
                    w.quotes[i % n].premium = p;
                    w.md.cap_quotes[i % n].market_npv = p;
                }
                Ev::VolAll { vol, spread } => {
                    for k in 0..n {
                        let p = flat(&w, &w.quotes[k].q, w.quotes[k].base, vol + spread * k as f64);
                        w.quotes[k].premium = p;
                        w.md.cap_quotes[k].market_npv = p;
                    }
                }
                Ev::Scale { i, by } if n > 0 => {
                    w.quotes[i % n].premium *= by;
                    w.md.cap_quotes[i % n].market_npv = w.quotes[i % n].premium;
                    ctx.count("fault.premium_scaled");
                }
                Ev::Premium { i, v } if n > 0 => {
                    let v = if *v == 0.0 { f64::NAN } else { *v };
                    w.quotes[i % n].premium = v;
                    w.md.cap_quotes[i % n].market_npv = v;
                    ctx.count("fault.bad_premium");
                }
                Ev::Empty { i } if n > 0 => {
                    w.quotes[i % n].empty = true;
                    w.md.cap_quotes[i % n].schedule.clear();
                    ctx.count("fault.empty_schedule");
                }
                Ev::BadStrike { i, kind } if n > 0 => {
                    let k = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][*kind as usize % 3];
                    w.quotes[i % n].q.strike = k;
                    w.md.cap_quotes[i % n].strike = k;
                    ctx.count("fault.bad_strike");
                }
                Ev::Shift { bp } => w.curve.stripped_curves.iter_mut().for_each(|s| s.zero_rate += bp * 1e-4),
                Ev::Roll { days, curve, md } => {
                    let v = add(w.val, *days);
                    if *curve {
                        let cv = add(w.curve.valuation_date, *days);
                        w.curve.valuation_date = cv;
                    }
                    if *md {
                        w.md.valuation_date = add(w.md.valuation_date, *days);
                    }
                    w.val = v;
                    ctx.sim_days += *days as f64;
                }
                Ev::Rebuild => {
                    let want = w.want();
                    let got = no_panic("rebuild", || w.s.rebuild(&w.curve, &w.md))?;
                    ctx.ev(&format!("rebuild {}", got.is_ok()));
                    ctx.state(&format!("rebuild {} q{} c{} p{}", got.is_ok(), n, w.columns().len(), w.snap.1.len().min(6)));
                    match (&got, want) {
                        (Ok(()), Want::Refuse(m)) => return ctx.report("accepted-bad-quote", format!("the market cannot be stripped ({m}) but the rebuild reported success")),
                        (Ok(()), _) => {
                            w.check_new(ctx)?;
                            ok_rebuilds += 1;
                        }
                        (Err(e), Want::Ok) => {
                            w.check_failed("failed rebuild")?;
                            return ctx.report("spurious-error", format!("the market can be stripped but the rebuild failed: {e}"));
                        }
                        (Err(_), _) => {
                            ctx.count("rebuild_err");
                            w.check_failed("failed rebuild")?;
                        }
                    }
                }
                Ev::Fault { at, persistent } => {
                    let calls = w.rebuild_calls();
                    if calls > 0 {
                        w.fault(1 + ((at * calls as f64) as u64).min(calls - 1), *persistent, calls, ctx)?;
                    }
                }
                Ev::Sweep => {
                    let calls = w.rebuild_calls();
                    if calls <= 400 {
                        for n in 1..=calls {
                            w.fault(n, false, calls, ctx)?;
                        }
                        ctx.count("full_sweeps");
                    }
                }
                Ev::Notify => {
                    let r = no_panic("notify_observers", || w.md.notify_observers())?;
                    ensure!(r.is_ok(), "notify", "notification failed");
                    for (k, (p, times, calls)) in w.probes.iter_mut().enumerate() {
                        *calls += *times;
                        ensure!(p.borrow().seen == *calls, "observer-calls", "observer {k}, attached {times} times, was called {} times, {calls} expected", p.borrow().seen);
                    }
                }
                Ev::Attach { again } => match again {
                    Some(i) if !w.probes.is_empty() => {
                        let i = *i % w.probes.len();
                        let p = w.probes[i].0.clone();
                        no_panic("attach", || w.md.attach(p))?;
                        w.probes[i].1 += 1;
                    }
                    _ => {
                        let p = Rc::new(RefCell::new(Probe::default()));
                        let q = p.clone();
                        no_panic("attach", || w.md.attach(q))?;
                        w.probes.push((p, 1, 0));
                    }
                },
                Ev::Detach { i } => {
                    if !w.probes.is_empty() {
                        ctx.count("fault.observer_dropped");
                        let i = *i % w.probes.len();
                        w.probes.remove(i);
                    }
                }
                Ev::Lookup { days, k } => {
                    let t = add(w.val, *days);
                    let got = no_panic("caplet_volatility", || w.s.caplet_volatility(t, *k))?;
                    if w.snap.1.is_empty() {
                        ensure!(got.is_err(), "empty-surface", "an unstripped surface answered {got:?}");
                    } else {
                        // at the node dates and strikes as well
                        let mut qs = vec![(t, *k)];
                        let p = &w.snap.1[(*days as usize) % w.snap.1.len()];
                        qs.push((p.0, p.1[(*days as usize) % p.1.len()].0));
                        qs.push((add(p.0, 1), *k));
                        qs.push((p.0, *k));
                        for (t, k) in qs {
                            let got = no_panic("caplet_volatility", || w.s.caplet_volatility(t, k))?;
                            let want = ref_vol(&w.snap.1, t, k);
                            ensure!(got.as_ref().is_ok_and(|g| close(*g, want, 1e-14)), "lookup", "volatility at ({t}, {k}) is {got:?}, expected {want}");
                            ctx.count("lookups_checked");
                        }
                    }
                }
                _ => {}
            }
            if !matches!(ev, Ev::Rebuild) {
                w.undisturbed(&format!("{ev:?}").chars().take(40).collect::<String>())?;
            }
        }
        ctx.nontrivial |= ok_rebuilds >= 2;
        Ok(())
    }
}
