//! A live yield market: one market-data object, the curves and probes attached to it, and what
//! each of them must hold according to the reference. Shared by the yield-curve properties.
use super::engine::*;
use super::faults;
use super::market::*;
use super::prng::Prng;
use super::util::*;
use crate::ensure;
use chrono::{Months, NaiveDate};
use finquant::error::{Error, Result as FResult};
use finquant::markets::termstructures::yieldcurve::{InterpolationMethodEnum, StrippedCurve, YieldTermMarketData, YieldTermStructure};
use finquant::patterns::observer::{Observable, Observer};
use finquant::time::calendars::target::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

/// An observer of another type: counts what reaches it, fails when told to.
#[derive(Debug, Default)]
pub struct Probe {
    pub seen: u64,
    pub failing: bool,
    pub seen_val: Option<NaiveDate>,
}
impl Observer for Probe {
    fn update(&mut self, o: &dyn Observable) -> FResult<()> {
        self.seen += 1;
        self.seen_val = o.as_any().downcast_ref::<YieldTermMarketData>().map(|m| m.valuation_date);
        if self.failing { Err(Error::InvalidData("probe refuses".into())) } else { Ok(()) }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

/// An observable of another type.
#[derive(Debug)]
pub struct Foreign;
impl Observable for Foreign {
    fn attach(&mut self, _: Rc<RefCell<dyn Observer>>) {}
    fn notify_observers(&self) -> FResult<()> {
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "op")]
pub enum Ev {
    SetCash { i: usize, v: f64 },
    AddCash { q: CashQ },
    DelCash { i: usize },
    SetFut { i: usize, v: f64 },
    SetFutCode { i: usize, code: String },
    AddFut { q: FutQ },
    DelFut { i: usize },
    SetSwap { i: usize, v: f64 },
    AddSwap { q: SwapQ },
    DelSwap { i: usize },
    /// a swap quote that cannot be bootstrapped
    BadSwap { kind: u8 },
    /// a deposit (or future) quoted at a rate no finite pillar can carry
    BadRate { i: usize, fut: bool, kind: u8 },
    Roll { days: i64, keep: bool },
    /// new curve: 0 empty, 1 stripped from the market as it stands, 2 some other date and pillars
    New { kind: u8, attach: bool },
    Attach { k: usize },
    Drop { k: usize },
    NewProbe { failing: bool },
    FlipProbe { k: usize },
    DropProbe { k: usize },
    ForeignUpdate { k: usize },
    Notify,
    /// fault at call number 1+floor(at*calls), or at the absolute call `n` if n > 0
    Fault { at: f64, n: u64, persistent: bool },
    Query { k: usize, offs: Vec<i64>, tenor: Period, bp: f64 },
}

pub struct Slot {
    pub rc: Option<Rc<RefCell<YieldTermStructure>>>,
    pub attached: u32,
    pub snap: Vec<StrippedCurve>,
    pub snap_val: NaiveDate,
}
impl Slot {
    fn holds(&self, p: &[StrippedCurve], v: NaiveDate) -> bool {
        let c = self.rc.as_ref().unwrap().borrow();
        c.valuation_date == v && bits_eq(&c.stripped_curves, p)
    }
    fn resnap(&mut self) {
        let c = self.rc.as_ref().unwrap().borrow();
        self.snap = c.stripped_curves.clone();
        self.snap_val = c.valuation_date;
    }
}
pub fn bits_eq(a: &[StrippedCurve], b: &[StrippedCurve]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.first_settle_date == y.first_settle_date
                && x.date == y.date
                && x.market_rate.to_bits() == y.market_rate.to_bits()
                && x.zero_rate.to_bits() == y.zero_rate.to_bits()
                && x.discount.to_bits() == y.discount.to_bits()
                && x.hidden_pillar == y.hidden_pillar
                && src_char(x) == src_char(y)
        })
}

pub struct PSlot {
    pub rc: Option<Rc<RefCell<Probe>>>,
    pub expect: u64,
}

pub struct World {
    pub mq: MarketQ,
    pub md: YieldTermMarketData,
    pub slots: Vec<Slot>,
    pub probes: Vec<PSlot>,
}

/// reference pillars measured from the library's own pillars
pub fn ref_of(c: &YieldTermStructure) -> RefCurve {
    RefCurve {
        val: c.valuation_date,
        p: c.stripped_curves
            .iter()
            .map(|s| Pillar { settle: s.first_settle_date, date: s.date, market: s.market_rate, zero: s.zero_rate, disc: s.discount, hidden: s.hidden_pillar, src: src_char(s) })
            .collect(),
    }
}

pub fn blank_curve(val: NaiveDate, p: Vec<StrippedCurve>) -> YieldTermStructure {
    YieldTermStructure::new(Box::new(Target), Box::new(Actual365Fixed::default()), val, p)
}

impl World {
    pub fn new(mq: MarketQ) -> Self {
        let md = mq.lib();
        World { mq, md, slots: vec![], probes: vec![] }
    }
    fn live(&self) -> Vec<usize> {
        (0..self.slots.len()).filter(|i| self.slots[*i].rc.is_some()).collect()
    }
    fn live_probes(&self) -> Vec<usize> {
        (0..self.probes.len()).filter(|i| self.probes[*i].rc.is_some()).collect()
    }
    fn edit(&mut self, f: impl FnOnce(&mut MarketQ)) {
        let old = self.mq.clone();
        f(&mut self.mq);
        self.mq.apply(&mut self.md, &old);
    }
    /// every curve still holds its snapshot; every probe has been called as often as expected
    pub fn check_undisturbed(&self, after: &str) -> Outcome {
        for i in self.live() {
            let s = &self.slots[i];
            ensure!(s.holds(&s.snap, s.snap_val), "curve-changed", "curve {i} changed without a successful notification (after {after})");
        }
        for j in self.live_probes() {
            let (seen, want) = (self.probes[j].rc.as_ref().unwrap().borrow().seen, self.probes[j].expect);
            ensure!(seen == want, "observer-calls", "an observer of another type was called {seen} times, expected {want} (after {after})");
        }
        Ok(())
    }
    /// remove every quote that cannot be bootstrapped
    pub fn mend(&mut self) {
        let v = from_ord(self.mq.val);
        self.edit(|m| m.fut.retain(|f| imm(&f.code, v).is_some() && f.price.abs() < 1e4));
        self.edit(|m| m.cash.retain(|c| c.value.abs() < 100.0));
        if self.mq.cash.is_empty() {
            self.edit(|m| m.fut.clear());
        }
        while !self.mq.swap.is_empty() && bootstrap(&self.mq).is_err() {
            self.edit(|m| {
                m.swap.pop();
            });
        }
    }
    fn state(&self, ctx: &mut Ctx, tag: &str) {
        ctx.state(&format!(
            "{tag} c{} f{} s{} live{} dead{} multi{} probes{}",
            self.mq.cash.len(),
            self.mq.fut.len().min(3),
            self.mq.swap.len(),
            self.live().len(),
            self.slots.len() - self.live().len(),
            self.slots.iter().filter(|s| s.attached > 1).count(),
            self.live_probes().len()
        ));
    }

    /// notify with no fault armed and check everything that must follow
    pub fn notify_clean(&mut self, ctx: &mut Ctx) -> Outcome {
        faults::disarm();
        let want = bootstrap(&self.mq);
        let got = no_panic("notify_observers", || self.md.notify_observers())?;
        faults::disarm();
        let any = self.slots.iter().any(|s| s.rc.is_some() && s.attached > 0);
        let probe_fails = self.live_probes().into_iter().any(|j| self.probes[j].rc.as_ref().unwrap().borrow().failing);
        ctx.ev(&format!("notify {} {}", got.is_ok(), any));
        self.state(ctx, if got.is_ok() { "ok" } else { "err" });
        match (&got, &want) {
            (Ok(()), _) => {
                ensure!(!probe_fails, "error-lost", "an attached observer failed but the notification reported success");
                for j in self.live_probes() {
                    self.probes[j].expect += 1;
                    let p = self.probes[j].rc.as_ref().unwrap().borrow();
                    ensure!(p.seen == self.probes[j].expect, "observer-calls", "an attached observer was called {} times, expected {}", p.seen, self.probes[j].expect);
                    ensure!(p.seen_val == Some(self.md.valuation_date), "observer-calls", "an observer was handed an observable of the wrong type or date");
                }
                if any {
                    ctx.count("rebuilds_checked");
                    if let Err(BootErr::Refuse(m)) = &want {
                        return ctx.report("accepted-bad-quote", format!("the market cannot be bootstrapped ({m}) but the notification reported success"));
                    }
                    self.check_rebuilt(want.ok().as_ref(), ctx)?;
                }
            }
            (Err(e), _) => {
                ctx.count("notify_err");
                let justified = probe_fails || (any && matches!(&want, Err(_)));
                if !justified {
                    return ctx.report("spurious-error", format!("the notification failed without a fault: {e}"));
                }
                // each curve is either untouched or completely new
                self.check_old_or_new(ctx, "failed notification")?;
                for j in self.live_probes() {
                    let s = self.probes[j].rc.as_ref().unwrap().borrow().seen;
                    ensure!(s == self.probes[j].expect || s == self.probes[j].expect + 1, "observer-calls", "an observer was called {s} times, expected at most {}", self.probes[j].expect + 1);
                    self.probes[j].expect = s;
                }
            }
        }
        self.check_undisturbed("notify")
    }

    /// what a bootstrap of the described market on a fresh object gives
    pub fn fresh(&self) -> Option<Vec<StrippedCurve>> {
        let keep = faults::disarm();
        let _ = keep;
        sut(|| self.mq.lib().get_stripped_curve()).ok().and_then(|r| r.ok())
    }

    fn check_old_or_new(&mut self, ctx: &mut Ctx, what: &str) -> Outcome {
        let new = self.fresh();
        for i in self.live() {
            let s = &self.slots[i];
            if s.holds(&s.snap, s.snap_val) {
                continue;
            }
            let is_new = s.attached > 0 && new.as_ref().is_some_and(|n| s.holds(n, from_ord(self.mq.val)));
            if !is_new {
                let c = s.rc.as_ref().unwrap().borrow();
                ctx.ev("damaged");
                return ctx.report("damaged-curve", format!("after a {what} curve {i} is neither what it was nor the new bootstrap: {} pillars dated {} (before: {} dated {})", c.stripped_curves.len(), c.valuation_date, s.snap.len(), s.snap_val));
            }
            ctx.count("curve_already_new_after_failure");
            self.slots[i].resnap();
        }
        Ok(())
    }

    fn check_rebuilt(&mut self, want: Option<&RefCurve>, ctx: &mut Ctx) -> Outcome {
        let fresh = self.fresh();
        for i in self.live() {
            if self.slots[i].attached == 0 {
                continue;
            }
            {
                let s = &self.slots[i];
                let c = s.rc.as_ref().unwrap().borrow();
                ensure!(c.valuation_date == from_ord(self.mq.val), "valuation-date", "curve {i} is dated {} after a notification of a market dated {}", c.valuation_date, from_ord(self.mq.val));
                ensure!(
                    fresh.as_ref().is_some_and(|f| bits_eq(f, &c.stripped_curves)),
                    "not-current",
                    "curve {i} differs from the bootstrap of a fresh market with the current quotes: {:?} vs {:?}",
                    brief(&c.stripped_curves),
                    fresh.as_ref().map(|f| brief(f))
                );
                if let Some(w) = want {
                    if let Some(m) = diff_pillars(&c.stripped_curves, &w.p, 1e-7) {
                        return ctx.report("pillars", m);
                    }
                    // exact checks: everything but solved swap rates to rounding
                    let cut = w.p.iter().position(|p| p.src == 'S').unwrap_or(w.p.len());
                    if let Some(m) = diff_pillars(&c.stripped_curves[..cut], &w.p[..cut], 1e-11) {
                        return ctx.report("pillars", m);
                    }
                    // swaps reprice to zero on the curve as it stood when each was stripped
                    let lib = ref_of(&c);
                    let val = lib.val;
                    for (n, q) in self.mq.swap.iter().enumerate() {
                        let upto = cut + n + 1;
                        let part = RefCurve { val, p: lib.p[..upto].to_vec() };
                        let flows: Vec<Vec<Flow>> = q.legs.iter().map(|l| leg_flows(&self.mq, l, val)).collect();
                        let pv = swap_pv(q, &flows, val, &part, 0.0);
                        let scale: f64 = q.legs.iter().map(|l| l.notional.abs()).sum();
                        let z = lib.p[upto - 1].zero;
                        ensure!((0.0..=0.5).contains(&z), "pillars", "swap pillar zero rate {z} outside the solver's range");
                        ensure!(pv.abs() <= 1e-8 * scale, "swap-reprice", "quoted swap {n} has NPV {pv:e} on the curve stripped from it (notional {scale})");
                        ctx.count("swap_reprices_checked");
                    }
                }
                ctx.obs("z", c.stripped_curves.last().map(|p| p.zero_rate).unwrap_or(0.0));
            }
            self.slots[i].resnap();
        }
        Ok(())
    }

    fn query(&self, k: usize, offs: &[i64], tenor: Period, bp: f64, ctx: &mut Ctx) -> Outcome {
        let live = self.live();
        if live.is_empty() {
            return Ok(());
        }
        let c = self.slots[live[k % live.len()]].rc.as_ref().unwrap().borrow();
        let im = InterpolationMethodEnum::PiecewiseLinearContinuous;
        if c.stripped_curves.is_empty() {
            let r = no_panic("zero_rate of a curve without pillars", || c.zero_rate(c.valuation_date, &im))?;
            ensure!(r.is_err(), "empty-curve", "a curve without pillars answered {r:?}");
            return Ok(());
        }
        let rf = ref_of(&c);
        for o in offs {
            // around pillars as well as at plain offsets
            let t = if *o < 0 { add(rf.p[(-*o as usize / 4) % rf.p.len()].date, (-*o % 4) - 2) } else { add(rf.val, *o) };
            if t < rf.val {
                continue;
            }
            let m = if o % 2 == 0 { InterpolationMethodEnum::StepFunctionForward } else { InterpolationMethodEnum::PiecewiseLinearContinuous };
            let e = match tenor {
                Period::Days(n) => add(t, n),
                Period::Weeks(n) => add(t, 7 * n),
                Period::Years(n) => add_months(t, 12 * n),
                Period::Months(n) => add_months(t, n),
                _ => unreachable!(),
            };
            let got = no_panic("curve lookup", || (c.zero_rate(t, &m), c.discount(t, &m), c.shifted_discount(t, &m, bp), c.forward_rate(t, tenor, &m)))?;
            let (Ok(z), Ok(df), Ok(ds), Ok(f)) = got else {
                return fail("lookup", format!("lookup at {t} failed on a curve with pillars: {:?}", got.0));
            };
            let (y1, y2) = (yf365(rf.val, t), yf365(rf.val, e));
            let wf = (rf.zero(e) * y2 - rf.zero(t) * y1) / (y2 - y1);
            for (n, g, w, tol) in [("zero rate", z, rf.zero(t), 1e-12), ("discount", df, rf.df(t), 1e-12), ("shifted discount", ds, rf.df_shift(t, bp), 1e-12), ("forward rate", f, wf, 1e-10)] {
                ensure!(close(g, w, tol) && g.is_finite(), "lookup", "{n} at {t} (valuation {}) is {g}, expected {w}", rf.val);
            }
            ctx.obs("q", df);
            ctx.count("lookups_checked");
        }
        Ok(())
    }

    pub fn fault(&mut self, at: f64, n: u64, persistent: bool, ctx: &mut Ctx) -> Outcome {
        // how many calls does a rebuild make? (a fresh notification of a throw-away curve)
        let one = {
            faults::disarm();
            let _ = sut(|| self.mq.lib().get_stripped_curve());
            faults::disarm().calls
        };
        let attached: u64 = self.slots.iter().filter(|s| s.rc.is_some()).map(|s| s.attached as u64).sum();
        let calls = one * attached;
        if calls == 0 {
            return Ok(());
        }
        let n = if n > 0 { n } else { 1 + ((at * calls as f64) as u64).min(calls - 1) };
        for j in self.live_probes() {
            let seen = self.probes[j].rc.as_ref().unwrap().borrow().seen;
            self.probes[j].expect = seen;
        }
        faults::arm(n, persistent);
        let got = no_panic(&format!("notify_observers with call {n} of a calendar or day counter failing"), || self.md.notify_observers());
        let ctl = faults::disarm();
        let got = got?;
        ctx.add("fault.calendar", ctl.fired_cal);
        ctx.add("fault.day_counter", ctl.fired_dc);
        ctx.ev(&format!("fault {n}/{calls} {} {}", ctl.fired, got.is_ok()));
        if ctl.fired > 0 {
            ctx.nontrivial = true;
            ctx.count(if persistent { "fault.persistent" } else { "fault.transient" });
            self.state(ctx, &format!("fault{}", (n * 8 / calls.max(1)).min(7)));
        }
        if got.is_ok() && ctl.fired > 0 {
            // only acceptable if nothing was lost
            let new = self.fresh();
            for i in self.live() {
                let s = &self.slots[i];
                if s.attached > 0 && !new.as_ref().is_some_and(|x| s.holds(x, from_ord(self.mq.val))) {
                    return ctx.report("error-lost", format!("call {n} of a calendar or day counter failed during the rebuild, the notification reported success, and curve {i} is not the current bootstrap"));
                }
            }
        }
        self.check_old_or_new(ctx, "notification with a failing calendar or day counter")?;
        for j in self.live_probes() {
            let s = self.probes[j].rc.as_ref().unwrap().borrow().seen;
            ensure!(s <= self.probes[j].expect + 1, "observer-calls", "an observer was called more than once by one notification");
            self.probes[j].expect = s;
        }
        self.check_undisturbed("fault")
    }

    pub fn step(&mut self, ev: &Ev, ctx: &mut Ctx) -> Outcome {
        match ev {
            Ev::SetCash { i, v } => {
                if !self.mq.cash.is_empty() {
                    let k = i % self.mq.cash.len();
                    self.edit(|m| m.cash[k].value = *v);
                }
            }
            Ev::AddCash { q } => {
                if self.mq.cash.len() < 8 {
                    self.edit(|m| m.cash.push(q.clone()));
                }
            }
            Ev::DelCash { i } => {
                if !self.mq.cash.is_empty() {
                    let k = i % self.mq.cash.len();
                    self.edit(|m| {
                        m.cash.remove(k);
                    });
                }
            }
            Ev::SetFut { i, v } => {
                if !self.mq.fut.is_empty() {
                    let k = i % self.mq.fut.len();
                    self.edit(|m| m.fut[k].price = *v);
                }
            }
            Ev::SetFutCode { i, code } => {
                if !self.mq.fut.is_empty() {
                    let k = i % self.mq.fut.len();
                    self.edit(|m| m.fut[k].code = code.clone());
                }
            }
            Ev::AddFut { q } => {
                // a later contract than those quoted
                let v = from_ord(self.mq.val);
                let last = self.mq.fut.iter().filter_map(|f| imm(&f.code, v)).max();
                if imm(&q.code, v) > last {
                    self.edit(|m| m.fut.push(q.clone()));
                }
            }
            Ev::DelFut { i } => {
                if !self.mq.fut.is_empty() {
                    let k = i % self.mq.fut.len();
                    self.edit(|m| {
                        m.fut.remove(k);
                    });
                }
            }
            Ev::SetSwap { i, v } => {
                if !self.mq.swap.is_empty() {
                    let k = i % self.mq.swap.len();
                    self.edit(|m| {
                        if let Some(l) = m.swap[k].legs.first_mut() {
                            l.rate = *v
                        }
                    });
                }
            }
            Ev::AddSwap { q } => {
                if self.mq.swap.len() < 4 {
                    self.edit(|m| m.swap.push(q.clone()));
                }
            }
            Ev::DelSwap { i } => {
                if !self.mq.swap.is_empty() {
                    let k = i % self.mq.swap.len();
                    self.edit(|m| {
                        m.swap.remove(k);
                    });
                }
            }
            Ev::BadSwap { kind } => {
                if let Some(mut s) = self.mq.swap.last().cloned() {
                    match kind % 6 {
                        0 => s.legs.clear(),
                        4 => s.legs[..].iter_mut().take(1).for_each(|l| l.rate = f64::NAN),
                        5 => s.legs[..].iter_mut().take(1).for_each(|l| l.notional = f64::INFINITY),
                        1 => s.legs.iter_mut().for_each(|l| l.duration = Period::Months(1)),
                        2 => s.legs[..].iter_mut().take(1).for_each(|l| l.rate = 0.9),
                        _ => s.legs[..].iter_mut().take(1).for_each(|l| l.rate = -0.2),
                    }
                    ctx.count("fault.bad_quote");
                    self.edit(|m| *m.swap.last_mut().unwrap() = s);
                }
            }
            Ev::BadRate { i, fut, kind } => {
                let k = (*kind % 4) as usize;
                if *fut && !self.mq.fut.is_empty() {
                    let j = i % self.mq.fut.len();
                    ctx.count("fault.bad_rate");
                    self.edit(|m| m.fut[j].price = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e6][k]);
                } else if !self.mq.cash.is_empty() {
                    let j = i % self.mq.cash.len();
                    ctx.count("fault.bad_rate");
                    self.edit(|m| m.cash[j].value = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -4000.0][k]);
                }
            }
            Ev::Roll { days, keep } => {
                self.edit(|m| {
                    let (v, w) = (from_ord(m.val), from_ord(m.val + days));
                    m.val += days;
                    if !keep {
                        m.fut.retain(|f| imm(&f.code, v).is_none_or(|x| x >= w));
                    }
                });
                ctx.sim_days += days.abs() as f64;
            }
            Ev::New { kind, attach } => {
                if self.slots.len() >= 8 {
                    return Ok(());
                }
                let v = from_ord(self.mq.val);
                let c = match kind {
                    0 => blank_curve(v, vec![]),
                    1 => blank_curve(v, self.fresh().unwrap_or_default()),
                    _ => {
                        let mut p = self.fresh().unwrap_or_default();
                        p.iter_mut().for_each(|x| x.zero_rate += 0.01);
                        blank_curve(add(v, -3), p)
                    }
                };
                let rc = Rc::new(RefCell::new(c));
                let mut s = Slot { rc: Some(rc.clone()), attached: 0, snap: vec![], snap_val: v };
                s.resnap();
                if *attach {
                    self.md.attach(rc);
                    s.attached = 1;
                }
                self.slots.push(s);
            }
            Ev::Attach { k } => {
                let l = self.live();
                if !l.is_empty() {
                    let i = l[k % l.len()];
                    if self.slots[i].attached < 3 {
                        let rc = self.slots[i].rc.clone().unwrap();
                        self.md.attach(rc);
                        self.slots[i].attached += 1;
                    }
                }
            }
            Ev::Drop { k } => {
                let l = self.live();
                if !l.is_empty() {
                    let rc = self.slots[l[k % l.len()]].rc.take().unwrap();
                    ensure!(Rc::strong_count(&rc) == 1, "observer-kept-alive", "the market keeps a dropped curve alive");
                    ctx.count("fault.observer_dropped");
                }
            }
            Ev::NewProbe { failing } => {
                if self.probes.len() < 4 {
                    let rc = Rc::new(RefCell::new(Probe { failing: *failing, ..Default::default() }));
                    self.md.attach(rc.clone());
                    self.probes.push(PSlot { rc: Some(rc), expect: 0 });
                }
            }
            Ev::FlipProbe { k } => {
                let l = self.live_probes();
                if !l.is_empty() {
                    let mut p = self.probes[l[k % l.len()]].rc.as_ref().unwrap().borrow_mut();
                    p.failing = !p.failing;
                    if p.failing {
                        ctx.count("fault.failing_observer");
                    }
                }
            }
            Ev::DropProbe { k } => {
                let l = self.live_probes();
                if !l.is_empty() {
                    self.probes[l[k % l.len()]].rc = None;
                }
            }
            Ev::ForeignUpdate { k } => {
                let l = self.live();
                if !l.is_empty() {
                    let rc = self.slots[l[k % l.len()]].rc.as_ref().unwrap();
                    let r = no_panic("update by an observable of another type", || rc.borrow_mut().update(&Foreign))?;
                    ensure!(r.is_ok(), "foreign", "an update by an observable of another type failed");
                }
            }
            Ev::Notify => return self.notify_clean(ctx),
            Ev::Fault { at, n, persistent } => return self.fault(*at, *n, *persistent, ctx),
            Ev::Query { k, offs, tenor, bp } => self.query(*k, offs, *tenor, *bp, ctx)?,
        }
        self.check_undisturbed(&format!("{ev:?}").chars().take(60).collect::<String>())
    }
}

fn brief(p: &[StrippedCurve]) -> Vec<(NaiveDate, f64)> {
    p.iter().map(|s| (s.date, s.zero_rate)).collect()
}

pub fn add_months(x: NaiveDate, n: u32) -> NaiveDate {
    x.checked_add_months(Months::new(n)).unwrap()
}

/// a random edit of the market
pub fn gen_edit(r: &mut Prng, mq: &MarketQ, bad: bool) -> Ev {
    let lvl = mq.cash.first().map(|c| c.value).unwrap_or(0.03);
    let near = |r: &mut Prng| ((lvl + r.dec(-0.004, 0.004, 5)).max(if lvl < 0.004 { -0.02 } else { 0.0003 }) * 1e5).round() / 1e5;
    let i = r.usize(0, 9);
    if bad && r.chance(0.12) {
        return match r.below(5) {
            0 => Ev::SetFutCode { i, code: r.pick(&["??", "H", "", "E5", "H12", "é"]).to_string() },
            1 | 2 => Ev::BadRate { i, fut: r.chance(0.4), kind: r.below(4) as u8 },
            _ => Ev::BadSwap { kind: r.below(6) as u8 },
        };
    }
    match r.below(16) {
        0..=3 => Ev::SetCash { i, v: near(r) },
        4 => Ev::AddCash { q: CashQ { value: near(r), period: *r.pick(&[Period::Weeks(1), Period::Months(3), Period::Months(1), Period::Days(6), Period::Days(7), Period::Weeks(2), Period::Months(6), Period::Days(1), Period::Years(1)]), alt: if r.chance(0.3) { gen_alt(r) } else { Alt::default() } } },
        5 => Ev::DelCash { i },
        6..=7 => Ev::SetFut { i, v: ((100.0 - 100.0 * near(r)) * 1e3).round() / 1e3 },
        8 => {
            let n = r.usize(1, 6);
            Ev::AddFut { q: gen_futures(r, mq.val, n, lvl).pop().unwrap() }
        }
        9 => Ev::DelFut { i },
        10..=11 => Ev::SetSwap { i, v: near(r) },
        12 => {
            let y = r.usize(3, 7) as u32;
            Ev::AddSwap { q: gen_quote_swap(r, y, lvl) }
        }
        13 => Ev::DelSwap { i },
        _ => {
            let days = match r.below(10) {
                0..=5 => r.range(1, 5),
                6 => -r.range(1, 4),
                7..=8 => r.range(6, 60),
                _ => r.range(61, 700),
            };
            Ev::Roll { days, keep: r.chance(0.1) }
        }
    }
}

pub fn gen_query(r: &mut Prng) -> Ev {
    let offs = (0..r.usize(2, 8)).map(|_| if r.chance(0.5) { -r.range(1, 60) } else { *r.pick(&[0, 1, 7, 30, 91, 365, 2000, 15000]) + r.range(0, 400) }).collect();
    Ev::Query { k: r.usize(0, 7), offs, tenor: *r.pick(&[Period::Months(1), Period::Months(3), Period::Months(6), Period::Months(12), Period::Years(1), Period::Years(5), Period::Days(1), Period::Days(90), Period::Weeks(1), Period::Weeks(6)]), bp: *r.pick(&[1.0, -1.0, 0.0, 10.0, 100.0, -50.0, 0.1]) }
}
