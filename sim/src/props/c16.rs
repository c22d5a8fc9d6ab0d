//! C16: a live book valued from the current snapshot only.
use crate::core::capworld::*;
use crate::core::catalog;
use crate::core::engine::*;
use crate::core::fxworld::*;
use crate::core::market::*;
use crate::core::prng::Prng;
use crate::core::util::*;
use crate::core::yieldworld::{Ev as YEv, bits_eq, blank_curve, gen_edit, ref_of};
use crate::ensure;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Style};
use finquant::derivatives::forex::basic::FXDerivatives;
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::derivatives::interestrate::basic::{IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSwap;
use finquant::markets::forex::market_context::FxMarketContext;
use iso_currency::Currency;
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapletVolPillar, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::{StrippedCurve, YieldTermMarketData};
use finquant::patterns::observer::Observer;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use serde_json::json;

pub struct C16;

// ------------------------------------------------------------------ rates book

#[derive(Serialize, Deserialize)]
struct IrCfg {
    mq: MarketQ,
    zeros: Vec<(i64, f64)>,
}

type Nodes = Vec<(i64, Vec<(f64, f64)>)>;

#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "op")]
enum IrEv {
    Swap { q: SwapQ },
    Cap { q: CapQ },
    Flip { i: usize },
    Del { i: usize },
    Shift { bp: f64 },
    Pillar { i: usize, bp: f64 },
    Zeros { z: Vec<(i64, f64)> },
    /// edit one quote of the market data and let the curve observe it
    Quote { e: serde_json::Value },
    Notify,
    Surface { n: Nodes },
    Bump { i: usize, j: usize, v: f64 },
    /// strip the surface from the caps of the book at a flat volatility
    Strip { vol: f64 },
    NoSurface,
    Empty,
    /// another context, built in one go from the current raw quotes
    Fresh,
    /// `only`: 1 = the curve stays behind, 2 = the curve alone moves
    Roll {
        days: i64,
        #[serde(default)]
        only: u8,
    },
    Value { i: usize, bp: f64, vbp: f64 },
    All { order: u64 },
    Lookup { days: i64, k: f64 },
}

enum T {
    S(SwapQ, InterestRateSwap),
    C(CapQ, NaiveDate, NaiveDate, CapFloor),
}

struct Ir {
    mq: MarketQ,
    md: YieldTermMarketData,
    ctx: IrMarketContext,
    book: Vec<T>,
}

#[derive(Clone, Debug, PartialEq)]
struct Vals {
    pv: f64,
    dv01: f64,
    gamma: f64,
    vega: f64,
    dur: f64,
    /// gross size the rounding is measured against
    gross: f64,
}

fn abs_parts(s: &SwapQ) -> f64 {
    s.legs.iter().map(|l| l.notional.abs() + l.schedule.iter().map(|x| x.balance.abs()).fold(0.0, f64::max)).sum()
}

struct IrSnap {
    p: Vec<StrippedCurve>,
    val: NaiveDate,
    cval: NaiveDate,
    s: Option<(NaiveDate, Vec<(NaiveDate, Vec<(f64, f64)>)>)>,
}

impl Ir {
    fn snap(&self) -> IrSnap {
        IrSnap {
            p: self.ctx.curve.stripped_curves.clone(),
            val: self.ctx.valuation_date,
            cval: self.ctx.curve.valuation_date,
            s: self.ctx.cap_surface.as_ref().map(|s| (s.valuation_date, surface_nodes(s))),
        }
    }
    fn unchanged(&self, b: &IrSnap) -> Outcome {
        let same = bits_eq(&self.ctx.curve.stripped_curves, &b.p) && self.ctx.valuation_date == b.val && self.ctx.curve.valuation_date == b.cval && self.ctx.cap_surface.as_ref().map(|s| (s.valuation_date, surface_nodes(s))) == b.s;
        ensure!(same, "market-changed", "valuing a trade changed the market");
        Ok(())
    }
    /// reference values; None = an error is required
    fn want(&self, i: usize, bp: f64, vbp: f64) -> Option<Vals> {
        if self.ctx.curve.stripped_curves.is_empty() {
            // a trade whose every flow is paid needs no curve
            let live = match &self.book[i] {
                T::S(q, _) => q.legs.iter().any(|l| leg_flows(&self.mq, l, self.ctx.valuation_date).iter().any(|f| f.pay >= self.ctx.valuation_date)),
                T::C(q, base, val, _) => q.periods(*base).iter().any(|p| p.pay >= *val),
            };
            if live || matches!(&self.book[i], T::C(..)) && self.ctx.cap_surface.is_none() {
                return None;
            }
            if let T::S(q, _) = &self.book[i]
                && q.legs.is_empty()
            {
                return None;
            }
            return Some(Vals { pv: 0.0, dv01: 0.0, gamma: 0.0, vega: 0.0, dur: 0.0, gross: 1.0 });
        }
        let rc = ref_of(&self.ctx.curve);
        let f: Box<dyn Fn(f64, f64) -> f64> = match &self.book[i] {
            T::S(q, _) => {
                if q.legs.is_empty() {
                    return None;
                }
                let v = self.ctx.valuation_date;
                let flows: Vec<Vec<Flow>> = q.legs.iter().map(|l| leg_flows(&self.mq, l, v)).collect();
                Box::new(move |b, _| swap_pv(q, &flows, v, &rc, b))
            }
            T::C(q, base, val, _) => {
                let nodes = surface_nodes(self.ctx.cap_surface.as_ref()?);
                let per = q.periods(*base);
                if nodes.is_empty() && per.iter().any(|p| p.pay >= *val) {
                    return None;
                }
                Box::new(move |b, s| cap_pv(q, &per, *val, &rc, b, &|t| ref_vol(&nodes, t, q.strike) + s * 1e-4))
            }
        };
        let gross = match &self.book[i] {
            T::S(q, _) => abs_parts(q),
            T::C(q, ..) => q.notional * q.n as f64 * 0.1,
        };
        let pv = f(0.0, 0.0);
        let dv01 = f(1.0, 0.0) - pv;
        Some(Vals {
            pv,
            dv01,
            gamma: f(bp, 0.0) + f(-bp, 0.0) - 2.0 * pv,
            vega: if matches!(self.book[i], T::S(..)) { 0.0 } else { f(0.0, vbp) - pv },
            dur: if pv.abs() < 1e-12 { 0.0 } else { -dv01 * 1e4 / pv },
            gross,
        })
    }
    fn value(&self, i: usize, bp: f64, vbp: f64, order: u64) -> Result<std::result::Result<Vals, Vec<String>>, Violation> {
        let d: &dyn IRDerivatives = match &self.book[i] {
            T::S(_, x) => x,
            T::C(_, _, _, x) => x,
        };
        let mut v = [0.0; 5];
        let mut errs = vec![];
        for k in 0..5u64 {
            let k = ((k + order) % 5) as usize;
            let r = no_panic("valuation", || match k {
                0 => d.mtm(&self.ctx).map(|x| (x.value, Some(x.currency))),
                1 => d.dv01(&self.ctx).map(|x| (x, None)),
                2 => d.gamma(&self.ctx, bp, RateShiftMode::Zeros).map(|x| (x, None)),
                3 => d.vega(&self.ctx, vbp).map(|x| (x, None)),
                _ => d.modified_duration(&self.ctx).map(|x| (x, None)),
            })?;
            match r {
                Ok((x, c)) => {
                    v[k] = x;
                    let want = match &self.book[i] {
                        T::S(q, _) => q.legs.first().and_then(|l| l.ccy.as_deref()).map_or(Currency::EUR, |c| Currency::from_code(c).unwrap()),
                        T::C(..) => Currency::USD,
                    };
                    ensure!(c.is_none() || c == Some(want), "currency", "trade {i} is valued in {c:?}");
                }
                Err(e) => errs.push(format!("{}: {e}", ["value", "dv01", "gamma", "vega", "duration"][k])),
            }
        }
        if errs.is_empty() { Ok(Ok(Vals { pv: v[0], dv01: v[1], gamma: v[2], vega: v[3], dur: v[4], gross: 0.0 })) } else { Ok(Err(errs)) }
    }
    fn check(&mut self, i: usize, bp: f64, vbp: f64, order: u64, ctx: &mut Ctx) -> Outcome {
        let before = self.snap();
        let got = self.value(i, bp, vbp, order)?;
        let again = self.value(i, bp, vbp, order + 2)?;
        ensure!(format!("{got:?}") == format!("{again:?}") || got.is_err() && again.is_err(), "repeat", "valuing trade {i} twice gave {got:?} and {again:?}");
        self.unchanged(&before)?;
        let what = match &self.book[i] {
            T::S(q, _) => format!("swap {}", json!(q)),
            T::C(q, ..) => format!("cap {}", json!(q)),
        };
        let want = self.want(i, bp, vbp);
        ctx.state(&format!("ir {} {} p{} s{}", what.len() % 7, got.is_ok(), self.ctx.curve.stripped_curves.len().min(8), self.ctx.cap_surface.is_some()));
        match (&got, &want) {
            (Err(e), None) => {
                // a swap's vega needs no market; everything else must refuse
                let need = if matches!(self.book[i], T::S(..)) { 4 } else { 5 };
                let nolegs = matches!(&self.book[i], T::S(q, _) if q.legs.is_empty());
                ensure!(nolegs || e.len() >= need, "number-not-error", "trade {i} has no market to be valued on, but only these refused: {e:?}");
                ctx.count("refused_as_required");
            }
            (Ok(v), None) => return ctx.report("number-not-error", format!("{what}: valued at {} without a market to value it on", v.pv)),
            (Err(e), Some(w)) => return ctx.report("spurious-error", format!("{what}: {e:?}, expected {w:?}")),
            (Ok(v), Some(w)) => {
                ctx.obs("pv", v.pv);
                let tol = 1e-11 * w.gross + 1e-13;
                for (n, a, b, t) in [("value", v.pv, w.pv, tol), ("dv01", v.dv01, w.dv01, tol), ("gamma", v.gamma, w.gamma, 4.0 * tol), ("vega", v.vega, w.vega, tol)] {
                    ensure!((a - b).abs() <= t || a == b || a.is_nan() && b.is_nan(), n, "{what} valued {}: {n} is {a:e}, expected {b:e} (bp {bp}, vol bp {vbp})", self.ctx.valuation_date);
                }
                if w.pv.abs() > 1e-6 * w.gross {
                    ensure!(close_rel(v.dur, w.dur, 1e-6), "duration", "{what}: modified duration {} expected {}", v.dur, w.dur);
                } else if v.pv.abs() < 1e-12 {
                    ensure!(v.dur == 0.0, "duration", "{what}: modified duration {} of a worthless trade", v.dur);
                }
                ctx.count(if matches!(self.book[i], T::S(..)) { "swap_values_checked" } else { "cap_values_checked" });
                if w.pv.abs() > 1e-9 * w.gross {
                    ctx.count("nonzero_values");
                }
            }
        }
        // the unsupported bump modes are refused, not approximated
        let d: &dyn IRDerivatives = match &self.book[i] {
            T::S(_, x) => x,
            T::C(_, _, _, x) => x,
        };
        for m in [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps] {
            let g = no_panic("gamma", || d.gamma(&self.ctx, bp, m))?;
            ensure!(g.is_err(), "mode", "gamma in mode {m:?} answered {g:?}");
        }
        // the swap's own npv on the same curve
        if let (T::S(_, x), Some(w)) = (&self.book[i], &want) {
            let v = self.ctx.valuation_date;
            let (cv, p) = (self.ctx.curve.valuation_date, self.ctx.curve.stripped_curves.clone());
            let mut yts = blank_curve(cv, p.clone());
            let n = no_panic("npv", || x.npv(v, &mut yts))?;
            ensure!(n.as_ref().is_ok_and(|n| (n - w.pv).abs() <= 1e-11 * w.gross + 1e-13), "value", "{what}: npv {n:?}, expected {}", w.pv);
            ensure!(bits_eq(&yts.stripped_curves, &p) && yts.valuation_date == cv, "market-changed", "npv changed the curve");
        }
        // the periods the legs stand on, in every field
        if let T::S(q, x) = &self.book[i] {
            let v = self.ctx.valuation_date;
            for (l, y) in q.legs.iter().zip(&x.legs) {
                let g = no_panic("generate_schedule", || y.generate_schedule(v))?;
                let want = leg_periods(&self.mq, l, v);
                ensure!(g.as_ref().is_ok_and(|g| *g == want), "schedule", "leg {} generates {g:?} on {v}, expected {want:?}", json!(l));
            }
            ctx.count("leg_schedules_checked");
        }
        // buying and selling cancel
        if let (Ok(v), Some(w)) = (&got, &want) {
            self.flip(i);
            let o = self.value(i, bp, vbp, order)?;
            self.flip(i);
            let Ok(o) = o else { return fail("spurious-error", format!("{what}: {o:?} in the other direction")) };
            for (n, a, b) in [("value", v.pv, o.pv), ("dv01", v.dv01, o.dv01), ("gamma", v.gamma, o.gamma), ("vega", v.vega, o.vega)] {
                ensure!((a + b).abs() <= 1e-11 * w.gross + 1e-13 || a.is_nan(), "buy-sell", "{what}: {n} {a} one way and {b} the other");
            }
        }
        Ok(())
    }
    fn flip(&mut self, i: usize) {
        match &mut self.book[i] {
            T::S(q, x) => {
                for (l, y) in q.legs.iter_mut().zip(x.legs.iter_mut()) {
                    l.buy = !l.buy;
                    y.direction = direction(l.buy);
                }
            }
            T::C(q, _, _, x) => {
                q.buy = !q.buy;
                x.basic_info.direction = direction(q.buy);
            }
        }
    }
    fn lookups(&mut self, days: i64, k: f64, ctx: &mut Ctx) -> Outcome {
        let t = add(self.ctx.valuation_date, days);
        let (r, df, v) = (no_panic("rate", || self.ctx.rate(t))?, no_panic("discount", || self.ctx.discount(t))?, no_panic("caplet_vol", || self.ctx.caplet_vol(t, k))?);
        if self.ctx.curve.stripped_curves.is_empty() {
            ensure!(r.is_err() && df.is_err(), "lookup", "an empty curve answered {r:?} {df:?}");
        } else {
            let rc = ref_of(&self.ctx.curve);
            ensure!(r.as_ref().is_ok_and(|r| close(*r, rc.zero(t), 1e-12)), "lookup", "rate to {t} is {r:?}, expected {}", rc.zero(t));
            ensure!(df.as_ref().is_ok_and(|x| close(*x, rc.df(t), 1e-12)), "lookup", "discount to {t} is {df:?}, expected {}", rc.df(t));
        }
        match self.ctx.cap_surface.as_ref().map(surface_nodes) {
            Some(n) if !n.is_empty() => {
                let w = ref_vol(&n, t, k);
                ensure!(v.as_ref().is_ok_and(|x| close(*x, w, 1e-13)), "lookup", "caplet volatility at ({t}, {k}) is {v:?}, expected {w}");
            }
            _ => ensure!(v.is_err(), "lookup", "volatility without a surface: {v:?}"),
        }
        ctx.count("context_lookups_checked");
        Ok(())
    }
}

pub fn zeros(r: &mut Prng) -> Vec<(i64, f64)> {
    let lvl = if r.chance(0.1) { *r.pick(&[-0.02, 0.0, 0.14]) } else { r.dec(0.0, 0.05, 4) };
    let mut t = r.range(20, 120);
    (0..r.usize(1, 6))
        .map(|_| {
            let x = (t, lvl + r.dec(-0.01, 0.01, 5));
            t += r.range(60, 1500);
            x
        })
        .collect()
}

pub fn nodes(r: &mut Prng) -> Nodes {
    let mut t = r.range(30, 300);
    (0..r.usize(1, 4))
        .map(|_| {
            let mut k = 0.005;
            let n = (0..r.usize(1, 4))
                .map(|_| {
                    let x = (k, r.dec(0.004, 0.015, 5));
                    k += r.dec(0.005, 0.02, 4);
                    x
                })
                .collect();
            let x = (t, n);
            t += r.range(91, 800);
            x
        })
        .collect()
}

pub fn gen_trade_swap(r: &mut Prng, val: i64) -> SwapQ {
    let years = r.usize(1, 8) as u32;
    let lvl = r.dec(0.0, 0.06, 4);
    let mut q = gen_quote_swap(r, years, lvl);
    if r.chance(0.3) {
        q.legs[1].rate = r.dec(-0.005, 0.005, 4);
    }
    // legs that do not mirror each other
    if r.chance(0.2) {
        let l = q.legs[0].notional * *r.pick(&[0.5, 2.0, 1.1]);
        q.legs[1].notional = l;
    }
    if r.chance(0.12) {
        let mut l = gen_quote_swap(r, years, lvl).legs.pop().unwrap();
        l.notional = q.legs[0].notional * 0.7;
        q.legs.push(l);
    }
    if r.chance(0.1) {
        q.legs[1].buy = q.legs[0].buy;
    }
    if r.chance(0.15) {
        q.legs.pop();
    }
    if r.chance(0.03) {
        q.legs.clear();
    }
    // legs may name different currencies; the first one's is the deal's
    if r.chance(0.25) {
        q.legs.iter_mut().for_each(|l| l.ccy = Some(r.pick(&["EUR", "USD", "GBP"]).to_string()));
    }
    // an explicit, possibly seasoned and amortising schedule
    if r.chance(0.45) {
        let start = val + r.range(-700, 60);
        let n = r.usize(1, 8) as i64;
        for l in q.legs.iter_mut() {
            let step = *r.pick(&[91i64, 182, 365]);
            let lag = *r.pick(&[0i64, 0, 2]);
            let am = if r.chance(0.4) { 0.9 } else { 1.0 };
            let n = if r.chance(0.2) { r.usize(1, 8) as i64 } else { n };
            // a stub in front, and uneven periods
            let (stub, uneven) = if r.chance(0.3) { (r.range(-60, 60), r.range(0, 30)) } else { (0, 0) };
            let edge = |k: i64| start + k * step + if k > 0 { stub + (k * 11) % (uneven + 1) } else { 0 };
            l.schedule = (0..n).map(|k| SchedQ { start: edge(k), end: edge(k + 1), pay: edge(k + 1) + lag, balance: l.notional * f64::powi(am, k as i32) }).collect();
        }
    }
    q
}

fn gen_ir(r: &mut Prng) -> Plan {
    let swaps = if r.chance(0.3) { 1 } else { 0 };
    let mq = gen_market(r, false, swaps);
    let val = mq.val;
    let cfg = IrCfg { zeros: zeros(r), mq };
    let mut ev = vec![];
    for _ in 0..r.usize(1, 3) {
        if r.chance(0.5) {
            ev.push(IrEv::Swap { q: gen_trade_swap(r, val) });
        } else {
            let b = r.dec(0.0, 0.05, 3);
            ev.push(IrEv::Cap { q: gen_trade_cap(r, b) });
        }
    }
    if r.chance(0.85) {
        ev.push(IrEv::Surface { n: nodes(r) });
    }
    for _ in 0..r.usize(6, 24) {
        let i = r.usize(0, 7);
        ev.push(match r.below(26) {
            0 => IrEv::Swap { q: gen_trade_swap(r, val) },
            1 => {
                let b = r.dec(0.0, 0.05, 3);
                IrEv::Cap { q: gen_trade_cap(r, b) }
            }
            2 => IrEv::Flip { i },
            3 => IrEv::Del { i },
            4 => IrEv::Shift { bp: r.dec(-50.0, 50.0, 1) },
            5 => IrEv::Pillar { i, bp: r.dec(-50.0, 50.0, 1) },
            6 => IrEv::Zeros { z: zeros(r) },
            7 => IrEv::Quote { e: json!(gen_edit(r, &cfg.mq, false)) },
            8 | 9 => IrEv::Notify,
            10 => IrEv::Surface { n: nodes(r) },
            11 => IrEv::Bump { i, j: r.usize(0, 5), v: r.dec(0.004, 0.015, 5) },
            12 => match r.below(6) {
                0 => IrEv::NoSurface,
                1 => IrEv::Empty,
                2 | 3 => IrEv::Fresh,
                _ => IrEv::Strip { vol: r.dec(0.004, 0.012, 4) },
            },
            13 | 14 => IrEv::Roll { days: if r.chance(0.7) { r.range(1, 30) } else { r.range(31, 500) }, only: if r.chance(0.3) { r.range(1, 2) as u8 } else { 0 } },
            15..=20 => IrEv::Value { i, bp: *r.pick(&[10.0, 1.0, 100.0, -10.0]), vbp: *r.pick(&[1.0, 10.0, -5.0]) },
            21 | 22 => IrEv::Lookup { days: r.range(-30, 4000), k: r.dec(0.0, 0.08, 4) },
            _ => IrEv::All { order: r.below(1000) },
        });
    }
    ev.push(IrEv::All { order: r.below(1000) });
    Plan { scenario: "rates-book".into(), cfg: json!(cfg), events: ev.iter().map(|e| json!(e)).collect() }
}

fn run_ir(plan: &Plan, ctx: &mut Ctx) -> Outcome {
    let c: IrCfg = serde_json::from_value(plan.cfg.clone()).unwrap();
    let val = from_ord(c.mq.val);
    let md = c.mq.lib();
    let mut w = Ir { md, ctx: IrMarketContext::new(val, Currency::EUR, blank_curve(val, zero_pillars(val, &c.zeros)), None), mq: c.mq, book: vec![] };
    let (mut moves, mut valued) = (0, 0);
    for e in &plan.events {
        let ev: IrEv = serde_json::from_value(e.clone()).unwrap();
        let n = w.book.len();
        match ev {
            IrEv::Swap { q } if n < 6 => {
                let x = w.mq.lib_swap(&q);
                w.book.push(T::S(q, x));
            }
            IrEv::Cap { q } if n < 6 => {
                let v = w.ctx.valuation_date;
                let x = q.lib_cap(v, v, false);
                w.book.push(T::C(q, v, v, x));
            }
            IrEv::Flip { i } if n > 0 => w.flip(i % n),
            IrEv::Del { i } if n > 0 => {
                w.book.remove(i % n);
            }
            IrEv::Shift { bp } => {
                w.ctx.curve.stripped_curves.iter_mut().for_each(|s| s.zero_rate += bp * 1e-4);
                moves += 1;
            }
            IrEv::Pillar { i, bp } => {
                let n = w.ctx.curve.stripped_curves.len();
                if n > 0 {
                    w.ctx.curve.stripped_curves[i % n].zero_rate += bp * 1e-4;
                    moves += 1;
                }
            }
            IrEv::Zeros { z } => {
                w.ctx.curve.stripped_curves = zero_pillars(w.ctx.curve.valuation_date, &z);
                moves += 1;
            }
            IrEv::Quote { e } => {
                let old = w.mq.clone();
                let i = e["i"].as_u64().unwrap_or(0) as usize;
                match serde_json::from_value(e).unwrap() {
                    YEv::SetCash { v, .. } if !w.mq.cash.is_empty() => {
                        let k = i % w.mq.cash.len();
                        w.mq.cash[k].value = v;
                    }
                    YEv::SetFut { v, .. } if !w.mq.fut.is_empty() => {
                        let k = i % w.mq.fut.len();
                        w.mq.fut[k].price = v;
                    }
                    _ => {}
                }
                w.mq.apply(&mut w.md, &old);
            }
            IrEv::Notify => {
                let want = bootstrap(&w.mq);
                let got = no_panic("update", || w.ctx.curve.update(&w.md))?;
                match (got, want) {
                    (Ok(()), Ok(rc)) => {
                        ctx.count("notified");
                        let cut = rc.p.iter().position(|p| p.src == 'S').unwrap_or(rc.p.len());
                        if let Some(m) = diff_pillars(&w.ctx.curve.stripped_curves[..cut.min(w.ctx.curve.stripped_curves.len())], &rc.p[..cut], 1e-11) {
                            return fail("notify", m);
                        }
                        moves += 1;
                    }
                    (Err(e), Ok(_)) => return fail("spurious-error", format!("the notification failed: {e}")),
                    (Ok(()), Err(BootErr::Refuse(m))) => return fail("notify", format!("accepted a market that cannot be bootstrapped: {m}")),
                    _ => {}
                }
                ensure!(w.ctx.curve.valuation_date == w.ctx.valuation_date, "notify", "the notified curve is dated {}", w.ctx.curve.valuation_date);
            }
            IrEv::Surface { n } => {
                let v = w.ctx.valuation_date;
                let mut s = IRNormalVolSurface::new(v);
                s.pillars = n.into_iter().map(|(t, nodes)| CapletVolPillar { expiry: add(v, t), nodes }).collect();
                w.ctx.cap_surface = Some(s);
                moves += 1;
            }
            IrEv::Bump { i, j, v } => {
                if let Some(s) = w.ctx.cap_surface.as_mut().filter(|s| !s.pillars.is_empty()) {
                    let i = i % s.pillars.len();
                    let j = j % s.pillars[i].nodes.len();
                    s.pillars[i].nodes[j].1 = v;
                    moves += 1;
                }
            }
            IrEv::Strip { vol } => {
                let v = w.ctx.valuation_date;
                if w.ctx.curve.stripped_curves.is_empty() {
                    continue;
                }
                let rc = ref_of(&w.ctx.curve);
                let qs = w
                    .book
                    .iter()
                    .filter_map(|t| match t {
                        T::C(q, base, ..) => Some((q, q.lib_quote(*base, cap_pv(q, &q.periods(*base), v, &rc, 0.0, &|_| vol), false))),
                        _ => None,
                    })
                    .map(|x| x.1)
                    .collect::<Vec<_>>();
                let md = IRCapMarketData::new(v, qs);
                let s = w.ctx.cap_surface.get_or_insert_with(|| IRNormalVolSurface::new(v));
                let r = no_panic("rebuild", || s.rebuild(&w.ctx.curve, &md))?;
                ctx.count(if r.is_ok() { "surface_rebuilt" } else { "surface_rebuild_refused" });
                moves += 1;
            }
            IrEv::NoSurface => w.ctx.cap_surface = None,
            IrEv::Empty => {
                w.ctx.curve.stripped_curves.clear();
                moves += 1;
            }
            IrEv::Fresh => {
                let v = w.ctx.valuation_date;
                let got = no_panic("from_raw_quotes", || {
                    IrMarketContext::from_raw_quotes(v, Currency::EUR, w.mq.lib(), None, catalog::cal(&w.mq.cal), catalog::dc(&w.mq.dc))
                })?;
                match (got, bootstrap(&w.mq)) {
                    (Ok(c), Ok(rc)) => {
                        let cut = rc.p.iter().position(|p| p.src == 'S').unwrap_or(rc.p.len());
                        if let Some(m) = diff_pillars(&c.curve.stripped_curves[..cut.min(c.curve.stripped_curves.len())], &rc.p[..cut], 1e-11) {
                            return fail("from-raw-quotes", m);
                        }
                        ensure!(c.valuation_date == v && c.curve.valuation_date == v && c.cap_surface.is_none() && c.currency == Currency::EUR, "from-raw-quotes", "context fields differ from what was given");
                        let s = w.ctx.cap_surface.take();
                        w.ctx = c;
                        w.ctx.cap_surface = s;
                        moves += 1;
                    }
                    (Err(e), Ok(_)) => return fail("spurious-error", format!("from_raw_quotes failed: {e}")),
                    (Ok(_), Err(BootErr::Refuse(m))) => return fail("from-raw-quotes", format!("accepted a market that cannot be bootstrapped: {m}")),
                    _ => {}
                }
            }
            IrEv::Roll { days, only: 2 } => {
                w.ctx.curve.valuation_date = add(w.ctx.curve.valuation_date, days);
                ctx.count("context_and_curve_dates_apart");
                moves += 1;
            }
            IrEv::Roll { days, only } => {
                let v = add(w.ctx.valuation_date, days);
                w.ctx.valuation_date = v;
                if only == 0 {
                    w.ctx.curve.valuation_date = v;
                } else {
                    ctx.count("context_and_curve_dates_apart");
                }
                w.md.valuation_date = v;
                w.mq.val = ord(v);
                for t in w.book.iter_mut() {
                    if let T::C(_, _, val, x) = t {
                        *val = v;
                        x.valuation_date = v;
                    }
                }
                // quotes that no longer resolve would block every later notification
                if bootstrap(&w.mq).is_err() {
                    let old = w.mq.clone();
                    w.mq.fut.retain(|f| imm(&f.code, v).is_some());
                    w.mq.swap.clear();
                    w.mq.apply(&mut w.md, &old);
                }
                ctx.sim_days += days as f64;
                moves += 1;
            }
            IrEv::Value { i, bp, vbp } if n > 0 => {
                w.check(i % n, bp, vbp, i as u64, ctx)?;
                valued += 1;
            }
            IrEv::All { order } => {
                let mut ix: Vec<usize> = (0..n).collect();
                Prng::new(order).shuffle(&mut ix);
                for i in ix {
                    w.check(i, 10.0, 1.0, order, ctx)?;
                    valued += 1;
                }
            }
            IrEv::Lookup { days, k } => w.lookups(days, k, ctx)?,
            _ => {}
        }
    }
    ctx.nontrivial = moves > 0 && valued > 1;
    Ok(())
}

// ------------------------------------------------------------------ FX book

#[derive(Serialize, Deserialize)]
struct FxCfg {
    pair: String,
    val: i64,
    spot: f64,
    quotes: Vec<(Period, f64)>,
    dom: Vec<(i64, f64)>,
    frn: Vec<(i64, f64)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FxT {
    /// None = forward, Some(call)
    pub option: Option<bool>,
    pub buy: bool,
    pub frn: bool,
    pub notional: f64,
    /// strike relative to spot
    pub k: f64,
    pub vol: f64,
    pub expiry: i64,
}

#[derive(Serialize, Deserialize, Debug)]
#[serde(tag = "op")]
enum FxEv {
    Add { t: FxT },
    Del { i: usize },
    Spot { v: f64 },
    Points { i: usize, v: f64 },
    Ladder { q: Vec<(Period, f64)> },
    Dom { bp: f64 },
    DomZeros { z: Vec<(i64, f64)> },
    Frn { bp: f64 },
    Vol { i: usize, v: f64 },
    Smile { atm: f64, rr: f64, bf: f64 },
    Roll { days: i64 },
    Fresh { mq: Box<MarketQ> },
    Value { i: usize },
    All { order: u64 },
    Lookup { days: i64 },
}

pub enum FxLib {
    F(FXForward),
    O(FXVanillaOption),
}

struct Fx {
    rp: RefPair,
    val: NaiveDate,
    spot: f64,
    quotes: Vec<(Period, f64)>,
    ctx: FxMarketContext,
    smile: Option<(f64, f64, f64)>,
    book: Vec<(FxT, f64, NaiveDate, FxLib)>,
}

pub fn lib_fx(rp: &RefPair, t: &FxT, strike: f64, expiry: NaiveDate, trade: NaiveDate) -> FxLib {
    let info = BasicInfo { trade_date: trade, style: if t.option.is_none() { Style::FXForward } else { Style::FXCall }, direction: direction(t.buy), expiry_date: expiry, delivery_date: add(expiry, 2) };
    let ccy = Currency::from_code(if t.frn { &rp.frn } else { &rp.dom }).unwrap();
    match t.option {
        None => FxLib::F(FXForward { basic_info: info, asset: underlying(&rp.name), notional_currency: ccy, notional_amounts: t.notional, strike }),
        Some(call) => FxLib::O(FXVanillaOption {
            basic_info: info,
            asset: underlying(&rp.name),
            option_type: if call { OptionType::Call } else { OptionType::Put },
            notional_currency: ccy,
            notional_amounts: t.notional,
            strike,
            volatility: t.vol,
        }),
    }
}

#[derive(Debug, Clone)]
struct FxV {
    mtm: f64,
    delta: f64,
    gamma: f64,
    vega: f64,
    mtm_ccy: String,
    delta_ccy: String,
}

pub fn smile(val: NaiveDate, fwd: f64, s: (f64, f64, f64)) -> Vec<FXDeltaVolPillar> {
    [91i64, 365, 730]
        .iter()
        .enumerate()
        .map(|(k, t)| FXDeltaVolPillar {
            expiry: add(val, *t),
            forward: fwd,
            quotes: vec![FXVolQuote::Atm(s.0 + 0.002 * k as f64), FXVolQuote::RiskReversal { delta: 0.25, vol: s.1 }, FXVolQuote::Butterfly { delta: 0.25, vol: s.2 }],
        })
        .collect()
}

impl Fx {
    fn value(&self, i: usize) -> Result<(std::result::Result<FxV, Vec<String>>, usize), Violation> {
        let d: &dyn FXDerivatives = match &self.book[i].3 {
            FxLib::F(x) => x,
            FxLib::O(x) => x,
        };
        let m = no_panic("mtm", || d.mtm(&self.ctx))?;
        let de = no_panic("delta", || d.delta(&self.ctx))?;
        let g = no_panic("gamma", || d.gamma(&self.ctx))?;
        let v = no_panic("vega", || d.vega(&self.ctx))?;
        let mut errs = vec![];
        if let Err(e) = &m {
            errs.push(format!("mtm: {e}"));
        }
        if let Err(e) = &de {
            errs.push(format!("delta: {e}"));
        }
        if let Err(e) = &g {
            errs.push(format!("gamma: {e}"));
        }
        if let Err(e) = &v {
            errs.push(format!("vega: {e}"));
        }
        if !errs.is_empty() {
            let n = errs.len();
            return Ok((Err(errs), n));
        }
        let (m, de) = (m.unwrap(), de.unwrap());
        Ok((Ok(FxV { mtm: m.value, delta: de.value, gamma: g.unwrap(), vega: v.unwrap(), mtm_ccy: m.currency.code().into(), delta_ccy: de.currency.code().into() }), 0))
    }
    /// every value the current market allows (several only if quotes share a settlement date)
    fn want(&self, i: usize) -> Vec<Option<FxV>> {
        let (t, k, exp, _) = &self.book[i];
        self.rp
            .points(&self.quotes, self.val, *exp)
            .into_iter()
            .map(|p| {
                let p = p?;
                if self.ctx.domestic_curve.stripped_curves.is_empty() {
                    return None;
                }
                let f = self.spot + p / self.rp.converter;
                let df = ref_of(&self.ctx.domestic_curve).df(*exp);
                let dir = if t.buy { 1.0 } else { -1.0 };
                let n = t.notional;
                Some(match t.option {
                    None => {
                        let base = if t.frn { n * dir } else { -n / k * dir };
                        FxV { mtm: base * (f - k) * df, delta: base, gamma: 0.0, vega: 0.0, mtm_ccy: self.rp.dom.clone(), delta_ccy: self.rp.frn.clone() }
                    }
                    Some(call) => {
                        let w = if call { 1.0 } else { -1.0 };
                        let yf = yf365(self.val, *exp);
                        let sd = t.vol * yf.sqrt();
                        let base = if t.frn { n } else { n / k };
                        let conv = if t.frn { n / self.spot } else { n / k };
                        let ccy = if t.frn { &self.rp.frn } else { &self.rp.dom }.clone();
                        let (pr, de, ga, ve) = if sd <= 0.0 {
                            let itm = w * (f - k) > 0.0;
                            (df * (w * (f - k)).max(0.0), if itm { w } else { 0.0 }, 0.0, 0.0)
                        } else {
                            let d1 = ((f / k).ln() + 0.5 * sd * sd) / sd;
                            let d2 = d1 - sd;
                            (
                                df * (w * f * norm_cdf(w * d1) - w * k * norm_cdf(w * d2)),
                                w * norm_cdf(w * d1),
                                df * norm_pdf(d1) / (f * sd),
                                df * f * norm_pdf(d1) * yf.sqrt() / 100.0,
                            )
                        };
                        FxV { mtm: -dir * conv * pr, delta: dir * base * de, gamma: dir * base * ga, vega: dir * conv * ve, mtm_ccy: ccy, delta_ccy: self.rp.frn.clone() }
                    }
                })
            })
            .collect()
    }
    fn print(&self) -> String {
        format!("{:?} {} {:?} {:?} {:?} {}", self.ctx.valuation_date, self.ctx.spot, ref_of(&self.ctx.domestic_curve), ref_of(&self.ctx.foreign_curve), self.ctx.forwards.quotes, self.ctx.forwards.valuation_date)
    }
    fn check(&mut self, i: usize, ctx: &mut Ctx) -> Outcome {
        let before = self.print();
        let (got, nerr) = self.value(i)?;
        let (again, _) = self.value(i)?;
        ensure!(format!("{got:?}") == format!("{again:?}"), "repeat", "valuing trade {i} twice gave {got:?} and {again:?}");
        ensure!(before == self.print(), "market-changed", "valuing an FX trade changed the market");
        let t = self.book[i].0.clone();
        let what = format!("{} {} struck {} expiring {} valued {}", self.rp.name, json!(t), self.book[i].1, self.book[i].2, self.val);
        let want = self.want(i);
        ctx.state(&format!("fx {:?} {} {} {}", t.option, t.frn, got.is_ok(), self.quotes.len().min(6)));
        let scale = t.notional * (self.spot + self.book[i].1).max(1.0);
        let fwd = t.option.is_none();
        let near = |a: f64, b: f64, s: f64| (a - b).abs() <= 1e-9 * s || a == b || a.is_nan() && b.is_nan();
        match &got {
            Err(e) => {
                if !want.iter().any(|w| w.is_none()) {
                    return ctx.report("spurious-error", format!("{what}: {e:?}, expected {want:?}"));
                }
                // a forward's delta, gamma and vega need no market
                ensure!(nerr == if fwd { 1 } else { 4 }, "number-not-error", "{what}: out of the ladder's range, but only these refused: {e:?}");
                ctx.count("refused_as_required");
            }
            Ok(v) => {
                ctx.obs("mtm", v.mtm);
                if want.iter().all(|w| w.is_none()) {
                    return ctx.report("number-not-error", format!("{what}: valued at {} outside the ladder's range", v.mtm));
                }
                let conv = if t.frn { t.notional / self.spot } else { t.notional / self.book[i].1 };
                let gs = t.notional.max(t.notional / self.book[i].1);
                let at_money_no_vol = t.option.is_some() && t.vol == 0.0;
                let ok = want.iter().flatten().any(|w| {
                    near(v.mtm, w.mtm, if fwd { scale.max(gs * scale / t.notional) } else { conv * (self.spot + self.book[i].1) })
                        && (near(v.delta, w.delta, gs) || at_money_no_vol)
                        && (near(v.gamma, w.gamma, gs.max(w.gamma.abs())) || at_money_no_vol)
                        && (near(v.vega, w.vega, conv * self.spot.max(1.0)) || at_money_no_vol)
                        && v.mtm_ccy == w.mtm_ccy
                        && v.delta_ccy == w.delta_ccy
                });
                ensure!(ok, if fwd { "fx-forward" } else { "fx-option" }, "{what}: {v:?}, expected {want:?}");
                ctx.count(if fwd { "forward_values_checked" } else { "option_values_checked" });
                // the opposite direction
                let mut o = t.clone();
                o.buy = !o.buy;
                let flipped = lib_fx(&self.rp, &o, self.book[i].1, self.book[i].2, self.val);
                let old = std::mem::replace(&mut self.book[i].3, flipped);
                let (x, _) = self.value(i)?;
                self.book[i].3 = old;
                let Ok(x) = x else { return fail("spurious-error", format!("{what}: {x:?} in the other direction")) };
                ensure!(v.mtm + x.mtm == 0.0 && (v.delta + x.delta == 0.0 || at_money_no_vol) && v.gamma + x.gamma == 0.0 && (v.vega + x.vega == 0.0 || at_money_no_vol), "buy-sell", "{what}: {v:?} one way, {x:?} the other");
            }
        }
        Ok(())
    }
    fn lookups(&mut self, days: i64, ctx: &mut Ctx) -> Outcome {
        let t = add(self.val, days);
        let u = underlying(&self.rp.name);
        let cal = u.calendar();
        let got = no_panic("forward_at", || self.ctx.forward_at(t, &cal))?;
        let want = self.rp.points(&self.quotes, self.val, t);
        let ok = match &got {
            Err(_) => want.contains(&None),
            Ok(v) => want.iter().flatten().any(|p| close(*v, self.spot + p / self.rp.converter, 1e-12)),
        };
        ensure!(ok, "forward-at", "{} outright to {t} from {} is {got:?}, points expected {want:?} on spot {}", self.rp.name, self.val, self.spot);
        // the same ladder under a pair without a listed convention: points are pips of the quote currency
        let own = self.ctx.pair;
        for (quote, base, pips) in [(Currency::JPY, Currency::SGD, 100.0), (Currency::EUR, Currency::JPY, 10_000.0), (Currency::SGD, Currency::THB, 10_000.0)] {
            self.ctx.pair = (quote, base);
            let got = no_panic("forward_at", || self.ctx.forward_at(t, &cal));
            self.ctx.pair = own;
            let got = got?;
            let ok = match &got {
                Err(_) => want.contains(&None),
                Ok(v) => want.iter().flatten().any(|p| close(*v, self.spot + p / pips, 1e-12)),
            };
            ensure!(ok, "forward-at", "{base:?}{quote:?} outright to {t} from {} is {got:?}, points expected {want:?} on spot {}", self.val, self.spot);
        }
        for (n, c, r, df) in [
            ("domestic", &self.ctx.domestic_curve, no_panic("rate_d", || self.ctx.rate_d(t))?, no_panic("discount_d", || self.ctx.discount_d(t))?),
            ("foreign", &self.ctx.foreign_curve, no_panic("rate_f", || self.ctx.rate_f(t))?, no_panic("discount_f", || self.ctx.discount_f(t))?),
        ] {
            let rc = ref_of(c);
            if rc.p.is_empty() {
                ensure!(r.is_err() && df.is_err(), "lookup", "an empty {n} curve answered {r:?}, {df:?}");
                continue;
            }
            ensure!(r.as_ref().is_ok_and(|x| close(*x, rc.zero(t), 1e-12)) && df.as_ref().is_ok_and(|x| close(*x, rc.df(t), 1e-12)), "lookup", "{n} rate and discount to {t}: {r:?} {df:?}, expected {} {}", rc.zero(t), rc.df(t));
        }
        if let Some(s) = self.smile {
            if days > 0 {
                let k = self.spot * (1.0 + (days % 7) as f64 * 0.02 - 0.06);
                let got = no_panic("implied_vol", || self.ctx.implied_vol(t, k))?;
                let fresh = FXVolSurface::new(self.ctx.valuation_date, smile(self.val, self.spot, s)).and_then(|x| x.volatility(t, k));
                ensure!(format!("{got:?}") == format!("{fresh:?}"), "lookup", "implied volatility at ({t}, {k}) is {got:?}, a fresh surface says {fresh:?}");
            }
        }
        ctx.count("context_lookups_checked");
        Ok(())
    }
}

pub fn gen_fxt(r: &mut Prng, val: i64, rp: &RefPair, quotes: &[(Period, f64)]) -> FxT {
    let expiry = if !quotes.is_empty() && r.chance(0.4) { ord(rp.far(r.pick(quotes).0, from_ord(val))) + r.range(-1, 1) } else if r.chance(0.1) { val + r.range(700, 6000) } else { val + r.range(-5, 800) };
    FxT {
        option: *r.pick(&[None, Some(true), Some(false)]),
        buy: r.chance(0.5),
        frn: r.chance(0.5),
        notional: *r.pick(&[1.0, 1e6, 123456.78, 0.01, 2.5e9]),
        k: if r.chance(0.12) { *r.pick(&[0.05, 0.4, 1.0, 2.5, 20.0]) } else { r.dec(0.8, 1.25, 3) },
        vol: if r.chance(0.04) { 0.0 } else if r.chance(0.08) { *r.pick(&[1e-6, 0.001, 1.5, 6.0]) } else { r.dec(0.03, 0.3, 3) },
        expiry,
    }
}

fn gen_fx(r: &mut Prng) -> Plan {
    let pair = *r.pick(PAIRS);
    let rp = RefPair::new(pair);
    let val = ord(awkward_date(r));
    let spot = if rp.dom == "JPY" { r.dec(80.0, 160.0, 2) } else { r.dec(0.5, 20.0, 4) };
    let quotes = gen_ladder(r);
    let mut ev = vec![];
    for _ in 0..r.usize(1, 3) {
        ev.push(FxEv::Add { t: gen_fxt(r, val, &rp, &quotes) });
    }
    let mut now = val;
    for _ in 0..r.usize(6, 25) {
        let i = r.usize(0, 9);
        ev.push(match r.below(24) {
            0 | 1 => FxEv::Add { t: gen_fxt(r, now, &rp, &quotes) },
            2 => FxEv::Del { i },
            3 | 4 => FxEv::Spot { v: spot * if r.chance(0.05) { *r.pick(&[0.5, 3.0]) } else { r.dec(0.8, 1.2, 4) } },
            5 | 6 => FxEv::Points { i, v: if r.chance(0.1) { *r.pick(&[0.0, 1500.0, -1500.0]) } else { r.dec(-80.0, 80.0, 2) } },
            7 => FxEv::Ladder { q: gen_ladder(r) },
            8 => FxEv::Dom { bp: r.dec(-60.0, 60.0, 1) },
            9 => FxEv::DomZeros { z: if r.chance(0.15) { vec![] } else { zeros(r) } },
            10 => FxEv::Frn { bp: r.dec(-60.0, 60.0, 1) },
            11 => FxEv::Vol { i, v: r.dec(0.02, 0.3, 3) },
            12 => FxEv::Smile { atm: r.dec(0.06, 0.15, 3), rr: r.dec(-0.01, 0.01, 4), bf: r.dec(0.001, 0.004, 4) },
            13 | 14 => {
                let days = if r.chance(0.1) { r.range(40, 500) } else { r.range(1, 40) };
                now += days;
                FxEv::Roll { days }
            }
            15 => {
                let mut mq = gen_market(r, false, 0);
                mq.fut.clear();
                FxEv::Fresh { mq: Box::new(mq) }
            }
            16..=18 => FxEv::Value { i },
            19 | 20 => FxEv::Lookup { days: if r.chance(0.1) { r.range(800, 9000) } else { r.range(-3, 900) } },
            _ => FxEv::All { order: r.below(1000) },
        });
    }
    ev.push(FxEv::All { order: r.below(1000) });
    let (dom, frn) = (zeros(r), zeros(r));
    Plan { scenario: "fx-book".into(), cfg: json!(FxCfg { pair: pair.into(), val, spot, quotes, dom, frn }), events: ev.iter().map(|e| json!(e)).collect() }
}

fn run_fx(plan: &Plan, ctx: &mut Ctx) -> Outcome {
    let c: FxCfg = serde_json::from_value(plan.cfg.clone()).unwrap();
    let rp = RefPair::new(&c.pair);
    let u = underlying(&c.pair);
    let val = from_ord(c.val);
    let pair = (Currency::from_code(&rp.dom).unwrap(), Currency::from_code(&rp.frn).unwrap());
    ensure!(u.dom_currency() == pair.0 && u.frn_currency() == pair.1 && u.forward_points_converter() == rp.converter, "conventions", "{}: domestic {:?}, foreign {:?}, points divided by {}", c.pair, u.dom_currency(), u.frn_currency(), u.forward_points_converter());
    let m = FxMarketContext::for_linear(val, c.spot, pair, blank_curve(val, zero_pillars(val, &c.dom)), blank_curve(val, zero_pillars(val, &c.frn)), u.forward_helper(val, c.spot, lib_quotes(&c.quotes)));
    let m = match m {
        Ok(m) => m,
        Err(e) => return fail("spurious-error", format!("for_linear: {e}")),
    };
    let mut w = Fx { rp, val, spot: c.spot, quotes: c.quotes, ctx: m, smile: None, book: vec![] };
    let (mut moves, mut valued) = (0, 0);
    for e in &plan.events {
        let ev: FxEv = serde_json::from_value(e.clone()).unwrap();
        let n = w.book.len();
        match ev {
            FxEv::Add { t } if n < 8 => {
                let (k, exp) = (w.spot * t.k, from_ord(t.expiry));
                let x = lib_fx(&w.rp, &t, k, exp, w.val);
                w.book.push((t, k, exp, x));
            }
            FxEv::Del { i } if n > 0 => {
                w.book.remove(i % n);
            }
            FxEv::Spot { v } => {
                w.spot = v;
                w.ctx.spot = v;
                moves += 1;
            }
            FxEv::Points { i, v } if !w.quotes.is_empty() => {
                let k = i % w.quotes.len();
                w.quotes[k].1 = v;
                w.ctx.forwards.quotes[k].value = v;
                moves += 1;
            }
            FxEv::Ladder { q } => {
                w.ctx.forwards.quotes = lib_quotes(&q);
                w.quotes = q;
                moves += 1;
            }
            FxEv::Dom { bp } => {
                w.ctx.domestic_curve.stripped_curves.iter_mut().for_each(|s| s.zero_rate += bp * 1e-4);
                moves += 1;
            }
            FxEv::DomZeros { z } => {
                w.ctx.domestic_curve.stripped_curves = zero_pillars(w.ctx.domestic_curve.valuation_date, &z);
                moves += 1;
            }
            FxEv::Frn { bp } => w.ctx.foreign_curve.stripped_curves.iter_mut().for_each(|s| s.zero_rate += bp * 1e-4),
            FxEv::Vol { i, v } if n > 0 => {
                let b = &mut w.book[i % n];
                b.0.vol = v;
                if let FxLib::O(x) = &mut b.3 {
                    x.volatility = v;
                }
            }
            FxEv::Smile { atm, rr, bf } => {
                let s = (atm, rr, bf);
                if let Ok(x) = no_panic("FXVolSurface::new", || FXVolSurface::new(w.val, smile(w.val, w.spot, s)))? {
                    w.ctx.vol_surface = x;
                    w.smile = Some(s);
                    // the surface's own terms stay those of this moment
                    let (v, sp) = (w.val, w.spot);
                    let k = sp * 1.01;
                    let t = add(v, 200);
                    let got = no_panic("implied_vol", || w.ctx.implied_vol(t, k))?;
                    let fresh = FXVolSurface::new(v, smile(v, sp, s)).and_then(|x| x.volatility(t, k));
                    ensure!(format!("{got:?}") == format!("{fresh:?}"), "lookup", "implied volatility {got:?}, a fresh surface says {fresh:?}");
                    w.smile = None;
                }
            }
            FxEv::Roll { days } => {
                w.val = add(w.val, days);
                w.ctx.valuation_date = w.val;
                w.ctx.forwards.valuation_date = w.val;
                w.ctx.domestic_curve.valuation_date = w.val;
                w.ctx.foreign_curve.valuation_date = w.val;
                ctx.sim_days += days as f64;
                moves += 1;
            }
            FxEv::Fresh { mut mq } => {
                mq.val = ord(w.val);
                let Ok(rc) = bootstrap(&mq) else { continue };
                let got = no_panic("from_raw_quotes", || {
                    FxMarketContext::from_raw_quotes(
                        w.val,
                        w.spot,
                        pair,
                        mq.lib(),
                        mq.lib(),
                        lib_quotes(&w.quotes),
                        smile(w.val, w.spot, (0.1, 0.0, 0.002)),
                        catalog::cal(&mq.cal),
                        catalog::cal(&mq.cal),
                        catalog::dc(&mq.dc),
                        catalog::dc(&mq.dc),
                    )
                })?;
                match got {
                    Err(e) => return fail("spurious-error", format!("from_raw_quotes: {e}")),
                    Ok(x) => {
                        for cv in [&x.domestic_curve, &x.foreign_curve] {
                            if let Some(m) = diff_pillars(&cv.stripped_curves, &rc.p, 1e-11) {
                                return fail("from-raw-quotes", m);
                            }
                            ensure!(cv.valuation_date == w.val, "from-raw-quotes", "curve dated {}", cv.valuation_date);
                        }
                        ensure!(x.valuation_date == w.val && x.spot == w.spot && x.pair == pair, "from-raw-quotes", "context fields differ from what was given");
                        w.ctx = x;
                        ctx.count("context_from_raw_quotes");
                        moves += 1;
                    }
                }
            }
            FxEv::Value { i } if n > 0 => {
                w.check(i % n, ctx)?;
                valued += 1;
            }
            FxEv::All { order } => {
                let mut ix: Vec<usize> = (0..n).collect();
                Prng::new(order).shuffle(&mut ix);
                for i in ix {
                    w.check(i, ctx)?;
                    valued += 1;
                }
            }
            FxEv::Lookup { days } => w.lookups(days, ctx)?,
            _ => {}
        }
    }
    ctx.nontrivial = moves > 0 && valued > 1;
    Ok(())
}

impl Property for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 3_000_000 } else { 120_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one live rates or FX book under 7-28 events (trades added, flipped, removed; curve shifts and notifications, surface moves and strips, spot, points and ladder edits, smile rebuilds, contexts rebuilt from raw quotes, rolls of the date, lookups) with trades valued in seeded order in between; every value and greek is compared with an independent valuation of the current snapshot, repeated, and checked to leave the market untouched; non-trivial = at least one market move and two valuations; distinct by hash of the values returned"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["InterestRateSwap", "CapFloor", "FXForward", "FXVanillaOption", "IrMarketContext", "FxMarketContext", "YieldTermStructure", "IRNormalVolSurface", "FXForwardHelper", "FXVolSurface"], &[])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["caps carry their own valuation date, which the simulated user rolls with the market", "a zero-volatility option exactly at the money has no defined delta"]
    }
    fn generate(&self, r: &mut Prng, idx: u64, _t: bool) -> Plan {
        if idx % 2 == 0 { gen_ir(r) } else { gen_fx(r) }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        if plan.scenario == "rates-book" { run_ir(plan, ctx) } else { run_fx(plan, ctx) }
    }
}
