//! A rates market described by plain data, the library objects built from it, and an independent
//! reference bootstrap over the same data.
use super::catalog;
use super::prng::Prng;
use super::util::*;
use chrono::{Datelike, NaiveDate, Weekday};
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::{InterestRateSchedulePeriod, InterestRateSwap, InterestRateSwapLeg, InterestRateSwapLegType, ScheduleDetail};
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::{StrippedCurve, YieldTermMarketData};
use finquant::time::businessdayconvention::BusinessDayConvention as Bdc;
use finquant::time::calendars::Calendar;
use finquant::time::daycounters::DayCounters;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

/// Terms of one quote that differ from the market's usual ones.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Alt {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub settle: Option<i64>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub eom: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub conv: Option<Bdc>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dc: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cal: Option<Value>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CashQ {
    pub value: f64,
    pub period: Period,
    #[serde(default)]
    pub alt: Alt,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FutQ {
    pub price: f64,
    pub code: String,
    pub cvx: f64,
    pub months: u32,
    #[serde(default)]
    pub alt: Alt,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct LegQ {
    pub fixed: bool,
    /// coupon or spread
    pub rate: f64,
    pub buy: bool,
    pub notional: f64,
    pub freq: String,
    pub tenor: Period,
    pub duration: Period,
    pub dc: Value,
    pub conv: Bdc,
    pub settle: i64,
    pub eom: bool,
    pub pay_delay: i64,
    pub before: i64,
    /// the schedule's own calendar
    #[serde(default)]
    pub cal: Option<Value>,
    /// fixed schedule, empty = generated
    #[serde(default)]
    pub schedule: Vec<SchedQ>,
    /// currency of the leg's index, none = EUR
    #[serde(default)]
    pub ccy: Option<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SchedQ {
    pub start: i64,
    pub end: i64,
    pub pay: i64,
    pub balance: f64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SwapQ {
    pub legs: Vec<LegQ>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct MarketQ {
    pub val: i64,
    pub cal: Value,
    pub dc: Value,
    pub cash: Vec<CashQ>,
    pub fut: Vec<FutQ>,
    pub swap: Vec<SwapQ>,
    /// build with fault-injectable calendars and day counters
    pub sim: bool,
}

pub fn frequency(s: &str) -> Frequency {
    serde_json::from_value(json!(s)).unwrap()
}

impl MarketQ {
    fn c(&self) -> Box<dyn Calendar> {
        self.c_or(&None)
    }
    fn c_or(&self, own: &Option<Value>) -> Box<dyn Calendar> {
        let spec = own.as_ref().unwrap_or(&self.cal);
        catalog::cal(&if self.sim { catalog::sim_cal(spec) } else { spec.clone() })
    }
    fn d(&self, spec: &Value) -> Box<dyn DayCounters> {
        catalog::dc(&if self.sim { catalog::sim_dc(spec) } else { spec.clone() })
    }
    pub fn index(&self, period: Period, settle: i64, eom: bool) -> InterestRateIndex {
        let mut ix = InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(period)).unwrap();
        ix.calendar = self.c();
        ix.day_counter = self.d(&self.dc);
        ix.settlement_days = settle;
        ix.end_of_month = eom;
        ix
    }
    fn alter(&self, ix: &mut InterestRateIndex, a: &Alt) {
        if a.cal.is_some() {
            ix.calendar = self.c_or(&a.cal);
        }
        if let Some(c) = a.conv {
            ix.convention = c;
        }
        if let Some(dc) = &a.dc {
            ix.day_counter = self.d(dc);
        }
    }
    pub fn lib_cash(&self, q: &CashQ) -> OISRate {
        let mut ix = self.index(q.period, q.alt.settle.unwrap_or(2), q.alt.eom.unwrap_or(false));
        self.alter(&mut ix, &q.alt);
        OISRate { value: q.value, interest_rate_index: ix }
    }
    pub fn lib_fut(&self, q: &FutQ) -> FuturesRate {
        let mut spec = InterestRateFutures::new(Period::Months(q.months));
        spec.calendar = self.c_or(&q.alt.cal);
        spec.convention = q.alt.conv.unwrap_or(spec.convention);
        spec.end_of_month = q.alt.eom.unwrap_or(false);
        let mut ix = self.index(Period::Months(3), 2, false);
        if let Some(dc) = &q.alt.dc {
            ix.day_counter = self.d(dc);
        }
        FuturesRate { value: q.price, imm_code: q.code.clone(), convexity_adjustment: q.cvx, futures_spec: spec, interest_rate_index: ix }
    }
    pub fn lib_leg(&self, l: &LegQ) -> InterestRateSwapLeg {
        let mut ix = self.index(Period::Months(3), l.settle, l.eom);
        if let Some(c) = &l.ccy {
            ix.currency = iso_currency::Currency::from_code(c).unwrap();
        }
        InterestRateSwapLeg::new(
            if l.fixed { InterestRateSwapLegType::Fixed { coupon: l.rate } } else { InterestRateSwapLegType::Float { spread: l.rate } },
            if l.buy { Direction::Buy } else { Direction::Sell },
            ix,
            l.notional,
            ScheduleDetail::new(frequency(&l.freq), l.tenor, l.duration, self.d(&l.dc), self.c_or(&l.cal), l.conv, l.settle, l.pay_delay, l.before),
            l.schedule
                .iter()
                .map(|s| InterestRateSchedulePeriod::new(from_ord(s.start), from_ord(s.end), from_ord(s.pay), from_ord(s.start), 0.0, s.balance))
                .collect(),
        )
    }
    pub fn lib_swap(&self, s: &SwapQ) -> InterestRateSwap {
        InterestRateSwap::new(s.legs.iter().map(|l| self.lib_leg(l)).collect())
    }
    pub fn lib(&self) -> YieldTermMarketData {
        YieldTermMarketData::new(
            from_ord(self.val),
            self.cash.iter().map(|q| self.lib_cash(q)).collect(),
            self.fut.iter().map(|q| self.lib_fut(q)).collect(),
            self.swap.iter().map(|q| self.lib_swap(q)).collect(),
        )
    }
    /// bring an existing market-data object to this description, editing only what differs
    pub fn apply(&self, md: &mut YieldTermMarketData, from: &MarketQ) {
        md.valuation_date = from_ord(self.val);
        for i in 0..self.cash.len() {
            match from.cash.get(i) {
                Some(o) if *o == self.cash[i] => {}
                Some(o) if o.period == self.cash[i].period && o.alt == self.cash[i].alt => md.cash_quote[i].value = self.cash[i].value,
                Some(_) => md.cash_quote[i] = self.lib_cash(&self.cash[i]),
                None => md.cash_quote.push(self.lib_cash(&self.cash[i])),
            }
        }
        md.cash_quote.truncate(self.cash.len());
        for i in 0..self.fut.len() {
            match from.fut.get(i) {
                Some(o) if *o == self.fut[i] => {}
                Some(_) => md.futures_quote[i] = self.lib_fut(&self.fut[i]),
                None => md.futures_quote.push(self.lib_fut(&self.fut[i])),
            }
        }
        md.futures_quote.truncate(self.fut.len());
        for i in 0..self.swap.len() {
            match from.swap.get(i) {
                Some(o) if *o == self.swap[i] => {}
                Some(_) => md.swap_quote[i] = self.lib_swap(&self.swap[i]),
                None => md.swap_quote.push(self.lib_swap(&self.swap[i])),
            }
        }
        md.swap_quote.truncate(self.swap.len());
    }
}

// ------------------------------------------------------------------ reference

pub fn yf365(a: NaiveDate, b: NaiveDate) -> f64 {
    (ord(b) - ord(a)) as f64 / 365.0
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pillar {
    pub settle: NaiveDate,
    pub date: NaiveDate,
    pub market: f64,
    pub zero: f64,
    pub disc: f64,
    pub hidden: bool,
    pub src: char,
}

/// Reference curve: the zero at a date is read one day ahead, linear in days between the pillar
/// before it and the first visible pillar at or after it; the first visible pillar's rate before
/// that pillar; flat after the last.
#[derive(Clone, Debug)]
pub struct RefCurve {
    pub val: NaiveDate,
    pub p: Vec<Pillar>,
}
impl RefCurve {
    pub fn zero(&self, date: NaiveDate) -> f64 {
        let t = add(date, 1);
        let Some(j) = self.p.iter().position(|x| t <= x.date && !x.hidden) else {
            return self.p.last().unwrap().zero;
        };
        let first_visible = self.p.iter().position(|x| !x.hidden).unwrap();
        if j == first_visible || self.p[j] == self.p[first_visible] || self.p[j - 1].date == self.p[j].date {
            return self.p[j].zero;
        }
        let (a, b) = (&self.p[j - 1], &self.p[j]);
        let (d1, d2) = ((ord(t) - ord(a.date)) as f64, (ord(b.date) - ord(t)) as f64);
        (d1 * b.zero + d2 * a.zero) / (d1 + d2)
    }
    pub fn df(&self, date: NaiveDate) -> f64 {
        (-self.zero(date) * yf365(self.val, date)).exp()
    }
    pub fn df_shift(&self, date: NaiveDate, bp: f64) -> f64 {
        self.df(date) * (-bp * 1e-4 * yf365(self.val, date)).exp()
    }
}

#[derive(Clone, Debug)]
pub struct Flow {
    pub start: NaiveDate,
    pub end: NaiveDate,
    pub pay: NaiveDate,
    pub tau: f64,
    pub balance: f64,
}

fn units(p: Period) -> u32 {
    match p {
        Period::Days(n) | Period::Weeks(n) => n as u32,
        Period::Months(n) | Period::Years(n) => n,
        _ => 1,
    }
}
fn times(n: u32, p: Period) -> Period {
    match p {
        Period::Days(k) => Period::Days(k * n as i64),
        Period::Weeks(k) => Period::Weeks(k * n as i64),
        Period::Months(k) => Period::Months(k * n),
        Period::Years(k) => Period::Years(k * n),
        x => x,
    }
}

pub fn leg_flows(m: &MarketQ, l: &LegQ, val: NaiveDate) -> Vec<Flow> {
    let dc = catalog::dc(&l.dc);
    if !l.schedule.is_empty() {
        return l
            .schedule
            .iter()
            .map(|s| Flow { start: from_ord(s.start), end: from_ord(s.end), pay: from_ord(s.pay), tau: dc.year_fraction(from_ord(s.start), from_ord(s.end)).unwrap(), balance: s.balance })
            .collect();
    }
    let cal = catalog::cal(l.cal.as_ref().unwrap_or(&m.cal));
    let adv = |x: NaiveDate, p: Period, eom: bool| cal.advance(x, p, l.conv, Some(eom)).unwrap().unwrap();
    let eff = adv(val, Period::Days(l.settle), l.eom);
    let n = units(l.duration) / units(l.tenor);
    let step = frequency(&l.freq).period().unwrap();
    let mut out = vec![];
    let mut start = eff;
    for k in 1..=n {
        let end = adv(eff, times(k, step), l.eom);
        let pay = adv(end, Period::Days(l.pay_delay), false);
        out.push(Flow { start, end, pay, tau: dc.year_fraction(start, end).unwrap(), balance: l.notional });
        start = end;
    }
    out
}

/// every field of the periods a leg generates: the reset is fixed ahead of the accrual
pub fn leg_periods(m: &MarketQ, l: &LegQ, val: NaiveDate) -> Vec<InterestRateSchedulePeriod> {
    if !l.schedule.is_empty() {
        return l.schedule.iter().map(|s| InterestRateSchedulePeriod::new(from_ord(s.start), from_ord(s.end), from_ord(s.pay), from_ord(s.start), 0.0, s.balance)).collect();
    }
    let cal = catalog::cal(l.cal.as_ref().unwrap_or(&m.cal));
    let reset = |x: NaiveDate| cal.advance(x, Period::Days(-l.before), l.conv, Some(false)).unwrap().unwrap();
    leg_flows(m, l, val).iter().map(|f| InterestRateSchedulePeriod::new(f.start, f.end, f.pay, reset(f.start), l.notional, f.balance)).collect()
}

/// swap value with the curve shifted in parallel by `bp`; flows[i] belongs to legs[i]
pub fn swap_pv(s: &SwapQ, flows: &[Vec<Flow>], val: NaiveDate, c: &RefCurve, bp: f64) -> f64 {
    let mut pv = 0.0;
    for (l, fl) in s.legs.iter().zip(flows) {
        let sign = if l.buy { 1.0 } else { -1.0 };
        // flows paid before the valuation are not part of it
        for f in fl.iter().filter(|f| f.pay >= val) {
            let rate = if l.fixed { l.rate } else { (c.df_shift(f.start, bp) / c.df_shift(f.end, bp) - 1.0) / f.tau + l.rate };
            pv += sign * rate * f.tau * f.balance * c.df_shift(f.pay, bp);
        }
        if let Some(f) = fl.last().filter(|f| f.pay >= val) {
            pv += sign * f.balance * c.df_shift(f.pay, bp);
        }
    }
    pv
}

pub fn third_wed(y: i32, m: u32) -> NaiveDate {
    let first = d(y, m, 1);
    let off = (Weekday::Wed.num_days_from_monday() + 7 - first.weekday().num_days_from_monday()) % 7;
    add(first, off as i64 + 14)
}
pub fn imm(code: &str, r: NaiveDate) -> Option<NaiveDate> {
    let c: Vec<char> = code.chars().collect();
    if c.len() != 2 {
        return None;
    }
    let m = "FGHJKMNQUVXZ".find(c[0].to_ascii_uppercase())? as u32 + 1;
    let digit = c[1].to_digit(10)? as i32;
    (r.year()..r.year() + 21).filter(|y| y.rem_euclid(10) == digit).map(|y| third_wed(y, m)).find(|x| *x >= r)
}

#[derive(Debug, Clone, PartialEq)]
pub enum BootErr {
    /// no rate in reach reprices the swap / malformed quote: an error is required
    Refuse(String),
    /// within rounding of the edge: either outcome is fine
    Edge,
}

/// Bootstrap of the described market by the documented steps, written independently.
/// Swap zeros are solved by bisection.
pub fn bootstrap(m: &MarketQ) -> Result<RefCurve, BootErr> {
    let val = from_ord(m.val);
    let cal = catalog::cal(&m.cal);
    let dc = catalog::dc(&m.dc);
    let mut c = RefCurve { val, p: vec![] };
    let conv = |p: Period| match p {
        Period::Days(_) | Period::Weeks(_) => Bdc::Following,
        _ => Bdc::ModifiedFollowing,
    };
    let mut cash: Vec<Pillar> = vec![];
    for q in &m.cash {
        let own_cal = q.alt.cal.as_ref().map(catalog::cal);
        let own_dc = q.alt.dc.as_ref().map(catalog::dc);
        let (cal, dc) = (own_cal.as_ref().unwrap_or(&cal), own_dc.as_ref().unwrap_or(&dc));
        let (cv, eom) = (q.alt.conv.unwrap_or(conv(q.period)), q.alt.eom.unwrap_or(false));
        let s = cal.advance(val, Period::Days(q.alt.settle.unwrap_or(2)), cv, Some(eom)).unwrap().unwrap();
        let e = cal.advance(s, q.period, cv, Some(eom)).unwrap().unwrap();
        let growth = 1.0 + dc.year_fraction(s, e).unwrap() * q.value;
        let zero = growth.ln() / yf365(s, e);
        cash.push(Pillar { settle: s, date: e, market: q.value, zero, disc: (-zero * yf365(val, e)).exp(), hidden: q.period == Period::Weeks(1), src: 'O' });
    }
    cash.sort_by_key(|p| p.date);
    c.p = cash;
    let broken = |p: &Pillar| !(p.zero.is_finite() && p.disc.is_finite());
    if c.p.iter().any(broken) {
        return Err(BootErr::Refuse("a deposit's pillar is not finite".into()));
    }
    let mut first_future = true;
    for q in &m.fut {
        let s = imm(&q.code, val).ok_or_else(|| BootErr::Refuse(format!("IMM code {:?}", q.code)))?;
        let own_cal = q.alt.cal.as_ref().map(catalog::cal);
        let own_dc = q.alt.dc.as_ref().map(catalog::dc);
        let (cal, dc) = (own_cal.as_ref().unwrap_or(&cal), own_dc.as_ref().unwrap_or(&dc));
        let t = cal.advance(s, Period::Months(q.months), q.alt.conv.unwrap_or(Bdc::ModifiedFollowing), Some(q.alt.eom.unwrap_or(false))).unwrap().unwrap();
        let e = third_wed(t.year(), t.month());
        if c.p.is_empty() {
            return Err(BootErr::Refuse("futures without a deposit".into()));
        }
        let fwd = 1.0 - q.price / 100.0 + q.cvx / 100.0;
        // rate up to the settlement: the nearer of the two pillars around it
        let k = c.p.iter().position(|x| x.settle < s && x.date >= s);
        let (a, b) = match k {
            Some(0) => (0, 0),
            Some(j) => (j - 1, j),
            None => (c.p.len() - 1, c.p.len() - 1), // settlement beyond every pillar
        };
        let prev = if (ord(c.p[b].date) - ord(s)) <= (ord(s) - ord(c.p[a].date)) { &c.p[b] } else { &c.p[a] };
        let disc = (-prev.zero * yf365(val, s)).exp() / (1.0 + dc.year_fraction(s, e).unwrap() * fwd);
        let zero = if first_future && c.p.last().unwrap().date != e {
            let mut cum = 1.0;
            let mut from = val;
            for x in &c.p {
                cum *= (-x.zero * yf365(from, x.date)).exp();
                from = x.date;
            }
            -(disc / cum).ln() / yf365(from, e)
        } else {
            -disc.ln() / yf365(val, e)
        };
        first_future = false;
        if !(zero.is_finite() && disc.is_finite()) {
            return Err(BootErr::Refuse("a future's pillar is not finite".into()));
        }
        c.p.push(Pillar { settle: s, date: e, market: q.price, zero, disc, hidden: false, src: 'F' });
    }
    for q in &m.swap {
        if q.legs.is_empty() {
            return Err(BootErr::Refuse("swap without legs".into()));
        }
        let flows: Vec<Vec<Flow>> = q.legs.iter().map(|l| leg_flows(m, l, val)).collect();
        if flows.iter().any(|f| f.is_empty()) {
            return Err(BootErr::Refuse("swap leg without periods".into()));
        }
        let l0 = &q.legs[0];
        let own_cal = l0.cal.as_ref().map(catalog::cal);
        let s = own_cal.as_ref().unwrap_or(&cal).advance(val, Period::Days(l0.settle), l0.conv, Some(l0.eom)).unwrap().unwrap();
        let e = flows.iter().map(|f| f.last().unwrap().end).max().unwrap();
        c.p.push(Pillar { settle: s, date: e, market: l0.rate, zero: 0.005, disc: 0.0, hidden: false, src: 'S' });
        let n = c.p.len() - 1;
        let mut f = |z: f64| {
            c.p[n].zero = z;
            swap_pv(q, &flows, val, &c, 0.0)
        };
        let (mut lo, mut hi) = (0.0, 0.5);
        let (flo, fhi) = (f(lo), f(hi));
        let scale: f64 = q.legs.iter().map(|l| l.notional.abs()).sum::<f64>().max(1e-12);
        if !flo.is_finite() || !fhi.is_finite() {
            return Err(BootErr::Refuse("the swap has no finite value".into()));
        }
        if !(flo * fhi < 0.0) || flo.abs() < 1e-9 * scale || fhi.abs() < 1e-9 * scale {
            let clear = flo * fhi > 0.0 && flo.abs() > 1e-9 * scale && fhi.abs() > 1e-9 * scale;
            return Err(if clear { BootErr::Refuse("no zero rate in 0..50% reprices the swap".into()) } else { BootErr::Edge });
        }
        for _ in 0..200 {
            let mid = 0.5 * (lo + hi);
            if (f(mid) > 0.0) == (flo > 0.0) {
                lo = mid
            } else {
                hi = mid
            }
        }
        c.p[n].zero = 0.5 * (lo + hi);
    }
    Ok(c)
}

pub fn src_char(s: &StrippedCurve) -> char {
    use finquant::markets::termstructures::yieldcurve::InterestRateQuoteEnum as E;
    match s.source {
        E::OIS => 'O',
        E::Futures => 'F',
        E::Swap => 'S',
    }
}

/// Differences between stripped pillars and the reference (None = equal within `tol`).
pub fn diff_pillars(got: &[StrippedCurve], want: &[Pillar], tol: f64) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} pillars, expected {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.first_settle_date != w.settle || g.date != w.date || g.hidden_pillar != w.hidden || src_char(g) != w.src {
            return Some(format!("pillar {i}: {g:?}, expected {w:?}"));
        }
        if !close(g.market_rate, w.market, 0.0) || !close(g.zero_rate, w.zero, tol) || !close(g.discount, w.disc, tol) {
            return Some(format!("pillar {i} ({}): market {} zero {} discount {}, expected market {} zero {} discount {}", g.date, g.market_rate, g.zero_rate, g.discount, w.market, w.zero, w.disc));
        }
    }
    None
}

// ------------------------------------------------------------------ generators

pub const FREQS: [(&str, u32); 4] = [("Annual", 12), ("Semiannual", 6), ("Quarterly", 3), ("Monthly", 1)];

pub fn gen_quote_swap(r: &mut Prng, years: u32, level: f64) -> SwapQ {
    let n = *r.pick(&[1.0, 1.0, 100.0, 1_000_000.0]);
    let conv = *r.pick(&[Bdc::ModifiedFollowing, Bdc::ModifiedFollowing, Bdc::Following, Bdc::ModifiedPreceding]);
    let settle = *r.pick(&[2i64, 2, 0, 1]);
    let (ff, fm) = *r.pick(&FREQS[..3]);
    let (vf, vm) = *r.pick(&FREQS[1..]);
    let pay = *r.pick(&[0i64, 0, 0, 2]);
    let dcs = [json!({"type": "Thirty360", "market": "USA"}), json!({"type": "Actual360"}), json!({"type": "Actual365Fixed", "market": null})];
    let buy = r.chance(0.5);
    // one swap in three has legs with terms of their own
    let odd = r.chance(0.35);
    let cals = CALS;
    let leg = |fixed: bool, rate: f64, buy: bool, freq: &str, months: u32, dc: Value, r: &mut Prng| LegQ {
        fixed,
        rate,
        buy,
        notional: n,
        freq: freq.to_string(),
        tenor: if odd && months == 12 { Period::Years(1) } else { Period::Months(months) },
        duration: if odd && months == 12 { Period::Years(years) } else { Period::Months(12 * years) },
        dc,
        conv: if odd && r.chance(0.4) { *r.pick(&[Bdc::Following, Bdc::Preceding, Bdc::ModifiedFollowing, Bdc::HalfMonthModifiedFollowing, Bdc::Nearest, Bdc::Unadjusted]) } else { conv },
        settle: if odd && r.chance(0.4) { r.range(0, 3) } else { settle },
        eom: odd && r.chance(0.4),
        pay_delay: if odd && r.chance(0.4) { r.range(0, 5) } else { pay },
        before: if odd && r.chance(0.4) { r.range(0, 6) } else { 2 },
        cal: if odd && r.chance(0.4) { Some(serde_json::from_str(r.pick(&cals)).unwrap()) } else { None },
        schedule: vec![],
        ccy: None,
    };
    let coupon = (level * 1e5).round() / 1e5 + r.dec(-0.004, 0.004, 5);
    let coupon = (coupon * 1e5).round() / 1e5;
    let dc0 = r.pick(&dcs).clone();
    let dc1 = r.pick(&dcs).clone();
    let spread = if odd { r.dec(-0.002, 0.002, 5) } else { 0.0 };
    let mut legs = vec![leg(true, coupon, buy, ff, fm, dc0, r), leg(false, spread, !buy, vf, vm, dc1, r)];
    // month-end legs keep to their month, or two ends could fall together
    legs.iter_mut().filter(|l| l.eom && l.conv != Bdc::ModifiedPreceding).for_each(|l| l.conv = Bdc::ModifiedFollowing);
    if odd && r.chance(0.3) {
        legs.reverse();
    }
    SwapQ { legs }
}

pub fn gen_market(r: &mut Prng, sim: bool, max_swaps: usize) -> MarketQ {
    let val = ord(d(2005, 1, 3)) + r.range(0, 12_000);
    let cal = r
        .pick(&[json!({"type": "Target"}), json!({"type": "Target"}), json!({"type": "UnitedKingdom", "market": null}), json!({"type": "WeekendsOnly"}), json!({"type": "UnitedStates", "market": "SOFR"})])
        .clone();
    let dc = r.pick(&[json!({"type": "Actual360"}), json!({"type": "Actual360"}), json!({"type": "Actual365Fixed", "market": null})]).clone();
    let level = match r.below(10) {
        0 => r.dec(0.06, 0.3, 4),
        // rates around and below zero, which only deposits and futures can carry
        1 | 2 if max_swaps == 0 => r.dec(-0.012, 0.003, 4),
        _ => r.dec(0.005, 0.06, 4),
    };
    let low = if level < 0.004 { -0.02 } else { 0.0005 };
    let near = |r: &mut Prng| ((level + r.dec(-0.003, 0.003, 5)).max(low) * 1e5).round() / 1e5;
    let mut m = MarketQ { val, cal, dc, cash: vec![], fut: vec![], swap: vec![], sim };
    let mut ps = vec![Period::Weeks(1), Period::Months(3), Period::Months(1), Period::Days(6), Period::Weeks(2), Period::Months(6), Period::Days(1), Period::Days(3), Period::Years(1), Period::Days(7), Period::Months(2), Period::Months(12), Period::Months(9), Period::Weeks(3), Period::Days(30)];
    let k = r.usize(1, 4);
    let odd = r.chance(0.4);
    if r.chance(0.6) {
        ps.truncate(4);
    }
    r.shuffle(&mut ps);
    for p in ps.into_iter().take(k) {
        let alt = if odd { gen_alt(r) } else { Alt::default() };
        m.cash.push(CashQ { value: near(r), period: p, alt });
    }
    if r.chance(0.6) {
        let n = r.usize(1, 8);
        m.fut = gen_futures(r, val, n, level);
    }
    // swaps beyond every other pillar
    let last = {
        let mut x = m.clone();
        x.swap.clear();
        bootstrap(&x).ok().and_then(|c| c.p.iter().map(|p| ord(p.date)).max()).unwrap_or(val)
    };
    let mut y = ((last - val) as f64 / 365.25).ceil() as u32 + 1;
    for _ in 0..r.usize(0, max_swaps) {
        m.swap.push(gen_quote_swap(r, y.min(30), level));
        y += r.usize(1, 3) as u32;
    }
    m
}

pub const CALS: [&str; 5] = [r#"{"type":"Target"}"#, r#"{"type":"UnitedKingdom","market":null}"#, r#"{"type":"WeekendsOnly"}"#, r#"{"type":"UnitedStates","market":"SOFR"}"#, r#"{"type":"Japan"}"#];
/// terms of a quote that differ from its neighbours'
pub fn gen_alt(r: &mut Prng) -> Alt {
    let dcs = [json!({"type": "Thirty360", "market": "USA"}), json!({"type": "Actual360"}), json!({"type": "Actual365Fixed", "market": null}), json!({"type": "ActualActual", "market": "Isda"})];
    Alt {
        settle: r.chance(0.5).then(|| r.range(0, 3)),
        eom: r.chance(0.4).then(|| true),
        conv: r.chance(0.4).then(|| *r.pick(&[Bdc::Following, Bdc::Preceding, Bdc::ModifiedFollowing, Bdc::ModifiedPreceding, Bdc::Nearest, Bdc::Unadjusted, Bdc::HalfMonthModifiedFollowing])),
        dc: r.chance(0.4).then(|| r.pick(&dcs).clone()),
        cal: r.chance(0.4).then(|| serde_json::from_str(r.pick(&CALS)).unwrap()),
    }
}

pub fn gen_futures(r: &mut Prng, val: i64, n: usize, level: f64) -> Vec<FutQ> {
    let v = from_ord(val);
    let (mut y, mut mth) = (v.year(), v.month());
    let mut out: Vec<FutQ> = vec![];
    let step = *r.pick(&[1u32, 3, 3]);
    let (odd, lower) = (r.chance(0.3), r.chance(0.1));
    while out.len() < n {
        if third_wed(y, mth) >= v && (step == 1 || mth % 3 == 0) {
            let l = "FGHJKMNQUVXZ".as_bytes()[mth as usize - 1] as char;
            let l = if lower { l.to_ascii_lowercase() } else { l };
            let code = format!("{l}{}", y.rem_euclid(10));
            out.push(FutQ { price: ((100.0 - 100.0 * level + r.dec(-0.3, 0.3, 3)) * 1e3).round() / 1e3, code, cvx: r.dec(-0.03, if odd { 0.03 } else { 0.0 }, 5), months: if odd { *r.pick(&[1, 3, 6]) } else { 3 }, alt: if odd { gen_alt(r) } else { Alt::default() } });
        }
        mth += 1;
        if mth > 12 {
            mth = 1;
            y += 1;
        }
    }
    out
}
