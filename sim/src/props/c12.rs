//! C12: trades and markets through simulated storage.
use super::c16::{FxLib, FxT, gen_fxt, gen_trade_swap, lib_fx, nodes, smile, zeros};
use crate::core::capworld::*;
use crate::core::catalog;
use crate::core::engine::*;
use crate::core::fxworld::*;
use crate::core::market::*;
use crate::core::prng::Prng;
use crate::core::util::*;
use crate::core::yieldworld::blank_curve;
use crate::ensure;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{CurrencyValue, FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::option::OptionType;
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::swap::{InterestRateCashflow, InterestRateSwap, InterestRateSwapLeg};
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::forex::quotes::volsurface::FXVolSurface;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapletVolPillar, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::{InterestRateQuote, InterestRateQuoteEnum, InterpolationMethodEnum, StrippedCurve, YieldTermStructure};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, JointCalendar, Target};
use finquant::time::daycounters::DayCounters;
use finquant::time::frequency::Frequency;
use finquant::time::period::Period;
use iso_currency::Currency;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::fmt::Debug;
use std::io::{self, Read, Write};

pub struct C12;

// ------------------------------------------------------------------ device

/// One stored record on a simulated device.
#[derive(Default, Clone)]
struct Disk {
    durable: Vec<u8>,
    pending: Option<Vec<u8>>,
}

/// How a stream behaves, call by call (cyclic): n > 0 bytes at most, 0 = interrupted.
struct Stream<'a> {
    pattern: &'a [usize],
    call: usize,
    moved: usize,
    fail_at: Option<usize>,
    failed: bool,
    interrupted: u64,
    short: u64,
    data: Vec<u8>,
}
impl<'a> Stream<'a> {
    fn new(pattern: &'a [usize], fail_at: Option<usize>, data: Vec<u8>) -> Self {
        Stream { pattern, call: 0, moved: 0, fail_at, failed: false, interrupted: 0, short: 0, data }
    }
    fn allow(&mut self, want: usize) -> io::Result<usize> {
        if self.fail_at.is_some_and(|f| self.moved >= f) {
            self.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "simulated device error"));
        }
        if self.pattern.is_empty() {
            return Ok(self.cap(want));
        }
        let n = self.pattern[self.call % self.pattern.len()];
        self.call += 1;
        if n == 0 {
            self.interrupted += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated interruption"));
        }
        if n < want {
            self.short += 1;
        }
        Ok(self.cap(want.min(n)))
    }
    fn cap(&self, n: usize) -> usize {
        match self.fail_at {
            Some(f) => n.min(f - self.moved),
            None => n,
        }
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.allow(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        self.moved += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.allow(b.len())?.min(self.data.len() - self.moved);
        b[..n].copy_from_slice(&self.data[self.moved..self.moved + n]);
        self.moved += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------ stored objects

/// The market everything is valued under.
struct Mkt {
    val: NaiveDate,
    ir: IrMarketContext,
    fx: FxMarketContext,
}

type Behave<T> = fn(&T, &Mkt) -> String;
struct S<T> {
    v: T,
    behave: Behave<T>,
}
trait Stored {
    fn store(&self, w: &mut dyn Write) -> Result<(), serde_json::Error>;
    fn to_value(&self) -> Result<Value, serde_json::Error>;
    fn load(&self, r: &mut dyn Read) -> Result<Box<dyn Stored>, serde_json::Error>;
    fn load_value(&self, v: Value) -> Result<Box<dyn Stored>, serde_json::Error>;
    fn debug(&self) -> String;
    fn behaviour(&self, m: &Mkt) -> String;
}
impl<T: Serialize + DeserializeOwned + Debug + 'static> Stored for S<T> {
    fn store(&self, w: &mut dyn Write) -> Result<(), serde_json::Error> {
        serde_json::to_writer(w, &self.v)
    }
    fn to_value(&self) -> Result<Value, serde_json::Error> {
        serde_json::to_value(&self.v)
    }
    fn load(&self, r: &mut dyn Read) -> Result<Box<dyn Stored>, serde_json::Error> {
        Ok(Box::new(S { v: serde_json::from_reader::<_, T>(r)?, behave: self.behave }))
    }
    fn load_value(&self, v: Value) -> Result<Box<dyn Stored>, serde_json::Error> {
        Ok(Box::new(S { v: serde_json::from_value::<T>(v)?, behave: self.behave }))
    }
    fn debug(&self) -> String {
        format!("{:?}", self.v)
    }
    fn behaviour(&self, m: &Mkt) -> String {
        sut(|| (self.behave)(&self.v, m)).unwrap_or_else(|m| format!("panic: {m}"))
    }
}

/// The parts of a market that can be stored: put back together on loading.
#[derive(Serialize, Deserialize, Debug)]
struct Market {
    valuation_date: NaiveDate,
    cash_quote: Vec<OISRate>,
    futures_quote: Vec<FuturesRate>,
    swap_quote: Vec<InterestRateSwap>,
}
#[derive(Serialize, Deserialize, Debug)]
struct Ladder {
    quotes: Vec<FXForwardQuote>,
}
/// every small enum and value type
#[derive(Serialize, Deserialize, Debug)]
struct Small {
    period: Vec<Period>,
    frequency: Frequency,
    convention: B,
    pair: FXUnderlying,
    amount: CurrencyValue,
    cashflow: InterestRateCashflow,
    index: InterestRateIndexEnum,
    source: InterestRateQuoteEnum,
    info: BasicInfo,
    option: OptionType,
    kind: CapFloorKind,
    style: CapStyle,
    mode: RateShiftMode,
}

const STEP: InterpolationMethodEnum = InterpolationMethodEnum::StepFunctionForward;

fn ir_risk(x: &dyn IRDerivatives, m: &Mkt) -> String {
    let c = &m.ir;
    format!(
        "{:?} {:?} {:?} {:?} {:?} {:?}",
        x.mtm(c).map_err(|e| e.to_string()),
        x.dv01(c).map_err(|e| e.to_string()),
        x.gamma(c, 10.0, RateShiftMode::default()).map_err(|e| e.to_string()),
        x.vega(c, 1.0).map_err(|e| e.to_string()),
        x.modified_duration(c).map_err(|e| e.to_string()),
        x.mtm(&m.ir).map(|v| v.currency.code()).map_err(|e| e.to_string())
    )
}
fn fx_risk(x: &dyn FXDerivatives, m: &Mkt) -> String {
    let c = &m.fx;
    format!("{:?} {:?} {:?} {:?}", x.mtm(c).map_err(|e| e.to_string()), x.delta(c).map_err(|e| e.to_string()), x.gamma(c).map_err(|e| e.to_string()), x.vega(c).map_err(|e| e.to_string()))
}
fn cal_behaviour(c: &dyn Calendar, m: &Mkt) -> String {
    let mut s = String::new();
    for k in 0..40 {
        let x = add(m.val, k * 37 - 400);
        s += &format!("{}{} {:?} {:?};", c.is_business_day(x) as u8, c.is_weekend(x) as u8, c.adjust(x, B::ModifiedFollowing), c.advance(x, Period::Months(k as u32), B::ModifiedPreceding, Some(k % 2 == 0)).map_err(|e| e.to_string()));
    }
    s + &format!("{}", c.business_days_between(m.val, add(m.val, 1500), None, None))
}
fn dc_behaviour(c: &dyn DayCounters, m: &Mkt) -> String {
    (0..30).map(|k| (add(m.val, k * 7 - 60), add(m.val, k * k * 3 - 100))).map(|(a, b)| format!("{:?} {:?};", c.day_count(a, b).map_err(|e| e.to_string()), c.year_fraction(a, b).map_err(|e| e.to_string()))).collect()
}
fn leg_behaviour(l: &InterestRateSwapLeg, m: &Mkt) -> String {
    format!("{:?} {} {} {:?} {:?}", l.effective_date(m.val).map_err(|e| e.to_string()), l.is_fixe_leg(), l.get_reference_rate(), l.generate_schedule(m.val).map_err(|e| e.to_string()), index_behaviour(&l.interest_rate_index, m))
}
fn swap_behaviour(x: &InterestRateSwap, m: &Mkt) -> String {
    let mut y = blank_curve(m.ir.curve.valuation_date, m.ir.curve.stripped_curves.clone());
    let legs: Vec<String> = x.legs.iter().map(|l| leg_behaviour(l, m)).collect();
    format!("{:?} {} {legs:?}", x.npv(m.val, &mut y).map_err(|e| e.to_string()), ir_risk(x, m))
}
fn index_behaviour(x: &InterestRateIndex, m: &Mkt) -> String {
    format!(
        "{:?} {:?} {}",
        x.calendar.advance(m.val, x.period, x.convention, Some(x.end_of_month)).map_err(|e| e.to_string()),
        x.day_counter.year_fraction(m.val, add(m.val, 400)).map_err(|e| e.to_string()),
        x.currency.code()
    )
}
fn curve_behaviour(x: &YieldTermStructure, m: &Mkt) -> String {
    (0..40)
        .map(|k| add(m.val, k * 97 - 100))
        .map(|d| {
            format!(
                "{:?} {:?} {:?} {:?};",
                x.zero_rate(d, &STEP).map_err(|e| e.to_string()),
                x.discount(d, &STEP).map_err(|e| e.to_string()),
                x.shifted_discount(d, &STEP, 12.5).map_err(|e| e.to_string()),
                x.forward_rate(d, Period::Months(3), &STEP).map_err(|e| e.to_string())
            )
        })
        .collect::<String>()
        + &dc_behaviour(&*x.day_counter, m)
        + &cal_behaviour(&*x.calendar, m)
}
fn strip(val: NaiveDate, c: &[OISRate], f: &[FuturesRate], s: &[InterestRateSwap]) -> String {
    // copies through storage would beg the question: the quotes are asked one by one
    let mut out = format!("{:?}", c.iter().map(|q| (q.settle_date(val).ok(), q.maturity_date(val).ok(), q.discount(val).ok(), q.zero_rate(val).ok())).collect::<Vec<_>>());
    for q in f {
        let prev = vec![StrippedCurve { first_settle_date: val, date: add(val, 30), market_rate: 0.02, zero_rate: 0.021, discount: 0.998, source: InterestRateQuoteEnum::OIS, hidden_pillar: false }];
        out += &format!("{:?} {:?} {:?}", q.implied_quote(), q.discount(val, &prev).ok(), q.zero_rate(val, &prev).ok());
    }
    for q in s {
        out += &format!("{:?}", q.legs.iter().map(|l| l.generate_schedule(val).ok()).collect::<Vec<_>>());
    }
    out
}

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "kind")]
enum ObjQ {
    Swap { q: SwapQ },
    Cap { q: CapQ },
    Fx { t: FxT, k: f64 },
    Curve { pillars: Vec<(i64, f64)>, cal: Value, dc: Value, stripped: bool },
    Index { code: u8, months: u32, cal: Value, dc: Value },
    Cal { spec: Value },
    Joint { specs: Vec<Value> },
    Dc { spec: Value },
    Market,
    Ladder { q: Vec<(Period, f64)> },
    Small { n: u64 },
}

fn small(n: u64) -> Small {
    let mut r = Prng::new(n);
    let opt = |r: &mut Prng| r.chance(0.7).then(|| r.dec(-1e6, 1e6, 2) / 7.0);
    Small {
        period: (0..6).map(|_| tenor(&mut r)).collect(),
        frequency: frequency(r.pick(&["NoFrequency", "Once", "Annual", "Semiannual", "EveryFourthMonth", "Quarterly", "Bimonthly", "Monthly", "EveryFourthWeek", "Biweekly", "Weekly", "Daily", "OtherFrequency"])),
        convention: *r.pick(&[B::Following, B::ModifiedFollowing, B::HalfMonthModifiedFollowing, B::Preceding, B::ModifiedPreceding, B::Unadjusted, B::Nearest]),
        pair: underlying(r.pick(PAIRS)),
        amount: CurrencyValue { currency: Currency::from_code(r.pick(&["USD", "EUR", "JPY", "GBP", "CHF"])).unwrap(), value: r.dec(-1e9, 1e9, 2) / 3.0 },
        cashflow: InterestRateCashflow { day_counts: r.chance(0.7).then(|| r.range(0, 400)), notional: opt(&mut r), principal: opt(&mut r), reset_rate: opt(&mut r), payment: opt(&mut r), discount: opt(&mut r), present_value: opt(&mut r) },
        index: match r.below(7) {
            0 => InterestRateIndexEnum::AONIA,
            1 => InterestRateIndexEnum::CDOR(tenor(&mut r)),
            2 => InterestRateIndexEnum::EONIA,
            3 => InterestRateIndexEnum::ESTR,
            4 => InterestRateIndexEnum::EUIBOR(tenor(&mut r)),
            5 => InterestRateIndexEnum::SONIA,
            _ => InterestRateIndexEnum::SOFR,
        },
        source: *r.pick(&[InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap]),
        info: BasicInfo {
            trade_date: awkward_date(&mut r),
            style: match r.below(4) {
                0 => Style::FXForward,
                1 => Style::FXCall,
                2 => Style::FXPut,
                _ => Style::IRSwap,
            },
            direction: *r.pick(&[Direction::Buy, Direction::Sell]),
            expiry_date: awkward_date(&mut r),
            delivery_date: awkward_date(&mut r),
        },
        option: *r.pick(&[OptionType::Call, OptionType::Put]),
        kind: *r.pick(&[CapFloorKind::Cap, CapFloorKind::Floor]),
        style: *r.pick(&[CapStyle::ForwardLooking, CapStyle::BackwardCompounded]),
        mode: RateShiftMode::default(),
    }
}

fn build(c: &Cfg, m: &Mkt, q: &ObjQ) -> Box<dyn Stored> {
    match q {
        ObjQ::Swap { q } => Box::new(S { v: c.mq.lib_swap(q), behave: swap_behaviour }),
        ObjQ::Cap { q } => Box::new(S { v: q.lib_cap(m.val, m.val, false), behave: |x, m| ir_risk(x, m) }),
        ObjQ::Fx { t, k } => match lib_fx(&RefPair::new(&c.pair), t, *k, from_ord(t.expiry), m.val) {
            FxLib::F(v) => Box::new(S { v, behave: |x, m| fx_risk(x, m) }),
            FxLib::O(v) => Box::new(S { v, behave: |x, m| fx_risk(x, m) }),
        },
        ObjQ::Curve { pillars, cal, dc, stripped } => {
            // full-precision rates when they come out of a bootstrap
            let boot = if *stripped { c.mq.lib().get_stripped_curve().ok() } else { None };
            let p = boot.unwrap_or_else(|| zero_pillars(m.val, pillars));
            Box::new(S { v: YieldTermStructure::new(catalog::cal(cal), catalog::dc(dc), m.val, p), behave: curve_behaviour })
        }
        ObjQ::Index { code, months, cal, dc } => {
            let p = Period::Months(*months);
            let e = match code % 7 {
                0 => InterestRateIndexEnum::AONIA,
                1 => InterestRateIndexEnum::CDOR(p),
                2 => InterestRateIndexEnum::EONIA,
                3 => InterestRateIndexEnum::ESTR,
                4 => InterestRateIndexEnum::EUIBOR(p),
                5 => InterestRateIndexEnum::SONIA,
                _ => InterestRateIndexEnum::SOFR,
            };
            let mut v = InterestRateIndex::from_enum(e).unwrap_or_else(|| c.mq.index(p, 2, true));
            if code & 8 == 8 {
                v.calendar = catalog::cal(cal);
                v.day_counter = catalog::dc(dc);
                v.end_of_month = true;
                v.settlement_days = 1 + *months as i64 % 3;
            }
            Box::new(S { v, behave: index_behaviour })
        }
        ObjQ::Cal { spec } => Box::new(S { v: catalog::cal(spec), behave: |x: &Box<dyn Calendar>, m| cal_behaviour(&**x, m) }),
        ObjQ::Joint { specs } => Box::new(S { v: JointCalendar::new(specs.iter().map(catalog::cal).collect()), behave: |x, m| cal_behaviour(x, m) }),
        ObjQ::Dc { spec } => Box::new(S { v: catalog::dc(spec), behave: |x: &Box<dyn DayCounters>, m| dc_behaviour(&**x, m) }),
        ObjQ::Market => {
            let md = c.mq.lib();
            Box::new(S { v: Market { valuation_date: md.valuation_date, cash_quote: md.cash_quote, futures_quote: md.futures_quote, swap_quote: md.swap_quote }, behave: |x, _| strip(x.valuation_date, &x.cash_quote, &x.futures_quote, &x.swap_quote) })
        }
        ObjQ::Ladder { q } => Box::new(S {
            v: Ladder { quotes: lib_quotes(q) },
            behave: |x, m| {
                let h = FXForwardHelper::new(m.val, m.fx.spot, x.quotes.clone());
                (0..30).map(|k| format!("{:?};", h.get_forward(add(m.val, k * k), &Target).map_err(|e| e.to_string()))).collect()
            },
        }),
        ObjQ::Small { n } => Box::new(S { v: small(*n), behave: |x, _| format!("{:?} {} {} {} {:?}", x.frequency.period(), x.pair.dom_currency().code(), x.pair.frn_currency().code(), x.info.direction as i8, InterestRateIndex::from_enum(match x.index { InterestRateIndexEnum::SOFR => InterestRateIndexEnum::SOFR, _ => InterestRateIndexEnum::ESTR }).map(|i| i.settlement_days)) }),
    }
}

// ------------------------------------------------------------------ plans

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    mq: MarketQ,
    pair: String,
    spot: f64,
    quotes: Vec<(Period, f64)>,
    zeros: Vec<(i64, f64)>,
    nodes: Vec<(i64, Vec<(f64, f64)>)>,
    objs: Vec<ObjQ>,
}
#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    /// write the object; `fail`: the device fails after that many permille of the record
    Save { i: usize, pattern: Vec<usize>, fail: Option<u32>, sync: bool },
    /// unsynced data survive only up to this many permille
    Crash { keep: u32 },
    Load { i: usize, pattern: Vec<usize>, fail: Option<u32> },
    /// bytes of the stored record change
    Corrupt { i: usize, how: u8, at: u32, byte: u8 },
    /// the record is cut on the device
    Truncate { i: usize, at: u32 },
    /// a store that keeps values in its own order
    Reorder { i: usize },
    /// the record lost its n-th field
    Drop { i: usize, n: u32 },
    /// a hostile record, nested this deep
    Nest { i: usize, depth: u32, how: u8 },
}

#[derive(Clone, PartialEq, Debug)]
enum Content {
    Empty,
    Whole,
    Prefix,
    Dropped(String),
    Unknown,
}

fn prefix_of(part: &[u8], whole: &[u8]) -> Content {
    if part == whole {
        Content::Whole
    } else if part.is_empty() {
        Content::Empty
    } else if whole.starts_with(part) {
        Content::Prefix
    } else {
        Content::Unknown
    }
}

/// Paths of the fields a record must have: everything but a field that holds, or may hold, nothing.
fn required(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            let optional_market = m.get("type").is_some_and(|t| t != "Thirty360");
            let cashflow = m.contains_key("present_value");
            for (k, x) in m {
                path.push(k.clone());
                if !(x.is_null() || cashflow || k == "market" && optional_market) {
                    out.push(path.clone());
                }
                required(x, path, out);
                path.pop();
            }
        }
        Value::Array(a) => {
            for (k, x) in a.iter().enumerate() {
                path.push(k.to_string());
                required(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn remove(v: &mut Value, path: &[String]) {
    match v {
        Value::Object(m) if path.len() == 1 => {
            m.remove(&path[0]);
        }
        Value::Object(m) => remove(m.get_mut(&path[0]).unwrap(), &path[1..]),
        Value::Array(a) => remove(&mut a[path[0].parse::<usize>().unwrap()], &path[1..]),
        _ => unreachable!(),
    }
}

fn pattern(r: &mut Prng) -> Vec<usize> {
    match r.below(4) {
        0 => vec![],
        1 => vec![r.usize(1, 3)],
        _ => {
            let mut p: Vec<usize> = (0..r.usize(1, 6)).map(|_| if r.chance(0.3) { 0 } else { r.usize(1, 200) }).collect();
            p.push(r.usize(1, 40));
            p
        }
    }
}

fn gen_obj(r: &mut Prng, c: &Cfg) -> ObjQ {
    let cal = |r: &mut Prng| r.pick(&catalog::calendar_specs()).clone();
    let dc = |r: &mut Prng| {
        if r.chance(0.2) { json!({"type": "Business252", "calendar": r.pick(&catalog::calendar_specs())}) } else { r.pick(&catalog::day_counter_specs()).clone() }
    };
    let rp = RefPair::new(&c.pair);
    match r.below(16) {
        0..=2 => {
            let mut q = gen_trade_swap(r, c.mq.val);
            for l in q.legs.iter_mut() {
                if r.chance(0.3) {
                    l.dc = dc(r);
                }
            }
            ObjQ::Swap { q }
        }
        3 | 4 => {
            let base = *r.pick(&[0.02, -0.005, 0.1]);
            let mut q = if r.chance(0.5) { gen_trade_cap(r, base) } else { gen_cap(r, 0.02) };
            if r.chance(0.3) {
                q.dc = dc(r);
            }
            ObjQ::Cap { q }
        }
        5..=7 => {
            let t = gen_fxt(r, c.mq.val, &rp, &c.quotes);
            let k = c.spot * t.k;
            ObjQ::Fx { t, k }
        }
        8 | 9 => ObjQ::Curve { pillars: zeros(r), cal: cal(r), dc: dc(r), stripped: r.chance(0.6) },
        10 => ObjQ::Index { code: r.below(16) as u8, months: r.usize(1, 12) as u32, cal: cal(r), dc: dc(r) },
        11 => ObjQ::Cal { spec: cal(r) },
        12 => {
            let n = r.usize(0, 4);
            let mut specs: Vec<Value> = (0..n).map(|_| cal(r)).collect();
            if r.chance(0.3) {
                specs.push(json!({"type": "JointCalendar", "calendars": [cal(r), cal(r)]}));
            }
            ObjQ::Joint { specs }
        }
        13 => ObjQ::Dc { spec: dc(r) },
        14 if r.chance(0.5) => ObjQ::Market,
        14 => ObjQ::Ladder { q: gen_ladder(r) },
        _ => ObjQ::Small { n: r.u64() >> 12 },
    }
}

impl Property for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 1_500_000 } else { 60_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = 1-3 seeded objects (swaps, caps, FX trades, curves, indices, calendars, day counters, market quotes, ladders, small values) saved to and loaded from a simulated device 8-30 times through streams with short transfers, interruptions and failures, with crashes that tear unsynced records, truncation, byte corruption, reordered and lost fields and over-nested records in between; non-trivial = at least one whole record was restored and one faulty one refused or survived; distinct by hash of the outcomes"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["serde forms of every stored type, typetag registries, all pricers of the restored objects", "serde_json readers and writers"], &["storage device and its streams"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "the record format is JSON with exact floating-point parsing (serde_json's float_roundtrip)",
            "YieldTermMarketData and FXForwardHelper can be written but not read by the library: their quotes are stored and read instead",
            "an optional field that is absent reads as nothing; only the loss of a required field must be refused",
            "a corrupted record that still reads is only required not to make loading or storing it again panic",
        ]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let n = r.usize(0, 1);
        let mq = gen_market(r, false, n);
        let pair = r.pick(PAIRS).to_string();
        let rp = RefPair::new(&pair);
        let spot = if rp.dom == "JPY" { r.dec(80.0, 160.0, 2) } else { r.dec(0.5, 20.0, 4) };
        let mut c = Cfg { mq, pair, spot, quotes: gen_ladder(r), zeros: zeros(r), nodes: nodes(r), objs: vec![] };
        for _ in 0..r.usize(1, 3) {
            let o = gen_obj(r, &c);
            c.objs.push(o);
        }
        let no = c.objs.len();
        let mut ev = vec![];
        for i in 0..no {
            ev.push(Ev::Save { i, pattern: pattern(r), fail: None, sync: true });
        }
        for _ in 0..r.usize(8, 30) {
            let i = r.usize(0, no - 1);
            ev.push(match r.below(20) {
                0..=4 => Ev::Save { i, pattern: pattern(r), fail: r.chance(0.25).then(|| r.range(0, 999) as u32), sync: r.chance(0.6) },
                5..=10 => Ev::Load { i, pattern: pattern(r), fail: r.chance(0.15).then(|| r.range(0, 999) as u32) },
                11 | 12 => Ev::Crash { keep: *r.pick(&[0, 1, 500, 999, 1000, 237, 764]) },
                13 | 14 => Ev::Corrupt { i, how: r.below(6) as u8, at: r.range(0, 9999) as u32, byte: *r.pick(b"0179-.eE\"{}[],:nt\\u \x00\xff\x80A") },
                15 => Ev::Truncate { i, at: r.range(0, 9999) as u32 },
                16 => Ev::Reorder { i },
                17 | 18 => Ev::Drop { i, n: r.below(10_000) as u32 },
                _ => Ev::Nest { i, depth: *r.pick(&[5, 100, 127, 129, 3000, 100_000]), how: r.below(4) as u8 },
            });
            // what was damaged is looked at
            if matches!(ev.last(), Some(Ev::Corrupt { .. } | Ev::Truncate { .. } | Ev::Reorder { .. } | Ev::Drop { .. } | Ev::Nest { .. })) {
                ev.push(Ev::Load { i, pattern: pattern(r), fail: None });
                if r.chance(0.6) {
                    ev.push(Ev::Save { i, pattern: pattern(r), fail: None, sync: true });
                }
            } else if matches!(ev.last(), Some(Ev::Crash { .. })) {
                for i in 0..no {
                    ev.push(Ev::Load { i, pattern: pattern(r), fail: None });
                }
            }
        }
        Plan { scenario: "storage".into(), cfg: serde_json::to_value(c).unwrap(), events: ev.iter().map(|e| serde_json::to_value(e).unwrap()).collect() }
    }

    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let c: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let val = from_ord(c.mq.val);
        let rp = RefPair::new(&c.pair);
        let mut surface = IRNormalVolSurface::new(val);
        surface.pillars = c.nodes.iter().map(|(t, n)| CapletVolPillar { expiry: add(val, *t), nodes: n.clone() }).collect();
        let curve = || blank_curve(val, zero_pillars(val, &c.zeros));
        let m = Mkt {
            val,
            ir: IrMarketContext::new(val, Currency::EUR, curve(), Some(surface)),
            fx: FxMarketContext::new(
                val,
                c.spot,
                (Currency::from_code(&rp.dom).unwrap(), Currency::from_code(&rp.frn).unwrap()),
                curve(),
                curve(),
                underlying(&c.pair).forward_helper(val, c.spot, lib_quotes(&c.quotes)),
                FXVolSurface::new(val, smile(val, c.spot, (0.1, 0.005, 0.002))).unwrap(),
            ),
        };
        let mut objs: Vec<Box<dyn Stored>> = c.objs.iter().map(|q| build(&c, &m, q)).collect();
        let mut record: Vec<Vec<u8>> = vec![];
        let first: Vec<(String, String)> = objs.iter().map(|o| (o.debug(), o.behaviour(&m))).collect();
        for (o, q) in objs.iter().zip(&c.objs) {
            let mut b = vec![];
            let r = no_panic("storing", || o.store(&mut b))?;
            if let Err(e) = r {
                return fail("store", format!("{} cannot be stored: {e}", serde_json::to_string(q).unwrap()));
            }
            record.push(b);
        }
        let mut disk: Vec<Disk> = vec![Disk::default(); objs.len()];
        let mut content = vec![Content::Empty; objs.len()];
        let (mut restored, mut faced) = (0, 0);
        let name = |i: usize| serde_json::to_string(&c.objs[i]).unwrap();
        for e in &plan.events {
            let e: Ev = serde_json::from_value(e.clone()).unwrap();
            match e {
                Ev::Save { i, pattern, fail, sync } => {
                    let len = record[i].len();
                    let fail_at = fail.map(|p| len * p as usize / 1000);
                    let mut w = Stream::new(&pattern, fail_at, vec![]);
                    let r = no_panic("storing", || objs[i].store(&mut w))?;
                    ctx.add("fault.short_write", w.short);
                    ctx.add("fault.interrupted_write", w.interrupted);
                    ctx.count(if r.is_ok() { "op.saved" } else { "fault.write_error" });
                    ensure!(r.is_err() == w.failed, "write-error", "{}: storing reported {:?} while the device {}", name(i), r.err().map(|e| e.to_string()), if w.failed { "failed" } else { "took every byte" });
                    if r.is_ok() {
                        ensure!(w.data == record[i], "unstable-record", "{}: stored again as {} after {}", name(i), String::from_utf8_lossy(&w.data), String::from_utf8_lossy(&record[i]));
                    }
                    if sync {
                        disk[i] = Disk { durable: w.data, pending: None };
                        content[i] = prefix_of(&disk[i].durable, &record[i]);
                    } else {
                        disk[i].pending = Some(w.data);
                    }
                    ctx.ev("save");
                }
                Ev::Crash { keep } => {
                    for i in 0..objs.len() {
                        if let Some(p) = disk[i].pending.take() {
                            let n = p.len() * keep as usize / 1000;
                            disk[i].durable = p[..n].to_vec();
                            content[i] = prefix_of(&disk[i].durable, &record[i]);
                            ctx.count("fault.crash_with_unsynced_record");
                        }
                    }
                }
                Ev::Load { i, pattern, fail } => {
                    let bytes = disk[i].pending.clone().unwrap_or_else(|| disk[i].durable.clone());
                    let state = if disk[i].pending.is_some() { prefix_of(&bytes, &record[i]) } else { content[i].clone() };
                    let fail_at = fail.map(|p| bytes.len() * p as usize / 1000);
                    let mut s = Stream::new(&pattern, fail_at, bytes.clone());
                    let r = no_panic(&format!("{}: loading {}", name(i), head(&bytes)), || objs[i].load(&mut s))?;
                    ctx.add("fault.short_read", s.short);
                    ctx.add("fault.interrupted_read", s.interrupted);
                    ctx.state(&format!("{} {:?} {} {}", serde_json::to_value(&c.objs[i]).unwrap()["kind"], std::mem::discriminant(&state), r.is_ok(), s.failed));
                    ctx.ev(&format!("load {} {:?}", r.is_ok(), state));
                    if s.failed {
                        ctx.count("fault.read_error");
                        faced += 1;
                        ensure!(r.is_err(), "read-error", "{}: the device failed after {} of {} bytes, yet loading succeeded", name(i), s.moved, bytes.len());
                        continue;
                    }
                    match (&state, r) {
                        (Content::Whole, Ok(o)) => {
                            check_same(&name(i), &*o, &m, &first[i], &record[i])?;
                            objs[i] = o;
                            restored += 1;
                            ctx.count("op.restored");
                        }
                        (Content::Whole, Err(e)) => return fail_v("not-restored", format!("{}: its record {} is refused: {e}", name(i), head(&bytes))),
                        (Content::Empty | Content::Prefix, r) => {
                            faced += 1;
                            ctx.count("fault.torn_record_loaded");
                            ensure!(r.is_err(), "torn-record", "{}: a record torn after {} of {} bytes was restored as a whole object", name(i), bytes.len(), record[i].len());
                        }
                        (Content::Dropped(f), r) => {
                            faced += 1;
                            ctx.count("fault.lost_field_loaded");
                            ensure!(r.is_err(), "lost-field", "{}: a record without its field {f} was restored as a whole object", name(i));
                        }
                        (Content::Unknown, Ok(o)) => {
                            faced += 1;
                            ctx.count("fault.corrupt_record_read");
                            let mut sink = vec![];
                            no_panic(&format!("{}: storing what {} restored", name(i), head(&bytes)), || o.store(&mut sink).is_ok())?;
                        }
                        (Content::Unknown, Err(_)) => {
                            faced += 1;
                            ctx.count("fault.corrupt_record_refused");
                        }
                    }
                }
                Ev::Corrupt { i, how, at, byte } => {
                    let b = &mut disk[i].durable;
                    if b.is_empty() {
                        continue;
                    }
                    let k = b.len() * at as usize / 10_000;
                    match how {
                        0 => b[k] ^= 1 << (byte % 8),
                        1 => b[k] = byte,
                        2 => b.insert(k, byte),
                        3 => {
                            b.remove(k);
                        }
                        4 => {
                            // a block of zeros
                            let end = (k + byte as usize).min(b.len());
                            b[k..end].fill(0);
                        }
                        _ => {
                            // a block lands in the wrong place
                            let n = (byte as usize).min(b.len() - k);
                            let blk = b[k..k + n].to_vec();
                            let to = (b.len() - n) * (at as usize * 7 % 10_000) / 10_000;
                            b[to..to + n].copy_from_slice(&blk);
                        }
                    }
                    content[i] = if *b == record[i] { Content::Whole } else { Content::Unknown };
                    disk[i].pending = None;
                    ctx.count("fault.corruption");
                }
                Ev::Truncate { i, at } => {
                    let b = &mut disk[i].durable;
                    let n = b.len() * at as usize / 10_000;
                    b.truncate(n);
                    if matches!(content[i], Content::Whole | Content::Prefix) {
                        content[i] = prefix_of(b, &record[i]);
                    } else {
                        content[i] = Content::Unknown;
                    }
                    disk[i].pending = None;
                    ctx.count("fault.truncation");
                }
                Ev::Reorder { i } => {
                    // a store that keeps fields in an order of its own, and values as a tree
                    let v = no_panic("storing", || objs[i].to_value())?.map_err(|e| Violation { class: "store".into(), msg: format!("{} cannot be stored: {e}", name(i)) })?;
                    ensure!(serde_json::from_slice::<Value>(&record[i]).unwrap() == v, "unstable-record", "{}: stored as text {} and as a tree {v}", name(i), head(&record[i]));
                    for how in 0..2 {
                        let r = no_panic("loading", || {
                            if how == 0 {
                                objs[i].load_value(v.clone())
                            } else {
                                let t = v.to_string();
                                objs[i].load(&mut t.as_bytes())
                            }
                        })?;
                        match r {
                            Ok(o) => check_same(&name(i), &*o, &m, &first[i], &record[i])?,
                            Err(e) => return fail_v("not-restored", format!("{}: its record with the fields in another order, {}, is refused: {e}", name(i), head(v.to_string().as_bytes()))),
                        }
                    }
                    restored += 1;
                    ctx.count("fault.reordered_fields_loaded");
                }
                Ev::Drop { i, n } => {
                    let mut v: Value = serde_json::from_slice(&record[i]).unwrap();
                    let mut all = vec![];
                    required(&v, &mut vec![], &mut all);
                    if all.is_empty() {
                        continue;
                    }
                    let path = &all[n as usize % all.len()];
                    remove(&mut v, path);
                    disk[i] = Disk { durable: v.to_string().into_bytes(), pending: None };
                    content[i] = Content::Dropped(path.join("."));
                }
                Ev::Nest { i, depth, how } => {
                    let d = depth as usize;
                    let s = match how {
                        0 => format!("{}{}", r#"{"type":"JointCalendar","calendars":["#.repeat(d), "]}".repeat(d)),
                        1 => format!("{}{}{}", r#"{"type":"Business252","calendar":{"type":"JointCalendar","calendars":["#, "[".repeat(d), "]".repeat(d)),
                        2 => "[".repeat(d),
                        _ => r#"{"legs":"#.repeat(d),
                    };
                    disk[i] = Disk { durable: s.into_bytes(), pending: None };
                    content[i] = Content::Unknown;
                    ctx.count("fault.nested_record");
                }
            }
        }
        ctx.nontrivial = restored > 0 && faced > 0;
        Ok(())
    }
    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let mut v = vec![];
        for (i, e) in plan.events.iter().enumerate() {
            if e["pattern"].as_array().is_some_and(|a| !a.is_empty()) {
                let mut p = plan.clone();
                p.events[i]["pattern"] = json!([]);
                v.push(p);
            }
        }
        v
    }
}

fn fail_v(class: &str, msg: String) -> Outcome {
    fail(class, msg)
}
fn head(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned()
}

fn check_same(name: &str, o: &dyn Stored, m: &Mkt, first: &(String, String), record: &[u8]) -> Outcome {
    let d = o.debug();
    ensure!(d == first.0, "differs", "{name}: restored as {}", diff(&first.0, &d));
    let b = o.behaviour(m);
    ensure!(b == first.1, "behaves-differently", "{name}: restored, it answers {}", diff(&first.1, &b));
    let mut again = vec![];
    let r = no_panic("storing", || o.store(&mut again))?;
    ensure!(r.is_ok() && again == record, "unstable-record", "{name}: restored, it is stored as {}", diff(&String::from_utf8_lossy(record), &String::from_utf8_lossy(&again)));
    Ok(())
}
fn diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| s.chars().skip(k.saturating_sub(60)).take(160).collect::<String>();
    format!("...{} where the original has ...{}", cut(b), cut(a))
}
