//! FX pairs, ladders and trades described by plain data, with independent reference dates,
//! lookups and values.
use super::catalog;
use super::prng::Prng;
use super::util::*;
use super::yieldworld::add_months;
use chrono::{Datelike, NaiveDate, NaiveTime};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::markets::forex::quotes::forwardpoints::FXForwardQuote;
use finquant::time::calendars::Calendar;
use finquant::time::period::Period;
use serde_json::{Value, json};

pub const PAIRS: &[&str] = &[
    "EURGBP", "EURUSD", "EURCAD", "EURJPY", "EURCHF", "EURNOK", "EURSEK", "EURAUD", "EURNZD", "EURDKK", "EURPLN", "EURHUF", "EURCZK", "EURRON", "GBPUSD", "GBPCAD", "GBPJPY", "GBPAUD", "GBPNZD",
    "GBPCHF", "GBPNOK", "GBPSEK", "AUDUSD", "NZDUSD", "USDCHF", "USDNOK", "USDSEK", "USDJPY", "USDSGD", "USDHKD", "USDCNY", "USDPLN", "USDHUF", "USDCZK", "USDZAR", "USDKRW", "USDINR", "USDBRL",
    "USDDKK", "USDIDR", "USDTWD", "USDTHB", "USDILS", "USDRON", "USDCAD", "USDMXN", "USDTRY", "USDRUB", "AUDNZD", "AUDCAD", "AUDCHF", "AUDJPY", "AUDSGD", "NZDCAD", "NZDCHF", "NZDJPY", "NZDSGD", "CADJPY", "CHFJPY", "CADCHF",
];

pub fn underlying(p: &str) -> FXUnderlying {
    p.parse().unwrap_or_else(|_| panic!("harness: pair {p}"))
}

fn calendar_of(ccy: &str) -> Value {
    let plain = |n: &str| json!({"type": n});
    let market = |n: &str| json!({"type": n, "market": null});
    match ccy {
        "EUR" => plain("Target"),
        "GBP" => market("UnitedKingdom"),
        "USD" => market("UnitedStates"),
        "JPY" => plain("Japan"),
        "CAD" => market("Canada"),
        "AUD" => market("Australia"),
        "NZD" => market("NewZealand"),
        "CHF" => plain("Switzerland"),
        "NOK" => plain("Norway"),
        "SEK" => plain("Sweden"),
        "MXN" => plain("Mexico"),
        "TRY" => plain("Turkey"),
        "RUB" => market("Russia"),
        "SGD" => plain("Singapore"),
        "HKD" => plain("HongKong"),
        "CNY" => plain("China"),
        "PLN" => market("Poland"),
        "HUF" => plain("Hungary"),
        "CZK" => plain("CzechRepublic"),
        "ZAR" => plain("SouthAfrica"),
        "KRW" => plain("SouthKorea"),
        "INR" => plain("India"),
        "BRL" => market("Brazil"),
        "DKK" => plain("Denmark"),
        "IDR" => plain("Indonesia"),
        "TWD" => plain("Taiwan"),
        "THB" => plain("Thailand"),
        "ILS" => market("Israel"),
        "RON" => plain("Romania"),
        x => panic!("harness: currency {x}"),
    }
}

/// The pair's conventions, independently of the library's tables.
pub struct RefPair {
    pub name: String,
    pub dom: String,
    pub frn: String,
    pub lag: i64,
    pub cutoff: NaiveTime,
    pub converter: f64,
    pub cals: [Box<dyn Calendar>; 2],
}

impl RefPair {
    pub fn new(name: &str) -> Self {
        let (frn, dom) = (name[..3].to_string(), name[3..].to_string());
        let t = |h, m| NaiveTime::from_hms_opt(h, m, 0).unwrap();
        RefPair {
            name: name.into(),
            lag: if ["USDCAD", "USDMXN", "USDTRY", "USDRUB"].contains(&name) { 1 } else { 2 },
            cutoff: match name {
                "USDCAD" | "USDMXN" => t(17, 0),
                "USDTRY" => t(9, 0),
                "USDRUB" => t(9, 30),
                _ => t(22, 0),
            },
            converter: if dom == "JPY" { 100.0 } else { 10_000.0 },
            cals: [catalog::cal(&calendar_of(&dom)), catalog::cal(&calendar_of(&frn))],
            dom,
            frn,
        }
    }
    pub fn business(&self, x: NaiveDate) -> bool {
        self.cals.iter().all(|c| c.is_business_day(x))
    }
    pub fn roll(&self, mut x: NaiveDate) -> NaiveDate {
        while !self.business(x) {
            x = add(x, 1);
        }
        x
    }
    pub fn plus(&self, mut x: NaiveDate, n: i64) -> NaiveDate {
        for _ in 0..n {
            x = self.roll(add(x, 1));
        }
        x
    }
    pub fn effective(&self, date: NaiveDate, time: NaiveTime) -> NaiveDate {
        self.roll(if time >= self.cutoff { add(date, 1) } else { date })
    }
    fn month_end(&self, x: NaiveDate) -> NaiveDate {
        let first = d(x.year(), x.month(), 1);
        let mut e = add(add_months(first, 1), -1);
        while !self.business(e) {
            e = add(e, -1);
        }
        e
    }
    pub fn near(&self, p: Period, val: NaiveDate) -> Option<NaiveDate> {
        self.near_lag(p, val, self.lag)
    }
    pub fn near_lag(&self, p: Period, val: NaiveDate, lag: i64) -> Option<NaiveDate> {
        match p {
            Period::ON => Some(self.roll(val)),
            Period::TN => Some(self.plus(val, 1)),
            Period::SN => Some(self.plus(val, lag)),
            _ => None,
        }
    }
    pub fn far(&self, p: Period, val: NaiveDate) -> NaiveDate {
        self.far_lag(p, val, self.lag)
    }
    pub fn far_lag(&self, p: Period, val: NaiveDate, lag: i64) -> NaiveDate {
        let spot = self.plus(val, lag);
        let (raw, cap) = match p {
            Period::ON => (add(val, 1), false),
            Period::TN => (add(self.plus(val, 1), 1), false),
            Period::SN => (add(spot, 1), false),
            Period::SPOT => (spot, false),
            Period::Days(n) => (add(spot, n), true),
            Period::Weeks(n) => (add(spot, 7 * n), true),
            Period::Months(n) => (add_months(spot, n), true),
            Period::Years(n) => (add_months(spot, 12 * n), true),
        };
        let e = self.month_end(raw);
        if cap && raw >= e { e } else { self.roll(raw) }
    }
    /// Values a forward-point lookup may return (None = no value). More than one only when
    /// two quotes share a settlement date with different points.
    pub fn points(&self, quotes: &[(Period, f64)], val: NaiveDate, target: NaiveDate) -> Vec<Option<f64>> {
        if target <= val || quotes.len() < 2 {
            return vec![None];
        }
        let at: Vec<(NaiveDate, f64)> = quotes.iter().map(|q| (self.far(q.0, val), q.1)).collect();
        let on: Vec<f64> = at.iter().filter(|x| x.0 == target).map(|x| x.1).collect();
        if !on.is_empty() {
            return on.into_iter().map(Some).collect();
        }
        let lo = at.iter().map(|x| x.0).filter(|x| *x < target).max();
        let hi = at.iter().map(|x| x.0).filter(|x| *x > target).min();
        let (Some(lo), Some(hi)) = (lo, hi) else { return vec![None] };
        let w = (ord(target) - ord(lo)) as f64 / (ord(hi) - ord(lo)) as f64;
        let mut out = vec![];
        for a in at.iter().filter(|x| x.0 == lo) {
            for b in at.iter().filter(|x| x.0 == hi) {
                out.push(Some(a.1 + (b.1 - a.1) * w));
            }
        }
        out
    }
}

pub fn lib_quotes(q: &[(Period, f64)]) -> Vec<FXForwardQuote> {
    q.iter().map(|x| FXForwardQuote { tenor: x.0, value: x.1 }).collect()
}

pub fn tenor(r: &mut Prng) -> Period {
    match r.below(12) {
        0 => Period::ON,
        1 => Period::TN,
        2 => Period::SPOT,
        3 => Period::SN,
        4 => Period::Days(if r.chance(0.2) { r.range(20, 400) } else { r.range(1, 20) }),
        5 | 6 => Period::Weeks(if r.chance(0.2) { r.range(4, 60) } else { r.range(1, 3) }),
        7..=9 => Period::Months(if r.chance(0.15) { r.range(12, 61) } else { r.range(1, 11) } as u32),
        _ => Period::Years(if r.chance(0.1) { r.range(6, 30) } else { r.range(1, 5) } as u32),
    }
}

pub fn gen_ladder(r: &mut Prng) -> Vec<(Period, f64)> {
    let mut v = vec![];
    for p in [Period::ON, Period::TN, Period::SPOT, Period::SN, Period::Weeks(1), Period::Weeks(2), Period::Months(1), Period::Months(2), Period::Months(3), Period::Months(6), Period::Years(1), Period::Years(2)] {
        if r.chance(0.6) {
            v.push((p, r.dec(-60.0, 60.0, 2)));
        }
    }
    if r.chance(0.3) {
        v.push((tenor(r), r.dec(-60.0, 60.0, 2)));
    }
    if r.chance(0.4) {
        r.shuffle(&mut v);
    }
    v
}

/// A business calendar day around which dates get awkward: month ends, year ends, weekends.
pub fn awkward_date(r: &mut Prng) -> NaiveDate {
    let y = r.range(2005, 2035) as i32;
    match r.below(5) {
        0 => d(y, 12, r.range(20, 31) as u32),
        1 => add(add_months(d(y, r.range(1, 12) as u32, 1), 1), -r.range(1, 5)),
        2 => d(y, r.range(3, 5) as u32, r.range(1, 30) as u32),
        3 => d(y, 2, r.range(20, 28) as u32),
        _ => add(d(y, 1, 1), r.range(0, 364)),
    }
}
