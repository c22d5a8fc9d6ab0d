//! Caps and floors described by plain data: library objects, reference value, reference strip.
use super::catalog;
use super::market::RefCurve;
use super::prng::Prng;
use super::util::*;
use chrono::NaiveDate;
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::volsurface::{CapQuote, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::{InterestRateQuoteEnum, StrippedCurve};
use iso_currency::Currency;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CapQ {
    pub strike: f64,
    pub notional: f64,
    pub buy: bool,
    pub floor: bool,
    pub backward: bool,
    /// first accrual start in days from the valuation date the schedule was built on
    pub first: i64,
    /// days per period
    pub step: i64,
    pub n: usize,
    pub pay_lag: i64,
    pub dc: Value,
    /// uneven periods: the k-th is longer by (5k mod (uneven+1)) days
    #[serde(default)]
    pub uneven: i64,
    /// days between one period's end and the next one's start
    #[serde(default)]
    pub gap: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Per {
    pub start: NaiveDate,
    pub end: NaiveDate,
    pub pay: NaiveDate,
}

pub fn direction(buy: bool) -> Direction {
    if buy { Direction::Buy } else { Direction::Sell }
}

impl CapQ {
    pub fn periods(&self, base: NaiveDate) -> Vec<Per> {
        let mut from = add(base, self.first);
        (0..self.n as i64)
            .map(|k| {
                let s = from;
                let e = add(s, self.step + (5 * k) % (self.uneven + 1));
                from = add(e, self.gap);
                Per { start: s, end: e, pay: add(e, self.pay_lag) }
            })
            .collect()
    }
    pub fn lib_schedule(&self, base: NaiveDate) -> Vec<InterestRateSchedulePeriod> {
        self.periods(base).iter().map(|p| InterestRateSchedulePeriod::new(p.start, p.end, p.pay, p.start, 0.0, self.notional)).collect()
    }
    fn kind(&self) -> CapFloorKind {
        if self.floor { CapFloorKind::Floor } else { CapFloorKind::Cap }
    }
    fn style(&self) -> CapStyle {
        if self.backward { CapStyle::BackwardCompounded } else { CapStyle::ForwardLooking }
    }
    pub fn lib_quote(&self, base: NaiveDate, premium: f64, sim: bool) -> CapQuote {
        CapQuote {
            strike: self.strike,
            notional: self.notional,
            direction: direction(self.buy),
            kind: self.kind(),
            style: self.style(),
            currency: Currency::USD,
            schedule: self.lib_schedule(base),
            accrual_day_counter: catalog::dc(&if sim { catalog::sim_dc(&self.dc) } else { self.dc.clone() }),
            market_npv: premium,
        }
    }
    pub fn lib_cap(&self, base: NaiveDate, val: NaiveDate, sim: bool) -> CapFloor {
        CapFloor {
            basic_info: BasicInfo { trade_date: base, style: Style::IRSwap, direction: direction(self.buy), expiry_date: base, delivery_date: base },
            kind: self.kind(),
            style: self.style(),
            currency: Currency::USD,
            notional: self.notional,
            strike: self.strike,
            valuation_date: val,
            schedule: self.lib_schedule(base),
            accrual_day_counter: catalog::dc(&if sim { catalog::sim_dc(&self.dc) } else { self.dc.clone() }),
        }
    }
}

pub fn total_variance(backward: bool, sigma: f64, ys: f64, ye: f64) -> f64 {
    if ye <= 0.0 {
        return 0.0;
    }
    sigma
        * sigma
        * if !backward {
            ys.max(0.0)
        } else if ys >= 0.0 {
            ys + (ye - ys) / 3.0
        } else {
            ye * ye * ye / (3.0 * (ye - ys) * (ye - ys))
        }
}

pub fn bachelier(floor: bool, f: f64, k: f64, v: f64) -> f64 {
    let w = if floor { -1.0 } else { 1.0 };
    let m = w * (f - k);
    if v <= 0.0 {
        return m.max(0.0);
    }
    let s = v.sqrt();
    s * norm_pdf(m / s) + m * norm_cdf(m / s)
}

/// value of one cap with a volatility per accrual start
pub fn cap_pv(q: &CapQ, per: &[Per], val: NaiveDate, c: &RefCurve, bp: f64, vol: &dyn Fn(NaiveDate) -> f64) -> f64 {
    let dc = catalog::dc(&q.dc);
    let sign = if q.buy { 1.0 } else { -1.0 };
    let y = |t: NaiveDate| (ord(t) - ord(val)) as f64 / 365.0;
    per.iter()
        .filter(|p| p.pay >= val)
        .map(|p| {
            let tau = dc.year_fraction(p.start, p.end).unwrap();
            let f = (c.df_shift(p.start, bp) / c.df_shift(p.end, bp) - 1.0) / tau;
            let v = total_variance(q.backward, vol(p.start), y(p.start), y(p.end));
            sign * q.notional * tau * c.df_shift(p.pay, bp) * bachelier(q.floor, f, q.strike, v)
        })
        .sum()
}

/// curve given directly by zero rates
pub fn zero_pillars(val: NaiveDate, z: &[(i64, f64)]) -> Vec<StrippedCurve> {
    z.iter()
        .map(|(t, r)| StrippedCurve {
            first_settle_date: val,
            date: add(val, *t),
            market_rate: *r,
            zero_rate: *r,
            discount: (-r * *t as f64 / 365.0).exp(),
            source: InterestRateQuoteEnum::OIS,
            hidden_pillar: false,
        })
        .collect()
}

/// documented lookup on a surface given by its pillars
pub fn ref_vol(p: &[(NaiveDate, Vec<(f64, f64)>)], expiry: NaiveDate, k: f64) -> f64 {
    let n = p.iter().find(|x| expiry <= x.0).unwrap_or(p.last().unwrap());
    let n = &n.1;
    if k <= n[0].0 {
        return n[0].1;
    }
    if k >= n[n.len() - 1].0 {
        return n[n.len() - 1].1;
    }
    let j = n.iter().position(|x| k <= x.0).unwrap();
    let (a, b) = (n[j - 1], n[j]);
    a.1 + (k - a.0) / (b.0 - a.0) * (b.1 - a.1)
}

pub fn surface_nodes(s: &IRNormalVolSurface) -> Vec<(NaiveDate, Vec<(f64, f64)>)> {
    s.pillars.iter().map(|p| (p.expiry, p.nodes.clone())).collect()
}

pub fn gen_cap(r: &mut Prng, base: f64) -> CapQ {
    let strikes = [-0.01, -0.005, 0.0, 0.005, 0.01, 0.02, 0.03, 0.04, 0.05];
    let near = strikes.iter().copied().filter(|k: &f64| (k - base).abs() < 0.025).collect::<Vec<_>>();
    let step = *r.pick(&[91i64, 91, 182, 30]);
    CapQ {
        strike: if near.is_empty() { 0.03 } else { *r.pick(&near) },
        notional: *r.pick(&[1.0, 100.0, 1_000_000.0]),
        buy: r.chance(0.7),
        floor: r.chance(0.35),
        backward: r.chance(0.4),
        first: *r.pick(&[0i64, 2, 91, 182, -20, 365, -1]),
        step,
        n: r.usize(1, 10),
        pay_lag: *r.pick(&[0i64, 0, 2]),
        dc: r.pick(&[json!({"type": "Actual360"}), json!({"type": "Actual365Fixed", "market": null}), json!({"type": "Thirty360", "market": "European"}), json!({"type": "ActualActual", "market": "Isda"})]).clone(),
        uneven: if r.chance(0.1) { r.range(1, 20) } else { 0 },
        gap: if r.chance(0.05) { r.range(1, 20) } else { 0 },
    }
}

/// a trade rather than a quote: any strike, seasoned, uneven or broken schedules
pub fn gen_trade_cap(r: &mut Prng, base: f64) -> CapQ {
    let mut q = gen_cap(r, base);
    if r.chance(0.6) {
        q.strike = match r.below(8) {
            0 => 0.0,
            1 => -r.dec(0.0, 0.02, 4),
            2 => r.dec(0.05, 0.2, 3),
            _ => r.dec(0.0, 0.08, 4),
        };
    }
    if r.chance(0.4) {
        q.first = *r.pick(&[-400i64, -200, -91, -50, -1, 1, 400, 2000]);
    }
    if r.chance(0.3) {
        q.uneven = r.range(1, 40);
    }
    if r.chance(0.15) {
        q.gap = r.range(-5, 40);
    }
    if r.chance(0.3) {
        q.pay_lag = *r.pick(&[1i64, 5, 30, -3]);
    }
    if r.chance(0.2) {
        q.n = r.usize(10, 40);
    }
    if r.chance(0.4) {
        q.dc = r.pick(&[json!({"type": "ActualActual", "market": "Isda"}), json!({"type": "Thirty360", "market": "USA"}), json!({"type": "Actual364"}), json!({"type": "Actual366"})]).clone();
    }
    if r.chance(0.2) {
        q.notional = *r.pick(&[0.01, 12_345_678.9, 5e9]);
    }
    q
}
