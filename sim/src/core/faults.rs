//! Calendars and day counters that delegate to shipped ones but can be made to fail (public
//! trait seams). The fault plan is thread-global so that every clone or deserialised instance
//! takes part: calls are numbered in the order the library makes them.
use chrono::NaiveDate;
use finquant::error::{Error, Result};
use finquant::time::businessdayconvention::BusinessDayConvention;
use finquant::time::calendars::Calendar;
use finquant::time::daycounters::DayCounters;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, Default)]
pub struct FaultCtl {
    pub calls: u64,
    /// fail calls numbered in [from, to) (1-based)
    pub from: u64,
    pub to: u64,
    pub fired: u64,
    pub fired_cal: u64,
    pub fired_dc: u64,
    /// which kinds may fail
    pub cal: bool,
    pub dc: bool,
    /// a failing calendar answers with no date instead of an error
    pub none: bool,
}

thread_local! {
    static CTL: RefCell<FaultCtl> = RefCell::new(FaultCtl::default());
}

/// Arm: the n-th (1-based) fallible call and, if `persistent`, every later one fails.
pub fn arm(n: u64, persistent: bool) {
    CTL.with(|c| {
        *c.borrow_mut() = FaultCtl {
            from: n,
            to: if persistent { u64::MAX } else { n + 1 },
            cal: true,
            dc: true,
            ..Default::default()
        }
    })
}
/// Like [`arm`], but a failing calendar offers no date instead of reporting an error.
pub fn arm_none(n: u64, persistent: bool) {
    arm(n, persistent);
    CTL.with(|c| c.borrow_mut().none = true);
}
/// Count calls without failing any.
pub fn disarm() -> FaultCtl {
    CTL.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
pub fn snapshot() -> FaultCtl {
    CTL.with(|c| c.borrow().clone())
}

fn hit(is_cal: bool, what: &str) -> Result<()> {
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        c.calls += 1;
        if c.from > 0 && c.calls >= c.from && c.calls < c.to {
            c.fired += 1;
            if is_cal { c.fired_cal += 1 } else { c.fired_dc += 1 }
            return Err(Error::PeriodOutOfBounds(format!("injected fault in {what}")));
        }
        Ok(())
    })
}

#[derive(Serialize, Deserialize, Debug)]
pub struct SimCalendar {
    pub inner: Box<dyn Calendar>,
}

#[typetag::serde]
impl Calendar for SimCalendar {
    fn last_day_of_month(&self, date: NaiveDate) -> NaiveDate {
        self.inner.last_day_of_month(date)
    }
    fn end_of_month(&self, date: NaiveDate) -> NaiveDate {
        self.inner.end_of_month(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.inner.is_weekend(date)
    }
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.inner.is_business_day(date)
    }
    fn is_holiday(&self, date: NaiveDate) -> bool {
        self.inner.is_holiday(date)
    }
    fn adjust(&self, date: NaiveDate, bdc: BusinessDayConvention) -> Option<NaiveDate> {
        self.inner.adjust(date, bdc)
    }
    fn advance(&self, date: NaiveDate, period: Period, bdc: BusinessDayConvention, eom: Option<bool>) -> Result<Option<NaiveDate>> {
        if let Err(e) = hit(true, "calendar") {
            return if CTL.with(|c| c.borrow().none) { Ok(None) } else { Err(e) };
        }
        self.inner.advance(date, period, bdc, eom)
    }
}

#[derive(Serialize, Deserialize, Debug)]
pub struct SimDayCounter {
    pub inner: Box<dyn DayCounters>,
}

#[typetag::serde]
impl DayCounters for SimDayCounter {
    fn day_count(&self, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
        hit(false, "day counter")?;
        self.inner.day_count(d1, d2)
    }
    fn year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
        hit(false, "day counter")?;
        self.inner.year_fraction(d1, d2)
    }
    fn year_fraction_to_date(&self, r: NaiveDate, t: f64) -> Result<NaiveDate> {
        hit(false, "day counter")?;
        self.inner.year_fraction_to_date(r, t)
    }
}

/// A failing day counter that leaves `year_fraction_to_date` to the library.
#[derive(Serialize, Deserialize, Debug)]
pub struct SimYearFraction {
    pub inner: Box<dyn DayCounters>,
}

#[typetag::serde]
impl DayCounters for SimYearFraction {
    fn day_count(&self, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
        hit(false, "day counter")?;
        self.inner.day_count(d1, d2)
    }
    fn year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
        hit(false, "day counter")?;
        self.inner.year_fraction(d1, d2)
    }
}

/// A day counter that only moves every `every` days (a legitimate convention with zero-length
/// days, like 30/360 around month ends or business-day counts over holidays).
#[derive(Serialize, Deserialize, Debug)]
pub struct StairDayCounter {
    pub every: i64,
    pub phase: i64,
}

#[typetag::serde]
impl DayCounters for StairDayCounter {
    fn day_count(&self, d1: NaiveDate, d2: NaiveDate) -> Result<i64> {
        let f = |x: NaiveDate| (super::util::ord(x) + self.phase).div_euclid(self.every) * self.every;
        Ok(f(d2) - f(d1))
    }
    fn year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
        Ok(self.day_count(d1, d2)? as f64 / 365.0)
    }
}
