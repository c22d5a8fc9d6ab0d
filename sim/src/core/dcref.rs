//! Reference day counts, written from the published definitions.
use chrono::{Datelike, NaiveDate};
use serde_json::Value;

fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}
/// 29 February dates `x` with from ≤ x < to
fn leap_days(from: NaiveDate, to: NaiveDate) -> i64 {
    (from.year()..=to.year()).filter(|y| leap(*y)).map(|y| ymd(y, 2, 29)).filter(|x| from <= *x && *x < to).count() as i64
}
fn feb_end(x: NaiveDate) -> bool {
    x.month() == 2 && x.day() == if leap(x.year()) { 29 } else { 28 }
}
/// ISDA 2006 4.16(b) style: each calendar year's days over its own length
fn isda(a: NaiveDate, b: NaiveDate) -> f64 {
    if a > b {
        return -isda(b, a);
    }
    (a.year()..=b.year())
        .map(|y| {
            let (lo, hi) = (a.max(ymd(y, 1, 1)), b.min(ymd(y + 1, 1, 1)));
            (hi - lo).num_days() as f64 / if leap(y) { 366.0 } else { 365.0 }
        })
        .sum()
}
/// AFB: whole years counted back from the end, then the stub over 366 if it holds a 29 February
fn afb(a: NaiveDate, b: NaiveDate) -> f64 {
    let back = |n: i32| {
        let y = b.year() - n;
        match (n, b.month(), b.day()) {
            (0, ..) => b,
            (_, 2, 28 | 29) => ymd(y, 2, if leap(y) { 29 } else { 28 }),
            (_, m, d) => ymd(y, m, d),
        }
    };
    let mut n = 0;
    while back(n + 1) >= a {
        n += 1;
    }
    let end = back(n);
    n as f64 + (end - a).num_days() as f64 / if leap_days(a, end) > 0 { 366.0 } else { 365.0 }
}

fn thirty(market: &Value, a: NaiveDate, b: NaiveDate) -> i64 {
    let (d1, d2) = (a.day() as i64, b.day() as i64);
    let cap = |d: i64| d.min(30);
    let months = 12 * (b.year() - a.year()) as i64 + b.month() as i64 - a.month() as i64;
    let (x, y) = match market.as_str() {
        Some("USA") => {
            let x = if feb_end(a) { 30 } else { d1 };
            let y = if feb_end(a) && feb_end(b) { 30 } else { d2 };
            (cap(x), if x >= 30 { cap(y) } else { y })
        }
        Some("European") => (cap(d1), cap(d2)),
        Some("Italian") => {
            let feb = |x: NaiveDate| x.month() == 2 && x.day() > 27;
            (if feb(a) { 30 } else { cap(d1) }, if feb(b) { 30 } else { cap(d2) })
        }
        Some("ISMA") => (cap(d1), if d1 >= 30 { cap(d2) } else { d2 }),
        // a 31st that is not cut becomes the first of the next month: one more than 30
        Some("NASD") => (cap(d1), if d1 >= 30 { cap(d2) } else { d2 }),
        _ => {
            let end: NaiveDate = market.as_object().unwrap().values().next().unwrap().as_str().unwrap().parse().unwrap();
            (if feb_end(a) { 30 } else { cap(d1) }, if feb_end(b) && b != end { 30 } else { cap(d2) })
        }
    };
    30 * months + y - x
}

/// (day count, year fraction), where the convention defines them
pub fn reference(spec: &Value, a: NaiveDate, b: NaiveDate) -> Option<(i64, f64)> {
    let days = (b - a).num_days();
    Some(match spec["type"].as_str()? {
        "Actual360" => (days, days as f64 / 360.0),
        "Actual364" => (days, days as f64 / 364.0),
        "Actual366" => (days, days as f64 / 366.0),
        "Actual365Fixed" => {
            let n = match spec["market"].as_str() {
                Some("NoLeap") => {
                    let (lo, hi) = (a.min(b), a.max(b));
                    // a 29 February counts as the 28th
                    let cut = leap_days(lo.succ_opt()?, hi.succ_opt()?);
                    (days.abs() - cut) * days.signum()
                }
                _ => days,
            };
            (n, n as f64 / 365.0)
        }
        "ActualActual" if spec["market"].as_str() == Some("Euro") => (days, if a <= b { afb(a, b) } else { return None }),
        "ActualActual" => (days, isda(a, b)),
        "Thirty360" => {
            let n = thirty(&spec["market"], a, b);
            (n, n as f64 / 360.0)
        }
        "Thirty365" => {
            let n = 360 * (b.year() - a.year()) as i64 + 30 * (b.month() as i64 - a.month() as i64) + b.day() as i64 - a.day() as i64;
            (n, n as f64 / 365.0)
        }
        _ => return None,
    })
}
