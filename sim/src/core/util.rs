use chrono::{Datelike, Days, NaiveDate};

pub fn d(y: i32, m: u32, day: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, day).unwrap()
}
pub fn add(x: NaiveDate, n: i64) -> NaiveDate {
    if n >= 0 { x.checked_add_days(Days::new(n as u64)).unwrap() } else { x.checked_sub_days(Days::new((-n) as u64)).unwrap() }
}
pub fn ord(x: NaiveDate) -> i64 {
    x.num_days_from_ce() as i64
}
pub fn from_ord(n: i64) -> NaiveDate {
    NaiveDate::from_num_days_from_ce_opt(n as i32).unwrap()
}
/// |a-b| <= tol * max(1,|a|,|b|); NaN never close unless both NaN
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * 1f64.max(a.abs()).max(b.abs())
}
pub fn close_rel(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs())
}

unsafe extern "C" {
    fn erfc(x: f64) -> f64;
}
/// standard normal cdf from the C library
pub fn norm_cdf(x: f64) -> f64 {
    0.5 * unsafe { erfc(-x / std::f64::consts::SQRT_2) }
}
pub fn norm_pdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
