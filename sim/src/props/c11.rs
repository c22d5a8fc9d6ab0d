//! C11: IMM codes, dates and the wall clock.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams;
use crate::core::util::*;
use crate::ensure;
use chrono::{Datelike, NaiveDate, Weekday};
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::termstructures::yieldcurve::InterestRateQuote;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::time::calendars::{Calendar, Target};
use finquant::time::imm::IMM;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use serde_json::json;

pub struct C11;

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    /// the wall clock is set (seconds since the epoch): a jump forwards or backwards
    Clock { secs: i64 },
    /// the host moves to another time zone (a POSIX TZ string)
    Zone { tz: String },
    /// the wall clock ticks on
    Tick { secs: i64 },
    Date { code: String, reference: Option<i64> },
    Next { date: i64, main: bool },
    Code { date: i64 },
    IsCode { code: String, main: bool },
    Futures { code: String, val: i64, months: u32 },
}

const LETTERS: &str = "FGHJKMNQUVXZ";

fn third_wed(y: i32, m: u32) -> NaiveDate {
    let mut n = 0;
    for day in 1..=21 {
        let x = d(y, m, day);
        if x.weekday() == Weekday::Wed {
            n += 1;
            if n == 3 {
                return x;
            }
        }
    }
    unreachable!()
}
fn valid(code: &str, main: bool) -> Option<(u32, i32)> {
    let c: Vec<char> = code.chars().collect();
    if c.len() != 2 {
        return None;
    }
    let m = LETTERS.find(c[0].to_ascii_uppercase())? as u32 + 1;
    if !c[1].is_ascii_digit() || (main && m % 3 != 0) {
        return None;
    }
    Some((m, c[1].to_digit(10).unwrap() as i32))
}
fn ref_date(code: &str, r: NaiveDate) -> Option<NaiveDate> {
    let (m, digit) = valid(code, false)?;
    (r.year()..r.year() + 21).filter(|y| y.rem_euclid(10) == digit).map(|y| third_wed(y, m)).find(|x| *x >= r)
}
fn ref_next(x: NaiveDate, main: bool) -> NaiveDate {
    let (mut y, mut m) = (x.year(), x.month());
    loop {
        if !main || m % 3 == 0 {
            let t = third_wed(y, m);
            if t > x {
                return t;
            }
        }
        m += 1;
        if m > 12 {
            m = 1;
            y += 1;
        }
    }
}

fn gen_code(r: &mut Prng) -> String {
    match r.below(10) {
        0..=5 => format!("{}{}", r.pick(&LETTERS.chars().collect::<Vec<_>>()), r.below(10)),
        6..=7 => format!("{}{}", r.pick(&LETTERS.to_lowercase().chars().collect::<Vec<_>>()), r.below(10)),
        _ => {
            let junk = ["", "H", "3", "H33", "A3", "3H", "HH", "é", "é3", "Hé", "h ", " 3", "33", "ｈ3", "H٣", "Z-1", "IMM", "ß1", "H\u{0}", "o1", "L4", "T9"];
            r.pick(&junk).to_string()
        }
    }
}
fn gen_date(r: &mut Prng) -> i64 {
    let y = match r.below(4) {
        0 => 1910 + r.below(280) as i32,
        1 => 10 * (191 + r.below(28) as i32) + *r.pick(&[0, 9, 8, 1]),
        _ => 1990 + r.below(60) as i32,
    };
    let m = if r.chance(0.3) { *r.pick(&[1u32, 12, 2, 11]) } else { r.below(12) as u32 + 1 };
    match r.below(4) {
        0 => ord(third_wed(y, m)) + r.range(-2, 2),
        1 => ord(d(y, m, 1)) + r.range(-1, 1),
        2 => ord(d(y, m, 22)) + r.range(-2, 2),
        _ => ord(d(y, m, 1)) + r.range(0, 27),
    }
}
const ZONES: [&str; 6] = ["UTC0", "AAA-14", "BBB12", "CCC-3", "DDD8", "EEE-5:30"];
const EPOCH: i64 = 719_163;

impl Property for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 400_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = a history of 4-20 events: wall-clock jumps and ticks (around midnights, year and decade ends) and time-zone changes of the host interleaved with code->date (with and without reference), date->code, next-date, code validity and futures settlement queries on valid, lower-case and junk codes; non-trivial = at least one query resolved a valid code; distinct by hash of the observed answers"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["IMM, IMMMonth, FuturesRate, InterestRateFutures, Target calendar"], &["wall clock (clock_gettime replaced in-process)"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["dates 1910-2190, wall clock not before 1970"]
    }
    fn hang_secs(&self) -> u64 {
        20
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let n = r.usize(4, 20);
        let mut events = vec![];
        let mut today = None;
        for _ in 0..n {
            let e = match r.below(13) {
                0..=1 => {
                    let dd = gen_date(r).max(EPOCH);
                    today = Some(from_ord(dd));
                    Ev::Clock { secs: (dd - EPOCH) * 86_400 + *r.pick(&[0, 1, 43_200, 86_399]) }
                }
                2 => Ev::Tick { secs: *r.pick(&[1, 2, 86_400, 3_600, 86_400 * 31, -1]) },
                // often the contract of the very month
                3..=4 => Ev::Date {
                    code: match today {
                        Some(x) if r.chance(0.5) => format!("{}{}", &LETTERS[x.month0() as usize..][..1], x.year().rem_euclid(10)),
                        _ => gen_code(r),
                    },
                    reference: None,
                },
                12 => Ev::Zone { tz: r.pick(&ZONES).to_string() },
                5..=6 => Ev::Date { code: gen_code(r), reference: Some(gen_date(r)) },
                7..=8 => Ev::Next { date: gen_date(r), main: r.chance(0.5) },
                9 => Ev::Code { date: gen_date(r) },
                10 => Ev::IsCode { code: gen_code(r), main: r.chance(0.5) },
                _ => Ev::Futures { code: gen_code(r), val: gen_date(r).min(ord(d(2180, 1, 1))), months: if r.chance(0.2) { r.usize(1, 24) as u32 } else { *r.pick(&[1, 3, 3, 6]) } },
            };
            events.push(serde_json::to_value(e).unwrap());
        }
        Plan { scenario: "imm".into(), cfg: json!({"start": 1_700_000_000i64 + r.range(0, 400_000_000), "tz": r.pick(&ZONES)}), events }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let mut now = plan.cfg["start"].as_i64().unwrap();
        let zone = |tz: &str| unsafe { std::env::set_var("TZ", tz) };
        zone(plan.cfg["tz"].as_str().unwrap());
        seams::set_clock(now);
        for e in &plan.events {
            match serde_json::from_value::<Ev>(e.clone()).unwrap() {
                Ev::Clock { secs } => {
                    ctx.count(if secs < now { "fault.clock_jump_back" } else { "fault.clock_jump_forward" });
                    now = secs;
                    seams::set_clock(now);
                    ctx.state(&format!("clock {}", now.div_euclid(86_400)));
                }
                Ev::Zone { tz } => {
                    zone(&tz);
                    ctx.count("fault.time_zone_change");
                }
                Ev::Tick { secs } => {
                    now = (now + secs).max(0);
                    seams::set_clock(now);
                    ctx.count("op.clock_tick");
                    ctx.sim_days += secs.max(0) as f64 / 86_400.0;
                }
                Ev::Date { code, reference } => {
                    ctx.count("op.date");
                    let r = reference.map(from_ord);
                    let eff = r.unwrap_or_else(|| from_ord(now.div_euclid(86_400) + EPOCH));
                    let want = ref_date(&code, eff);
                    let got = no_panic(&format!("IMM.date({code:?}, {r:?}) at clock {now}"), || IMM.date(code.clone(), r))?;
                    ensure!(got == want, "date", "IMM.date({code:?}, {r:?}) at clock {now} = {got:?}, expected {want:?}");
                    if let Some(g) = got {
                        ctx.nontrivial = true;
                        ctx.count(if r.is_some() { "probe.resolved_with_reference" } else { "probe.resolved_by_clock" });
                        let back = no_panic("IMM.code", || IMM.code(g))?;
                        ensure!(back == Some(code.to_uppercase()), "inverse", "IMM.code({g}) = {back:?}, the date came from {code:?}");
                        ctx.state(&format!("{code} {}", eff.year()));
                    }
                    ctx.ev(&format!("{got:?}"));
                }
                Ev::Next { date, main } => {
                    ctx.count("op.next");
                    let x = from_ord(date);
                    let got = no_panic(&format!("IMM.next_date({x}, {main})"), || IMM.next_date(x, main))?;
                    let want = ref_next(x, main);
                    ensure!(got == want, "next_date", "IMM.next_date({x}, main_cycle={main}) = {got}, expected {want}");
                    ensure!(IMM.is_imm_date(got, main), "is_imm_date", "is_imm_date({got}, {main}) is false");
                    ctx.ev(&format!("{got}"));
                    ctx.state(&format!("next {} {} {main}", x.month(), x.day()));
                }
                Ev::Code { date } => {
                    ctx.count("op.code");
                    let x = from_ord(date);
                    let got = no_panic("IMM.code", || IMM.code(x))?;
                    let is = third_wed(x.year(), x.month()) == x;
                    let want = is.then(|| format!("{}{}", LETTERS.as_bytes()[x.month0() as usize] as char, x.year().rem_euclid(10)));
                    ensure!(got == want, "code", "IMM.code({x}) = {got:?}, expected {want:?}");
                    for main in [false, true] {
                        let w = is && (!main || x.month() % 3 == 0);
                        let g = IMM.is_imm_date(x, main);
                        ensure!(g == w, "is_imm_date", "is_imm_date({x}, {main}) = {g}");
                    }
                    if let Some(c) = got {
                        let back = no_panic("IMM.date", || IMM.date(c.clone(), Some(x)))?;
                        ensure!(back == Some(x), "inverse", "IMM.date({c}, {x}) = {back:?}");
                    }
                }
                Ev::IsCode { code, main } => {
                    ctx.count("op.is_code");
                    let got = no_panic(&format!("is_imm_code({code:?})"), || IMM.is_imm_code(code.clone(), main))?;
                    let want = valid(&code, main).is_some();
                    ensure!(got == want, "is_code", "is_imm_code({code:?}, {main}) = {got}, expected {want}");
                }
                Ev::Futures { code, val, months } => {
                    ctx.count("op.futures");
                    let v = from_ord(val);
                    let q = FuturesRate {
                        value: 96.0,
                        imm_code: code.clone(),
                        convexity_adjustment: 0.0,
                        futures_spec: InterestRateFutures::new(Period::Months(months)),
                        interest_rate_index: InterestRateIndex::from_enum(InterestRateIndexEnum::EUIBOR(Period::Months(3))).unwrap(),
                    };
                    let s = no_panic(&format!("FuturesRate({code:?}).settle_date({v})"), || q.settle_date(v))?;
                    let m = no_panic(&format!("FuturesRate({code:?}).maturity_date({v})"), || q.maturity_date(v))?;
                    match ref_date(&code, v) {
                        None => ensure!(s.is_err() && m.is_err(), "futures", "invalid code {code:?} settles on {:?}", s.ok()),
                        Some(w) => {
                            let s = s.ok();
                            ensure!(s == Some(w), "futures", "futures {code} on {v} settles {s:?}, expected {w}");
                            let t = Target::default().advance(w, Period::Months(months), finquant::time::businessdayconvention::BusinessDayConvention::ModifiedFollowing, Some(false)).unwrap().unwrap();
                            let w2 = third_wed(t.year(), t.month());
                            let m = m.ok();
                            ensure!(m == Some(w2), "futures", "futures {code} on {v} matures {m:?}, expected {w2}");
                            ctx.nontrivial = true;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
