//! C14: calendar and day-count answers do not depend on history or environment.
//!
//! Oracle for calendars: the verdicts of every day 1901-2199, taken once per calendar in a process
//! of its own (fixed clock and entropy, one instance, ascending order, nothing asked before). Every
//! answer given later, in any history, must be the one that follows from that table.
use crate::core::catalog;
use crate::core::dcref;
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams;
use crate::core::util::*;
use crate::ensure;
use chrono::{Datelike, Months, NaiveDate, Weekday};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::period::Period;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

pub struct C14;

const CONVENTIONS: [B; 7] = [B::Following, B::ModifiedFollowing, B::HalfMonthModifiedFollowing, B::Preceding, B::ModifiedPreceding, B::Unadjusted, B::Nearest];

// ------------------------------------------------------------------ verdict tables

fn first() -> i64 {
    ord(d(1901, 1, 1))
}
fn last() -> i64 {
    ord(d(2199, 12, 31))
}

pub struct Table {
    /// bit 0 = business day, bit 1 = weekend
    v: Vec<u8>,
}
impl Table {
    fn at(&self, x: NaiveDate) -> u8 {
        self.v[(ord(x) - first()) as usize]
    }
}

/// `fqsim c14-table SPEC`: one byte per day on stdout.
pub fn table_main(spec: &str) -> i32 {
    use std::io::Write;
    install_panic_hook();
    seams::set_clock(1_600_000_000);
    seams::set_entropy(3);
    let spec: Value = serde_json::from_str(spec).unwrap();
    let c = catalog::fresh_cal(&spec);
    let mut out = Vec::with_capacity((last() - first() + 1) as usize);
    for n in first()..=last() {
        let x = from_ord(n);
        match sut(|| (c.is_business_day(x), c.is_weekend(x))) {
            Ok((b, w)) => out.push(b'0' + b as u8 + 2 * w as u8),
            Err(m) => {
                println!("{x}: {m}");
                return 4;
            }
        }
    }
    std::io::stdout().write_all(&out).unwrap();
    0
}

fn child(args: &[&str], tz: &str) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).env("TZ", tz).stdin(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

fn table(spec: &Value) -> Result<&'static Table, Violation> {
    thread_local! {
        static T: std::cell::RefCell<HashMap<String, &'static Table>> = Default::default();
    }
    let key = spec.to_string();
    if let Some(t) = T.with(|t| t.borrow().get(&key).copied()) {
        return Ok(t);
    }
    let o = child(&["c14-table", &key], "UTC").output().expect("harness: c14-table");
    match o.status.code() {
        Some(0) => {}
        Some(4) => return fail("panic", format!("calendar {spec} asked about {}", String::from_utf8_lossy(&o.stdout).trim())),
        s => panic!("harness: c14-table {spec}: {s:?}"),
    }
    assert_eq!(o.stdout.len() as i64, last() - first() + 1, "harness: c14-table {spec}");
    let t: &'static Table = Box::leak(Box::new(Table { v: o.stdout }));
    T.with(|m| m.borrow_mut().insert(key, t));
    Ok(t)
}

// ------------------------------------------------------------------ reference answers

struct Ref {
    parts: Vec<&'static Table>,
    /// a joined calendar keeps the common (Saturday/Sunday) weekend
    joint: bool,
}
impl Ref {
    fn bd(&self, x: NaiveDate) -> bool {
        self.parts.iter().all(|t| t.at(x) & 1 == 1)
    }
    fn weekend(&self, x: NaiveDate) -> bool {
        if self.joint { matches!(x.weekday(), Weekday::Sat | Weekday::Sun) } else { self.parts[0].at(x) & 2 == 2 }
    }
    fn step(&self, x: NaiveDate, dir: i64) -> NaiveDate {
        let mut y = x;
        while !self.bd(y) {
            y = add(y, dir);
        }
        y
    }
    fn eom(&self, x: NaiveDate) -> NaiveDate {
        let (y, m) = if x.month() == 12 { (x.year() + 1, 1) } else { (x.year(), x.month() + 1) };
        self.step(add(d(y, m, 1), -1), -1)
    }
    fn adjust(&self, x: NaiveDate, b: B) -> NaiveDate {
        let (f, p) = (self.step(x, 1), self.step(x, -1));
        match b {
            B::Unadjusted => x,
            B::Following => f,
            B::Preceding => p,
            B::ModifiedFollowing => if f.month() == x.month() { f } else { p },
            B::ModifiedPreceding => if p.month() == x.month() { p } else { f },
            B::HalfMonthModifiedFollowing => if f.month() != x.month() || (x.day() <= 15 && f.day() > 15) { p } else { f },
            B::Nearest => if ord(f) - ord(x) < ord(x) - ord(p) { f } else { p },
        }
    }
    /// for `Nearest` with both neighbours equally near either answer is a convention
    fn tie(&self, x: NaiveDate) -> bool {
        ord(self.step(x, 1)) - ord(x) == ord(x) - ord(self.step(x, -1))
    }
    fn advance(&self, x: NaiveDate, p: Period, b: B, eom: bool) -> NaiveDate {
        match p {
            Period::Days(0) => self.adjust(x, b),
            Period::Days(n) => {
                let s = n.signum();
                let mut y = x;
                for _ in 0..n.abs() {
                    y = self.step(add(y, s), s);
                }
                y
            }
            Period::Months(_) | Period::Years(_) => {
                let m = match p {
                    Period::Months(m) => m,
                    Period::Years(y) => 12 * y,
                    _ => unreachable!(),
                };
                let a = self.adjust(x + Months::new(m), b);
                if eom { self.eom(a) } else { a }
            }
            Period::Weeks(n) => self.adjust(add(x, 7 * n), b),
            Period::ON | Period::TN | Period::SN => self.adjust(add(x, 1), b),
            Period::SPOT => self.adjust(x, b),
        }
    }
    fn between(&self, from: NaiveDate, to: NaiveDate, inc_first: bool, inc_last: bool) -> i64 {
        if from > to {
            return -self.between(to, from, inc_first, inc_last);
        }
        let (a, z) = (ord(from) + if inc_first { 0 } else { 1 }, ord(to) + if inc_last { 1 } else { 0 });
        (a..z).filter(|n| self.bd(from_ord(*n))).count() as i64
    }
}

// ------------------------------------------------------------------ plans

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    cals: Vec<Value>,
    /// joined calendars, as indices of `cals`
    joints: Vec<Vec<usize>>,
    dcs: Vec<Value>,
    /// environment of the second process the day counts are repeated in (none = not repeated)
    other: Option<Other>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Other {
    tz: String,
    clock: i64,
    entropy: u64,
    reversed: bool,
}

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    Clock { secs: i64 },
    Entropy { seed: u64 },
    /// the long-lived instance is stored and replaced by what comes back
    Store { cal: usize },
    StoreDc { dc: usize },
    /// `inst`: 0 long-lived, 1 fresh, 2 restored from storage; `cal` >= cals.len() is a joint one
    Verdict { inst: u8, cal: usize, date: i64 },
    MonthEnd { inst: u8, cal: usize, date: i64 },
    Adjust { inst: u8, cal: usize, date: i64, bdc: usize },
    Advance { inst: u8, cal: usize, date: i64, period: Period, bdc: usize, eom: Option<bool> },
    Between { inst: u8, cal: usize, from: i64, to: i64, first: Option<bool>, last: Option<bool> },
    Count { inst: u8, dc: usize, from: i64, to: i64 },
    Fraction { inst: u8, dc: usize, from: i64, to: i64 },
    DateAt { inst: u8, dc: usize, from: i64, t: f64 },
    /// a date moved by a period, at times out of the range of dates
    Shift { date: i64, period: Period, back: bool },
}

/// `date` moved by `period`, in wide integers; None beyond the range of dates.
fn shifted(date: NaiveDate, period: Period, back: bool) -> Option<NaiveDate> {
    let sign = if back { -1i128 } else { 1 };
    let days = |n: i128| {
        let k = ord(date) as i128 + sign * n;
        (ord(NaiveDate::MIN) as i128..=ord(NaiveDate::MAX) as i128).contains(&k).then(|| from_ord(k as i64))
    };
    let months = |n: i128| {
        let k = date.year() as i128 * 12 + date.month0() as i128 + sign * n;
        let (y, m) = (i32::try_from(k.div_euclid(12)).ok()?, k.rem_euclid(12) as u32 + 1);
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let len = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1];
        NaiveDate::from_ymd_opt(y, m, date.day().min(len))
    };
    match period {
        Period::SPOT => Some(date),
        Period::ON | Period::TN | Period::SN => days(1),
        Period::Days(n) => days(n as i128),
        Period::Weeks(n) => days(7 * n as i128),
        Period::Months(n) => months(n as i128),
        Period::Years(n) => months(12 * n as i128),
    }
}

fn ask_dc(dc: &dyn DayCounters, e: &Ev) -> String {
    let r = sut(|| match e {
        Ev::Count { from, to, .. } => format!("{:?}", dc.day_count(from_ord(*from), from_ord(*to)).ok()),
        Ev::Fraction { from, to, .. } => format!("{:?}", dc.year_fraction(from_ord(*from), from_ord(*to)).ok().map(f64::to_bits)),
        Ev::DateAt { from, t, .. } => format!("{:?}", dc.year_fraction_to_date(from_ord(*from), *t).ok()),
        _ => unreachable!(),
    });
    r.unwrap_or_else(|m| format!("panic: {m}"))
}
fn dc_of(e: &Ev) -> Option<(u8, usize)> {
    match e {
        Ev::Count { inst, dc, .. } | Ev::Fraction { inst, dc, .. } | Ev::DateAt { inst, dc, .. } => Some((*inst, *dc)),
        _ => None,
    }
}

/// `fqsim c14-dc FILE`: answer the day-count questions of a plan in this process; one line each.
pub fn dc_main(file: &str) -> i32 {
    install_panic_hook();
    let plan: Plan = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let cfg: Cfg = serde_json::from_value(plan.cfg).unwrap();
    let o = cfg.other.unwrap();
    seams::set_clock(o.clock);
    seams::set_entropy(o.entropy);
    let mut qs: Vec<(usize, Ev)> =
        plan.events.into_iter().map(|e| serde_json::from_value(e).unwrap()).filter(|e| dc_of(e).is_some()).enumerate().collect();
    if o.reversed {
        qs.reverse();
    }
    let live: Vec<_> = cfg.dcs.iter().map(catalog::fresh_dc).collect();
    let mut out = vec![String::new(); qs.len()];
    for (i, e) in &qs {
        out[*i] = ask_dc(&*live[dc_of(e).unwrap().1], e);
    }
    println!("{}", json!(out));
    0
}

fn some_date(r: &mut Prng) -> i64 {
    let y = match r.below(6) {
        0 => r.range(1903, 1910),
        1 | 2 => r.range(1990, 2060),
        3 => r.range(2185, 2196),
        _ => r.range(1903, 2196),
    } as i32;
    let x = match r.below(7) {
        0 => d(y, 12, r.range(20, 31) as u32),
        1 => d(y, 1, r.range(1, 8) as u32),
        2 => add(d(y, 3, 20), r.range(0, 60)),
        3 => {
            // around a month end or a mid month
            let m = r.range(1, 12) as u32;
            add(d(y, m, *r.pick(&[1u32, 15])), r.range(-3, 3))
        }
        4 => add(d(y, 2, 27), r.range(0, 3)),
        _ => add(d(y, 1, 1), r.range(0, 364)),
    };
    ord(x)
}

impl Property for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 1_000_000 } else { 40_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = a seeded history of 60-200 questions (verdicts, month ends, adjustment under all seven conventions, advance by every kind of period, business-day counts with every inclusion flag, day counts, year fractions and their inverse) to 1-4 calendars, 0-2 joint calendars and 1-3 day counters, put to long-lived, fresh and restored instances while the wall clock and entropy jump; one run in six repeats the day counts in a second process under another time zone, clock, entropy and order; non-trivial = at least two instances of one calendar or day counter were asked; distinct by hash of the answers"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["every shipped calendar, JointCalendar, every shipped day counter, their serde forms"], &["wall clock, OS entropy, time zone"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["calendar dates 1903-2196 with margins inside the supported 1901-2199", "the oracle is the calendar's own verdict table taken in a process of its own, not the exchanges' published holidays"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let specs = catalog::calendar_specs();
        let cals: Vec<Value> = (0..r.usize(1, 4)).map(|_| r.pick(&specs).clone()).collect();
        let joints: Vec<Vec<usize>> = (0..r.usize(0, 2)).map(|_| (0..r.usize(1, 4)).map(|_| r.usize(0, cals.len() - 1)).collect()).collect();
        let mut dspecs = catalog::day_counter_specs();
        for _ in 0..3 {
            dspecs.push(json!({"type": "Business252", "calendar": r.pick(&specs)}));
        }
        for k in ["ISDA", "German"] {
            // matures on a month end, often one of February's
            let y = r.range(1950, 2100) as i32;
            let m = *r.pick(&[3, 3, 3, 1, 6]);
            let end = add(d(y, m, 1), -1);
            dspecs.push(json!({"type": "Thirty360", "market": {k: end.to_string()}}));
        }
        let dcs: Vec<Value> = (0..r.usize(1, 3)).map(|_| r.pick(&dspecs).clone()).collect();
        let other = r.chance(1.0 / 6.0).then(|| Other {
            tz: r.pick(&["Asia/Tokyo", "America/New_York", "Pacific/Kiritimati", "UTC", ":/nonexistent", "XYZ+11:30"]).to_string(),
            clock: r.range(-2_000_000_000, 7_000_000_000),
            entropy: r.u64() >> 12,
            reversed: r.chance(0.7),
        });
        // a pool of dates, so that the same questions come up again and again and close variants
        // (same day of another year or month) sit next to each other
        let mut pool: Vec<i64> = (0..r.usize(3, 12)).map(|_| some_date(r)).collect();
        for _ in 0..pool.len() {
            let x = from_ord(*r.pick(&pool));
            let y = (x.year() + *r.pick(&[1, -1, 4, 7, -10, 28, 100, -100])).clamp(1903, 2196);
            if let Some(z) = NaiveDate::from_ymd_opt(y, x.month(), x.day()) {
                pool.push(ord(z));
            }
        }
        // day counts differ around month ends
        let edge = |r: &mut Prng, x: i64| {
            let d = from_ord(x);
            match r.below(10) {
                0..=2 => ord(NaiveDate::from_ymd_opt(d.year(), d.month(), 1).unwrap()) + r.range(-3, 0),
                3 => ord(NaiveDate::from_ymd_opt(d.year(), 3, 1).unwrap()) + r.range(-3, 0),
                _ => x,
            }
        };
        let n = r.usize(60, 200);
        let nc = cals.len() + joints.len();
        let mut events: Vec<Value> = vec![];
        for _ in 0..n {
            let inst = *r.pick(&[0u8, 0, 0, 1, 2]);
            let cal = r.usize(0, nc - 1);
            let dc = r.usize(0, dcs.len() - 1);
            let date = if r.chance(0.8) { *r.pick(&pool) } else { some_date(r) };
            let other_date = if r.chance(0.4) { *r.pick(&pool) } else { date + r.range(-900, 900) };
            let near = date + r.range(-400, 400);
            let bdc = r.usize(0, 6);
            let flag = |r: &mut Prng| *r.pick(&[None, Some(true), Some(false)]);
            let e = match r.weighted(&[1.0, 0.5, 1.0, 0.5, 6.0, 1.5, 5.0, 6.0, 3.0, 3.0, 4.0, 1.5, 1.5]) {
                0 => Ev::Clock { secs: r.range(-2_200_000_000, 7_200_000_000) },
                1 => Ev::Entropy { seed: r.u64() >> 12 },
                2 => Ev::Store { cal },
                3 => Ev::StoreDc { dc },
                4 => Ev::Verdict { inst, cal, date },
                5 => Ev::MonthEnd { inst, cal, date },
                6 => Ev::Adjust { inst, cal, date, bdc },
                7 => {
                    let period = match r.below(9) {
                        0..=2 => Period::Days(r.range(-25, 25)),
                        3 => Period::Weeks(r.range(-60, 60)),
                        4 | 5 => Period::Months(r.range(0, 27) as u32),
                        6 => Period::Years(r.range(0, 2) as u32),
                        _ => *r.pick(&[Period::ON, Period::TN, Period::SN, Period::SPOT]),
                    };
                    Ev::Advance { inst, cal, date, period, bdc, eom: flag(r) }
                }
                8 => Ev::Between { inst, cal, from: date, to: near, first: flag(r), last: flag(r) },
                9 => Ev::Count { inst, dc, from: edge(r, date), to: edge(r, other_date.clamp(first() + 400, last() - 400)) },
                10 => {
                    let to = if r.chance(0.5) { near } else { other_date.clamp(first() + 400, last() - 400) };
                    Ev::Fraction { inst, dc, from: edge(r, date), to: edge(r, to) }
                }
                11 => Ev::DateAt { inst, dc, from: date, t: r.dec(0.0, 2.0, 4) },
                _ => {
                    // moderate, about as far as dates reach, and about as far as the types reach
                    let n = match r.below(5) {
                        0..=2 => r.range(-2000, 2000),
                        3 => *r.pick(&[1i64, -1]) * r.range(1, 120_000_000),
                        _ => *r.pick(&[i64::MAX, i64::MIN, i64::MAX / 7, i64::MIN / 7 - 1, 106_751_991_167, u32::MAX as i64, u32::MAX as i64 / 12 + 1]),
                    };
                    let u = n.unsigned_abs().min(u32::MAX as u64) as u32;
                    let period = match r.below(5) {
                        0 => Period::Days(n),
                        1 => Period::Weeks(n),
                        2 => Period::Months(u),
                        3 => Period::Years(u),
                        _ => *r.pick(&[Period::ON, Period::TN, Period::SN, Period::SPOT]),
                    };
                    Ev::Shift { date, period, back: r.chance(0.4) }
                }
            };
            events.push(serde_json::to_value(e).unwrap());
        }
        // Business/252 over centuries is slow; its far questions are kept short
        for e in events.iter_mut() {
            if let Some(k) = e["dc"].as_u64() {
                if dcs[k as usize]["type"] == "Business252" && e["to"].is_i64() {
                    let (a, b) = (e["from"].as_i64().unwrap(), e["to"].as_i64().unwrap());
                    e["to"] = json!(a + (b - a).clamp(-1200, 1200));
                }
            }
        }
        Plan { scenario: "history".into(), cfg: serde_json::to_value(Cfg { cals, joints, dcs, other }).unwrap(), events }
    }

    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let nc = cfg.cals.len();
        let mut refs = vec![];
        for s in &cfg.cals {
            refs.push(Ref { parts: vec![table(s)?], joint: false });
        }
        for j in &cfg.joints {
            let mut parts = vec![];
            for k in j {
                parts.push(table(&cfg.cals[*k])?);
            }
            refs.push(Ref { parts, joint: true });
        }
        let make = |k: usize| -> Box<dyn Calendar> {
            if k < nc {
                catalog::fresh_cal(&cfg.cals[k])
            } else {
                Box::new(JointCalendar::new(cfg.joints[k - nc].iter().map(|i| catalog::fresh_cal(&cfg.cals[*i])).collect()))
            }
        };
        let name = |k: usize| -> String {
            if k < nc { cfg.cals[k].to_string() } else { format!("joint {}", json!(cfg.joints[k - nc].iter().map(|i| &cfg.cals[*i]).collect::<Vec<_>>())) }
        };
        let store = |c: &dyn Calendar, k: usize| -> Result<Box<dyn Calendar>, Violation> {
            let s = no_panic("storing a calendar", || serde_json::to_string(c))?.map_err(|e| Violation { class: "storage".into(), msg: format!("{} cannot be stored: {e}", name(k)) })?;
            no_panic("restoring a calendar", || serde_json::from_str(&s))?.map_err(|e| Violation { class: "storage".into(), msg: format!("{} stored as {s} cannot be restored: {e}", name(k)) })
        };
        let store_dc = |c: &dyn DayCounters| -> Result<Box<dyn DayCounters>, Violation> {
            let s = no_panic("storing a day counter", || serde_json::to_string(c))?.map_err(|e| Violation { class: "storage".into(), msg: format!("day counter cannot be stored: {e}") })?;
            no_panic("restoring a day counter", || serde_json::from_str(&s))?.map_err(|e| Violation { class: "storage".into(), msg: format!("day counter stored as {s} cannot be restored: {e}") })
        };
        let mut live: Vec<Box<dyn Calendar>> = (0..nc + cfg.joints.len()).map(&make).collect();
        let mut dcs: Vec<Box<dyn DayCounters>> = cfg.dcs.iter().map(catalog::fresh_dc).collect();
        let mut transcript: Vec<(Ev, String)> = vec![];
        let mut insts = std::collections::BTreeSet::new();
        for e in &plan.events {
            let e: Ev = serde_json::from_value(e.clone()).unwrap();
            match &e {
                Ev::Clock { secs } => {
                    seams::set_clock(*secs);
                    ctx.count("fault.clock_jump");
                    continue;
                }
                Ev::Entropy { seed } => {
                    seams::set_entropy(*seed);
                    ctx.count("fault.entropy_change");
                    continue;
                }
                Ev::Store { cal } => {
                    live[*cal] = store(&*live[*cal], *cal)?;
                    ctx.count("fault.instance_replaced_from_storage");
                    continue;
                }
                Ev::Shift { date, period, back } => {
                    let x = from_ord(*date);
                    let got = no_panic(&format!("{x} moved by {period:?}"), || if *back { x - *period } else { x + *period })?;
                    let want = shifted(x, *period, *back);
                    ensure!(got.as_ref().ok() == want.as_ref(), "period", "{x} moved {} by {period:?} is {:?}, expected {want:?}", if *back { "back" } else { "on" }, got.map_err(|e| e.to_string()));
                    ctx.count(if want.is_some() { "probe.date_moved" } else { "probe.date_out_of_range_refused" });
                    continue;
                }
                Ev::StoreDc { dc } => {
                    dcs[*dc] = store_dc(&*dcs[*dc])?;
                    ctx.count("fault.instance_replaced_from_storage");
                    continue;
                }
                _ => {}
            }
            if let Some((inst, k)) = dc_of(&e) {
                insts.insert((1, k, inst));
                let a = match inst {
                    0 => ask_dc(&*dcs[k], &e),
                    1 => ask_dc(&*catalog::fresh_dc(&cfg.dcs[k]), &e),
                    _ => ask_dc(&*store_dc(&*catalog::fresh_dc(&cfg.dcs[k]))?, &e),
                };
                ctx.count(&format!("op.day_count.{}", ["long_lived", "fresh", "restored"][inst as usize]));
                ctx.state(&format!("{} {inst} {}", cfg.dcs[k], serde_json::to_value(&e).unwrap()["op"]));
                ctx.ev(&a);
                ensure!(!a.starts_with("panic"), "panic", "{} asked {}: {a}", cfg.dcs[k], serde_json::to_string(&e).unwrap());
                // the same question to a new instance, right now
                let b = ask_dc(&*catalog::fresh_dc(&cfg.dcs[k]), &e);
                ensure!(a == b, "day_count_history", "{} asked {}: answered {a}, a fresh instance answers {b}", cfg.dcs[k], serde_json::to_string(&e).unwrap());
                if cfg.dcs[k]["type"] == "Business252" {
                    let rf = Ref { parts: vec![table(&cfg.dcs[k]["calendar"])?], joint: false };
                    let want = match &e {
                        Ev::Count { from, to, .. } => Some(format!("{:?}", Some(rf.between(from_ord(*from), from_ord(*to), true, false)))),
                        Ev::Fraction { from, to, .. } => Some(format!("{:?}", Some((rf.between(from_ord(*from), from_ord(*to), true, false) as f64 / 252.0).to_bits()))),
                        _ => None,
                    };
                    ensure!(want.as_ref().is_none_or(|w| *w == a), "business252", "{} asked {}: answered {a}, the calendar's business days say {}", cfg.dcs[k], serde_json::to_string(&e).unwrap(), want.unwrap());
                }
                if let Ev::Count { from, to, .. } | Ev::Fraction { from, to, .. } = &e {
                    if let Some((n, t)) = dcref::reference(&cfg.dcs[k], from_ord(*from), from_ord(*to)) {
                        let (x, y) = (from_ord(*from), from_ord(*to));
                        let d = catalog::fresh_dc(&cfg.dcs[k]);
                        let got = no_panic(&format!("{} {x}..{y}", cfg.dcs[k]), || (d.day_count(x, y), d.year_fraction(x, y)))?;
                        ensure!(
                            matches!(&got, (Ok(a), Ok(b)) if *a == n && close(*b, t, 1e-12)),
                            "convention",
                            "{} from {x} to {y}: {:?} days and {:?} years, the convention says {n} and {t}",
                            cfg.dcs[k],
                            got.0.as_ref().map_err(|e| e.to_string()),
                            got.1.as_ref().map_err(|e| e.to_string())
                        );
                        ctx.count("probe.convention");
                    }
                }
                if let Ev::DateAt { from, t, .. } = &e {
                    // within a few days of the time asked for, by the convention's own measure
                    let x = from_ord(*from);
                    let y = no_panic("year_fraction_to_date", || catalog::fresh_dc(&cfg.dcs[k]).year_fraction_to_date(x, *t))?;
                    if let Some((_, s)) = y.as_ref().ok().and_then(|y| dcref::reference(&cfg.dcs[k], x, *y)) {
                        ensure!((s - t).abs() <= 5.0 / 360.0, "convention", "{} puts {t} years from {x} at {y:?}, which is {s} years away", cfg.dcs[k]);
                        ctx.count("probe.date_at");
                    }
                }
                // the same question asked earlier in this history
                let q = |e: &Ev| {
                    let mut v = serde_json::to_value(e).unwrap();
                    v["inst"] = json!(0);
                    v["dc"] = cfg.dcs[dc_of(e).unwrap().1].clone();
                    v
                };
                let qe = q(&e);
                if let Some((_, old)) = transcript.iter().find(|(o, _)| q(o) == qe) {
                    ctx.count("probe.repeated_day_count");
                    ensure!(*old == a, "day_count_history", "{qe}: answered {old} at first and {a} later");
                }
                transcript.push((e, a));
                continue;
            }
            let (inst, k) = match &e {
                Ev::Verdict { inst, cal, .. } | Ev::MonthEnd { inst, cal, .. } | Ev::Adjust { inst, cal, .. } | Ev::Advance { inst, cal, .. } | Ev::Between { inst, cal, .. } => (*inst, *cal),
                _ => unreachable!(),
            };
            insts.insert((0, k, inst));
            let tmp;
            let c: &dyn Calendar = match inst {
                0 => &*live[k],
                1 => {
                    tmp = make(k);
                    &*tmp
                }
                _ => {
                    tmp = store(&*make(k), k)?;
                    &*tmp
                }
            };
            ctx.count(&format!("op.calendar.{}", ["long_lived", "fresh", "restored"][inst as usize]));
            let rf = &refs[k];
            let who = || format!("{} ({})", name(k), ["long-lived", "fresh", "restored"][inst as usize]);
            ctx.state(&format!("{} {inst} {}", name(k), serde_json::to_value(&e).unwrap()["op"]));
            match e {
                Ev::Verdict { date, .. } => {
                    let x = from_ord(date);
                    let got = no_panic(&format!("{} verdict on {x}", who()), || (c.is_business_day(x), c.is_holiday(x), c.is_weekend(x)))?;
                    let want = (rf.bd(x), !rf.bd(x), rf.weekend(x));
                    ctx.ev(&format!("{got:?}"));
                    ensure!(got == want, "verdict", "{} on {x}: (business day, holiday, weekend) = {got:?}, in a process of its own {want:?}", who());
                }
                Ev::MonthEnd { date, .. } => {
                    let x = from_ord(date);
                    let got = no_panic(&format!("{} month end of {x}", who()), || (c.last_day_of_month(x), c.end_of_month(x)))?;
                    let last = (0..=31).map(|i| add(x, i)).take_while(|y| y.month() == x.month()).last().unwrap();
                    let want = (last, rf.eom(x));
                    ctx.ev(&format!("{got:?}"));
                    ensure!(got == want, "month_end", "{} on {x}: (last day, last business day) of the month = {got:?}, expected {want:?}", who());
                }
                Ev::Adjust { date, bdc, .. } => {
                    let (x, b) = (from_ord(date), CONVENTIONS[bdc]);
                    let got = no_panic(&format!("{} adjust {x} {b:?}", who()), || c.adjust(x, b))?;
                    let want = rf.adjust(x, b);
                    ctx.ev(&format!("{got:?}"));
                    let ok = got == Some(want) || b == B::Nearest && rf.tie(x) && got == Some(rf.step(x, 1));
                    ensure!(ok, "adjust", "{} adjusts {x} ({b:?}) to {got:?}, its business days say {want}", who());
                }
                Ev::Advance { date, period, bdc, eom, .. } => {
                    let (x, b) = (from_ord(date), CONVENTIONS[bdc]);
                    let got = no_panic(&format!("{} advance {x} by {period:?} {b:?}", who()), || c.advance(x, period, b, eom))?;
                    let want = rf.advance(x, period, b, eom.unwrap_or(false));
                    ctx.ev(&format!("{got:?}"));
                    let mut ok = matches!(&got, Ok(Some(y)) if *y == want);
                    if !ok && b == B::Nearest {
                        // a tie may go either way
                        let raw = match period {
                            Period::Days(n) => (n == 0).then_some(x),
                            p => (x + p).ok(),
                        };
                        if let Some(raw) = raw.filter(|z| rf.tie(*z)) {
                            let f = rf.step(raw, 1);
                            let alt = if eom == Some(true) && matches!(period, Period::Months(_) | Period::Years(_)) { rf.eom(f) } else { f };
                            ok = matches!(&got, Ok(Some(y)) if *y == alt);
                        }
                    }
                    ensure!(ok, "advance", "{} advances {x} by {period:?} ({b:?}, end of month {eom:?}) to {:?}, its business days say {want}", who(), got.map_err(|e| e.to_string()));
                }
                Ev::Between { from, to, first, last, .. } => {
                    let (x, y) = (from_ord(from), from_ord(to));
                    let got = no_panic(&format!("{} business days {x}..{y}", who()), || c.business_days_between(x, y, first, last))?;
                    let want = rf.between(x, y, first.unwrap_or(true), last.unwrap_or(false));
                    ctx.ev(&format!("{got:?}"));
                    ensure!(got == want, "count", "{} counts {got} business days between {x} and {y} (first {first:?}, last {last:?}), its business days say {want}", who());
                }
                _ => unreachable!(),
            }
        }
        // the same day-count questions in another process
        if let (Some(o), false) = (&cfg.other, transcript.is_empty()) {
            let f = std::env::temp_dir().join(format!("fqsim-c14-{}.json", std::process::id()));
            std::fs::write(&f, serde_json::to_string(plan).unwrap()).unwrap();
            let out = child(&["c14-dc", f.to_str().unwrap()], &o.tz).output().expect("harness: c14-dc");
            std::fs::remove_file(&f).ok();
            assert!(out.status.success(), "harness: c14-dc: {:?}", out.status);
            let there: Vec<String> = serde_json::from_slice(&out.stdout).unwrap();
            ctx.count("fault.second_process_other_environment");
            for ((e, here), there) in transcript.iter().zip(&there) {
                ensure!(here == there, "day_count_environment", "{} asked {}: {here} here, {there} in a process with TZ={} clock={} entropy={} order reversed={}", cfg.dcs[dc_of(e).unwrap().1], serde_json::to_string(e).unwrap(), o.tz, o.clock, o.entropy, o.reversed);
            }
        }
        if insts.iter().any(|(t, k, i)| insts.iter().any(|(t2, k2, j)| (t, k) == (t2, k2) && i != j)) {
            ctx.nontrivial = true;
        }
        Ok(())
    }

    fn simplify(&self, plan: &Plan) -> Vec<Plan> {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let mut v = vec![];
        if cfg.other.is_some() {
            let mut p = plan.clone();
            p.cfg["other"] = Value::Null;
            v.push(p);
        }
        for (i, e) in plan.events.iter().enumerate() {
            for inst in [0, 1] {
                if e["inst"].as_u64().is_some_and(|x| x > inst) {
                    let mut p = plan.clone();
                    p.events[i]["inst"] = json!(inst);
                    v.push(p);
                }
            }
        }
        v
    }
}
