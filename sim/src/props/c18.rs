//! C18: the FX volatility surface behind a faulting quote feed.
use crate::core::engine::*;
use crate::core::prng::Prng;
use crate::core::seams;
use crate::core::util::*;
use crate::ensure;
use chrono::NaiveDate;
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

pub struct C18;

#[derive(Serialize, Deserialize, Clone)]
struct Cfg {
    val: NaiveDate,
    /// a book that replaces the at-the-money quote instead of collecting a second one
    conflate: bool,
}

#[derive(Serialize, Deserialize, Clone)]
#[serde(tag = "op")]
enum Ev {
    /// one quote message for the expiry `day` days after the first valuation date
    /// kind: 0 ATM, 1 call, 2 put, 3 risk reversal, 4 butterfly
    Msg { day: i64, kind: u8, delta: f64, vol: f64, bad: u8, fault: String },
    /// the forward of an expiry
    Fwd { day: i64, f: f64, bad: u8 },
    /// a delta that cannot be read (NaN) or is out of range
    BadDelta { day: i64, kind: u8, delta: f64, nan: bool, vol: f64 },
    /// the desk forgets an expiry
    Drop { day: i64 },
    Roll { days: i64 },
    Clock { days: i64 },
    /// build from the book, pillars and quotes in a seeded order, and ask
    Build { order: u64, dup: bool, asks: Vec<(i64, f64)> },
}

fn spoil(v: f64, bad: u8) -> f64 {
    match bad {
        1 => f64::NAN,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => 0.0,
        5 => -v,
        6 => v * 100.0,
        7 => v / 100.0,
        8 => -0.0,
        9 => f64::MIN_POSITIVE,
        _ => v,
    }
}

/// inverse of the normal distribution function: bisection, then Newton
fn inv(p: f64) -> f64 {
    let (mut lo, mut hi) = (-40.0, 40.0);
    for _ in 0..60 {
        let m = 0.5 * (lo + hi);
        if norm_cdf(m) < p { lo = m } else { hi = m }
    }
    let mut x: f64 = 0.5 * (lo + hi);
    for _ in 0..3 {
        x -= (norm_cdf(x) - p) / norm_pdf(x);
    }
    x
}

struct Smile {
    t: f64,
    f: f64,
    sref: f64,
    /// deltas that differ below the resolution were merged: any of them may stand for the group
    merged: bool,
    /// (ln K/F, K, vol, residual, x)
    pins: Vec<(f64, f64, f64, f64, f64)>,
    abc: (f64, f64, f64),
}
enum Model {
    Bad(String),
    /// too close to call
    Unsure,
    Ok(Smile),
}

fn smile(book: &Book, t: f64) -> Model {
    if t <= 0.0 {
        return Model::Bad("expired".into());
    }
    let f = book.forward;
    if !(f > 0.0 && f.is_finite()) {
        return Model::Bad(format!("forward {f}"));
    }
    let mut merged = false;
    let mut atm = None;
    let mut by: Vec<(f64, [Option<f64>; 4])> = vec![];
    for q in &book.quotes {
        let (k, d, v) = match *q {
            FXVolQuote::Atm(v) => {
                if atm.is_some() {
                    return Model::Bad("two ATM quotes".into());
                }
                atm = Some(v);
                continue;
            }
            FXVolQuote::Call { delta, vol } => (0, delta, vol),
            FXVolQuote::Put { delta, vol } => (1, delta, vol),
            FXVolQuote::RiskReversal { delta, vol } => (2, delta, vol),
            FXVolQuote::Butterfly { delta, vol } => (3, delta, vol),
        };
        if !(d > 0.0 && d < 0.5) {
            return Model::Bad(format!("delta {d}"));
        }
        match by.iter_mut().find(|x| (x.0 - d).abs() < 1e-9) {
            Some(x) => {
                merged |= x.0 != d;
                x.1[k] = Some(v)
            }
            None => {
                let mut a = [None; 4];
                a[k] = Some(v);
                by.push((d, a));
            }
        }
    }
    let Some(atm) = atm else { return Model::Bad("no ATM quote".into()) };
    if by.is_empty() {
        return Model::Bad("no wing".into());
    }
    by.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut wings = vec![];
    for (d, a) in &by {
        match a {
            [Some(c), Some(p), _, _] => wings.push((*d, *c, *p)),
            [_, _, Some(rr), Some(bf)] => wings.push((*d, atm + bf + 0.5 * rr, atm + bf - 0.5 * rr)),
            _ => return Model::Bad(format!("delta {d} is not matched")),
        }
    }
    let good = |v: f64| v.is_finite() && v > 0.0;
    if !good(atm) || wings.iter().any(|w| !good(w.1) || !good(w.2)) {
        return Model::Bad("a volatility that is not a positive number".into());
    }
    let s = t.sqrt();
    // log-moneyness of every quoted strike, in strike order
    let mut lm: Vec<(f64, f64)> = wings.iter().map(|w| (0.5 * w.2 * w.2 * t - inv(1.0 - w.0) * w.2 * s, w.2)).collect();
    lm.push((0.5 * atm * atm * t, atm));
    lm.extend(wings.iter().rev().map(|w| (0.5 * w.1 * w.1 * t - inv(w.0) * w.1 * s, w.1)));
    for w in lm.windows(2) {
        if (w[0].0 - w[1].0).abs() < 1e-7 {
            return Model::Unsure;
        }
    }
    if lm.iter().any(|x| x.0.abs() > 300.0) {
        // strikes at the edge of the number range
        return Model::Unsure;
    }
    if lm.windows(2).any(|w| w[0].0 > w[1].0) {
        return Model::Bad("strikes out of order".into());
    }
    let sref = 1.5 * atm;
    let x: Vec<f64> = lm.iter().map(|l| norm_cdf(-l.0 / (sref * s))).collect();
    let n = lm.len();
    let (i0, i1, i2) = (0, wings.len(), n - 1);
    // quadratic through the three anchors, by divided differences
    let (x0, x1, x2) = (x[i0], x[i1], x[i2]);
    let (y0, y1, y2) = (lm[i0].1, lm[i1].1, lm[i2].1);
    let d01 = (y1 - y0) / (x1 - x0);
    let d12 = (y2 - y1) / (x2 - x1);
    let a = (d12 - d01) / (x2 - x0);
    let b = d01 - a * (x0 + x1);
    let c = y0 - d01 * x0 + a * x0 * x1;
    let pins = (0..n)
        .map(|i| {
            let r = if i == i0 || i == i1 || i == i2 { 0.0 } else { lm[i].1 - ((a * x[i] + b) * x[i] + c) };
            (lm[i].0, f * lm[i].0.exp(), lm[i].1, r, x[i])
        })
        .collect();
    Model::Ok(Smile { t, f, sref, merged, pins, abc: (a, b, c) })
}

impl Smile {
    /// (vol, tolerance)
    fn vol(&self, k: f64) -> (f64, f64) {
        let l = (k / self.f).ln();
        let x = norm_cdf(-l / (self.sref * self.t.sqrt()));
        let (a, b, c) = self.abc;
        let q = (a * x + b) * x + c;
        let p = &self.pins;
        let mut r = 0.0;
        // near the outermost strikes the residual is zero on both sides
        for w in p.windows(2) {
            if l >= w[0].0 && l <= w[1].0 {
                r = w[0].3 + (l - w[0].0) / (w[1].0 - w[0].0) * (w[1].3 - w[0].3);
            }
        }
        let slope = p.windows(2).map(|w| ((w[1].3 - w[0].3) / (w[1].0 - w[0].0)).abs()).fold(0.0, f64::max);
        let cond = a.abs() + b.abs() + c.abs();
        // how far an error of 1e-10 in the abscissae, and rounding, may move the quadratic
        let anchor = |i: usize| &p[i * (p.len() - 1) / 2];
        let mut move_ = (2.0 * a * x + b).abs();
        let mut round = 0.0;
        for i in 0..3 {
            let (u, v, w) = (anchor(i).4, anchor((i + 1) % 3).4, anchor((i + 2) % 3).4);
            let den = ((u - v) * (u - w)).abs();
            move_ += ((x - v) * (x - w)).abs() / den * (2.0 * a * u + b).abs();
            round += anchor(i).2 / den;
        }
        let tol = 1e-10 + 1e-10 * slope + 1e-10 * move_ + 1e-14 * (round + cond);
        (q + r, tol + if self.merged { 1e-9 * (cond + slope + round) * cond.max(1.0) } else { 0.0 })
    }
}

#[derive(Clone, Default)]
struct Book {
    forward: f64,
    quotes: Vec<FXVolQuote>,
}

fn show(books: &BTreeMap<i64, Book>, val: NaiveDate, day0: NaiveDate) -> String {
    format!("valuation {val}, {}", books.iter().map(|(d, b)| format!("{}: F {} {:?}", add(day0, *d), b.forward, b.quotes)).collect::<Vec<_>>().join("; "))
}

fn ask(s: &FXVolSurface, e: NaiveDate, k: f64) -> Result<Result<f64, String>, Violation> {
    no_panic("volatility", || s.volatility(e, k)).map(|r| r.map_err(|e| e.to_string()))
}

impl Property for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn runs(&self, thorough: bool) -> u64 {
        if thorough { 6_000_000 } else { 500_000 }
    }
    fn rule(&self) -> &'static str {
        "a run = one quote book over 1-6 expiries fed by a message stream with injected loss, duplication, reordering, overwriting and corruption (NaN, infinities, zero, sign, percent mix-ups, unreadable deltas), with forward updates, forgotten expiries, date rolls and clock jumps, and surfaces built from it 1-6 times in seeded pillar and quote orders; every build is judged against an executable model of the quoting conventions, every answer against the model smile, and every earlier surface is asked again at the end; non-trivial = a surface was built; distinct by hash of the answers"
    }
    fn components(&self) -> (&'static [&'static str], &'static [&'static str]) {
        (&["FXVolSurface", "FXDeltaVolPillar", "FXVolQuote", "Actual365Fixed", "math::normal"], &["quote feed and book (simulated)"])
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["two different books for one and the same expiry are outside the property", "builds whose quoted strikes are closer than 1e-7 in log-moneyness, or beyond e^300, are only required not to panic"]
    }
    fn generate(&self, r: &mut Prng, _idx: u64, _t: bool) -> Plan {
        let val = add(d(2000, 1, 1), r.range(0, 14000));
        let conflate = r.chance(0.8);
        let hostile = r.chance(0.5);
        let ne = r.usize(1, 6);
        let mut days: Vec<i64> = vec![];
        for _ in 0..ne {
            let x = match r.below(5) {
                0 => r.range(1, 10),
                1 => r.range(7, 120),
                2 => r.range(30, 800),
                3 => r.range(365, 4000),
                _ => 365 * r.range(1, 10),
            };
            if !days.contains(&x) {
                days.push(x);
            }
        }
        if r.chance(0.2) {
            // neighbouring days
            let x = *r.pick(&days) + 1;
            if !days.contains(&x) {
                days.push(x);
            }
        }
        let spot = *r.pick(&[1.1, 0.85, 150.0, 7.2, 1300.0, 0.0067]);
        let mut events: Vec<Ev> = vec![];
        let deltas = [0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.01, 0.49];
        let level = r.dec(0.04, 0.35, 3);
        let msgs = |r: &mut Prng, day: i64, few: bool| -> Vec<Ev> {
            let mut out = vec![];
            let atm = (level + r.dec(-0.02, 0.02, 4)).max(0.01);
            out.push((0u8, 0.0, atm));
            let nd = if few { r.usize(0, 1) } else { *r.pick(&[1usize, 1, 2, 2, 2, 3, 4]) };
            let mut ds = deltas.to_vec();
            r.shuffle(&mut ds);
            if nd <= 2 && r.chance(0.6) {
                ds = vec![0.25, 0.1];
            }
            let slant = r.dec(-0.015, 0.015, 4);
            let wing = r.dec(0.0, 0.02, 4);
            let mut used = ds[..nd].to_vec();
            // a broker's 25.05 delta next to 25 delta is a pillar of its own
            if nd > 0 && r.chance(0.08) {
                used.push(ds[0] + *r.pick(&[1e-7, 1e-6, 1e-5, 1e-4, 0.0005, 0.001, 0.005]));
            }
            for (w, &dl) in used.iter().enumerate() {
                let far = (0.5 - dl) * 2.0;
                let e = if used.len() > nd && (w == 0 || w == nd) { 0.0 } else { 0.0005 };
                let (bf, rr) = (wing * far * far + r.dec(-e, e, 5), 2.0 * slant * far + r.dec(-e, e, 5));
                let (call, put) = (((atm + bf + 0.5 * rr) * 1e6).round() / 1e6, ((atm + bf - 0.5 * rr) * 1e6).round() / 1e6);
                // noise below the resolution of a delta
                let near = |r: &mut Prng| dl + if r.chance(0.1) { 1e-12 } else { 0.0 };
                let both = r.chance(0.15);
                let direct = r.chance(0.5);
                if direct || both {
                    let (a, b) = (near(r), near(r));
                    out.push((1, a, call));
                    out.push((2, b, put));
                }
                if !direct || both {
                    let off = if both { r.dec(-0.01, 0.01, 4) } else { 0.0 };
                    let (a, b) = (near(r), near(r));
                    out.push((3, a, rr + off));
                    out.push((4, b, bf + off));
                }
            }
            out.into_iter().map(|(kind, delta, vol)| Ev::Msg { day, kind, delta, vol, bad: 0, fault: String::new() }).collect()
        };
        for &day in &days {
            events.push(Ev::Fwd { day, f: spot * (1.0 + r.dec(-0.05, 0.05, 4)), bad: 0 });
            let mut m = msgs(r, day, false);
            r.shuffle(&mut m);
            events.extend(m);
        }
        let builds = r.usize(1, 5);
        for b in 0..builds {
            if b > 0 {
                for _ in 0..r.usize(0, 3) {
                    let day = *r.pick(&days);
                    match r.below(7) {
                        0 => events.push(Ev::Fwd { day, f: spot * (1.0 + r.dec(-0.1, 0.1, 4)), bad: 0 }),
                        1 | 2 => {
                            events.push(Ev::Drop { day });
                            if r.chance(0.85) {
                                let few = r.chance(0.1);
                                events.push(Ev::Fwd { day, f: spot * (1.0 + r.dec(-0.05, 0.05, 4)), bad: 0 });
                                events.extend(msgs(r, day, few));
                            }
                        }
                        3 => events.push(Ev::Roll { days: if r.chance(0.8) { r.range(1, 5) } else { r.range(-400, 400) } }),
                        4 => events.push(Ev::Clock { days: r.range(-5000, 5000) }),
                        _ => {
                            let few = r.chance(0.5);
                            let m = msgs(r, day, few);
                            let m = m.into_iter().filter(|_| r.chance(0.5)).collect::<Vec<_>>();
                            events.extend(m);
                        }
                    }
                }
            }
            let mut asks = vec![];
            for _ in 0..r.usize(1, 6) {
                let e = match r.below(5) {
                    0 | 1 => *r.pick(&days),
                    2 => *r.pick(&days) + r.range(-2, 2),
                    3 => r.range(0, 4500),
                    _ => {
                        let (a, b) = (*r.pick(&days), *r.pick(&days));
                        (a + b) / 2
                    }
                };
                let m = match r.below(8) {
                    0 => *r.pick(&[0.0, -1.0, 1e-6, 1e6, 1e-300, 1e300]),
                    1 => 1.0,
                    2 | 3 => r.dec(0.98, 1.02, 5),
                    4..=6 => r.dec(0.7, 1.4, 4),
                    _ => r.dec(0.05, 4.0, 3),
                };
                asks.push((e, m));
            }
            events.push(Ev::Build { order: r.u64() >> 12, dup: r.chance(0.1), asks });
        }
        if hostile {
            // the feed: loss, duplication, reordering, corruption
            let n = r.usize(1, 4);
            for _ in 0..n {
                let at: Vec<usize> = events.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Msg { .. } | Ev::Fwd { .. })).map(|x| x.0).collect();
                if at.is_empty() {
                    break;
                }
                let i = *r.pick(&at);
                match r.below(6) {
                    0 => {
                        if let Ev::Msg { fault, .. } = &mut events[i] {
                            *fault = "lost".into();
                        }
                    }
                    1 => {
                        let mut e = events[i].clone();
                        if let Ev::Msg { fault, .. } = &mut e {
                            *fault = "duplicated".into();
                        }
                        let to = r.usize(i, events.len() - 1);
                        events.insert(to, e);
                    }
                    2 => {
                        let mut e = events.remove(i);
                        if let Ev::Msg { fault, .. } = &mut e {
                            *fault = "late".into();
                        }
                        let to = r.usize(0, events.len());
                        events.insert(to, e);
                    }
                    3 | 4 => match &mut events[i] {
                        Ev::Msg { bad, fault, .. } => {
                            *bad = r.range(1, 9) as u8;
                            *fault = "corrupt".into();
                        }
                        Ev::Fwd { bad, .. } => *bad = r.range(1, 5) as u8,
                        _ => {}
                    },
                    _ => {
                        let day = *r.pick(&days);
                        let nan = r.chance(0.3);
                        let delta = *r.pick(&[0.5, 0.5, 0.0, -0.25, 25.0, 0.75, 1.0, 0.4999999]);
                        // alone, or with its other half
                        let kind = r.range(1, 4) as u8;
                        let vol_of = |k: u8| [level * 1.4, level * 0.7, 0.02, 0.0001][k as usize - 1];
                        if r.chance(0.5) {
                            let kind = [2, 1, 4, 3][kind as usize - 1];
                            events.insert(i, Ev::BadDelta { day, kind, delta, nan, vol: vol_of(kind) });
                        }
                        events.insert(i, Ev::BadDelta { day, kind, delta, nan, vol: vol_of(kind) });
                    }
                }
            }
        }
        Plan { scenario: if hostile { "hostile".into() } else { "clean".into() }, cfg: json!(Cfg { val, conflate }), events: events.into_iter().map(|e| serde_json::to_value(e).unwrap()).collect() }
    }
    fn execute(&self, plan: &Plan, ctx: &mut Ctx) -> Outcome {
        let cfg: Cfg = serde_json::from_value(plan.cfg.clone()).unwrap();
        let day0 = cfg.val;
        let mut val = cfg.val;
        let mut clock = ord(val);
        seams::set_clock((clock - 719_163) * 86_400);
        let mut books: BTreeMap<i64, Book> = BTreeMap::new();
        let mut past: Vec<(FXVolSurface, Vec<(NaiveDate, f64, Result<u64, String>)>)> = vec![];
        for e in &plan.events {
            match serde_json::from_value::<Ev>(e.clone()).unwrap() {
                Ev::Msg { day, kind, delta, vol, bad, fault } => {
                    if !fault.is_empty() {
                        ctx.count(&format!("fault.message_{fault}"));
                    }
                    if fault == "lost" {
                        continue;
                    }
                    let vol = spoil(vol, bad);
                    let b = books.entry(day).or_default();
                    let q = match kind {
                        0 => {
                            if cfg.conflate {
                                b.quotes.retain(|q| !matches!(q, FXVolQuote::Atm(_)));
                            }
                            FXVolQuote::Atm(vol)
                        }
                        1 => FXVolQuote::Call { delta, vol },
                        2 => FXVolQuote::Put { delta, vol },
                        3 => FXVolQuote::RiskReversal { delta, vol },
                        _ => FXVolQuote::Butterfly { delta, vol },
                    };
                    b.quotes.push(q);
                }
                Ev::BadDelta { day, kind, delta, nan, vol } => {
                    ctx.count("fault.delta_unreadable");
                    let delta = if nan { f64::NAN } else { delta };
                    let b = books.entry(day).or_default();
                    b.quotes.push(match kind {
                        1 => FXVolQuote::Call { delta, vol },
                        2 => FXVolQuote::Put { delta, vol },
                        3 => FXVolQuote::RiskReversal { delta, vol },
                        _ => FXVolQuote::Butterfly { delta, vol },
                    });
                }
                Ev::Fwd { day, f, bad } => {
                    if bad > 0 {
                        ctx.count("fault.forward_corrupt");
                    }
                    books.entry(day).or_default().forward = spoil(f, bad);
                }
                Ev::Drop { day } => {
                    books.remove(&day);
                }
                Ev::Roll { days } => {
                    val = add(val, days);
                    ctx.sim_days += days.abs() as f64;
                    ctx.count("fault.date_roll");
                }
                Ev::Clock { days } => {
                    clock += days;
                    seams::set_clock((clock - 719_163) * 86_400);
                    ctx.count("fault.clock_jump");
                }
                Ev::Build { order, dup, asks } => {
                    build(&books, val, day0, order, dup, &asks, ctx, &mut past)?;
                }
            }
        }
        // a surface does not change after it was built
        for (s, seen) in &past {
            for (e, k, was) in seen {
                let now = ask(s, *e, *k)?.map(f64::to_bits);
                ensure!(now == *was, "history", "volatility({e}, {k}) answered {was:?} before other surfaces were built, {now:?} after (valuation {val})");
            }
        }
        ctx.add("probe.asked_again", past.iter().map(|p| p.1.len() as u64).sum());
        Ok(())
    }
}

#[allow(clippy::too_many_arguments)]
fn build(
    books: &BTreeMap<i64, Book>,
    val: NaiveDate,
    day0: NaiveDate,
    order: u64,
    dup: bool,
    asks: &[(i64, f64)],
    ctx: &mut Ctx,
    past: &mut Vec<(FXVolSurface, Vec<(NaiveDate, f64, Result<u64, String>)>)>,
) -> Outcome {
    let mut r = Prng::new(order);
    let pillar = |d: &i64, b: &Book| FXDeltaVolPillar { expiry: add(day0, *d), forward: b.forward, quotes: b.quotes.clone() };
    let sorted: Vec<FXDeltaVolPillar> = books.iter().map(|(d, b)| pillar(d, b)).collect();
    let mut shuffled = sorted.clone();
    if dup && !shuffled.is_empty() {
        let i = r.usize(0, shuffled.len() - 1);
        shuffled.push(shuffled[i].clone());
        ctx.count("fault.pillar_duplicated");
    }
    r.shuffle(&mut shuffled);
    for p in &mut shuffled {
        // messages that overwrite each other keep their order
        let key = |q: &FXVolQuote| match *q {
            FXVolQuote::Atm(_) => (0, 0),
            FXVolQuote::Call { delta, .. } => (1, (delta * 1e8).round() as i64),
            FXVolQuote::Put { delta, .. } => (2, (delta * 1e8).round() as i64),
            FXVolQuote::RiskReversal { delta, .. } => (3, (delta * 1e8).round() as i64),
            FXVolQuote::Butterfly { delta, .. } => (4, (delta * 1e8).round() as i64),
        };
        let mut pos: Vec<(usize, FXVolQuote)> = p.quotes.iter().copied().enumerate().collect();
        r.shuffle(&mut pos);
        let mut out: Vec<(usize, FXVolQuote)> = pos.clone();
        // restore the relative order within one key
        for i in 0..pos.len() {
            let k = key(&pos[i].1);
            let nth = pos[..i].iter().filter(|x| key(&x.1) == k).count();
            let mut same: Vec<(usize, FXVolQuote)> = pos.iter().filter(|x| key(&x.1) == k).copied().collect();
            same.sort_by_key(|x| x.0);
            out[i] = same[nth];
        }
        p.quotes = out.into_iter().map(|x| x.1).collect();
    }
    ctx.count("op.build");
    let a = no_panic("FXVolSurface::new", || FXVolSurface::new(val, sorted.clone()))?;
    let b = no_panic("FXVolSurface::new", || FXVolSurface::new(val, shuffled.clone()))?;
    let mut bad: Option<String> = books.is_empty().then(|| "no pillars".into());
    let mut unsure = false;
    let mut smiles: Vec<(i64, Smile)> = vec![];
    for (d0, bk) in books {
        let t = (ord(add(day0, *d0)) - ord(val)) as f64 / 365.0;
        match smile(bk, t) {
            Model::Bad(w) => bad = bad.or(Some(format!("{}: {w}", add(day0, *d0)))),
            Model::Unsure => unsure = true,
            Model::Ok(s) => smiles.push((*d0, s)),
        }
    }
    ctx.state(&format!("{} {:?} {}", smiles.iter().map(|s| s.1.pins.len().to_string()).collect::<String>(), bad.as_ref().map(|b| b.chars().skip(12).take(10).collect::<String>()), unsure));
    let what = || show(books, val, day0);
    if let Some(why) = &bad {
        ctx.count("probe.invalid_book");
        ensure!(a.is_err(), "accepted", "a book with {why} was accepted: {}", what());
        ensure!(b.is_err(), "accepted", "a book with {why} was accepted in another order: {}", what());
        ctx.ev("rejected");
        return Ok(());
    }
    if unsure {
        ctx.count("probe.too_close");
        return Ok(());
    }
    let a = match a {
        Ok(a) => a,
        Err(e) => return fail("rejected", format!("a good book was rejected ({e}): {}", what())),
    };
    let b = match b {
        Ok(b) => b,
        Err(e) => return fail("rejected", format!("a good book was rejected in another order ({e}): {}", what())),
    };
    ctx.nontrivial = true;
    ctx.count("op.surface");
    let mut seen = vec![];
    // every quote is given back
    for (d0, s) in &smiles {
        let e = add(day0, *d0);
        for (i, p) in s.pins.iter().enumerate() {
            let (_, tol) = s.vol(p.1);
            if tol > 1e-4 {
                ctx.count("probe.ill_conditioned");
                continue;
            }
            for (surf, which) in [(&a, ""), (&b, " (other order)")] {
                let got = ask(surf, e, p.1)?;
                let Ok(v) = got else { return fail("quote", format!("the quoted strike {} at {e} has no volatility ({got:?}){which}: {}", p.1, what())) };
                ensure!((v - p.2).abs() <= tol, "quote", "quote {i} of {e}: {} at strike {} comes back as {v}{which}: {}", p.2, p.1, what());
                ctx.count("probe.quote_returned");
                if which.is_empty() {
                    ctx.obs("quote", v);
                    seen.push((e, p.1, Ok(v.to_bits())));
                }
            }
        }
    }
    let f0 = smiles[0].1.f;
    for (day, m) in asks {
        let e = add(day0, *day);
        let k = m * f0;
        let t = (ord(e) - ord(val)) as f64 / 365.0;
        let ga = ask(&a, e, k)?;
        let gb = ask(&b, e, k)?;
        if !(k > 0.0) || t <= 0.0 {
            ctx.count("probe.invalid_query");
            ensure!(ga.is_err() && gb.is_err(), "query", "volatility({e}, {k}) at {val} is {ga:?} / {gb:?}");
            continue;
        }
        let (Ok(va), Ok(vb)) = (&ga, &gb) else { return fail("query", format!("volatility({e}, {k}) is {ga:?} / {gb:?}: {}", what())) };
        ensure!(va.is_finite() && vb.is_finite(), "query", "volatility({e}, {k}) is {va} / {vb}: {}", what());
        let pos = smiles.partition_point(|s| s.0 < *day);
        let (want, tol) = if pos < smiles.len() && smiles[pos].0 == *day {
            smiles[pos].1.vol(k)
        } else if pos == 0 {
            smiles[0].1.vol(k)
        } else if pos == smiles.len() {
            smiles[pos - 1].1.vol(k)
        } else {
            let (l, h) = (&smiles[pos - 1].1, &smiles[pos].1);
            let ((vl, tl), (vh, th)) = (l.vol(k), h.vol(k));
            let w = (t - l.t) / (h.t - l.t);
            let var = (1.0 - w) * vl * vl * l.t + w * vh * vh * h.t;
            let v = (var / t).sqrt();
            ctx.count("probe.between_expiries");
            (v, (tl * vl.abs() * l.t + th * vh.abs() * h.t) / (t * v.abs()).max(1e-12) + tl + th)
        };
        if tol > 1e-4 {
            ctx.count("probe.ill_conditioned");
            continue;
        }
        ensure!((va - want).abs() <= tol, "smile", "volatility({e}, {k}) is {va}, the quotes give {want} (tolerance {tol:e}): {}", what());
        ensure!((vb - want).abs() <= tol, "order", "volatility({e}, {k}) is {vb} for another order of the same quotes, want {want}: {}", what());
        ctx.obs("vol", *va);
        seen.push((e, k, Ok(va.to_bits())));
    }
    // strikes that are no numbers
    for k in [f64::NAN, f64::NEG_INFINITY] {
        let e = add(day0, smiles[0].0);
        let g = ask(&a, e, k)?;
        ensure!(g.is_err(), "query", "volatility({e}, {k}) is {g:?}");
    }
    // once more from the same book
    let c = no_panic("FXVolSurface::new", || FXVolSurface::new(val, sorted))?;
    let Ok(c) = c else { return fail("history", format!("the same book is rejected the second time: {}", what())) };
    for (e, k, was) in &seen {
        let now = ask(&c, *e, *k)?.map(f64::to_bits);
        ensure!(now == *was, "history", "volatility({e}, {k}) of a second surface from the same book is {now:?}, of the first {was:?}: {}", what());
    }
    past.push((a, seen));
    Ok(())
}
