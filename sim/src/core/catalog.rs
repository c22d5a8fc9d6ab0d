//! Every shipped calendar and day counter, addressed by a JSON spec (the library's own tagged
//! serde form), so that plans can name them.
use super::faults::{SimCalendar, SimDayCounter, SimYearFraction};
use finquant::time::calendars::*;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::daycounters::thirty365::Thirty365;
use serde_json::{Value, json};

pub fn calendar_specs() -> Vec<Value> {
    let mut v = vec![];
    for n in [
        "Argentina", "Botswana", "Chile", "China", "CzechRepublic", "Denmark", "Finland", "HongKong", "Hungary", "Iceland", "India",
        "Indonesia", "Japan", "Mexico", "Norway", "Romania", "Singapore", "Slovakia", "SouthAfrica", "SouthKorea", "Sweden",
        "Switzerland", "Taiwan", "Target", "Thailand", "Turkey", "Ukraine", "WeekendsOnly",
    ] {
        v.push(json!({"type": n}));
    }
    for (n, ms) in [
        ("Australia", vec!["Settlement", "ASX"]),
        ("Austria", vec!["Settlement", "Exchange"]),
        ("Brazil", vec!["Settlement", "Exchange"]),
        ("Canada", vec!["Settlement", "TSX"]),
        ("France", vec!["Settlement", "Exchange"]),
        ("Germany", vec!["Settlement", "FrankfurtStockExchange", "Xetra", "Eurex", "Euwax"]),
        ("Israel", vec!["TelAviv", "Shir"]),
        ("Italy", vec!["Settlement", "Exchange"]),
        ("NewZealand", vec!["Wellington", "Auckland"]),
        ("Poland", vec!["Settlement", "WSE"]),
        ("Russia", vec!["Settlement", "Exchange"]),
        ("UnitedKingdom", vec!["Settlement", "Exchange", "Metals"]),
        ("UnitedStates", vec!["Settlement", "Libor", "NYSE", "GovernmentBond", "SOFR", "NERC", "FederalReserve"]),
    ] {
        v.push(json!({"type": n, "market": null}));
        for m in ms {
            v.push(json!({"type": n, "market": m}));
        }
    }
    v
}

pub fn day_counter_specs() -> Vec<Value> {
    let mut v = vec![
        json!({"type": "Actual360"}),
        json!({"type": "Actual364"}),
        json!({"type": "Actual366"}),
        json!({"type": "Thirty365"}),
        json!({"type": "Actual365Fixed", "market": null}),
        json!({"type": "Actual365Fixed", "market": "Standard"}),
        json!({"type": "Actual365Fixed", "market": "NoLeap"}),
        json!({"type": "ActualActual", "market": null}),
        json!({"type": "ActualActual", "market": "Isda"}),
        json!({"type": "ActualActual", "market": "Euro"}),
        json!({"type": "Business252", "calendar": {"type": "Brazil", "market": null}}),
        json!({"type": "Business252", "calendar": {"type": "Target"}}),
    ];
    for m in ["USA", "European", "Italian", "ISMA", "NASD"] {
        v.push(json!({"type": "Thirty360", "market": m}));
    }
    v
}

fn stored_cal(spec: &Value) -> Box<dyn Calendar> {
    serde_json::from_value(spec.clone()).unwrap_or_else(|e| panic!("harness: calendar {spec}: {e}"))
}
fn stored_dc(spec: &Value) -> Box<dyn DayCounters> {
    serde_json::from_value(spec.clone()).unwrap_or_else(|e| panic!("harness: day counter {spec}: {e}"))
}
fn shipped(name: &str) -> bool {
    static N: std::sync::OnceLock<std::collections::BTreeSet<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| calendar_specs().iter().map(|s| s["type"].as_str().unwrap().to_string()).collect()).contains(name)
}
/// An instance for a spec, shipped or simulated.
pub fn cal(spec: &Value) -> Box<dyn Calendar> {
    match spec["type"].as_str().unwrap() {
        "SimCalendar" => Box::new(SimCalendar { inner: cal(&spec["inner"]) }),
        "JointCalendar" => Box::new(JointCalendar::new(spec["calendars"].as_array().unwrap().iter().map(cal).collect())),
        t if shipped(t) => fresh_cal(spec),
        _ => stored_cal(spec),
    }
}
pub fn dc(spec: &Value) -> Box<dyn DayCounters> {
    match spec["type"].as_str().unwrap() {
        "SimDayCounter" => Box::new(SimDayCounter { inner: dc(&spec["inner"]) }),
        "SimYearFraction" => Box::new(SimYearFraction { inner: dc(&spec["inner"]) }),
        _ => fresh_dc(spec),
    }
}
pub fn sim_cal(spec: &Value) -> Value {
    json!({"type": "SimCalendar", "inner": spec})
}
pub fn sim_dc(spec: &Value) -> Value {
    json!({"type": "SimDayCounter", "inner": spec})
}

// ------------------------------------------------------------------ constructors

/// A new instance, built the way a Rust caller builds it (no serialisation involved).
pub fn fresh_cal(spec: &Value) -> Box<dyn Calendar> {
    macro_rules! unit { ($($n:ident),*) => { match spec["type"].as_str().unwrap() { $(stringify!($n) => return Box::new($n::default()),)* _ => {} } } }
    unit!(
        Argentina, Botswana, Chile, China, CzechRepublic, Denmark, Finland, HongKong, Hungary, Iceland, India, Indonesia, Japan, Mexico,
        Norway, Romania, Singapore, Slovakia, SouthAfrica, SouthKorea, Sweden, Switzerland, Taiwan, Target, Thailand, Turkey, Ukraine,
        WeekendsOnly
    );
    macro_rules! mk {
        ($($c:ident, $m:path, [$($v:ident),*];)*) => {
            match spec["type"].as_str().unwrap() {
                $(stringify!($c) => {
                    use $m as M;
                    let market = match spec["market"].as_str() {
                        None => None,
                        $(Some(stringify!($v)) => Some(M::$v),)*
                        _ => panic!("harness: {spec}"),
                    };
                    return Box::new($c { market });
                })*
                _ => {}
            }
        };
    }
    mk! {
        Australia, australia::AustraliaMarket, [Settlement, ASX];
        Austria, austria::AustriaMarket, [Settlement, Exchange];
        Brazil, brazil::BrazilMarket, [Settlement, Exchange];
        Canada, canada::CanadaMarket, [Settlement, TSX];
        France, france::FranceMarket, [Settlement, Exchange];
        Germany, germany::GermanyMarket, [Settlement, FrankfurtStockExchange, Xetra, Eurex, Euwax];
        Israel, israel::IsraelMarket, [TelAviv, Shir];
        Italy, italy::ItalyMarket, [Settlement, Exchange];
        NewZealand, newzealand::NewZealandMarket, [Wellington, Auckland];
        Poland, poland::PolandMarket, [Settlement, WSE];
        Russia, russia::RussiaMarket, [Settlement, Exchange];
        UnitedKingdom, unitedkingdom::UnitedKingdomMarket, [Settlement, Exchange, Metals];
        UnitedStates, unitedstates::UnitedStatesMarket, [Settlement, Libor, NYSE, GovernmentBond, SOFR, NERC, FederalReserve];
    }
    panic!("harness: no constructor for {spec}")
}
pub fn fresh_dc(spec: &Value) -> Box<dyn DayCounters> {
    match (spec["type"].as_str().unwrap(), spec["market"].as_str()) {
        ("Actual360", _) => Box::new(Actual360),
        ("Actual364", _) => Box::new(Actual364),
        ("Actual366", _) => Box::new(Actual366),
        ("Thirty365", _) => Box::new(Thirty365),
        ("Actual365Fixed", None) => Box::new(Actual365Fixed::default()),
        ("ActualActual", None) => Box::new(ActualActual::default()),
        ("ActualActual", Some("Isda")) => Box::new(ActualActual { market: Some(ActualActualMarket::Isda) }),
        ("ActualActual", Some("Euro")) => Box::new(ActualActual { market: Some(ActualActualMarket::Euro) }),
        ("Thirty360", Some(m)) => Box::new(Thirty360::new(match m {
            "USA" => Thirty360Market::USA,
            "European" => Thirty360Market::European,
            "Italian" => Thirty360Market::Italian,
            "ISMA" => Thirty360Market::ISMA,
            "NASD" => Thirty360Market::NASD,
            _ => panic!("harness: {spec}"),
        })),
        ("Thirty360", None) if spec["market"].is_object() => {
            let (k, d) = spec["market"].as_object().unwrap().iter().next().unwrap();
            let d = d.as_str().unwrap().parse().unwrap();
            Box::new(Thirty360::new(if k == "ISDA" { Thirty360Market::ISDA(d) } else { Thirty360Market::German(d) }))
        }
        // private fields: only storage builds these
        _ => stored_dc(spec),
    }
}
