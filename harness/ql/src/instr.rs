//! What instruments answer about themselves.
use crate::cal::*;
use crate::matching::stored_instrument;
use crate::util::*;
use quantlib::currency::{Currency, FxCode};
use quantlib::enums::{CreditRating, IssuerType, OptionDailySettlementType, OptionExerciseType, OptionType, RankType};
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::schedule::{BaseSchedule, Schedule};
use quantlib::instruments::{bond::Bond, cash::Cash, futures::Futures, fx_futures::FxFutures, plain_swap::PlainSwap, stock::Stock, vanilla_option::VanillaOption};
use quantlib::parameters::rate_index::RateIndex;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use serde_json::{json, Value};
use time::OffsetDateTime;

const E0: i64 = 19724; // 2024-01-02
fn day(x: &str) -> Option<OffsetDateTime> {
    x.strip_prefix('d').map(|k| dt(E0 + k.parse::<i64>().expect("harness: day"), 57600, 540))
}
fn told(d: &OffsetDateTime) -> String {
    let (n, s, o) = parts(d);
    if (s, o) == (57600, 540) { format!("d{}", n - E0) } else { d.to_string() }
}
fn num(x: &Value, k: &str) -> f32 {
    s(x, k).parse().expect("harness: number")
}
fn named<T: serde::de::DeserializeOwned>(x: &str) -> T {
    serde_json::from_value(json!(x)).unwrap_or_else(|_| panic!("harness: {x}"))
}
fn make(x: &Value) -> Instrument {
    let code = s(x, "code").to_string();
    let (name, und, u) = (format!("name of {code}"), s(x, "s").to_string(), num(x, "unit"));
    let (c, c2) = (Currency::from(s(x, "ccy")), Currency::from(s(x, "und")));
    let (m, is, pd) = (day(s(x, "m")).unwrap(), day(s(x, "i")).unwrap(), day(s(x, "p")));
    let other = |k: i64| dt(E0 + 1000 + k, 0, 0);
    let index = || RateIndex::new("3M".into(), c, "some index".into(), s(x, "ix").into()).expect("index");
    let fr = match s(x, "f") { "3M" => PaymentFrequency::Quarterly, "1Y" => PaymentFrequency::Annually, _ => PaymentFrequency::Monthly };
    let n: i64 = s(x, "nb").parse().unwrap();
    let settle: OptionDailySettlementType = named(s(x, "settle"));
    let (mf, dc, cal) = (BusinessDayConvention::Following, DayCountConvention::Actual365Fixed, joint(&["null".into()]));
    let plain = |pd| Bond::new(IssuerType::Government, CreditRating::None, "n".into(), RankType::Senior, c, 1.0, false, Schedule::new(vec![]), Some(0.03), None, None, None, is, is, pd, m, cal.clone(), dc, mf, fr, 0, 0, "n".into(), "n".into()).expect("harness: bond");
    match s(x, "t") {
        "Futures" => Instrument::Futures(Futures::new(num(x, "price"), other(1), other(2), m, other(3), u, c, c2, und, name, code)),
        "FxFutures" => Instrument::FxFutures(FxFutures::new(num(x, "price"), other(1), other(2), m, other(3), u, c, c2, name, code)),
        t @ ("VanillaCall" | "VanillaPut") => Instrument::VanillaOption(VanillaOption::new(num(x, "strike"), u, is, other(2), m, other(3), vec![und], c2, c,
            if t == "VanillaCall" { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European, settle, name, code)),
        "Stock" => Instrument::Stock(Stock::new(name, code, vec![und], c, None)),
        "Cash" => Instrument::Cash(Cash::new(c, name, code)),
        "KTBF" => Instrument::KTBF(KTBF::new(c, u, is, m, other(3), KtbfVirtualBond::new(3, 0.05, PaymentFrequency::SemiAnnually, 100.0), (0..n).map(|_| plain(Some(m))).collect(), und, name, code).expect("ktbf")),
        t @ ("Fixed" | "Float" | "Strip") => {
            let rows = (0..n).map(|k| BaseSchedule::new(other(k), other(k), other(k + 1), other(k + 1), None)).collect();
            let float = t == "Float";
            Instrument::Bond(Bond::new(named(s(x, "issuer")), named(s(x, "rating")), format!("issuer of {code}"), named(s(x, "rank")), c, u, t == "Strip", Schedule::new(rows),
                (!float).then_some(0.03), None, float.then(index), None, is, other(5), pd, m, cal, dc, mf, fr, 0, 0, name, code).expect("bond"))
        }
        t => {
            let (init, last, legs) = (matches!(t, "CRS" | "FxSwap"), t != "IRS", matches!(t, "IRS" | "CRS"));
            let am = |on: bool, x: f32| on.then_some(x);
            let none = Schedule::new(vec![]);
            // a spot deal is done at most two days before it matures
            let day0 = if t == "FxSpot" { m } else { is };
            Instrument::PlainSwap(PlainSwap::new(none.clone(), none, am(legs, 0.03), legs.then(index), None, cal, u, day0, other(5), m, c, c2,
                am(init, 1300.0), am(init, 1.0), am(last, 1300.0), am(last, 1.0), dc, dc, mf, mf, fr, fr, 0, 0, name, code).expect("swap"))
        }
    }
}
fn or<T: std::fmt::Display>(r: anyhow::Result<T>) -> String {
    r.map_or("refused".into(), |x| x.to_string())
}
fn dbg<T: std::fmt::Debug>(r: anyhow::Result<T>) -> String {
    r.map_or("refused".into(), |x| format!("{x:?}"))
}
fn joined<T: std::fmt::Display>(v: Vec<T>) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn answer(x: &Instrument, a: &str) -> String {
    let p = dt(E0, 0, 540);
    match a {
        "code" => x.get_code().clone(),
        "name" => x.get_name().clone(),
        "ccy" => x.get_currency().to_string(),
        "type" => x.get_type_name().into(),
        "unit" => x.get_unit_notional().to_string(),
        "price" => x.get_average_trade_price().to_string(),
        "maturity" => x.get_maturity().map_or("none".into(), told),
        "und" => joined(x.get_underlying_codes()),
        "volcodes" => joined(x.get_underlying_codes_requiring_volatility()),
        "quanto" => joined(x.get_quanto_fxcode_und_pair().into_iter().map(|(u, f)| format!("{u}:{f}")).collect()),
        "fxcodes" => joined(x.get_all_fxcodes_for_pricing()),
        "tags" => joined(x.get_bond_futures_borrowing_curve_tags()),
        "rating" => dbg(x.get_credit_rating()),
        "issuertype" => dbg(x.get_issuer_type()),
        "rank" => dbg(x.get_rank_type()),
        "issuer" => or(x.get_issuer_name()),
        "index" => or(x.get_rate_index().map(|i| i.map_or("none".to_string(), |i| i.get_code().clone()))),
        "pricing" => or(x.get_pricing_date().map(|d| d.map_or("none".to_string(), told))),
        "strip" => or(x.is_coupon_strip()),
        "bonds" => or(x.get_underlying_bonds().map(|b| b.len())),
        "freq" => or(x.get_coupon_frequency()),
        "calendar" => or(x.get_calendar().map(|c| c.calendars().len())),
        "issue" => or(x.get_issue_date().map(told)),
        "schedule" => or(x.get_schedule().map(|s| s.iter().count())),
        "virtual" => or(x.get_virtual_bond_npv(0.05).map(|v| v.round())),
        "flows" => or(x.get_cashflows(&p, None, None).map(|_| "answers")),
        "fixedflows" => or(x.get_fixed_cashflows(&p).map(|_| "answers")),
        "floatflows" => or(x.get_floating_cashflows(&p, None, None).map(|_| "answers")),
        "fixccy" => or(x.get_fixed_leg_currency()),
        "floatccy" => or(x.get_floating_leg_currency()),
        "undccy" => or(x.get_underlying_currency()),
        "strike" => or(x.get_strike()),
        "option" => dbg(x.get_option_type()),
        "settle" => dbg(x.get_option_daily_settlement_type()),
        "futfx" => or(x.get_fxfutres_und_fxcode()),
        "swapfx" => or(x.get_floating_to_fixed_fxcode().map(|f: Option<&FxCode>| f.map_or("none".to_string(), |f| f.to_string()))),
        "swaptype" => dbg(x.get_specific_plain_swap_type()),
        a => panic!("harness: {a}"),
    }
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let x = match guard(|| stored_instrument(make(&v["x"]))) {
        Ok(x) => x,
        Err(e) => return Err(json!({"what": "an instrument is made", "observed": e})),
    };
    for (a, want) in v["want"].as_object().unwrap() {
        let got = guard(|| answer(&x, a));
        if want != "open" && got.as_deref() != Ok(want.as_str().unwrap()) {
            return Err(json!({"what": a, "expected": want, "observed": format!("{got:?}")}));
        }
    }
    Ok(())
}
