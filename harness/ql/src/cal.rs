//! Dates and calendars as the specification writes them: day number (day 0 = 1970-01-01), second of the day, offset in minutes.
use crate::util::*;
use quantlib::time::calendar::Calendar;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::calendars::southkorea::{SouthKorea, SouthKoreaType};
use quantlib::time::calendars::unitedstates::{UnitedStates, UnitedStatesType};
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use quantlib::time::jointcalendar::JointCalendar;
use serde_json::{json, Value};
use time::{Date, OffsetDateTime, Time, UtcOffset};

const EPOCH: i32 = 2_440_588;
pub fn date(n: i64) -> Date {
    Date::from_julian_day(EPOCH + n as i32).expect("date")
}
pub fn day_no(d: Date) -> i64 {
    (d.to_julian_day() - EPOCH) as i64
}
pub fn dt(n: i64, s: i64, o: i64) -> OffsetDateTime {
    let t = Time::from_hms((s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8).expect("time");
    let off = UtcOffset::from_whole_seconds((o * 60) as i32).expect("offset");
    OffsetDateTime::new_in_offset(date(n), t, off)
}
/// (day, second, offset); a sub-second part would be out of the specification's alphabet and shows as second -1
pub fn parts(t: &OffsetDateTime) -> (i64, i64, i64) {
    let s = t.hour() as i64 * 3600 + t.minute() as i64 * 60 + t.second() as i64;
    (day_no(t.date()), if t.nanosecond() == 0 { s } else { -1 }, t.offset().whole_seconds() as i64 / 60)
}
pub fn nso(t: &OffsetDateTime) -> Value {
    let (n, s, o) = parts(t);
    json!({"n": n, "s": s, "o": o})
}
pub fn from_nso(v: &Value) -> OffsetDateTime {
    dt(i(v, "n"), i(v, "s"), i(v, "o"))
}
pub const KINDS: [&str; 8] = ["null", "us_settlement", "us_nyse", "us_gov", "us_fed", "us_sofr", "kr_settlement", "kr_krx"];
pub fn calendar(kind: &str) -> Calendar {
    let us = |t| Calendar::UnitedStates(UnitedStates::new(t));
    let kr = |t| Calendar::SouthKorea(SouthKorea::new(t));
    match kind {
        "null" => Calendar::NullCalendar(NullCalendar::new()),
        "us_settlement" => us(UnitedStatesType::Settlement),
        "us_nyse" => us(UnitedStatesType::Nyse),
        "us_gov" => us(UnitedStatesType::GovernmentBond),
        "us_fed" => us(UnitedStatesType::FederalReserve),
        "us_sofr" => us(UnitedStatesType::Sofr),
        "kr_settlement" => kr(SouthKoreaType::Settlement),
        "kr_krx" => kr(SouthKoreaType::Krx),
        x => panic!("harness: calendar {x}"),
    }
}
pub fn edit(c: &mut Calendar, op: &str, n: i64) {
    match op {
        "add" => c.add_holidays(&date(n)).expect("add_holidays"),
        _ => c.remove_holidays(&date(n)).expect("remove_holidays"),
    }
}
pub fn joint(kinds: &[String]) -> JointCalendar {
    JointCalendar::new(kinds.iter().map(|k| calendar(k)).collect()).map(stored).expect("joint calendar")
}
pub fn kinds_of(v: &Value) -> Vec<String> {
    v["kinds"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect()
}
pub const CONVS: [&str; 5] = ["unadjusted", "following", "preceding", "modfollowing", "modpreceding"];
pub fn conv(c: &str) -> BusinessDayConvention {
    match c {
        "unadjusted" => BusinessDayConvention::Unadjusted,
        "following" => BusinessDayConvention::Following,
        "preceding" => BusinessDayConvention::Preceding,
        "modfollowing" => BusinessDayConvention::ModifiedFollowing,
        "modpreceding" => BusinessDayConvention::ModifiedPreceding,
        x => panic!("harness: convention {x}"),
    }
}
pub const FREQS: [&str; 10] = ["daily", "weekly", "biweekly", "semimonthly", "monthly", "semiquarterly", "quarterly", "triannually", "semiannually", "annually"];
pub fn freq(f: &str) -> PaymentFrequency {
    match f {
        "daily" => PaymentFrequency::Daily,
        "weekly" => PaymentFrequency::Weekly,
        "biweekly" => PaymentFrequency::BiWeekly,
        "semimonthly" => PaymentFrequency::SemiMonthly,
        "monthly" => PaymentFrequency::Monthly,
        "semiquarterly" => PaymentFrequency::SemiQuarterly,
        "quarterly" => PaymentFrequency::Quarterly,
        "triannually" => PaymentFrequency::TriAnnually,
        "semiannually" => PaymentFrequency::SemiAnnually,
        "annually" => PaymentFrequency::Annually,
        x => panic!("harness: frequency {x}"),
    }
}
pub const COUNTS: [&str; 6] = ["act365", "act360", "act364", "30360", "street", "actact"];
pub fn count(c: &str) -> DayCountConvention {
    match c {
        "act365" => DayCountConvention::Actual365Fixed,
        "act360" => DayCountConvention::Actual360,
        "act364" => DayCountConvention::Actual364,
        "30360" => DayCountConvention::Thirty360,
        "street" => DayCountConvention::StreetConvention,
        "actact" => DayCountConvention::ActActIsda,
        x => panic!("harness: day count {x}"),
    }
}
/// a real as an integer in parts per million
pub fn ppm(x: f32) -> i64 {
    let v = (x as f64 * 1e6).round();
    if v.is_finite() && v.abs() < 2e9 { v as i64 } else { 2_000_000_000 }
}
