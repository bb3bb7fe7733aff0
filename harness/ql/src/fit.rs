//! Parts that fit make an object; parts that do not are refused.
use crate::cal::*;
use crate::cash::zero_curve;
use crate::util::*;
use crate::vol::world;
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::{CreditRating, IssuerType, RankType, StickynessType};
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::stock::Stock;
use quantlib::parameters::{quanto::Quanto, volatilities::constant_volatility::ConstantVolatility, volatility::{Volatility, VolatilityType}};
use quantlib::pricing_engines::{match_parameter::MatchParameter, npv_result::NpvResult};
use std::collections::HashMap;
use quantlib::instruments::bond::Bond;
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::schedule::{build_schedule, BaseSchedule, Schedule};
use quantlib::math::interpolator::{ExtraPolationType as E, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::bilinear_interpolator::BilinearInterpolator;
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::math::interpolators::stepwise_interpolatior::StepwiseInterpolator1D;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::rate_index::RateIndex;
use quantlib::parameters::volatilities::{local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator};
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use quantlib::utils::distribute_value::distribute_value_on_vector;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use time::OffsetDateTime;

const E0: i64 = 19724; // 2024-01-02
type Ans = Result<bool, String>; // an object was made, and what it shows is what was put in
fn list(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn opt(v: &Value) -> Option<&Value> {
    v.as_array().unwrap().first()
}
fn day(k: i64) -> OffsetDateTime {
    dt(E0 + k, 57600, 540)
}
fn reals(x: &[i64]) -> Array1<f32> {
    x.iter().map(|k| *k as f32).collect()
}
fn vals(n: i64) -> Array1<f32> {
    (0..n).map(|k| 10.0 + 3.0 * k as f32).collect()
}
fn e<T>(r: anyhow::Result<T>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn ext(k: u64) -> (E, bool) {
    ([E::Flat, E::Linear, E::None][(k % 3) as usize], k % 2 == 0)
}
fn line(d: &[i64], n: i64) -> Ans {
    let t = test_no();
    let (x, a) = ext(t);
    let (l, s) = (LinearInterpolator1D::new(reals(d), vals(n), x, a), StepwiseInterpolator1D::new(reals(d), vals(n), a, None, None));
    let w = StepwiseInterpolator1D::new(d.iter().map(|k| *k as i32).collect(), vals(n), a, Some(1.0), None);
    if l.is_ok() != s.is_ok() || s.is_ok() != w.is_ok() {
        return Ok(false);
    }
    let (l, s, w) = (e(l)?, e(s)?, e(w)?);
    let strict = d.windows(2).all(|p| p[0] < p[1]);
    Ok(!strict || d.iter().enumerate().all(|(k, q)| {
        let v = vals(n)[k];
        (d.len() == 1 || l.interpolate(*q as f32).is_ok_and(|x| (x - v).abs() < 1e-4)) && s.interpolate(*q as f32).is_ok_and(|x| x == v) && w.interpolate(*q as i32).is_ok_and(|x| x == v)
    }))
}
fn made(v: &Value) -> Ans {
    let t = test_no();
    let ccy = Currency::KRW;
    let name = || "n".to_string();
    match s(v, "k") {
        "vector" => {
            let market = opt(&v["market"]).map(|m| day(m.as_i64().unwrap()));
            let days: Option<Vec<_>> = opt(&v["days"]).map(|d| list(d).into_iter().map(day).collect());
            let times = opt(&v["times"]).map(|n| vals(n.as_i64().unwrap()) * 0.125);
            let value = vals(i(v, "n"));
            let x = e(VectorData::new(value.clone(), days.clone(), times.clone(), market, ccy, "first".into(), "second".into()))?;
            let want = if v["from"] == "days" { days.iter().flatten().map(|d| NullCalendar::default().get_time_difference(&market.unwrap(), d)).collect() } else { times.unwrap() };
            Ok(x.get_value_clone() == value && x.get_times_clone() == want && x.get_dates_clone() == days && x.get_name_clone() == "first")
        }
        "line" => line(&list(&v["d"]), i(v, "n")),
        "rows" => {
            let d = list(&v["d"]);
            let (x, a) = ext(t);
            let rows = (0..i(v, "n")).map(|k| LinearInterpolator1D::new(reals(&[0, 2]), reals(&[k, k + 10]), E::Flat, true).expect("row")).collect();
            let b = e(BilinearInterpolator::new(reals(&d), rows, a, x))?;
            let strict = d.windows(2).all(|p| p[0] < p[1]);
            Ok(!strict || d.len() == 1 || d.iter().enumerate().all(|(k, q)| b.interpolate(*q as f32, 1.0).is_ok_and(|y| (y - (k as f32 + 5.0)).abs() < 1e-4)))
        }
        "sheet" => {
            let (d, x, r, c) = (list(&v["t"]), list(&v["x"]), i(v, "r"), i(v, "c"));
            let m = Array2::from_shape_fn((r as usize, c as usize), |(a, b)| (10 * a + b) as f32);
            let b = e(BilinearInterpolator::new_from_rectangle_data(reals(&d), reals(&x), m.clone(), t % 2 == 0, ext(t).0, t % 5 < 2, ext(t + 1).0))?;
            let strict = [&d, &x].iter().all(|g| g.windows(2).all(|p| p[0] < p[1]));
            Ok(!strict || d.iter().enumerate().all(|(k, p)| x.iter().enumerate().all(|(j, q)| b.interpolate(*p as f32, *q as f32).is_ok_and(|y| (y - m[[k, j]]).abs() < 1e-4))))
        }
        "put" => {
            let mut x = vec![1f32; i(v, "n") as usize];
            let loc: Vec<f32> = (0..i(v, "m")).map(|k| k as f32).collect();
            let r = e(distribute_value_on_vector(&mut x, 4.0, 0.5, &loc));
            let left: f32 = x.iter().sum();
            let n = x.len() as f32;
            match r {
                Ok(()) => Ok(left == n + if n > 0.0 { 4.0 } else { 0.0 }),
                Err(_) if left != n => Ok(false),
                Err(m) => Err(m),
            }
        }
        "curve" => {
            let d = list(&v["d"]);
            let data = VectorData::new(vals(d.len() as i64) * 0.001, None, Some(reals(&d)), None, ccy, name(), name()).expect("harness: data");
            e(ZeroCurve::new(Rc::new(RefCell::new(EvaluationDate::new(day(0)))), &data, name(), name())).map(|_| true)
        }
        "dividend" => {
            let data = match opt(&v["d"]) {
                Some(d) => VectorData::new(vals(list(d).len() as i64), Some(list(d).into_iter().map(day).collect()), None, Some(day(0)), ccy, name(), name()),
                None => VectorData::new(vals(2), None, Some(reals(&[1, 2])), None, ccy, name(), name()),
            }.expect("harness: data");
            e(DiscreteRatioDividend::new(Rc::new(RefCell::new(EvaluationDate::new(day(0)))), &data, 1000.0, name(), name())).map(|_| true)
        }
        "surface" => {
            let w = world(day(0), t % 2 == 0);
            let m = Array2::from_elem((i(v, "r") as usize, i(v, "c") as usize), 0.2f32);
            let data = SurfaceData::new(opt(&v["spot"]).map(|_| 250.0), m, list(&v["d"]).into_iter().map(|k| day(30 * k)).collect(), reals(&list(&v["x"])) * 100.0, Some(day(0)), ccy, name(), name());
            let ten = list(&v["ten"]).iter().map(|k| format!("{k}M")).collect();
            let x = LocalVolatilitySurface::initialize(w.ed, w.price, w.coll, w.borrow, if t % 2 == 0 { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness }, VolatilityInterplator::default(), name(), name());
            e(x.with_market_surface(&data, ten, Array1::from(vec![0.8, 1.0, 1.2]))).map(|_| true)
        }
        "keeps" => {
            let (n, some) = (i(v, "n"), v["some"] == true);
            let c = [Currency::KRW, Currency::USD, Currency::EUR, Currency::JPY];
            let (mine, other) = (c[n as usize], c[(n as usize + 1) % 4]);
            let id = |x: &str| format!("{x}{n}");
            Ok(match s(v, "what") {
                "index" => {
                    let x = stored(e(RateIndex::new(format!("{}M", n + 1), mine, id("name"), id("code")))?);
                    *x.get_code() == id("code") && *x.get_rate_index_code() == id("code") && *x.get_name() == id("name") && *x.get_currency() == mine && *x.get_curve_tenor() == format!("{}M", n + 1)
                }
                "quanto" => {
                    let x = Volatility::ConstantVolatility(ConstantVolatility::new(0.25, id("v"), id("v")));
                    let kind = x.get_volatility_type();
                    let level = x.get_value(1.0, 1.0);
                    let q = Quanto::new(Rc::new(RefCell::new(x)), 0.5 - n as f32, FxCode::new(mine, other), id("S"));
                    kind == VolatilityType::ConstantVolatility && *q.get_underlying_code() == id("S") && *q.get_fx_code() == FxCode::new(mine, other) && level == 0.25
                        && (q.quanto_adjust(1.0, 1.0) - level * (0.5 - n as f32)).abs() < 1e-6
                }
                "coupon" => {
                    let amount = some.then_some(2.5 + n as f32);
                    let x = stored(BaseSchedule::new(day(n), day(n + 10), day(n + 20), day(n + 30), amount));
                    (*x.get_fixing_date(), *x.get_calc_start_date(), *x.get_calc_end_date(), *x.get_payment_date(), x.get_amount()) == (day(n), day(n + 10), day(n + 20), day(n + 30), amount)
                }
                "result" => {
                    let flows: HashMap<usize, (OffsetDateTime, f32)> = (0..n).map(|k| (k as usize, (day(7 * k), 0.5 * k as f32))).collect();
                    let likely = flows.iter().map(|(k, (d, _))| (*k, (*d, 1.0))).collect();
                    if some {
                        let x = stored(NpvResult::new(8.0 + n as f32, flows.clone(), likely));
                        x.get_npv() == 8.0 + n as f32 && *x.get_cashflow_amounts() == flows
                    } else {
                        let x = stored(NpvResult::new_from_npv(8.0 + n as f32));
                        x.get_npv() == 8.0 + n as f32 && x.get_cashflow_amounts().is_empty() && e(x.get_expected_coupon_amount())?.is_empty()
                    }
                }
                "names" => {
                    let map = |x: &str| (0..n).map(|k| (format!("S{k}"), format!("{x}{k}"))).collect::<HashMap<_, _>>();
                    let x = MatchParameter::new(map("coll"), map("borrow"), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
                    let asked = Instrument::Stock(Stock::new(id("n"), id("c"), vec![if some { "S1".into() } else { "S9".into() }], mine, None));
                    let coll = x.get_collateral_curve_name(&asked, &"S1".to_string());
                    *x.get_collateral_curve_map() == map("coll") && *x.get_borrowing_curve_map() == map("borrow")
                        && if n > 1 { coll.is_ok_and(|c| c == "coll1") } else { coll.is_err() }
                        && if n > 1 && some { e(x.get_collateral_curve_names(&asked))? == vec!["coll1"] && e(x.get_borrowing_curve_names(&asked))? == vec!["borrow1"] }
                           else { x.get_collateral_curve_names(&asked).is_err() && x.get_borrowing_curve_names(&asked).is_err() }
                }
                _ => {
                    let m = Array2::from_shape_fn((n as usize, 2), |(a, b)| (10 * a + b) as f32);
                    let days: Vec<_> = (0..n).map(|k| day(30 * k)).collect();
                    let x = SurfaceData::new(some.then_some(250.0), m.clone(), days.clone(), reals(&[n, n + 1]), some.then(|| day(n)), mine, id("name"), id("code"));
                    x.get_spot() == some.then_some(250.0) && *x.get_value() == m && *x.get_dates() == days && *x.get_strike() == reals(&[n, n + 1])
                        && x.get_market_datetime() == some.then(|| day(n)) && x.get_name() == id("name") && x.get_code() == id("code")
                }
            })
        }
        "bump" => {
            thread_local! { static C: Rc<RefCell<ZeroCurve>> = zero_curve(&Rc::new(RefCell::new(EvaluationDate::new(day(0)))), &[0.02, 0.03], &[0.5, 2.0], "c"); }
            let c = C.with(|c| c.clone());
            let (f, u) = (opt(&v["f"]).map(|k| k.as_i64().unwrap()), opt(&v["u"]).map(|k| k.as_i64().unwrap()));
            let before = c.borrow().get_discount_factor(1.0).expect("harness: discount");
            let r = if v["dates"] == true {
                let (a, b) = (f.map(|k| day(365 * k)), u.map(|k| day(365 * k)));
                e(c.borrow_mut().bump_date_interval(a.as_ref(), b.as_ref(), 0.0))
            } else {
                e(c.borrow_mut().bump_time_interval(f.map(|k| k as f32), u.map(|k| k as f32), 0.0))
            };
            let after = c.borrow().get_discount_factor(1.0).expect("harness: discount");
            r.map(|()| (before - after).abs() < 1e-6)
        }
        "bond" => {
            let (rate, ix) = ((v["rate"] == true).then_some(0.03), (v["index"] == true).then(|| RateIndex::new("3M".into(), ccy, name(), name()).expect("index")));
            let (d0, d1, d2) = (day(0), day(365), Some(day(7)));
            let (f, c, m) = (freq(s(v, "f")), DayCountConvention::Actual365Fixed, BusinessDayConvention::Following);
            let strip = t % 2 == 0;
            let b = if v["conv"] == true {
                Bond::new_from_conventions(IssuerType::Government, CreditRating::None, name(), RankType::Senior, ccy, 1.0, strip, d0, d0, d2, d1, rate, None, ix.clone(), None, joint(&["null".into()]), t % 3 == 0, c, m, f, 0, 0, name(), name())
            } else {
                Bond::new(IssuerType::Government, CreditRating::None, name(), RankType::Senior, ccy, 1.0, strip, Schedule::new(vec![BaseSchedule::new(d0, d0, d1, d1, None)]), rate, None, ix.clone(), None, d0, d0, d2, d1, joint(&["null".into()]), c, m, f, 0, 0, name(), name())
            };
            e(b).map(|b| b.get_rate_index().is_ok_and(|x| x.is_some() == ix.is_some()))
        }
        "ktbf" => {
            let bonds: Vec<Bond> = v["d"].as_array().unwrap().iter().map(|p| {
                let pd = opt(p).map(|k| day(k.as_i64().unwrap()));
                Bond::new(IssuerType::Government, CreditRating::None, name(), RankType::Senior, ccy, 1.0, false, Schedule::new(vec![]), Some(0.03), None, None, None, day(0), day(0), pd, day(900), joint(&["null".into()]),
                    DayCountConvention::ActActIsda, BusinessDayConvention::Unadjusted, PaymentFrequency::SemiAnnually, 0, 0, name(), name()).expect("harness: bond")
            }).collect();
            let n = bonds.len();
            let m = day(i(v, "m"));
            e(KTBF::new(ccy, 1.0, day(0), m, m, KtbfVirtualBond::new(3, 0.05, PaymentFrequency::SemiAnnually, 100.0), bonds, "tag".into(), name(), name())).map(|x| x.get_underlying_bonds().len() == n)
        }
        "joint" => {
            let k: Vec<_> = KINDS.iter().skip((t % 5) as usize).take(i(v, "n") as usize).map(|k| calendar(k)).collect();
            let n = k.len();
            e(quantlib::time::jointcalendar::JointCalendar::new(k)).map(|j| j.calendars().len() == n)
        }
        "gaps" => {
            let c = joint(&["us_sofr".into()]);
            e(build_schedule(v["fwd"] == true, &day(0), &day(365), &c, &BusinessDayConvention::ModifiedFollowing, &PaymentFrequency::Quarterly, i(v, "f"), i(v, "p"))).map(|x| !x.is_empty())
        }
        k => panic!("harness: {k}"),
    }
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let r = guard(|| made(v));
    match (s(v, "v"), &r) {
        (_, Err(_)) => Err(json!({"what": "a constructor answers", "observed": format!("{r:?}")})),
        ("ok", Ok(Ok(true))) | ("no", Ok(Err(_))) | ("open", Ok(_)) => Ok(()),
        (w, _) => Err(json!({"what": s(v, "k"), "expected": w, "observed": format!("{r:?}")})),
    }
}
