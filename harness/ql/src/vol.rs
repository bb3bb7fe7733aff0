//! Volatilities: set up from a market surface or a constant, bumped over windows, read for strikes.
use crate::cal::*;
use crate::cash::zero_curve;
use crate::market::tenor;
use crate::util::*;
use ndarray::{Array1, Array2};
use quantlib::currency::Currency;
use quantlib::data::surface_data::SurfaceData;
use quantlib::data::value_data::ValueData;
use quantlib::data::vector_data::VectorData;
use quantlib::enums::StickynessType;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::parameters::discrete_ratio_dividend::DiscreteRatioDividend;
use quantlib::parameters::market_price::MarketPrice;
use quantlib::parameters::volatilities::constant_volatility::ConstantVolatility;
use quantlib::parameters::volatilities::local_volatility_surface::LocalVolatilitySurface;
use quantlib::parameters::volatilities::volatiltiy_interpolator::VolatilityInterplator;
use quantlib::parameters::volatility::Volatility;
use quantlib::parameters::zero_curve::ZeroCurve;
use quantlib::utils::string_arithmetic::add_period;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Duration, OffsetDateTime};

pub type Shared<T> = Rc<RefCell<T>>;
const SPOT: f64 = 250.0;
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap_or_else(|| panic!("harness: list")).iter().map(|x| x.as_i64().unwrap()).collect()
}
fn ppm_list(v: &Value, by: f64) -> Array1<f32> {
    ints(v).iter().map(|x| (*x as f64 / 1e6 * by) as f32).collect()
}
#[derive(Clone)]
pub struct World { pub ed: Shared<EvaluationDate>, pub coll: Shared<ZeroCurve>, pub borrow: Shared<ZeroCurve>, pub price: Shared<MarketPrice> }
pub fn world(e: OffsetDateTime, rich: bool) -> World {
    thread_local! { static SETS: RefCell<HashMap<(OffsetDateTime, bool), World>> = RefCell::new(HashMap::new()); }
    let w = SETS.with(|m| m.borrow_mut().entry((e, rich)).or_insert_with(|| {
        let ed = Rc::new(RefCell::new(EvaluationDate::new(e)));
        let r = |x: f32| if rich { x } else { 0.0 };
        let coll = zero_curve(&ed, &[r(0.03), r(0.05)], &[0.5, 2.0], "collateral");
        let borrow = zero_curve(&ed, &[r(0.02), r(0.01)], &[0.5, 2.0], "borrowing");
        let dates: Vec<_> = [40, 200, 500].iter().map(|d| e + Duration::days(*d)).collect();
        let data = VectorData::new(Array1::from(vec![3.0, 2.0, 5.0]), Some(dates), None, Some(e), Currency::KRW, "d".into(), "d".into()).expect("harness: dividends");
        let d = Rc::new(RefCell::new(DiscreteRatioDividend::new(ed.clone(), &data, SPOT as f32, "d".into(), "d".into()).expect("dividend")));
        let price = Rc::new(RefCell::new(MarketPrice::new(SPOT as f32, e, if rich { Some(d) } else { None }, Currency::KRW, "p".into(), "p".into())));
        World { ed, coll, borrow, price }
    }).clone());
    w.price.borrow_mut().set_price(SPOT as f32);
    w
}
fn surface(v: &Value, w: &World, e: OffsetDateTime) -> Result<Volatility, String> {
    let stick = if v["c"]["stick"] == "strike" { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness };
    let s = LocalVolatilitySurface::initialize(w.ed.clone(), w.price.clone(), w.coll.clone(), w.borrow.clone(), stick, VolatilityInterplator::default(), "v".into(), "v".into());
    let tenors: Vec<String> = v["ten"].as_array().unwrap().iter().map(tenor).collect();
    let xs = ppm_list(&v["xs"], 1.0);
    let s = if v["c"]["src"] == "surface" {
        let m = &v["mkt"];
        let dates: Vec<_> = m["t"].as_array().unwrap().iter().map(|t| add_period(&e, &tenor(t))).collect();
        let rows: Vec<Vec<i64>> = m["v"].as_array().unwrap().iter().map(ints).collect();
        let vals = Array2::from_shape_fn((rows.len(), rows[0].len()), |(a, b)| (rows[a][b] as f64 / 1e6) as f32);
        // the surface keeps its own spot: the price may already be elsewhere
        w.price.borrow_mut().set_price(if test_no() % 2 == 0 { SPOT as f32 } else { 333.0 });
        let d = stored(SurfaceData::new(Some(SPOT as f32), vals, dates, ppm_list(&m["x"], SPOT), Some(e), Currency::KRW, "v".into(), "v".into()));
        s.with_market_surface(&d, tenors, xs)
    } else {
        let d = ValueData::new(0.23, Some(e), Currency::KRW, "v".into(), "v".into()).map(stored).expect("harness: value");
        s.with_constant_volatility(&d, tenors, xs)
    }.map_err(|e| e.to_string())?;
    w.price.borrow_mut().set_price(SPOT as f32);
    let mut vol = Volatility::LocalVolatilitySurface(s);
    vol.build().map_err(|e| e.to_string())?;
    Ok(vol)
}
fn place(v: &[f32], q: i64) -> Option<f32> {
    let (n, k) = (v.len(), (q / 2) as usize);
    match q {
        -1 => None,
        q if q % 2 == 0 => Some(v[k - 1]),
        _ if k == 0 => Some(v[0] * 0.5),
        _ if k == n => Some(v[n - 1] * 1.5),
        _ => Some((v[k - 1] + v[k]) / 2.0),
    }
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got}));
    let off = [540, 0][test_no() as usize % 2];
    let e = dt(i(&v["e"], "n"), i(&v["e"], "s"), off);
    let (rich, fixed) = (v["c"]["rich"] == true, v["c"]["src"] == "constant");
    let w = match guard(|| world(e, rich)) {
        Ok(w) => w,
        x => return bad("setting up the market", format!("{:?}", x.map(|_| ()))),
    };
    let vol = guard(|| if fixed { Ok(Volatility::ConstantVolatility(stored(ConstantVolatility::new(0.23, "v".into(), "v".into())))) } else { surface(v, &w, e) });
    let mut vol = match vol {
        Ok(Ok(x)) => x,
        x => return bad("setting up", format!("{:?}", x.map(|r| r.map(|_| ())))),
    };
    let xs: Vec<f32> = ppm_list(&v["xs"], 1.0).to_vec();
    let ts: Vec<f32> = match &vol {
        Volatility::LocalVolatilitySurface(s) => {
            let t = s.get_imvol_maturity_times().to_vec();
            let want: Vec<f64> = ints(&v["ts"]).iter().map(|x| *x as f64 / 1e6).collect();
            let d: Vec<_> = v["ten"].as_array().unwrap().iter().map(|t| add_period(&e, &tenor(t))).collect();
            if t.len() != want.len() || t.iter().zip(&want).any(|(a, b)| (*a as f64 - b).abs() > 1.5e-5) || &d != s.get_imvol_matuirty_dates() {
                return bad("maturities", format!("{t:?}"));
            }
            t
        }
        _ => vec![0.3, 0.6, 0.9, 1.2, 1.5],
    };
    for (k, o) in v["h"].as_array().unwrap().iter().enumerate() {
        let r = guard(|| match s(o, "op") {
            "price" => {
                w.price.borrow_mut().set_price((i(o, "p") as f64 / 1e6 * SPOT) as f32);
                vol.build().is_ok()
            }
            _ => vol.bump_volatility(place(&ts, i(o, "l1")), place(&ts, i(o, "h1")), place(&xs, i(o, "l2")), place(&xs, i(o, "h2")), (i(o, "a") as f64 / 1e6) as f32).is_ok(),
        });
        if r != Ok(true) {
            return bad("step", format!("{k}: {r:?}"));
        }
    }
    let want: Vec<Vec<f64>> = v["v"].as_array().unwrap().iter().map(|r| ints(r).iter().map(|x| *x as f64 / 1e6).collect()).collect();
    let near = |g: f32, w: f64| (g as f64 - w).abs() <= 4e-6;
    // volatility, total variance and deviation agree with each other
    let read = |t: f32, x: f32, want: f64, tol: f64| -> Result<(), Value> {
        let r = guard(|| (vol.get_value(t, x), vol.total_variance(t, x).ok(), vol.total_deviation(t, x).ok()));
        let ok = matches!(r, Ok((a, Some(b), Some(c))) if (a as f64 - want).abs() <= tol && (b as f64 - (a as f64).powi(2) * t as f64).abs() <= 1e-6
                          && (c as f64 - a as f64 * (t as f64).sqrt()).abs() <= 1e-6);
        if ok { Ok(()) } else { Err(json!({"what": "volatility read", "observed": format!("at {t}, {x}: {r:?}, expected {want}")})) }
    };
    let surf = match &vol {
        Volatility::LocalVolatilitySurface(s) => s,
        _ => {
            for (t, x) in [(0.01, 1.0), (0.7, 0.4), (3.0, 1.7)] {
                read(t, x, want[0][0], 1e-6)?;
            }
            return Ok(());
        }
    };
    let m = surf.get_interpolated_imvol();
    if m.dim() != (want.len(), want[0].len()) || (0..want.len()).any(|a| (0..want[0].len()).any(|b| !near(m[[a, b]], want[a][b]))) {
        return bad("volatilities on the pillars", format!("{m:?}"));
    }
    let now = i(v, "p") as f64 / 1e6;
    let fwd: Vec<f64> = v["ten"].as_array().unwrap().iter().map(|t| {
        let d = add_period(&e, &tenor(t));
        let df = |c: &Shared<ZeroCurve>| c.borrow().get_discount_factor_at_date(&d).expect("discount factor") as f64;
        SPOT * now * df(&w.borrow) / df(&w.coll) * w.price.borrow().get_dividend_deduction_ratio(&d).expect("ratio") as f64
    }).collect();
    for q in v["q"].as_array().unwrap() {
        let (tq, xq) = (i(q, "t"), i(q, "x"));
        let row = ((tq / 2).clamp(1, ts.len() as i64) - 1) as usize;
        let x = place(&xs, xq).unwrap() as f64;
        let strike = if v["c"]["stick"] == "strike" { x * SPOT } else { x * SPOT * now };
        read(place(&ts, tq).unwrap(), (strike / fwd[row]) as f32, i(q, "v") as f64 / 1e6, 6e-6)?;
    }
    Ok(())
}
