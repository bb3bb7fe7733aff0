//! Portfolios valued by engines, against every number worked out from the instrument alone under one stated change of the market.
use crate::cal::*;
use crate::matching::{stored_instrument, issuer, list, tables};
use crate::util::*;
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::{daily_value_data::DailyValueData, surface_data::SurfaceData, value_data::ValueData, vector_data::VectorData};
use quantlib::enums::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait, Instruments};
use quantlib::instruments::{bond::Bond, cash::Cash, futures::Futures, fx_futures::FxFutures, plain_swap::PlainSwap, schedule::Schedule, stock::Stock, vanilla_option::VanillaOption};
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::parameters::volatilities::{constant_volatility::ConstantVolatility, local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator};
use quantlib::parameters::{discrete_ratio_dividend::DiscreteRatioDividend, market_price::MarketPrice, past_price::DailyClosePrice, quanto::Quanto, rate_index::RateIndex, volatility::Volatility, zero_curve::ZeroCurve};
use quantlib::pricing_engines::calculation_configuration::CalculationConfiguration;
use quantlib::pricing_engines::calculation_result::CalculationResult;
use quantlib::pricing_engines::engine::Engine;
use quantlib::pricing_engines::engine_generator::{EngineGenerator, InstrumentCategory};
use quantlib::pricing_engines::{bond_pricer::BondPricer, futures_pricer::FuturesPricer, fx_futures_pricer::FxFuturesPricer, identity_pricer::IdentityPricer, option_analytic_pricer::OptionAnalyticPricer, plain_swap_pricer::PlainSwapPricer, pricer::Pricer, pricer::PricerTrait, unit_pricer::UnitPricer};
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use quantlib::time::conventions::{BusinessDayConvention, DayCountConvention, PaymentFrequency};
use quantlib::utils::string_arithmetic::add_period;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;
use time::{Duration, OffsetDateTime, Time, UtcOffset};

type Shared<T> = Rc<RefCell<T>>;
fn share<T>(x: T) -> Shared<T> { Rc::new(RefCell::new(x)) }
/// evaluation times: in an ordinary year, in a leap year
fn eval(e: i64) -> OffsetDateTime { dt(if e == 1 { 20094 } else { 19786 }, 57600, 540) }
fn ppm(v: &Value, k: &str) -> f32 { (i(v, k) as f64 / 1e6) as f32 }
fn code_no(c: &str) -> usize { c.bytes().map(|b| b as usize).sum() }
fn ccy(c: &str) -> Currency { stored(Currency::from(c)) }
fn fx_code(c: &str) -> FxCode { stored(FxCode::new(ccy(&c[..3]), ccy(&c[3..]))) }
const STOCKS: [(&str, f32, &str); 2] = [("S1", 250.0, "KRW"), ("S2", 120.0, "USD")];
fn spot(u: &str) -> f32 { STOCKS.iter().find(|x| x.0 == u).unwrap_or_else(|| panic!("harness: stock {u}")).1 }
fn unit(x: &Value) -> f32 {
    if matches!(s(x, "type"), "Stock" | "Cash") { 1.0 } else { [1.0, 10.0, 250.0][code_no(s(x, "code")) % 3] }
}
fn traded(x: &Value) -> f32 { if s(x, "type") == "FxFutures" { 1310.0 } else { spot(list(&x["und"])[0].as_str()) * 1.1 } }
fn leg_amounts() -> [f32; 4] { [1290.0, 1.0, 1310.0, 1.02] }

fn instrument(x: &Value, e: OffsetDateTime) -> Instrument { stored_instrument(new_instrument(x, e)) }
fn new_instrument(x: &Value, e: OffsetDateTime) -> Instrument {
    let (t, code, c, unit) = (s(x, "type"), s(x, "code").to_string(), ccy(s(x, "ccy")), unit(x));
    let m = e + Duration::hours(i(x, "mat"));
    let index = |k: &str| RateIndex::new("3M".into(), c, format!("name of {k}"), k.into()).expect("harness: index");
    let name = format!("name of {code}");
    let und = list(&x["und"]);
    let (mf, cal) = (BusinessDayConvention::ModifiedFollowing, joint(&["kr_settlement".to_string()]));
    let (dc, fr) = (DayCountConvention::Actual365Fixed, PaymentFrequency::Quarterly);
    let before = e - Duration::days(100);
    match t {
        "Futures" => Instrument::Futures(Futures::new(traded(x), before, m, m, m, unit, c, ccy(s(x, "undccy")), und[0].clone(), name, code)),
        "FxFutures" => Instrument::FxFutures(FxFutures::new(traded(x), before, m, m, m, unit, c, ccy(s(x, "undccy")), name, code)),
        "Stock" => Instrument::Stock(Stock::new(name, code, und, c, None)),
        "Cash" => Instrument::Cash(Cash::new(c, name, code)),
        "VanillaCall" | "VanillaPut" => {
            let strike = spot(&und[0]) * [1.0, 0.93, 1.08][code_no(&code) % 3];
            Instrument::VanillaOption(VanillaOption::new(strike, unit, before, m, m, m, und, ccy(s(x, "undccy")), c,
                if t == "VanillaCall" { OptionType::Call } else { OptionType::Put }, OptionExerciseType::European,
                if x["settled"] == true { OptionDailySettlementType::Settled } else { OptionDailySettlementType::NotSettled }, name, code))
        }
        "KTBF" => {
            let v = KtbfVirtualBond::new(3, 0.05, PaymentFrequency::SemiAnnually, 100.0);
            Instrument::KTBF(KTBF::new(c, unit, before, m, m, v, vec![], list(&x["tags"])[0].clone(), name, code).expect("harness: ktbf"))
        }
        "Bond" => {
            let (n, it, cr, _) = issuer(s(x, "iss"));
            let k = s(x, "idx");
            let float = !k.is_empty();
            Instrument::Bond(Bond::new_from_conventions(it, cr, n, RankType::Senior, c, unit, false, before, before, None, m, (!float).then_some(0.035),
                float.then_some(0.002), float.then(|| index(k)), None, cal, false, dc, mf, fr, 1, 0, name, code).expect("harness: bond"))
        }
        _ => {
            let a = leg_amounts();
            let am = |on: bool, x: f32| on.then_some(x);
            let (init, last, legs) = (matches!(t, "CRS" | "FxSwap"), t != "IRS", matches!(t, "IRS" | "CRS"));
            let k = s(x, "idx");
            let (c1, c2) = (ccy(s(x, "fix")), ccy(s(x, "flo")));
            let (rate, ix) = (am(legs, 0.033), legs.then(|| index(k)));
            let (i1, i2, l1, l2) = (am(init, a[0]), am(init, a[1]), am(last, a[2]), am(last, a[3]));
            Instrument::PlainSwap(if legs {
                PlainSwap::new_from_conventions(c1, c2, i1, i2, l1, l2, unit, before, before, m, rate, ix, None, false, dc, dc, mf, mf, fr, fr, 1, 0, cal, name, code)
            } else {
                // a spot deal is done two days before it settles; a swap has its first exchange ahead
                let (iss, eff) = if t == "FxSpot" { (m - Duration::days(2), m) } else { (e - Duration::days(10), e + Duration::days(5)) };
                let none = Schedule::new(vec![]);
                PlainSwap::new(none.clone(), none, None, None, None, cal, unit, iss, eff, m, c1, c2, i1, i2, l1, l2, dc, dc, mf, mf, fr, fr, 0, 0, name, code)
            }.expect("harness: swap"))
        }
    }
}
// ---- market data ----
fn curve_data(name: &str, e: OffsetDateTime) -> VectorData {
    let k = code_no(name) % 16;
    let r: Vec<f32> = [0.030, 0.041, 0.027, 0.038, 0.033].iter().enumerate().map(|(j, x)| x + 0.001 * ((k * (j + 3)) % 7) as f32).collect();
    let days = [30, 180, 400, 1000, 3000];
    let (dates, times) = if k % 2 == 0 { (Some(days.iter().map(|d| e + Duration::days(*d)).collect()), None) }
                         else { (None, Some(Array1::from(days.iter().map(|d| *d as f32 / 365.0).collect::<Vec<_>>()))) };
    VectorData::new(Array1::from(r), dates, times, Some(e), Currency::KRW, name.into(), name.into()).map(stored).expect("harness: curve data")
}
fn dividend_data(u: &str, e: OffsetDateTime) -> VectorData {
    let (days, a): (&[i64], &[f32]) = if u == "S1" { (&[1, 45, 200], &[1.0, 3.0, 2.5]) } else { (&[30, 300], &[1.5, 2.0]) };
    VectorData::new(Array1::from(a.to_vec()), Some(days.iter().map(|d| e + Duration::days(*d)).collect()), None, Some(e), Currency::KRW, u.into(), u.into()).map(stored).expect("harness: dividends")
}
fn surface_data(u: &str, e: OffsetDateTime) -> SurfaceData {
    let s = spot(u);
    let dates = [40, 130, 400, 800].iter().map(|d| e + Duration::days(*d)).collect();
    let v = Array2::from_shape_fn((4, 5), |(a, b)| 0.22 + 0.01 * a as f32 - 0.02 * (b as f32 - 2.0) + 0.012 * (b as f32 - 2.0).powi(2));
    let xs = Array1::from(vec![0.7 * s, 0.9 * s, s, 1.1 * s, 1.3 * s]);
    stored(SurfaceData::new(Some(s), v, dates, xs, Some(e), ccy("KRW"), u.into(), u.into()))
}
const CONST_VOL: f32 = 0.24;
const FX_VOL: f32 = 0.12;
const CORR: f32 = -0.3;
fn number(v: f32, c: &str, e: OffsetDateTime, k: &str) -> ValueData {
    ValueData::new(v, Some(e), ccy(c), format!("name of {k}"), k.into()).map(stored).expect("harness: value")
}
fn fixings(k: &str, e: OffsetDateTime) -> DailyValueData {
    let m = (0..300).map(|n| ((e - Duration::days(n)).date(), 0.03 + 0.0001 * ((n * 7 + code_no(k) as i64) % 50) as f32)).collect();
    DailyValueData::new(m, Time::from_hms(15, 40, 0).unwrap(), UtcOffset::from_hms(9, 0, 0).unwrap(), calendar("kr_settlement"), format!("name of {k}"), k.into())
}
struct Data {
    fx: Arc<HashMap<FxCode, ValueData>>, stock: Arc<HashMap<String, ValueData>>, curve: Arc<HashMap<String, VectorData>>, div: Arc<HashMap<String, VectorData>>,
    cvol: Arc<HashMap<String, ValueData>>, svol: Arc<HashMap<String, SurfaceData>>, fxvol: Arc<HashMap<FxCode, ValueData>>,
    corr: Arc<HashMap<(String, FxCode), ValueData>>, fix: Arc<HashMap<String, DailyValueData>>,
}
fn rational(v: &Value) -> f32 { (v[0].as_f64().unwrap() / v[1].as_f64().unwrap()) as f32 }
fn pairs(v: &Value) -> Vec<(String, Value)> { v.as_object().map_or(vec![], |m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()) }
fn data(d: &Value, e: OffsetDateTime) -> Data {
    fn map<T>(v: &Value, f: impl Fn(&str) -> T) -> Arc<HashMap<String, T>> { Arc::new(list(v).iter().map(|k| (k.clone(), f(k))).collect()) }
    let cur = |u: &str| STOCKS.iter().find(|x| x.0 == u).unwrap().2;
    Data {
        fx: Arc::new(pairs(&d["fx"]).iter().map(|(k, v)| (fx_code(k), number(rational(v), &k[3..], e, k))).collect()),
        stock: map(&d["stock"], |u| number(spot(u), cur(u), e, u)),
        curve: map(&d["curve"], |n| curve_data(n, e)),
        div: map(&d["div"], |u| dividend_data(u, e)),
        cvol: map(&d["cvol"], |u| number(CONST_VOL, "KRW", e, u)),
        svol: map(&d["svol"], |u| surface_data(u, e)),
        fxvol: Arc::new(list(&d["fxvol"]).iter().map(|k| (fx_code(k), number(FX_VOL, "KRW", e, k))).collect()),
        corr: Arc::new(d["corr"].as_array().unwrap().iter().map(|p| ((p[0].as_str().unwrap().to_string(), fx_code(p[1].as_str().unwrap())), number(CORR, "KRW", e, "corr"))).collect()),
        fix: Arc::new(list(&d["fix"]).iter().map(|k| (format!("name of {k}"), fixings(k, e))).collect()),
    }
}
// ---- configuration ----
fn configuration(c: &Value, turn: u64) -> anyhow::Result<CalculationConfiguration> { new_configuration(c, turn).map(stored) }
fn new_configuration(c: &Value, turn: u64) -> anyhow::Result<CalculationConfiguration> {
    let on = |k: &str| c[k] == true;
    let (r, vb, vsb, rb, db) = ((i(c, "r") as f64 / 1e4) as f32, ppm(c, "vb"), ppm(c, "vsb"), ppm(c, "rb"), ppm(c, "db"));
    let day = i(c, "day") as i32;
    let stick = if c["stick"] == "strike" { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness };
    let (rt, vt, dt) = (list(&c["rt"]), list(&c["vt"]), list(&c["dt"]));
    // (there is no setter for these two and the dividend bump)
    if turn % 2 == 0 || !on("npv") || !on("fx") || i(c, "db") != 100 {
        CalculationConfiguration::new(on("npv"), on("fx"), on("delta"), on("delta"), on("vega"), on("rho"), on("div"), on("theta"), on("vs"), on("rs"), on("ds"), on("vm"), day, stick,
            VolatilityInterplator::default(), r, r, vb, vsb, vsb, rb, db, rt, vt, dt, xs(c), VanillaOptionCalculationMethod::Analytic)
    } else {
        Ok(CalculationConfiguration::default().with_delta_calculation(on("delta")).with_gamma_calculation(on("delta")).with_vega_calculation(on("vega")).with_rho_calculation(on("rho"))
            .with_div_delta_calculation(on("div")).with_theta_calculation(on("theta")).with_vega_structure_calculation(on("vs")).with_rho_structure_calculation(on("rs"))
            .with_div_structure_calculation(on("ds")).with_vega_matrix_calculation(on("vm")).with_theta_day(day).with_stickyness_type(stick)
            .with_delta_bump_ratio(r).with_gamma_bump_ratio(r).with_vega_bump_value(vb).with_vega_structure_bump_value(vsb).with_vega_matrix_bump_value(vsb)
            .with_rho_bump_value(rb).with_rho_structure_tenors(rt).with_vega_structure_tenors(vt).with_div_structure_tenors(dt)
            .with_vega_matrix_spot_moneyness(xs(c)))
    }
}
fn xs(c: &Value) -> Array1<f32> { c["xs"].as_array().unwrap().iter().map(|x| (x.as_i64().unwrap() as f64 / 1e6) as f32).collect() }
fn categories(v: &Value) -> Vec<InstrumentCategory> {
    let some = |v: &Value| -> Option<Vec<String>> { let l = list(v); (!l.is_empty()).then_some(l) };
    v.as_array().unwrap().iter().map(|c| {
        let u = list(&c["u"]);
        stored(InstrumentCategory::new(some(&c["t"]), some(&c["c"]).map(|l| l.iter().map(|x| ccy(x)).collect()), if u == ["*"] { None } else { Some(u) }))
    }).collect()
}
// ---- values of an instrument alone ----
struct Alone<'a> { t: &'a Value, x: &'a Value, legs: &'a Value, e: OffsetDateTime, inst: Instrument }
struct World { moved: Shared<EvaluationDate>, ed: Shared<EvaluationDate>, curves: HashMap<String, Shared<ZeroCurve>>, equity: Option<Shared<MarketPrice>>,
               div: Option<Shared<DiscreteRatioDividend>>, vol: Option<Shared<Volatility>>, fwd: Option<Shared<ZeroCurve>>, past: Option<Rc<DailyClosePrice>>, pricer: Pricer }
fn base_curve(name: &str, e: OffsetDateTime) -> (Shared<EvaluationDate>, ZeroCurve) {
    thread_local! { static EDS: RefCell<HashMap<OffsetDateTime, Shared<EvaluationDate>>> = RefCell::new(HashMap::new());
                    static CURVES: RefCell<HashMap<(OffsetDateTime, String), ZeroCurve>> = RefCell::new(HashMap::new()); }
    let ed = EDS.with(|m| m.borrow_mut().entry(e).or_insert_with(|| share(stored(EvaluationDate::new(e)))).clone());
    ed.borrow_mut().set_date(e);
    let c = CURVES.with(|m| m.borrow_mut().entry((e, name.to_string())).or_insert_with(|| ZeroCurve::new(ed.clone(), &curve_data(name, e), name.into(), name.into()).expect("curve")).clone());
    (ed, c)
}
impl Alone<'_> {
    fn world(&self) -> World {
        let (t, x, e) = (self.t, self.x, self.e);
        let mut curves: HashMap<String, Shared<ZeroCurve>> = HashMap::new();
        let mut moved = share(stored(EvaluationDate::new(e)));
        for (_, n) in pairs(self.legs) {
            let n = n.as_str().unwrap();
            if n != "Dummy" && n != "?" {
                let (ed, c) = base_curve(n, e);
                moved = ed;
                curves.insert(n.into(), share(c));
            }
        }
        let ed = share(stored(EvaluationDate::new(e)));
        let leg = |k: &str| curves.get(s(self.legs, k)).unwrap_or_else(|| panic!("harness: no {k} curve of {x}")).clone();
        let (mut equity, mut div, mut vol) = (None, None, None);
        if let Some(u) = list(&x["und"]).first() {
            if list(&t["d"]["div"]).contains(u) {
                div = Some(share(DiscreteRatioDividend::new(ed.clone(), &dividend_data(u, e), spot(u), u.clone(), u.clone()).expect("dividend")));
            }
            let q = share(MarketPrice::new(spot(u), e, div.clone(), ccy("KRW"), u.clone(), u.clone()));
            ed.borrow_mut().add_marketprice_observer(q.clone());
            if let Some(d) = &div {
                ed.borrow_mut().add_dividend_observer(d.clone());
            }
            equity = Some(q);
        }
        if let Some(u) = list(&x["vol"]).first() {
            let c = &t["cfg"];
            let stick = if c["stick"] == "strike" { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness };
            let v = LocalVolatilitySurface::initialize(ed.clone(), equity.clone().unwrap(), leg("coll"), leg("borrow"), stick, VolatilityInterplator::default(), u.clone(), u.clone());
            let mut v = Volatility::LocalVolatilitySurface(if t["vol"][u] == "const" { v.with_constant_volatility(&number(CONST_VOL, "KRW", e, u), list(&c["vt"]), xs(c)) }
                else { v.with_market_surface(&surface_data(u, e), list(&c["vt"]), xs(c)) }.expect("volatility"));
            v.build().expect("volatility");
            vol = Some(share(v));
        }
        let (mut fwd, mut past) = (None, None);
        if !s(x, "idx").is_empty() {
            fwd = Some(leg("idx"));
            past = Some(Rc::new(DailyClosePrice::new_from_data(&fixings(s(x, "idx"), e)).expect("fixings")));
        }
        let fx = list(&x["fx"]).first().map(|c| share(MarketPrice::new(rational(&t["fx"][c]), e, None, ccy(&c[3..]), c.clone(), c.clone())));
        let pricer = match s(x, "type") {
            "Futures" => Pricer::FuturesPricer(FuturesPricer::new(equity.clone().unwrap(), leg("coll"), leg("borrow"))),
            "FxFutures" => Pricer::FxFuturesPricer(FxFuturesPricer::new(fx.unwrap(), leg("flo"), leg("fix"))),
            "Stock" => Pricer::IdentityPricer(IdentityPricer::new(equity.clone().unwrap())),
            "Cash" => Pricer::UnitPricer(UnitPricer::new()),
            "Bond" => Pricer::BondPricer(BondPricer::new(ed.clone(), leg("disc"), fwd.clone(), past.clone())),
            "VanillaCall" | "VanillaPut" => {
                let quanto = x["quanto"].as_array().unwrap().first().map(|q| {
                    let c = q[1].as_str().unwrap();
                    share(Quanto::new(share(Volatility::ConstantVolatility(stored(ConstantVolatility::new(FX_VOL, c.into(), c.into())))), CORR, fx_code(c), q[0].as_str().unwrap().into()))
                });
                Pricer::OptionAnalyticPricer(OptionAnalyticPricer::new(ed.clone(), equity.clone().unwrap(), leg("coll"), leg("borrow"), leg("disc"), vol.clone().unwrap(), quanto))
            }
            _ => Pricer::PlainSwapPricer(PlainSwapPricer::new(ed.clone(), leg("fix"), leg("flo"), fwd.clone(), past.clone(), fx).expect("pricer")),
        };
        World { moved, ed, curves, equity, div, vol, fwd, past, pricer }
    }
    fn time(&self, tenors: &str, k: i64) -> Option<f32> {
        (k > 0).then(|| NullCalendar::default().get_time_difference(&self.e, &self.date(tenors, k).unwrap()))
    }
    fn date(&self, tenors: &str, k: i64) -> Option<OffsetDateTime> {
        (k > 0).then(|| add_period(&self.e, &list(&self.t["cfg"][tenors])[k as usize - 1]))
    }
    /// the value of the instrument in a scenario
    fn value(&self, sc: &Value) -> f64 {
        let c = &self.t["cfg"];
        let w = self.world();
        let n = |j: usize| sc["w"][j].as_i64().unwrap_or_else(|| panic!("harness: scenario {sc}"));
        let mat = || *self.inst.get_maturity().expect("maturity");
        let npv = |w: &World| w.pricer.npv(&self.inst).expect("value") as f64;
        match s(sc, "k") {
            "base" => npv(&w),
            "spot" => {
                *w.equity.as_ref().unwrap().borrow_mut() *= 1.0 + n(0) as f32 * (i(c, "r") as f64 / 1e4) as f32;
                if let Some(v) = &w.vol {
                    v.borrow_mut().build().expect("volatility");
                }
                npv(&w)
            }
            "curve" => {
                w.curves[s(sc, "x")].borrow_mut().bump_time_interval(self.time("rt", n(0)), self.time("rt", n(1)), ppm(c, "rb")).expect("bump");
                npv(&w)
            }
            "div" => {
                let (a, b) = (self.date("dt", n(0)), self.date("dt", n(1)));
                w.div.as_ref().unwrap().borrow_mut().bump_date_interval(a.as_ref(), b.as_ref(), ppm(c, "db")).expect("bump");
                npv(&w)
            }
            "vol" => {
                let xs = xs(c);
                let flat = json!([[0, 0, 0, 0]]) == sc["w"];
                // what is not written on the volatility does not change with it
                if let Some(v) = &w.vol {
                    for k in sc["w"].as_array().unwrap() {
                        let q = |j: usize| k[j].as_i64().unwrap();
                        let x = |q: i64| (q > 0).then(|| xs[q as usize - 1]);
                        v.borrow_mut().bump_volatility(self.time("vt", q(0)), self.time("vt", q(1)), x(q(2)), x(q(3)), ppm(c, if flat { "vb" } else { "vsb" })).expect("bump");
                    }
                }
                npv(&w)
            }
            "date" => {
                let d = self.e + Duration::hours(n(0));
                w.moved.borrow_mut().set_date(d);
                w.ed.borrow_mut().set_date(d);
                let r = npv(&w);
                w.moved.borrow_mut().set_date(self.e);
                r
            }
            "cash" => {
                let end = (self.e + Duration::hours(n(0))).date();
                self.coupons(&w).iter().filter(|(d, _)| d.date() > self.e.date() && d.date() <= end).map(|x| *x.1 as f64).sum()
            }
            "traded" => traded(self.x) as f64,
            "tradeddf" => traded(self.x) as f64 * w.curves[s(sc, "x")].borrow().get_discount_factor_at_date(&mat()).expect("discount") as f64,
            "df" => w.curves[s(sc, "x")].borrow().get_discount_factor_at_date(&mat()).expect("discount") as f64,
            "leg" => {
                let fixed = s(sc, "x") == "fix";
                let flows = if fixed { self.inst.get_fixed_cashflows(&self.e) } else { self.inst.get_floating_cashflows(&self.e, w.fwd.clone(), w.past.clone()) }.expect("flows");
                let c = w.curves[s(self.legs, s(sc, "x"))].borrow();
                flows.iter().filter(|(d, _)| d.date() > self.e.date()).map(|(d, a)| *a as f64 * c.get_discount_factor_at_date(d).expect("discount") as f64).sum()
            }
            k => panic!("harness: scenario {k}"),
        }
    }
    fn coupons(&self, w: &World) -> HashMap<OffsetDateTime, f32> {
        w.pricer.npv_result(&self.inst).expect("result").get_expected_coupon_amount().expect("coupons")
    }
    /// the size of the amounts a value is made of
    fn size(&self) -> f64 {
        let w = self.world();
        let v = w.pricer.npv(&self.inst).expect("value").abs() as f64;
        match s(self.x, "type") {
            "VanillaCall" | "VanillaPut" => 2.0 * spot(&list(&self.x["und"])[0]) as f64,
            "IRS" | "CRS" | "FxSwap" | "FxForward" | "FxSpot" => {
                // the legs offset each other
                let sum = |f: anyhow::Result<HashMap<OffsetDateTime, f32>>| f.expect("flows").values().map(|a| a.abs() as f64).sum::<f64>();
                let k = list(&self.x["fx"]).first().map_or(1.0, |c| rational(&self.t["fx"][c]) as f64);
                v + sum(self.inst.get_fixed_cashflows(&self.e)) + k * sum(self.inst.get_floating_cashflows(&self.e, w.fwd.clone(), w.past.clone()))
            }
            _ => v + self.coupons(&w).values().map(|a| a.abs() as f64).sum::<f64>() * 1.5,
        }
    }
}
type Got = BTreeMap<(String, String), Vec<f64>>;
fn reported(r: &CalculationResult) -> Got {
    let mut g = Got::new();
    let mut one = |w: &str, m: Option<&HashMap<String, f32>>| for (k, v) in m.into_iter().flatten() { g.insert((w.into(), k.clone()), vec![*v as f64]); };
    one("delta", r.get_delta());
    one("gamma", r.get_gamma());
    one("vega", r.get_vega());
    one("rho", r.get_rho());
    one("div", r.get_div_delta());
    let mut row = |w: &str, m: Option<&HashMap<String, Vec<f32>>>| for (k, v) in m.into_iter().flatten() { g.insert((w.into(), k.clone()), v.iter().map(|x| *x as f64).collect()); };
    row("vs", r.get_vega_structure());
    row("rs", r.get_rho_structure());
    row("ds", r.get_div_structure());
    for (k, v) in r.get_vega_matrix().into_iter().flatten() {
        g.insert(("vm".into(), k.clone()), v.iter().map(|x| *x as f64).collect());
    }
    for (k, v) in r.get_fx_exposure().into_iter().flatten() {
        g.insert(("fx".into(), k.as_str().to_string()), vec![*v as f64]);
    }
    if let Some(v) = r.get_value() {
        g.insert(("value".into(), "".into()), vec![v as f64]);
    }
    if let Some(v) = r.get_theta() {
        g.insert(("theta".into(), "".into()), vec![v as f64]);
    }
    if r.get_cashflows().is_some() {
        g.insert(("cash".into(), "".into()), vec![]);
    }
    g
}
/// how far from what is expected, in units of what rounding may leave, an answer may be
const NOISE: f64 = 1.5e-6;
struct Answer { code: String, unit: f64, type_name: String, npv: f64, size: f64, cash: HashMap<OffsetDateTime, f32>, e: BTreeMap<(String, String), Vec<(f64, f64)>> }
fn expected(t: &Value) -> Vec<Answer> {
    let e = eval(i(t, "e"));
    let p = t["p"].as_array().unwrap();
    t["a"]["r"].as_array().unwrap().iter().zip(p).map(|(r, x)| {
        let a = Alone { t, x, legs: &r["legs"], e, inst: instrument(x, e) };
        let (u, size) = (unit(x) as f64, a.size());
        // the same scenarios come up again and again
        let key = |sc: &Value| format!("{}|{}|{}|{}|{}|{}|{}|{sc}", s(x, "code"), t["e"], r["legs"], t["cfg"], t["d"]["div"], t["vol"], t["fx"]);
        let value = |sc: &Value| -> f64 {
            thread_local! { static VALUES: RefCell<HashMap<String, f64>> = RefCell::new(HashMap::new()); }
            let k = key(sc);
            if let Some(v) = VALUES.with(|m| m.borrow().get(&k).copied()) {
                return v;
            }
            let v = a.value(sc);
            VALUES.with(|m| { let mut m = m.borrow_mut(); if m.len() > 200_000 { m.clear(); } m.insert(k, v); });
            v
        };
        let es = r["e"].as_array().unwrap().iter().map(|en| ((s(en, "w").to_string(), s(en, "k").to_string()), en["v"].as_array().unwrap().iter().map(|c| {
            let k = i(c, "n") as f64 / i(c, "d") as f64 * u;
            let (mut sum, mut tol) = (0.0, 0.0);
            for ms in c["t"].as_array().unwrap() {
                let m = ms[0].as_f64().unwrap();
                sum += m * value(&ms[1]);
                tol += m.abs() * size;
            }
            (sum * k, tol * k.abs() * NOISE + 1e-6)
        }).collect())).collect();
        let cash = a.coupons(&a.world());
        Answer { code: s(x, "code").into(), unit: u, type_name: s(x, "type").into(), npv: value(&json!({"k": "base", "w": [], "x": ""})), size, cash, e: es }
    }).collect()
}
fn near(a: f64, (v, tol): (f64, f64)) -> bool { (a - v).abs() <= tol }
fn compare(want: &[&Answer], got: &HashMap<String, CalculationResult>, e: OffsetDateTime, how: &str) -> Result<(), Value> {
    let bad = |what: &str, code: &str, w: Value, g: Value| Err(json!({"what": what, "run": how, "instrument": code, "expected": w, "observed": g}));
    let mut codes: Vec<&String> = got.keys().collect();
    let mut ours: Vec<&String> = want.iter().map(|a| &a.code).collect();
    codes.sort();
    ours.sort();
    if codes != ours {
        return bad("instruments answered", "", json!(ours), json!(codes));
    }
    for a in want {
        let r = &got[&a.code];
        let g = reported(r);
        let (gk, wk): (Vec<_>, Vec<_>) = (g.keys().collect(), a.e.keys().collect());
        if gk != wk {
            return bad("what is reported", &a.code, json!(wk), json!(gk));
        }
        for (k, v) in &a.e {
            let o = &g[k];
            if k.0 == "fx" && a.type_name == "FxFutures" && a.unit != 1.0 && near(o[0], (v[0].0 / a.unit, v[0].1 / a.unit)) {
                known("C18-fx-futures-exposure-per-unit");
                continue;
            }
            if k.0 != "cash" && (o.len() != v.len() || o.iter().zip(v).any(|(o, v)| !near(*o, *v))) {
                return bad(&format!("{} {}", k.0, k.1), &a.code, json!(v.iter().map(|x| x.0).collect::<Vec<_>>()), json!(o));
            }
        }
        if let Some(c) = r.get_cashflows() {
            if c.len() != a.cash.len() || a.cash.iter().any(|(d, x)| !c.get(d).is_some_and(|y| near(*y as f64, (*x as f64, a.size * NOISE)))) {
                return bad("cash flows", &a.code, json!(format!("{:?}", a.cash)), json!(format!("{c:?}")));
            }
        }
        if let Some(n) = r.get_npv_result() {
            if !near(n.get_npv() as f64, (a.npv, a.size * NOISE)) {
                return bad("value of one unit", &a.code, json!(a.npv), json!(n.get_npv()));
            }
        }
        let info = r.get_instrument_info().expect("info");
        if info.get_code() != &a.code || *info.type_name() != a.type_name || info.get_unit_notional() as f64 != a.unit || r.get_evaluation_date() != Some(&e) {
            return bad("what is said of the instrument", &a.code, Value::Null, json!(format!("{info:?} at {:?}", r.get_evaluation_date())));
        }
    }
    Ok(())
}
/// everything in another currency at a rate, or as it is in its own
fn converted(got: &HashMap<String, CalculationResult>) -> Result<(), Value> {
    for (code, r) in got {
        let own = r.get_instrument_info().expect("info").get_currency();
        let other = if own == Currency::KRW { Currency::USD } else { Currency::KRW };
        let k = if own == Currency::KRW { 0.0008 } else { 1300.0 };
        let same = r.representation_currency_conversion(own, 7.0).expect("conversion");
        let conv = r.representation_currency_conversion(other, k).expect("conversion");
        let (a, b) = (reported(r), reported(&conv));
        let ok = same == *r && a.keys().eq(b.keys()) && a.iter().all(|(n, v)| v.iter().zip(&b[n]).all(|(x, y)| (x * k as f64 - y).abs() <= 1e-6 * (x * k as f64).abs()) && v.len() == b[n].len())
            && conv.get_npv_result() == r.get_npv_result() && conv.get_cashflows() == r.get_cashflows()
            // converting once more is converting from the other currency
            && reported(&conv.representation_currency_conversion(other, 7.0).expect("conversion")) == b;
        if !ok {
            return Err(json!({"what": "results in another currency", "instrument": code, "expected": format!("{a:?}"), "observed": format!("{b:?}")}));
        }
    }
    Ok(())
}
fn engine(t: &Value, group: &[Instrument], d: &Data, turn: u64) -> anyhow::Result<Engine> {
    let e = Engine::builder(7, configuration(&t["cfg"], turn)?, eval(i(t, "e")), tables(&t["tab"])).with_instruments(group.to_vec())?;
    let mut e = e.with_parameter_data(d.fx.clone(), d.stock.clone(), d.curve.clone(), d.div.clone(), d.cvol.clone(), d.svol.clone(), d.fxvol.clone(), d.corr.clone(), d.fix.clone())?;
    e.initialize_pricers()?;
    Ok(e)
}
/// the expected cash flows are left out of what is written
fn stored_result(r: &CalculationResult) -> CalculationResult {
    let mut x = stored(r.clone());
    if x.get_cashflows().is_none() {
        if let Some(f) = r.get_cashflows() { x.set_cashflows(f.clone()) }
    }
    assert!(x == *r, "a result reads back different: {r:?} as {x:?}");
    x
}
fn generated(t: &Value, p: &[Instrument], d: &Data, turn: u64) -> anyhow::Result<HashMap<String, CalculationResult>> {
    let mut g = EngineGenerator::builder();
    g.with_configuration(configuration(&t["cfg"], turn)?, eval(i(t, "e")), tables(&t["tab"]))?
        .with_instruments(Instruments::new(p.iter().cloned().map(Rc::new).collect()))?
        .with_data((*d.fx).clone(), (*d.stock).clone(), (*d.curve).clone(), (*d.div).clone(), (*d.cvol).clone(), (*d.svol).clone(), (*d.fxvol).clone(), (*d.corr).clone(), (*d.fix).clone())?
        .with_instrument_categories(categories(&t["cats"]))?;
    g.distribute_instruments()?;
    g.calculate()?;
    Ok(g.get_calculation_results().iter().map(|(k, r)| (k.clone(), stored_result(r))).collect())
}
pub fn replay_one(t: &Value) -> Result<(), Value> {
    if t.get("accepts").is_some() {
        return accepts_one(t);
    }
    let turn = test_no();
    let e = eval(i(t, "e"));
    let d = data(&t["d"], e);
    let mut p: Vec<Instrument> = t["p"].as_array().unwrap().iter().map(|x| instrument(x, e)).collect();
    // the order of a portfolio does not matter
    match turn % 3 { 0 => p.reverse(), 1 => { let n = p.len(); p.rotate_left(n / 2) } _ => {} }
    let ok = t["a"]["ok"] == true;
    let got = match (guard(|| generated(t, &p, &d, turn)), ok) {
        (Err(p), _) => return Err(json!({"what": "panic", "observed": p})),
        (Ok(Ok(_)), false) => return Err(json!({"what": "a portfolio that cannot be valued was answered"})),
        (Ok(Err(_)), false) => return Ok(()),
        (Ok(Err(e)), true) => return Err(json!({"what": "refused", "observed": format!("{e:#}")})),
        (Ok(Ok(r)), true) => r,
    };
    let want = match guard(|| expected(t)) {
        Ok(w) => w,
        Err(p) => return Err(json!({"what": "valuing the instruments alone panicked", "observed": p})),
    };
    compare(&want.iter().collect::<Vec<_>>(), &got, e, "generator")?;
    converted(&got)?;
    if turn % 3 == 1 {
        return Ok(());
    }
    for g in t["a"]["groups"].as_array().unwrap() {
        let codes = list(g);
        let part: Vec<Instrument> = p.iter().filter(|x| codes.contains(x.get_code())).cloned().collect();
        let mine: Vec<&Answer> = want.iter().filter(|a| codes.contains(&a.code)).collect();
        // asking again finds the market as it was
        let r = guard(|| -> anyhow::Result<_> {
            let mut en = engine(t, &part, &d, turn + 1)?;
            let mut out = vec![];
            for _ in 0..2 {
                en.calculate()?;
                out.push(en.get_calculation_result_clone().iter().map(|(k, r)| (k.clone(), stored_result(r))).collect());
                en.reset_instruments_in_action();
                let n = en.get_npvs()?;
                for a in &mine {
                    if !n.get(&a.code).is_some_and(|v| near(*v as f64, (a.npv, a.size * NOISE))) {
                        anyhow::bail!("after a calculation {} is worth {:?}, before it was {}", a.code, n.get(&a.code), a.npv);
                    }
                }
            }
            Ok(out)
        });
        let out = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return Err(json!({"what": "an engine of its own", "observed": format!("{e:#}")})),
            Err(p) => return Err(json!({"what": "panic", "observed": p})),
        };
        compare(&mine, &out[0], e, "engine")?;
        compare(&mine, &out[1], e, "engine, once more")?;
    }
    Ok(())
}
/// which configurations are refused
fn accepts_one(t: &Value) -> Result<(), Value> {
    let f = |k: &str| t[k] == true;
    let b: Vec<f32> = t["bumps"].as_array().unwrap().iter().map(|x| (x.as_i64().unwrap() as f64 / 1e6) as f32).collect();
    let r = guard(|| CalculationConfiguration::new(true, true, f("delta"), f("gamma"), false, false, false, true, false, false, false, false, i(t, "day") as i32, StickynessType::StickyToMoneyness,
        VolatilityInterplator::default(), b[0], b[1], b[2], b[3], b[4], b[5], b[6], vec![], vec![], vec![], Array1::from(vec![]), VanillaOptionCalculationMethod::Analytic).is_ok());
    if r != Ok(t["accepts"] == true) {
        return Err(json!({"what": "configuration", "expected": t["accepts"], "observed": format!("{r:?}")}));
    }
    if t["accepts"] == true { piecewise(&b, f("delta"), i(t, "day") as i32) } else { Ok(()) }
}
/// a configuration put together field by field, in any order, is the one given as a whole, and tells what it was given
fn piecewise(b: &[f32], delta: bool, day: i32) -> Result<(), Value> {
    type C = CalculationConfiguration;
    let n = test_no();
    let on = |k: u64| (n >> (k % 7)) & 1 == 1;
    let (vega, rho, div, theta, vs, rs, ds, vm) = (on(0), on(1), on(2), on(3), on(4), on(5), on(6), on(7) != on(2));
    let stick = if on(8) { StickynessType::StickyToStrike } else { StickynessType::StickyToMoneyness };
    let lv = if on(9) { VolatilityInterplator::AndreasenHuge(Default::default()) } else { VolatilityInterplator::Dupire(Default::default()) };
    let method = [VanillaOptionCalculationMethod::MonteCarlo, VanillaOptionCalculationMethod::FiniteDifference, VanillaOptionCalculationMethod::Analytic][n as usize % 3];
    let v = |x: &[&str]| -> Vec<String> { x.iter().map(|s| s.to_string()).collect() };
    let (rt, vt, dt, xs) = (v(&["1M", "2Y"]), v(&["3M"]), v(&["6M", "9M", "1Y"]), Array1::from(vec![0.8f32, 1.0, 1.3]));
    // (there is no setter for these two and the dividend bump)
    let whole = C::new(true, true, delta, delta, vega, rho, div, theta, vs, rs, ds, vm, day, stick, lv.clone(), b[0], b[1], b[2], b[3], b[4], b[5], C::default().get_div_bump_value(),
        rt.clone(), vt.clone(), dt.clone(), xs.clone(), method).expect("harness: accepted a moment ago");
    // what no one asked for: values and exposures, nothing else, and bumps of one percent or one basis point
    let d = C::default();
    let flags = [d.get_delta_calculation(), d.get_gamma_calculation(), d.get_vega_calculation(), d.get_vega_structure_calculation(), d.get_vega_matrix_calculation(), d.get_rho_calculation(),
        d.get_rho_structure_calculation(), d.get_div_delta_calculation(), d.get_div_structure_calculation(), d.get_theta_calculation()];
    let bumps = [d.get_delta_bump_ratio(), d.get_gamma_bump_ratio(), d.get_vega_bump_value(), d.get_vega_structure_bump_value(), d.get_rho_bump_value(), d.get_div_bump_value()];
    if flags.contains(&true) || !d.get_npv_calculation() || !d.get_fx_exposure_calculation() || bumps != [0.01, 0.01, 0.01, 0.01, 0.0001, 0.0001] || d.get_theta_day() != 1
        || d.get_stickyness_type() != StickynessType::StickyToMoneyness || d.get_vanilla_option_calculation_method() != VanillaOptionCalculationMethod::Analytic
    {
        return Err(json!({"what": "default configuration", "observed": format!("{d:?}")}));
    }
    let (rt2, vt2, dt2, xs2, lv2) = (rt.clone(), vt.clone(), dt.clone(), xs.clone(), lv.clone());
    let mut set: Vec<Box<dyn FnOnce(C) -> C>> = vec![
        Box::new(move |c| c.with_delta_calculation(delta)), Box::new(move |c| c.with_gamma_calculation(delta)), Box::new(move |c| c.with_vega_calculation(vega)),
        Box::new(move |c| c.with_rho_calculation(rho)), Box::new(move |c| c.with_div_delta_calculation(div)), Box::new(move |c| c.with_theta_calculation(theta)),
        Box::new(move |c| c.with_vega_structure_calculation(vs)), Box::new(move |c| c.with_rho_structure_calculation(rs)), Box::new(move |c| c.with_div_structure_calculation(ds)),
        Box::new(move |c| c.with_vega_matrix_calculation(vm)), Box::new(move |c| c.with_theta_day(day)), Box::new(move |c| c.with_stickyness_type(stick)),
        Box::new(move |c| c.with_lv_interpolator(lv2)), Box::new({ let x = b[0]; move |c| c.with_delta_bump_ratio(x) }), Box::new({ let x = b[1]; move |c| c.with_gamma_bump_ratio(x) }),
        Box::new({ let x = b[2]; move |c| c.with_vega_bump_value(x) }), Box::new({ let x = b[3]; move |c| c.with_vega_structure_bump_value(x) }), Box::new({ let x = b[4]; move |c| c.with_vega_matrix_bump_value(x) }),
        Box::new({ let x = b[5]; move |c| c.with_rho_bump_value(x) }), Box::new(move |c| c.with_rho_structure_tenors(rt2)), Box::new(move |c| c.with_vega_structure_tenors(vt2)),
        Box::new(move |c| c.with_div_structure_tenors(dt2)), Box::new(move |c| c.with_vega_matrix_spot_moneyness(xs2)), Box::new(move |c| c.with_vanilla_option_calculation_method(method)),
    ];
    let k = n as usize % set.len();
    set.rotate_left(k);
    let c = set.into_iter().fold(C::default(), |c, f| f(c));
    for (how, c) in [("as a whole", &whole), ("piecewise", &c)] {
        let flags = [c.get_npv_calculation(), c.get_fx_exposure_calculation(), c.get_delta_calculation(), c.get_gamma_calculation(), c.get_vega_calculation(), c.get_rho_calculation(), c.get_div_delta_calculation(),
            c.get_theta_calculation(), c.get_vega_structure_calculation(), c.get_rho_structure_calculation(), c.get_div_structure_calculation(), c.get_vega_matrix_calculation()];
        let numbers = [c.get_delta_bump_ratio(), c.get_gamma_bump_ratio(), c.get_vega_bump_value(), c.get_vega_structure_bump_value(), c.get_rho_bump_value()];
        if flags != [true, true, delta, delta, vega, rho, div, theta, vs, rs, ds, vm] || numbers != [b[0], b[1], b[2], b[3], b[5]] || c.get_theta_day() != day
            || c.get_stickyness_type() != stick || c.get_lv_interpolator() != lv || c.get_vanilla_option_calculation_method() != method
            || *c.get_rho_structure_tenors() != rt || *c.get_vega_structure_tenors() != vt || *c.get_div_structure_tenors() != dt || *c.get_vega_matrix_spot_moneyness() != xs || *c != whole {
            return Err(json!({"what": "what a configuration says", "given": how, "flags": [true, true, delta, delta, vega, rho, div, theta, vs, rs, ds, vm], "numbers": b, "day": day, "observed": format!("{c:?}")}));
        }
    }
    Ok(())
}
