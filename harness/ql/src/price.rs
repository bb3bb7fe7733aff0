//! Values of single instruments against the specification's expressions over what the market shows.
use crate::cal::*;
use crate::cash::{self, zero_curve};
use crate::util::*;
use ndarray::{Array1, Array2};
use quantlib::currency::{Currency, FxCode};
use quantlib::data::{surface_data::SurfaceData, vector_data::VectorData};
use quantlib::enums::*;
use quantlib::evaluation_date::EvaluationDate;
use quantlib::instrument::{Instrument, InstrumentTrait};
use quantlib::instruments::ktbf::{KtbfVirtualBond, KTBF};
use quantlib::instruments::{futures::Futures, fx_futures::FxFutures, stock::Stock, vanilla_option::VanillaOption};
use quantlib::parameters::volatilities::{constant_volatility::ConstantVolatility, local_volatility_surface::LocalVolatilitySurface, volatiltiy_interpolator::VolatilityInterplator};
use quantlib::parameters::{discrete_ratio_dividend::DiscreteRatioDividend, market_price::MarketPrice, quanto::Quanto, volatility::Volatility, zero_curve::ZeroCurve};
use quantlib::pricing_engines::{futures_pricer::FuturesPricer, fx_futures_pricer::FxFuturesPricer, identity_pricer::IdentityPricer, krx_yield_pricer::KrxYieldPricer,
    ktbf_pricer::KtbfPricer, option_analytic_pricer::OptionAnalyticPricer, pricer::Pricer, pricer::PricerTrait};
use quantlib::time::calendar_trait::CalendarTrait;
use quantlib::time::calendars::nullcalendar::NullCalendar;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use time::{Duration, OffsetDateTime};

type Shared<T> = Rc<RefCell<T>>;
fn share<T>(x: T) -> Shared<T> { Rc::new(RefCell::new(x)) }
const SPOT: f32 = 250.0;
const NAMES: [&str; 5] = ["coll", "borrow", "disc", "fix", "flo"];
struct Market { ed: Shared<EvaluationDate>, curves: HashMap<&'static str, Shared<ZeroCurve>>, price: Shared<MarketPrice>, div: Option<Shared<DiscreteRatioDividend>>,
                fx: Shared<MarketPrice>, vol: Option<Shared<Volatility>>, fxvol: Shared<Volatility>, corr: f64, own: Shared<EvaluationDate> }
fn market(e: OffsetDateTime, t: &Value) -> Market {
    thread_local! { static SETS: RefCell<HashMap<OffsetDateTime, (Shared<EvaluationDate>, Vec<ZeroCurve>)>> = RefCell::new(HashMap::new()); }
    let (ed, cs) = SETS.with(|m| m.borrow_mut().entry(e).or_insert_with(|| {
        let ed = share(stored(EvaluationDate::new(e)));
        let cs = (0..5).map(|k| {
            let r = |x: f32| x + 0.004 * ((k * 3) % 5) as f32;
            let c = zero_curve(&ed, &[r(0.021), r(0.034), r(0.027)], &[0.1, 0.8 + 0.1 * k as f32, 4.0], NAMES[k]);
            let c = c.borrow().clone();
            c
        }).collect();
        (ed, cs)
    }).clone());
    ed.borrow_mut().set_date(e);
    let curves = NAMES.iter().zip(cs).map(|(n, c)| (*n, share(c))).collect::<HashMap<_, _>>();
    // what is only known to this market observes its own date, moved along with the curves'
    let own = share(stored(EvaluationDate::new(e)));
    let mut div = None;
    if t["div"] == true {
        let dates: Vec<_> = [1, 40, 200, 450].iter().map(|d| e + Duration::days(*d)).collect();
        let data = VectorData::new(Array1::from(vec![1.0, 3.0, 2.0, 5.0]), Some(dates), None, Some(e), Currency::KRW, "d".into(), "d".into()).map(stored).expect("harness: dividends");
        div = Some(share(DiscreteRatioDividend::new(own.clone(), &data, SPOT, "d".into(), "d".into()).expect("dividend")));
    }
    let price = share(MarketPrice::new(SPOT, e, div.clone(), Currency::KRW, "p".into(), "p".into()));
    own.borrow_mut().add_marketprice_observer(price.clone());
    if let Some(d) = &div {
        own.borrow_mut().add_dividend_observer(d.clone());
    }
    let number = |v: f32| share(Volatility::ConstantVolatility(stored(ConstantVolatility::new(v, "v".into(), "v".into()))));
    let vol = t["vol"].as_str().map(|k| match k {
        "low" => number(0.06),
        "mid" => number(0.23),
        "high" => number(0.7),
        _ => {
            let stick = if test_no() % 2 == 0 { StickynessType::StickyToMoneyness } else { StickynessType::StickyToStrike };
            let v = LocalVolatilitySurface::initialize(own.clone(), price.clone(), curves["coll"].clone(), curves["borrow"].clone(), stick, VolatilityInterplator::default(), "v".into(), "v".into());
            let dates = [40, 130, 400, 800].iter().map(|d| e + Duration::days(*d)).collect();
            let vals = Array2::from_shape_fn((4, 5), |(a, b)| 0.22 + 0.01 * a as f32 - 0.02 * (b as f32 - 2.0) + 0.012 * (b as f32 - 2.0).powi(2));
            let xs = Array1::from([0.7, 0.9, 1.0, 1.1, 1.3].iter().map(|x| x * SPOT).collect::<Vec<_>>());
            let d = stored(SurfaceData::new(Some(SPOT), vals, dates, xs, Some(e), Currency::KRW, "v".into(), "v".into()));
            let mut v = Volatility::LocalVolatilitySurface(v.with_market_surface(&d, ["1M", "6M", "2Y"].iter().map(|x| x.to_string()).collect(), Array1::from(vec![0.7, 1.0, 1.4])).expect("volatility"));
            v.build().expect("volatility");
            share(v)
        }
    });
    let fx = share(MarketPrice::new(1300.0, e, None, Currency::KRW, "USDKRW".into(), "USDKRW".into()));
    Market { ed, curves, price, div, fx, vol, fxvol: number(0.12), corr: t["corr"].as_f64().unwrap_or(0.0) / 1000.0, own }
}
impl Market {
    fn days(&self, n: i64) {
        let d = self.ed.borrow().get_date_clone() + Duration::days(n);
        self.ed.borrow_mut().set_date(d);
        self.own.borrow_mut().set_date(d);
    }
    fn change(&self, a: &str) {
        if let Some(n) = a.strip_prefix("day") {
            return self.days(n.parse().unwrap());
        }
        if let Some(n) = a.strip_prefix("back") {
            return self.days(-n.parse::<i64>().unwrap());
        }
        match a {
            "spot+" => *self.price.borrow_mut() *= 1.07,
            "spot-" => *self.price.borrow_mut() *= 0.93,
            "fx+" => *self.fx.borrow_mut() *= 1.04,
            "vol+" => if let Some(v) = &self.vol { v.borrow_mut().bump_volatility(None, None, None, None, 0.03).expect("bump") },
            "fxvol+" => self.fxvol.borrow_mut().bump_volatility(None, None, None, None, 0.05).expect("bump"),
            "div+" => if let Some(d) = &self.div { d.borrow_mut().bump_date_interval(None, None, 0.7).expect("bump") },
            _ => self.curves[a.strip_suffix('+').unwrap_or_else(|| panic!("harness: change {a}"))].borrow_mut().bump_time_interval(None, None, 0.013).expect("bump"),
        }
    }
}
/// the numbers an expression is over
struct Leaves<'a> { m: &'a Market, mat: OffsetDateTime, strike: f64, yields: Vec<f64>, flows: Vec<f64> }
impl Leaves<'_> {
    fn time(&self) -> f32 { NullCalendar::default().get_time_difference(&self.m.ed.borrow().get_date_clone(), &self.mat) }
    fn eval(&self, v: &Value) -> f64 {
        let a = |k: usize| self.eval(&v["a"][k]);
        match s(v, "o") {
            "num" => i(v, "n") as f64 / i(v, "d") as f64,
            "add" => a(0) + a(1),
            "sub" => a(0) - a(1),
            "mul" => a(0) * a(1),
            "div" => a(0) / a(1),
            "pow" => a(0).powf(a(1)),
            "fn" => {
                let x = a(0);
                match s(v, "n") {
                    "exp" => x.exp(),
                    "ln" => x.ln(),
                    "sqrt" => x.sqrt(),
                    "cdf" => cdf(x),
                    "vol" => self.m.vol.as_ref().unwrap().borrow().get_value(self.time(), x as f32) as f64,
                    "fxvol" => self.m.fxvol.borrow().get_value(self.time(), x as f32) as f64,
                    f => panic!("harness: function {f}"),
                }
            }
            "leaf" => match s(v, "n") {
                "spot" => self.m.price.borrow().get_value() as f64,
                "fx" => self.m.fx.borrow().get_value() as f64,
                "time" => self.time() as f64,
                "rest" => self.m.price.borrow().get_dividend_deduction_ratio(&self.mat).expect("dividends") as f64,
                "df" => self.m.curves[s(v, "d")].borrow().get_discount_factor_at_date(&self.mat).expect("discount factor") as f64,
                "corr" => self.m.corr,
                "strike" => self.strike,
                "yield" => self.yields[(i(v, "d") - 1).max(0) as usize],
                "flow" => self.flows[i(v, "d") as usize - 1],
                f => panic!("harness: leaf {f}"),
            },
            f => panic!("harness: {f}"),
        }
    }
}
/// the normal distribution: series in the middle, continued fraction in the tails
fn cdf(x: f64) -> f64 {
    let d = (-x * x / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    if x.abs() < 4.0 {
        let (mut term, mut sum, mut k) = (x, x, 1.0);
        while term.abs() > 1e-17 * sum.abs().max(1e-300) && k < 400.0 {
            k += 2.0;
            term *= x * x / k;
            sum += term;
        }
        0.5 + d * sum
    } else {
        let z = x.abs();
        let tail = d / (1..60).rev().fold(z, |c, k| z + k as f64 / c);
        if x > 0.0 { 1.0 - tail } else { tail }
    }
}
fn pricer(m: &Market, t: &Value) -> Pricer {
    let c = |k: &str| m.curves[k].clone();
    match s(t, "fam") {
        "fut" => Pricer::FuturesPricer(FuturesPricer::new(m.price.clone(), c("coll"), c("borrow"))),
        "fxf" => Pricer::FxFuturesPricer(FxFuturesPricer::new(m.fx.clone(), c("flo"), c("fix"))),
        "spot" => Pricer::IdentityPricer(IdentityPricer::new(m.price.clone())),
        "bfu" => Pricer::KtbfPricer(KtbfPricer::new(m.ed.clone(), c("disc"), c("borrow"))),
        _ => {
            let q = (i(t, "corr") != 1000).then(|| share(Quanto::new(m.fxvol.clone(), m.corr as f32, FxCode::new(Currency::USD, Currency::KRW), "S".into())));
            Pricer::OptionAnalyticPricer(OptionAnalyticPricer::new(m.ed.clone(), m.price.clone(), c("coll"), c("borrow"), c("disc"), m.vol.clone().unwrap(), q))
        }
    }
}
fn instrument(t: &Value, e: OffsetDateTime, x: &Value) -> Instrument { crate::matching::stored_instrument(new_instrument(t, e, x)) }
fn new_instrument(t: &Value, e: OffsetDateTime, x: &Value) -> Instrument {
    let m = if t["days"].is_i64() { e + Duration::days(i(t, "days")) } else { e };
    let (w, k) = (Currency::KRW, || "k".to_string());
    match s(t, "fam") {
        "fut" => Instrument::Futures(Futures::new(240.0, e, m, m, m, 10.0, w, w, "S".into(), k(), k())),
        "fxf" => Instrument::FxFutures(FxFutures::new(1280.0, e, m, m, m, 10.0, w, Currency::USD, k(), k())),
        "spot" => Instrument::Stock(Stock::new(k(), k(), vec!["S".into()], w, None)),
        "bfu" => {
            let bonds = x["b"].as_array().unwrap().iter().map(|b| cash::bond(&b["t"], test_no(), Some(m))).collect();
            let v = KtbfVirtualBond::new(i(t, "years") as i32, (i(t, "c") as f64 / 1e4) as f32, freq(s(t, "f")), 100.0);
            Instrument::KTBF(KTBF::new(w, 10.0, e, m, m, v, bonds, "tag".into(), k(), k()).expect("bond future"))
        }
        _ => {
            let (kind, und) = (if t["put"] == true { OptionType::Put } else { OptionType::Call }, if i(t, "corr") != 1000 { Currency::USD } else { w });
            Instrument::VanillaOption(VanillaOption::new(strike(t), 10.0, e, m, m, m, vec!["S".into()], und, w, kind, OptionExerciseType::European, OptionDailySettlementType::NotSettled, k(), k()))
        }
    }
}
fn strike(t: &Value) -> f32 { (t["k"].as_f64().unwrap_or(0.0) / 1e6 * SPOT as f64) as f32 }

pub fn replay_one(v: &Value) -> Result<(), Value> {
    let t = &v["price"];
    let e = from_nso(&v["e"]);
    let bad = |what: &str, got: Value, want: Value| Err(json!({"what": what, "expected": want, "observed": got}));
    let off = |got: f32, want: f64, size: f64| !((got as f64 - want).abs() <= size);
    match s(t, "fam") {
        "krx" => {
            let p = from_nso(&v["x"]["p"]);
            let b = &v["x"]["b"][0];
            let (ed, fwd, past) = cash::world(p, &b["t"]);
            let y = i(t, "y") as f64 / 1e4;
            let float = s(&b["t"], "kind") == "frn";
            let bond = cash::bond(&b["t"], test_no(), if test_no() % 3 == 0 { None } else { Some(p) });
            let pr = KrxYieldPricer::new(ed, y as f32, float.then(|| fwd.clone()), past);
            let m = market(e, t);
            let flows = cash::flows(&b["flows"], i(&v["x"]["p"], "o"), &fwd);
            let want = Leaves { m: &m, mat: e, strike: 0.0, yields: vec![y], flows: flows.iter().map(|f| f.1).collect() }.eval(&v["v"]);
            let inst = Instrument::Bond(bond.clone());
            let r = guard(|| pr.npv(&inst).map_err(|e| e.to_string()));
            let size = 5e-6 * (0.5 + flows.iter().map(|f| f.2).sum::<f64>());
            match r {
                Ok(Ok(g)) if !off(g, want, size) => {}
                q => return bad("price of a bond", json!(format!("{q:?}")), json!(want)),
            }
            if !flows.is_empty() && test_no() % 4 == 0 {
                let r = guard(|| pr.find_bond_yield(bond, want as f32, Some(0.02)).map_err(|e| e.to_string()));
                // the solver is content with a tenth of a percent of the face
                let back = |y: f32| Leaves { m: &m, mat: e, strike: 0.0, yields: vec![y as f64], flows: flows.iter().map(|f| f.1).collect() }.eval(&v["v"]);
                match r {
                    Ok(Ok(y)) if !off(back(y) as f32, want, 1e-3) => {}
                    q => return bad("yield of a bond", json!(format!("{q:?}")), json!(y)),
                }
            }
            Ok(())
        }
        "std" => {
            let y = i(t, "y") as f64 / 1e4;
            let m = market(e, t);
            let want = Leaves { m: &m, mat: e, strike: 0.0, yields: vec![y], flows: vec![] }.eval(&v["v"]);
            let b = stored(KtbfVirtualBond::new(i(t, "years") as i32, (i(t, "c") as f64 / 1e4) as f32, freq(s(t, "f")), 100.0));
            let got = guard(|| b.npv(y as f32));
            match got {
                Ok(g) if !off(g, want * 100.0, 2e-3) => Ok(()),
                q => bad("price of a standard bond", json!(format!("{q:?}")), json!(want * 100.0)),
            }
        }
        fam => {
            let m = market(e, t);
            let inst = instrument(t, e, &v["x"]);
            let pr = pricer(&m, t);
            let mut done = vec!["".to_string()];
            let moves: Vec<String> = t["mv"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            for a in std::iter::once(None).chain(moves.iter().map(Some)) {
                if let Some(a) = a {
                    m.change(a);
                    done.push(a.clone());
                }
                let mat = *inst.get_maturity().unwrap_or(&e);
                if fam != "spot" && mat <= m.ed.borrow().get_date_clone() {
                    break;
                }
                let mut l = Leaves { m: &m, mat, strike: strike(t) as f64, yields: vec![], flows: vec![] };
                let mut size = 3e-6 * (m.price.borrow().get_value() as f64 + l.strike);
                if fam == "bfu" {
                    let p = from_nso(&v["x"]["p"]);
                    for b in v["x"]["b"].as_array().unwrap() {
                        let d = m.curves["disc"].borrow();
                        let df = |t: &OffsetDateTime| d.get_discount_factor_at_date(t).expect("discount factor") as f64;
                        let flows = cash::flows(&b["flows"], 540, &m.curves["disc"]);
                        let value = flows.iter().map(|f| f.1 * df(&f.0)).sum::<f64>() / df(&p);
                        let (mut lo, mut hi) = (-0.5, 1.0);
                        for _ in 0..60 {
                            let y = (lo + hi) / 2.0;
                            let x = Leaves { m: &m, mat, strike: 0.0, yields: vec![y], flows: flows.iter().map(|f| f.1).collect() }.eval(&b["krx"]);
                            if x > value { lo = y } else { hi = y }
                        }
                        l.yields.push(lo);
                    }
                    size = 0.15;
                }
                let unit = if fam == "bfu" { 100.0 } else { 1.0 };
                let want = l.eval(&v["v"]) * unit;
                if fam == "fxf" { size = 3e-6 * want; }
                let r = guard(|| pr.npv(&inst).map_err(|e| e.to_string()).and_then(|a| Ok((a, pr.npv_result(&inst).map_err(|e| e.to_string())?.get_npv()))));
                match r {
                    Ok(Ok((a, b))) if !off(a, want, size) && !off(b, want, size) => {}
                    q => return bad(&format!("value after {}", done.join(" ")), json!(format!("{q:?}")), json!(want)),
                }
            }
            Ok(())
        }
    }
}
