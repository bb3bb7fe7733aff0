//! Pillar lookup, interpolation, surfaces, and putting amounts on grids.
use crate::util::*;
use ndarray::{Array1, Array2};
use quantlib::math::interpolator::{ExtraPolationType as E, Interpolator1D, InterpolatorReal1D};
use quantlib::math::interpolators::bilinear_interpolator::BilinearInterpolator;
use quantlib::math::interpolators::linear_interpolator::LinearInterpolator1D;
use quantlib::math::interpolators::stepwise_interpolatior::{ConstantInterpolator1D, StepwiseInterpolator1D};
use quantlib::utils::distribute_value::distribute_value_on_vector;
use quantlib::utils::find_index::{binary_search_index, vectorized_search_index_for_sorted_vector};
use quantlib::utils::find_index_ndarray::{binary_search_index_ndarray, vectorized_search_index_for_sorted_ndarray};
use serde_json::{json, Value};
use std::cell::Cell;

pub const UNIT: f64 = 14400.0;
thread_local! { static TURN: Cell<u64> = const { Cell::new(0) }; }
fn turn() -> u64 {
    TURN.with(|x| { x.set(x.get() + 1); x.get() })
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn ext(e: &str, t: u64) -> (E, bool) {
    match e {
        "off" => ([E::Flat, E::Linear, E::None][(t % 3) as usize], false),
        "flat" => (E::Flat, true),
        "linear" => (E::Linear, true),
        "none" => (E::None, true),
        x => panic!("harness: extrapolation {x}"),
    }
}
/// stretches that keep every coordinate exact
#[derive(Clone, Copy)]
struct Map { a: f32, b: f32 }
impl Map {
    fn new(t: u64) -> Map {
        let (a, b) = [(1.0, 0.0), (0.25, 3.0), (2.0, -5.0), (0.5, -1.0), (16.0, 1000.0)][(t % 5) as usize];
        Map { a, b }
    }
    fn pillar(&self, d: i64) -> f32 { d as f32 * self.a + self.b }
    fn query(&self, q: i64) -> f32 { q as f32 * 0.5 * self.a + self.b }
}
fn close(got: f32, want: i64) -> bool {
    let w = want as f64 / UNIT;
    (got as f64 - w).abs() <= 2e-5 * (1.0 + w.abs())
}
type Ans = Result<Vec<f32>, String>;
fn same(got: &Result<Ans, String>, ok: bool, want: &[i64]) -> bool {
    match got {
        Ok(Ok(v)) => ok && v.len() == want.len() && v.iter().zip(want).all(|(g, w)| close(*g, *w)),
        Ok(Err(_)) => !ok,
        Err(_) => false,
    }
}
enum Pol { Lin(LinearInterpolator1D), StepR(StepwiseInterpolator1D<f32>), StepI(StepwiseInterpolator1D<i32>) }
fn build(p: &Value, m: Map, t: u64) -> Result<Pol, String> {
    let d = ints(&p["d"]);
    let v: Array1<f32> = ints(&p["v"]).iter().map(|x| *x as f32).collect();
    let dr: Array1<f32> = d.iter().map(|x| m.pillar(*x)).collect();
    let e = p["ext"].as_str().unwrap();
    if p["kind"] == "linear" {
        let (e, allow) = ext(e, t);
        return LinearInterpolator1D::new(dr, v, e, allow).map(Pol::Lin).map_err(|e| e.to_string());
    }
    let (l, r) = if e == "ends" { (p["l"].as_i64().map(|x| x as f32), p["r"].as_i64().map(|x| x as f32)) } else { (None, None) };
    let allow = e != "off";
    if t % 2 == 0 {
        StepwiseInterpolator1D::new(dr, v, allow, l, r).map(Pol::StepR).map_err(|e| e.to_string())
    } else {
        let di: Array1<i32> = d.iter().map(|x| 2 * *x as i32).collect();
        StepwiseInterpolator1D::new(di, v, allow, l, r).map(Pol::StepI).map_err(|e| e.to_string())
    }
}
impl Pol {
    fn one(&self, m: Map, q: i64) -> Ans {
        match self {
            Pol::Lin(x) => x.interpolate(m.query(q)),
            Pol::StepR(x) => x.interpolate(m.query(q)),
            Pol::StepI(x) => x.interpolate(q as i32),
        }.map(|x| vec![x]).map_err(|e| e.to_string())
    }
    fn all(&self, m: Map, qs: &[i64]) -> Ans {
        let r: Array1<f32> = qs.iter().map(|q| m.query(*q)).collect();
        match self {
            Pol::Lin(x) => x.vectorized_interpolate_for_sorted_ndarray(&r),
            Pol::StepR(x) => x.vectorized_interpolate_for_sorted_ndarray(&r),
            Pol::StepI(x) => x.vectorized_interpolate_for_sorted_ndarray(&qs.iter().map(|q| *q as i32).collect()),
        }.map(|x| x.to_vec()).map_err(|e| e.to_string())
    }
}

pub fn replay_one(v: &Value) -> Result<(), Value> {
    if v.get("p").is_some() { ask(v) } else if v.get("rows").is_some() { surface(v) } else { puts(v) }
}
fn ask(v: &Value) -> Result<(), Value> {
    let t = turn();
    let m = Map::new(t);
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got, "scale": m.a, "shift": m.b}));
    let (d, q, idx) = (ints(&v["p"]["d"]), ints(&v["q"]), ints(&v["idx"]));
    let dr: Vec<f32> = d.iter().map(|x| m.pillar(*x)).collect();
    let da = Array1::from(dr.clone());
    let d2: Vec<i32> = d.iter().map(|x| 2 * *x as i32).collect();
    for (k, &x) in q.iter().enumerate() {
        let want = idx[k] as usize - 1;
        let r = guard(|| (binary_search_index(&dr, m.query(x)), binary_search_index(&d2, x as i32), binary_search_index_ndarray(&da, m.query(x))));
        if r != Ok((want, want, want)) {
            return bad("index lookup", format!("{r:?} at query {k}"));
        }
    }
    let qa: Array1<f32> = q.iter().map(|x| m.query(*x)).collect();
    let r = guard(|| vectorized_search_index_for_sorted_ndarray(&da, &qa));
    if r.as_ref().map(|r| r.iter().map(|x| *x as i64 + 1).collect::<Vec<_>>()) != Ok(idx.clone()) {
        return bad("vectorized index lookup", format!("{r:?}"));
    }
    let r = guard(|| (vectorized_search_index_for_sorted_vector(&dr, qa.as_slice().unwrap()), vectorized_search_index_for_sorted_vector(&d2, &q.iter().map(|x| *x as i32).collect::<Vec<_>>())));
    let want: Vec<usize> = idx.iter().map(|k| *k as usize - 1).collect();
    if r != Ok((want.clone(), want)) {
        return bad("index lookup in a list", format!("{r:?}"));
    }
    let pol = match guard(|| build(&v["p"], m, t)) {
        Ok(Ok(p)) => p,
        x => return bad("construction", format!("{:?}", x.map(|r| r.map(|_| ())))),
    };
    for (k, &x) in q.iter().enumerate() {
        let (ok, w) = (v["one"][k]["ok"] == true, i(&v["one"][k], "v"));
        let r = guard(|| pol.one(m, x));
        if !same(&r, ok, &[w]) {
            return bad("interpolate", format!("{r:?} at query {k}"));
        }
    }
    let r = guard(|| pol.all(m, &q));
    if !same(&r, v["all"]["ok"] == true, &ints(&v["all"]["v"])) {
        return bad("vectorized interpolate", format!("{r:?}"));
    }
    if t % 16 == 0 {
        let c = guard(|| (|| -> anyhow::Result<_> {
            let c = ConstantInterpolator1D::new(2.5)?;
            let one = Interpolator1D::<f32>::interpolate(&c, qa[0])?;
            let all = Interpolator1D::<f32>::vectorized_interpolate_for_sorted_ndarray(&c, &qa)?;
            Ok(one == 2.5 && all == Array1::from_elem(qa.len(), 2.5f32))
        })().map_err(|e| e.to_string()));
        if c != Ok(Ok(true)) {
            return bad("constant interpolator", format!("{c:?}"));
        }
    }
    // a grid in the wrong order, or with a value too few, is refused
    if t % 16 == 8 {
        let mut p = v["p"].clone();
        p["v"].as_array_mut().unwrap().push(json!(0));
        match guard(|| build(&p, m, t).is_err()) {
            Ok(true) => {}
            x => return bad("lengths that differ are refused", format!("{x:?}")),
        }
        if d.len() > 1 {
            let mut p = v["p"].clone();
            p["d"].as_array_mut().unwrap().reverse();
            match guard(|| build(&p, m, t).is_err()) {
                Ok(true) => {}
                x => return bad("a decreasing grid is refused", format!("{x:?}")),
            }
        }
    }
    Ok(())
}
fn sheet(t: &[i64], x: &[i64], rows: &[Vec<i64>], te: (E, bool), xe: (E, bool), mt: Map, mx: Map, way: bool) -> Result<BilinearInterpolator, String> {
    let ta: Array1<f32> = t.iter().map(|k| mt.pillar(*k)).collect();
    let xa: Array1<f32> = x.iter().map(|k| mx.pillar(*k)).collect();
    if way {
        let vals = Array2::from_shape_fn((t.len(), x.len()), |(a, b)| rows[a][b] as f32);
        BilinearInterpolator::new_from_rectangle_data(ta, xa, vals, xe.1, xe.0, te.1, te.0)
    } else {
        rows.iter().map(|r| LinearInterpolator1D::new(xa.clone(), r.iter().map(|k| *k as f32).collect(), xe.0, xe.1))
            .collect::<anyhow::Result<Vec<_>>>()
            .and_then(|l| BilinearInterpolator::new(ta, l, te.1, te.0))
    }.map_err(|e| e.to_string())
}
fn surface(v: &Value) -> Result<(), Value> {
    let n = turn();
    let (mt, mx) = (Map::new(n), Map::new(n / 5));
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got}));
    let (t, x) = (ints(&v["t"]), ints(&v["x"]));
    let rows: Vec<Vec<i64>> = v["rows"].as_array().unwrap().iter().map(ints).collect();
    let te = ext(v["te"].as_str().unwrap(), n);
    let xe = ext(v["xe"].as_str().unwrap(), n / 3);
    let q = ints(&v["q"]);
    let (ok, w) = (v["a"]["ok"] == true, i(&v["a"], "v"));
    for way in [true, false] {
        let r = guard(|| sheet(&t, &x, &rows, te, xe, mt, mx, way).map(|b| b.interpolate(mt.query(q[0]), mx.query(q[1])).map(|x| vec![x]).map_err(|e| e.to_string())));
        let r = match r {
            Ok(Ok(a)) => Ok(a),
            Ok(Err(e)) => return bad("construction", e),
            Err(e) => Err(e),
        };
        if !same(&r, ok, &[w]) {
            return bad("surface", format!("{r:?} rectangle={way}"));
        }
    }
    Ok(())
}
fn puts(v: &Value) -> Result<(), Value> {
    let n = turn();
    let m = Map::new(n);
    let d = ints(&v["d"]);
    let loc: Vec<f32> = d.iter().map(|k| m.pillar(*k)).collect();
    let mut vec = vec![0f32; d.len()];
    let bad = |what: &str, got: String| Err(json!({"what": what, "observed": got, "scale": m.a, "shift": m.b}));
    for h in v["h"].as_array().unwrap() {
        let r = guard(|| distribute_value_on_vector(&mut vec, i(h, "a") as f32, m.query(i(h, "q")), &loc).map_err(|e| e.to_string()));
        if r != Ok(Ok(())) {
            return bad("distribute_value_on_vector", format!("{r:?}"));
        }
    }
    let r = Ok(Ok(vec.clone()));
    if !same(&r, true, &ints(&v["vec"])) {
        return bad("distributed amounts", format!("{vec:?}"));
    }
    let mut longer = vec.clone();
    longer.push(0.0);
    let r = guard(|| distribute_value_on_vector(&mut longer, 1.0, 0.0, &loc).is_err());
    if r != Ok(true) {
        return bad("vectors of different lengths are refused", format!("{r:?}"));
    }
    Ok(())
}

fn scaled(r: &Ans) -> Value {
    match r {
        Ok(v) => json!({"ok": true, "v": v.iter().map(|x| (*x as f64 * UNIT).round() as i64).collect::<Vec<_>>()}),
        Err(_) => json!({"ok": false, "v": []}),
    }
}
fn grid(g: &mut Rng, n: i64, gap: i64) -> Vec<i64> {
    let mut d = vec![g.range(-20, 20)];
    for _ in 1..n {
        let k = *d.last().unwrap() + g.range(1, gap);
        d.push(k);
    }
    d
}
/// half the questions at or next to a pillar, some outside
fn question(g: &mut Rng, d: &[i64], out: i64) -> i64 {
    let (a, b) = (2 * d[0] - out, 2 * d[d.len() - 1] + out);
    if g.chance(1, 2) { (2 * *g.pick(d) + g.range(-1, 1)).clamp(a, b) } else { g.range(a, b) }
}
pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for run in 0..runs {
        let m = Map::new(g.below(4));
        if run % 3 == 0 {
            let n = g.range(2, 30);
            let gap = if g.chance(1, 3) { 300 } else { 20 };
            let d = grid(&mut g, n, gap);
            let v: Vec<i64> = d.iter().map(|_| g.range(-100, 100)).collect();
            let lin = g.chance(1, 2);
            let e = if lin { *g.pick(&["off", "flat", "linear", "none"]) } else { *g.pick(&["off", "on", "ends"]) };
            let p = json!({"kind": if lin { "linear" } else { "step" }, "d": d, "v": v, "ext": e, "l": 77, "r": -88});
            let pol = build(&p, m, g.next()).expect("grid");
            out.line(&json!({"op": "grid", "p": p}));
            for _ in 0..len {
                let n = if g.chance(1, 10) { 0 } else { g.range(1, 12) };
                let wild = g.chance(1, 3);
                let mut q: Vec<i64> = (0..n).map(|_| question(&mut g, &d, if wild { 30 } else { 0 })).collect();
                q.sort();
                let qa: Array1<f32> = q.iter().map(|x| m.query(*x)).collect();
                let da: Array1<f32> = d.iter().map(|x| m.pillar(*x)).collect();
                let idx: Vec<usize> = vectorized_search_index_for_sorted_ndarray(&da, &qa).iter().map(|k| k + 1).collect();
                let list: Vec<usize> = vectorized_search_index_for_sorted_vector(da.as_slice().unwrap(), qa.as_slice().unwrap()).iter().map(|k| k + 1).collect();
                let one: Vec<Value> = q.iter().map(|x| scaled(&pol.one(m, *x))).collect();
                out.line(&json!({"op": "ask", "q": q, "idx": idx, "list": list, "one": one, "all": scaled(&pol.all(m, &q))}));
            }
        } else if run % 3 == 1 {
            let (nt, nx) = (g.range(2, 8), g.range(2, 8));
            let (t, x) = (grid(&mut g, nt, 8), grid(&mut g, nx, 8));
            let rows: Vec<Vec<i64>> = t.iter().map(|_| x.iter().map(|_| g.range(-10, 10)).collect()).collect();
            let (te, xe) = (*g.pick(&["off", "flat", "linear", "none"]), *g.pick(&["off", "flat", "linear", "none"]));
            let b = sheet(&t, &x, &rows, ext(te, 0), ext(xe, 1), m, m, g.chance(1, 2)).expect("sheet");
            out.line(&json!({"op": "sheet", "t": t, "x": x, "rows": rows, "te": te, "xe": xe}));
            for _ in 0..len {
                let out_of = if g.chance(1, 3) { 6 } else { 0 };
                let q = [question(&mut g, &t, out_of), question(&mut g, &x, out_of)];
                let a = b.interpolate(m.query(q[0]), m.query(q[1])).map(|x| vec![x]).map_err(|e| e.to_string());
                out.line(&json!({"op": "read", "q": q, "a": scaled(&a)}));
            }
        } else {
            let n = g.range(1, 20);
            let gap = if g.chance(1, 2) { 400 } else { 20 };
            let d = grid(&mut g, n, gap);
            let loc: Vec<f32> = d.iter().map(|k| m.pillar(*k)).collect();
            let mut vec = vec![0f32; d.len()];
            out.line(&json!({"op": "vector", "d": d}));
            for _ in 0..len {
                let a = g.range(-50, 50);
                let q = question(&mut g, &d, 10);
                distribute_value_on_vector(&mut vec, a as f32, m.query(q), &loc).expect("put");
                out.line(&json!({"op": "put", "a": a, "q": q, "vec": scaled(&Ok(vec.clone()))["v"]}));
            }
        }
    }
}
