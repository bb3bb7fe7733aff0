//! Cholesky factors, and the correlated paths drawn with them.
use crate::util::*;
use ndarray::Array2;
use quantlib::math::cholescky_factorization::cholesky_decomposition;
use quantlib::pricing_engines::montecarlo::rand_generator::correlated_path;
use serde_json::{json, Value};

fn mat(v: &[Vec<i64>], cols: usize) -> Array2<f32> {
    Array2::from_shape_fn((v.len(), cols), |(i, j)| v[i][j] as f32)
}
pub fn replay_one(v: &Value) -> Result<(), Value> {
    let a: Vec<Vec<i64>> = serde_json::from_value(v["a"].clone()).unwrap();
    let n = a.len();
    let m = mat(&a, n);
    let r = guard(|| cholesky_decomposition(&m).map_err(|e| e.to_string()));
    let bad = |what: &str| Err(json!({"what": what, "observed": format!("{r:?}")}));
    match (v["v"].as_str().unwrap(), &r) {
        (_, Err(_)) => return bad("answers"),
        ("yes", Ok(Ok(l))) => {
            if l.dim() != (n, n) {
                return bad("shape of the factor");
            }
            for i in 0..n {
                for j in 0..n {
                    let w = &v["f"][i][j];
                    let want = w[0].as_f64().unwrap() / w[1].as_f64().unwrap().sqrt();
                    let got = l[[i, j]] as f64;
                    if (j > i && got != 0.0) || (got - want).abs() > 2e-3 * (1.0 + want.abs()) {
                        return bad(&format!("entry {i},{j}"));
                    }
                }
            }
        }
        ("yes", _) => return bad("a positive definite matrix is factored"),
        ("no", Ok(Ok(_))) => return bad("a matrix that is not positive definite is refused"),
        _ => {}
    }
    // one row more or one less than columns: refused
    if test_no() % 8 == 0 {
        let mut tall = a.clone();
        tall.push(a[n - 1].clone());
        let mut flat = a.clone();
        flat.pop();
        for (rows, what) in [(&tall, "a row more than columns"), (&flat, "a row less than columns")] {
            let r = guard(|| cholesky_decomposition(&mat(rows, n)).is_err());
            if r != Ok(true) {
                return Err(json!({"what": format!("{what} is refused"), "observed": format!("{r:?}")}));
            }
        }
    }
    Ok(())
}
fn square(l: &[Vec<i64>]) -> Vec<Vec<i64>> {
    l.iter().map(|x| l.iter().map(|y| x.iter().zip(y).map(|(p, q)| p * q).sum()).collect()).collect()
}
fn lower(g: &mut Rng, n: usize, wide: bool) -> Vec<Vec<i64>> {
    let (d, o) = if wide { (5, 4) } else { (3, 2) };
    (0..n).map(|i| (0..n).map(|j| if j > i { 0 } else if j == i { g.range(1, d) } else { g.range(-o, o) }).collect()).collect()
}
fn mil(x: f64) -> i64 {
    (x * 1000.0).round() as i64
}
pub fn record(seed: u64, runs: u64, len: u64, path: &str) {
    let mut g = Rng::new(seed);
    let mut out = Out::new(path);
    for _ in 0..runs {
        out.line(&json!({"op": "reset"}));
        for k in 0..len {
            let n = g.range(1, 6) as usize;
            let tri = lower(&mut g, n, true);
            let a = square(&tri);
            let f = cholesky_decomposition(&mat(&a, n));
            let rows: Vec<Vec<i64>> = f.as_ref().map(|f| f.rows().into_iter().map(|r| r.iter().map(|x| mil(*x as f64)).collect()).collect()).unwrap_or_default();
            out.line(&json!({"op": "factor", "tri": tri, "a": a, "ok": f.is_ok(), "f": rows}));
            if n > 1 && n < 6 {
                let mut b = square(&lower(&mut g, n, false));
                let i = g.below(n as u64) as usize;
                // below -1 is far from the edge: rounding cannot matter
                let off: i64 = (0..n).filter(|j| *j != i).map(|j| b[i][j].abs()).sum();
                b[i][i] = if g.chance(1, 2) { -g.range(1, 3) } else { -(off % 5) - 1 };
                let ok = cholesky_decomposition(&mat(&b, n)).is_ok();
                out.line(&json!({"op": "refuse", "a": b, "ok": ok}));
            }
            if k % 8 == 0 {
                let n = g.range(1, 4) as usize;
                let tri = lower(&mut g, n, false);
                let a = square(&tri);
                let steps = g.range(40000, 50000) as usize;
                let m = mat(&a, n);
                let (p, q) = (correlated_path(steps, &m), correlated_path(steps, &m));
                let x = |i: usize, t: usize| p[[i, t]] as f64;
                let w = steps as f64;
                let mean: Vec<f64> = (0..n).map(|i| (0..steps).map(|t| x(i, t)).sum::<f64>() / w).collect();
                let cov: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| mil((0..steps).map(|t| (x(i, t) - mean[i]) * (x(j, t) - mean[j])).sum::<f64>() / w)).collect()).collect();
                let lag: Vec<i64> = (0..n).map(|i| mil((1..steps).map(|t| (x(i, t) - mean[i]) * (x(i, t - 1) - mean[i])).sum::<f64>() / w)).collect();
                let mean: Vec<i64> = mean.into_iter().map(mil).collect();
                out.line(&json!({"op": "paths", "tri": tri, "a": a, "n": steps, "rows": p.nrows(), "cols": p.ncols(), "cov": cov, "mean": mean, "lag": lag, "again": p == q}));
            }
        }
    }
}
