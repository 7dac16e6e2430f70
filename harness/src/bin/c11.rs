//! C11 interpolation and polylines
use curvo_verif::prelude::*;

/// consecutive points a fraction of the figure apart
pub fn walk(s: &mut Src, dim: usize, n: usize) -> Vec<Vec<f64>> {
    let mut pts = vec![gen_point(s, dim, 5.)];
    while pts.len() < n {
        let mut d = gen_point(s, dim, 1.);
        if norm(&d) < 0.05 {
            d = (0..dim).map(|i| if i == 0 { 1. } else { 0. }).collect();
        }
        let l = s.real(0.3, 3.);
        pts.push(add(pts.last().unwrap(), &scale(&unit(&d), l)));
    }
    pts
}

fn interpolate(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let degree = cx.src.int(1, 5);
    let n = degree + 1 + cx.src.int(0, 8);
    let mut pts = walk(&mut cx.src, dim, n);
    if cx.src.chance(1, 6) {
        let p = pts[0].clone();
        if dist(&p, &pts[n - 2]) > 0.2 {
            pts[n - 1] = p;
        }
    }
    note!(cx, "points {pts:?} degree {degree}");
    cx.label(&format!("degree{degree}"));
    cx.nontrivial_if(degree > 1 && n > degree + 1);
    let c = AC::interpolate(&pts, degree).map_err(|e| Fail { sig: "error".into(), msg: e })?;
    let m = c.model();
    ensure!(m.degree == degree && m.cps.len() == n && m.knots.len() == n + degree + 1 && m.clamped(), "form", "{m:?}");
    ensure!(m.knots.windows(2).all(|w| w[0] <= w[1]), "knots", "{:?}", m.knots);
    ensure!(m.weights().iter().all(|w| *w == 1.), "weights", "{:?}", m.weights());
    // passes through the points in order, at the chord length parameters
    let mut us = vec![0.];
    for w in pts.windows(2) {
        us.push(us.last().unwrap() + dist(&w[0], &w[1]));
    }
    let total = *us.last().unwrap();
    let (a, b) = c.domain();
    let tol = 1e-7 * m.scale();
    for (i, p) in pts.iter().enumerate() {
        let u = a + (b - a) * us[i] / total;
        let q = c.pt(u.clamp(a, b));
        ensure!(dist(p, &q) <= tol, "through", "at chord parameter {u}: {q:?} instead of point {i} {p:?}");
    }
    Ok(())
}

fn too_few(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let degree = cx.src.int(1, 6);
    let n = cx.src.int(1, degree);
    let pts = walk(&mut cx.src, dim, n);
    note!(cx, "{n} points degree {degree}");
    cx.nontrivial_if(n > 1);
    ensure!(AC::interpolate(&pts, degree).is_err(), "too-few", "{n} points were interpolated at degree {degree}");
    ensure!(AC::periodic(&pts, degree).is_err(), "too-few-periodic", "{n} points gave a periodic curve of degree {degree}");
    ensure!(AC::periodic_interpolate(&pts, degree, KnotStyle::Chordal).is_err(), "too-few-periodic-interpolate", "{n} points, degree {degree}");
    Ok(())
}

fn polyline(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let n = cx.src.int(2, 12);
    let pts = walk(&mut cx.src, dim, n);
    let normalize = cx.src.bool();
    note!(cx, "points {pts:?} normalised {normalize}");
    cx.nontrivial_if(n > 2);
    let c = AC::polyline(&pts, normalize);
    let mut us = vec![0.];
    for w in pts.windows(2) {
        us.push(us.last().unwrap() + dist(&w[0], &w[1]));
    }
    let total = *us.last().unwrap();
    let k = if normalize { total } else { 1. };
    let (a, b) = c.domain();
    ensure!(c.degree() == 1 && a.abs() < 1e-12 && (b - total / k).abs() < 1e-9 * total, "polyline-domain", "domain ({a},{b}), length {total}");
    for i in 0..n - 1 {
        let f = cx.src.real(0., 1.);
        let u = (us[i] + (us[i + 1] - us[i]) * f) / k;
        let (p, q) = (c.pt(u.clamp(a, b)), lerp(&pts[i], &pts[i + 1], f));
        ensure!(dist(&p, &q) <= 1e-8 * (1. + norm(&q)), "polyline-point", "at {u} (edge {i}, {f}): {p:?} expected {q:?}");
    }
    let l = c.length().map_err(|e| Fail { sig: "polyline-length-error".into(), msg: e })?;
    ensure!((l - total).abs() <= 1e-8 * total, "polyline-length", "length {l} expected {total}");
    Ok(())
}

static LAWS: &[Law] = &[Law::new("interpolate", 180_000, interpolate), Law::new("polyline", 120_000, polyline), Law::new("too-few", 60_000, too_few)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C11",
        rule: "random walks of points (2D/3D, steps of 0.3-3, occasionally closing on the first point), degree 1-5 with 0-8 extra points; polylines of 2-12 points; non-trivial = degree >= 2 and more points than degree + 1 / more than 2 points",
        assumptions: &["consecutive points differ"],
        laws: LAWS,
        probes: &[],
    })
}
