//! C01 curve evaluation
use curvo_verif::prelude::*;

fn reference(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    note!(cx, "curve {r:?}");
    let (a, b) = r.domain();
    let tol = 1e-9 * r.scale();
    ensure!(c.domain() == (a, b), "domain", "domain {:?} expected {:?}", c.domain(), (a, b));
    let mut ps = r.probe_params(3);
    for _ in 0..4 {
        let u = cx.src.real(a, b);
        ps.push(next_to(&mut cx.src, u, a, b, &r.knots));
    }
    cx.label(&format!("degree{}", r.degree));
    cx.label_if(r.is_rational(), "rational");
    cx.label_if(!r.clamped(), "unclamped");
    cx.label_if(r.interior().iter().any(|k| k.1 > 1), "repeated-knot");
    cx.nontrivial_if(r.degree >= 2 && (r.is_rational() || !r.interior().is_empty()));
    for u in ps {
        let (p, q) = (c.pt(u), r.point(u));
        ensure!(dist(&p, &q) <= tol, "point", "point_at({u}) = {p:?}, the definition gives {q:?}");
        let (p2, _) = c.pt_tangent(u);
        ensure!(dist(&p2, &q) <= tol, "point_tangent.0", "point_tangent_at({u}).0 = {p2:?}, expected {q:?}");
    }
    Ok(())
}

/// positive weights: the point lies in the hull of the control points active on its span, and a
/// clamped curve starts and ends at its first and last control point
fn hull(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    note!(cx, "curve {r:?}");
    let (a, b) = r.domain();
    let pts = r.points();
    let tol = 1e-9 * r.scale();
    cx.nontrivial_if(r.degree >= 2 && pts.len() > r.degree + 1);
    for _ in 0..6 {
        let u = cx.src.real(a, b);
        let k = span(r.degree, &r.knots, r.cps.len(), u, Side::Right);
        let p = c.pt(u);
        // support function in a random direction
        for _ in 0..3 {
            let d = gen_point(&mut cx.src, r.dim(), 1.);
            let m = (k - r.degree..=k).map(|i| dot(&pts[i], &d)).fold(f64::MIN, f64::max);
            ensure!(dot(&p, &d) <= m + tol, "hull", "point_at({u}) = {p:?} outside the hull of its control points in direction {d:?}");
        }
    }
    if r.clamped() {
        let (p, q) = (c.pt(a), c.pt(b));
        ensure!(dist(&p, &pts[0]) <= tol, "start", "starts at {p:?}, first control point {:?}", pts[0]);
        ensure!(dist(&q, &pts[pts.len() - 1]) <= tol, "end", "ends at {q:?}, last control point {:?}", pts[pts.len() - 1]);
    }
    // dehomogenised control points and weights
    let dh = c.dehom();
    let ws = c.weights();
    for i in 0..pts.len() {
        ensure!(dist(&dh[i], &pts[i]) <= tol, "dehomogenize", "control point {i}: {:?} expected {:?}", dh[i], pts[i]);
        ensure!((ws[i] - r.weights()[i]).abs() < 1e-12, "weights", "weight {i}: {} expected {}", ws[i], r.weights()[i]);
    }
    Ok(())
}

/// multiplying all weights by one factor, or moving the whole knot vector affinely, changes nothing
fn invariance(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let k = cx.src.log_real(0.05, 20.);
    let (m, t) = (cx.src.log_real(0.1, 10.), cx.src.coord(5.));
    note!(cx, "curve {r:?} factor {k} knots*{m}+{t}");
    let c = AC::new(&r);
    let s = AC::new(&RCurve { cps: r.cps.iter().map(|c| scale(c, k)).collect(), ..r.clone() });
    let w = AC::new(&RCurve { knots: r.knots.iter().map(|x| x * m + t).collect(), ..r.clone() });
    let (a, b) = r.domain();
    let tol = 1e-8 * r.scale();
    cx.nontrivial_if(r.degree >= 2 && r.is_rational());
    for _ in 0..6 {
        let u = cx.src.real(a, b);
        let p = c.pt(u);
        ensure!(dist(&p, &s.pt(u)) <= tol, "weight-scaling", "u={u}: {p:?} vs {:?}", s.pt(u));
        ensure!(dist(&p, &w.pt(u * m + t)) <= tol, "knot-scaling", "u={u}: {p:?} vs {:?}", w.pt(u * m + t));
    }
    // normalisation of the knots
    let n = c.normalize();
    let (na, nb) = n.domain();
    ensure!(na.abs() < 1e-12 && (nb - 1.).abs() < 1e-12, "normalize-domain", "normalised domain ({na},{nb})");
    for i in 0..=5 {
        let f = i as f64 / 5.;
        let (p, q) = (c.pt(a + (b - a) * f), n.pt(na + (nb - na) * f));
        ensure!(dist(&p, &q) <= tol, "normalize-shape", "at fraction {f}: {p:?} vs {q:?}");
    }
    Ok(())
}

fn sampling(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let (a, b) = r.domain();
    let (mut s, mut e) = if cx.src.bool() { (a, b) } else { (cx.src.real(a, b), cx.src.real(a, b)) };
    if cx.src.chance(1, 5) {
        std::mem::swap(&mut s, &mut e);
    }
    let n = cx.src.int(2, 12);
    note!(cx, "curve {r:?} sample {s}..{e} x{n}");
    cx.nontrivial_if(n > 2 && r.degree > 1);
    let (p, q) = (c.sample(s, e, n), c.sample_with(s, e, n));
    ensure!(p.len() == n && q.len() == n, "count", "{} and {} samples instead of {n}", p.len(), q.len());
    let tol = 1e-8 * r.scale();
    for i in 0..n {
        let u = s + (e - s) * i as f64 / (n - 1) as f64;
        let x = r.point(u.clamp(a, b));
        ensure!((q[i].0 - u).abs() < 1e-9 * (1. + u.abs()), "parameter", "sample {i} at {} expected {u}", q[i].0);
        let jump = near_discontinuity(&r, u);
        if !jump {
            ensure!(dist(&p[i], &x) <= tol, "sample", "sample {i} (u={u}) {:?} expected {x:?}", p[i]);
            ensure!(dist(&q[i].1, &x) <= tol, "sample-with", "sample {i} (u={u}) {:?} expected {x:?}", q[i].1);
        }
    }
    Ok(())
}
fn near_discontinuity(r: &RCurve, u: f64) -> bool {
    r.interior().iter().any(|k| k.1 > r.degree && (k.0 - u).abs() < 1e-9)
}

static LAWS: &[Law] = &[
    Law::new("reference", 600_000, reference),
    Law::new("hull", 600_000, hull),
    Law::new("invariance", 400_000, invariance),
    Law::new("sampling", 400_000, sampling),
];

fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C01",
        rule: "random 2D/3D rational and polynomial B-spline curves of degree 1-5 with 0-7 extra control points, clamped, half clamped and unclamped knots with repeated interior knots, on varied domains; non-trivial = degree >= 2 with interior knots or varying weights (law specific variations in the source)",
        assumptions: &["positive weights", "f64", "agreement within 1e-9 relative to the control polygon's size"],
        laws: LAWS,
        probes: &[],
    })
}
