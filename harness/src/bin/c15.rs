//! C15 closest points on curves
use curvo_verif::prelude::*;

fn e(sig: &'static str) -> impl Fn(String) -> Fail {
    move |m| Fail { sig: sig.into(), msg: m }
}

fn query(s: &mut Src, r: &RCurve, near: f64, far: f64) -> (Vec<f64>, &'static str) {
    let (a, b) = r.domain();
    let u = gen_param(s, a, b, &[]);
    match s.draw(3) {
        0 => (r.point(u), "on"),
        1 => {
            let d: Vec<f64> = (0..r.dim()).map(|_| s.real(-near, near)).collect();
            (add(&r.point(u), &d), "near")
        }
        _ => (gen_point(s, r.dim(), far), "far"),
    }
}

/// wild curves: in the domain, on the curve, never farther than the ends and a regular sampling
fn any(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let (q, l) = query(&mut cx.src, &r, 2., 30.);
    note!(cx, "curve {r:?} query {q:?}");
    cx.label(l);
    cx.nontrivial_if(r.degree > 1);
    let (a, b) = r.domain();
    let u = c.closest_param(&q).map_err(e("error"))?;
    ensure!(u >= a - 1e-12 && u <= b + 1e-12, "domain", "parameter {u} outside ({a},{b})");
    let p = c.closest_point(&q).map_err(e("error"))?;
    ensure!(dist(&p, &r.point(u)) <= 1e-9 * r.scale(), "consistent", "point {p:?}, the curve at {u}: {:?}", r.point(u));
    let d = dist(&p, &q);
    for t in r.interior().iter().map(|k| k.0).chain([a, b]) {
        ensure!(d <= dist(&r.point(t), &q) + 1e-9 * r.scale(), "samples", "distance {d}, the curve's point at knot {t} is at {}", dist(&r.point(t), &q));
    }
    Ok(())
}

/// polylines: the nearest point of all segments
fn polyline(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { deg: (1, 1), extra: (0, 12), rational: false, unclamped: false, ..Opt::default() });
    let c = AC::new(&r);
    let (q, l) = query(&mut cx.src, &r, 2., 30.);
    note!(cx, "polyline {r:?} query {q:?}");
    cx.label(l);
    cx.nontrivial_if(r.cps.len() > 3);
    let p = c.closest_point(&q).map_err(e("error"))?;
    let best = r.points().windows(2).map(|w| {
        let d = sub(&w[1], &w[0]);
        let m = dot(&d, &d);
        let t = if m > 0. { (dot(&sub(&q, &w[0]), &d) / m).clamp(0., 1.) } else { 0. };
        dist(&add(&w[0], &scale(&d, t)), &q)
    }).fold(f64::INFINITY, f64::min);
    ensure!(dist(&p, &q) <= best + 1e-9 * r.scale(), "polyline", "{p:?} at {}, the nearest point is at {best}", dist(&p, &q));
    let u = c.closest_param(&q).map_err(e("error"))?;
    ensure!(dist(&p, &r.point(u)) <= 1e-9 * r.scale(), "polyline-consistent", "point {p:?}, the curve at {u}: {:?}", r.point(u));
    Ok(())
}

/// control points marching along a line with small deviations
fn gentle_curve(s: &mut Src) -> RCurve {
    let mut r = gen_curve(s, Opt { deg: (1, 4), extra: (0, 6), unclamped: false, ..Opt::default() });
    let (a, b) = r.domain();
    let dim = r.dim();
    let n = r.cps.len();
    let d = r.degree;
    if d == 1 {
        r.cps.truncate(2);
    }
    // uniform simple knots
    let m = r.cps.len() - d;
    r.knots = vec![a; d];
    r.knots.extend((0..=m).map(|i| a + (b - a) * i as f64 / m as f64));
    r.knots.extend(vec![b; d]);
    let step = if s.chance(3, 4) { s.log_real(0.3, 3.) } else { s.log_real(1e-2, 1e2) };
    let amp = s.real(0., 0.4);
    let frame = gen_rigid(s, dim);
    let rational = s.chance(1, 3);
    for i in 0..r.cps.len() {
        let w = if rational { s.real(0.8, 1.25) } else { 1. };
        // Greville abscissae, so that the speed does not vary much
        let g = r.knots[i + 1..=i + d].iter().sum::<f64>() / d as f64;
        let mut p = vec![0.; dim];
        p[0] = step * m as f64 * (g - a) / (b - a);
        for q in p.iter_mut().skip(1) {
            *q = step * amp * s.real(-1., 1.);
        }
        r.cps[i] = hom(&frame.apply(&p), w);
    }
    let _ = n;
    r
}

fn gentle(cx: &mut Cx) -> R {
    let r = gentle_curve(&mut cx.src);
    let c = AC::new(&r);
    let step = dist(&r.points()[0], &r.points()[r.cps.len() - 1]) / (r.cps.len() - r.degree) as f64;
    let (q, l) = query(&mut cx.src, &r, 0.3 * step, 3. * step.max(1.));
    note!(cx, "curve {r:?} query {q:?}");
    cx.label(l);
    cx.nontrivial_if(l == "near" && r.degree > 1);
    let u = c.closest_param(&q).map_err(e("error"))?;
    let d = dist(&r.point(u), &q);
    let (bu, best) = r.nearest(&q, 40);
    if l == "on" {
        ensure!(d <= 1e-5 * step, "on", "a point on the curve was found at distance {d}");
    } else if l == "near" {
        // farther away the minimum can be very flat
        ensure!(d <= best + if best < 0.1 * step { 1e-4 } else { 1e-3 } * step, "near", "distance {d} at {u}, the closest is {best} at {bu}");
    } else {
        ensure!(d <= best * 1.02 + 0.02 * step, "far", "distance {d} at {u}, the closest is {best} at {bu}");
    }
    Ok(())
}

/// circles: the closest point is known; the seam is no obstacle
fn circle(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let r = if cx.src.chance(3, 4) { cx.src.log_real(0.3, 10.) } else { cx.src.log_real(1e-2, 1e3) };
    let center = gen_point(&mut cx.src, dim, 5.);
    let (x, y) = if dim == 2 {
        let t = cx.src.real(0., std::f64::consts::TAU);
        let k = if cx.src.bool() { -1. } else { 1. };
        (vec![t.cos(), t.sin()], vec![-k * t.sin(), k * t.cos()])
    } else {
        gen_frame(&mut cx.src)
    };
    let th = match cx.src.draw(3) {
        0 => cx.src.real(-0.05, 0.05),
        1 => cx.src.real(-0.4, 0.4),
        _ => cx.src.real(0., std::f64::consts::TAU),
    };
    let rho = r * cx.src.real(0.5, 2.);
    let at = |rad: f64| add(&center, &add(&scale(&x, rad * th.cos()), &scale(&y, rad * th.sin())));
    let q = at(rho);
    note!(cx, "circle at {center:?} axes {x:?} {y:?} radius {r}, query {q:?} at angle {th}");
    let c = if dim == 2 {
        AC::D2(NurbsCurve2D::try_circle(&p2(&center), &vo::<2>(&x), &vo::<2>(&y), r).unwrap())
    } else {
        AC::D3(NurbsCurve3D::try_circle(&p3(&center), &v3(&x), &v3(&y), r).unwrap())
    };
    cx.nontrivial_if(th.abs() < 0.5);
    let (a, b) = c.domain();
    let u = c.closest_param(&q).map_err(e("error"))?;
    ensure!(u >= a - 1e-12 && u <= b + 1e-12, "circle-domain", "parameter {u} outside ({a},{b})");
    let p = c.closest_point(&q).map_err(e("error"))?;
    ensure!(dist(&p, &at(r)) <= 1e-4 * r, "circle", "closest {p:?} expected {:?}", at(r));
    Ok(())
}

/// the closest point of a compound curve is the best of its spans'
fn compound(cx: &mut Cx) -> R {
    let n = cx.src.int(1, 5);
    let chain = gen_chain(&mut cx.src, Opt { extra: (0, 3), ..Opt::default() }, n, false);
    let c = ACC::new(&chain);
    if c.spans().len() != n {
        return discard("not-joined");
    }
    let dim = chain[0].dim();
    let q = gen_point(&mut cx.src, dim, 12.);
    note!(cx, "spans {chain:?} query {q:?}");
    cx.nontrivial_if(n > 1);
    let p = c.closest_point(&q).map_err(e("error"))?;
    let d = dist(&p, &q);
    let sc = chain.iter().map(|m| m.scale()).fold(0., f64::max);
    let mut on = f64::MAX;
    for m in c.spans() {
        let ds = dist(&AC::new(&m).closest_point(&q).map_err(e("error"))?, &q);
        ensure!(d <= ds + 1e-9 * sc, "compound", "distance {d}, a span alone is at {ds}");
        on = on.min((d - ds).abs());
        for t in [m.domain().0, m.domain().1] {
            ensure!(d <= dist(&m.point(t), &q) + 1e-9 * sc, "compound-ends", "distance {d}, a span ends at {}", dist(&m.point(t), &q));
        }
    }
    ensure!(on <= 1e-9 * sc, "compound-on", "no span has a point at distance {d}");
    Ok(())
}

static LAWS: &[Law] = &[Law::new("any", 150_000, any), Law::new("polyline", 100_000, polyline), Law::new("gentle", 40_000, gentle), Law::new("circle", 60_000, circle), Law::new("compound", 30_000, compound)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C15",
        rule: "wild random curves with queries on, near and far from them; gentle curves (uniform knots, control points within 0.4 of a step of a line) and circles, whose true closest point is known; polylines against all their segments; chains of 1-5 spans; non-trivial = degree >= 2 / near queries / seam of the circle / several spans",
        assumptions: &["for wild curves only: in the domain, on the curve, and not farther than the curve at its ends and knots", "closest on gentle curves within 1e-4 of a step for queries within 0.3 steps, 2% for far queries"],
        laws: LAWS,
        probes: &[],
    })
}
