//! C24 surfaces of revolution and spheres
use curvo_verif::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
fn valid(r: &RSurface, what: &str) -> R {
    let n = r.cps[0].len();
    ensure!(r.cps.iter().all(|x| x.len() == n) && r.ku.len() == r.cps.len() + r.du + 1 && r.kv.len() == n + r.dv + 1, format!("{what}-valid"), "malformed {r:?}");
    ensure!(r.cps.iter().flatten().all(|p| p.iter().all(|x| x.is_finite()) && p[3] > 0.), format!("{what}-weights"), "weights or coordinates of {r:?}");
    Ok(())
}
fn angle(s: &mut Src) -> f64 {
    match s.draw(3) {
        0 => FRAC_PI_2 * s.int(1, 4) as f64,
        1 => (FRAC_PI_2 * s.int(1, 4) as f64 + s.real(-1e-3, 1e-3)).min(TAU),
        _ => s.real(0.05, TAU),
    }
}
/// rotate p about the axis (unit direction)
fn rot(p: &[f64], c: &[f64], a: &[f64], t: f64) -> Vec<f64> {
    let d = sub(p, c);
    let h = scale(a, dot(&d, a));
    let x = sub(&d, &h);
    let y = cross(a, &x);
    add(c, &add(&h, &add(&scale(&x, t.cos()), &scale(&y, t.sin()))))
}

fn revolve(cx: &mut Cx) -> R {
    let c = gen_point(&mut cx.src, 3, 5.);
    let (a, x) = gen_frame(&mut cx.src);
    let axis = if cx.src.bool() { a.clone() } else { scale(&a, cx.src.log_real(0.1, 10.)) };
    let mut p = gen_curve(&mut cx.src, Opt { dim: Some(3), deg: (1, 4), extra: (0, 4), ..Opt::default() });
    let kind = cx.src.draw(3);
    if kind > 0 {
        // beside the axis, in one half plane; some points on the axis
        for q in p.cps.iter_mut() {
            let w = q[3];
            let (h, r) = (q[0] / w, if kind == 2 && cx.src.chance(1, 3) { 0. } else { q[1].abs() / w });
            let z = add(&c, &add(&scale(&a, h), &scale(&x, r)));
            *q = hom(&z, w);
        }
    }
    let th = angle(&mut cx.src);
    // turning the other way is turning about the reversed axis
    let back = cx.src.chance(1, 4);
    let (a, turn) = if back { (scale(&a, -1.), -th) } else { (a, th) };
    note!(cx, "center {c:?} axis {axis:?} angle {turn} profile {p:?}");
    cx.label_if(back, "backwards");
    cx.label(["anywhere", "half-plane", "touching-axis"][kind as usize]);
    cx.label(&format!("quarter{}", (th / FRAC_PI_2).ceil()));
    cx.label_if(p.is_rational(), "rational");
    cx.nontrivial_if(p.is_rational() && th > FRAC_PI_2 * 1.01);
    let s = NurbsSurface3D::try_revolve(&c3(&p), &p3(&c), &v3(&axis), turn).map_err(err("revolve"))?;
    let r = rs3(&s);
    valid(&r, "revolve")?;
    let ((ua, ub), dv) = r.domain();
    ensure!(dv == p.domain(), "revolve-domain", "v domain {dv:?}, profile {:?}", p.domain());
    ensure!(r.dv == p.degree, "revolve-degree", "degree {}", r.dv);
    let tol = 1e-8 * (p.scale() + norm(&c) + 1.);
    let vs = p.probe_params(1);
    let mut last = 0.;
    let m = 24;
    for i in 0..=m {
        let u = if i == m { ub } else { ua + (ub - ua) * i as f64 / m as f64 };
        // the angle at u, from the point farthest from the axis
        let mut far = (0., 0.);
        for &v in &vs {
            let (q, z) = (p.point(v), r.point(u, v));
            let d = sub(&q, &c);
            let x = sub(&d, &scale(&a, dot(&d, &a)));
            if norm(&x) > far.0 {
                let e = sub(&z, &c);
                let t = dot(&cross(&a, &x), &e).atan2(dot(&x, &e));
                far = (norm(&x), if t < last - 0.5 { t + TAU } else { t });
            }
        }
        if far.0 < 1e-2 {
            return discard("axis");
        }
        let t = if i == 0 { 0. } else if i == m { th } else { far.1 };
        let e = tol / far.0;
        ensure!(t >= last - e && t <= th + e, "revolve-angle", "at u = {u} turned by {t}, before by {last}, in total {th}");
        last = t;
        for &v in &vs {
            let (z, q) = (r.point(u, v), rot(&p.point(v), &c, &a, t));
            ensure!(dist(&z, &q) <= tol + e * p.scale(), "revolve", "at ({u},{v}): {z:?}, the profile turned by {t} is at {q:?}");
        }
    }
    // the arcs are alike
    let t = r.point((ua + ub) / 2., vs[0]);
    let q = rot(&p.point(vs[0]), &c, &a, th / 2.);
    ensure!(dist(&t, &q) <= tol, "revolve-half", "half way: {t:?}, expected {q:?}");
    Ok(())
}

fn sphere(cx: &mut Cx) -> R {
    let c = gen_point(&mut cx.src, 3, 5.);
    let rad = cx.src.log_real(0.1, 20.);
    let (a, x) = gen_frame(&mut cx.src);
    let (fa, fx) = if cx.src.bool() { (1., 1.) } else { (cx.src.log_real(0.1, 10.), cx.src.log_real(0.1, 10.)) };
    note!(cx, "center {c:?} radius {rad} axis {a:?} * {fa}, {x:?} * {fx}");
    cx.nontrivial_if(fa != 1.);
    let s = NurbsSurface3D::try_sphere(&p3(&c), &v3(&scale(&a, fa)), &v3(&scale(&x, fx)), rad).map_err(err("sphere"))?;
    let r = rs3(&s);
    valid(&r, "sphere")?;
    let ((ua, ub), (va, vb)) = r.domain();
    let tol = 1e-9 * (rad + norm(&c) + 1.);
    let y = cross(&a, &x);
    let pole = |s: f64| add(&c, &scale(&a, s * rad));
    let mut last = -PI;
    for j in 0..=16 {
        let v = va + (vb - va) * j as f64 / 16.;
        let lat = (dot(&sub(&r.point(ua, v), &c), &a) / rad).clamp(-1., 1.).asin();
        ensure!(lat > last || j == 0, "sphere-latitude", "at v = {v} the latitude is {lat}, before {last}");
        last = lat;
        let mut lon = 0.;
        for i in 0..=16 {
            let u = ua + (ub - ua) * i as f64 / 16.;
            let p = r.point(u, v);
            ensure!((dist(&p, &c) - rad).abs() <= tol, "sphere-radius", "at ({u},{v}): {p:?} is {} from the center", dist(&p, &c));
            if j == 0 || j == 16 {
                ensure!(dist(&p, &pole(if j == 0 { -1. } else { 1. })) <= tol, "sphere-pole", "at ({u},{v}): {p:?}");
                continue;
            }
            let d = sub(&p, &c);
            ensure!((dot(&d, &a) - rad * lat.sin()).abs() <= tol, "sphere-parallel", "at ({u},{v}): {p:?} is off the parallel {lat}");
            let t = dot(&d, &y).atan2(dot(&d, &x));
            let t = if t < lon - 1e-6 { t + TAU } else { t };
            if i > 0 && i < 16 {
                ensure!(t > lon && t < TAU, "sphere-longitude", "at ({u},{v}) the longitude is {t}, before {lon}");
            } else {
                ensure!(dist(&p, &add(&c, &add(&scale(&a, rad * lat.sin()), &scale(&x, rad * lat.cos())))) <= tol, "sphere-seam", "at ({u},{v}): {p:?} is off the zero meridian");
            }
            lon = t;
            // the normal points away from or towards the center
            let n = vv(&s.normal_at(u, v));
            ensure!(norm(&cross(&unit(&n), &unit(&d))) <= 1e-6, "sphere-normal", "at ({u},{v}): normal {n:?}, radius {d:?}");
        }
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("revolve", 60_000, revolve), Law::new("sphere", 20_000, sphere)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C24",
        rule: "profiles anywhere, in a half plane, touching the axis (degrees 1-4, clamped or not, rational or not) revolved by angles up to a full turn either way, at and around the quarter turns, about axes of any length; spheres of any position, frame and radius; non-trivial = rational profile and more than a quarter turn, axes not of unit length",
        assumptions: &["angle in (0.05, 2 pi], forwards or backwards", "sphere axes orthogonal", "positive weights"],
        laws: LAWS,
        probes: &[],
    })
}
