//! C26 closest points on surfaces
use curvo_verif::prelude::*;
use std::f64::consts::TAU;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
fn query(s: &mut Src, r: &RSurface, near: f64, far: f64) -> (Vec<f64>, &'static str) {
    let ((a, b), (c, d)) = r.domain();
    let (u, v) = (gen_param(s, a, b, &[]), gen_param(s, c, d, &[]));
    let p = r.point(u, v);
    match s.draw(3) {
        0 => (p, "on"),
        1 => (add(&p, &(0..3).map(|_| s.real(-near, near)).collect::<Vec<_>>()), "near"),
        _ => (gen_point(s, 3, far), "far"),
    }
}
struct Hit {
    u: f64,
    v: f64,
    p: Vec<f64>,
    d: f64,
}
/// ask the surface; the answer is in the domain and on the surface
fn ask(s: &S3, q: &[f64], sc: f64) -> Result<Hit, Fail> {
    let (u, v) = s.find_closest_parameter(&p3(q)).map_err(err("closest"))?;
    let ((a, b), (c, d)) = s.knots_domain();
    let e = 1e-12;
    ensure!(u >= a - e * (1. + a.abs()) && u <= b + e * (1. + b.abs()) && v >= c - e * (1. + c.abs()) && v <= d + e * (1. + d.abs()), "domain", "parameters ({u},{v}) outside {:?}", s.knots_domain());
    let p = pv(&s.find_closest_point(&p3(q)).map_err(err("closest"))?);
    let at = rs3(s).point(u.clamp(a, b), v.clamp(c, d));
    ensure!(dist(&p, &at) <= 1e-9 * sc, "consistent", "point {p:?}, the surface at ({u},{v}): {at:?}");
    let dd = dist(&p, q);
    Ok(Hit { u, v, p, d: dd })
}

/// wild surfaces
fn any(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 2), ..Opt::default() });
    let (q, l) = query(&mut cx.src, &r, 2., 30.);
    note!(cx, "surface {r:?} query {q:?}");
    cx.label(l);
    cx.nontrivial_if(r.du > 1 || r.dv > 1);
    let h = ask(&s3(&r), &q, r.scale())?;
    let ((a, b), (c, d)) = r.domain();
    for (u, v) in [(a, c), (a, d), (b, c), (b, d)] {
        let m = dist(&r.point(u, v), &q);
        ensure!(h.d <= m + 1e-9 * r.scale(), "corners", "distance {}, the corner ({u},{v}) is at {m}", h.d);
    }
    Ok(())
}

/// the nearest point on a grid, refined by a pattern search
fn nearest(r: &RSurface, q: &[f64], n: usize) -> f64 {
    let ((a, b), (c, d)) = r.domain();
    let f = |u: f64, v: f64| dist(&r.point(u.clamp(a, b), v.clamp(c, d)), q);
    let mut g = vec![];
    for i in 0..=n {
        for j in 0..=n {
            let (u, v) = (a + (b - a) * i as f64 / n as f64, c + (d - c) * j as f64 / n as f64);
            g.push((f(u, v), u, v));
        }
    }
    g.sort_by(|x, y| x.0.total_cmp(&y.0));
    let mut best = g[0].0;
    for &(m, u, v) in g.iter().take(3) {
        let (mut m, mut u, mut v) = (m, u, v);
        let (mut hu, mut hv) = ((b - a) / n as f64, (d - c) / n as f64);
        while hu > 1e-8 * (b - a) {
            let mut moved = false;
            for (x, y) in [(1., 0.), (-1., 0.), (0., 1.), (0., -1.), (1., 1.), (-1., -1.), (1., -1.), (-1., 1.)] {
                let (nu, nv) = ((u + x * hu).clamp(a, b), (v + y * hv).clamp(c, d));
                let k = f(nu, nv);
                if k < m {
                    (m, u, v) = (k, nu, nv);
                    moved = true;
                }
            }
            if !moved {
                hu *= 0.5;
                hv *= 0.5;
            }
        }
        best = best.min(m);
    }
    best
}

/// gentle height fields: the true nearest point
fn gentle(cx: &mut Cx) -> R {
    let amp = cx.src.real(0., 0.6);
    // (smooth: at a kink the search may stop)
    let (deg, extra) = if cx.src.chance(1, 4) { ((1, 3), (0, 0)) } else { ((2, 3), (0, 2)) };
    let mut r = gen_height_field(&mut cx.src, Opt { deg, extra, unclamped: false, mult: 1, ..Opt::default() }, amp);
    // moderate weights
    if cx.src.chance(2, 3) {
        for row in r.cps.iter_mut() {
            for p in row.iter_mut() {
                let w = p[3];
                for x in p.iter_mut() {
                    *x /= w;
                }
            }
        }
    }
    let frame = gen_rigid(&mut cx.src, 3);
    for row in r.cps.iter_mut() {
        for p in row.iter_mut() {
            *p = hom(&frame.apply(&proj(p)), p[3]);
        }
    }
    let (q, l) = query(&mut cx.src, &r, 0.5, 12.);
    let best = nearest(&r, &q, 24);
    // in another size
    let k = if cx.src.chance(3, 4) { 1. } else { cx.src.log_real(1e-2, 1e3) };
    cx.label_if(k < 0.5, "small");
    cx.label_if(k > 2., "large");
    let q = scale(&q, k);
    for p in r.cps.iter_mut().flatten() {
        *p = hom(&scale(&proj(p), k), p[3]);
    }
    note!(cx, "surface {r:?} query {q:?}");
    let h = ask(&s3(&r), &q, r.scale())?;
    let h = Hit { d: h.d / k, ..h };
    cx.label(l);
    cx.nontrivial_if(l == "near" && (r.du > 1 || r.dv > 1));
    // the search stops within 1e-5, whatever the size
    let halt = 1e-5 / k;
    if l == "on" {
        ensure!(h.d <= halt.max(1e-4), "on", "a point on the surface was found at distance {} at ({},{})", h.d, h.u, h.v);
    } else {
        ensure!(h.d <= best + halt.max(if l == "near" { 1e-3 } else { 0.1 }), l, "distance {} at ({},{}), the closest is {best}", h.d, h.u, h.v);
    }
    Ok(())
}

/// surfaces of which the closest points are known: across the seams too
fn known(cx: &mut Cx) -> R {
    let kind = cx.src.draw(4);
    let (x, y) = gen_frame(&mut cx.src);
    let z = cross(&x, &y);
    let o = gen_point(&mut cx.src, 3, 5.);
    let at = |a: f64, b: f64, c: f64| add(&add(&o, &scale(&x, a)), &add(&scale(&y, b), &scale(&z, c)));
    let r = if cx.src.chance(3, 4) { cx.src.log_real(0.3, 8.) } else { cx.src.log_real(1e-2, 1e3) };
    let th = match cx.src.draw(3) {
        0 => cx.src.real(-0.05, 0.05),
        1 => cx.src.real(-0.4, 0.4),
        _ => cx.src.real(0., TAU),
    };
    let f = cx.src.real(0.6, 1.6);
    let (s, q, want) = match kind {
        0 => {
            // a sphere
            // the poles are at both ends of the x axis
            let ph = if cx.src.bool() { cx.src.real(-0.1, 0.1) } else { cx.src.real(-1.4, 1.4) };
            let on = |k: f64| at(k * ph.cos() * th.cos(), k * ph.sin(), k * ph.cos() * th.sin());
            (NurbsSurface3D::try_sphere(&p3(&o), &v3(&x), &v3(&y), r).map_err(err("sphere"))?, on(r * f), on(r))
        }
        1 => {
            // a cylinder
            let c = NurbsCurve3D::try_circle(&p3(&o), &v3(&x), &v3(&y), r).map_err(err("circle"))?;
            let len = r * cx.src.real(0.5, 3.);
            let h = len * cx.src.real(-0.2, 1.2);
            (NurbsSurface3D::extrude(&c, &v3(&scale(&z, len))), at(r * f * th.cos(), r * f * th.sin(), h), at(r * th.cos(), r * th.sin(), h.clamp(0., len)))
        }
        2 => {
            // a torus: a circle turned about an axis
            let big = r * cx.src.real(2., 4.);
            let ps = cx.src.real(0., TAU);
            let ring = add(&o, &scale(&x, big));
            let c = NurbsCurve3D::try_circle(&p3(&ring), &v3(&x), &v3(&z), r).map_err(err("circle"))?;
            let on = |k: f64| {
                let rho = big + k * ps.cos();
                at(rho * th.cos(), rho * th.sin(), k * ps.sin())
            };
            (NurbsSurface3D::try_revolve(&c, &p3(&o), &v3(&z), TAU).map_err(err("revolve"))?, on(r * f), on(r))
        }
        _ => {
            // a bilinear plane
            let (l, w) = (r * cx.src.real(0.5, 3.), r);
            let (a, b, c) = (l * cx.src.real(-1.5, 1.5), w * cx.src.real(-1.5, 1.5), cx.src.real(-3., 3.));
            let s = NurbsSurface3D::plane(p3(&o), v3(&scale(&x, l)), v3(&scale(&y, w)));
            (s, at(a, b, c), at(a.clamp(-l, l), b.clamp(-w, w), 0.))
        }
    };
    let l = ["sphere", "cylinder", "torus", "plane"][kind as usize];
    note!(cx, "{l} around {o:?} axes {x:?} {y:?} size {r} query {q:?} at angle {th}");
    cx.label(l);
    cx.nontrivial_if(th.abs() < 0.5 || kind == 3);
    let h = ask(&s, &q, 10. * (1. + r))?;
    ensure!(h.d <= dist(&want, &q) + (1e-4 * r).max(1e-5), format!("known-{l}"), "closest {:?} at ({},{}) at distance {}, expected {want:?} at {}", h.p, h.u, h.v, h.d, dist(&want, &q));
    Ok(())
}

/// a query at the centre of a sphere, on the axis of a cylinder or torus has no single nearest
/// point, but an answer
fn singular(cx: &mut Cx) -> R {
    let (x, y) = gen_frame(&mut cx.src);
    let z = cross(&x, &y);
    let o = gen_point(&mut cx.src, 3, 5.);
    let r = if cx.src.chance(3, 4) { cx.src.log_real(0.3, 8.) } else { cx.src.log_real(1e-2, 1e3) };
    let h = r * cx.src.grid(-2., 2., 0.25);
    let sphere = cx.src.bool();
    let s = if sphere {
        NurbsSurface3D::try_sphere(&p3(&o), &v3(&x), &v3(&z), r).map_err(err("sphere"))?
    } else {
        NurbsSurface3D::extrude(&NurbsCurve3D::try_circle(&p3(&o), &v3(&x), &v3(&y), r).map_err(err("circle"))?, &v3(&scale(&z, r)))
    };
    let q = add(&o, &scale(&z, h));
    note!(cx, "{} around {o:?} axes {x:?} {z:?} size {r} query {q:?}", if sphere { "sphere" } else { "cylinder" });
    cx.nontrivial_if(h.abs() <= r);
    let a = ask(&s, &q, 10. * (1. + r))?;
    let want = if sphere { (r - h.abs()).abs() } else { (r * r + (h - h.clamp(0., r)).powi(2)).sqrt() };
    ensure!(a.d <= want + 2e-2 * r, "singular", "distance {} at ({},{}), the closest is {want}", a.d, a.u, a.v);
    Ok(())
}

static LAWS: &[Law] = &[Law::new("any", 1_000, any).rng(), Law::new("gentle", 10_000, gentle).rng(), Law::new("known", 2_500, known).rng(), Law::new("singular", 1_500, singular).rng()];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C26",
        rule: "wild random surfaces with queries on, near and far from them; gentle height fields in random frames; spheres, cylinders, tori and planes, whose closest points are known, with many queries next to the seams; queries at centres and on axes; non-trivial = degree >= 2, near queries, next to a seam",
        assumptions: &["for wild surfaces only: in the domain, on the surface and not farther than the corners", "on gentle surfaces within 1e-3 of the optimum for queries within 0.5 of an 8 x 8 surface, 0.1 for far ones; known surfaces within 1e-4 of the radius; a point within 1e-5 of the query is close enough"],
        laws: LAWS,
        probes: &[],
    })
}
