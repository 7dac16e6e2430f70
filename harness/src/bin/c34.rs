//! C34 requests that cannot be met are refused
use curvo_verif::prelude::*;
use std::f64::consts::{PI, TAU};

const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;

macro_rules! refused {
    ($cx:expr, $what:expr, $e:expr) => {{
        $cx.label($what);
        note!($cx, "{}", $what);
        ensure!($e.is_err(), $what.to_string(), "was accepted");
    }};
}

/// a number that is none
fn none(s: &mut Src) -> f64 {
    *s.pick(&[NAN, INF, -INF])
}
/// finite control points with positive weights and sorted knots
fn usable(m: &RCurve, what: &str) -> R {
    ensure!(m.knots.len() == m.cps.len() + m.degree + 1, format!("{what}-form"), "{m:?}");
    ensure!(m.knots.iter().all(|k| k.is_finite()) && m.knots.windows(2).all(|w| w[0] <= w[1]), format!("{what}-knots"), "{:?}", m.knots);
    ensure!(m.cps.iter().flatten().all(|x| x.is_finite()), format!("{what}-finite"), "{:?}", m.cps);
    ensure!(m.weights().iter().all(|w| *w != 0.), format!("{what}-weights"), "{:?}", m.weights());
    Ok(())
}

fn curve(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let (a, b) = r.domain();
    note!(cx, "{r:?}");
    cx.nontrivial_if(r.degree > 1);
    let (k0, k1) = (r.knots[0], r.knots[r.knots.len() - 1]);
    let off = cx.src.log_real(1e-6, 1e3) * (k1 - k0);
    match cx.src.draw(13) {
        0 => {
            let mut m = r.clone();
            let i = cx.src.int(0, m.knots.len() - 1);
            m.knots[i] = none(&mut cx.src);
            refused!(cx, "knot-not-finite", AC::try_new(&m));
        }
        1 => {
            let mut m = r.clone();
            let i = cx.src.int(0, m.knots.len() - 1);
            m.knots.remove(i);
            refused!(cx, "knot-missing", AC::try_new(&m));
        }
        2 => {
            let mut m = r.clone();
            for _ in 0..cx.src.int(1, 3) {
                m.knots.push(k1);
            }
            refused!(cx, "knot-too-many", AC::try_new(&m));
        }
        3 => {
            let mut m = r.clone();
            m.cps.truncate(cx.src.int(1, r.degree));
            m.knots.truncate(m.cps.len() + m.degree + 1);
            refused!(cx, "points-too-few", AC::try_new(&m));
        }
        4 => refused!(cx, "add-below", c.add_knot(k0 - off)),
        5 => refused!(cx, "add-above", c.add_knot(k1 + off)),
        6 => refused!(cx, "refine-outside", c.refine(vec![if cx.src.bool() { k0 - off } else { k1 + off }; cx.src.int(1, 3)])),
        7 => refused!(cx, "length-not-positive", c.divide_by_length(*cx.src.pick(&[0., -1., -INF, NAN]))),
        8 => {
            let l = c.length().map_err(|e| Fail { sig: "length-error".into(), msg: e })?;
            let over = l * cx.src.log_real(1e-3, 1e3) + 1e-9;
            if l < 1e-3 {
                return discard("short");
            }
            refused!(cx, "length-beyond", c.param_at_length(l + over, None));
            refused!(cx, "division-beyond", c.divide_by_length(l + over));
        }
        9 => refused!(cx, "division-by-zero", c.divide_by_count(0)),
        10 => refused!(cx, "closest-nan", c.closest_param(&vec![NAN; r.dim()])),
        11 => {
            // a knot that is not there
            let k = a + (b - a) * cx.src.real(0., 1.);
            if r.knots.iter().any(|x| (x - k).abs() < 1e-6 * (b - a)) {
                return discard("close-to-a-knot");
            }
            refused!(cx, "remove-absent", c.remove_knot(k, Some(INF)));
        }
        _ => refused!(cx, "split-nan", c.split(NAN)),
    }
    Ok(())
}

fn construct(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let degree = cx.src.int(1, 5);
    let n = degree + 1 + cx.src.int(0, 5);
    let mut pts: Vec<Vec<f64>> = (0..n).map(|_| gen_point(&mut cx.src, dim, 5.)).collect();
    let style = cx.src.draw(3);
    let style = || [KnotStyle::Uniform, KnotStyle::Chordal, KnotStyle::Centripetal][style as usize].clone();
    note!(cx, "{pts:?} degree {degree}");
    cx.nontrivial();
    match cx.src.draw(10) {
        0 => {
            let p = pts[0].clone();
            refused!(cx, "interpolate-coincident", AC::interpolate(&vec![p; n], degree));
        }
        1 => refused!(cx, "interpolate-degree-0", AC::interpolate(&pts, 0)),
        2 => refused!(cx, "periodic-degree-0", AC::periodic_interpolate(&pts, 0, style())),
        3 => {
            let p = pts[0].clone();
            if degree > 1 {
                refused!(cx, "periodic-coincident", AC::periodic_interpolate(&vec![p; n], degree, if style_is_uniform(&style()) { KnotStyle::Chordal } else { style() }));
            }
        }
        4 => {
            let (i, j) = (cx.src.int(0, n - 1), cx.src.int(0, dim - 1));
            pts[i][j] = none(&mut cx.src);
            refused!(cx, "interpolate-not-finite", AC::interpolate(&pts, degree));
            refused!(cx, "periodic-not-finite", AC::periodic_interpolate(&pts, degree, style()));
        }
        5 | 6 => {
            // some points twice or more: an error or a usable curve
            cx.label("repeated-points");
            for _ in 0..cx.src.int(1, 3) {
                let (i, j) = (cx.src.int(0, n - 1), cx.src.int(0, n - 1));
                pts[i] = pts[j].clone();
            }
            note!(cx, "repeated {pts:?}");
            if let Ok(c) = AC::interpolate(&pts, degree) {
                cx.label("repeated-interpolated");
                usable(&c.model(), "repeated")?;
            }
            if let Ok(c) = AC::periodic_interpolate(&pts, degree, style()) {
                cx.label("repeated-periodic");
                usable(&c.model(), "repeated-periodic")?;
            }
        }
        7 => {
            refused!(cx, "no-points", NurbsCurve2D::<f64>::try_interpolate(&[], degree));
            refused!(cx, "no-points-periodic", NurbsCurve2D::<f64>::try_periodic_interpolate(&[], degree, style()));
        }
        8 => refused!(cx, "no-points-degree-0", NurbsCurve2D::<f64>::try_interpolate(&[], 0)),
        _ => {
            // collinear points: fine
            let (p, d) = (pts[0].clone(), unit(&sub(&pts[1], &pts[0])));
            if d.iter().any(|x| !x.is_finite()) {
                return discard("no-direction");
            }
            let mut x = 0.;
            for q in pts.iter_mut() {
                *q = add(&p, &scale(&d, x));
                x += cx.src.real(0.2, 2.);
            }
            cx.label("collinear");
            usable(&AC::interpolate(&pts, degree).map_err(|e| Fail { sig: "collinear-error".into(), msg: e })?.model(), "collinear")?;
        }
    }
    Ok(())
}
fn style_is_uniform(s: &KnotStyle) -> bool {
    matches!(s, KnotStyle::Uniform)
}

fn round(cx: &mut Cx) -> R {
    let (x, y) = gen_frame(&mut cx.src);
    let o = p3(&gen_point(&mut cx.src, 3, 5.));
    let (x, y, z) = (v3(&x), v3(&y), v3(&cross(&x, &y)));
    let rad = cx.src.log_real(0.1, 10.);
    let s = cx.src.real(-6., 6.);
    let e = s + cx.src.real(0.1, 6.);
    note!(cx, "centre {o:?} axes {x:?} {y:?} radius {rad} angles {s}..{e}");
    cx.nontrivial();
    let bad = none(&mut cx.src);
    let zero = Vector3::zeros();
    type C = NurbsCurve3D<f64>;
    type S = NurbsSurface3D<f64>;
    match cx.src.draw(15) {
        0 => refused!(cx, "radius-zero", C::try_arc(&o, &x, &y, 0., s, e)),
        1 => refused!(cx, "radius-not-finite", C::try_circle(&o, &x, &y, bad)),
        2 => refused!(cx, "x-zero", C::try_arc(&o, &zero, &y, rad, s, e)),
        3 => refused!(cx, "y-zero", C::try_ellipse(&o, &(x * rad), &zero)),
        4 => refused!(cx, "x-not-finite", C::try_ellipse(&o, &(x * bad), &y)),
        5 => refused!(cx, "angle-not-finite", C::try_arc(&o, &x, &y, rad, s, bad)),
        6 => refused!(cx, "start-not-finite", C::try_ellipse_arc(&o, &x, &y, bad, e)),
        7 => refused!(cx, "angles-swapped", C::try_arc(&o, &x, &y, rad, e, s)),
        8 => refused!(cx, "angles-equal", C::try_arc(&o, &x, &y, rad, s, s)),
        k => {
            let r = gen_curve(&mut cx.src, Opt { dim: Some(3), ..Opt::default() });
            let profile = c3(&r);
            note!(cx, "profile {r:?}");
            match k {
                9 => refused!(cx, "revolve-axis-zero", S::try_revolve(&profile, &o, &zero, TAU)),
                10 => refused!(cx, "revolve-angle-not-finite", S::try_revolve(&profile, &o, &z, bad)),
                11 => refused!(cx, "sphere-radius-zero", S::try_sphere(&o, &z, &x, 0.)),
                12 => refused!(cx, "sphere-x-axis-zero", S::try_sphere(&o, &z, &zero, rad)),
                13 => refused!(cx, "sphere-axis-zero", S::try_sphere(&o, &zero, &x, rad)),
                _ => {
                    // off the axis everywhere, a full turn is fine
                    let f = S::try_revolve(&profile, &o, &z, PI * cx.src.real(0.1, 2.));
                    if let Ok(f) = f {
                        ensure!(f.control_points().iter().flatten().all(|p| p.iter().all(|x| x.is_finite())), "revolve-finite", "{f:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

fn surface(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { extra: (0, 3), deg: (1, 3), ..Opt::default() });
    let s = s3(&r);
    note!(cx, "{r:?}");
    cx.nontrivial_if(r.du > 1 && r.dv > 1);
    let in_u = cx.src.bool();
    let (k, dir) = if in_u { (&r.ku, UVDirection::U) } else { (&r.kv, UVDirection::V) };
    let (k0, k1) = (k[0], k[k.len() - 1]);
    let off = cx.src.log_real(1e-6, 1e3) * (k1 - k0);
    let x = match cx.src.draw(3) {
        0 => k0 - off,
        1 => k1 + off,
        _ => none(&mut cx.src),
    };
    note!(cx, "at {x} along u {in_u}");
    match cx.src.draw(6) {
        0 => refused!(cx, "surface-refine-outside", s.clone().try_refine_knot(vec![x], dir)),
        1 => refused!(cx, "isocurve-outside", s.try_isocurve(x, dir)),
        2 => {
            let rows = cx.src.int(0, 1);
            let c = s.try_isocurve(r.domain().0 .0, UVDirection::U).map_err(|e| Fail { sig: "isocurve-error".into(), msg: e.to_string() })?;
            refused!(cx, "loft-too-few", NurbsSurface3D::try_loft(&vec![c; rows], Some(1)));
        }
        3 => {
            let c = s.try_isocurve(r.domain().0 .0, UVDirection::U).map_err(|e| Fail { sig: "isocurve-error".into(), msg: e.to_string() })?;
            let m = nalgebra::Translation3::new(0., 0., 1.).to_homogeneous();
            refused!(cx, "loft-degree-0", NurbsSurface3D::try_loft(&[c.clone(), c.transformed(&m)], Some(0)));
            refused!(cx, "sweep-degree-0", NurbsSurface3D::try_sweep(&c, &c, Some(0)));
        }
        4 => refused!(cx, "surface-closest-nan", s.find_closest_parameter(&Point3::new(NAN, 0., 0.))),
        _ => refused!(cx, "surface-split-outside", s.try_split(SplitSurfaceOption::new(x, dir))),
    }
    Ok(())
}
fn planar(cx: &mut Cx) -> R {
    // open curves have no inside
    let r = gen_march(&mut cx.src, Opt { dim: Some(2), ..Opt::default() });
    let c = c2(&r);
    let (a, b) = r.domain();
    if dist(&r.point(a), &r.point(b)) < 1e-3 {
        return discard("closed");
    }
    let o = gen_point(&mut cx.src, 2, 3.);
    let star = c2(&gen_star(&mut cx.src, &o, 1., 3., (1, 3), true));
    let q = p2(&gen_point(&mut cx.src, 2, 5.));
    note!(cx, "{r:?} star {star:?} point {q:?}");
    cx.nontrivial_if(r.degree > 1);
    match cx.src.draw(3) {
        0 => refused!(cx, "contains-open", c.contains(&q, None)),
        1 => {
            refused!(cx, "union-open", c.union(&star, None));
            refused!(cx, "intersection-open", c.intersection(&star, None));
            refused!(cx, "difference-open", c.difference(&star, None));
        }
        _ => {
            refused!(cx, "union-with-open", star.union(&c, None));
            refused!(cx, "intersection-with-open", star.intersection(&c, None));
            refused!(cx, "difference-with-open", star.difference(&c, None));
        }
    }
    Ok(())
}

static LAWS: &[Law] = &[
    Law::new("curve", 60_000, curve),
    Law::new("construct", 60_000, construct),
    Law::new("round", 40_000, round),
    Law::new("surface", 10_000, surface),
    Law::new("planar", 3_000, planar).rng(),
];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C34",
        rule: "valid wild curves, surfaces, points and frames with one request that cannot be met (see the labels); non-trivial = degree >= 2",
        assumptions: &[],
        laws: LAWS,
        probes: &[],
    })
}
