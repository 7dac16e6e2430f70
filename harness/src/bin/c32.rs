//! C32 conversions: precision, dimension, homogeneous coordinates, kinds of shapes
use curvo_verif::prelude::*;
use nalgebra::Isometry3;

fn close(a: &[f64], b: &[f64], eps: f64) -> bool {
    a.len() == b.len() && dist(a, b) <= eps
}

/// the same knots up to a shift
fn shifted(same: bool, k: &[f64], want: &[f64]) -> bool {
    let eps = 1e-12 * want.iter().fold(1., |m: f64, x| m.max(x.abs()));
    same && k.len() == want.len() && k.iter().zip(want).all(|(x, y)| ((x - k[0]) - (y - want[0])).abs() <= eps)
}

fn curve(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let (a, b) = r.domain();
    note!(cx, "{r:?}");
    cx.nontrivial_if(r.is_rational() || r.degree > 1);
    cx.label(if r.dim() == 2 { "2d" } else { "3d" });
    let eps = 1e-12 * r.scale();
    // weights and Euclidean control points
    let w = c.weights();
    ensure!(w == r.weights(), "weights", "{w:?} instead of {:?}", r.weights());
    let d = c.dehom();
    ensure!(d.len() == r.cps.len() && d.iter().zip(r.points()).all(|(p, q)| close(p, &q, eps)), "dehomogenized", "{d:?} instead of {:?}", r.points());
    let us: Vec<f64> = (0..6).map(|_| gen_param(&mut cx.src, a, b, &[])).collect();
    match &c {
        AC::D2(c) => {
            let e = c.dehomogenize();
            ensure!(e.control_points().iter().map(pv).zip(&d).all(|(p, q)| p == *q) && e.degree() == r.degree && knots(e.knots()) == r.knots, "dehomogenize", "{e:?}");
            // one more dimension
            let e = c.elevate_dimension();
            ensure!(e.degree() == r.degree && knots(e.knots()) == r.knots && e.weights() == w, "elevate-form", "{e:?}");
            for u in &us {
                let (p, q) = (pv(&e.point_at(*u)), pv(&c.point_at(*u)));
                ensure!(close(&p, &[q[0], q[1], 0.], eps) && p[2] == 0., "elevate-point", "at {u}: {p:?} from {q:?}");
            }
            // up and down again is the identity on single precision numbers
            let f: NurbsCurve2D<f32> = c.cast();
            let g: NurbsCurve2D<f64> = f.cast();
            ensure!(g.degree() == r.degree, "cast-degree", "{}", g.degree());
            let want: Vec<f64> = r.knots.iter().map(|k| *k as f32 as f64).collect();
            ensure!(knots(g.knots()) == want, "cast-knots", "{:?} instead of {want:?}", g.knots());
            for (p, q) in g.control_points().iter().zip(&r.cps) {
                ensure!(pv(p) == q.iter().map(|x| *x as f32 as f64).collect::<Vec<_>>(), "cast-points", "{p:?} from {q:?}");
            }
            let h: NurbsCurve2D<f32> = g.cast();
            ensure!(h == f, "cast-round-trip", "{h:?} instead of {f:?}");
            // into other kinds
            let k: CompoundCurve<f64, Const<3>> = c.clone().into();
            ensure!(k.spans().len() == 1 && shifted(k.spans()[0].control_points() == c.control_points() && k.spans()[0].degree() == r.degree, &knots(k.spans()[0].knots()), &r.knots), "into-compound", "{k:?}");
            let reg: Region<f64> = c.clone().into();
            ensure!(reg.exterior().spans() == k.spans() && reg.interiors().is_empty(), "into-region", "{reg:?}");
            let (e, i) = reg.into_tuple();
            let reg: Region<f64> = e.clone().into();
            ensure!(i.is_empty() && reg.exterior().spans() == e.spans() && reg.into_exterior().spans() == e.spans(), "into-region-compound", "{e:?}");
        }
        AC::D3(c) => {
            let e = c.dehomogenize();
            ensure!(e.control_points().iter().map(pv).zip(&d).all(|(p, q)| p == *q) && e.degree() == r.degree && knots(e.knots()) == r.knots, "dehomogenize", "{e:?}");
            let f: NurbsCurve3D<f32> = c.cast();
            let g: NurbsCurve3D<f64> = f.cast();
            ensure!(g.degree() == r.degree, "cast-degree", "{}", g.degree());
            let want: Vec<f64> = r.knots.iter().map(|k| *k as f32 as f64).collect();
            ensure!(knots(g.knots()) == want, "cast-knots", "{:?} instead of {want:?}", g.knots());
            for (p, q) in g.control_points().iter().zip(&r.cps) {
                ensure!(pv(p) == q.iter().map(|x| *x as f32 as f64).collect::<Vec<_>>(), "cast-points", "{p:?} from {q:?}");
            }
            let h: NurbsCurve3D<f32> = g.cast();
            ensure!(h == f, "cast-round-trip", "{h:?} instead of {f:?}");
            let k: CompoundCurve<f64, Const<4>> = c.clone().into();
            ensure!(k.spans().len() == 1 && shifted(k.spans()[0].control_points() == c.control_points() && k.spans()[0].degree() == r.degree, &knots(k.spans()[0].knots()), &r.knots), "into-compound", "{k:?}");
            let (p, q) = c.end_points();
            ensure!(close(&pv(&p), &r.point(a), eps) && close(&pv(&q), &r.point(b), eps), "end-points", "{p:?} {q:?}");
            let (e, f) = k.end_points();
            ensure!(close(&pv(&e), &pv(&p), eps) && close(&pv(&f), &pv(&q), eps), "end-points-compound", "{:?}", k.end_points());
        }
    }
    Ok(())
}

fn surface(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let r = gen_surface(&mut cx.src, dim, Opt { extra: (0, 4), deg: (1, 4), ..Opt::default() });
    note!(cx, "{r:?}");
    cx.nontrivial_if(r.cps.len() != r.cps[0].len());
    cx.label(if dim == 2 { "2d" } else { "3d" });
    let eps = 1e-12 * r.scale();
    let f32s = |xs: &[f64]| xs.iter().map(|x| *x as f32 as f64).collect::<Vec<_>>();
    let want: Vec<Vec<Vec<f64>>> = (0..r.cps[0].len()).map(|j| r.cps.iter().map(|row| row[j].clone()).collect()).collect();
    macro_rules! check {
        ($s:expr, $f:ty, $d:ty) => {{
            let s = $s;
            let t: Vec<Vec<Vec<f64>>> = s.transposed_control_points().iter().map(|row| row.iter().map(pv).collect()).collect();
            ensure!(t == want, "transposed", "{t:?}");
            let d: Vec<Vec<Vec<f64>>> = s.dehomogenized_control_points().iter().map(|row| row.iter().map(pv).collect()).collect();
            ensure!(d.len() == r.cps.len(), "dehomogenized-rows", "{}", d.len());
            for (row, want) in d.iter().zip(&r.cps) {
                ensure!(row.len() == want.len() && row.iter().zip(want).all(|(p, q)| close(p, &proj(q), eps)), "dehomogenized", "{row:?} from {want:?}");
            }
            let f: $f = s.cast();
            let g: $d = f.cast();
            ensure!(g.u_degree() == r.du && g.v_degree() == r.dv, "cast-degrees", "{} {}", g.u_degree(), g.v_degree());
            ensure!(knots(g.u_knots()) == f32s(&r.ku) && knots(g.v_knots()) == f32s(&r.kv), "cast-knots", "{:?} {:?}", g.u_knots(), g.v_knots());
            for (row, want) in g.control_points().iter().zip(&r.cps) {
                ensure!(row.len() == want.len() && row.iter().zip(want).all(|(p, q)| pv(p) == f32s(q)), "cast-points", "{row:?} from {want:?}");
            }
            let h: $f = g.cast();
            ensure!(h.control_points() == f.control_points() && h.u_knots() == f.u_knots() && h.v_knots() == f.v_knots(), "cast-round-trip", "{h:?} instead of {f:?}");
            // domains
            let ((a, b), (c, d)) = r.domain();
            ensure!(s.u_knots_domain() == (a, b) && s.v_knots_domain() == (c, d) && s.knots_domain() == ((a, b), (c, d)), "domain", "{:?}", s.knots_domain());
            ensure!(s.knots_domain_at(UVDirection::U) == (a, b) && s.knots_domain_at(UVDirection::V) == (c, d), "domain-at", "{:?}", s.knots_domain_at(UVDirection::U));
            ensure!(s.knots_domain_interval() == (b - a, d - c), "domain-interval", "{:?}", s.knots_domain_interval());
        }};
    }
    if dim == 2 {
        check!(s2(&r), NurbsSurface2D<f32>, NurbsSurface2D<f64>);
    } else {
        let s = s3(&r);
        check!(s.clone(), NurbsSurface3D<f32>, NurbsSurface3D<f64>);
        let t: TrimmedSurface<f64> = s.clone().into();
        ensure!(rs3(t.surface()) == r && t.exterior().is_none() && t.interiors().is_empty(), "into-trimmed", "{t:?}");
        let tess = s.regular_tessellate(cx.src.int(1, 4), cx.src.int(1, 4));
        let g: SurfaceTessellation<f64, Const<4>> = tess.cast::<f32>().cast();
        ensure!(g.faces() == tess.faces(), "cast-tessellation-faces", "{:?}", g.faces());
        ensure!(g.points().len() == tess.points().len() && g.points().iter().zip(tess.points()).all(|(p, q)| pv(p) == f32s(&pv(q))), "cast-tessellation-points", "{:?}", g.points());
        ensure!(g.normals().iter().zip(tess.normals()).all(|(p, q)| vv(p).iter().zip(f32s(&vv(q))).all(|(x, y)| *x == y || x.is_nan() && y.is_nan())), "cast-tessellation-normals", "{:?}", g.normals());
        ensure!(g.uvs().len() == tess.uvs().len() && g.uvs().iter().zip(tess.uvs()).all(|(p, q)| vv(p) == f32s(&vv(q))), "cast-tessellation-uvs", "{:?}", g.uvs());
    }
    Ok(())
}

fn frame(cx: &mut Cx) -> R {
    let r = gen_march(&mut cx.src, Opt { dim: Some(3), ..Opt::default() });
    let c = c3(&r);
    let (a, b) = r.domain();
    let us: Vec<f64> = (0..3).map(|_| gen_param(&mut cx.src, a, b, &[])).collect();
    note!(cx, "{r:?} {us:?}");
    cx.nontrivial_if(r.degree > 1);
    for f in c.compute_frenet_frames(&us) {
        let g = f.cast::<f32>().cast::<f64>();
        for (what, p, q) in [("tangent", f.tangent(), g.tangent()), ("normal", f.normal(), g.normal()), ("binormal", f.binormal(), g.binormal()), ("position", &f.position().coords, &g.position().coords)] {
            ensure!(p.iter().zip(q.iter()).all(|(x, y)| *x as f32 as f64 == *y), format!("cast-{what}"), "{p:?} became {q:?}");
        }
        // the rotation turns the axes to the frame
        let m = f.matrix();
        let p = gen_point(&mut cx.src, 3, 3.);
        let q = pv(&(m * p3(&p)));
        let want = add(&pv(f.position()), &add(&add(&scale(&vv(f.tangent()), p[2]), &scale(&vv(f.normal()), p[1])), &scale(&cross(&vv(f.normal()), &vv(f.tangent())), p[0])));
        ensure!(dist(&q, &want) <= 1e-5 * r.scale(), "matrix", "{p:?} placed at {q:?} instead of {want:?}");
        let iso: Isometry3<f64> = nalgebra::convert(m);
        ensure!((iso * p3(&p) - p3(&q)).norm() <= 1e-9 * r.scale(), "isometry", "{iso:?}");
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("curve", 900_000, curve), Law::new("surface", 360_000, surface), Law::new("frame", 300_000, frame)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C32",
        rule: "wild curves and surfaces of every kind (2D/3D, rational, unclamped), frames of marching curves; non-trivial = rational or degree >= 2 / a grid of control points that is not square",
        assumptions: &[],
        laws: LAWS,
        probes: &[],
    })
}
