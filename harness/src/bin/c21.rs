//! C21 surface evaluation, derivatives, normals and regular sampling
use curvo_verif::prelude::*;

fn surf(cx: &mut Cx, mult: usize) -> RSurface {
    let dim = if cx.src.chance(1, 5) { 2 } else { 3 };
    gen_surface(&mut cx.src, dim, Opt { deg: (1, 5), extra: (0, 5), mult, ..Opt::default() })
}
fn interiors(r: &RSurface) -> (Vec<f64>, Vec<f64>) {
    (r.u_axis().interior().iter().map(|k| k.0).collect(), r.v_axis().interior().iter().map(|k| k.0).collect())
}
fn labels(cx: &mut Cx, r: &RSurface) {
    let rational = r.cps.iter().flatten().any(|p| p[r.dim()] != r.cps[0][0][r.dim()]);
    cx.label_if(rational, "rational");
    cx.label_if(r.du != r.dv, "degrees-differ");
    cx.label_if(!r.u_axis().clamped() || !r.v_axis().clamped(), "unclamped");
    cx.nontrivial_if(r.du != r.dv && (rational || r.cps.len() > r.du + 1));
}

macro_rules! facade {
    ($name:ident, $conv:ident) => {
        mod $name {
            use super::*;
            pub fn point(r: &RSurface, u: f64, v: f64) -> (Vec<f64>, Vec<f64>) {
                let s = $conv(r);
                (pv(&s.point_at(u, v)), pv(&s.point(u, v)))
            }
            pub fn derivs(r: &RSurface, u: f64, v: f64, n: usize) -> Vec<Vec<Vec<f64>>> {
                $conv(r).rational_derivatives(u, v, n).iter().map(|x| x.iter().map(vv).collect()).collect()
            }
            pub fn samples(r: &RSurface, a: usize, b: usize) -> Vec<Vec<Vec<f64>>> {
                $conv(r).regular_sample_points(a, b).iter().map(|x| x.iter().map(pv).collect()).collect()
            }
            pub fn sample_derivs(r: &RSurface, a: usize, b: usize, n: usize) -> Vec<Vec<Vec<Vec<Vec<f64>>>>> {
                $conv(r).regular_sample_rational_derivatives(a, b, n).iter().map(|x| x.iter().map(|y| y.iter().map(|z| z.iter().map(vv).collect()).collect()).collect()).collect()
            }
            pub fn domains(r: &RSurface) -> ((f64, f64), (f64, f64), (f64, f64)) {
                let s = $conv(r);
                let (u, v) = s.knots_domain();
                assert_eq!((s.knots_domain_at(UVDirection::U), s.knots_domain_at(UVDirection::V)), (u, v));
                assert_eq!((s.u_knots_domain(), s.v_knots_domain()), (u, v));
                (u, v, s.knots_domain_interval())
            }
        }
    };
}
facade!(f2, s2);
facade!(f3, s3);
macro_rules! on {
    ($r:expr, $f:ident ( $($a:expr),* )) => { if $r.dim() == 2 { f2::$f($r, $($a),*) } else { f3::$f($r, $($a),*) } };
}

fn points(cx: &mut Cx) -> R {
    let r = surf(cx, 9);
    note!(cx, "surface {r:?}");
    labels(cx, &r);
    let ((ua, ub), (va, vb)) = r.domain();
    let (iu, iv) = interiors(&r);
    let (du, dv, span) = on!(&r, domains());
    ensure!(du == (ua, ub) && dv == (va, vb) && span == (ub - ua, vb - va), "domain", "domain {du:?} {dv:?} {span:?}, expected {:?}", r.domain());
    for _ in 0..8 {
        let (u, v) = (gen_param(&mut cx.src, ua, ub, &iu), gen_param(&mut cx.src, va, vb, &iv));
        let (u, v) = (next_to(&mut cx.src, u, ua, ub, &r.ku), next_to(&mut cx.src, v, va, vb, &r.kv));
        let q = r.hom(u, v);
        let (p, h) = on!(&r, point(u, v));
        ensure!(dist(&p, &proj(&q)) <= 1e-9 * r.scale(), "point", "point_at({u},{v}) = {p:?}, expected {:?}", proj(&q));
        ensure!(dist(&h, &q) <= 1e-9 * (r.scale() + 1.) * q[r.dim()].max(1.) * 10., "homogeneous", "point({u},{v}) = {h:?}, expected {q:?}");
    }
    Ok(())
}

/// largest norm of each derivative over a coarse grid, for relative tolerances
fn mags(r: &RSurface, n: usize) -> Vec<Vec<f64>> {
    let mut m = vec![vec![r.scale(); n + 1]; n + 1];
    let (pu, pw) = (r.u_axis().probe_params(1), r.v_axis().probe_params(1));
    for &u in &pu {
        for &v in &pw {
            for (k, row) in r.derivs(u, v, n, Side::Right, Side::Right).iter().enumerate() {
                for (l, d) in row.iter().enumerate() {
                    m[k][l] = m[k][l].max(norm(d));
                }
            }
        }
    }
    // lower orders enter the quotient rule
    for k in 0..=n {
        for l in 0..=n {
            for i in 0..=k {
                for j in 0..=l {
                    m[k][l] = m[k][l].max(m[i][j]);
                }
            }
        }
    }
    m
}
fn sides(x: f64, b: f64) -> Side {
    if x >= b {
        Side::Left
    } else {
        Side::Right
    }
}

fn derivatives(cx: &mut Cx) -> R {
    let r = surf(cx, 9);
    let n = cx.src.int(0, 4);
    note!(cx, "surface {r:?} order {n}");
    labels(cx, &r);
    cx.label_if(n > r.du.min(r.dv), "above-degree");
    let ((ua, ub), (va, vb)) = r.domain();
    let (iu, iv) = interiors(&r);
    let m = mags(&r, n);
    for _ in 0..3 {
        let (u, v) = (gen_param(&mut cx.src, ua, ub, &iu), gen_param(&mut cx.src, va, vb, &iv));
        let (u, v) = (next_to(&mut cx.src, u, ua, ub, &r.ku), next_to(&mut cx.src, v, va, vb, &r.kv));
        let d = on!(&r, derivs(u, v, n));
        let q = r.derivs(u, v, n, sides(u, ub), sides(v, vb));
        ensure!(d.len() == n + 1, "orders", "{} rows for order {n}", d.len());
        for k in 0..=n {
            ensure!(d[k].len() == n + 1 - k, "orders", "{} entries in row {k} for order {n}", d[k].len());
            for l in 0..=n - k {
                ensure!(dist(&d[k][l], &q[k][l]) <= 1e-8 * m[k][l] * 10f64.powi((k + l) as i32), "derivative", "derivative ({k},{l}) at ({u},{v}) is {:?}, expected {:?}", d[k][l], q[k][l]);
            }
        }
        if r.dim() == 3 {
            let q = r.derivs(u, v, 1, sides(u, ub), sides(v, vb));
            let e = cross(&q[1][0], &q[0][1]);
            let w = vv(&s3(&r).normal_at(u, v));
            let m = mags(&r, 1);
            ensure!(dist(&w, &e) <= 1e-7 * (m[1][0] * m[0][1] + 1e-3), "normal", "normal_at({u},{v}) = {w:?}, expected {e:?}");
        }
    }
    Ok(())
}

/// points, derivatives and normals on a regular grid
fn samples(cx: &mut Cx) -> R {
    // kinks have two normals
    let r = surf(cx, 9);
    let (a, b) = (cx.src.int(1, 9), cx.src.int(1, 9));
    let n = cx.src.int(1, 3);
    note!(cx, "surface {r:?} divisions {a} {b} order {n}");
    labels(cx, &r);
    let ((ua, ub), (va, vb)) = r.domain();
    let (iu, iv) = interiors(&r);
    let ps = on!(&r, samples(a, b));
    let ds = on!(&r, sample_derivs(a, b, n));
    ensure!(ps.len() == a + 1 && ps.iter().all(|x| x.len() == b + 1), "grid", "{} rows of points", ps.len());
    ensure!(ds.len() == a + 1 && ds.iter().all(|x| x.len() == b + 1), "grid", "{} rows of derivatives", ds.len());
    let m = mags(&r, n);
    let extra = if r.dim() == 3 {
        let s = s3(&r);
        Some((s.regular_sample_normals(a, b), s.regular_tessellate(a, b)))
    } else {
        None
    };
    for i in 0..=a {
        for j in 0..=b {
            let (u, v) = (ua + (ub - ua) * i as f64 / a as f64, va + (vb - va) * j as f64 / b as f64);
            let (u, v) = (u.min(ub), v.min(vb));
            ensure!(dist(&ps[i][j], &r.point(u, v)) <= 1e-8 * r.scale() + 1e-12 * (m[1][0] + m[0][1]), "sample-point", "sample {i},{j} is {:?}, expected {:?}", ps[i][j], r.point(u, v));
            // the parameter is only known up to rounding: at a knot either side's derivative
            let ku = iu.iter().find(|k| (**k - u).abs() < 1e-9 * (1. + u.abs()));
            let kv = iv.iter().find(|k| (**k - v).abs() < 1e-9 * (1. + v.abs()));
            let us = if let Some(k) = ku { vec![(*k, Side::Left), (*k, Side::Right)] } else { vec![(u, sides(u, ub))] };
            let vs = if let Some(k) = kv { vec![(*k, Side::Left), (*k, Side::Right)] } else { vec![(v, sides(v, vb))] };
            let mut bad = String::new();
            let mut ok = false;
            for (u, su) in &us {
                for (v, sv) in &vs {
                    let q = r.derivs(*u, *v, n, *su, *sv);
                    let mut good = true;
                    for k in 0..=n {
                        for l in 0..=n - k {
                            // parameters differ by rounding, so do lower derivatives
                            let t = 1e-7 * m[k][l] * 10f64.powi((k + l) as i32);
                            if dist(&ds[i][j][k][l], &q[k][l]) > t {
                                good = false;
                                bad = format!("derivative ({k},{l}) of sample {i},{j} is {:?}, expected {:?}", ds[i][j][k][l], q[k][l]);
                            }
                        }
                    }
                    ok |= good;
                }
            }
            ensure!(ok, "sample-derivative", "{bad}");
            if let Some((normals, t)) = &extra {
                let d = &ds[i][j];
                let e = cross(&d[1][0], &d[0][1]);
                let w = vv(&normals[i][j]);
                let idx = i * (b + 1) + j;
                if norm(&e) > 1e-6 * m[1][0] * m[0][1] {
                    ensure!(dist(&w, &unit(&e)) <= 1e-6, "sample-normal", "normal of sample {i},{j} is {w:?}, expected {:?}", unit(&e));
                    ensure!(vv(&t.normals()[idx]) == w, "tessellation-normal", "vertex {idx}");
                }
                ensure!(pv(&t.points()[idx]) == ps[i][j], "tessellation-point", "vertex {idx}");
                let uv = t.uvs()[idx];
                ensure!((uv.x - u).abs() <= 1e-9 * (1. + u.abs()) && (uv.y - v).abs() <= 1e-9 * (1. + v.abs()), "tessellation-uv", "vertex {idx} has {uv:?}, expected ({u},{v})");
            }
        }
    }
    if let Some((_, t)) = &extra {
        ensure!(t.points().len() == (a + 1) * (b + 1) && t.uvs().len() == t.points().len() && t.normals().len() == t.points().len(), "tessellation-count", "{} points", t.points().len());
        // the triangles tile the parameter rectangle, all with the orientation of the normals
        let mut area = 0.;
        for f in t.faces() {
            ensure!(f.iter().all(|i| *i < t.points().len()), "tessellation-index", "face {f:?}");
            let [p, q, s] = f.map(|i| t.uvs()[i]);
            let x = (q - p).perp(&(s - p)) / 2.;
            ensure!(x > 0., "tessellation-orientation", "face {f:?} has area {x} in the parameter plane");
            area += x;
        }
        ensure!((area - (ub - ua) * (vb - va)).abs() <= 1e-8 * area, "tessellation-area", "the faces cover {area}, the domain {}", (ub - ua) * (vb - va));
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("points", 200_000, points), Law::new("derivatives", 40_000, derivatives), Law::new("samples", 20_000, samples)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C21",
        rule: "random 2D/3D surfaces of degrees 1-5 x 1-5 with up to 10 x 10 control points, clamped or not; parameters at domain ends, knots and anywhere; derivatives up to total order 4, grids of 1-9 divisions; non-trivial = the two degrees differ and the surface is rational or has more than the minimum of control points",
        assumptions: &["positive weights", "at an interior knot the right-hand derivative (grids: either side's), at the domain end the left-hand one", "tolerances relative to the largest derivative of the surface"],
        laws: LAWS,
        probes: &[],
    })
}
