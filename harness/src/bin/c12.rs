//! C12 periodic curves
use curvo_verif::prelude::*;

/// closed, with all derivatives below the degree agreeing at the seam, and translation of the
/// parameter by whole spans permutes the control polygon
fn seam(m: &RCurve, sig: &str, tol: f64) -> R {
    let (a, b) = m.domain();
    let d0 = m.derivs(a, m.degree, Side::Right);
    let d1 = m.derivs(b, m.degree, Side::Left);
    let mut scale_k = m.scale();
    for k in 0..m.degree {
        scale_k = scale_k.max(norm(&d0[k])).max(norm(&d1[k]));
        ensure!(dist(&d0[k], &d1[k]) <= tol * scale_k * 10f64.powi(k as i32), format!("{sig}-seam{k}"), "derivative {k} jumps at the seam: {:?} / {:?}", d0[k], d1[k]);
    }
    Ok(())
}

fn periodic(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let degree = cx.src.int(1, 5);
    let n = degree + 1 + cx.src.int(0, 6);
    let pts: Vec<Vec<f64>> = (0..n).map(|_| gen_point(&mut cx.src, dim, 10.)).collect();
    note!(cx, "points {pts:?} degree {degree}");
    cx.label(&format!("degree{degree}"));
    cx.nontrivial_if(degree > 1);
    let c = AC::periodic(&pts, degree).map_err(|e| Fail { sig: "periodic-error".into(), msg: e })?;
    let m = c.model();
    let (a, b) = c.domain();
    ensure!(m.degree == degree && m.knots.len() == m.cps.len() + degree + 1, "periodic-form", "{m:?}");
    ensure!(c.is_closed(), "periodic-closed", "is_closed is false");
    ensure!(dist(&c.pt(a), &c.pt(b)) <= 1e-9 * m.scale(), "periodic-ends", "{:?} {:?}", c.pt(a), c.pt(b));
    seam(&m, "periodic", 1e-8)?;
    // uniform B-spline on the cycled points: one period is n equal spans, span i governed by
    // points i..i+degree (cyclically)
    let h = (b - a) / n as f64;
    let kn: Vec<f64> = (0..2 * degree + 2).map(|i| i as f64 - degree as f64).collect();
    for i in 0..n {
        let f = cx.src.real(0., 1.);
        let cps: Vec<Vec<f64>> = (0..=degree).map(|j| pts[(i + j) % n].clone()).collect();
        let q = de_boor(degree, &kn, &cps, f, Side::Right);
        let u = (a + h * (i as f64 + f)).clamp(a, b);
        let p = c.pt(u);
        ensure!(dist(&p, &q) <= 1e-7 * m.scale(), "periodic-point", "at {u}: {p:?} expected {q:?}");
    }
    Ok(())
}

fn loop_points(s: &mut Src, dim: usize, n: usize) -> Vec<Vec<f64>> {
    let r0 = s.real(1., 6.);
    let pts: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let a = (i as f64 + 0.3 * s.real(-1., 1.)) * std::f64::consts::TAU / n as f64;
            let r = r0 * s.real(0.6, 1.4);
            let mut p = vec![r * a.cos(), r * a.sin()];
            if dim == 3 {
                p.push(s.coord(1.) * r0);
            }
            p
        })
        .collect();
    pts
}

fn interpolate(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let degree = *cx.src.pick(&[3usize, 1, 2, 4, 5]);
    let n = degree + 1 + cx.src.int(0, 7);
    // even degrees: the problem is singular for even numbers of uniform points
    let singular = degree % 2 == 0 && n % 2 == 0;
    let mut pts = loop_points(&mut cx.src, dim, n);
    if singular && cx.src.bool() {
        // a regular polygon
        let a = |i: usize| std::f64::consts::TAU * i as f64 / n as f64;
        pts = (0..n).map(|i| (0..dim).map(|j| if j == 0 { 3. * a(i).cos() } else if j == 1 { 3. * a(i).sin() } else { 1. }).collect()).collect();
    }
    let k = cx.src.draw(3);
    let style = [KnotStyle::Uniform, KnotStyle::Chordal, KnotStyle::Centripetal][k as usize].clone();
    note!(cx, "points {pts:?} degree {degree} style {style:?}");
    cx.label(&format!("degree{degree}-{style:?}"));
    cx.nontrivial_if(degree > 1);
    let c = match AC::periodic_interpolate(&pts, degree, style.clone()) {
        Ok(c) => c,
        Err(_) if singular => {
            cx.label("refused");
            return Ok(());
        }
        Err(e) => return fail("error", e),
    };
    let m = c.model();
    let big = m.scale();
    if !singular && big > 1e4 * (1. + pts.iter().map(|p| norm(p)).fold(0., f64::max)) {
        return discard("ill-conditioned");
    }
    let (a, b) = c.domain();
    ensure!(m.degree == degree && m.knots.len() == m.cps.len() + degree + 1, "form", "{m:?}");
    let tol = if singular { 1e-5 } else { 1e-7 * big };
    ensure!(dist(&c.pt(a), &pts[0]) <= tol && dist(&c.pt(b), &pts[0]) <= tol, "closed", "starts at {:?}, ends at {:?}, first point {:?}", c.pt(a), c.pt(b), pts[0]);
    // through the points in order, at parameters spaced by the style
    let alpha = [0., 1., 0.5][k as usize];
    let mut us = vec![0.];
    for i in 0..n {
        us.push(us[i] + dist(&pts[i], &pts[(i + 1) % n]).powf(alpha));
    }
    for i in 0..=n {
        let u = (a + (b - a) * us[i] / us[n]).clamp(a, b);
        let (p, q) = (c.pt(u), &pts[i % n]);
        let tol = if singular { 1e-6 * (1. + norm(q)) } else { tol };
        ensure!(dist(&p, q) <= tol, "through", "at {u}: {p:?} instead of point {i} {q:?} ({style:?})");
    }
    seam(&m, "interpolate", 1e-6)
}

static LAWS: &[Law] = &[Law::new("periodic", 180_000, periodic), Law::new("interpolate", 180_000, interpolate)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C12",
        rule: "random control points (periodic) and jittered loops of points (interpolation) in 2D/3D, degrees 1-5, all three knot styles; non-trivial = degree >= 2",
        assumptions: &["periodic interpolation of even degree through an even number of points, which is singular for uniform points, may be refused; if not, the curve passes through the points", "interpolation problems whose solution exceeds 1e4 times the input are discarded as ill conditioned"],
        laws: LAWS,
        probes: &[],
    })
}
