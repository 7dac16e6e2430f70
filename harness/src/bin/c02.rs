//! C02 curve derivatives
use curvo_verif::prelude::*;

fn mags(r: &RCurve, n: usize) -> Vec<f64> {
    // sup of |derivative| over a sample, for relative tolerances
    let mut m = vec![0f64; n + 1];
    for u in r.probe_params(3) {
        for (i, d) in r.derivs(u, n, Side::Right).iter().enumerate() {
            m[i] = m[i].max(norm(d));
        }
    }
    m
}

fn derivatives(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { unclamped: true, ..Opt::default() });
    let c = AC::new(&r);
    note!(cx, "curve {r:?}");
    let (a, b) = r.domain();
    let m = mags(&r, 2);
    let mut ps = r.probe_params(3);
    for _ in 0..3 {
        let u = cx.src.real(a, b);
        ps.push(next_to(&mut cx.src, u, a, b, &r.knots));
    }
    cx.label(&format!("degree{}", r.degree));
    cx.label_if(r.is_rational(), "rational");
    cx.nontrivial_if(r.degree >= 2 && (r.is_rational() || !r.interior().is_empty()));
    for u in ps {
        // right limit inside, left limit at the end of the domain
        let side = if u >= b { Side::Left } else { Side::Right };
        let d = r.derivs(u, 2, side);
        let t = c.tangent(u);
        let (_, t2) = c.pt_tangent(u);
        let s = c.second(u);
        let tol1 = 1e-8 * (m[1] + r.scale());
        let tol2 = 1e-7 * (m[2] + m[1] + r.scale());
        ensure!(dist(&t, &d[1]) <= tol1, "tangent", "tangent_at({u}) = {t:?}, derivative is {:?}", d[1]);
        ensure!(dist(&t2, &d[1]) <= tol1, "point_tangent.1", "point_tangent_at({u}).1 = {t2:?}, derivative is {:?}", d[1]);
        ensure!(dist(&s, &d[2]) <= tol2, "second", "second_derivative_at({u}) = {s:?}, derivative is {:?}", d[2]);
    }
    Ok(())
}

/// the tangent is the limit of difference quotients of the evaluated points
fn difference_quotient(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { domain: false, ..Opt::default() });
    let c = AC::new(&r);
    note!(cx, "curve {r:?}");
    // integrate the tangent over a stretch inside one span: must equal the chord
    let (a, b) = r.domain();
    let mut ks: Vec<f64> = vec![a];
    ks.extend(r.interior().iter().map(|k| k.0));
    ks.push(b);
    let i = cx.src.int(0, ks.len() - 2);
    let (f0, f1) = (cx.src.real(0., 0.45), cx.src.real(0.55, 1.));
    let (x, y) = (ks[i] + (ks[i + 1] - ks[i]) * f0, ks[i] + (ks[i + 1] - ks[i]) * f1);
    let integrate = |m: usize| {
        let mut s = vec![0.; r.dim()];
        let mut s2 = vec![0.; r.dim()];
        for j in 0..m {
            let (lo, hi) = (x + (y - x) * j as f64 / m as f64, x + (y - x) * (j + 1) as f64 / m as f64);
            for (n, w) in GL5 {
                let u = (lo + hi) / 2. + (hi - lo) / 2. * n;
                s = add(&s, &scale(&c.tangent(u), w * (hi - lo) / 2.));
                s2 = add(&s2, &scale(&c.second(u), w * (hi - lo) / 2.));
            }
        }
        (s, s2)
    };
    // the difference bounds the error of the quadrature
    let ((c1, c2), (s, s2)) = (integrate(12), integrate(24));
    let (q, q2) = (dist(&c1, &s), dist(&c2, &s2));
    let chord = sub(&c.pt(y), &c.pt(x));
    cx.nontrivial_if(r.degree >= 2 && norm(&chord) > 1e-3);
    ensure!(dist(&s, &chord) < 1e-6 * r.scale() + q, "integral", "the tangent integrates to {s:?} over [{x},{y}], the chord is {chord:?}");
    let dt = sub(&c.tangent(y), &c.tangent(x));
    let m2 = mags(&r, 2);
    // stay off the right end, where the tangent switches side
    if f1 < 0.999 {
        ensure!(dist(&s2, &dt) < 1e-6 * (m2[1] + m2[2] + r.scale()) + q2, "integral2", "the second derivative integrates to {s2:?}, the tangent changes by {dt:?}");
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("derivatives", 180_000, derivatives), Law::new("difference-quotient", 36_000, difference_quotient)];

fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C02",
        rule: "random 2D/3D curves of degree 1-5 (see C01) differentiated at domain ends, knots, span interiors and random parameters; non-trivial = degree >= 2 with interior knots or varying weights",
        assumptions: &["positive weights", "at a knot the right-hand derivative, at the domain end the left-hand one", "tolerances relative to the largest derivative of the curve"],
        laws: LAWS,
        probes: &[],
    })
}
