//! C05 knot removal
use curvo_verif::prelude::*;

fn max_dev(r: &RCurve, c: &AC) -> f64 {
    let (a, b) = r.domain();
    let mut ps = r.probe_params(6);
    ps.extend((0..=32).map(|i| a + (b - a) * i as f64 / 32.));
    ps.iter().map(|u| dist(&c.pt(u.clamp(a, b)), &r.point(u.clamp(a, b)))).fold(0., f64::max)
}
fn wellformed(r: &RCurve, x: &AC, k: f64, removed: usize) -> R {
    let m = x.model();
    let s = r.mult(k);
    ensure!(removed <= s, "removed-count", "claims to have removed {removed} of {s}");
    let mut want = r.knots.clone();
    for _ in 0..removed {
        let i = want.iter().position(|x| *x == k).unwrap();
        want.remove(i);
    }
    ensure!(m.knots == want, "knots", "knots {:?} expected {want:?} after removing {k} x{removed}", m.knots);
    ensure!(m.cps.len() + removed == r.cps.len(), "control-points", "{} control points left of {} after {removed} removals", m.cps.len(), r.cps.len());
    ensure!(m.degree == r.degree, "degree", "degree {}", m.degree);
    Ok(())
}

/// insert a knot t times by the reference (Boehm), then remove it: all t copies go, shape restored
fn inserted(cx: &mut Cx) -> R {
    let r0 = gen_curve(&mut cx.src, Opt { deg: (1, 5), unclamped: false, ..Opt::default() });
    let (a, b) = r0.domain();
    let inner: Vec<f64> = r0.interior().iter().map(|k| k.0).collect();
    let k = if !inner.is_empty() && cx.src.chance(1, 3) { *cx.src.pick(&inner) } else { a + (b - a) * cx.src.real(0.02, 0.98) };
    if r0.knots.iter().any(|x| *x != k && (x - k).abs() < 0.02 * (b - a)) {
        return discard("close-knots");
    }
    let have = r0.mult(k);
    if have >= r0.degree {
        return discard("full-multiplicity");
    }
    let t = cx.src.int(1, r0.degree - have);
    let mut r = r0.clone();
    for _ in 0..t {
        r = boehm(&r, k);
    }
    note!(cx, "curve {r0:?}, knot {k} inserted {t} times");
    cx.label(&format!("degree{}-t{t}", r.degree));
    cx.nontrivial_if(r.degree >= 2);
    let c = AC::new(&r);
    let (x, n) = c.remove_knot(k, None).map_err(|e| Fail { sig: "remove-error".into(), msg: e })?;
    wellformed(&r, &x, k, n)?;
    ensure!(n >= t, "not-removed", "{n} of {t} redundant copies removed");
    let d = max_dev(&r, &x);
    ensure!(d <= 1e-4 * r.scale(), "shape", "the curve moved by {d} after removing {n} copies of {k}: {:?}", x.model());
    Ok(())
}

/// reference knot insertion
fn boehm(r: &RCurve, u: f64) -> RCurve {
    let p = r.degree;
    let k = span(p, &r.knots, r.cps.len(), u, Side::Right);
    let mut cps = vec![];
    for i in 0..=r.cps.len() {
        if i + p <= k {
            cps.push(r.cps[i].clone());
        } else if i > k {
            cps.push(r.cps[i - 1].clone());
        } else {
            let a = (u - r.knots[i]) / (r.knots[i + p] - r.knots[i]);
            cps.push(lerp(&r.cps[i - 1], &r.cps[i], a));
        }
    }
    let mut knots = r.knots.clone();
    knots.insert(k + 1, u);
    RCurve { degree: p, knots, cps }
}

/// any interior knot of any curve: what is removed stays within the tolerance (polynomial curves,
/// whose homogeneous and Euclidean deviations coincide)
fn tolerance(cx: &mut Cx) -> R {
    let mut r = gen_curve(&mut cx.src, Opt { rational: false, unclamped: false, extra: (1, 7), ..Opt::default() });
    // often nearly removable: insert, then perturb
    let (a, b) = r.domain();
    let mut k = None;
    if cx.src.chance(3, 4) {
        let x = a + (b - a) * cx.src.real(0.05, 0.95);
        if !r.knots.iter().any(|y| (x - y).abs() < 0.02 * (b - a)) {
            let t = cx.src.int(1, r.degree);
            for _ in 0..t {
                r = boehm(&r, x);
            }
            let e = cx.src.log_real(1e-6, 1.);
            if cx.src.chance(2, 3) {
                let i = span(r.degree, &r.knots, r.cps.len(), x, Side::Right);
                let j = i - cx.src.int(0, r.degree);
                for q in 0..r.dim() {
                    r.cps[j][q] += cx.src.real(-e, e);
                }
            }
            k = Some(x);
        }
    }
    let inner = r.interior();
    let k = match k {
        Some(k) => k,
        None => cx.src.pick(&inner).0,
    };
    let tol = cx.src.log_real(1e-6, 2.);
    note!(cx, "curve {r:?} remove {k} tolerance {tol}");
    let c = AC::new(&r);
    let (x, n) = c.remove_knot(k, Some(tol)).map_err(|e| Fail { sig: "remove-error".into(), msg: e })?;
    wellformed(&r, &x, k, n)?;
    cx.nontrivial_if(n > 0);
    cx.label(&format!("removed{n}"));
    let d = max_dev(&r, &x);
    // each removal is within the tolerance
    ensure!(d <= tol * n as f64 * 1.0001 + 1e-9, "tolerance", "{n} copies of {k} removed with tolerance {tol}, the curve moved by {d}");
    Ok(())
}

fn unknown(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { unclamped: false, ..Opt::default() });
    let (a, b) = r.domain();
    let c = AC::new(&r);
    let k = a + (b - a) * cx.src.real(0.01, 0.99);
    if r.mult(k) > 0 {
        return discard("existing");
    }
    note!(cx, "curve {r:?} remove absent {k}, ends {a} {b}");
    cx.nontrivial_if(r.degree > 1);
    ensure!(c.remove_knot(k, None).is_err(), "absent", "removing the absent knot {k} succeeded");
    ensure!(c.remove_knot(a, None).is_err(), "start", "removing the start knot succeeded");
    ensure!(c.remove_knot(b, None).is_err(), "end", "removing the end knot succeeded");
    Ok(())
}

static LAWS: &[Law] = &[Law::new("inserted", 180_000, inserted), Law::new("tolerance", 180_000, tolerance), Law::new("unknown", 30_000, unknown)];

fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C05",
        rule: "random curves (degree 1-5); a knot inserted 1..degree times by a reference insertion and then removed, random knots (redundant, perturbed, genuine) removed with a tolerance drawn log-uniformly from [1e-6, 2], absent and end knots; non-trivial = degree >= 2 (tolerance law: at least one copy removed)",
        assumptions: &["the tolerance law is for non-rational curves, where the homogeneous and the Euclidean deviation coincide", "the removed knot is at least 2% of the domain away from the others"],
        laws: LAWS,
        probes: &[],
    })
}
