//! C14 arc length and division
use curvo_verif::prelude::*;

fn arc(r: &RCurve, a: f64, b: f64) -> f64 {
    r.length(a, b, 10)
}
fn e(sig: &'static str) -> impl Fn(String) -> Fail {
    move |m| Fail { sig: sig.into(), msg: m }
}

fn gentle(cx: &mut Cx) -> R {
    let r = gen_march(&mut cx.src, Opt { extra: (0, 5), mult: 2, ..Opt::default() });
    let (r, k) = sized(&mut cx.src, r);
    let c = AC::new(&r);
    let (a, b) = r.domain();
    let total = arc(&r, a, b);
    let f = cx.src.real(0., 1.);
    let tol = k * *cx.src.pick(&[1e-4, 1e-3, 1e-6, 1e-12, 0.]);
    note!(cx, "curve {r:?} length {total} fraction {f} tolerance {tol}");
    cx.label_if(!r.clamped(), "unclamped");
    cx.label_if(r.interior().is_empty(), "one-span");
    cx.nontrivial_if(r.degree > 1);
    let l = c.length().map_err(e("length-error"))?;
    ensure!((l - total).abs() <= 1e-4 * total, "length", "length {l} expected {total}");
    // parameter at a length, and back
    let u = c.param_at_length(f * total, Some(tol)).map_err(e("parameter-error"))?;
    ensure!(u >= a - 1e-12 && u <= b + 1e-12, "parameter-domain", "parameter {u} outside ({a},{b})");
    let back = arc(&r, a, u.clamp(a, b));
    ensure!((back - f * total).abs() <= tol + 2e-4 * total, "parameter", "parameter {u} is at length {back}, wanted {}", f * total);
    let u0 = c.param_at_length(0., None).map_err(e("parameter-error"))?;
    ensure!((u0 - a).abs() < 1e-9, "parameter-zero", "length 0 is at {u0}, the curve starts at {a}");
    let u1 = c.param_at_length(l, Some(tol)).map_err(e("parameter-end-error"))?;
    ensure!((u1 - b).abs() <= 1e-2 * (b - a), "parameter-end", "the total length is at {u1}, the curve ends at {b}");
    ensure!(c.param_at_length(total * 1.001 + 1e-3, None).is_err(), "parameter-beyond", "a parameter for a length beyond the end");
    Ok(())
}

/// the same curve at another size
fn sized(s: &mut Src, mut r: RCurve) -> (RCurve, f64) {
    let k = if s.bool() { 1. } else { s.log_real(1e-5, 1e5) };
    let d = r.dim();
    for c in r.cps.iter_mut() {
        for x in c[..d].iter_mut() {
            *x *= k;
        }
    }
    (r, k)
}

fn check_division(r: &RCurve, v: &[(f64, f64)], step: f64, total: f64, sig: &str) -> R {
    let (a, b) = r.domain();
    let tol = 4e-3 * step.min(1.) + 2e-4 * total;
    let mut last = f64::MIN;
    for (k, (u, l)) in v.iter().enumerate() {
        ensure!((l - step * k as f64).abs() <= 1e-6 * total, format!("{sig}-length"), "sample {k} claims length {l}, step {step}");
        ensure!(*u >= a - 1e-9 && *u <= b + 1e-9, format!("{sig}-domain"), "sample {k} at {u} outside ({a},{b})");
        ensure!(*u >= last, format!("{sig}-order"), "sample {k} at {u} after {last}");
        last = *u;
        let at = arc(r, a, u.clamp(a, b));
        ensure!((at - l).abs() <= tol, format!("{sig}-spacing"), "sample {k} at {u} claims length {l}, it is at {at}");
    }
    Ok(())
}

fn division(cx: &mut Cx) -> R {
    let r = gen_march(&mut cx.src, Opt { extra: (0, 5), mult: 2, ..Opt::default() });
    let (r, k) = sized(&mut cx.src, r);
    let c = AC::new(&r);
    let (a, b) = r.domain();
    let total = arc(&r, a, b);
    cx.label(if k < 1e-2 { "tiny" } else if k > 1e2 { "huge" } else { "middling" });
    let n = cx.src.int(1, 20);
    note!(cx, "curve {r:?} length {total} into {n}");
    cx.label_if(!r.clamped(), "unclamped");
    cx.nontrivial_if(r.degree > 1 && n > 2);
    let l = c.length().map_err(e("length-error"))?;
    let v = c.divide_by_count(n).map_err(e("count-error"))?;
    ensure!(v.len() == n + 1, "count", "{} samples for {n} pieces", v.len());
    check_division(&r, &v, l / n as f64, total, "count")?;
    ensure!((v[n].0 - b).abs() <= 1e-2 * (b - a), "count-end", "the last sample is at {}, the end at {b}", v[n].0);
    // by length, not dividing the total evenly
    let step = l / (cx.src.int(1, 9) as f64 + cx.src.real(0.1, 0.9));
    note!(cx, "step {step}");
    let v = c.divide_by_length(step).map_err(e("by-length-error"))?;
    ensure!(v.len() == (l / step).floor() as usize + 1, "by-length", "{} samples of step {step} on length {total}", v.len());
    check_division(&r, &v, step, total, "by-length")?;
    ensure!(c.divide_by_length(0.).is_err() && c.divide_by_length(-1.).is_err() && c.divide_by_length(total * 1.1).is_err(), "by-length-bad", "accepted a step of 0, -1 or beyond the total");
    Ok(())
}

/// wild curves: additivity under splitting, invariance, bounds; quadrature near cusps is rough
fn general(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let (a, b) = r.domain();
    let u = a + (b - a) * cx.src.real(0.05, 0.95);
    if r.knots.iter().any(|k| (k - u).abs() < 1e-3 * (b - a)) {
        return discard("close");
    }
    let m = gen_rigid(&mut cx.src, r.dim());
    let k = cx.src.log_real(0.2, 5.);
    note!(cx, "curve {r:?} split {u} motion {m:?} scale {k}");
    cx.nontrivial_if(r.degree > 1);
    let l = c.length().map_err(e("length-error"))?;
    let total = arc(&r, a, b);
    ensure!((l - total).abs() <= 0.02 * total, "rough-length", "length {l} expected about {total}");
    ensure!(l >= dist(&r.point(a), &r.point(b)) * 0.98, "chord", "length {l} below the chord");
    let (x, y) = c.split(u).map_err(e("split-error"))?;
    let (lx, ly) = (x.length().map_err(e("length-error"))?, y.length().map_err(e("length-error"))?);
    ensure!((lx + ly - l).abs() <= 0.02 * total, "additive", "pieces {lx} + {ly}, whole {l}");
    let li = c.invert().length().map_err(e("length-error"))?;
    ensure!((li - l).abs() <= 1e-6 * total, "reversal", "reversed {li}, original {l}");
    let lm = c.transformed(&m).length().map_err(e("length-error"))?;
    ensure!((lm - l).abs() <= 1e-6 * (total + r.scale()), "motion", "moved {lm}, original {l}");
    let sc = Affine { a: (0..r.dim()).map(|i| (0..r.dim()).map(|j| if i == j { k } else { 0. }).collect()).collect(), b: vec![0.; r.dim()] };
    let ls = c.transformed(&sc).length().map_err(e("length-error"))?;
    ensure!((ls - k * l).abs() <= 1e-6 * k * total, "scaling", "scaled by {k}: {ls}, original {l}");
    Ok(())
}

static LAWS: &[Law] = &[Law::new("gentle", 12_000, gentle), Law::new("division", 4_000, division), Law::new("general", 20_000, general)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C14",
        rule: "gentle curves (control points marching along an axis; rational, clamped and unclamped) for lengths, parameters at lengths and divisions; wild random curves for additivity and invariance; non-trivial = degree >= 2 (division: into more than 2 pieces)",
        assumptions: &["near cusps the quadrature is only required to be within 2%"],
        laws: LAWS,
        probes: &[],
    })
}
