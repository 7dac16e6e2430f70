//! C17 curve-curve intersections
use curvo_verif::prelude::*;

fn e(sig: &'static str) -> impl Fn(String) -> Fail {
    move |m| Fail { sig: sig.into(), msg: m }
}
type It = ((Vec<f64>, f64), (Vec<f64>, f64));
pub type Opts = CurveIntersectionSolverOptions<f64>;

fn find(a: &AC, b: &AC, o: Option<Opts>) -> Result<Vec<It>, String> {
    macro_rules! go {
        ($a:expr, $b:expr) => {
            $a.find_intersections($b, o).map_err(|e| e.to_string()).map(|v| v.iter().map(|i| ((pv(&i.a().0), i.a().1), (pv(&i.b().0), i.b().1))).collect())
        };
    }
    match (a, b) {
        (AC::D2(a), AC::D2(b)) => go!(a, b),
        (AC::D3(a), AC::D3(b)) => go!(a, b),
        _ => panic!("harness"),
    }
}

fn options(s: &mut Src) -> Option<Opts> {
    match s.draw(3) {
        0 => None,
        1 => Some(Opts { minimum_distance: 1e-4, knot_domain_division: 500, max_iters: 1000, step_size_tolerance: 1e-8, cost_tolerance: 1e-10 }),
        _ => Some(Opts { minimum_distance: 1e-5, cost_tolerance: 1e-12, ..Default::default() }),
    }
}

/// the same curve on a short domain, as trimming gives it; the tolerances of the solver are in terms of the parameter
fn shorten(s: &mut Src) -> f64 {
    if s.chance(2, 3) { 1. } else { s.log_real(0.02, 1.) }
}
fn times(r: &RCurve, f: f64) -> RCurve {
    RCurve { knots: r.knots.iter().map(|k| k * f).collect(), ..r.clone() }
}
fn fine(op: Option<Opts>, f: f64) -> Option<Opts> {
    if f == 1. { return op }
    Some(Opts { step_size_tolerance: 1e-10, cost_tolerance: 1e-14, ..op.unwrap_or_default() })
}

/// the same curves and tolerances in another size
fn size(cx: &mut Cx) -> f64 {
    let k = if cx.src.chance(3, 4) { 1. } else { cx.src.log_real(0.1, 10.) };
    cx.label_if(k != 1., "resized");
    k
}
fn resized(r: &RCurve, k: f64) -> RCurve {
    RCurve { cps: r.cps.iter().map(|p| hom(&scale(&proj(p), k), p[p.len() - 1])).collect(), ..r.clone() }
}
fn resize(op: Option<Opts>, k: f64) -> Option<Opts> {
    if k == 1. { return op }
    let op = op.unwrap_or_default();
    Some(Opts { minimum_distance: op.minimum_distance * k, cost_tolerance: op.cost_tolerance * k * k, ..op })
}

/// every reported intersection is one
fn sound(r0: &RCurve, r1: &RCurve, its: &[It], min: f64) -> R {
    let sc = r0.scale().max(r1.scale());
    for ((pa, ta), (pb, tb)) in its {
        for (r, p, t) in [(r0, pa, ta), (r1, pb, tb)] {
            let (a, b) = r.domain();
            ensure!(*t >= a && *t <= b, "domain", "intersection at parameter {t} outside ({a},{b})");
            ensure!(dist(&r.point(*t), p) <= 1e-9 * sc, "off-curve", "intersection point {p:?} at {t}, where the curve is at {:?}", r.point(*t));
        }
        ensure!(dist(pa, pb) < min * 1.000001, "apart", "intersection points {pa:?} and {pb:?}");
    }
    Ok(())
}

/// wild curves: soundness only
fn wild(cx: &mut Cx) -> R {
    let o = Opt { extra: (0, 4), ..Opt::default() };
    let r0 = gen_curve(&mut cx.src, o);
    let r1 = gen_curve(&mut cx.src, Opt { dim: Some(r0.dim()), ..o });
    let op = options(&mut cx.src);
    note!(cx, "curves {r0:?} {r1:?} options {op:?}");
    let its = find(&AC::new(&r0), &AC::new(&r1), op.clone()).map_err(e("error"))?;
    cx.nontrivial_if(!its.is_empty());
    sound(&r0, &r1, &its, op.unwrap_or_default().minimum_distance)
}

/// roots of f on [a, b]: Some(list) when all of them are transversal and well apart
fn roots(a: f64, b: f64, n: usize, slope: f64, gap: f64, f: impl Fn(f64) -> f64) -> Option<Vec<f64>> {
    let x = |i: usize| a + (b - a) * i as f64 / n as f64;
    let v: Vec<f64> = (0..=n).map(|i| f(x(i))).collect();
    let mut out: Vec<f64> = vec![];
    let h = (b - a) / n as f64;
    for i in 0..n {
        if v[i] == 0. || v[i] * v[i + 1] < 0. {
            let (mut lo, mut hi) = (x(i), x(i + 1));
            for _ in 0..60 {
                let m = (lo + hi) / 2.;
                if f(lo) * f(m) <= 0. {
                    hi = m
                } else {
                    lo = m
                }
            }
            let r = (lo + hi) / 2.;
            let d = (f((r + h * 0.5).min(b)) - f((r - h * 0.5).max(a))) / ((r + h * 0.5).min(b) - (r - h * 0.5).max(a));
            if d.abs() * (b - a) < slope || r - a < gap || b - r < gap {
                return None;
            }
            if let Some(l) = out.last() {
                if r - l < gap {
                    return None;
                }
            }
            out.push(r);
        }
    }
    // no near misses
    for i in 0..=n {
        let near = out.iter().any(|r| (r - x(i)).abs() < gap);
        if !near && v[i].abs() < slope * gap / (b - a) * 0.5 {
            return None;
        }
    }
    Some(out)
}

/// the tangents of two curves make a clear angle
fn angle(r0: &RCurve, t0: f64, r1: &RCurve, t1: f64) -> bool {
    // not beside a corner, where the solver sees a kink
    for (r, t) in [(r0, t0), (r1, t1)] {
        if r.degree == 1 && r.interior().iter().any(|k| (k.0 - t).abs() < 0.02 && k.0 != t) {
            return false;
        }
    }
    [Side::Left, Side::Right].iter().all(|s0| {
        [Side::Left, Side::Right].iter().all(|s1| {
            let (a, b) = (&r0.derivs(t0, 1, *s0)[1], &r1.derivs(t1, 1, *s1)[1]);
            let c = dot(a, b).abs() / (norm(a) * norm(b));
            c < 0.985
        })
    })
}

/// how far apart crossings have to be, as a part of the domain: not in one leaf of the trees
fn apart(op: &Option<Opts>) -> f64 {
    (3. / op.clone().unwrap_or_default().knot_domain_division as f64).max(0.01)
}

fn complete(r0: &RCurve, r1: &RCurve, its: &[It], exp: &[(f64, f64)]) -> R {
    let sc = r0.scale().max(r1.scale());
    ensure!(its.len() == exp.len(), "count", "{} intersections {:?}, expected {}: {exp:?}", its.len(), its.iter().map(|i| (i.0 .1, i.1 .1)).collect::<Vec<_>>(), exp.len());
    for (a, b) in exp {
        let p = r0.point(*a);
        ensure!(its.iter().any(|i| dist(&i.0 .0, &p) < 1e-3 * sc && (i.0 .1 - a).abs() < 1e-2 * (1. + r0.domain().1 - r0.domain().0) && (i.1 .1 - b).abs() < 1e-2 * (1. + r1.domain().1 - r1.domain().0)), "missing", "no intersection at {a} {b} {p:?} in {its:?}");
    }
    Ok(())
}

/// graphs y = f(x) and y = g(x)
fn graph(s: &mut Src, amp: f64) -> RCurve {
    let mut r = gen_curve(s, Opt { dim: Some(2), deg: (1, 4), extra: (0, 5), rational: false, unclamped: false, mult: 1, ..Opt::default() });
    r = tame(r);
    let (a, b) = r.domain();
    let d = r.degree;
    for i in 0..r.cps.len() {
        let g = r.knots[i + 1..=i + d].iter().sum::<f64>() / d as f64;
        r.cps[i] = vec![(g - a) / (b - a) * 10., s.real(-amp, amp), 1.];
    }
    r
}
fn graphs(cx: &mut Cx) -> R {
    let r0 = graph(&mut cx.src, 4.);
    let r1 = graph(&mut cx.src, 4.);
    let (s0, s1) = (shorten(&mut cx.src), shorten(&mut cx.src));
    let op = fine(options(&mut cx.src), s0.min(s1));
    cx.label_if(s0.min(s1) < 0.2, "short-domain");
    let m = gen_rigid(&mut cx.src, 2);
    let k = size(cx);
    let op = resize(op, k);
    note!(cx, "curves {r0:?} {r1:?} moved by {m:?} domains {s0} {s1} size {k} options {op:?}");
    let at = |r: &RCurve, x: f64| r.domain().0 + (r.domain().1 - r.domain().0) * x / 10.;
    let Some(rs) = roots(0., 10., 2000, 2., 10. * apart(&op), |x| r0.point(at(&r0, x))[1] - r1.point(at(&r1, x))[1]) else { return discard("not-transversal") };
    if rs.iter().any(|x| !angle(&r0, at(&r0, *x), &r1, at(&r1, *x))) { return discard("not-transversal") }
    let mv = |r: &RCurve| RCurve { degree: r.degree, knots: r.knots.clone(), cps: r.cps.iter().map(|c| hom(&m.apply(&proj(c)), c[2])).collect() };
    let (q0, q1) = (times(&resized(&mv(&r0), k), s0), times(&resized(&mv(&r1), k), s1));
    let its = find(&AC::new(&q0), &AC::new(&q1), op.clone()).map_err(e("error"))?;
    cx.nontrivial_if(rs.len() > 1);
    sound(&q0, &q1, &its, op.unwrap_or_default().minimum_distance)?;
    complete(&q0, &q1, &its, &rs.iter().map(|x| (at(&r0, *x) * s0, at(&r1, *x) * s1)).collect::<Vec<_>>())
}

/// a line through a star shaped closed curve
fn line_star(cx: &mut Cx) -> R {
    let r = tame(gen_star(&mut cx.src, &[0., 0.], 3., 6., (1, 4), true));
    let th = cx.src.real(0., std::f64::consts::TAU);
    let off = cx.src.real(-2., 2.);
    let (d, n) = ([th.cos(), th.sin()], [-th.sin(), th.cos()]);
    let (t0, t1) = (-cx.src.real(0.5, 12.), cx.src.real(0.5, 12.));
    let p = |t: f64| vec![d[0] * t + n[0] * off, d[1] * t + n[1] * off];
    let dom = gen_domain(&mut cx.src, true);
    let l = RCurve { degree: 1, knots: vec![dom.0, dom.0, dom.1, dom.1], cps: vec![hom(&p(t0), 1.), hom(&p(t1), 1.)] };
    let op = options(&mut cx.src);
    let swap = cx.src.bool();
    let k = size(cx);
    let op = resize(op, k);
    note!(cx, "size {k} curve {r:?} line {l:?} options {op:?} swapped {swap}");
    let (a, b) = r.domain();
    let Some(rs) = roots(a, b, 2000, 2., apart(&op) * (b - a), |t| { let p = r.point(t); p[0] * n[0] + p[1] * n[1] - off }) else { return discard("not-transversal") };
    let mut exp = vec![];
    for u in rs {
        let q = r.point(u);
        let t = q[0] * d[0] + q[1] * d[1];
        if (t - t0).abs() < 0.3 || (t - t1).abs() < 0.3 { return discard("line-end") }
        if t > t0 && t < t1 {
            let w = dom.0 + (dom.1 - dom.0) * (t - t0) / (t1 - t0);
            if !angle(&r, u, &l, w) { return discard("not-transversal") }
            exp.push((u, w));
        }
    }
    cx.nontrivial_if(exp.len() > 1);
    cx.label(if exp.is_empty() { "none" } else if exp.len() == 1 { "one" } else { "several" });
    let (l, r) = (resized(&l, k), resized(&r, k));
    let (x, y) = if swap { (&l, &r) } else { (&r, &l) };
    let its = find(&AC::new(x), &AC::new(y), op.clone()).map_err(e("error"))?;
    sound(x, y, &its, op.unwrap_or_default().minimum_distance)?;
    if swap { exp = exp.iter().map(|(a, b)| (*b, *a)).collect(); }
    complete(x, y, &its, &exp)
}

/// two gentle space curves moved to meet at one known place
fn meeting(cx: &mut Cx) -> R {
    let o = Opt { dim: Some(3), deg: (1, 4), extra: (0, 4), mult: 1, unclamped: false, ..Opt::default() };
    let r0 = tame(gen_march(&mut cx.src, o));
    let mut r1 = tame(gen_march(&mut cx.src, o));
    let at = |r: &RCurve, f: f64| r.domain().0 + (r.domain().1 - r.domain().0) * f;
    let (t0, t1) = (at(&r0, cx.src.real(0.05, 0.95)), at(&r1, cx.src.real(0.05, 0.95)));
    let sh = sub(&r0.point(t0), &r1.point(t1));
    for p in r1.cps.iter_mut() {
        let w = p[3];
        for i in 0..3 { p[i] += w * sh[i]; }
    }
    let op = options(&mut cx.src);
    note!(cx, "curves {r0:?} {r1:?} meeting at {t0} {t1} options {op:?}");
    let (d0, d1) = (&r0.derivs(t0, 1, Side::Right)[1], &r1.derivs(t1, 1, Side::Right)[1]);
    if !angle(&r0, t0, &r1, t1) { return discard("not-transversal") }
    if norm(&cross(d0, d1)) < 0.3 * norm(d0) * norm(d1) { return discard("not-transversal") }
    let its = find(&AC::new(&r0), &AC::new(&r1), op.clone()).map_err(e("error"))?;
    cx.nontrivial_if(r0.degree > 1 && r1.degree > 1);
    sound(&r0, &r1, &its, op.unwrap_or_default().minimum_distance)?;
    let p = r0.point(t0);
    ensure!(its.iter().any(|i| dist(&i.0 .0, &p) < 1e-3), "meeting", "no intersection at {t0} {t1} {p:?} in {its:?}");
    Ok(())
}

fn kfind(a: &ACC, b: &ACC, o: Option<Opts>) -> Result<Vec<It>, String> {
    macro_rules! go {
        ($a:expr, $b:expr) => {
            $a.find_intersections($b, o).map_err(|e| e.to_string()).map(|v| v.iter().map(|i| ((pv(&i.a().1), i.a().2), (pv(&i.b().1), i.b().2))).collect())
        };
    }
    match (a, b) {
        (ACC::K2(a), ACC::K2(b)) => go!(a, b),
        (ACC::K3(a), ACC::K3(b)) => go!(a, b),
        _ => panic!("harness"),
    }
}
fn kfind1(a: &ACC, b: &AC, o: Option<Opts>) -> Result<Vec<It>, String> {
    macro_rules! go {
        ($a:expr, $b:expr) => {
            $a.find_intersections($b, o).map_err(|e| e.to_string()).map(|v| v.iter().map(|i| ((pv(&i.a().1), i.a().2), (pv(&i.b().1), i.b().2))).collect())
        };
    }
    match (a, b) {
        (ACC::K2(a), AC::D2(b)) => go!(a, b),
        (ACC::K3(a), AC::D3(b)) => go!(a, b),
        _ => panic!("harness"),
    }
}

/// the same curve cut into the spans of a compound curve (open, or closed on itself) against a
/// line, which may be cut too
fn compound(cx: &mut Cx) -> R {
    let closed = cx.src.bool();
    let r = if closed {
        tame(gen_star(&mut cx.src, &[0., 0.], 3., 6., (1, 4), true))
    } else {
        let mut r = graph(&mut cx.src, 4.);
        for c in r.cps.iter_mut() {
            c[0] -= 5.;
        }
        r
    };
    let spans = pieces(&mut cx.src, &r);
    let th = cx.src.real(0., std::f64::consts::TAU);
    let off = cx.src.real(-2., 2.);
    let (d, n) = ([th.cos(), th.sin()], [-th.sin(), th.cos()]);
    let (t0, t1) = (-cx.src.real(8., 12.), cx.src.real(8., 12.));
    let p = |t: f64| vec![d[0] * t + n[0] * off, d[1] * t + n[1] * off];
    let l = RCurve { degree: 1, knots: vec![0., 0., 3., 3.], cps: vec![hom(&p(t0), 1.), hom(&p(t1), 1.)] };
    let cut = cx.src.bool();
    let sc = shorten(&mut cx.src);
    let op = fine(options(&mut cx.src), sc);
    cx.label_if(sc < 0.2, "short-domain");
    note!(cx, "spans {spans:?} line {l:?} cut {cut} domain {sc} options {op:?}");
    let k = ACC::new(&spans.iter().map(|s| times(s, sc)).collect::<Vec<_>>());
    if k.spans().len() != spans.len() {
        return discard("not-joined");
    }
    let (a, b) = r.domain();
    let Some(rs) = roots(a, b, 2000, 2., 0.06 * (b - a), |t| { let p = r.point(t); p[0] * n[0] + p[1] * n[1] - off }) else { return discard("not-transversal") };
    if rs.iter().any(|t| (t - t.round()).abs() < 0.05) { return discard("joint") }
    let mut exp = vec![];
    for u in &rs {
        let q = r.point(*u);
        let t = q[0] * d[0] + q[1] * d[1];
        if t < t0 + 0.3 || t > t1 - 0.3 { return discard("line-end") }
        let w = 3. * (t - t0) / (t1 - t0);
        if !angle(&r, *u, &l, w) { return discard("not-transversal") }
        if cut && ((w - 1.).abs() < 0.03) { return discard("joint") }
        exp.push((*u, w));
    }
    cx.nontrivial_if(spans.len() > 1 && exp.len() > 1);
    cx.label(if closed { "closed" } else { "open" });
    let o = op.clone();
    let its = if cut {
        let (x, y) = AC::new(&l).split(1.).map_err(e("split"))?;
        kfind(&k, &ACC::new(&[x.model(), y.model()]), o)
    } else {
        kfind1(&k, &AC::new(&l), o)
    }.map_err(e("error"))?;
    // the compound curve starts at 0, as r does; the line's pieces too
    let min = op.unwrap_or_default().minimum_distance;
    for ((pa, ta), (pb, tb)) in &its {
        ensure!(dist(&r.point(*ta / sc), pa) <= 1e-7 && dist(&l.point(*tb), pb) <= 1e-7, "compound-off-curve", "{pa:?} at {ta}, {pb:?} at {tb}; {:?} {:?}", r.point(*ta / sc), l.point(*tb));
        ensure!(dist(pa, pb) < min * 1.000001, "compound-apart", "{pa:?} and {pb:?}");
    }
    ensure!(its.len() == exp.len(), "compound-count", "{} intersections {:?}, expected {exp:?}", its.len(), its.iter().map(|i| (i.0 .1 / sc, i.1 .1)).collect::<Vec<_>>());
    for (x, y) in &exp {
        ensure!(its.iter().any(|i| (i.0 .1 / sc - x).abs() < 1e-2 && (i.1 .1 - y).abs() < 1e-2), "compound-missing", "no intersection at {x} {y}: {its:?}");
    }
    Ok(())
}

/// a closed compound curve whose joint (or seam) lies on a line, which may have a joint there too
fn joint(cx: &mut Cx) -> R {
    let r = tame(gen_star(&mut cx.src, &[0., 0.], 3., 6., (1, 4), true));
    let (a, b) = r.domain();
    let spans = pieces(&mut cx.src, &r);
    let at = spans[cx.src.draw(spans.len() as u64) as usize].knots[0];
    let p = r.point(at);
    let th = p[1].atan2(p[0]) + cx.src.real(-0.5, 0.5);
    let (d, n) = ([th.cos(), th.sin()], [-th.sin(), th.cos()]);
    let off = dot(&n, &p);
    let t = dot(&d, &p);
    let q = |t: f64| vec![d[0] * t + n[0] * off, d[1] * t + n[1] * off];
    let (t0, t1) = (-cx.src.real(9., 14.), cx.src.real(9., 14.));
    let line = |x: f64, y: f64, k: f64| RCurve { degree: 1, knots: vec![k, k, k + 1., k + 1.], cps: vec![hom(&q(x), 1.), hom(&q(y), 1.)] };
    let whole = line(t0, t1, 0.);
    let kind = cx.src.int(0, 2);
    let op = Some(Opts { minimum_distance: 1e-4, cost_tolerance: 1e-12, max_iters: 500, ..Default::default() });
    note!(cx, "spans {spans:?} joint {at} line {whole:?} kind {kind}");
    let f = |t: f64| dot(&n, &r.point(t)) - off;
    let g = 0.05;
    let (x, y) = (f(if at + g > b { at + g - b + a } else { at + g }), f(if at - g < a { at - g + b - a } else { at - g }));
    if x * y >= 0. || x.abs() < 2. * g / (b - a) || y.abs() < 2. * g / (b - a) { return discard("touches") }
    // the other crossings, on the domain without the joint
    let mut others: Vec<f64> = vec![];
    for (lo, hi) in [(a, at), (at, b)] {
        if hi - lo < 3. * g { continue }
        let lo = if lo == at || at == a || at == b { lo + g } else { lo };
        let hi = if hi == at { hi - g } else if at == a { hi - g } else { hi };
        let Some(rs) = roots(lo, hi, 1000, 1., 0.06 * (hi - lo), f) else { return discard("not-transversal") };
        others.extend(rs);
    }
    if others.iter().any(|t| (t - t.round()).abs() < 0.05) { return discard("joint") }
    if others.iter().chain([at].iter()).any(|u| !angle(&r, *u, &whole, 0.5)) { return discard("not-transversal") }
    let k = ACC::new(&spans);
    if k.spans().len() != spans.len() { return discard("not-joined") }
    let its = match kind {
        0 => kfind1(&k, &AC::new(&whole), op),
        // joint on joint
        1 => kfind(&k, &ACC::new(&[line(t0, t, 0.), line(t, t1, 1.)]), op),
        _ => kfind(&ACC::new(&[line(t0, t, 0.), line(t, t1, 1.)]), &k, op).map(|v| v.into_iter().map(|(a, b)| (b, a)).collect()),
    }.map_err(e("error"))?;
    cx.nontrivial_if(spans.len() > 1);
    cx.label(["line", "cut-line", "swapped"][kind]);
    let exp = others.len() + 1;
    for ((pa, ta), (pb, _)) in &its {
        ensure!(dist(&r.point(*ta), pa) <= 1e-7 && dist(pa, pb) < 1.000001e-4, "joint-off", "{pa:?} at {ta}, {pb:?}");
    }
    ensure!(its.iter().any(|i| dist(&i.0 .0, &p) < 1e-3), "joint-missing", "no intersection at the joint {p:?}: {its:?}");
    ensure!(its.len() == exp, format!("joint-count-{kind}"), "{} intersections {:?}, expected {exp}: {at} and {others:?}", its.len(), its.iter().map(|i| i.0 .1).collect::<Vec<_>>());
    Ok(())
}

/// an open chain of arcs whose two ends are both near the line
fn arch(cx: &mut Cx) -> R {
    let r = cx.src.real(1., 5.);
    let n = cx.src.int(2, 4);
    let h = cx.src.real(0.0005, 0.02);
    let sw = cx.src.real(2., 4.5);
    note!(cx, "{n} arcs of radius {r}, sweep {sw}, line at {h} from the ends");
    let spans: Vec<C2> = (0..n).map(|i| NurbsCurve2D::try_arc(&Point2::origin(), &Vector2::x(), &Vector2::y(), r, sw * i as f64 / n as f64, sw * (i + 1) as f64 / n as f64).unwrap()).collect();
    let k = CompoundCurve::new(spans);
    if k.spans().len() != n { return discard("not-joined") }
    // crossings at the angles h and sw - h, radially extended chord
    let at = |a: f64| [r * a.cos(), r * a.sin()];
    let (p, q) = (at(h), at(sw - h));
    let l = NurbsCurve2D::polyline(&[Point2::new(p[0] * 2. - q[0], p[1] * 2. - q[1]), Point2::new(q[0] * 2. - p[0], q[1] * 2. - p[1])], false);
    let its = k.find_intersections(&l, None).map_err(|x| e("arch-error")(x.to_string()))?;
    cx.nontrivial();
    for w in [p, q] {
        ensure!(its.iter().any(|i| dist(&pv(&i.a().1), &w) < 1e-3), "arch", "no intersection at {w:?}: {:?}", its.iter().map(|i| pv(&i.a().1)).collect::<Vec<_>>());
    }
    ensure!(its.len() == 2, "arch-count", "{} intersections", its.len());
    Ok(())
}

/// a corner of a compound curve cut off by a line: two crossings, on either side of the joint
fn corner(cx: &mut Cx) -> R {
    let n = cx.src.int(2, 5);
    let closed = n > 2 && cx.src.bool();
    let m = if closed { n } else { n + 1 };
    let ph = cx.src.real(0., std::f64::consts::TAU);
    let size = cx.src.log_real(1., 10.);
    let step = if closed { std::f64::consts::TAU / m as f64 } else { cx.src.real(0.6, 1.) * std::f64::consts::TAU / (m + 1) as f64 };
    let corners: Vec<Vec<f64>> = (0..m).map(|i| { let a = ph + step * (i as f64 + cx.src.real(-0.2, 0.2)); let r = size * cx.src.real(0.8, 1.2); vec![r * a.cos(), r * a.sin()] }).collect();
    let spans: Vec<RCurve> = (0..n).map(|i| {
        let d = cx.src.int(1, 3);
        let (p, q) = (&corners[i], &corners[(i + 1) % m]);
        RCurve { degree: d, knots: [vec![i as f64; d + 1], vec![i as f64 + 1.; d + 1]].concat(), cps: (0..=d).map(|k| hom(&lerp(p, q, k as f64 / d as f64), 1.)).collect() }
    }).collect();
    let j = if closed { cx.src.int(0, n - 1) } else { cx.src.int(1, n - 1) };
    let (f0, f1) = (cx.src.log_real(0.015, 0.3), cx.src.log_real(0.015, 0.3));
    let (s0, s1) = ((j + n - 1) % n, j);
    let (t0, t1) = (s0 as f64 + 1. - f0, s1 as f64 + f1);
    let (p, q) = (spans[s0].point(t0), spans[s1].point(t1));
    let l = RCurve { degree: 1, knots: vec![0., 0., 1., 1.], cps: vec![hom(&lerp(&p, &q, -cx.src.real(0.2, 1.)), 1.), hom(&lerp(&p, &q, 1. + cx.src.real(0.2, 1.)), 1.)] };
    let sc = shorten(&mut cx.src);
    let op = fine(options(&mut cx.src), sc);
    cx.label_if(sc < 0.2, "short-domain");
    note!(cx, "spans {spans:?} line {l:?} domain {sc} options {op:?}: {t0} and {t1}");
    let (u, v) = (sub(&spans[s0].point(t0), &corners[j % m]), sub(&spans[s1].point(t1), &corners[j % m]));
    let d = sub(&q, &p);
    for x in [&u, &v] {
        if (x[0] * d[1] - x[1] * d[0]).abs() < 0.2 * norm(x) * norm(&d) { return discard("not-transversal") }
    }
    let k = ACC::new(&spans.iter().map(|s| times(s, sc)).collect::<Vec<_>>());
    if k.spans().len() != n { return discard("not-joined") }
    cx.nontrivial_if(f0 < 0.1 && f1 < 0.1);
    cx.label(if closed { "closed" } else { "open" });
    let its = kfind1(&k, &AC::new(&l), op.clone()).map_err(e("error"))?;
    let min = op.unwrap_or_default().minimum_distance;
    for ((pa, _), (pb, tb)) in &its {
        ensure!(dist(pa, pb) < min * 1.000001 && dist(&l.point(*tb), pb) <= 1e-7, "corner-apart", "{pa:?} and {pb:?}");
    }
    for (t, w) in [(t0, &p), (t1, &q)] {
        ensure!(its.iter().any(|i| dist(&i.0 .0, w) < 1e-3 * size && (i.0 .1 / sc - t).abs() < 1e-2), "corner", "no intersection at {t} {w:?}: {its:?}");
    }
    // the line ends within the curve's hull, close to the corner
    let near = |x: &Vec<f64>| dist(x, &p) < 1e-2 * size || dist(x, &q) < 1e-2 * size;
    let n0 = its.iter().filter(|i| near(&i.0 .0)).count();
    ensure!(n0 == 2, "corner-count", "{n0} intersections at the corner: {its:?}");
    Ok(())
}

/// axis-parallel lines (flat bounding boxes), in the plane and in space
fn axis(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let meet = gen_point(&mut cx.src, dim, 10.);
    let i = cx.src.draw(dim as u64) as usize;
    let j = (i + 1 + cx.src.draw(dim as u64 - 1) as usize) % dim;
    let mut line = |k: usize| {
        let d = cx.src.int(1, 3);
        let n = d + cx.src.int(1, 3);
        let (lo, hi) = (cx.src.real(0.5, 3.), cx.src.real(0.5, 3.));
        let mut x: Vec<f64> = (0..n).map(|i| i as f64 / (n - 1) as f64).collect();
        if d > 1 {
            for v in x.iter_mut().skip(1).take(n - 2) {
                *v += cx.src.real(-0.1, 0.1);
            }
        }
        let w = if cx.src.bool() { 1. } else { cx.src.log_real(0.5, 2.) };
        let cps = x
            .iter()
            .map(|x| {
                let mut p = meet.clone();
                p[k] += -lo + (lo + hi) * x;
                hom(&p, w)
            })
            .collect();
        tame(RCurve { degree: d, knots: vec![], cps })
    };
    let (r0, r1) = (line(i), line(j));
    let op = options(&mut cx.src).or(Some(Opts { cost_tolerance: 1e-12, max_iters: 500, ..Default::default() }));
    note!(cx, "lines {r0:?} {r1:?} meeting at {meet:?} options {op:?}");
    cx.nontrivial();
    let its = find(&AC::new(&r0), &AC::new(&r1), op.clone()).map_err(e("error"))?;
    sound(&r0, &r1, &its, op.unwrap_or_default().minimum_distance)?;
    ensure!(its.len() == 1 && dist(&its[0].0 .0, &meet) < 1e-3, "axis", "expected one intersection at {meet:?}: {its:?}");
    Ok(())
}

/// a line through the seam of a closed curve: the seam counts once
fn seam(cx: &mut Cx) -> R {
    let r = tame(gen_star(&mut cx.src, &[0., 0.], 3., 6., (1, 4), true));
    let (a, b) = r.domain();
    let p = r.point(a);
    let th = p[1].atan2(p[0]) + cx.src.real(-0.5, 0.5);
    let (d, n) = ([th.cos(), th.sin()], [-th.sin(), th.cos()]);
    let off = dot(&n, &p);
    let (t0, t1) = (-cx.src.real(9., 14.), cx.src.real(9., 14.));
    let q = |t: f64| vec![d[0] * t + n[0] * off, d[1] * t + n[1] * off];
    let l = RCurve { degree: 1, knots: vec![0., 0., 3., 3.], cps: vec![hom(&q(t0), 1.), hom(&q(t1), 1.)] };
    let op = Some(Opts { minimum_distance: 1e-4, cost_tolerance: 1e-12, max_iters: 500, ..Default::default() });
    let swap = cx.src.bool();
    note!(cx, "curve {r:?} line {l:?} swapped {swap}");
    let f = |t: f64| dot(&n, &r.point(t)) - off;
    let g = 0.05;
    // it crosses the line at the seam
    let (x, y) = (f(a + g), f(b - g));
    if x * y >= 0. || x.abs() < 2. * g / (b - a) || y.abs() < 2. * g / (b - a) { return discard("touches") }
    let Some(rs) = roots(a + g, b - g, 2000, 2., 0.06 * (b - a), f) else { return discard("not-transversal") };
    if rs.iter().chain([a, b].iter()).any(|u| !angle(&r, *u, &l, 1.)) { return discard("not-transversal") }
    let (ca, cl) = (AC::new(&r), AC::new(&l));
    let its = if swap { find(&cl, &ca, op).map(|v| v.into_iter().map(|(x, y)| (y, x)).collect()) } else { find(&ca, &cl, op) }.map_err(e("error"))?;
    cx.nontrivial();
    sound(&r, &l, &its, 1e-4)?;
    let exp = rs.len() + 1;
    ensure!(its.len() == exp, "seam-count", "{} intersections {:?}, expected {exp}: seam and {rs:?}", its.len(), its.iter().map(|i| i.0 .1).collect::<Vec<_>>());
    ensure!(its.iter().any(|i| dist(&i.0 .0, &p) < 1e-3), "seam", "no intersection at the seam {p:?}: {its:?}");
    Ok(())
}

static LAWS: &[Law] = &[
    Law::new("wild", 3_000, wild).rng(),
    Law::new("graphs", 8_000, graphs).rng(),
    Law::new("line-star", 8_000, line_star).rng(),
    Law::new("meeting", 12_000, meeting).rng(),
    Law::new("compound", 8_000, compound).rng(),
    Law::new("seam", 8_000, seam).rng(),
    Law::new("axis", 12_000, axis).rng(),
    Law::new("joint", 8_000, joint).rng(),
    Law::new("arch", 2_000, arch).rng(),
    Law::new("corner", 8_000, corner).rng(),
];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C17",
        rule: "wild random pairs (soundness); pairs of graphs, lines through star-shaped closed curves, space curves moved to meet at a known place, compound curves cut from such curves against whole and cut lines, arcs whose both ends are near a line, corners of compound curves cut off by a line (completeness); non-trivial = something was found / more than one crossing",
        assumptions: &["completeness only for transversal crossings (sizes 0.1 to 10 with matching tolerances) well apart from each other, from curve ends and from joints and corners (arch, seam and joint: exactly at them), on curves with uniform knots of spacing 0.02 to 1 (short ones with matching solver tolerances) and weights in [0.5, 2]: the solver is not scale invariant"],
        laws: LAWS,
        probes: &[],
    })
}
