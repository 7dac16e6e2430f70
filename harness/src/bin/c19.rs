//! C19 point containment in closed curves
use curvo_verif::prelude::*;

type Opts = CurveIntersectionSolverOptions<f64>;
fn e(sig: &'static str) -> impl Fn(String) -> Fail {
    move |m| Fail { sig: sig.into(), msg: m }
}

/// even-odd parity of a polygon
fn parity(poly: &[Vec<f64>], q: &[f64]) -> bool {
    let mut c = false;
    for w in poly.windows(2) {
        if (w[0][1] <= q[1]) != (w[1][1] <= q[1]) {
            let t = (q[1] - w[0][1]) / (w[1][1] - w[0][1]);
            if w[0][0] + t * (w[1][0] - w[0][0]) > q[0] {
                c = !c;
            }
        }
    }
    c
}
fn seg_dist(a: &[f64], b: &[f64], q: &[f64]) -> f64 {
    let d = sub(b, a);
    let l = dot(&d, &d);
    let t = if l == 0. { 0. } else { (dot(&sub(q, a), &d) / l).clamp(0., 1.) };
    dist(&add(a, &scale(&d, t)), q)
}
/// (inside, distance to the boundary), None when the polygon is too coarse to tell
fn oracle(rs: &[RCurve], q: &[f64]) -> Option<(bool, f64)> {
    for n in [24usize, 200] {
        let mut poly: Vec<Vec<f64>> = vec![];
        let mut dev = 0f64;
        for r in rs {
            let us = r.probe_params(n);
            let ps: Vec<Vec<f64>> = us.iter().map(|u| r.point(*u)).collect();
            if r.degree > 1 || r.is_rational() {
                for i in 0..us.len() - 1 {
                    dev = dev.max(seg_dist(&ps[i], &ps[i + 1], &r.point((us[i] + us[i + 1]) / 2.)));
                }
            }
            poly.extend(ps);
        }
        poly.push(poly[0].clone());
        let d = poly.windows(2).map(|w| seg_dist(&w[0], &w[1], q)).fold(f64::INFINITY, f64::min);
        if d > 4. * dev {
            return Some((parity(&poly, q), d));
        }
    }
    None
}

/// a query: anywhere, near the boundary, level with a notable point of the curve
fn query(s: &mut Src, rs: &[RCurve], sc: f64) -> (Vec<f64>, &'static str) {
    let i = s.draw(rs.len() as u64) as usize;
    let r = &rs[i];
    let (a, b) = r.domain();
    let sp: Vec<f64> = r.interior().iter().map(|k| k.0).collect();
    let u = gen_param(s, a, b, &sp);
    let p = r.point(u);
    match s.draw(4) {
        0 => (vec![s.real(-sc, sc), s.real(-sc, sc)], "anywhere"),
        1 => {
            let d = s.log_real(1e-4, 1.) * sc;
            let th = s.real(0., std::f64::consts::TAU);
            (vec![p[0] + d * th.cos(), p[1] + d * th.sin()], "near")
        }
        2 => {
            let y = *s.pick(&[p[1], p[1], r.points()[0][1], r.points()[r.cps.len() / 2][1]]);
            (vec![s.real(-sc, sc), y], "level")
        }
        _ => {
            let d = s.log_real(1e-4, 1.) * sc;
            (vec![p[0] + if s.bool() { d } else { -d }, p[1]], "beside")
        }
    }
}

fn options(s: &mut Src) -> Option<Opts> {
    match s.draw(3) {
        0 | 1 => None,
        _ => Some(Opts { minimum_distance: 1e-4, knot_domain_division: 500, max_iters: 1000, step_size_tolerance: 1e-8, cost_tolerance: 1e-10 }),
    }
}

fn ask(cx: &mut Cx, rs: &[RCurve], whole: bool) -> R {
    let sc = rs.iter().map(|r| r.scale()).fold(0., f64::max);
    let mut real = 0;
    // the same curve in another size and place
    let f = if cx.src.chance(3, 4) { 1. } else { cx.src.log_real(1e-3, 1e3) };
    let off = if cx.src.chance(3, 4) { [0., 0.] } else { [cx.src.real(-30., 30.) * f, cx.src.real(-30., 30.) * f] };
    let move_point = |q: &[f64]| vec![q[0] * f + off[0], q[1] * f + off[1]];
    let model = rs;
    let moved: Vec<RCurve> = rs.iter().map(|r| RCurve { cps: r.cps.iter().map(|p| vec![p[0] * f + off[0] * p[2], p[1] * f + off[1] * p[2], p[2]]).collect(), ..r.clone() }).collect();
    let rs = &moved;
    note!(cx, "scaled by {f}, moved by {off:?}");
    cx.label_if(f < 0.5, "small");
    cx.label_if(f > 2., "large");
    let k = if whole { None } else {
        let mut v = rs.to_vec();
        // in any order
        for i in (1..v.len()).rev() {
            let j = cx.src.draw(i as u64 + 1) as usize;
            v.swap(i, j);
        }
        let k = ACC::new(&v);
        if k.spans().len() != v.len() { return discard("not-joined") }
        Some(k)
    };
    let c = c2(&rs[0]);
    if whole && !c.is_closed() { return discard("not-closed") }
    for _ in 0..6 {
        let (q, kind) = query(&mut cx.src, model, sc);
        let op = if f < 1. { Some(Opts { minimum_distance: 1e-4 * f, knot_domain_division: 500, max_iters: 1000, step_size_tolerance: 1e-8, cost_tolerance: 1e-10 }) } else { options(&mut cx.src) };
        let Some((inside, d)) = oracle(model, &q) else { cx.label("undecided"); continue };
        if d < 3e-4 { cx.label("boundary"); continue }
        let q = move_point(&q);
        note!(cx, "point {q:?} ({kind}), {d:.2e} from the curve");
        let got = match &k {
            None => c.contains(&p2(&q), op.clone()),
            Some(k) => k.k2().contains(&p2(&q), op.clone()),
        }.map_err(|x| e("error")(x.to_string()))?;
        real += 1;
        cx.label(&format!("{kind}-{}", if inside { "in" } else { "out" }));
        ensure!(got == inside, format!("contains-{}", if whole { "curve" } else { "compound" }), "{q:?} ({kind}, {d:.2e} from the boundary, options {op:?}): contains = {got}");
    }
    cx.nontrivial_if(real > 2);
    Ok(())
}

/// any closed curve, crossing itself or not
fn wild(cx: &mut Cx) -> R {
    let mut r = gen_curve(&mut cx.src, Opt { dim: Some(2), deg: (1, 4), extra: (2, 7), unclamped: false, ..Opt::default() });
    let n = r.cps.len();
    r.cps[n - 1] = hom(&r.points()[0], r.cps[n - 1][2]);
    note!(cx, "curve {r:?}");
    ask(cx, &[r], true)
}
fn star(cx: &mut Cx) -> R {
    let c = gen_point(&mut cx.src, 2, 3.);
    let r = gen_star(&mut cx.src, &c, 1., 6., (1, 4), true);
    note!(cx, "curve {r:?}");
    ask(cx, &[r], true)
}
fn circle(cx: &mut Cx) -> R {
    let c = gen_point(&mut cx.src, 2, 3.);
    let rad = cx.src.log_real(0.5, 5.);
    let k = cx.src.int(1, 4);
    note!(cx, "circle {c:?} {rad} of {k} arcs");
    if k == 1 {
        let r = r2(&NurbsCurve2D::try_circle(&p2(&c), &Vector2::x(), &Vector2::y(), rad).unwrap());
        ask(cx, &[r], true)
    } else {
        let ph = if cx.src.bool() { 0. } else { cx.src.real(0., 6.) };
        let a = |i: usize| ph + std::f64::consts::TAU * i as f64 / k as f64;
        let rs: Vec<RCurve> = (0..k).map(|i| r2(&NurbsCurve2D::try_arc(&p2(&c), &Vector2::x(), &Vector2::y(), rad, a(i), a(i + 1)).unwrap())).collect();
        ask(cx, &rs, false)
    }
}
/// polygons on a grid: many horizontal edges, vertices level with the query
fn grid(cx: &mut Cx) -> R {
    let n = cx.src.int(3, 10);
    let mut pts: Vec<Vec<f64>> = (0..n).map(|_| vec![cx.src.int(0, 6) as f64 - 3., cx.src.int(0, 6) as f64 - 3.]).collect();
    pts.dedup();
    if pts.len() > 1 && pts[0] == pts[pts.len() - 1] { pts.pop(); }
    if pts.len() < 3 { return discard("degenerate") }
    pts.push(pts[0].clone());
    let r = AC::polyline(&pts, cx.src.bool()).model();
    note!(cx, "polygon {pts:?}");
    let c = c2(&r);
    let op = options(&mut cx.src);
    for _ in 0..6 {
        let q = vec![cx.src.int(0, 14) as f64 / 2. - 3.5, cx.src.int(0, 14) as f64 / 2. - 3.5];
        let d = pts.windows(2).map(|w| seg_dist(&w[0], &w[1], &q)).fold(f64::INFINITY, f64::min);
        let exp = d < 1e-9 || parity(&pts, &q);
        if d > 1e-9 && d < 1e-2 { continue }
        cx.label(if d < 1e-9 { "on" } else if exp { "in" } else { "out" });
        cx.nontrivial();
        let got = c.contains(&p2(&q), op.clone()).map_err(|x| e("error")(x.to_string()))?;
        ensure!(got == exp, "grid", "{q:?}: contains = {got}, {d} from the boundary (options {op:?})");
    }
    Ok(())
}
fn compound(cx: &mut Cx) -> R {
    let n = cx.src.int(2, 4);
    let rs = gen_chain(&mut cx.src, Opt { dim: Some(2), deg: (1, 3), extra: (0, 4), ..Opt::default() }, n, true);
    note!(cx, "chain {rs:?}");
    ask(cx, &align(&rs), false)
}
/// spans that meet only nearly, as the results of boolean operations do, and points level with
/// the joints
fn gaps(cx: &mut Cx) -> R {
    let lo = *cx.src.pick(&[1., 3.]);
    let r = tame(gen_star(&mut cx.src, &[0., 0.], lo, 6., (1, 3), false));
    let mut rs = pieces(&mut cx.src, &r);
    if rs.len() < 2 { return discard("one-span") }
    for k in 0..rs.len() {
        for end in [true, false] {
            let n = rs[k].cps.len();
            let g = cx.src.log_real(1e-12, 3e-5);
            let th = cx.src.real(0., 6.3);
            let c = &mut rs[k].cps[if end { n - 1 } else { 0 }];
            c[0] += g * th.cos();
            c[1] += g * th.sin();
        }
    }
    note!(cx, "spans {rs:?}");
    let k = ACC::new(&rs);
    if k.spans().len() != rs.len() { return discard("not-joined") }
    let mut real = 0;
    for _ in 0..12 {
        let i = cx.src.draw(rs.len() as u64) as usize;
        let (d0, d1) = rs[i].domain();
        let j = rs[i].point(if cx.src.bool() { d0 } else { d1 });
        let off = if cx.src.chance(1, 3) { 0. } else { cx.src.log_real(1e-12, 1e-4) * if cx.src.bool() { 1. } else { -1. } };
        let q = vec![cx.src.real(-6., 6.), j[1] + off];
        let Some((inside, d)) = oracle(&rs, &q) else { continue };
        if d < 3e-4 { continue }
        real += 1;
        cx.label(if inside { "in" } else { "out" });
        let got = k.k2().contains(&p2(&q), None).map_err(|x| e("error")(x.to_string()))?;
        ensure!(got == inside, "gaps", "{q:?}, level with a joint at {j:?} {off:e}: contains = {got}");
    }
    cx.nontrivial_if(real > 4);
    Ok(())
}
/// points of the boundary belong to the inside
fn boundary(cx: &mut Cx) -> R {
    let r = if cx.src.bool() {
        gen_star(&mut cx.src, &[0., 0.], 2., 6., (1, 3), false)
    } else {
        r2(&NurbsCurve2D::try_circle(&p2(&gen_point(&mut cx.src, 2, 5.)), &Vector2::x(), &Vector2::y(), cx.src.log_real(0.1, 9.)).unwrap())
    };
    note!(cx, "curve {r:?}");
    let c = c2(&r);
    let (a, b) = r.domain();
    let sp: Vec<f64> = r.interior().iter().map(|k| k.0).collect();
    for _ in 0..4 {
        let u = gen_param(&mut cx.src, a, b, &sp);
        let p = r.point(u);
        cx.nontrivial();
        let bb: BoundingBox<f64, Const<2>> = (&c).into();
        // a point on the outline itself may be outside of the box by rounding
        if !bb.contains(&p2(&p)) { continue }
        ensure!(c.contains(&p2(&p), None).map_err(|x| e("error")(x.to_string()))?, "boundary", "the curve's point at {u} {p:?} is not contained");
    }
    Ok(())
}
/// an open curve is refused
fn open(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { dim: Some(2), ..Opt::default() });
    note!(cx, "curve {r:?}");
    let (a, b) = r.domain();
    if dist(&r.point(a), &r.point(b)) < 1e-3 { return discard("closed") }
    cx.nontrivial();
    let q = query(&mut cx.src, &[r.clone()], r.scale()).0;
    ensure!(c2(&r).contains(&p2(&q), None).is_err(), "open", "containment of {q:?} in an open curve is answered");
    Ok(())
}

static LAWS: &[Law] = &[
    Law::new("wild", 8_000, wild).rng(),
    Law::new("star", 8_000, star).rng(),
    Law::new("circle", 8_000, circle).rng(),
    Law::new("grid", 20_000, grid).rng(),
    Law::new("compound", 8_000, compound).rng(),
    Law::new("gaps", 4_000, gaps).rng(),
    Law::new("boundary", 8_000, boundary).rng(),
    Law::new("open", 8_000, open).rng(),
];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C19",
        rule: "closed curves (self-crossing, star shaped, circles of 1-4 arcs, grid polygons, compound chains in shuffled order) with points anywhere, near the boundary, level with vertices and joints, and on it; non-trivial = at least three decided queries (boundary: every case)",
        assumptions: &["points are not within 1e-4 of the boundary unless they are exactly on it", "inside means an odd number of crossings"],
        laws: LAWS,
        probes: &[],
    })
}
