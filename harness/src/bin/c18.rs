//! C18 surface-curve intersections
use curvo_verif::prelude::*;

fn e(sig: &'static str) -> impl Fn(String) -> Fail {
    move |m| Fail { sig: sig.into(), msg: m }
}
type It = ((Vec<f64>, (f64, f64)), (Vec<f64>, f64));
type Opts = CurveIntersectionSolverOptions<f64>;

fn find(a: &S3, b: &C3, o: Option<Opts>) -> Result<Vec<It>, String> {
    a.find_intersections(b, o).map_err(|e| e.to_string()).map(|v| v.iter().map(|i| ((pv(&i.a().0), i.a().1), (pv(&i.b().0), i.b().1))).collect())
}
fn options(s: &mut Src) -> Option<Opts> {
    match s.draw(3) {
        0 => None,
        1 => Some(Opts { minimum_distance: 1e-4, cost_tolerance: 1e-12, max_iters: 500, ..Default::default() }),
        _ => Some(Opts { minimum_distance: 1e-4, knot_domain_division: 24, cost_tolerance: 1e-12, ..Default::default() }),
    }
}

fn sound(s: &RSurface, c: &RCurve, its: &[It], min: f64) -> R {
    let sc = s.scale().max(c.scale());
    let ((ua, ub), (va, vb)) = s.domain();
    let (a, b) = c.domain();
    for ((pa, (u, v)), (pb, t)) in its {
        ensure!(*t >= a && *t <= b && *u >= ua && *u <= ub && *v >= va && *v <= vb, "domain", "intersection at ({u},{v}) {t} outside the domain");
        ensure!(dist(&s.point(*u, *v), pa) <= 1e-9 * sc, "off-surface", "{pa:?} at ({u},{v}), where the surface is at {:?}", s.point(*u, *v));
        ensure!(dist(&c.point(*t), pb) <= 1e-9 * sc, "off-curve", "{pb:?} at {t}, where the curve is at {:?}", c.point(*t));
        ensure!(dist(pa, pb) < min * 1.000001, "apart", "{pa:?} and {pb:?}");
    }
    Ok(())
}

fn uniform(d: usize, n: usize) -> Vec<f64> {
    let m = n - d;
    let mut k = vec![0.; d];
    k.extend((0..=m).map(|i| i as f64));
    k.extend(vec![m as f64; d]);
    k
}
fn greville(k: &[f64], d: usize, n: usize) -> Vec<f64> {
    let g: Vec<f64> = (0..n).map(|i| k[i + 1..=i + d].iter().sum::<f64>() / d as f64).collect();
    g.iter().map(|x| (x - g[0]) / (g[n - 1] - g[0]) * 8.).collect()
}

/// z = f(x, y) over [0, 8]^2, x and y linear in u and v
fn field(s: &mut Src) -> RSurface {
    let (du, dv) = (s.int(1, 3), s.int(1, 3));
    let (nu, nv) = (du + s.int(1, 4), dv + s.int(1, 4));
    let (ku, kv) = (uniform(du, nu), uniform(dv, nv));
    let (gu, gv) = (greville(&ku, du, nu), greville(&kv, dv, nv));
    let amp = s.real(0., 2.);
    let cps = (0..nu).map(|i| (0..nv).map(|j| vec![gu[i], gv[j], amp * s.real(-1., 1.), 1.]).collect()).collect();
    RSurface { du, dv, ku, kv, cps }
}

fn height(cx: &mut Cx) -> R {
    let s = field(&mut cx.src);
    let d = cx.src.int(1, 3);
    let n = d + if d == 1 { 1 } else { cx.src.int(1, 4) };
    let c = RCurve {
        degree: d,
        knots: uniform(d, n),
        cps: {
            let (x0, y0) = (cx.src.real(1., 7.), cx.src.real(1., 7.));
            (0..n)
                .map(|i| {
                    let z = if i % 2 == 0 { 1. } else { -1. } * cx.src.real(0.5, 6.);
                    vec![(x0 + cx.src.real(-1.5, 1.5)).clamp(0.2, 7.8), (y0 + cx.src.real(-1.5, 1.5)).clamp(0.2, 7.8), z, 1.]
                })
                .collect()
        },
    };
    let op = options(&mut cx.src);
    note!(cx, "surface {s:?} curve {c:?} options {op:?}");
    let ((_, ub), (_, vb)) = s.domain();
    let g = |t: f64| {
        let p = c.point(t);
        p[2] - s.point(p[0] / 8. * ub, p[1] / 8. * vb)[2]
    };
    let (a, b) = c.domain();
    let m = 600;
    let v: Vec<f64> = (0..=m).map(|i| g(a + (b - a) * i as f64 / m as f64)).collect();
    let h = (b - a) / m as f64;
    // no two crossings in one leaf of the bounding box tree
    let gap = (2.5 * (b - a) / op.clone().unwrap_or_default().knot_domain_division as f64).max(0.01);
    let mut exp: Vec<f64> = vec![];
    for i in 0..m {
        if v[i] * v[i + 1] <= 0. {
            let (mut lo, mut hi) = (a + h * i as f64, a + h * (i + 1) as f64);
            for _ in 0..50 {
                let x = (lo + hi) / 2.;
                if g(lo) * g(x) <= 0. {
                    hi = x
                } else {
                    lo = x
                }
            }
            let slope = (v[i + 1] - v[i]).abs() / h / norm(&c.derivs(lo, 1, Side::Right)[1]).max(1.);
            if slope < 0.3 || lo - a < 0.03 || b - lo < 0.03 || exp.last().map(|l| lo - l < gap).unwrap_or(false) {
                return discard("not-transversal");
            }
            exp.push(lo);
        }
    }
    for i in 0..=m {
        let x = a + h * i as f64;
        if v[i].abs() < 0.05 && !exp.iter().any(|t| (t - x).abs() < 0.1) {
            return discard("near-miss");
        }
    }
    cx.nontrivial_if(exp.len() > 1);
    let its = find(&s3(&s), &c3(&c), op.clone()).map_err(e("error"))?;
    sound(&s, &c, &its, op.unwrap_or_default().minimum_distance)?;
    ensure!(its.len() == exp.len(), "count", "{} intersections at {:?}, expected {exp:?}", its.len(), its.iter().map(|i| i.1 .1).collect::<Vec<_>>());
    for t in &exp {
        ensure!(its.iter().any(|i| (i.1 .1 - t).abs() < 1e-3), "missing", "no intersection at {t} in {its:?}");
    }
    Ok(())
}

/// a sphere and a line
fn sphere(cx: &mut Cx) -> R {
    let c = gen_point(&mut cx.src, 3, 5.);
    let r = cx.src.real(0.5, 3.);
    let (x, y) = gen_frame(&mut cx.src);
    let s = NurbsSurface3D::try_sphere(&p3(&c), &v3(&x), &v3(&y), r).map_err(|x| e("sphere")(x.to_string()))?;
    let (d, n) = gen_frame(&mut cx.src);
    let off = r * cx.src.real(0., 1.6);
    let (mut l0, mut l1) = (cx.src.real(0., 2.5) * r, cx.src.real(0., 2.5) * r);
    // the line may end on the sphere
    let h = (r * r - off * off).max(0.).sqrt();
    let (e0, e1) = (cx.src.chance(1, 4), cx.src.chance(1, 4));
    if e0 {
        l0 = h;
    }
    if e1 {
        l1 = h;
    }
    // a line much longer than the sphere, so that it passes through within few of its parameters
    let far = cx.src.chance(1, 3);
    if far {
        let k = cx.src.log_real(3., 60.);
        l0 *= if e0 { 1. } else { k };
        l1 *= if e1 { 1. } else { k };
    }
    let at = |t: f64| add(&c, &add(&scale(&d, t), &scale(&n, off)));
    let dom = match cx.src.int(0, 3) {
        0 | 1 => 1.,
        2 => cx.src.log_real(0.2, 20.),
        _ => cx.src.log_real(0.003, 0.2),
    };
    let short = dom < 0.2;
    cx.label_if(short, "short-domain");
    let l = RCurve { degree: 1, knots: vec![0., 0., dom, dom], cps: vec![hom(&at(-l0), 1.), hom(&at(l1), 1.)] };
    let fine = Opts { minimum_distance: 1e-4, knot_domain_division: 400, cost_tolerance: 1e-12, max_iters: 500, ..Default::default() };
    let op = if far { Some(fine) } else { options(&mut cx.src) }.or(Some(Opts { minimum_distance: 1e-4, cost_tolerance: 1e-12, max_iters: 500, ..Default::default() }));
    let op = if short { op.map(|o| Opts { step_size_tolerance: 1e-11, cost_tolerance: 1e-14, max_iters: 1000, ..o }) } else { op };
    note!(cx, "sphere at {c:?} radius {r} axes {x:?} {y:?} line {:?} on (0,{dom}) options {op:?}", l.points());
    if l0 + l1 < 0.3 || (off / r - 1.).abs() < 0.15 {
        return discard("tangent");
    }
    let mut exp = vec![];
    if off < r {
        for t in [-h, h] {
            let (d0, d1) = ((t + l0).abs(), (t - l1).abs());
            if d0 < 0.05 * r && !(e0 && t < 0.) || d1 < 0.05 * r && !(e1 && t > 0.) {
                return discard("line-end");
            }
            if t >= -l0 && t <= l1 {
                exp.push(at(t));
            }
        }
    }
    let gap = 2.5 / op.clone().unwrap_or_default().knot_domain_division as f64;
    // crossings within a thousandth of the parameters are taken for one
    let near = if short { 0.1 } else { 3e-3 / dom };
    if exp.len() == 2 && 2. * h < gap.max(near) * (l0 + l1) {
        return discard("same-leaf");
    }
    cx.label_if(exp.len() == 2 && 2. * h < 0.05 * (l0 + l1), "close-by");
    // the surface is singular at the poles
    let rs = rs3(&s);
    let ((_, _), (va, vb)) = rs.domain();
    for p in &exp {
        let q = sub(p, &c);
        let poles = [rs.point(0., va), rs.point(0., vb)];
        let n = cross(&sub(&poles[1], &c), &q);
        if norm(&n) < 0.3 * r * r {
            return discard("pole");
        }
    }
    cx.nontrivial_if(exp.len() > 1);
    cx.label(["none", "one", "two"][exp.len()]);
    let its = find(&s, &c3(&l), op.clone()).map_err(e("error"))?;
    sound(&rs, &l, &its, op.unwrap_or_default().minimum_distance)?;
    ensure!(its.len() == exp.len(), "sphere-count", "{} intersections {its:?}, expected {exp:?}", its.len());
    for p in &exp {
        ensure!(its.iter().any(|i| dist(&i.0 .0, p) < 1e-3 * (1. + r)), "sphere-missing", "no intersection at {p:?} in {its:?}");
    }
    Ok(())
}

/// a line through a place of a height field, which may be on its border and at the line's end
fn border(cx: &mut Cx) -> R {
    let s = field(&mut cx.src);
    let ((ua, ub), (va, vb)) = s.domain();
    let mut pick = |a: f64, b: f64, l: [&'static str; 3]| {
        let k = cx.src.draw(4) as usize;
        match k {
            0 => (a, l[0]),
            1 => (b, l[1]),
            _ => (a + (b - a) * cx.src.real(0.1, 0.9), l[2]),
        }
    };
    let (u, lu) = pick(ua, ub, ["first-u", "last-u", "inner-u"]);
    let (v, lv) = pick(va, vb, ["first-v", "last-v", "inner-v"]);
    let (t, lt) = pick(0., 1., ["first-t", "last-t", "inner-t"]);
    let ds = s.derivs(u, v, 1, Side::Right, Side::Right);
    let (ps, pu, pv_) = (ds[0][0].clone(), ds[1][0].clone(), ds[0][1].clone());
    let n = unit(&cross(&pu, &pv_));
    // at most 60 degrees from the normal
    let d = {
        let o = unit(&gen_point(&mut cx.src, 3, 1.));
        if o.iter().all(|x| x.is_finite()) {
            unit(&add(&n, &scale(&o, 0.8)))
        } else {
            n.clone()
        }
    };
    let len = cx.src.real(0.3, 3.);
    let (a, b) = (add(&ps, &scale(&d, -len * t)), add(&ps, &scale(&d, len * (1. - t))));
    let c = RCurve { degree: 1, knots: vec![0., 0., 1., 1.], cps: vec![hom(&a, 1.), hom(&b, 1.)] };
    let op = options(&mut cx.src);
    note!(cx, "surface {s:?} at {u} {v}, line {:?} at {t}, options {op:?}", c.points());
    cx.label(lu);
    cx.label(lv);
    cx.label(lt);
    cx.nontrivial_if(lu != "inner-u" || lv != "inner-v" || lt != "inner-t");
    // not almost within the plane of the border
    if lu != "inner-u" && d[0] != 0. && d[0].abs() < 0.02 || lv != "inner-v" && d[1] != 0. && d[1].abs() < 0.02 {
        return discard("along-the-border");
    }
    // a single crossing: the line stays on one side before and after
    for i in 0..=100 {
        let x = i as f64 / 100.;
        // (beside the surface, of its continuation, which the search may run into)
        let p = c.point(x);
        let g = p[2] - s.point(p[0] / 8. * ub, p[1] / 8. * vb)[2];
        if g.abs() < 0.15 * len * (x - t).abs() || (x - t).abs() > 1e-9 && (g > 0.) != ((x > t) == (d[2] > 0.)) {
            return discard("touches");
        }
    }
    let its = find(&s3(&s), &c3(&c), op.clone()).map_err(e("error"))?;
    sound(&s, &c, &its, op.unwrap_or_default().minimum_distance)?;
    ensure!(its.len() == 1, "border-count", "{} intersections, expected one at {t}", its.len());
    ensure!(dist(&its[0].0 .0, &ps) < 1e-3 && (its[0].1 .1 - t).abs() < 1e-2, "border-missing", "{its:?}, expected {ps:?} at {t}");
    Ok(())
}

/// wild: soundness
fn wild(cx: &mut Cx) -> R {
    let s = gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 2), unclamped: false, ..Opt::default() });
    let c = gen_curve(&mut cx.src, Opt { dim: Some(3), deg: (1, 3), extra: (0, 3), ..Opt::default() });
    let op = Opts { knot_domain_division: 8, ..Default::default() };
    note!(cx, "surface {s:?} curve {c:?}");
    let its = find(&s3(&s), &c3(&c), Some(op.clone())).map_err(e("error"))?;
    cx.nontrivial_if(!its.is_empty());
    sound(&s, &c, &its, op.minimum_distance)
}

static LAWS: &[Law] = &[Law::new("height", 12_000, height).rng(), Law::new("sphere", 6_000, sphere).rng(), Law::new("border", 20_000, border).rng(), Law::new("wild", 3_600, wild).rng()];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C18",
        rule: "height fields over a square crossed by zigzagging curves, spheres and lines (some of them many times as long as the sphere is wide), wild surfaces and curves (soundness only); non-trivial = more than one crossing (wild: something was found)",
        assumptions: &["completeness only for transversal crossings, well apart from each other and from poles; the solver is not scale invariant"],
        laws: LAWS,
        probes: &[],
    })
}
