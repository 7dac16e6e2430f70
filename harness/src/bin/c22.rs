//! C22 refining, splitting and slicing surfaces
use curvo_verif::prelude::*;

fn surf(cx: &mut Cx) -> RSurface {
    let dim = if cx.src.chance(1, 5) { 2 } else { 3 };
    gen_surface(&mut cx.src, dim, Opt { deg: (1, 5), extra: (0, 5), ..Opt::default() })
}
fn axis(r: &RSurface, u: bool) -> RCurve {
    if u {
        r.u_axis()
    } else {
        r.v_axis()
    }
}
fn dir(u: bool) -> UVDirection {
    if u {
        UVDirection::U
    } else {
        UVDirection::V
    }
}
fn clear(r: &RCurve, u: f64) -> bool {
    let (a, b) = r.domain();
    clear_of(&r.knots, u, a, b)
}
fn labels(cx: &mut Cx, r: &RSurface, a: &RCurve) {
    cx.label_if(!a.clamped(), "unclamped");
    cx.label_if(r.cps.iter().flatten().any(|p| p[r.dim()] != r.cps[0][0][r.dim()]), "rational");
    cx.nontrivial_if(a.degree > 1 && !a.interior().is_empty() && r.du != r.dv);
}
fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
fn valid(r: &RSurface, what: &str) -> R {
    let n = r.cps[0].len();
    ensure!(r.cps.iter().all(|x| x.len() == n) && r.ku.len() == r.cps.len() + r.du + 1 && r.kv.len() == n + r.dv + 1, format!("{what}-valid"), "malformed {r:?}");
    ensure!(r.ku.windows(2).all(|w| w[0] <= w[1]) && r.kv.windows(2).all(|w| w[0] <= w[1]), format!("{what}-knots"), "unsorted knots {r:?}");
    Ok(())
}
/// the surface `x` runs through the same points as `r` over the part `d` of its domain
fn same(cx: &mut Cx, r: &RSurface, x: &RSurface, d: ((f64, f64), (f64, f64)), what: &str) -> R {
    valid(x, what)?;
    ensure!(x.du == r.du && x.dv == r.dv, format!("{what}-degree"), "degrees {} {}", x.du, x.dv);
    let ((a, b), (c, e)) = d;
    let near = |p: f64, q: f64, w: f64| (p - q).abs() <= 1e-9 * w;
    let ((xa, xb), (xc, xe)) = x.domain();
    ensure!(near(xa, a, b - a) && near(xb, b, b - a) && near(xc, c, e - c) && near(xe, e, e - c), format!("{what}-domain"), "domain {:?}, expected {d:?}", x.domain());
    let mut pu: Vec<f64> = x.ku.iter().cloned().filter(|k| *k > a && *k < b).collect();
    let mut pw: Vec<f64> = x.kv.iter().cloned().filter(|k| *k > c && *k < e).collect();
    pu.dedup();
    pw.dedup();
    pu.extend([a, b, a + (b - a) * cx.src.real(0., 1.), a + (b - a) * cx.src.real(0., 1.)]);
    pw.extend([c, e, c + (e - c) * cx.src.real(0., 1.), c + (e - c) * cx.src.real(0., 1.)]);
    for &u in &pu {
        for &v in &pw {
            let (p, q) = (x.point(u.clamp(xa, xb), v.clamp(xc, xe)), r.point(u, v));
            ensure!(dist(&p, &q) <= 1e-8 * r.scale(), format!("{what}-shape"), "at ({u},{v}): {p:?}, the original {q:?} (result {x:?})");
        }
    }
    Ok(())
}

fn refine(cx: &mut Cx) -> R {
    let r = surf(cx);
    let u = cx.src.bool();
    let ax = axis(&r, u);
    let (a, b) = ax.domain();
    let inner: Vec<f64> = ax.interior().iter().map(|k| k.0).collect();
    let mut ks: Vec<f64> = vec![];
    for _ in 0..cx.src.int(1, 4) {
        let t = gen_inner_param(&mut cx.src, a, b, &inner);
    let t = next_to(&mut cx.src, t, a, b, &ax.knots);
        let n = if cx.src.chance(1, 3) { cx.src.int(1, ax.degree) } else { 1 };
        for _ in 0..n {
            // no knot more often than the degree, none closer than can be told apart
            if clear(&ax, t) && ax.mult(t) + ks.iter().filter(|k| **k == t).count() < ax.degree && !ks.iter().any(|k| *k != t && (k - t).abs() < 4e-10 * (b - a)) {
                ks.push(t);
            }
        }
    }
    ks.sort_by(f64::total_cmp);
    note!(cx, "surface {r:?} knots {ks:?} in {}", if u { "u" } else { "v" });
    labels(cx, &r, &ax);
    cx.label_if(ks.is_empty(), "no-knots");
    let mut want = ax.knots.clone();
    want.extend(&ks);
    want.sort_by(f64::total_cmp);
    let x = if r.dim() == 3 {
        let mut s = s3(&r);
        s.try_refine_knot(ks.clone(), dir(u)).map_err(err("refine"))?;
        rs3(&s)
    } else {
        let mut s = s2(&r);
        s.try_refine_knot(ks.clone(), dir(u)).map_err(err("refine"))?;
        rs2(&s)
    };
    let d = r.domain();
    same(cx, &r, &x, d, "refine")?;
    let (got, other) = if u { (&x.ku, x.kv == r.kv) } else { (&x.kv, x.ku == r.ku) };
    ensure!(*got == want, "refine-multiset", "knots {got:?}, expected {want:?}");
    ensure!(other, "refine-other", "the other knots changed");
    Ok(())
}

fn split(cx: &mut Cx) -> R {
    let r = surf(cx);
    let u = cx.src.bool();
    let ax = axis(&r, u);
    let (a, b) = ax.domain();
    let inner: Vec<f64> = ax.interior().iter().map(|k| k.0).collect();
    let t = gen_inner_param(&mut cx.src, a, b, &inner);
    let t = next_to(&mut cx.src, t, a, b, &ax.knots);
    if !clear(&ax, t) {
        return discard("close");
    }
    note!(cx, "surface {r:?} split at {t} in {}", if u { "u" } else { "v" });
    labels(cx, &r, &ax);
    cx.label_if(ax.mult(t) > 0, "at-knot");
    let o = || SplitSurfaceOption::new(t, dir(u));
    let (x, y) = if r.dim() == 3 {
        let (x, y) = s3(&r).try_split(o()).map_err(err("split"))?;
        (rs3(&x), rs3(&y))
    } else {
        let (x, y) = s2(&r).try_split(o()).map_err(err("split"))?;
        (rs2(&x), rs2(&y))
    };
    let (du, dv) = r.domain();
    if u {
        same(cx, &r, &x, ((a, t), dv), "split-head")?;
        same(cx, &r, &y, ((t, b), dv), "split-tail")
    } else {
        same(cx, &r, &x, (du, (a, t)), "split-head")?;
        same(cx, &r, &y, (du, (t, b)), "split-tail")
    }
}

fn on_slice(r: &RSurface, c: &RCurve, u: bool, t: f64, what: &str) -> R {
    let other = axis(r, !u);
    ensure!(c.degree == other.degree && c.knots.len() == c.cps.len() + c.degree + 1, format!("{what}-valid"), "malformed {c:?}");
    ensure!(c.knots == other.knots, format!("{what}-knots"), "knots {:?}, expected {:?}", c.knots, other.knots);
    for s in c.probe_params(2) {
        let (p, q) = (c.point(s), if u { r.point(t, s) } else { r.point(s, t) });
        ensure!(dist(&p, &q) <= 1e-8 * r.scale(), format!("{what}-shape"), "at {s}: {p:?}, the surface {q:?} (curve {c:?})");
    }
    Ok(())
}

fn isocurve(cx: &mut Cx) -> R {
    let r = surf(cx);
    let u = cx.src.bool();
    let ax = axis(&r, u);
    let (a, b) = ax.domain();
    let inner: Vec<f64> = ax.interior().iter().map(|k| k.0).collect();
    let t = gen_param(&mut cx.src, a, b, &inner);
    let t = next_to(&mut cx.src, t, a, b, &ax.knots);
    if !clear(&ax, t) {
        return discard("close");
    }
    note!(cx, "surface {r:?} {} = {t}", if u { "u" } else { "v" });
    labels(cx, &r, &ax);
    cx.label_if(inner.contains(&t), "at-knot");
    cx.label_if(t == a || t == b, "at-end");
    let c = if r.dim() == 3 { r3(&s3(&r).try_isocurve(t, dir(u)).map_err(err("isocurve"))?) } else { r2(&s2(&r).try_isocurve(t, dir(u)).map_err(err("isocurve"))?) };
    on_slice(&r, &c, u, t, "isocurve")?;
    let bs: Vec<RCurve> = if r.dim() == 3 { s3(&r).try_boundary_curves().map_err(err("boundary"))?.iter().map(r3).collect() } else { s2(&r).try_boundary_curves().map_err(err("boundary"))?.iter().map(r2).collect() };
    let ((ua, ub), (va, vb)) = r.domain();
    on_slice(&r, &bs[0], true, ua, "boundary-u0")?;
    on_slice(&r, &bs[1], false, va, "boundary-v0")?;
    on_slice(&r, &bs[2], true, ub, "boundary-u1")?;
    on_slice(&r, &bs[3], false, vb, "boundary-v1")
}

static LAWS: &[Law] = &[Law::new("refine", 50_000, refine), Law::new("split", 50_000, split), Law::new("isocurve", 50_000, isocurve)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C22",
        rule: "random 2D/3D surfaces (degrees 1-5, up to 10 x 10 control points, clamped or not, rational or not) refined by 1-12 knots, split and sliced at the ends, at knots and anywhere, in either direction; non-trivial = the degrees differ and the direction has degree >= 2 and interior knots",
        assumptions: &["knots inserted at most up to the degree", "parameters inside the domain (splitting: strictly), at a knot or at least 4e-10 of the domain away from it"],
        laws: LAWS,
        probes: &[],
    })
}
