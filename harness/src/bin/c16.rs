//! C16 bounding boxes and bounding box trees
use curvo_verif::prelude::*;

type B2 = BoundingBox<f64, Const<2>>;
type B3 = BoundingBox<f64, Const<3>>;

macro_rules! boxes {
    ($name:ident, $n:literal, $vp:ident) => {
        fn $name(cx: &mut Cx) -> R {
            let s = &mut cx.src;
            let n = s.int(1, 6);
            let a: Vec<Vec<f64>> = (0..n).map(|_| gen_point(s, $n, 10.)).collect();
            let m = s.int(1, 6);
            let r = if s.bool() { 10. } else { 3. };
            let off: Vec<f64> = (0..$n).map(|_| s.coord(12.)).collect();
            let b: Vec<Vec<f64>> = (0..m).map(|_| add(&gen_point(s, $n, r), &off)).collect();
            let tol = *s.pick(&[None, Some(0.), Some(0.5)]);
            note!(cx, "points {a:?} and {b:?} tolerance {tol:?}");
            let lim = |p: &[Vec<f64>], i: usize| (p.iter().map(|q| q[i]).fold(f64::MAX, f64::min), p.iter().map(|q| q[i]).fold(f64::MIN, f64::max));
            let (x, y) = (BoundingBox::<f64, Const<$n>>::new_with_points(a.iter().map(|p| $vp(p))), b.iter().map(|p| $vp(p)).collect::<BoundingBox<f64, Const<$n>>>());
            let mut apart = false;
            let mut close = false;
            for i in 0..$n {
                let (lo, hi) = lim(&a, i);
                ensure!(x.min()[i] == lo && x.max()[i] == hi, "tight", "axis {i}: ({},{}) expected ({lo},{hi})", x.min()[i], x.max()[i]);
                ensure!((x.size()[i] - (hi - lo)).abs() < 1e-12 && (x.center()[i] - (hi + lo) / 2.).abs() < 1e-12, "size", "axis {i}: size {} centre {}", x.size()[i], x.center()[i]);
                let (l2, h2) = lim(&b, i);
                let t = 2. * tol.unwrap_or(0.);
                let gap = (l2 - hi).max(lo - h2);
                apart |= gap > t + 1e-9;
                close |= (gap - t).abs() <= 1e-9;
            }
            cx.label_if(apart, "apart");
            cx.nontrivial_if(n > 1 && m > 1);
            if apart || !close {
                ensure!(x.intersects(&y, tol) == !apart && y.intersects(&x, tol) == !apart, "intersects", "boxes {x:?} {y:?} intersect: {} {}, apart {apart}", x.intersects(&y, tol), y.intersects(&x, tol));
            }
            for p in a.iter().chain(&b) {
                let inside = (0..$n).all(|i| lim(&a, i).0 <= p[i] && p[i] <= lim(&a, i).1);
                ensure!(x.contains(&$vp(p)) == inside, "contains", "{p:?} in {x:?}: {}", !inside);
            }
            let z = BoundingBox::<f64, Const<$n>>::new(vo::<$n>(&a[0]), vo::<$n>(&a[n - 1]));
            for i in 0..$n {
                ensure!(z.min()[i] == a[0][i].min(a[n - 1][i]) && z.max()[i] == a[0][i].max(a[n - 1][i]), "corners-new", "{z:?} of {:?} {:?}", a[0], a[n - 1]);
            }
            let cs = x.corners();
            ensure!(cs.len() == 1 << $n, "corners", "{} corners", cs.len());
            for mask in 0..(1usize << $n) {
                let w: Vec<f64> = (0..$n).map(|i| if mask >> i & 1 == 1 { x.max()[i] } else { x.min()[i] }).collect();
                ensure!(cs.iter().any(|c| pv(c) == w), "corners", "corner {w:?} is missing in {cs:?}");
            }
            for (p, q) in x.lines() {
                let d: Vec<usize> = (0..$n).filter(|i| p[*i] != q[*i]).collect();
                ensure!(d.len() <= 1 && cs.contains(&p) && cs.contains(&q), "lines", "{p:?} {q:?} is not an edge of {x:?}");
            }
            Ok(())
        }
    };
}
boxes!(boxes2, 2, p2);
boxes!(boxes3, 3, p3);

fn inside(lo: &[f64], hi: &[f64], p: &[f64], e: f64) -> bool {
    (0..p.len()).all(|i| p[i] >= lo[i] - e && p[i] <= hi[i] + e)
}

/// curves, compound curves and surfaces are inside their boxes, which their control points span
fn shapes(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let sf = gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 3), ..Opt::default() });
    let n = cx.src.int(1, 4);
    let chain = gen_chain(&mut cx.src, Opt { extra: (0, 3), ..Opt::default() }, n, false);
    note!(cx, "curve {r:?} surface {sf:?} chain {chain:?}");
    cx.nontrivial_if(r.degree > 1);
    let ext = |ps: &[Vec<f64>]| -> (Vec<f64>, Vec<f64>) {
        let d = ps[0].len();
        ((0..d).map(|i| ps.iter().map(|p| p[i]).fold(f64::MAX, f64::min)).collect(), (0..d).map(|i| ps.iter().map(|p| p[i]).fold(f64::MIN, f64::max)).collect())
    };
    let check = |what: &str, lo: Vec<f64>, hi: Vec<f64>, pts: Vec<Vec<f64>>, cps: Vec<Vec<f64>>, sc: f64| -> R {
        for p in &pts {
            ensure!(inside(&lo, &hi, p, 1e-9 * sc), what, "{p:?} outside of {lo:?} {hi:?}");
        }
        let (a, b) = ext(&cps);
        ensure!(dist(&a, &lo) <= 1e-9 * sc && dist(&b, &hi) <= 1e-9 * sc, format!("{what}-tight"), "box {lo:?} {hi:?} of control points within {a:?} {b:?}");
        Ok(())
    };
    let (lo, hi) = match AC::new(&r) {
        AC::D2(c) => {
            let b: B2 = (&c).into();
            (vv(b.min()), vv(b.max()))
        }
        AC::D3(c) => {
            let b: B3 = (&c).into();
            (vv(b.min()), vv(b.max()))
        }
    };
    check("curve", lo, hi, r.probe_params(5).iter().map(|u| r.point(*u)).collect(), r.points(), r.scale())?;
    let b: B3 = (&s3(&sf)).into();
    let ((ua, ub), (va, vb)) = sf.domain();
    let mut pts = vec![];
    for i in 0..=4 {
        for j in 0..=4 {
            pts.push(sf.point(ua + (ub - ua) * i as f64 / 4., va + (vb - va) * j as f64 / 4.));
        }
    }
    check("surface", vv(b.min()), vv(b.max()), pts, sf.cps.iter().flatten().map(|c| proj(c)).collect(), sf.scale())?;
    let k = ACC::new(&chain);
    let (lo, hi) = match &k {
        ACC::K2(c) => {
            let b: B2 = c.into();
            (vv(b.min()), vv(b.max()))
        }
        ACC::K3(c) => {
            let b: B3 = c.into();
            (vv(b.min()), vv(b.max()))
        }
    };
    let spans = k.spans();
    check("compound", lo, hi, spans.iter().flat_map(|m| m.probe_params(3).iter().map(|u| m.point(*u)).collect::<Vec<_>>()).collect(), spans.iter().flat_map(|m| m.points()).collect(), spans.iter().map(|m| m.scale()).fold(0., f64::max))
}

/// dividing until no longer dividable tiles the curve
fn curve_tree(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { dim: Some(3), extra: (0, 4), ..Opt::default() });
    let c = c3(&r);
    let (a, b) = r.domain();
    let tol = if cx.src.bool() { None } else { Some((b - a) / cx.src.int(1, 40) as f64) };
    note!(cx, "curve {r:?} tolerance {tol:?}");
    cx.nontrivial_if(r.degree > 1);
    let mut leaves = vec![];
    let mut todo = vec![CurveBoundingBoxTree::new(&c, tol)];
    while let Some(t) = todo.pop() {
        let (x, y) = t.curve().knots_domain();
        let bb = t.bounding_box();
        for i in 0..=4 {
            let u = (x + (y - x) * i as f64 / 4.).clamp(a, b);
            ensure!(inside(&vv(bb.min()), &vv(bb.max()), &r.point(u), 1e-8 * r.scale()), "tree-box", "the curve at {u} is outside of the box of ({x},{y})");
        }
        if t.is_dividable() {
            let (p, q) = t.try_divide().map_err(|e| Fail { sig: "tree-error".into(), msg: e.to_string() })?;
            let ((x0, x1), (y0, y1)) = (p.curve().knots_domain(), q.curve().knots_domain());
            ensure!(x0 == x && x1 == y0 && y1 == y && x0 < x1 && y0 < y1, "tree-tiles", "({x},{y}) divided into ({x0},{x1}) and ({y0},{y1})");
            todo.push(q);
            todo.push(p);
        } else {
            leaves.push((x, y));
        }
        ensure!(leaves.len() < 20_000, "tree-size", "more than 20000 leaves");
    }
    let lim = tol.unwrap_or((b - a) / 64.);
    for (x, y) in leaves {
        ensure!(y - x <= lim * (1. + 1e-9), "tree-leaf", "leaf ({x},{y}) is longer than {lim}");
    }
    Ok(())
}

fn surface_tree(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 3), unclamped: false, ..Opt::default() });
    let s = s3(&r);
    let ((ua, ub), (va, vb)) = r.domain();
    let dir = if cx.src.bool() { UVDirection::U } else { UVDirection::V };
    let k = cx.src.int(1, 8) as f64;
    let l = cx.src.int(1, 8) as f64;
    let tol = ((ub - ua) / k, (vb - va) / l);
    note!(cx, "surface {r:?} direction {dir:?} tolerance {tol:?}");
    cx.nontrivial_if(k > 1. && l > 1.);
    let mut todo = vec![SurfaceBoundingBoxTree::new(&s, dir, Some(tol))];
    let mut area = 0.;
    while let Some(t) = todo.pop() {
        let ((x0, x1), (y0, y1)) = t.surface().knots_domain();
        let bb = t.bounding_box();
        for i in 0..=2 {
            for j in 0..=2 {
                let (u, v) = (x0 + (x1 - x0) * i as f64 / 2., y0 + (y1 - y0) * j as f64 / 2.);
                let p = r.point(u.clamp(ua, ub), v.clamp(va, vb));
                ensure!(inside(&vv(bb.min()), &vv(bb.max()), &p, 1e-8 * r.scale()), "surface-tree-box", "the surface at ({u},{v}) is outside of the box of its piece");
            }
        }
        if t.is_dividable() {
            let (p, q) = t.try_divide().map_err(|e| Fail { sig: "surface-tree-error".into(), msg: e.to_string() })?;
            todo.push(q);
            todo.push(p);
        } else {
            ensure!(x1 - x0 <= tol.0 * (1. + 1e-9) && y1 - y0 <= tol.1 * (1. + 1e-9), "surface-tree-leaf", "leaf ({x0},{x1})x({y0},{y1})");
            area += (x1 - x0) * (y1 - y0);
        }
    }
    ensure!((area - (ub - ua) * (vb - va)).abs() <= 1e-9 * area, "surface-tree-tiles", "leaves cover {area} of {}", (ub - ua) * (vb - va));
    Ok(())
}

/// a shared point is in one of the candidate pairs
fn traversal(cx: &mut Cx) -> R {
    let o = Opt { extra: (0, 4), ..Opt::default() };
    let mut r0 = gen_curve(&mut cx.src, o);
    let mut r1 = gen_curve(&mut cx.src, Opt { dim: Some(r0.dim()), ..o });
    let dim = r0.dim();
    // off the grid, so that boxes are not flat
    for r in [&mut r0, &mut r1] {
        for c in r.cps.iter_mut() {
            let w = c[dim];
            for x in c.iter_mut().take(dim) {
                *x += w * cx.src.real(-1., 1.);
            }
        }
    }
    let (a, b) = r0.domain();
    let (c, d) = r1.domain();
    let (t0, t1) = (cx.src.real(a, b), cx.src.real(c, d));
    let sh = sub(&r0.point(t0), &r1.point(t1));
    for p in r1.cps.iter_mut() {
        let w = p[dim];
        for i in 0..dim {
            p[i] += w * sh[i];
        }
    }
    note!(cx, "curves {r0:?} {r1:?} meeting at {t0} {t1}");
    cx.nontrivial_if(r0.degree > 1 && r1.degree > 1);
    let cover = |v: Vec<((f64, f64), (f64, f64))>| v.iter().any(|((x0, x1), (y0, y1))| *x0 - 1e-9 <= t0 && t0 <= x1 + 1e-9 && *y0 - 1e-9 <= t1 && t1 <= y1 + 1e-9);
    macro_rules! go {
        ($p:expr, $q:expr) => {{
            let t = BoundingBoxTraversal::try_traverse(CurveBoundingBoxTree::new($p, Some((b - a) / 16.)), CurveBoundingBoxTree::new($q, Some((d - c) / 16.))).map_err(|e| Fail { sig: "traversal-error".into(), msg: e.to_string() })?;
            t.pairs().iter().map(|(x, y)| (x.curve().knots_domain(), y.curve().knots_domain())).collect::<Vec<_>>()
        }};
    }
    let v = match (AC::new(&r0), AC::new(&r1)) {
        (AC::D2(p), AC::D2(q)) => go!(&p, &q),
        (AC::D3(p), AC::D3(q)) => go!(&p, &q),
        _ => unreachable!(),
    };
    cx.label_if(v.len() > 1, "several-pairs");
    ensure!(cover(v.clone()), "traversal", "no candidate pair contains ({t0},{t1}): {v:?}");
    Ok(())
}

static LAWS: &[Law] = &[
    Law::new("boxes2", 400_000, boxes2),
    Law::new("boxes3", 400_000, boxes3),
    Law::new("shapes", 80_000, shapes),
    Law::new("curve-tree", 12_000, curve_tree).rng(),
    Law::new("surface-tree", 8_000, surface_tree),
    Law::new("traversal", 16_000, traversal).rng(),
];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C16",
        rule: "boxes of random point sets; boxes of random curves, surfaces and compound curves; complete subdivision trees of random curves and surfaces; traversals of two curves moved to share a known point; non-trivial = several points, degree >= 2, divided in both directions",
        assumptions: &["positive weights", "boxes closer than 1e-9 to touching are not judged"],
        laws: LAWS,
        probes: &[],
    })
}
