//! C27 tessellation of curves, compound curves and regions
use curvo_verif::prelude::*;
use std::collections::HashMap;
use std::f64::consts::TAU;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}

/// the parameters of the points `pts[i..]` on the curve, in order, from the start to the end of it:
/// halving the domain as long as a point matches; the number of points used up
fn halving(r: &RCurve, pts: &[Vec<f64>], (a, b): (f64, f64), i: usize, eps: f64, out: &mut Vec<f64>, depth: usize, fuel: &mut usize) -> Option<usize> {
    if i + 1 >= pts.len() || depth > 40 || *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    let k = out.len();
    if dist(&pts[i + 1], &r.point(b)) <= eps {
        out.push(b);
        // what follows decides, up to the end of this piece
        if (i + 2 == pts.len()) == (b == r.domain().1) || depth == 0 {
            return Some(i + 1);
        }
        out.truncate(k);
    }
    let m = a + (b - a) * 0.5;
    if let Some(j) = halving(r, pts, (a, m), i, eps, out, depth + 1, fuel) {
        if let Some(e) = halving(r, pts, (m, b), j, eps, out, depth + 1, fuel) {
            return Some(e);
        }
    }
    out.truncate(k);
    None
}
/// any increasing parameters
fn marching(r: &RCurve, pts: &[Vec<f64>], eps: f64, out: &mut Vec<f64>) -> Result<(), (usize, f64)> {
    let (a, b) = r.domain();
    let n = 4000;
    let grid: Vec<(f64, Vec<f64>)> = (0..=n).map(|i| a + (b - a) * i as f64 / n as f64).map(|u| (u, r.point(u))).collect();
    let mut at = a;
    for (i, p) in pts.iter().enumerate().skip(1) {
        let mut best = f64::MAX;
        let mut hit = None;
        for w in 0..n {
            if grid[w + 1].0 <= at {
                continue;
            }
            let (d0, d1) = (dist(&grid[w].1, p), dist(&grid[w + 1].1, p));
            let step = dist(&grid[w].1, &grid[w + 1].1);
            best = best.min(d0).min(d1);
            if d0.min(d1) <= 2. * step + eps {
                let (u, d) = golden(grid[w].0.max(at), grid[w + 1].0, |u| dist(&r.point(u), p));
                best = best.min(d);
                if d <= eps.max(1e-6 * step) {
                    hit = Some(u);
                    break;
                }
            }
        }
        match hit {
            Some(u) => {
                out.push(u);
                at = u;
            }
            None => return Err((i, best)),
        }
    }
    Ok(())
}
/// increasing parameters of the polyline's points: from the start of the curve to its end
fn params(r: &RCurve, pts: &[Vec<f64>], what: &str) -> Result<Vec<f64>, Fail> {
    let (a, b) = r.domain();
    let eps = 1e-9 * r.scale();
    ensure!(pts.len() >= 2, format!("{what}-points"), "{} points", pts.len());
    ensure!(pts.iter().flatten().all(|x| x.is_finite()), format!("{what}-finite"), "{pts:?}");
    ensure!(dist(&pts[0], &r.point(a)) <= eps, format!("{what}-start"), "starts at {:?}, the curve at {:?}", pts[0], r.point(a));
    let l = pts.last().unwrap();
    ensure!(dist(l, &r.point(b)) <= eps, format!("{what}-end"), "ends at {l:?}, the curve at {:?}", r.point(b));
    let mut out = vec![a];
    let mut fuel = 20 * pts.len() + 1000;
    if halving(r, pts, (a, b), 0, eps, &mut out, 1, &mut fuel) == Some(pts.len() - 1) {
        return Ok(out);
    }
    let mut out = vec![a];
    if let Err((i, d)) = marching(r, pts, eps, &mut out) {
        return fail(&format!("{what}-order"), format!("point {i} of {}, {:?}, is not on the curve after the one before it (nearest {d})", pts.len(), pts[i]));
    }
    Ok(out)
}
fn tol(cx: &mut Cx) -> Option<f64> {
    if cx.src.chance(1, 3) {
        None
    } else {
        Some(cx.src.log_real(1e-5, 0.1))
    }
}
/// how far the curve leaves the chord between two parameters, and the chord
fn bulge(r: &RCurve, a: f64, b: f64) -> (f64, f64) {
    let (p, q) = (r.point(a), r.point(b));
    let d = sub(&q, &p);
    let m = dot(&d, &d);
    let h = (0..=16).map(|i| {
        let x = sub(&r.point(a + (b - a) * i as f64 / 16.), &p);
        let t = if m > 0. { (dot(&x, &d) / m).clamp(0., 1.) } else { 0. };
        norm(&sub(&x, &scale(&d, t)))
    });
    (h.fold(0., f64::max), m.sqrt())
}

/// any curve: from start to end, on the curve, in order; degree 1 keeps the vertices
fn any(cx: &mut Cx) -> R {
    let mut r = gen_curve(&mut cx.src, Opt { extra: (0, 6), ..Opt::default() });
    if cx.src.chance(1, 8) {
        // a very short domain
        let k = cx.src.log_real(1e-10, 1e-6) / (r.domain().1 - r.domain().0);
        for x in r.knots.iter_mut() {
            *x *= k;
        }
        cx.label("short-domain");
    }
    let t = tol(cx);
    let pts = AC::new(&r).tessellate(t);
    note!(cx, "curve {r:?} tolerance {t:?}: {} points", pts.len());
    cx.nontrivial_if(pts.len() > 4);
    cx.label(if r.degree == 1 { "polyline" } else { "curved" });
    if r.degree == 1 {
        let p = r.points();
        ensure!(pts.len() == p.len() && pts.iter().zip(&p).all(|(x, y)| dist(x, y) <= 1e-12 * r.scale()), "vertices", "points {pts:?}, vertices {p:?}");
        return Ok(());
    }
    params(&r, &pts, "any")?;
    Ok(())
}

/// control points on a line, in order: the two ends suffice
fn straight(cx: &mut Cx) -> R {
    let mut r = gen_curve(&mut cx.src, Opt { deg: (2, 5), unclamped: false, mult: 1, ..Opt::default() });
    let dim = r.dim();
    let frame = gen_rigid(&mut cx.src, dim);
    let mut x = 0.;
    let step = cx.src.log_real(0.1, 5.);
    for p in r.cps.iter_mut() {
        let mut q = vec![0.; dim];
        q[0] = x;
        x += step * cx.src.real(0.2, 1.);
        *p = hom(&frame.apply(&q), p[dim]);
    }
    note!(cx, "curve {r:?}");
    cx.nontrivial();
    let pts = AC::new(&r).tessellate(None);
    ensure!(pts.len() == 2, "straight", "{} points for a straight line: {pts:?}", pts.len());
    params(&r, &pts, "straight")?;
    Ok(())
}

/// arcs of circles and ellipses, parabolas and gentle convex pieces: the chords stay close
fn convex(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let frame = gen_rigid(&mut cx.src, dim);
    let size = cx.src.log_real(0.3, 20.);
    let ratio = cx.src.real(0.3, 1.);
    let put = |x: f64, y: f64| {
        let mut q = vec![0.; dim];
        q[0] = x;
        q[1] = y;
        frame.apply(&q)
    };
    let kind = cx.src.draw(3);
    let r = match kind {
        0 | 1 => {
            // full or partial, an ellipse in general
            let (a, b) = if cx.src.chance(1, 3) { (0., TAU) } else { (0., cx.src.real(0.3, TAU)) };
            let c = NurbsCurve2D::try_arc(&p2(&[0., 0.]), &nalgebra::Vector2::x(), &nalgebra::Vector2::y(), size, a, b).map_err(err("arc"))?;
            let mut r = r2(&c);
            let k = if kind == 0 { 1. } else { ratio };
            for p in r.cps.iter_mut() {
                let q = proj(p);
                *p = hom(&put(q[0], q[1] * k), p[2]);
            }
            r
        }
        _ => {
            let cps = [(-1., 1.), (0., -1.), (1., 1.)].iter().map(|(x, y)| hom(&put(x * size, y * size * ratio), 1.)).collect();
            RCurve { degree: 2, knots: vec![0., 0., 0., 1., 1., 1.], cps }
        }
    };
    let mut r = r;
    if cx.src.chance(1, 6) {
        let k = cx.src.log_real(1e-10, 1e10);
        for x in r.knots.iter_mut() {
            *x *= k;
        }
        cx.label("scaled-domain");
    }
    let t = tol(cx);
    let pts = AC::new(&r).tessellate(t);
    note!(cx, "curve {r:?} tolerance {t:?}: {} points", pts.len());
    cx.label(["circle", "ellipse", "parabola"][kind as usize]);
    cx.label_if(dist(&pts[0], pts.last().unwrap()) < 1e-9, "closed");
    cx.nontrivial_if(pts.len() > 3);
    let us = params(&r, &pts, "convex")?;
    let t = t.unwrap_or(1e-3);
    let area = if dim == 2 { t } else { t.sqrt() };
    for w in us.windows(2) {
        let (h, c) = bulge(&r, w[0], w[1]);
        // the triangle over the chord is within the tolerance; a closed piece is as small as that
        ensure!(h * c <= 1.8 * area || (c < t.sqrt() && h <= 2. * t.sqrt()), "convex-chord", "between {} and {}: the curve is {h} away from its chord of length {c} (tolerance {t})", w[0], w[1]);
    }
    Ok(())
}

/// a curve that turns about the middle of its domain and passes there through its own chord: only
/// places off the middle show that it is not straight
fn turning(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let frame = gen_rigid(&mut cx.src, dim);
    let d = cx.src.int(3, 5);
    let inner = cx.src.int(0, 3);
    let n = d + 1 + inner;
    let w = cx.src.bool();
    let size = cx.src.log_real(0.5, 20.);
    // knots and control points symmetric about the middle
    let half: Vec<f64> = (0..inner / 2).map(|i| 0.5 * (i as f64 + cx.src.real(0.3, 1.)) / (inner / 2 + 1) as f64).collect();
    let mut knots = vec![0.; d + 1];
    knots.extend(&half);
    if inner % 2 == 1 {
        knots.push(0.5);
    }
    knots.extend(half.iter().rev().map(|k| 1. - k));
    knots.extend(vec![1.; d + 1]);
    let dom = gen_domain(&mut cx.src, true);
    for k in knots.iter_mut() {
        *k = dom.0 + (dom.1 - dom.0) * *k;
    }
    let mut cps = vec![vec![]; n];
    for i in 0..n.div_ceil(2) {
        let j = n - 1 - i;
        let x = (n - 1) as f64 / 2. - i as f64;
        let y = if i == 0 || i == j { 0. } else { cx.src.real(1., 3.) };
        let wt = if w { cx.src.log_real(0.5, 2.) } else { 1. };
        let put = |x: f64, y: f64| {
            let mut q = vec![0.; dim];
            q[0] = x * size;
            q[1] = y * size;
            hom(&frame.apply(&q), wt)
        };
        cps[i] = put(-x, y);
        cps[j] = put(x, -y);
    }
    let r = RCurve { degree: d, knots, cps };
    let t = tol(cx);
    let tv = t.unwrap_or(1e-3);
    note!(cx, "curve {r:?} tolerance {t:?}");
    cx.label(if w { "rational" } else { "polynomial" });
    let (a, b) = r.domain();
    let (h, c) = bulge(&r, a, b);
    // far more than the tolerance at most places
    if h * c < 100. * if dim == 2 { tv } else { tv.sqrt() } {
        return discard("flat");
    }
    cx.nontrivial();
    // the place where it is compared with the chord is random: it may be too near the middle once
    let tries: Vec<Vec<Vec<f64>>> = (0..6).map(|_| AC::new(&r).tessellate(t)).collect();
    for pts in &tries {
        params(&r, pts, "turning")?;
    }
    ensure!(tries.iter().any(|p| p.len() > 2), "turning", "replaced by its chord, which it leaves by {h}");
    Ok(())
}

/// spans one after the other, every joint once; a closed one ends where it starts
fn compound(cx: &mut Cx) -> R {
    let n = cx.src.int(1, 5);
    let close = cx.src.bool();
    let chain = gen_chain(&mut cx.src, Opt { extra: (0, 3), ..Opt::default() }, n, close);
    let c = ACC::new(&chain);
    if c.spans().len() != n {
        return discard("not-joined");
    }
    let t = tol(cx);
    let pts = c.tessellate(t);
    let spans = c.spans();
    note!(cx, "spans {chain:?} tolerance {t:?}: {} points", pts.len());
    cx.label(if close { "closed" } else { "open" });
    cx.nontrivial_if(n > 1 && pts.len() > 8);
    let sc = spans.iter().map(|s| s.scale()).fold(0., f64::max);
    let eps = 1e-9 * sc;
    ensure!(pts.len() > n, "compound-points", "{} points", pts.len());
    // cut the polyline at the joints: every way to do it, the first that fits
    fn fits(spans: &[RCurve], pts: &[Vec<f64>], eps: f64, fuel: &mut usize) -> Option<String> {
        let Some(s) = spans.first() else {
            return if pts.len() == 1 { None } else { Some(format!("{} points too many", pts.len() - 1)) };
        };
        let e = s.point(s.domain().1);
        let mut why = format!("no point at the end {e:?} of a span");
        for j in 1..pts.len() {
            if *fuel == 0 {
                break;
            }
            if dist(&pts[j], &e) <= eps {
                *fuel -= 1;
                let ok = if s.degree == 1 {
                    let p = s.points();
                    p.len() == j + 1 && p.iter().zip(pts).all(|(x, y)| dist(x, y) <= eps)
                } else {
                    params(s, &pts[..=j], "span").map_err(|f| why = f.msg).is_ok()
                };
                if ok {
                    match fits(&spans[1..], &pts[j..], eps, fuel) {
                        None => return None,
                        Some(w) => why = w,
                    }
                }
            }
        }
        Some(why)
    }
    let mut fuel = 60;
    if let Some(why) = fits(&spans, &pts, eps, &mut fuel) {
        return fail("compound", format!("the points do not follow the spans: {why}"));
    }
    if c.is_closed() {
        ensure!(dist(&pts[0], pts.last().unwrap()) <= eps, "compound-closed", "{:?} to {:?}", pts[0], pts.last());
    }
    Ok(())
}

fn signed_area(p: &[Vec<f64>]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0]).sum::<f64>() * 0.5
}
/// the mesh of a region covers it once and nothing else
fn region(cx: &mut Cx) -> R {
    let deg = if cx.src.chance(1, 3) { (1, 1) } else { (1, 3) };
    let place = cx.src.log_real(0.2, 4.);
    let o = [cx.src.coord(5.), cx.src.coord(5.)];
    let ext = gen_star(&mut cx.src, &o, 4. * place, 8. * place, deg, true);
    let holes: Vec<RCurve> = (0..cx.src.int(0, 3))
        .map(|i| {
            // within the circle of radius 2.8 around the centre, which the outline stays outside of
            let a = i as f64 * TAU / 3.;
            let (d, m) = if i == 0 && cx.src.chance(1, 4) { (0.9, 0.5) } else { (0.9, 0.6) };
            gen_star(&mut cx.src, &[o[0] + d * place * a.cos(), o[1] + d * place * a.sin()], 0.3 * m * place, m * place, deg, true)
        })
        .collect();
    let t = Some(cx.src.log_real(1e-4, 1e-2) * place * place);
    note!(cx, "exterior {ext:?} interiors {holes:?} tolerance {t:?}");
    cx.label(["no-holes", "one-hole", "two-holes", "three-holes"][holes.len()]);
    cx.nontrivial_if(!holes.is_empty());
    // an outline closer to the centre than the holes may reach leaves no simple region
    let poly = |r: &RCurve| -> Vec<Vec<f64>> {
        if r.degree == 1 {
            let mut p = r.points();
            p.pop();
            return p;
        }
        let (a, b) = r.domain();
        (0..2000).map(|i| r.point(a + (b - a) * i as f64 / 2000.)).collect()
    };
    let ep = poly(&ext);
    let inner = (0..ep.len()).map(|i| {
        let (p, q) = (&ep[i], &ep[(i + 1) % ep.len()]);
        (0..=20).map(|k| dist(&lerp(p, q, k as f64 / 20.), &o)).fold(f64::MAX, f64::min)
    });
    if inner.fold(f64::MAX, f64::min) < 1.7 * place {
        return discard("outline-meets-holes");
    }
    let reg = Region::new(c2(&ext).into(), holes.iter().map(|h| c2(h).into()).collect());
    let m = reg.tessellate(t).map_err(err("region"))?;
    let vs: Vec<Vec<f64>> = m.vertices().iter().map(pv).collect();
    ensure!(m.faces().iter().flatten().all(|i| *i < vs.len()), "region-index", "{:?}", m.faces());
    let eps = 1e-7 * place;
    let curves: Vec<&RCurve> = std::iter::once(&ext).chain(&holes).collect();
    for v in &vs {
        let d = curves.iter().map(|c| c.nearest(v, 30).1).fold(f64::MAX, f64::min);
        ensure!(d <= eps, "region-vertex", "vertex {v:?} is {d} away from the outlines");
    }
    for c in &curves {
        if c.degree == 1 {
            for p in c.points() {
                ensure!(vs.iter().any(|v| dist(v, &p) <= eps), "region-corner", "corner {p:?} is missing");
            }
        }
    }
    // edges: one triangle on either side, boundary edges on one outline
    let mut edges: HashMap<(usize, usize), usize> = HashMap::new();
    let mut total = 0.;
    for f in m.faces() {
        let a = signed_area(&[vs[f[0]].clone(), vs[f[1]].clone(), vs[f[2]].clone()]);
        ensure!(a > 0., "region-orientation", "triangle {f:?} has area {a}");
        total += a;
        for k in 0..3 {
            let e = (f[k], f[(k + 1) % 3]);
            ensure!(edges.insert(e, 1).is_none(), "region-edge", "edge {e:?} twice in the same direction");
        }
    }
    ensure!((m.area() - total).abs() <= 1e-9 * (1. + total), "region-area-method", "area() {:?}, the triangles have {total}", m.area());
    // the boundary of the mesh has as many closed chains as there are outlines, and the area of the
    // region up to the curvature of the outlines
    let border: Vec<(usize, usize)> = edges.keys().filter(|(a, b)| !edges.contains_key(&(*b, *a))).cloned().collect();
    let next: HashMap<usize, usize> = border.iter().cloned().collect();
    ensure!(next.len() == border.len(), "region-border", "the mesh has a pinched boundary");
    let mut seen: Vec<usize> = vec![];
    let mut loops = 0;
    let mut length = 0.;
    let mut start: Vec<usize> = next.keys().cloned().collect();
    start.sort();
    for s in start {
        if seen.contains(&s) {
            continue;
        }
        loops += 1;
        let mut i = s;
        while !seen.contains(&i) {
            seen.push(i);
            let Some(j) = next.get(&i) else { return fail("region-border", format!("the boundary of the mesh ends at {:?}", vs[i])) };
            length += dist(&vs[i], &vs[*j]);
            i = *j;
        }
    }
    ensure!(loops == curves.len(), "region-loops", "{loops} boundary loops, {} outlines", curves.len());
    let want = signed_area(&ep).abs() - holes.iter().map(|h| signed_area(&poly(h)).abs()).sum::<f64>();
    let straight = deg == (1, 1);
    // each chord cuts off less than two triangles of the tolerance, plus the sampled polygons' own error
    let slack = if straight { 1e-9 * (1. + want) } else { border.len() as f64 * 3. * t.unwrap() + 1e-4 * want };
    // the division looks at one random point of a piece only, so that in rare cases the chord of an S-shaped piece
    // passes for the piece: not every time
    if (total - want).abs() > slack {
        let again: Vec<f64> = (0..4).map(|_| reg.tessellate(t).map(|m| m.area()).unwrap_or(f64::NAN)).collect();
        ensure!(again.iter().any(|x| (x - want).abs() <= slack), "region-area", "area {total}, expected {want} +- {slack} (border {} edges, length {length}); again: {again:?}", border.len());
    }
    cx.label_if(slack < 0.05 * want, "tight");
    Ok(())
}

static LAWS: &[Law] = &[Law::new("any", 40_000, any).rng(), Law::new("straight", 10_000, straight).rng(), Law::new("convex", 30_000, convex).rng(), Law::new("turning", 6_000, turning).rng(), Law::new("compound", 20_000, compound).rng(), Law::new("region", 1_500, region).rng()];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C27",
        rule: "wild random curves (also with very short domains), straight curves, arcs of circles and ellipses and parabolas, curves point-symmetric about the middle of their chord, chains of 1-5 spans open or closed, regions of star shapes with up to three holes; tolerances 1e-5 to 0.1; the sampling's randomness is driven by the seed; non-trivial = several chords, several spans, holes",
        assumptions: &["the distance of chords is only bounded for convex arcs: the test at one random place may miss a bulge of a wilder curve", "regions whose outlines are simple and clear of each other"],
        laws: LAWS,
        probes: &[],
    })
}
