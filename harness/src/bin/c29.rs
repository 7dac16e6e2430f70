//! C29 trimmed surfaces
use curvo_verif::prelude::*;
use std::collections::{HashMap, HashSet};
use std::f64::consts::TAU;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
fn signed_area(p: &[Vec<f64>]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0]).sum::<f64>() * 0.5
}
/// a dense polygon of a closed curve, without its last point
fn poly(r: &RCurve) -> Vec<Vec<f64>> {
    if r.degree == 1 {
        let mut p = r.points();
        p.pop();
        return p;
    }
    let (a, b) = r.domain();
    (0..1000).map(|i| r.point(a + (b - a) * i as f64 / 1000.)).collect()
}
fn inside(p: &[Vec<f64>], x: f64, y: f64) -> bool {
    let n = p.len();
    (0..n).filter(|i| {
        let (a, b) = (&p[*i], &p[(i + 1) % n]);
        (a[1] > y) != (b[1] > y) && x < a[0] + (b[0] - a[0]) * (y - a[1]) / (b[1] - a[1])
    }).count() % 2 == 1
}
fn surface(s: &mut Src) -> (&'static str, RSurface) {
    let size = s.log_real(0.1, 100.);
    let frame = gen_rigid(s, 3);
    let (name, mut r) = match s.draw(3) {
        0 => {
            let k = vec![0., 0., 1., 1.];
            ("plane", RSurface { du: 1, dv: 1, ku: k.clone(), kv: k, cps: (0..2).map(|i| (0..2).map(|j| vec![8. * i as f64, 8. * j as f64, 0., 1.]).collect()).collect() })
        }
        1 => {
            let amp = s.real(0.2, 3.);
            ("field", gen_height_field(s, Opt { deg: (1, 3), extra: (0, 2), rational: false, unclamped: false, mult: 1, ..Opt::default() }, amp))
        }
        _ => {
            let c = NurbsCurve3D::try_arc(&p3(&[0., 0., 0.]), &v3(&[1., 0., 0.]), &v3(&[0., 1., 0.]), 2., 0., s.real(1., TAU)).unwrap();
            ("cylinder", rs3(&NurbsSurface3D::extrude(&c, &v3(&[0., 0., 5.]))))
        }
    };
    for row in r.cps.iter_mut() {
        for p in row.iter_mut() {
            *p = hom(&frame.apply(&scale(&proj(p), size)), p[3]);
        }
    }
    (name, r)
}
/// an outline and holes in the parameter plane: stars around the centre of the domain
fn outlines(s: &mut Src, r: &RSurface) -> (Option<RCurve>, Vec<RCurve>) {
    let ((a, b), (c, e)) = r.domain();
    let deg = if s.chance(1, 4) { (1, 1) } else { (1, 3) };
    let fit = |mut k: RCurve| {
        for p in k.cps.iter_mut() {
            let q = proj(p);
            *p = hom(&[(a + b) * 0.5 + q[0] * (b - a), (c + e) * 0.5 + q[1] * (e - c)], p[2]);
        }
        k
    };
    let ext = (!s.chance(1, 3)).then(|| {
        if s.chance(1, 4) {
            // the domain itself or a rectangle that touches its border
            let m = if s.bool() { 0.5 } else { 0.35 };
            let mut cps: Vec<Vec<f64>> = [(-0.5, -m), (0.5, -m), (0.5, m), (-0.5, m), (-0.5, -m)].iter().map(|(x, y)| vec![*x, *y, 1.]).collect();
            if s.bool() {
                cps.reverse();
            }
            fit(RCurve { degree: 1, knots: vec![0., 0., 1., 2., 3., 4., 4.], cps })
        } else {
            fit(gen_star(s, &[0., 0.], 0.25, 0.49, deg, true))
        }
    });
    let holes = (0..s.int(if ext.is_none() { 1 } else { 0 }, 3))
        .map(|i| {
            // within 0.1 of the centre
            let t = i as f64 * TAU / 3.;
            fit(gen_star(s, &[0.055 * t.cos(), 0.055 * t.sin()], 0.02, 0.042, deg, true))
        })
        .collect();
    (ext, holes)
}
struct Mesh<'a> {
    r: &'a RSurface,
    t: &'a SurfaceTessellation3D<f64>,
    /// number of boundary loops
    loops: Vec<Vec<usize>>,
    area: f64,
}
/// parameters scaled to the unit square
fn uv(m: &RSurface, w: &nalgebra::Vector2<f64>) -> Vec<f64> {
    let ((a, b), (c, e)) = m.domain();
    vec![(w.x - a) / (b - a), (w.y - c) / (e - c)]
}
fn mesh<'a>(r: &'a RSurface, t: &'a SurfaceTessellation3D<f64>) -> Result<Mesh<'a>, Fail> {
    let ((a, b), (c, e)) = r.domain();
    let (pts, ns, uvs) = (t.points(), t.normals(), t.uvs());
    ensure!(pts.len() == ns.len() && pts.len() == uvs.len(), "lengths", "{} points, {} normals, {} parameters", pts.len(), ns.len(), uvs.len());
    ensure!(t.faces().iter().flatten().all(|i| *i < pts.len()), "indices", "a face has a vertex that does not exist");
    let used: HashSet<usize> = t.faces().iter().flatten().cloned().collect();
    for &i in &used {
        let (u, v) = (uvs[i].x.clamp(a, b), uvs[i].y.clamp(c, e));
        ensure!((u - uvs[i].x).abs() <= 1e-9 * (b - a) && (v - uvs[i].y).abs() <= 1e-9 * (e - c), "uv-domain", "{:?} outside {:?}", uvs[i], r.domain());
        let p = pv(&pts[i]);
        ensure!(dist(&p, &r.point(u, v)) <= 1e-8 * r.scale(), "on-surface", "vertex {p:?}, the surface at ({u},{v}): {:?}", r.point(u, v));
        let n = vv(&ns[i]);
        ensure!((norm(&n) - 1.).abs() <= 1e-6, "unit-normal", "normal {n:?} at ({u},{v})");
        if !r.u_axis().interior().iter().any(|k| (k.0 - u).abs() < 1e-9 * (b - a) && k.1 >= r.du) && !r.v_axis().interior().iter().any(|k| (k.0 - v).abs() < 1e-9 * (e - c) && k.1 >= r.dv) {
            let side = |x: f64, m: f64| if x >= m { Side::Left } else { Side::Right };
            let d = r.derivs(u, v, 1, side(u, b), side(v, e));
            let w = unit(&cross(&d[1][0], &d[0][1]));
            ensure!(dist(&n, &w) <= 1e-4, "normal", "normal {n:?} at ({u},{v}), expected {w:?}");
        }
    }
    let mut area = 0.;
    let mut edges: HashSet<(usize, usize)> = HashSet::new();
    for f in t.faces() {
        let x = signed_area(&[uv(r, &uvs[f[0]]), uv(r, &uvs[f[1]]), uv(r, &uvs[f[2]])]);
        ensure!(x > -1e-13, "orientation", "triangle {f:?} has area {x} in the parameter plane");
        area += x;
        for k in 0..3 {
            ensure!(edges.insert((f[k], f[(k + 1) % 3])), "overlap", "edge {:?} twice in the same direction", (f[k], f[(k + 1) % 3]));
        }
    }
    let mut next: HashMap<usize, usize> = HashMap::new();
    let mut border: Vec<(usize, usize)> = edges.iter().filter(|(x, y)| !edges.contains(&(*y, *x))).cloned().collect();
    border.sort();
    for (x, y) in &border {
        ensure!(next.insert(*x, *y).is_none(), "pinched", "the boundary passes {:?} twice", uvs[*x]);
    }
    let mut seen: HashSet<usize> = HashSet::new();
    let mut loops = vec![];
    for (s, _) in &border {
        let mut l = vec![];
        let mut i = *s;
        while seen.insert(i) {
            l.push(i);
            let Some(j) = next.get(&i) else { return fail("open-boundary", format!("the boundary ends at {:?}", uvs[i])) };
            i = *j;
        }
        if !l.is_empty() {
            loops.push(l);
        }
    }
    Ok(Mesh { r, t, loops, area })
}
impl Mesh<'_> {
    fn at(&self, i: usize) -> Vec<f64> {
        uv(self.r, &self.t.uvs()[i])
    }
}
fn unitised(r: &RSurface, k: &RCurve) -> RCurve {
    let ((a, b), (c, e)) = r.domain();
    let mut k = k.clone();
    for p in k.cps.iter_mut() {
        let q = proj(p);
        *p = hom(&[(q[0] - a) / (b - a), (q[1] - c) / (e - c)], p[2]);
    }
    k
}
fn describe(cx: &mut Cx, name: &str, r: &RSurface, ext: &Option<RCurve>, holes: &[RCurve]) {
    note!(cx, "{name} {r:?} exterior {ext:?} interiors {holes:?}");
    cx.label(name);
    cx.label(if ext.is_some() { "exterior" } else { "no-exterior" });
    cx.label(["no-holes", "one-hole", "two-holes", "three-holes"][holes.len()]);
    cx.nontrivial_if(!holes.is_empty());
}

const SL: f64 = 1.5;
/// the mesh covers the inside of the exterior without the interiors, once
fn tess(cx: &mut Cx) -> R {
    let (name, r) = surface(&mut cx.src);
    let (ext, holes) = outlines(&mut cx.src, &r);
    let o = if cx.src.chance(1, 4) { None } else { Some(AdaptiveTessellationOptions { norm_tolerance: cx.src.log_real(2e-3, 5e-2), max_depth: cx.src.int(0, 6), ..Default::default() }) };
    describe(cx, name, &r, &ext, &holes);
    note!(cx, "options {o:?}");
    let outer = ext.as_ref().map(|k| poly(&unitised(&r, k))).unwrap_or(vec![vec![0., 0.], vec![1., 0.], vec![1., 1.], vec![0., 1.]]);
    let n = outer.len();
    let near = (0..n).flat_map(|i| (0..=20).map(move |k| (i, k))).map(|(i, k)| dist(&lerp(&outer[i], &outer[(i + 1) % n], k as f64 / 20.), &[0.5, 0.5])).fold(f64::MAX, f64::min);
    // the edges stay within length * turning / 8 of the outline, in parameters that are not scaled
    let aspect = {
        let ((a, b), (c, e)) = r.domain();
        ((b - a) / (e - c)).max((e - c) / (b - a))
    };
    if near < 0.11 + 0.015 * (aspect - 1.) || aspect > 15. {
        return discard("outline-meets-holes");
    }
    let curves: Vec<RCurve> = ext.iter().chain(&holes).map(|k| unitised(&r, k)).collect();
    let s = TrimmedSurface::new(s3(&r), ext.as_ref().map(c2), holes.iter().map(c2).collect());
    let t = s.tessellate(o.clone()).map_err(err("tessellate"))?;
    let m = mesh(&r, &t)?;
    ensure!(m.loops.len() == 1 + holes.len(), "loops", "{} boundary loops, {} outlines", m.loops.len(), 1 + holes.len());
    for l in &m.loops {
        for &i in l {
            let q = m.at(i);
            let border = ext.is_none() && [q[0], 1. - q[0], q[1], 1. - q[1]].iter().any(|x| x.abs() < 1e-9);
            ensure!(border || curves.iter().any(|c| c.nearest(&q, 20).1 < 1e-7), "off-boundary", "boundary vertex at {q:?} (of the unit square) is on none of the outlines: {:?}", curves.iter().map(|c| c.nearest(&q, 20)).collect::<Vec<_>>());
        }
    }
    let want = signed_area(&outer).abs() - holes.iter().map(|h| signed_area(&poly(&unitised(&r, h))).abs()).sum::<f64>();
    // the outline turns by 2 sqrt(tolerance) at most along an edge of the boundary:
    // between the edge and the outline lies an area of length^2 * turning / 12
    let tol = o.map(|o| o.norm_tolerance).unwrap_or(1e-2);
    let ((a, b), (c, e)) = r.domain();
    let raw = |i: usize| vec![t.uvs()[i].x, t.uvs()[i].y];
    let sq: f64 = m.loops.iter().map(|l| (0..l.len()).map(|k| dist(&raw(l[k]), &raw(l[(k + 1) % l.len()])).powi(2)).sum::<f64>()).sum();
    let slack = if curves.iter().all(|c| c.degree == 1) { 1e-9 } else { 1e-4 * signed_area(&outer).abs() + SL * tol.sqrt() * sq / 6. / (b - a) / (e - c) };
    ensure!((m.area - want).abs() <= slack, "area", "{} of the unit square, expected {want} +- {slack}", m.area);
    let hs: Vec<Vec<Vec<f64>>> = holes.iter().map(|h| poly(&unitised(&r, h))).collect();
    let mut wrong = 0.;
    for f in t.faces() {
        let q: Vec<Vec<f64>> = f.iter().map(|i| m.at(*i)).collect();
        let c = [(q[0][0] + q[1][0] + q[2][0]) / 3., (q[0][1] + q[1][1] + q[2][1]) / 3.];
        if !inside(&outer, c[0], c[1]) || hs.iter().any(|h| inside(h, c[0], c[1])) {
            wrong += signed_area(&q);
        }
    }
    ensure!(wrong <= slack, "wrong-side", "triangles of area {wrong} (of the unit square) are outside");
    Ok(())
}

/// with given parameters, the boundary has exactly those vertices
fn constrained(cx: &mut Cx) -> R {
    let (name, r) = surface(&mut cx.src);
    let (ext, holes) = outlines(&mut cx.src, &r);
    describe(cx, name, &r, &ext, &holes);
    let mut list = |k: &RCurve| -> Vec<f64> {
        let (a, b) = k.domain();
        let mut v: Vec<f64> = k.interior().iter().map(|x| x.0).collect();
        let n = cx.src.int(3, 24);
        v.extend((0..=n).map(|i| if i == n { b } else { a + (b - a) * i as f64 / n as f64 }));
        v.sort_by(f64::total_cmp);
        v.dedup_by(|x, y| (*x - *y).abs() < 1e-3 * (b - a));
        if *v.last().unwrap() < b {
            v.pop();
            v.push(b);
        }
        v
    };
    let el = ext.as_ref().map(&mut list);
    let lists: Vec<Vec<f64>> = holes.iter().map(&mut list).collect();
    let hl: Vec<Option<Vec<f64>>> = lists.into_iter().map(|l| (!cx.src.chance(1, 5)).then_some(l)).collect();
    let free = hl.iter().any(|l| l.is_none());
    cx.label_if(free, "free-interior");
    note!(cx, "parameters {el:?} {hl:?}");
    let polygon = |k: &RCurve, l: &[f64]| -> Vec<Vec<f64>> { l[..l.len() - 1].iter().map(|t| unitised(&r, k).point(*t)).collect() };
    let outer = match (&ext, &el) {
        (Some(k), Some(l)) => polygon(k, l),
        _ => vec![vec![0., 0.], vec![1., 0.], vec![1., 1.], vec![0., 1.]],
    };
    let n = outer.len();
    let near = (0..n).flat_map(|i| (0..=20).map(move |k| (i, k))).map(|(i, k)| dist(&lerp(&outer[i], &outer[(i + 1) % n], k as f64 / 20.), &[0.5, 0.5])).fold(f64::MAX, f64::min);
    let turn: f64 = (0..n)
        .map(|i| {
            let (p, q) = ([outer[i][0] - 0.5, outer[i][1] - 0.5], [outer[(i + 1) % n][0] - 0.5, outer[(i + 1) % n][1] - 0.5]);
            (p[0] * q[1] - p[1] * q[0]).atan2(p[0] * q[0] + p[1] * q[1])
        })
        .sum();
    // the polygon with few of the outline's points may pass the holes on the wrong side
    if near < 0.11 || turn.abs() < 3. {
        return discard("outline-meets-holes");
    }
    let s = TrimmedSurface::new(s3(&r), ext.as_ref().map(c2), holes.iter().map(c2).collect());
    let bad = TrimmedSurfaceConstraints::new(el.clone(), hl.iter().cloned().chain([None]).collect());
    ensure!(s.constrained_tessellate(bad, None).is_err(), "count", "one list too many was accepted");
    if !hl.is_empty() {
        let bad = TrimmedSurfaceConstraints::new(el.clone(), hl[1..].to_vec());
        ensure!(s.constrained_tessellate(bad, None).is_err(), "count", "one list too few was accepted");
    }
    let t = s.constrained_tessellate(TrimmedSurfaceConstraints::new(el.clone(), hl.clone()), None).map_err(err("tessellate"))?;
    let m = mesh(&r, &t)?;
    ensure!(m.loops.len() == 1 + holes.len(), "loops", "{} boundary loops, {} outlines", m.loops.len(), 1 + holes.len());
    let mut want: Vec<Vec<Vec<f64>>> = holes.iter().zip(&hl).filter_map(|(h, l)| Some(polygon(h, l.as_ref()?))).collect();
    if ext.is_some() {
        want.push(outer.clone());
    }
    for p in &want {
        let found = m.loops.iter().any(|l| l.len() == p.len() && p.iter().all(|q| l.iter().any(|i| dist(&m.at(*i), q) < 1e-9)));
        ensure!(found, "constrained", "no boundary loop has just the {} vertices {p:?} (loops of {:?})", p.len(), m.loops.iter().map(|l| l.len()).collect::<Vec<_>>());
    }
    if free {
        return Ok(());
    }
    let want = signed_area(&outer).abs() - want[..holes.len()].iter().map(|h| signed_area(h).abs()).sum::<f64>();
    ensure!((m.area - want).abs() < 1e-9, "constrained-area", "{} of the unit square, expected {want}", m.area);
    Ok(())
}

/// curves projected along a direction, or to their closest points, lie on the surface below
fn projection(cx: &mut Cx) -> R {
    let k = vec![0., 0., 1., 1.];
    let plane = RSurface { du: 1, dv: 1, ku: k.clone(), kv: k, cps: (0..2).map(|i| (0..2).map(|j| vec![8. * i as f64, 8. * j as f64, 0., 1.]).collect()).collect() };
    let kind = cx.src.draw(3);
    let mut r = match kind {
        0 | 1 => plane,
        // linear in x and y, so that a projection along z is the curve's own x and y
        _ => gen_height_field(&mut cx.src, Opt { deg: (1, 3), extra: (0, 1), rational: false, unclamped: false, mult: 1, domain: false, ..Opt::default() }, 1.),
    };
    let flat = gen_star(&mut cx.src, &[4., 4.], 0.5, 2., (1, 3), true);
    let h = cx.src.real(3., 8.);
    let frame = gen_rigid(&mut cx.src, 3);
    // against the direction, in the plane's own frame
    let slope = if kind == 1 { (cx.src.real(-0.25, 0.25), cx.src.real(-0.25, 0.25)) } else { (0., 0.) };
    let len = if cx.src.bool() { 1. } else { cx.src.log_real(0.02, 20.) };
    let down = scale(&unit(&[slope.0, slope.1, -1.]), len);
    let mut curve = RCurve { degree: flat.degree, knots: flat.knots.clone(), cps: vec![] };
    for p in &flat.cps {
        let q = proj(p);
        let z = h + cx.src.real(-0.5, 0.5);
        curve.cps.push(hom(&frame.apply(&[q[0] - slope.0 * z, q[1] - slope.1 * z, z]), p[2]));
    }
    // the first point closes the curve
    let n = curve.cps.len();
    curve.cps[n - 1] = hom(&proj(&curve.cps[0]), curve.cps[n - 1][3]);
    let shape = r.clone();
    for row in r.cps.iter_mut() {
        for p in row.iter_mut() {
            *p = hom(&frame.apply(&proj(p)), p[3]);
        }
    }
    let down = frame.apply_vec(&down);
    let interior = cx.src.bool();
    note!(cx, "surface {r:?} curve {curve:?} direction {down:?} {}", if interior { "interior" } else { "exterior" });
    cx.label(["plane-closest", "plane-oblique", "field"][kind as usize]);
    cx.label_if((len - 1.).abs() > 1e-9, "not-unit");
    cx.nontrivial_if(kind > 0);
    let (e, i) = if interior { (None, vec![c3(&curve)]) } else { (Some(c3(&curve)), vec![]) };
    let t = if kind == 0 { TrimmedSurface::try_map_closest_point(s3(&r), e, i) } else { TrimmedSurface::try_projection(s3(&r), v3(&down), e, i) };
    let t = t.map_err(err("projection"))?;
    ensure!(t.exterior().is_some() != interior && t.interiors().len() == interior as usize, "projection-kind", "exterior {} interiors {}", t.exterior().is_some(), t.interiors().len());
    let k = r2(t.exterior().unwrap_or_else(|| &t.interiors()[0]));
    ensure!(k.degree == curve.degree && k.knots == curve.knots, "projection-knots", "{k:?}");
    let ((a, b), (c, e)) = r.domain();
    for u in curve.probe_params(3) {
        let q = k.point(u);
        let want = {
            let x = flat.point(u);
            let (p, w) = (a + (b - a) * x[0] / 8., c + (e - c) * x[1] / 8.);
            vec![p, w]
        };
        ensure!((q[0] - want[0]).abs() <= 1e-3 * (b - a) && (q[1] - want[1]).abs() <= 1e-3 * (e - c), "projection", "at {u}: parameters {q:?}, expected {want:?}");
    }
    let _ = shape;
    Ok(())
}

/// a sheet folded over itself: every point lands on the layer it meets first
fn folded(cx: &mut Cx) -> R {
    let k = vec![0., 0., 1., 1.];
    let wt = if cx.src.bool() { 1. } else { cx.src.log_real(0.5, 2.) };
    let cps = [(9., 0.), (-9., 2.), (9., 4.)].iter().map(|(x, z)| [0., 8.].iter().map(|y| hom(&[*x, *y, *z], wt)).collect()).collect();
    let mut r = RSurface { du: 2, dv: 1, ku: vec![0., 0., 0., 1., 1., 1.], kv: k, cps };
    let flat = gen_star(&mut cx.src, &[4., 4.], 0.5, 2., (1, 3), true);
    let below = cx.src.bool();
    let h = cx.src.real(3., 8.);
    let frame = gen_rigid(&mut cx.src, 3);
    let len = if cx.src.bool() { 1. } else { cx.src.log_real(0.02, 20.) };
    let mut curve = RCurve { degree: flat.degree, knots: flat.knots.clone(), cps: vec![] };
    for p in &flat.cps {
        let q = proj(p);
        let z = h + cx.src.real(-0.5, 0.5);
        curve.cps.push(hom(&frame.apply(&[q[0], q[1], if below { -z } else { 4. + z }]), p[2]));
    }
    for row in r.cps.iter_mut() {
        for p in row.iter_mut() {
            *p = hom(&frame.apply(&proj(p)), p[3]);
        }
    }
    let dir = frame.apply_vec(&[0., 0., if below { len } else { -len }]);
    let interior = cx.src.bool();
    note!(cx, "surface {r:?} curve {curve:?} direction {dir:?} {}", if interior { "interior" } else { "exterior" });
    cx.label(if below { "from-below" } else { "from-above" });
    cx.nontrivial();
    let (e, i) = if interior { (None, vec![c3(&curve)]) } else { (Some(c3(&curve)), vec![]) };
    let t = TrimmedSurface::try_projection(s3(&r), v3(&dir), e, i).map_err(err("folded"))?;
    let k = r2(t.exterior().unwrap_or_else(|| &t.interiors()[0]));
    ensure!(k.degree == curve.degree && k.knots == curve.knots && k.cps.len() == flat.cps.len(), "folded-form", "{k:?}");
    for (i, (p, q)) in k.cps.iter().zip(&flat.cps).enumerate() {
        let (p, q) = (proj(p), proj(q));
        let s = 0.5 * (q[0] / 9.).sqrt();
        let want = [if below { 0.5 - s } else { 0.5 + s }, q[1] / 8.];
        ensure!(dist(&p, &want) <= 1e-3, "folded", "control point {i} at {p:?}, the layer met first is at {want:?}");
    }
    Ok(())
}

/// reversing keeps the trimmed points, transforming moves them
fn moved(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 2), ..Opt::default() });
    let (ext, holes) = outlines(&mut cx.src, &r);
    describe(cx, "surface", &r, &ext, &holes);
    let s = TrimmedSurface::new(s3(&r), ext.as_ref().map(c2), holes.iter().map(c2).collect());
    let aff = gen_affine(&mut cx.src, 3);
    let (x, y) = (s.inverse(), s.transformed(&aff.m4()));
    let on = |s: &TrimmedSurface<f64>, k: usize, t: f64| {
        let c = s.exterior().into_iter().chain(s.interiors()).nth(k).unwrap();
        let (a, b) = c.knots_domain();
        let q = c.point_at(t.clamp(a, b));
        pv(&s.surface().point_at(q.x, q.y))
    };
    ensure!(x.exterior().is_some() == ext.is_some() && x.interiors().len() == holes.len(), "invert-count", "{:?}", x);
    for (k, c) in ext.iter().chain(&holes).enumerate() {
        let (a, b) = c.domain();
        for i in 0..=8 {
            let t = a + (b - a) * i as f64 / 8.;
            let p = on(&s, k, t);
            let sum = c.knots[0] + c.knots[c.knots.len() - 1];
            ensure!(dist(&p, &on(&x, k, sum - t)) <= 1e-7 * r.scale(), "inverted", "curve {k} at {t}: {p:?}, reversed {:?}", on(&x, k, sum - t));
            ensure!(dist(&aff.apply(&p), &on(&y, k, t)) <= 1e-7 * (1. + norm(&aff.apply(&p))) * (1. + r.scale()), "transformed", "curve {k} at {t}: {:?}, transformed {:?}", aff.apply(&p), on(&y, k, t));
        }
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("tess", 2_000, tess), Law::new("constrained", 15_000, constrained), Law::new("projection", 15_000, projection).rng(), Law::new("folded", 3_000, folded).rng(), Law::new("moved", 60_000, moved)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C29",
        rule: "planes, height fields and cylinders of size 0.1 to 100 in random frames, an outer outline or none (rectangles that reach the border of the domain included), up to three holes, polygons and rational curves of degree up to 3, tolerances from 2e-3 to 5e-2; given parameter lists; curves above a surface projected along directions of any length, onto folded sheets too; non-trivial = with holes, oblique or curved surface",
        assumptions: &["outlines are star shaped, do not meet each other and are smooth within a knot span of degree <= 3", "the adaptive tessellation keeps the turning of an outline below 2 sqrt(tolerance) along an edge, in the plane of the parameters; outlines that are nearer than such an edge can see are left out"],
        laws: LAWS,
        probes: &[],
    })
}
