//! C35 planar predicates, segments, binomials and polygon meshes
use curvo_verif::prelude::*;
use nalgebra::{Point2, Vector2, Vector3};

type I = (i64, i64);
fn cross_i(p: I, q: I, r: I) -> i128 {
    let d = |a: i64, b: i64| b as i128 - a as i128;
    d(p.0, q.0) * d(p.1, r.1) - d(p.1, q.1) * d(p.0, r.0)
}
fn sgn(x: i128) -> Orientation {
    match x.cmp(&0) {
        std::cmp::Ordering::Greater => Orientation::CounterClockwise,
        std::cmp::Ordering::Less => Orientation::Clockwise,
        _ => Orientation::Collinear,
    }
}
fn gen_i(s: &mut Src, bits: usize) -> i64 {
    let m = 1u64 << bits;
    s.draw(2 * m + 1) as i64 - m as i64
}
/// three integer points, mostly (nearly) in line
fn gen_line(s: &mut Src, bits: usize) -> (I, I, I) {
    let b = s.int(2, bits);
    let p = (gen_i(s, b), gen_i(s, b));
    let q = (gen_i(s, b), gen_i(s, b));
    let r = match s.draw(6) {
        0 => (gen_i(s, b), gen_i(s, b)),
        1 => *s.pick(&[p, q]),
        2 => {
            // exactly in line, on either side or in between
            let k = s.int(0, 6) as i64 - 3;
            (p.0 + (q.0 - p.0) / 2 * k, p.1 + (q.1 - p.1) / 2 * k)
        }
        _ => {
            let n = 1 << s.int(0, 20);
            let k = s.draw(3 * n as u64) as i128 - n as i128;
            let f = |a: i64, b: i64| (a as i128 + (b as i128 - a as i128) * k / n as i128) as i64;
            let d = *s.pick(&[0i64, 0, 1, -1, 2]);
            let e = *s.pick(&[0i64, 0, 1, -1]);
            (f(p.0, q.0) + d, f(p.1, q.1) + e)
        }
    };
    (p, q, r)
}
fn orient(cx: &mut Cx) -> R {
    let single = cx.src.chance(1, 3);
    let (p, q, r) = gen_line(&mut cx.src, if single { 20 } else { 50 });
    let ex = *cx.src.pick(&[0i32, -30, -49, 10, 40]);
    let sc = 2f64.powi(ex);
    let want = sgn(cross_i(p, q, r));
    note!(cx, "{p:?} {q:?} {r:?} * 2^{ex} single {single}");
    cx.nontrivial_if(p != q && q != r && p != r);
    cx.label(match want {
        Orientation::Collinear => "collinear",
        _ => "turn",
    });
    let o = |p: I, q: I, r: I| {
        if single {
            let f = |a: I| Point2::new((a.0 as f64 * sc) as f32, (a.1 as f64 * sc) as f32);
            orientation(&f(p), &f(q), &f(r))
        } else {
            let f = |a: I| Point2::new(a.0 as f64 * sc, a.1 as f64 * sc);
            orientation(&f(p), &f(q), &f(r))
        }
    };
    // 50 bits plus the extrapolation are still exact doubles
    for v in [p.0, p.1, q.0, q.1, r.0, r.1] {
        if single && (v as f32) as i64 != v || (v as f64) as i64 != v {
            return discard("not a representable coordinate");
        }
    }
    ensure!(o(p, q, r) == want, "orientation", "{:?}, expected {want:?}", o(p, q, r));
    ensure!(o(q, r, p) == want, "rotated", "the same points rotated: {:?}, expected {want:?}", o(q, r, p));
    ensure!(o(q, p, r) == sgn(-cross_i(p, q, r)), "swapped", "swapped: {:?}", o(q, p, r));
    Ok(())
}

fn line(cx: &mut Cx) -> R {
    let b = *cx.src.pick(&[2usize, 3, 4, 20, 45]);
    let mut s = || (gen_i(&mut cx.src, b), gen_i(&mut cx.src, b));
    let (a, c, mut d, mut e) = (s(), s(), s(), s());
    match cx.src.draw(4) {
        0 => {
            // an end on the other segment
            let n = 1i128 << cx.src.int(1, 3);
            let k = cx.src.draw(n as u64 + 1) as i128;
            let f = |x: i64, y: i64| (x as i128 + (y as i128 - x as i128) * k / n) as i64;
            d = (f(a.0, c.0), f(a.1, c.1));
        }
        1 => e = *cx.src.pick(&[a, c]),
        _ => {}
    }
    note!(cx, "{a:?}-{c:?} and {d:?}-{e:?}");
    if a == c || d == e {
        return discard("a segment without length");
    }
    let (o1, o2, o3, o4) = (cross_i(a, c, d).signum(), cross_i(a, c, e).signum(), cross_i(d, e, a).signum(), cross_i(d, e, c).signum());
    if o1 == 0 && o2 == 0 {
        return discard("segments on one line");
    }
    let want = o1 * o2 <= 0 && o3 * o4 <= 0;
    cx.nontrivial_if(want || o1 * o2 <= 0 || o3 * o4 <= 0);
    cx.label(if want { if o1 * o2 < 0 && o3 * o4 < 0 { "crossing" } else { "touching" } } else { "apart" });
    let f = |a: I| Point2::new(a.0 as f64, a.1 as f64);
    for (n, (p, q, r, s)) in [(a, c, d, e), (c, a, d, e), (d, e, a, c), (e, d, c, a)].into_iter().enumerate() {
        let (l, m) = (Line::new(f(p), f(q)), Line::new(f(r), f(s)));
        ensure!(l.intersects(&m) == want, "intersects", "variant {n}: {}, expected {want}", !want);
        ensure!(*l.start() == f(p) && *l.end() == f(q) && l.tangent() == f(q) - f(p), "accessors", "start, end and tangent of {p:?}-{q:?}");
        let bb = l.bounding_rect();
        let want = (f(p).coords.inf(&f(q).coords), f(p).coords.sup(&f(q).coords));
        ensure!(*bb.min() == want.0 && *bb.max() == want.1, "box", "{bb:?} of {p:?}-{q:?}");
    }
    Ok(())
}

/// winding number by the crossings of the ray upwards, for points off the outline
fn winding(v: &[I], c: I) -> Option<i32> {
    let mut w = 0;
    for i in 0..v.len() {
        let (p, q) = (v[i], v[(i + 1) % v.len()]);
        let o = cross_i(p, q, c);
        if o == 0 && p.0.min(q.0) <= c.0 && c.0 <= p.0.max(q.0) && p.1.min(q.1) <= c.1 && c.1 <= p.1.max(q.1) {
            return None;
        }
        if p.0 <= c.0 && q.0 > c.0 && o < 0 {
            // to the right, above c
            w -= 1;
        } else if q.0 <= c.0 && p.0 > c.0 && o > 0 {
            w += 1;
        }
    }
    Some(w)
}
fn polygon(cx: &mut Cx) -> R {
    let b = *cx.src.pick(&[1usize, 2, 3, 5, 40]);
    let n = cx.src.int(3, 12);
    let mut v: Vec<I> = (0..n).map(|_| (gen_i(&mut cx.src, b), gen_i(&mut cx.src, b))).collect();
    if cx.src.bool() {
        // rectilinear: corners between consecutive vertices
        v = (0..n).flat_map(|i| vec![v[i], (v[(i + 1) % n].0, v[i].1)]).collect();
    }
    note!(cx, "{v:?}");
    let sc = *cx.src.pick(&[1f64, 0.5, 1024.]);
    let poly: PolygonBoundary<f64, nalgebra::Const<2>> = v.iter().map(|a| Point2::new(a.0 as f64 * sc, a.1 as f64 * sc)).collect();
    ensure!(poly.vertices().len() == v.len(), "vertices", "{} vertices", poly.vertices().len());
    let mut seen = (false, false);
    for i in 0..12 {
        let c = match i {
            0..=7 => (gen_i(&mut cx.src, b), gen_i(&mut cx.src, b)),
            8 => (gen_i(&mut cx.src, b + 1), gen_i(&mut cx.src, b + 1)),
            // level with a vertex or next to one
            _ => {
                let a = *cx.src.pick(&v);
                (a.0 + gen_i(&mut cx.src, 2), a.1 + *cx.src.pick(&[0, 0, 1, -1]))
            }
        };
        let Some(w) = winding(&v, c) else { continue };
        let want = w != 0;
        if want {
            seen.0 = true
        } else {
            seen.1 = true
        }
        let got = poly.contains(&Point2::new(c.0 as f64 * sc, c.1 as f64 * sc), ()).or_else(|e| fail("error", format!("{e}")))?;
        ensure!(got == want, "contains", "{c:?}: {got}, the winding number is {w}");
    }
    cx.nontrivial_if(seen.0 && seen.1);
    Ok(())
}

fn segment(cx: &mut Cx) -> R {
    let sc = 10f64.powi(cx.src.int(0, 12) as i32 - 6);
    let dim3 = cx.src.bool();
    let dim = if dim3 { 3 } else { 2 };
    let off = gen_point(&mut cx.src, dim, 1.);
    let k = *cx.src.pick(&[0., 0., 100.]);
    let g = |s: &mut Src| -> Vec<f64> { gen_point(s, dim, 10.).iter().zip(&off).map(|(a, b)| (a + k * b) * sc).collect() };
    let (a, mut b, mut q) = (g(&mut cx.src), g(&mut cx.src), g(&mut cx.src));
    if cx.src.chance(1, 10) {
        b = a.clone();
    }
    if cx.src.chance(1, 4) {
        q = lerp(&a, &b, *cx.src.pick(&[-0.5, 0., 0.25, 0.5, 1., 2.]));
    }
    let u0 = cx.src.coord(10.);
    let u1 = u0 + cx.src.coord(5.);
    note!(cx, "{a:?} {b:?} from {q:?} parameters {u0} {u1}");
    let (t, p) = if dim3 {
        let (t, p) = segment_closest_point(&p3(&q), &p3(&a), &p3(&b), u0, u1);
        (t, pv(&p))
    } else {
        let (t, p) = segment_closest_point(&p2(&q), &p2(&a), &p2(&b), u0, u1);
        (t, pv(&p))
    };
    let l = dist(&a, &b);
    if l > 0. && l < 1e-9 {
        return discard("a segment shorter than 1e-9");
    }
    let size = norm(&a).max(norm(&b)).max(norm(&q));
    let f = if l == 0. { 0. } else { (dot(&sub(&q, &a), &sub(&b, &a)) / (l * l)).clamp(0., 1.) };
    cx.label(if f == 0. { "start" } else if f == 1. { "end" } else { "inside" });
    cx.nontrivial_if(l > 0.);
    let want = lerp(&a, &b, f);
    let eps = 1e-13 * size * (1. + size / l.max(1e-300)).min(1e12);
    ensure!(dist(&p, &want) <= 1e-12 * size, "point", "{p:?}, expected {want:?}");
    let wt = u0 + (u1 - u0) * f;
    ensure!((t - wt).abs() <= 1e-12 * (1. + u0.abs()) + (u1 - u0).abs() * eps / l.max(1e-300), "parameter", "{t}, expected {wt}");
    Ok(())
}

fn flat(cx: &mut Cx) -> R {
    let dim3 = cx.src.bool();
    let dim = if dim3 { 3 } else { 2 };
    let a = gen_point(&mut cx.src, dim, 10.);
    let b = gen_point(&mut cx.src, dim, 10.);
    let line = cx.src.bool();
    let c = if line { lerp(&a, &b, cx.src.real(-1., 2.)) } else { gen_point(&mut cx.src, dim, 10.) };
    let tol = 10f64.powi(-(cx.src.int(0, 8) as i32));
    note!(cx, "{a:?} {b:?} {c:?} within {tol}");
    let (d, e) = (sub(&b, &a), sub(&c, &a));
    let area2 = (dot(&d, &d) * dot(&e, &e) - dot(&d, &e).powi(2)).max(0.).sqrt();
    // the tolerance bounds the area in the plane and its square in space
    let want = if line {
        true
    } else if area2 > 1.01 * tol.max(tol.sqrt()) {
        false
    } else if area2 < 0.99 * tol.min(tol * tol) && tol >= 1e-4 {
        true
    } else {
        return discard("neither clearly flat nor clearly not");
    };
    cx.label(if want { "flat" } else { "not flat" });
    cx.nontrivial_if(dist(&a, &b) > 0. && dist(&a, &c) > 0.);
    for p in [[&a, &b, &c], [&b, &c, &a], [&c, &b, &a]] {
        let got = if dim3 { three_points_are_flat(&p3(p[0]), &p3(p[1]), &p3(p[2]), tol) } else { three_points_are_flat(&p2(p[0]), &p2(p[1]), &p2(p[2]), tol) };
        ensure!(got == want, "flat", "{got} for {p:?}, twice the area is {area2}");
    }
    Ok(())
}

fn exact_binomial(n: usize, k: usize) -> f64 {
    if k > n {
        return 0.;
    }
    let mut r = 1u128;
    for i in 0..k.min(n - k) as u128 {
        r = r * (n as u128 - i) / (i + 1);
    }
    r as f64
}
fn binomials(cx: &mut Cx) -> R {
    let mut b = Binomial::<f64>::new();
    let mut c = Binomial::<f32>::new();
    let max = *cx.src.pick(&[5usize, 20, 60]);
    for _ in 0..12 {
        let n = cx.src.int(0, max);
        let k = cx.src.int(0, max + 1);
        let want = exact_binomial(n, k);
        note!(cx, "{n} over {k}");
        cx.nontrivial_if(k >= 2 && n >= k + 2);
        let (x, y, z) = (b.get(n, k), binomial(n, k), c.get(n, k) as f64);
        ensure!((x - want).abs() <= 1e-12 * want, "memoized", "Binomial {n} over {k} = {x}, expected {want}");
        ensure!((y - want).abs() <= 1e-12 * want, "plain", "binomial({n}, {k}) = {y}, expected {want}");
        ensure!((z - want).abs() <= 1e-4 * want, "single", "Binomial<f32> {n} over {k} = {z}, expected {want}");
    }
    Ok(())
}

fn gen_mesh(s: &mut Src, dim: usize) -> (Vec<Vec<f64>>, Vec<[usize; 3]>) {
    let n = s.int(0, 10);
    let sc = *s.pick(&[1., 1e-3, 1e4]);
    let v: Vec<_> = (0..n).map(|_| scale(&gen_point(s, dim, 10.), sc)).collect();
    let m = if n == 0 { 0 } else { s.int(0, 8) };
    let f = (0..m).map(|_| [s.int(0, n - 1), s.int(0, n - 1), s.int(0, n - 1)]).collect();
    (v, f)
}
fn area(v: &[Vec<f64>], f: &[[usize; 3]]) -> f64 {
    // Heron's formula in the numerically stable form by Kahan
    f.iter()
        .map(|t| {
            let mut e = [dist(&v[t[0]], &v[t[1]]), dist(&v[t[1]], &v[t[2]]), dist(&v[t[2]], &v[t[0]])];
            e.sort_by(|a, b| b.partial_cmp(a).unwrap());
            let [a, b, c] = e;
            ((a + (b + c)) * (c - (a - b)).max(0.) * (c + (a - b)) * (a + (b - c))).max(0.).sqrt() / 4.
        })
        .sum()
}
fn mesh(cx: &mut Cx) -> R {
    let dim = if cx.src.bool() { 3 } else { 2 };
    let n = cx.src.int(1, 4);
    let parts: Vec<_> = (0..n).map(|_| gen_mesh(&mut cx.src, dim)).collect();
    note!(cx, "{parts:?}");
    macro_rules! go {
        ($p:ident, $d:expr) => {{
            let ms: Vec<PolygonMesh<f64, nalgebra::Const<$d>>> = parts.iter().map(|(v, f)| PolygonMesh::new(v.iter().map(|p| $p(p)).collect(), f.clone())).collect();
            let mut total = 0.;
            for (m, (v, f)) in ms.iter().zip(&parts) {
                let w = area(v, f);
                total += w;
                let big = v.iter().map(|p| norm(p)).fold(0., f64::max);
                ensure!((m.area() - w).abs() <= 1e-6 * (w + big * big), "area", "{} expected {w}", m.area());
                let tr: Vec<Vec<Vec<f64>>> = m.triangles().iter().map(|t| t.iter().map(pv).collect()).collect();
                let want: Vec<Vec<Vec<f64>>> = f.iter().map(|t| t.iter().map(|i| v[*i].clone()).collect()).collect();
                ensure!(tr == want, "triangles", "{tr:?}");
            }
            let triangles: Vec<_> = ms.iter().flat_map(|m| m.triangles()).collect();
            let sum: PolygonMesh<f64, nalgebra::Const<$d>> = ms.iter().cloned().sum();
            let big: f64 = parts.iter().flat_map(|p| p.0.iter()).map(|p| norm(p)).fold(0., f64::max);
            ensure!(sum.vertices().len() == parts.iter().map(|p| p.0.len()).sum::<usize>(), "vertices", "{} vertices", sum.vertices().len());
            ensure!(sum.faces().iter().all(|f| f.iter().all(|i| *i < sum.vertices().len())), "faces", "{:?}", sum.faces());
            ensure!(sum.triangles() == triangles, "sum", "{:?}, expected {triangles:?}", sum.triangles());
            ensure!((sum.area() - total).abs() <= 1e-6 * (total + big * big), "sum-area", "{} expected {total}", sum.area());
        }};
    }
    if dim == 3 {
        go!(p3, 3)
    } else {
        go!(p2, 2)
    }
    cx.nontrivial_if(n >= 2 && parts[1..].iter().any(|p| !p.1.is_empty()) && !parts[0].0.is_empty());
    Ok(())
}

fn lists(cx: &mut Cx) -> R {
    // the table of control points
    let (m, n) = (cx.src.int(1, 6), cx.src.int(1, 6));
    let rows: Vec<Vec<nalgebra::Point3<f64>>> = (0..m).map(|_| (0..n).map(|_| p3(&gen_point(&mut cx.src, 3, 5.))).collect()).collect();
    let t = transpose_control_points(&rows);
    ensure!(t.len() == n && t.iter().all(|r| r.len() == m), "shape", "{} rows", t.len());
    ensure!((0..m).all(|i| (0..n).all(|j| t[j][i] == rows[i][j])), "transpose", "{t:?} of {rows:?}");
    cx.nontrivial_if(m >= 2 && n >= 2);
    // the parameters a tessellation has to contain
    let mut g = |s: &mut Src| -> Option<Vec<f64>> {
        s.bool().then(|| {
            let mut v: Vec<f64> = (0..s.int(0, 5)).map(|_| s.grid(0., 1., 0.125)).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            v
        })
    };
    let l: Vec<_> = (0..4).map(|_| g(&mut cx.src)).collect();
    note!(cx, "{l:?}");
    let mut b = BoundaryConstraints::new();
    if let Some(x) = &l[0] {
        b = b.with_u_parameters_at_v_min(x.clone());
    }
    if let Some(x) = &l[1] {
        b = b.with_u_parameters_at_v_max(x.clone());
    }
    if let Some(x) = &l[2] {
        b = b.with_v_parameters_at_u_min(x.clone());
    }
    if let Some(x) = &l[3] {
        b = b.with_v_parameters_at_u_max(x.clone());
    }
    ensure!([b.u_parameters_at_v_min(), b.u_parameters_at_v_max(), b.v_parameters_at_u_min(), b.v_parameters_at_u_max()].map(|x| x.cloned())[..] == l[..], "sides", "{b:?}");
    let union = |a: &Option<Vec<f64>>, b: &Option<Vec<f64>>| {
        if a.is_none() && b.is_none() {
            return None;
        }
        let mut v: Vec<f64> = a.iter().chain(b.iter()).flatten().cloned().collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        Some(v)
    };
    ensure!(b.u_parameters() == union(&l[0], &l[1]), "u-union", "{:?}", b.u_parameters());
    ensure!(b.v_parameters() == union(&l[2], &l[3]), "v-union", "{:?}", b.v_parameters());
    Ok(())
}

fn ray(cx: &mut Cx) -> R {
    let mut g = |s: &mut Src| -> Vec<f64> { (0..3).map(|_| s.grid(-4., 4., 1.)).collect() };
    let (o, d, p) = (g(&mut cx.src), g(&mut cx.src), g(&mut cx.src));
    let e = if cx.src.chance(1, 3) { scale(&d, *cx.src.pick(&[1., -1., 2., -0.5])) } else { g(&mut cx.src) };
    if norm(&d) == 0. || norm(&e) == 0. {
        return discard("no direction");
    }
    note!(cx, "{o:?}+t{d:?} and {p:?}+t{e:?}");
    let parallel = norm(&cross(&d, &e)) == 0.;
    cx.label(if parallel { "parallel" } else { "not parallel" });
    cx.nontrivial();
    let (a, b) = (Ray::new(p3(&o), v3(&d)), Ray::new(p3(&p), v3(&e)));
    ensure!(a.find_intersection(&b).is_none() == parallel, "parallel", "intersection found: {}", parallel);
    let (d2, e2) = (Vector2::new(d[0], d[1]), Vector2::new(e[0], e[1]));
    if d2.norm() > 0. && e2.norm() > 0. {
        let (a, b) = (Ray::new(p2(&o), d2), Ray::new(p2(&p), e2));
        ensure!(a.find_intersection(&b).is_none() == (d2.perp(&e2) == 0.), "parallel-2d", "intersection found: {}", d2.perp(&e2) == 0.);
    }
    let t = cx.src.coord(3.);
    let want = Vector3::new(o[0] + t * d[0], o[1] + t * d[1], o[2] + t * d[2]);
    ensure!((a.point_at(t).coords - want).norm() < 1e-12 && a.origin().coords == v3(&o) && *a.direction() == v3(&d), "point", "at {t}: {:?}", a.point_at(t));
    Ok(())
}

static LAWS: &[Law] = &[
    Law::new("orient", 2_000_000, orient),
    Law::new("line", 1_500_000, line),
    Law::new("polygon", 800_000, polygon),
    Law::new("segment", 2_000_000, segment),
    Law::new("flat", 1_000_000, flat),
    Law::new("binomials", 60_000, binomials),
    Law::new("mesh", 400_000, mesh),
    Law::new("lists", 300_000, lists),
    Law::new("ray", 500_000, ray),
];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C35",
        rule: "integer points in and nearly in line, segments touching at ends, polygons with level edges and windings, random segments, meshes and queries; non-trivial = distinct points, nearly meeting segments, points on both sides of a polygon, proper meshes",
        assumptions: &["segments on one line are not asked to intersect", "points on the outline of a polygon are not asked", "the result of a ray intersection is not accessible, only its existence is checked"],
        laws: LAWS,
        probes: &[],
    })
}
