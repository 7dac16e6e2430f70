//! C28 tessellation of surfaces
use curvo_verif::prelude::*;
use std::collections::{HashMap, HashSet};
use std::f64::consts::TAU;

type Tess = SurfaceTessellation3D<f64>;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
fn options(cx: &mut Cx, deep: bool) -> Option<AdaptiveTessellationOptions<f64>> {
    if cx.src.chance(1, 5) {
        cx.label("plain");
        return None;
    }
    let min_depth = if cx.src.chance(1, 4) { cx.src.int(1, 3) } else { 0 };
    cx.label_if(min_depth > 0, "min-depth");
    Some(AdaptiveTessellationOptions {
        norm_tolerance: cx.src.log_real(1e-3, 0.5),
        min_divs_u: cx.src.int(1, 6),
        min_divs_v: cx.src.int(1, 6),
        min_depth,
        max_depth: if deep { 14 } else { cx.src.int(0, 6) },
    })
}
/// keys of parameters: equal up to rounding
struct Keys {
    d: ((f64, f64), (f64, f64)),
}
impl Keys {
    fn key(&self, u: f64, v: f64) -> (i64, i64) {
        let ((a, b), (c, d)) = self.d;
        (((u - a) / (b - a) * 1e9).round() as i64, ((v - c) / (d - c) * 1e9).round() as i64)
    }
}
/// vertices on the surface with its normals; triangles tile the domain without gaps or overlaps,
/// turn the same way as the parameters and meet edge to edge
fn sound(r: &RSurface, t: &Tess) -> R {
    let d = r.domain();
    let ((a, b), (c, e)) = d;
    let (pts, ns, uvs) = (t.points(), t.normals(), t.uvs());
    ensure!(pts.len() == ns.len() && pts.len() == uvs.len(), "lengths", "{} points, {} normals, {} parameters", pts.len(), ns.len(), uvs.len());
    ensure!(t.faces().iter().flatten().all(|i| *i < pts.len()), "indices", "a face has a vertex that does not exist");
    let sc = r.scale();
    for i in 0..pts.len() {
        let (u, v) = (uvs[i].x, uvs[i].y);
        ensure!(u >= a - 1e-9 * (b - a) && u <= b + 1e-9 * (b - a) && v >= c - 1e-9 * (e - c) && v <= e + 1e-9 * (e - c), "uv-domain", "parameters ({u},{v}) outside {d:?}");
        let (u, v) = (u.clamp(a, b), v.clamp(c, e));
        let p = pv(&pts[i]);
        ensure!(dist(&p, &r.point(u, v)) <= 1e-8 * sc, "on-surface", "vertex {p:?}, the surface at ({u},{v}): {:?}", r.point(u, v));
        let n = vv(&ns[i]);
        ensure!(n.iter().all(|x| x.is_finite()), "finite-normal", "normal {n:?} at ({u},{v})");
    }
    normals(r, t)?;
    tiles(r, t, 1e-13)
}
/// (pieces next to a constrained side may have lost a corner: no area then)
fn tiles(r: &RSurface, t: &Tess, least: f64) -> R {
    let d = r.domain();
    let ((a, b), (c, e)) = d;
    let (pts, uvs) = (t.points(), t.uvs());
    let sc = r.scale();
    let k = Keys { d };
    let mut edges: HashMap<[(i64, i64); 2], [usize; 2]> = HashMap::new();
    let folded = least == f64::NEG_INFINITY;
    let mut balance: HashMap<[(i64, i64); 2], i64> = HashMap::new();
    let mut total = 0.;
    for f in t.faces() {
        let q: Vec<(f64, f64)> = f.iter().map(|i| ((uvs[*i].x - a) / (b - a), (uvs[*i].y - c) / (e - c))).collect();
        let area = 0.5 * ((q[1].0 - q[0].0) * (q[2].1 - q[0].1) - (q[1].1 - q[0].1) * (q[2].0 - q[0].0));
        let same = |i: usize, j: usize| k.key(uvs[f[i]].x, uvs[f[i]].y) == k.key(uvs[f[j]].x, uvs[f[j]].y);
        if least < 0. && (same(0, 1) || same(1, 2) || same(2, 0)) {
            continue;
        }
        ensure!(area > least, "orientation", "triangle {f:?} at {q:?} has area {area} in the parameter plane");
        total += area;
        for i in 0..3 {
            let (x, y) = (f[i], f[(i + 1) % 3]);
            let e = [k.key(uvs[x].x, uvs[x].y), k.key(uvs[y].x, uvs[y].y)];
            *balance.entry(e).or_default() += 1;
            *balance.entry([e[1], e[0]]).or_default() -= 1;
            ensure!(edges.insert(e, [x, y]).is_none() || folded, "overlap", "the edge from {:?} to {:?} belongs to two triangles on the same side", uvs[x], uvs[y]);
        }
    }
    ensure!((total - 1.).abs() <= 1e-9, "area", "the triangles cover {total} of the parameter domain");
    for (e, [x, y]) in &edges {
        let border = (e[0].0 == e[1].0 && (e[0].0 == 0 || e[0].0 == 1_000_000_000)) || (e[0].1 == e[1].1 && (e[0].1 == 0 || e[0].1 == 1_000_000_000));
        match edges.get(&[e[1], e[0]]) {
            _ if folded => ensure!(border || balance[e] == 0, "crack", "the edge from {:?} to {:?} has more triangles on one side", uvs[*x], uvs[*y]),
            None => ensure!(border, "crack", "the edge from {:?} to {:?} has no triangle on its other side", uvs[*x], uvs[*y]),
            Some([z, w]) => {
                ensure!(dist(&pv(&pts[*x]), &pv(&pts[*w])) <= 1e-8 * sc && dist(&pv(&pts[*y]), &pv(&pts[*z])) <= 1e-8 * sc, "gap", "triangles part at the edge from {:?} to {:?}", uvs[*x], uvs[*y])
            }
        }
    }
    Ok(())
}
/// where the partial derivatives are clear of being parallel or zero, the normal is their product's
fn normals(r: &RSurface, t: &Tess) -> R {
    let ((a, b), (c, e)) = r.domain();
    for i in 0..t.points().len() {
        let (u, v) = (t.uvs()[i].x.clamp(a, b), t.uvs()[i].y.clamp(c, e));
        // (a kink has several normals)
        if r.u_axis().interior().iter().any(|k| (k.0 - u).abs() < 1e-9 * (b - a) && k.1 >= r.du) || r.v_axis().interior().iter().any(|k| (k.0 - v).abs() < 1e-9 * (e - c) && k.1 >= r.dv) {
            continue;
        }
        let side = |x: f64, m: f64| if x >= m { Side::Left } else { Side::Right };
        let d = r.derivs(u, v, 1, side(u, b), side(v, e));
        let (su, sv) = (&d[1][0], &d[0][1]);
        let w = cross(su, sv);
        if norm(&w) > 1e-5 * (1. + norm(su)) * (1. + norm(sv)) && norm(&w) > 1e-3 {
            let n = vv(&t.normals()[i]);
            ensure!((norm(&n) - 1.).abs() <= 1e-6 && dist(&n, &unit(&w)) <= 1e-4, "normal", "normal {n:?} at ({u},{v}), expected {:?}", unit(&w));
        }
    }
    Ok(())
}

fn wild(cx: &mut Cx) -> R {
    let r = if cx.src.bool() {
        gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 3), ..Opt::default() })
    } else {
        let amp = cx.src.real(0.2, 6.);
        gen_height_field(&mut cx.src, Opt { deg: (1, 3), extra: (0, 3), ..Opt::default() }, amp)
    };
    let o = options(cx, false);
    note!(cx, "surface {r:?} options {o:?}");
    let t = s3(&r).tessellate(o);
    cx.nontrivial_if(t.faces().len() > 2 * r.cps.len() * r.cps[0].len());
    sound(&r, &t)
}

struct Smooth {
    name: &'static str,
    s: S3,
}
/// surfaces without kinks, some with poles
fn smooth_surface(s: &mut Src) -> Result<Smooth, Fail> {
    let (x, y) = gen_frame(s);
    let z = cross(&x, &y);
    let o = gen_point(s, 3, 5.);
    let r = s.log_real(0.3, 8.);
    let th = if s.bool() { TAU } else { s.real(0.5, TAU) };
    Ok(match s.draw(5) {
        0 => Smooth { name: "sphere", s: NurbsSurface3D::try_sphere(&p3(&o), &v3(&x), &v3(&y), r).map_err(err("sphere"))? },
        1 => {
            let c = NurbsCurve3D::try_circle(&p3(&o), &v3(&x), &v3(&y), r).map_err(err("circle"))?;
            Smooth { name: "cylinder", s: NurbsSurface3D::extrude(&c, &v3(&scale(&z, r))) }
        }
        2 => {
            let ring = add(&o, &scale(&x, r * s.real(2., 4.)));
            let c = NurbsCurve3D::try_circle(&p3(&ring), &v3(&x), &v3(&z), r).map_err(err("circle"))?;
            Smooth { name: "torus", s: NurbsSurface3D::try_revolve(&c, &p3(&o), &v3(&z), th).map_err(err("revolve"))? }
        }
        3 => {
            // a cone with its tip at the start or the end
            let tip = add(&o, &scale(&z, r));
            let foot = add(&o, &scale(&x, r * s.real(0.5, 2.)));
            let c = NurbsCurve3D::polyline(&if s.bool() { [p3(&tip), p3(&foot)] } else { [p3(&foot), p3(&tip)] }, true);
            Smooth { name: "cone", s: NurbsSurface3D::try_revolve(&c, &p3(&o), &v3(&z), th).map_err(err("revolve"))? }
        }
        _ => {
            let amp = s.real(0.2, 4.);
            let r = gen_height_field(s, Opt { deg: (2, 3), extra: (0, 3), unclamped: false, mult: 1, rational: false, ..Opt::default() }, amp);
            Smooth { name: "field", s: s3(&r) }
        }
    })
}
/// deep enough, the normals do not differ by more than the tolerance along the sides of a piece
fn smooth(cx: &mut Cx) -> R {
    let Smooth { name, s } = smooth_surface(&mut cx.src)?;
    let r = rs3(&s);
    let mut o = options(cx, true);
    if let Some(o) = o.as_mut() {
        o.norm_tolerance = o.norm_tolerance.max(5e-3);
    }
    note!(cx, "{name} {r:?} options {o:?}");
    cx.label(name);
    let t = s.tessellate(o.clone());
    cx.nontrivial_if(t.faces().len() > 16);
    sound(&r, &t)?;
    for n in t.normals() {
        ensure!((n.norm() - 1.).abs() <= 1e-6, "unit-normal", "normal {n:?}");
    }
    if let Some(o) = o {
        // (a bump in the middle of a piece shows at its centre only)
        let lim = if name == "field" { 4. } else { 2.05 } * o.norm_tolerance.sqrt() + 1e-6;
        let ((a, b), (c, e)) = r.domain();
        let pole = |i: usize| {
            let (u, v) = (t.uvs()[i].x.clamp(a, b), t.uvs()[i].y.clamp(c, e));
            let side = |x: f64, m: f64| if x >= m { Side::Left } else { Side::Right };
            let d = r.derivs(u, v, 1, side(u, b), side(v, e));
            norm(&cross(&d[1][0], &d[0][1])) < 1e-6
        };
        for f in t.faces() {
            if f.iter().any(|i| pole(*i)) {
                continue;
            }
            for k in 0..3 {
                let (x, y) = (f[k], f[(k + 1) % 3]);
                let (n, m) = (vv(&t.normals()[x]), vv(&t.normals()[y]));
                ensure!(dist(&n, &m) <= lim, "smooth", "normals {n:?} and {m:?} at {:?} and {:?} differ by {} (limit {lim})", t.uvs()[x], t.uvs()[y], dist(&n, &m));
            }
        }
    }
    Ok(())
}

/// minimum divisions and depths
fn depth(cx: &mut Cx) -> R {
    let r = gen_height_field(&mut cx.src, Opt { deg: (1, 3), extra: (0, 2), ..Opt::default() }, 2.);
    let o = AdaptiveTessellationOptions { norm_tolerance: cx.src.log_real(1e-3, 0.5), min_divs_u: cx.src.int(1, 8), min_divs_v: cx.src.int(1, 8), min_depth: cx.src.int(0, 3), max_depth: cx.src.int(0, 6) };
    note!(cx, "surface {r:?} options {o:?}");
    cx.nontrivial_if(o.min_depth > 0 && o.min_divs_u != o.min_divs_v);
    let s = s3(&r);
    let grid = s.tessellate(Some(AdaptiveTessellationOptions { min_depth: 0, max_depth: 0, ..o.clone() }));
    let count = |f: &dyn Fn(usize) -> f64| {
        let mut v: Vec<f64> = (0..grid.uvs().len()).map(f).collect();
        v.sort_by(f64::total_cmp);
        v.dedup_by(|x, y| (*x - *y).abs() < 1e-12);
        v.len() - 1
    };
    let (nu, nv) = (count(&|i| grid.uvs()[i].x), count(&|i| grid.uvs()[i].y));
    ensure!(grid.faces().len() == 2 * nu * nv, "grid", "{} triangles for a grid of {nu} x {nv}", grid.faces().len());
    // (a linear direction is divided at its knots)
    ensure!(r.du == 1 || nu >= o.min_divs_u, "min-divs-u", "{nu} divisions, {} wanted", o.min_divs_u);
    ensure!(r.dv == 1 || nv >= o.min_divs_v, "min-divs-v", "{nv} divisions, {} wanted", o.min_divs_v);
    let t = s.tessellate(Some(o.clone()));
    let least = grid.faces().len() << o.min_depth;
    ensure!(t.faces().len() >= least, "min-depth", "{} triangles, at least {least} wanted", t.faces().len());
    // a piece has a vertex at each end of its sides and may have one more for every piece next to it
    let deepest = o.max_depth.max(o.min_depth);
    let flat = s.tessellate(Some(AdaptiveTessellationOptions { min_depth: deepest, max_depth: deepest, ..o.clone() }));
    ensure!(flat.faces().len() == grid.faces().len() << deepest, "even-depth", "{} triangles, {} wanted", flat.faces().len(), grid.faces().len() << deepest);
    Ok(())
}

/// the given parameters and no others on the constrained sides; the triangles tile the domain
/// (when the parameters given include the grid's own: others are moved to the nearest given,
/// which may fold triangles, see the probe)
fn constrained(cx: &mut Cx) -> R {
    let amp = cx.src.real(0.2, 3.);
    let r = gen_height_field(&mut cx.src, Opt { deg: (1, 3), extra: (0, 2), ..Opt::default() }, amp);
    let ((a, b), (c, e)) = r.domain();
    let o = options(cx, false);
    let fine = cx.src.bool();
    let mut list = |lo: f64, hi: f64, knots: &[f64], deg: usize, n: usize, divs: usize| -> Option<Vec<f64>> {
        if cx.src.chance(1, 3) {
            return None;
        }
        if fine {
            let divs = divs.max(n - 1);
            let mut v: Vec<f64> = if deg == 1 { knots[1..=n].to_vec() } else { (0..=divs).map(|i| if i == divs { hi } else { lo + (hi - lo) * i as f64 / divs as f64 }).collect() };
            for _ in 0..cx.src.int(0, 4) {
                let x = lo + (hi - lo) * cx.src.real(0.01, 0.99);
                if v.iter().all(|y| (x - y).abs() > 1e-3 * (hi - lo)) {
                    v.push(x);
                }
            }
            v.sort_by(f64::total_cmp);
            return Some(v);
        }
        let n = cx.src.int(1, 7);
        let even = cx.src.bool();
        let mut v: Vec<f64> = (1..n).map(|i| lo + (hi - lo) * if even { i as f64 / n as f64 } else { cx.src.real(0.02, 0.98) }).collect();
        v.extend([lo, hi]);
        v.sort_by(f64::total_cmp);
        v.dedup_by(|x, y| (*x - *y).abs() < 1e-3 * (hi - lo));
        if *v.last().unwrap() != hi {
            v.pop();
            v.push(hi);
        }
        Some(v)
    };
    let (nu, nv) = (r.cps.len(), r.cps[0].len());
    let (mu, mv) = o.as_ref().map(|o| (o.min_divs_u, o.min_divs_v)).unwrap_or((1, 1));
    let (mut umin, mut umax) = (list(c, e, &r.kv, r.dv, nv, mv), list(c, e, &r.kv, r.dv, nv, mv));
    let (mut vmin, mut vmax) = (list(a, b, &r.ku, r.du, nu, mu), list(a, b, &r.ku, r.du, nu, mu));
    if fine {
        if umin.is_some() && umax.is_some() {
            umax = umin.clone();
        }
        if vmin.is_some() && vmax.is_some() {
            vmax = vmin.clone();
        }
    }
    cx.label(if fine { "fine" } else { "coarse" });
    let _ = (&mut umin, &mut vmin);
    note!(cx, "surface {r:?} v at u min {umin:?}, v at u max {umax:?}, u at v min {vmin:?}, u at v max {vmax:?} options {o:?}");
    let mut k = BoundaryConstraints::new();
    let mut n = 0;
    if let Some(p) = &umin {
        k = k.with_v_parameters_at_u_min(p.clone());
        n += 1;
    }
    if let Some(p) = &umax {
        k = k.with_v_parameters_at_u_max(p.clone());
        n += 1;
    }
    if let Some(p) = &vmin {
        k = k.with_u_parameters_at_v_min(p.clone());
        n += 1;
    }
    if let Some(p) = &vmax {
        k = k.with_u_parameters_at_v_max(p.clone());
        n += 1;
    }
    cx.label(["free", "one-side", "two-sides", "three-sides", "four-sides"][n]);
    cx.nontrivial_if(n > 0);
    let t = s3(&r).constrained_tessellate(k, o);
    tiles(&r, &t, if fine { 1e-13 } else { f64::NEG_INFINITY })?;
    let keys = Keys { d: r.domain() };
    let on: HashSet<(i64, i64)> = t.uvs().iter().map(|w| keys.key(w.x, w.y)).collect();
    const M: i64 = 1_000_000_000;
    for (name, given, u, at) in [("u-min", &umin, true, 0), ("u-max", &umax, true, M), ("v-min", &vmin, false, 0), ("v-max", &vmax, false, M)] {
        let Some(given) = given else { continue };
        let want: HashSet<i64> = given.iter().map(|p| if u { keys.key(a, *p).1 } else { keys.key(*p, c).0 }).collect();
        let got: HashSet<i64> = on.iter().filter(|k| (if u { k.0 } else { k.1 }) == at).map(|k| if u { k.1 } else { k.0 }).collect();
        // what other sides ask for runs across, and is moved to the nearest of the given
        let missing: Vec<_> = want.difference(&got).collect();
        let extra: Vec<_> = got.difference(&want).collect();
        ensure!(missing.is_empty(), format!("constraint-missing-{name}"), "no vertices at {missing:?} (billionths of the domain)");
        ensure!(extra.is_empty(), format!("constraint-extra-{name}"), "vertices at {extra:?} (billionths of the domain) were not asked for");
    }
    Ok(())
}

/// KNOWN: snapping to sparse boundary parameters folds triangles
fn fold() -> R {
    let k = vec![0., 0., 0., 0., 1., 1., 1., 1.];
    let r = RSurface { du: 3, dv: 3, ku: k.clone(), kv: k, cps: (0..4).map(|i| (0..4).map(|j| vec![i as f64, j as f64, if (i, j) == (0, 2) { 0.2 } else { 0. }, 1.]).collect()).collect() };
    let k = BoundaryConstraints::new().with_v_parameters_at_u_min(vec![0., 1.]).with_u_parameters_at_v_min(vec![0., 0.02, 1.]).with_u_parameters_at_v_max(vec![0., 1.]);
    let t = s3(&r).constrained_tessellate(k, Some(AdaptiveTessellationOptions { norm_tolerance: 1e-3, max_depth: 2, ..Default::default() }));
    // (anything else than a fold is for the law)
    tiles(&r, &t, -1e-12).or_else(|f| if f.sig == "orientation" { Err(f) } else { Ok(()) })
}

static LAWS: &[Law] = &[Law::new("wild", 2_000, wild), Law::new("smooth", 250, smooth), Law::new("depth", 3_000, depth), Law::new("constrained", 10_000, constrained)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C28",
        rule: "wild surfaces and height fields of degrees 1-3 (clamped or not, rational or not), spheres, cylinders, tori, cones and smooth fields in random frames; options: none, tolerances 1e-3 to 0.5, 1-6 minimum divisions, minimum depth 0-3, maximum depth 0-14; boundary parameters on any subset of the sides, sparse or including the grid's own; non-trivial = refined beyond the initial grid, at least one constrained side",
        assumptions: &["surfaces in 3D (the normals of the mesh are cross products)", "normals are compared where the surface has one: not at poles and kinks", "with sparse boundary parameters the triangles next to that side may fold (known finding): only the vertices of the side are checked then"],
        laws: LAWS,
        probes: &[Probe { key: "constrained-fold", f: fold }],
    })
}
