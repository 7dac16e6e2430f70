//! Structured generators.
use crate::bridge::{Affine, AC};
use crate::engine::Src;
use crate::refm::{dist, proj, RCurve, RSurface};

#[derive(Clone, Copy)]
pub struct Opt {
    pub dim: Option<usize>,
    pub deg: (usize, usize),
    /// control points beyond degree + 1
    pub extra: (usize, usize),
    pub rational: bool,
    pub unclamped: bool,
    pub radius: f64,
    /// largest interior knot multiplicity (capped by degree)
    pub mult: usize,
    pub domain: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { dim: None, deg: (1, 5), extra: (0, 7), rational: true, unclamped: true, radius: 10., mult: 9, domain: true }
    }
}

/// domain of a knot vector
pub fn gen_domain(s: &mut Src, vary: bool) -> (f64, f64) {
    if !vary {
        return (0., 1.);
    }
    match s.draw(5) {
        0 | 1 => (0., 1.),
        2 => (0., s.int(1, 12) as f64),
        3 => {
            let a = s.coord(8.);
            (a, a + s.log_real(0.2, 20.))
        }
        _ => {
            let a = -(s.int(0, 6) as f64);
            (a, a + s.int(1, 9) as f64)
        }
    }
}

/// checks that need no search on the generated shape also see knots close to one another:
/// such spans are 1e-2 to 1e-3 of the others
static CLOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn close_knots() {
    CLOSE.store(true, std::sync::atomic::Ordering::Relaxed);
}

/// `m` interior knots counted with multiplicity, none above `maxmult`
fn interior(s: &mut Src, m: usize, maxmult: usize) -> Vec<f64> {
    // relative positions in (0, 1)
    let mut gaps = vec![];
    let mut mults = vec![];
    let mut left = m;
    while left > 0 {
        let k = if s.chance(1, 3) { s.int(1, maxmult.max(1)) } else { 1 };
        let k = k.min(left);
        mults.push(k);
        left -= k;
    }
    let uniform = s.bool();
    let close = CLOSE.load(std::sync::atomic::Ordering::Relaxed);
    for _ in 0..=mults.len() {
        gaps.push(if uniform {
            1.
        } else if close && s.chance(1, 12) {
            10f64.powi(-(s.int(2, 3) as i32))
        } else {
            s.real(0.1, 2.)
        });
    }
    let tot: f64 = gaps.iter().sum();
    let mut acc = 0.;
    let mut out = vec![];
    for (i, k) in mults.iter().enumerate() {
        acc += gaps[i];
        for _ in 0..*k {
            out.push(acc / tot);
        }
    }
    out
}

pub fn gen_clamped_knots(s: &mut Src, degree: usize, ncp: usize, maxmult: usize, vary: bool) -> Vec<f64> {
    let (a, b) = gen_domain(s, vary);
    let mid = interior(s, ncp - degree - 1, maxmult.min(degree));
    let mut k = vec![a; degree + 1];
    k.extend(mid.iter().map(|x| a + (b - a) * x));
    k.extend(vec![b; degree + 1]);
    k
}

/// knots which are not repeated at the ends, but sometimes anywhere else, the ends of the domain included
pub fn gen_unclamped_knots(s: &mut Src, degree: usize, ncp: usize) -> Vec<f64> {
    let uniform = s.bool();
    let mut x = if s.bool() { 0. } else { s.coord(5.) };
    let n = ncp + degree + 1;
    let mut distinct = |s: &mut Src| {
        let r = x;
        x += if uniform { 1. } else { s.real(0.1, 2.) };
        r
    };
    let mut k: Vec<f64> = (0..n).map(|_| distinct(s)).collect();
    if degree > 1 && s.chance(1, 3) {
        // repeat a few knots, at most as often as the degree allows
        for _ in 0..s.int(1, 3) {
            let i = s.int(1, n - 2);
            let m = s.int(1, degree - 1).min(n - 2 - i);
            let repeated = k[i];
            let count = k.iter().filter(|x| **x == repeated).count();
            let extra = k[i + 1..=i + m].iter().filter(|x| **x != repeated).count();
            let after = k[i + m];
            let cut = m < n - 2 - i && k[i + m + 1] == after;
            if count + extra <= degree && !cut {
                k[i + 1..=i + m].iter_mut().for_each(|x| *x = repeated);
                if k[degree] == k[ncp] {
                    // keep the domain
                    k[ncp..].iter_mut().enumerate().for_each(|(i, x)| *x = repeated + (i + 1) as f64);
                }
            }
        }
    }
    k
}

/// one end clamped, the other not
pub fn gen_half_clamped_knots(s: &mut Src, degree: usize, ncp: usize) -> Vec<f64> {
    let mut k = gen_unclamped_knots(s, degree, ncp);
    let n = k.len();
    // the ends of the domain have been repeated already: one copy more would be too many
    let repeated = [k[degree] == k[degree + 1], k[ncp] == k[ncp - 1]];
    let at_start = s.bool();
    if at_start && !repeated[0] || repeated[1] && !repeated[0] {
        for i in 0..degree {
            k[i] = k[degree];
        }
    } else if !repeated[1] {
        for i in 0..degree {
            k[n - 1 - i] = k[n - 1 - degree];
        }
    }
    k
}

pub fn gen_point(s: &mut Src, dim: usize, r: f64) -> Vec<f64> {
    (0..dim).map(|_| s.coord(r)).collect()
}

pub fn gen_weights(s: &mut Src, n: usize, rational: bool) -> Vec<f64> {
    if !rational {
        return vec![1.; n];
    }
    match s.draw(4) {
        0 => vec![1.; n],
        1 => {
            let w = s.log_real(0.3, 4.);
            vec![w; n]
        }
        _ => (0..n).map(|_| s.log_real(0.25, 4.)).collect(),
    }
}

pub fn hom(p: &[f64], w: f64) -> Vec<f64> {
    let mut v: Vec<f64> = p.iter().map(|x| x * w).collect();
    v.push(w);
    v
}

pub fn gen_curve(s: &mut Src, o: Opt) -> RCurve {
    let dim = o.dim.unwrap_or_else(|| 2 + s.draw(2) as usize);
    let degree = s.int(o.deg.0, o.deg.1);
    let ncp = degree + 1 + s.int(o.extra.0, o.extra.1);
    let kind = if o.unclamped { s.draw(8) } else { 0 };
    let knots = match kind {
        6 => gen_unclamped_knots(s, degree, ncp),
        7 => gen_half_clamped_knots(s, degree, ncp),
        _ => gen_clamped_knots(s, degree, ncp, o.mult, o.domain),
    };
    let w = gen_weights(s, ncp, o.rational);
    let cps = (0..ncp).map(|i| hom(&gen_point(s, dim, o.radius), w[i])).collect();
    RCurve { degree, knots, cps }
}

pub fn gen_surface(s: &mut Src, dim: usize, o: Opt) -> RSurface {
    let du = s.int(o.deg.0, o.deg.1);
    let dv = s.int(o.deg.0, o.deg.1);
    let nu = du + 1 + s.int(o.extra.0, o.extra.1);
    let nv = dv + 1 + s.int(o.extra.0, o.extra.1);
    let kn = |s: &mut Src, d: usize, n: usize| {
        if o.unclamped && s.chance(1, 6) {
            gen_unclamped_knots(s, d, n)
        } else {
            gen_clamped_knots(s, d, n, o.mult, o.domain)
        }
    };
    let ku = kn(s, du, nu);
    let kv = kn(s, dv, nv);
    let rational = o.rational && s.bool();
    let cps = (0..nu)
        .map(|_| {
            let w = gen_weights(s, nv, rational);
            (0..nv).map(|j| hom(&gen_point(s, dim, o.radius), w[j])).collect()
        })
        .collect();
    RSurface { du, dv, ku, kv, cps }
}

/// A height field over a rectangle: a regular (non-degenerate, non-folding) surface.
pub fn gen_height_field(s: &mut Src, o: Opt, amp: f64) -> RSurface {
    let mut r = gen_surface(s, 3, o);
    let g = |k: &[f64], d: usize, n: usize| -> Vec<f64> {
        // Greville abscissae, scaled to [0, 8]
        let g: Vec<f64> = (0..n).map(|i| k[i + 1..=i + d].iter().sum::<f64>() / d as f64).collect();
        let (a, b) = (g[0], g[n - 1]);
        g.iter().map(|x| (x - a) / (b - a) * 8.).collect()
    };
    let gu = g(&r.ku, r.du, r.cps.len());
    let gv = g(&r.kv, r.dv, r.cps[0].len());
    for i in 0..gu.len() {
        for j in 0..gv.len() {
            let w = r.cps[i][j][3];
            let z = r.cps[i][j][2] / w * (amp / o.radius);
            r.cps[i][j] = hom(&[gu[i], gv[j], z], w);
        }
    }
    r
}

/// parameter inside the closed domain; biased to ends, knots and midpoints
pub fn gen_param(s: &mut Src, a: f64, b: f64, special: &[f64]) -> f64 {
    match s.draw(8) {
        0 => a,
        1 => b,
        2 | 3 if !special.is_empty() => *s.pick(special),
        4 => (a + b) * 0.5,
        _ => s.real(a, b),
    }
}

/// parameter strictly inside
pub fn gen_inner_param(s: &mut Src, a: f64, b: f64, special: &[f64]) -> f64 {
    match s.draw(6) {
        0 | 1 if !special.is_empty() => *s.pick(special),
        2 => (a + b) * 0.5,
        _ => a + (b - a) * s.real(0.01, 0.99),
    }
}

/// sometimes next to one of the knots instead: 1e-3 to 1e-9 of the domain away from it
pub fn next_to(s: &mut Src, x: f64, a: f64, b: f64, knots: &[f64]) -> f64 {
    if !s.chance(1, 6) {
        return x;
    }
    let k = *s.pick(knots);
    let d = (b - a) * 10f64.powi(-(s.int(3, 9) as i32)) * s.real(0.5, 2.);
    let y = if s.bool() { k + d } else { k - d };
    if a < y && y < b { y } else { x }
}
/// at a knot or far enough from all of them to be told apart
pub fn clear_of(knots: &[f64], x: f64, a: f64, b: f64) -> bool {
    !knots.iter().any(|k| *k != x && (k - x).abs() < 4e-10 * (b - a))
}

pub fn gen_rotation(s: &mut Src, dim: usize) -> Vec<Vec<f64>> {
    if dim == 2 {
        let t = s.real(0., std::f64::consts::TAU);
        vec![vec![t.cos(), -t.sin()], vec![t.sin(), t.cos()]]
    } else {
        let (a, b) = gen_frame(s);
        let c = crate::refm::cross(&a, &b);
        vec![a, b, c]
    }
}

/// orthonormal pair of 3D vectors
pub fn gen_frame(s: &mut Src) -> (Vec<f64>, Vec<f64>) {
    use crate::refm::*;
    if s.chance(1, 3) {
        let axes = [vec![1., 0., 0.], vec![0., 1., 0.], vec![0., 0., 1.]];
        let i = s.draw(3) as usize;
        let j = (i + 1 + s.draw(2) as usize) % 3;
        let sg = if s.bool() { -1. } else { 1. };
        return (axes[i].clone(), scale(&axes[j], sg));
    }
    let th = s.real(0., std::f64::consts::TAU);
    let z = s.real(-1., 1.);
    let r = (1. - z * z).sqrt();
    let a = unit(&[r * th.cos(), r * th.sin(), z]);
    let h = if a[0].abs() < 0.7 { vec![1., 0., 0.] } else { vec![0., 1., 0.] };
    let e1 = unit(&cross(&a, &h));
    let e2 = cross(&a, &e1);
    let ph = s.real(0., std::f64::consts::TAU);
    let b = unit(&add(&scale(&e1, ph.cos()), &scale(&e2, ph.sin())));
    (a, b)
}

/// invertible affine map, possibly anisotropic or reflecting
pub fn gen_affine(s: &mut Src, dim: usize) -> Affine {
    let b: Vec<f64> = (0..dim).map(|_| s.coord(20.)).collect();
    let r = gen_rotation(s, dim);
    let a = match s.draw(4) {
        0 => (0..dim).map(|i| (0..dim).map(|j| if i == j { 1. } else { 0. }).collect()).collect(),
        1 => r,
        2 => {
            let k = s.log_real(0.2, 5.);
            r.iter().map(|row| row.iter().map(|x| x * k).collect()).collect()
        }
        _ => {
            // R1 * diag * R2, with a possible reflection
            let r2 = gen_rotation(s, dim);
            let d: Vec<f64> = (0..dim)
                .map(|_| {
                    let k = s.log_real(0.3, 3.);
                    if s.chance(1, 4) {
                        -k
                    } else {
                        k
                    }
                })
                .collect();
            (0..dim)
                .map(|i| (0..dim).map(|j| (0..dim).map(|k| r[i][k] * d[k] * r2[k][j]).sum()).collect())
                .collect()
        }
    };
    Affine { a, b }
}

pub fn gen_rigid(s: &mut Src, dim: usize) -> Affine {
    Affine { a: gen_rotation(s, dim), b: (0..dim).map(|_| s.coord(10.)).collect() }
}

/// connected clamped curves, each starting where the previous one ends; `close` joins the ends
pub fn gen_chain(s: &mut Src, o: Opt, n: usize, close: bool) -> Vec<RCurve> {
    let dim = o.dim.unwrap_or_else(|| 2 + s.draw(2) as usize);
    let mut out: Vec<RCurve> = vec![];
    let mut joints: Vec<Vec<f64>> = vec![];
    for i in 0..n {
        let mut c = gen_curve(s, Opt { dim: Some(dim), unclamped: false, ..o });
        match out.last() {
            None => joints.push(c.points()[0].clone()),
            Some(p) => {
                let e = p.points().pop().unwrap();
                let w = c.cps[0][dim];
                c.cps[0] = hom(&e, w);
            }
        }
        // the joints can be told apart, so that there is one way to join the spans
        let mut e = c.points().pop().unwrap();
        if n > 1 {
            while joints.iter().any(|j| dist(j, &e) < 2e-2) {
                e[0] += 0.4 + 0.13 * i as f64;
            }
            let k = c.cps.len() - 1;
            let w = c.cps[k][dim];
            if dist(&e, &proj(&c.cps[k])) > 0. {
                c.cps[k] = hom(&e, w);
            }
        }
        joints.push(e);
        out.push(c);
    }
    if close {
        let st = out[0].points()[0].clone();
        let l = out.last_mut().unwrap();
        let k = l.cps.len() - 1;
        let w = l.cps[k][dim];
        l.cps[k] = hom(&st, w);
    }
    out
}

/// the model of a compound curve: spans laid end to end from parameter 0
pub fn align(spans: &[RCurve]) -> Vec<RCurve> {
    let mut off = 0.;
    spans
        .iter()
        .map(|c| {
            let s = c.knots[0];
            let mut c = c.clone();
            for k in c.knots.iter_mut() {
                *k = *k - s + off;
            }
            off = *c.knots.last().unwrap();
            c
        })
        .collect()
}

/// A closed curve that is star shaped about `center` (hence simple): the control polygon is star
/// shaped, and a curve crosses a line no more often than its control polygon does.
pub fn gen_star(s: &mut Src, center: &[f64], rmin: f64, rmax: f64, deg: (usize, usize), rational: bool) -> RCurve {
    let degree = s.int(deg.0, deg.1);
    let n = (degree + 1).max(4) + s.int(0, 6);
    let w = gen_weights(s, n + 1, rational);
    let jitter = s.real(0., 0.6);
    let phase = s.real(0., std::f64::consts::TAU);
    let ccw = !s.bool();
    let mut pts: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let a = (i as f64 + jitter * s.real(-0.5, 0.5)) * std::f64::consts::TAU / n as f64;
            let a = phase + if ccw { a } else { -a };
            let r = s.real(rmin, rmax);
            vec![center[0] + r * a.cos(), center[1] + r * a.sin()]
        })
        .collect();
    pts.push(pts[0].clone());
    let knots = gen_clamped_knots(s, degree, n + 1, 1, true);
    let cps = (0..=n).map(|i| hom(&pts[i], w[i])).collect();
    RCurve { degree, knots, cps }
}

/// A gentle curve: control points march along the first axis, so there are no cusps or loops.
pub fn gen_march(s: &mut Src, o: Opt) -> RCurve {
    let mut c = gen_curve(s, o);
    let dim = c.dim();
    let amp = s.real(0.2, 2.);
    let step = s.log_real(0.3, 3.);
    let n = c.cps.len();
    let frame = gen_rigid(s, dim);
    for i in 0..n {
        let w = c.cps[i][dim];
        let w = w.clamp(0.5, 2.);
        let mut p = vec![0.; dim];
        p[0] = step * (i as f64 + s.real(-0.2, 0.2));
        for q in p.iter_mut().skip(1) {
            *q = step * amp * s.real(-1., 1.);
        }
        c.cps[i] = hom(&frame.apply(&p), w);
    }
    c
}

/// uniform knots of spacing 1 and moderate weights: the solver is not scale invariant
pub fn tame(mut r: RCurve) -> RCurve {
    let d = r.degree;
    let n = r.cps.len() - d;
    let dim = r.dim();
    r.knots = vec![0.; d];
    r.knots.extend((0..=n).map(|i| i as f64));
    r.knots.extend(vec![n as f64; d]);
    for c in r.cps.iter_mut() {
        let w = c[dim].clamp(0.5, 2.);
        *c = hom(&proj(c), w);
    }
    r
}

/// cut at integer parameters, by the library (C07)
pub fn pieces(s: &mut Src, r: &RCurve) -> Vec<RCurve> {
    let (a, b) = r.domain();
    let n = (b - a).round() as usize;
    let mut cuts: Vec<usize> = (1..n).filter(|_| s.chance(1, 3)).collect();
    cuts.truncate(4);
    let mut rest = AC::new(r);
    let mut out = vec![];
    for c in cuts {
        let (x, y) = rest.split(a + c as f64).unwrap();
        out.push(x.model());
        rest = y;
    }
    out.push(rest.model());
    out
}

