//! Reference model: rational B-splines evaluated from their definition, written independently of
//! curvo (de Boor on homogeneous control points; derivatives by differencing control points).

#[derive(Clone, Debug, PartialEq)]
pub struct RCurve {
    pub degree: usize,
    pub knots: Vec<f64>,
    /// homogeneous, premultiplied: (w x, w y, .., w)
    pub cps: Vec<Vec<f64>>,
}

pub fn lerp(a: &[f64], b: &[f64], t: f64) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x * (1. - t) + y * t).collect()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn add(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
pub fn scale(a: &[f64], s: f64) -> Vec<f64> {
    a.iter().map(|x| x * s).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    norm(&sub(a, b))
}
pub fn cross(a: &[f64], b: &[f64]) -> Vec<f64> {
    vec![
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn unit(a: &[f64]) -> Vec<f64> {
    scale(a, 1. / norm(a))
}

/// Which one-sided limit to take at a knot.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Side {
    Right,
    Left,
}

/// index i with knots[i] <= u < knots[i+1] (Right) or knots[i] < u <= knots[i+1] (Left),
/// restricted to the domain spans [p, n]
pub fn span(degree: usize, knots: &[f64], ncp: usize, u: f64, side: Side) -> usize {
    let (lo, hi) = (degree, ncp - 1);
    let mut best = None;
    for i in lo..=hi {
        if knots[i] < knots[i + 1] {
            let inside = match side {
                Side::Right => knots[i] <= u,
                Side::Left => knots[i] < u,
            };
            if best.is_none() || inside {
                best = Some(i);
            }
        }
    }
    best.expect("empty domain")
}

pub fn de_boor(degree: usize, knots: &[f64], cps: &[Vec<f64>], u: f64, side: Side) -> Vec<f64> {
    let k = span(degree, knots, cps.len(), u, side);
    let mut d: Vec<Vec<f64>> = (0..=degree).map(|j| cps[j + k - degree].clone()).collect();
    for r in 1..=degree {
        for j in (r..=degree).rev() {
            let i = j + k - degree;
            let den = knots[i + degree - r + 1] - knots[i];
            let a = if den == 0. { 0. } else { (u - knots[i]) / den };
            d[j] = lerp(&d[j - 1], &d[j], a);
        }
    }
    d[degree].clone()
}

/// Control points of the derivative B-spline (degree - 1, knots without first and last).
pub fn diff(degree: usize, knots: &[f64], cps: &[Vec<f64>]) -> (usize, Vec<f64>, Vec<Vec<f64>>) {
    if degree == 0 {
        return (0, knots.to_vec(), cps.iter().map(|c| vec![0.; c.len()]).collect());
    }
    let q = (0..cps.len() - 1)
        .map(|i| {
            let den = knots[i + degree + 1] - knots[i + 1];
            if den == 0. {
                vec![0.; cps[0].len()]
            } else {
                scale(&sub(&cps[i + 1], &cps[i]), degree as f64 / den)
            }
        })
        .collect();
    (degree - 1, knots[1..knots.len() - 1].to_vec(), q)
}

/// homogeneous derivatives 0..=n at u
pub fn hom_derivs(degree: usize, knots: &[f64], cps: &[Vec<f64>], u: f64, n: usize, side: Side) -> Vec<Vec<f64>> {
    let mut out = vec![];
    let (mut d, mut k, mut c) = (degree, knots.to_vec(), cps.to_vec());
    let mut dead = false;
    for i in 0..=n {
        if dead {
            out.push(vec![0.; cps[0].len()]);
            continue;
        }
        out.push(de_boor(d, &k, &c, u, side));
        if d == 0 {
            dead = true;
        } else if i < n {
            let (a, b, e) = diff(d, &k, &c);
            d = a;
            k = b;
            c = e;
        }
    }
    out
}

fn binom(n: usize, k: usize) -> f64 {
    (0..k).fold(1., |r, i| r * (n - i) as f64 / (i + 1) as f64)
}

/// quotient rule
pub fn rational_derivs(h: &[Vec<f64>]) -> Vec<Vec<f64>> {
    let d = h[0].len() - 1;
    let w: Vec<f64> = h.iter().map(|x| x[d]).collect();
    let mut out: Vec<Vec<f64>> = vec![];
    for k in 0..h.len() {
        let mut v = h[k][..d].to_vec();
        for i in 1..=k {
            let c = binom(k, i) * w[i];
            for j in 0..d {
                v[j] -= c * out[k - i][j];
            }
        }
        out.push(scale(&v, 1. / w[0]));
    }
    out
}

impl RCurve {
    pub fn dim(&self) -> usize {
        self.cps[0].len() - 1
    }
    pub fn domain(&self) -> (f64, f64) {
        (self.knots[self.degree], self.knots[self.cps.len()])
    }
    pub fn hom(&self, u: f64) -> Vec<f64> {
        de_boor(self.degree, &self.knots, &self.cps, u, Side::Right)
    }
    pub fn point(&self, u: f64) -> Vec<f64> {
        proj(&self.hom(u))
    }
    pub fn derivs(&self, u: f64, n: usize, side: Side) -> Vec<Vec<f64>> {
        rational_derivs(&hom_derivs(self.degree, &self.knots, &self.cps, u, n, side))
    }
    pub fn weights(&self) -> Vec<f64> {
        self.cps.iter().map(|c| c[c.len() - 1]).collect()
    }
    pub fn points(&self) -> Vec<Vec<f64>> {
        self.cps.iter().map(|c| proj(c)).collect()
    }
    pub fn is_rational(&self) -> bool {
        let w = self.weights();
        w.iter().any(|x| (x - w[0]).abs() > 1e-12)
    }
    pub fn clamped(&self) -> bool {
        let n = self.knots.len();
        (0..=self.degree).all(|i| self.knots[i] == self.knots[0] && self.knots[n - 1 - i] == self.knots[n - 1])
    }
    /// size of the geometry, for relative tolerances
    pub fn scale(&self) -> f64 {
        self.points()
            .iter()
            .flat_map(|p| p.iter().map(|x| x.abs()).collect::<Vec<_>>())
            .fold(1e-3, f64::max)
    }
    pub fn distinct(&self) -> Vec<(f64, usize)> {
        distinct(&self.knots)
    }
    /// knots strictly inside the domain
    pub fn interior(&self) -> Vec<(f64, usize)> {
        let (a, b) = self.domain();
        self.distinct().into_iter().filter(|k| k.0 > a && k.0 < b).collect()
    }
    pub fn mult(&self, u: f64) -> usize {
        self.knots.iter().filter(|k| **k == u).count()
    }
    /// parameters: domain ends, knots, span midpoints and a regular grid
    pub fn probe_params(&self, per_span: usize) -> Vec<f64> {
        let (a, b) = self.domain();
        let mut ks: Vec<f64> = vec![a];
        ks.extend(self.interior().iter().map(|k| k.0));
        ks.push(b);
        let mut out = vec![];
        for w in ks.windows(2) {
            for i in 0..per_span {
                out.push(w[0] + (w[1] - w[0]) * i as f64 / per_span as f64);
            }
        }
        out.push(b);
        out
    }
    /// dense numeric arc length over [a, b]: Gauss–Legendre 5 on `m` pieces per knot span
    pub fn length(&self, a: f64, b: f64, m: usize) -> f64 {
        let mut ks = vec![a];
        ks.extend(self.interior().iter().map(|k| k.0).filter(|k| *k > a && *k < b));
        ks.push(b);
        let mut s = 0.;
        for w in ks.windows(2) {
            for i in 0..m {
                let x0 = w[0] + (w[1] - w[0]) * i as f64 / m as f64;
                let x1 = w[0] + (w[1] - w[0]) * (i + 1) as f64 / m as f64;
                let (c, h) = ((x0 + x1) / 2., (x1 - x0) / 2.);
                for (x, wt) in GL5 {
                    s += wt * h * norm(&self.derivs(c + h * x, 1, Side::Right)[1]);
                }
            }
        }
        s
    }
    /// smallest distance from q to the curve: dense sampling plus golden-section refinement
    pub fn nearest(&self, q: &[f64], per_span: usize) -> (f64, f64) {
        let ps = self.probe_params(per_span);
        let pts: Vec<Vec<f64>> = ps.iter().map(|u| self.point(*u)).collect();
        // refine where a chord between two samples comes nearest
        let d: Vec<f64> = pts.windows(2).map(|w| dist_to_segment(q, &w[0], &w[1])).collect();
        let mut order: Vec<usize> = (0..d.len()).collect();
        order.sort_by(|a, b| d[*a].total_cmp(&d[*b]));
        let mut best = (ps[0], dist(&pts[0], q));
        for (p, u) in pts.iter().zip(&ps) {
            let d = dist(p, q);
            if d < best.1 {
                best = (*u, d);
            }
        }
        for &i in order.iter().take(8) {
            let (lo, hi) = (ps[i], ps[i + 1]);
            let r = golden(lo, hi, |u| dist(&self.point(u), q));
            if r.1 < best.1 {
                best = r;
            }
        }
        best
    }
}

pub const GL5: [(f64, f64); 5] = [
    (0., 0.5688888888888889),
    (-0.5384693101056831, 0.47862867049936647),
    (0.5384693101056831, 0.47862867049936647),
    (-0.9061798459386640, 0.23692688505618908),
    (0.9061798459386640, 0.23692688505618908),
];

pub fn dist_to_segment(q: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let (e, d) = (sub(b, a), sub(q, a));
    let l = dot(&e, &e);
    let t = if l > 0. { (dot(&e, &d) / l).clamp(0., 1.) } else { 0. };
    norm(&sub(&d, &scale(&e, t)))
}
pub fn golden(mut a: f64, mut b: f64, f: impl Fn(f64) -> f64) -> (f64, f64) {
    let g = (5f64.sqrt() - 1.) / 2.;
    let (mut c, mut d) = (b - g * (b - a), a + g * (b - a));
    let (mut fc, mut fd) = (f(c), f(d));
    for _ in 0..60 {
        if fc < fd {
            b = d;
            d = c;
            fd = fc;
            c = b - g * (b - a);
            fc = f(c);
        } else {
            a = c;
            c = d;
            fc = fd;
            d = a + g * (b - a);
            fd = f(d);
        }
    }
    if fc < fd {
        (c, fc)
    } else {
        (d, fd)
    }
}

pub fn proj(h: &[f64]) -> Vec<f64> {
    let d = h.len() - 1;
    h[..d].iter().map(|x| x / h[d]).collect()
}

pub fn distinct(knots: &[f64]) -> Vec<(f64, usize)> {
    let mut out: Vec<(f64, usize)> = vec![];
    for k in knots {
        match out.last_mut() {
            Some(l) if l.0 == *k => l.1 += 1,
            _ => out.push((*k, 1)),
        }
    }
    out
}

/// Tensor product surface; cps[i][j]: i along u, j along v.
#[derive(Clone, Debug, PartialEq)]
pub struct RSurface {
    pub du: usize,
    pub dv: usize,
    pub ku: Vec<f64>,
    pub kv: Vec<f64>,
    pub cps: Vec<Vec<Vec<f64>>>,
}

impl RSurface {
    pub fn domain(&self) -> ((f64, f64), (f64, f64)) {
        (
            (self.ku[self.du], self.ku[self.cps.len()]),
            (self.kv[self.dv], self.kv[self.cps[0].len()]),
        )
    }
    pub fn dim(&self) -> usize {
        self.cps[0][0].len() - 1
    }
    pub fn hom(&self, u: f64, v: f64) -> Vec<f64> {
        let col: Vec<Vec<f64>> = self.cps.iter().map(|row| de_boor(self.dv, &self.kv, row, v, Side::Right)).collect();
        de_boor(self.du, &self.ku, &col, u, Side::Right)
    }
    pub fn point(&self, u: f64, v: f64) -> Vec<f64> {
        proj(&self.hom(u, v))
    }
    /// homogeneous mixed derivatives [k][l], k in u, l in v
    pub fn hom_derivs(&self, u: f64, v: f64, n: usize, su: Side, sv: Side) -> Vec<Vec<Vec<f64>>> {
        let dv: Vec<Vec<Vec<f64>>> = self.cps.iter().map(|row| hom_derivs(self.dv, &self.kv, row, v, n, sv)).collect();
        let mut out = vec![vec![vec![]; n + 1]; n + 1];
        for l in 0..=n {
            let col: Vec<Vec<f64>> = dv.iter().map(|x| x[l].clone()).collect();
            let d = hom_derivs(self.du, &self.ku, &col, u, n, su);
            for k in 0..=n {
                out[k][l] = d[k].clone();
            }
        }
        out
    }
    /// rational mixed derivatives by the generalised Leibniz rule on S·w = A
    pub fn derivs(&self, u: f64, v: f64, n: usize, su: Side, sv: Side) -> Vec<Vec<Vec<f64>>> {
        let h = self.hom_derivs(u, v, n, su, sv);
        let d = self.dim();
        let mut s = vec![vec![vec![0.; d]; n + 1]; n + 1];
        for k in 0..=n {
            for l in 0..=n {
                let mut a = h[k][l][..d].to_vec();
                for i in 0..=k {
                    for j in 0..=l {
                        if i == 0 && j == 0 {
                            continue;
                        }
                        let c = binom(k, i) * binom(l, j) * h[i][j][d];
                        for x in 0..d {
                            a[x] -= c * s[k - i][l - j][x];
                        }
                    }
                }
                s[k][l] = scale(&a, 1. / h[0][0][d]);
            }
        }
        s
    }
    pub fn scale(&self) -> f64 {
        self.cps
            .iter()
            .flatten()
            .flat_map(|c| proj(c))
            .fold(1e-3, |m, x| m.max(x.abs()))
    }
    pub fn u_axis(&self) -> RCurve {
        RCurve { degree: self.du, knots: self.ku.clone(), cps: self.cps.iter().map(|r| r[0].clone()).collect() }
    }
    pub fn v_axis(&self) -> RCurve {
        RCurve { degree: self.dv, knots: self.kv.clone(), cps: self.cps[0].clone() }
    }
}
