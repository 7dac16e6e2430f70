//! C03 knot vectors and basis functions
use curvo_verif::prelude::*;

struct K {
    degree: usize,
    ncp: usize,
    k: Vec<f64>,
}
fn gen(s: &mut Src) -> K {
    let degree = s.int(1, 6);
    let ncp = degree + 1 + s.int(0, 10);
    let k = match s.draw(6) {
        4 => gen_unclamped_knots(s, degree, ncp),
        5 => gen_half_clamped_knots(s, degree, ncp),
        _ => gen_clamped_knots(s, degree, ncp, 9, true),
    };
    K { degree, ncp, k }
}
fn params(s: &mut Src, k: &K) -> Vec<f64> {
    let (a, b) = (k.k[k.degree], k.k[k.ncp]);
    let mut v: Vec<f64> = k.k[k.degree..=k.ncp].to_vec();
    for _ in 0..6 {
        let u = s.real(a, b);
        v.push(next_to(s, u, a, b, &k.k));
    }
    v
}

/// Cox-de Boor recursion from the definition: all basis functions at u for span i
fn cox(degree: usize, k: &[f64], ncp: usize, u: f64) -> Vec<f64> {
    let s = span(degree, k, ncp, u, Side::Right);
    let m = k.len() - 1;
    let mut n: Vec<f64> = (0..m).map(|i| if i == s { 1. } else { 0. }).collect();
    for p in 1..=degree {
        for i in 0..m - p {
            let d0 = k[i + p] - k[i];
            let d1 = k[i + p + 1] - k[i + 1];
            let a = if d0 > 0. { (u - k[i]) / d0 * n[i] } else { 0. };
            let b = if d1 > 0. { (k[i + p + 1] - u) / d1 * n[i + 1] } else { 0. };
            n[i] = a + b;
        }
    }
    n.truncate(ncp);
    n
}

fn basis(cx: &mut Cx) -> R {
    let k = gen(&mut cx.src);
    let kv = KnotVector::new(k.k.clone());
    note!(cx, "degree {} knots {:?}", k.degree, k.k);
    let n = k.ncp - 1;
    let p = k.degree;
    ensure!(kv.domain(p) == (k.k[p], k.k[k.ncp]), "domain", "domain {:?}", kv.domain(p));
    cx.nontrivial_if(p >= 2 && k.ncp > p + 1);
    for u in params(&mut cx.src, &k) {
        let i = kv.find_knot_span_index(n, p, u);
        let l = kv.find_knot_span_linear(n + 1, p, u);
        let want = span(p, &k.k, k.ncp, u, Side::Right);
        ensure!(i == want, "span", "find_knot_span_index({n},{p},{u}) = {i}, expected {want}");
        ensure!(l == want, "span-linear", "find_knot_span_linear({},{p},{u}) = {l}, expected {want}", n + 1);
        let b = kv.basis_functions(i, u, p);
        ensure!(b.len() == p + 1, "count", "{} basis functions", b.len());
        let full = cox(p, &k.k, k.ncp, u);
        let sum: f64 = b.iter().sum();
        ensure!((sum - 1.).abs() < 1e-9, "unity", "basis functions at {u} sum to {sum}");
        for j in 0..=p {
            let w = full[i - p + j];
            ensure!((b[j] - w).abs() < 1e-9, "value", "N[{}]({u}) = {}, the recursion gives {w}", i - p + j, b[j]);
            ensure!(b[j] >= -1e-12, "nonnegative", "N[{}]({u}) = {}", i - p + j, b[j]);
        }
    }
    Ok(())
}

fn derivatives(cx: &mut Cx) -> R {
    let k = gen(&mut cx.src);
    let kv = KnotVector::new(k.k.clone());
    note!(cx, "degree {} knots {:?}", k.degree, k.k);
    let p = k.degree;
    cx.nontrivial_if(p >= 2 && k.ncp > p + 1);
    for u in params(&mut cx.src, &k) {
        let i = kv.find_knot_span_index(k.ncp - 1, p, u);
        let nd = cx.src.int(0, p);
        let d = kv.derivative_basis_functions(i, u, p, nd);
        ensure!(d.len() == nd + 1 && d.iter().all(|r| r.len() == p + 1), "shape", "shape {}x{}", d.len(), d[0].len());
        let b = kv.basis_functions(i, u, p);
        for j in 0..=p {
            ensure!((d[0][j] - b[j]).abs() < 1e-12, "row0", "row 0 {:?} differs from the basis {b:?}", d[0]);
        }
        // reference: derivative of the curve with unit coefficient
        let side = if u >= k.k[k.ncp] { Side::Left } else { Side::Right };
        for j in 0..=p {
            let cps: Vec<Vec<f64>> = (0..k.ncp).map(|q| vec![if q == i - p + j { 1. } else { 0. }]).collect();
            let h = hom_derivs(p, &k.k, &cps, u, nd, side);
            for m in 1..=nd {
                let scale: f64 = 1. + d[m].iter().fold(0f64, |a, x| a.max(x.abs()));
                ensure!((d[m][j] - h[m][0]).abs() < 1e-8 * scale, "derivative", "derivative {m} of basis {j} at {u}: {} expected {}", d[m][j], h[m][0]);
            }
        }
        for m in 1..=nd {
            let s: f64 = d[m].iter().sum();
            let scale: f64 = 1. + d[m].iter().fold(0f64, |a, x| a.max(x.abs()));
            ensure!(s.abs() < 1e-8 * scale, "zero-sum", "derivatives of order {m} sum to {s}");
        }
    }
    Ok(())
}

fn regular(cx: &mut Cx) -> R {
    let k = gen(&mut cx.src);
    let kv = KnotVector::new(k.k.clone());
    let divs = cx.src.int(1, 12);
    note!(cx, "degree {} knots {:?} divs {divs}", k.degree, k.k);
    let p = k.degree;
    cx.nontrivial_if(divs > 1 && p > 1 && k.ncp > p + 1);
    let (a, b) = (k.k[p], k.k[k.ncp]);
    let (sp, bs) = kv.regulary_spaced_basis_functions(p, divs);
    ensure!(sp.len() == divs + 1 && bs.len() == divs + 1, "count", "{} spans {} bases for {divs} divisions", sp.len(), bs.len());
    let (s, e, step, n) = kv.regularly_spaced_span(p, divs);
    ensure!(s == a && e == b && (step * divs as f64 - (b - a)).abs() < 1e-9 && n == k.ncp - 1, "span", "({s},{e},{step},{n})");
    let (sd, bd) = kv.regularly_spaced_derivative_basis_functions(p, divs);
    ensure!(sd.len() == divs + 1 && bd.len() == divs + 1, "count-d", "{} spans {} bases", sd.len(), bd.len());
    for i in 0..=divs {
        let u = a + (b - a) * i as f64 / divs as f64;
        // the value of a smooth test curve (Greville-like coefficients) is insensitive to which
        // side of a knot rounding falls on
        let coef = |q: usize| (q as f64 * 0.7).sin();
        let want: f64 = cox(p, &k.k, k.ncp, u).iter().enumerate().map(|(q, x)| x * coef(q)).sum();
        let got: f64 = (0..=p).map(|j| bs[i][j] * coef(sp[i] - p + j)).sum();
        let got_d: f64 = (0..=p).map(|j| bd[i][0][j] * coef(sd[i] - p + j)).sum();
        ensure!((got - want).abs() < 1e-7, "value", "division {i} (u={u}): {got} expected {want}");
        ensure!((got_d - want).abs() < 1e-7, "value-d", "division {i} (u={u}): {got_d} expected {want}");
    }
    Ok(())
}

fn multiset(cx: &mut Cx) -> R {
    let mut k = gen(&mut cx.src);
    if cx.src.chance(1, 3) {
        // knots that all but agree
        for _ in 0..cx.src.int(1, 3) {
            let i = cx.src.int(1, k.k.len() - 1);
            let x = k.k[i - 1] + cx.src.log_real(1e-11, 1e-3) * (1. + k.k[i - 1].abs());
            if x < k.k[i] || (k.k[i] == k.k[i - 1] && k.k.get(i + 1).is_none_or(|n| x <= *n)) {
                k.k[i] = x;
                cx.label("all-but-equal");
            }
        }
    }
    let mut kv = KnotVector::new(k.k.clone());
    note!(cx, "degree {} knots {:?}", k.degree, k.k);
    let p = k.degree;
    cx.nontrivial_if(k.ncp > p + 1);
    let m: Vec<(f64, usize)> = kv.multiplicity().iter().map(|m| (*m.knot(), m.multiplicity())).collect();
    ensure!(m == distinct(&k.k), "multiplicity", "{m:?} for {:?}", k.k);
    let nk = k.k.len();
    let cl = k.k[..=p].iter().all(|x| *x == k.k[0]) && k.k[nk - p - 1..].iter().all(|x| *x == k.k[nk - 1]);
    ensure!(kv.is_clamped(p) == cl, "is_clamped", "is_clamped({p}) = {} for {:?}", !cl, k.k);
    ensure!(kv.first() == k.k[0] && kv.last() == k.k[nk - 1] && kv.len() == nk && kv.to_vec() == k.k, "accessors", "{kv:?}");
    let (a, b) = (k.k[p], k.k[k.ncp]);
    let u = cx.src.real(a - 2., b + 2.);
    let c = kv.clamp(p, u);
    ensure!(c == u.max(a).min(b), "clamp", "clamp({u}) = {c} on [{a},{b}]");
    // floor: the last index not above u
    let f = kv.floor(u);
    let want = k.k.iter().rposition(|x| *x <= u);
    ensure!(f == want, "floor", "floor({u}) = {f:?}, expected {want:?}");
    // reversal
    let inv = kv.inverse();
    let iv: Vec<f64> = inv.iter().cloned().collect();
    for i in 0..nk {
        let w = k.k[0] + k.k[nk - 1] - k.k[nk - 1 - i];
        ensure!((iv[i] - w).abs() < 1e-9 * (1. + w.abs()), "invert", "inverted {iv:?} of {:?}", k.k);
    }
    let back: Vec<f64> = inv.inverse().iter().cloned().collect();
    ensure!(back.iter().zip(&k.k).all(|(x, y)| (x - y).abs() < 1e-9 * (1. + y.abs())), "involution", "{back:?} vs {:?}", k.k);
    // adding knots keeps a sorted multiset
    let mut mine = k.k.clone();
    for _ in 0..cx.src.int(1, 4) {
        let x = if cx.src.bool() { *cx.src.pick(&k.k) } else { cx.src.real(k.k[0] - 1., k.k[nk - 1] + 1.) };
        let i = kv.add(x);
        mine.push(x);
        mine.sort_by(f64::total_cmp);
        ensure!(kv.to_vec() == mine, "add", "after adding {x}: {kv:?}");
        ensure!(kv[i] == x && (i + 1 == kv.len() || kv[i + 1] > x), "add-index", "add({x}) returned index {i} in {kv:?}");
    }
    Ok(())
}

fn uniform(cx: &mut Cx) -> R {
    let p = cx.src.int(1, 6);
    let n = cx.src.int(2, 12);
    note!(cx, "uniform({n},{p})");
    let k = KnotVector::<f64>::uniform(n, p);
    cx.nontrivial_if(n > 2 && p > 1);
    ensure!(k.len() == n + 2 * p, "len", "{k:?}");
    ensure!(k.is_clamped(p), "clamped", "{k:?} not clamped for degree {p}");
    let (a, b) = k.domain(p);
    ensure!(a == 0. && b == (n - 1) as f64, "domain", "{:?}", (a, b));
    for i in 0..n {
        ensure!(k[p + i] == i as f64, "spacing", "{k:?}");
    }
    Ok(())
}

static LAWS: &[Law] = &[
    Law::new("basis", 300_000, basis),
    Law::new("derivatives", 150_000, derivatives),
    Law::new("regular", 200_000, regular),
    Law::new("multiset", 300_000, multiset),
    Law::new("uniform", 2_000, uniform),
];

fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C03",
        rule: "random knot vectors of degree 1-6 (clamped, half clamped, unclamped; repeated interior knots, knots that all but agree; varied domains) queried at every domain knot, both ends and random parameters; non-trivial = degree >= 2 with interior knots",
        assumptions: &["parameters inside the domain for spans and basis functions"],
        laws: LAWS,
        probes: &[],
    })
}
