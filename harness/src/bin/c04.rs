//! C04 knot insertion preserves the curve
use curvo_verif::prelude::*;

pub fn same(r: &RCurve, c: &AC, lo: f64, hi: f64, sig: &str) -> R {
    let tol = 1e-8 * r.scale();
    let m = c.model();
    let mut ps: Vec<f64> = m.knots.iter().cloned().filter(|k| *k >= lo && *k <= hi).collect();
    ps.dedup();
    ps.extend((0..=16).map(|i| lo + (hi - lo) * i as f64 / 16.));
    for u in ps {
        let u = u.clamp(lo, hi);
        let (p, q) = (c.pt(u), r.point(u));
        ensure!(dist(&p, &q) <= tol, sig, "at {u}: {p:?}, before {q:?} (result {m:?})");
    }
    Ok(())
}
fn valid(c: &AC, sig: &str) -> R {
    let m = c.model();
    ensure!(m.knots.len() == m.cps.len() + m.degree + 1, sig, "{} knots for {} control points of degree {}", m.knots.len(), m.cps.len(), m.degree);
    ensure!(m.knots.windows(2).all(|w| w[0] <= w[1]), sig, "knots not sorted: {:?}", m.knots);
    Ok(())
}
fn multiset_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-12 * (1. + y.abs()))
}

/// sorted list of knots to insert, total multiplicity at most `degree`
fn insertion(s: &mut Src, r: &RCurve, n: usize) -> Vec<f64> {
    let (a, b) = r.domain();
    let mut all = r.knots.clone();
    let mut out = vec![];
    let inner: Vec<f64> = r.interior().iter().map(|k| k.0).collect();
    for _ in 0..n {
        let x = match s.draw(4) {
            0 if !inner.is_empty() => *s.pick(&inner),
            1 if !out.is_empty() => *s.pick(&out),
            _ => a + (b - a) * s.real(0.01, 0.99),
        };
        // next to a knot: 1e-3 to 1e-9 of the domain away from it
        let x = if s.chance(1, 4) {
            let k = *s.pick(&all);
            let d = (b - a) * 10f64.powi(-(s.int(3, 9) as i32)) * s.real(0.5, 2.);
            if s.bool() { k + d } else { k - d }
        } else {
            x
        };
        // closer than that is numerically meaningless
        if x <= a || x >= b || all.iter().any(|k| *k != x && (*k - x).abs() < 4e-10 * (b - a)) {
            continue;
        }
        if all.iter().filter(|k| **k == x).count() < r.degree {
            out.push(x);
            all.push(x);
        }
    }
    out.sort_by(f64::total_cmp);
    out
}

fn refine(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let n = cx.src.int(0, 6);
    let mut ks = insertion(&mut cx.src, &r, n);
    // in any order
    if cx.src.chance(1, 3) {
        for i in (1..ks.len()).rev() {
            let j = cx.src.int(0, i);
            ks.swap(i, j);
        }
    }
    cx.label_if(ks.windows(2).any(|w| w[0] > w[1]), "unsorted");
    note!(cx, "curve {r:?} insert {ks:?}");
    cx.nontrivial_if(ks.len() >= 2 && r.degree >= 2);
    cx.label_if((1..ks.len()).any(|i| ks[..i].contains(&ks[i])), "repeated-insertion");
    cx.label_if(ks.iter().any(|k| r.mult(*k) > 0), "existing-knot");
    let x = c.refine(ks.clone()).map_err(|e| Fail { sig: "refine-error".into(), msg: e })?;
    valid(&x, "refine-valid")?;
    let mut want = r.knots.clone();
    want.extend(&ks);
    want.sort_by(f64::total_cmp);
    ensure!(multiset_eq(&x.knots(), &want), "refine-knots", "knots {:?} expected {want:?}", x.knots());
    ensure!(x.domain() == r.domain(), "refine-domain", "{:?}", x.domain());
    let (a, b) = r.domain();
    same(&r, &x, a, b, "refine-shape")?;
    // outside the knot vector: refused
    let (k0, k1) = (r.knots[0], r.knots[r.knots.len() - 1]);
    for bad in [k0 - 0.5, k1 + 0.5, f64::NAN] {
        let mut l = ks.clone();
        l.insert(cx.src.int(0, ks.len()), bad);
        ensure!(c.refine(l.clone()).is_err(), "refine-outside", "{l:?} was accepted");
    }
    Ok(())
}

fn add(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let mut c = AC::new(&r);
    let n = cx.src.int(1, 4);
    let ks = insertion(&mut cx.src, &r, n);
    note!(cx, "curve {r:?} add {ks:?}");
    cx.label_if(r.is_rational(), "rational");
    cx.nontrivial_if(!ks.is_empty() && r.degree >= 2);
    let mut want = r.knots.clone();
    for k in &ks {
        c = c.add_knot(*k).map_err(|e| Fail { sig: "add-error".into(), msg: e })?;
        valid(&c, "add-valid")?;
        want.push(*k);
    }
    want.sort_by(f64::total_cmp);
    ensure!(multiset_eq(&c.knots(), &want), "add-knots", "knots {:?} expected {want:?}", c.knots());
    ensure!(c.domain() == r.domain(), "add-domain", "{:?}", c.domain());
    let (a, b) = r.domain();
    same(&r, &c, a, b, "add-shape")?;
    // outside the knot vector: refused
    let (k0, k1) = (r.knots[0], r.knots[r.knots.len() - 1]);
    ensure!(AC::new(&r).add_knot(k0 - 0.5).is_err() && AC::new(&r).add_knot(k1 + 0.5).is_err(), "add-outside", "a knot outside the knot vector was accepted");
    Ok(())
}

fn clamp(cx: &mut Cx) -> R {
    let mut r = gen_curve(&mut cx.src, Opt { unclamped: false, ..Opt::default() });
    if !cx.src.chance(1, 5) {
        r.knots = if cx.src.chance(2, 3) {
            gen_unclamped_knots(&mut cx.src, r.degree, r.cps.len())
        } else {
            gen_half_clamped_knots(&mut cx.src, r.degree, r.cps.len())
        };
    }
    note!(cx, "curve {r:?}");
    let c = AC::new(&r);
    cx.label_if(r.is_rational(), "rational");
    cx.nontrivial_if(!r.clamped() && r.degree >= 2);
    let x = c.clamp().map_err(|e| Fail { sig: "clamp-error".into(), msg: e })?;
    valid(&x, "clamp-valid")?;
    ensure!(x.is_clamped() && x.model().clamped(), "clamp-clamped", "still unclamped: {:?}", x.knots());
    let (a, b) = r.domain();
    let (xa, xb) = x.domain();
    ensure!(xa <= a && xb >= b, "clamp-domain", "domain ({xa},{xb}) does not cover ({a},{b})");
    same(&r, &x, a, b, "clamp-shape")
}

static LAWS: &[Law] = &[Law::new("refine", 150_000, refine), Law::new("add", 150_000, add), Law::new("clamp", 60_000, clamp)];

fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C04",
        rule: "random curves (degree 1-5, rational, clamped and not) with 0-6 knots inserted at random and existing knots up to multiplicity = degree; non-trivial = degree >= 2 and at least one (refine: two) inserted knots",
        assumptions: &["inserted knots are inside the domain and end up with multiplicity <= degree", "distinct knots at least 4e-10 of the domain apart"],
        laws: LAWS,
        probes: &[],
    })
}
