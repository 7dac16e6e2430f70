//! C07 splitting and trimming
use curvo_verif::prelude::*;

fn piece(r: &RCurve, c: &AC, lo: f64, hi: f64, what: &str) -> R {
    let m = c.model();
    let tol = 1e-8 * r.scale();
    ensure!(m.degree == r.degree && m.knots.len() == m.cps.len() + m.degree + 1, format!("{what}-valid"), "malformed piece {m:?}");
    let (a, b) = c.domain();
    let e = 1e-9 * (1. + lo.abs().max(hi.abs()));
    ensure!((a - lo).abs() < e && (b - hi).abs() < e, format!("{what}-domain"), "domain ({a},{b}) expected ({lo},{hi})");
    let inner = m.interior().iter().map(|k| k.0).collect::<Vec<_>>();
    for u in (0..=12).map(|i| lo + (hi - lo) * i as f64 / 12.).chain(inner) {
        let u = u.clamp(lo, hi);
        let (p, q) = (c.pt(u.clamp(a, b)), r.point(u));
        ensure!(dist(&p, &q) <= tol, format!("{what}-shape"), "at {u}: {p:?}, the original {q:?} (piece {m:?})");
    }
    Ok(())
}
fn err(what: &str) -> impl Fn(String) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e }
}
fn inner_at(s: &mut Src, r: &RCurve) -> f64 {
    let (a, b) = r.domain();
    let inner: Vec<f64> = r.interior().iter().map(|k| k.0).collect();
    let u = gen_inner_param(s, a, b, &inner);
    next_to(s, u, a, b, &r.knots)
}
fn clear(r: &RCurve, u: f64) -> bool {
    let (a, b) = r.domain();
    clear_of(&r.knots, u, a, b)
}

fn split(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let u = inner_at(&mut cx.src, &r);
    if !clear(&r, u) {
        return discard("close");
    }
    let (a, b) = r.domain();
    note!(cx, "curve {r:?} split at {u}");
    cx.label_if(r.mult(u) > 0, "at-knot");
    cx.label_if(!r.clamped(), "unclamped");
    cx.nontrivial_if(r.degree > 1 && !r.interior().is_empty());
    let (x, y) = c.split(u).map_err(err("split"))?;
    piece(&r, &x, a, u, "head")?;
    piece(&r, &y, u, b, "tail")
}

fn trim(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    let (a, b) = r.domain();
    let (s, t) = (inner_at(&mut cx.src, &r), inner_at(&mut cx.src, &r));
    if !clear(&r, s) || !clear(&r, t) || (s - t).abs() < 1e-3 * (b - a) {
        return discard("close");
    }
    note!(cx, "curve {r:?} trim {s}..{t}");
    cx.label_if(s > t, "outside");
    cx.nontrivial_if(r.degree > 1);
    let v = c.trim(s, t).map_err(err("trim"))?;
    if s < t {
        ensure!(v.len() == 1, "trim-count", "{} pieces", v.len());
        piece(&r, &v[0], s, t, "inside")
    } else {
        ensure!(v.len() == 2, "trim-count", "{} pieces", v.len());
        piece(&r, &v[0], s, b, "outside-tail")?;
        piece(&r, &v[1], a, t, "outside-head")
    }
}

/// the pieces of a trimmed compound curve cover exactly the wanted range
fn compound(cx: &mut Cx) -> R {
    let n = cx.src.int(1, 4);
    let chain = gen_chain(&mut cx.src, Opt { extra: (0, 4), ..Opt::default() }, n, false);
    let model = align(&chain);
    let c = ACC::new(&chain);
    let spans = c.spans();
    if spans.len() != n {
        return discard("not-joined");
    }
    let end = *model[n - 1].knots.last().unwrap();
    let pick = |s: &mut Src| {
        let m = &model[s.draw(n as u64) as usize];
        let (a, b) = m.domain();
        match s.draw(4) {
            0 => a,
            1 => b,
            _ => inner_at(s, m),
        }
    };
    let (s, t) = (pick(&mut cx.src), pick(&mut cx.src));
    if (s - t).abs() < 1e-3 * end || model.iter().any(|m| !clear(m, s) || !clear(m, t)) {
        return discard("close");
    }
    note!(cx, "spans {chain:?} trim {s}..{t}");
    let at = |x: f64| model.iter().position(|m| x >= m.domain().0 && x <= m.domain().1).unwrap();
    cx.label_if(s > t, "outside");
    cx.label_if(at(s) == at(t), "one-span");
    cx.label_if(model.iter().any(|m| m.domain().0 == s || m.domain().0 == t || m.domain().1 == s || m.domain().1 == t), "at-joint");
    cx.nontrivial_if(n > 1);
    let v = c.trim(s, t).map_err(err("compound"))?;
    // expected intervals, per span
    let (lo, hi) = (s.min(t), s.max(t));
    let mut want = vec![];
    for (i, m) in model.iter().enumerate() {
        let (a, b) = m.domain();
        if s < t {
            want.push((i, a.max(lo), b.min(hi)));
        } else {
            want.push((i, a, b.min(lo)));
            want.push((i, a.max(hi), b));
        }
    }
    if want.iter().any(|w| w.2 - w.1 > 0. && w.2 - w.1 < 1e-4 * end) {
        return discard("close");
    }
    want.retain(|w| w.2 > w.1);
    ensure!(v.len() == want.len(), "compound-count", "{} pieces with domains {:?}, expected {want:?}", v.len(), v.iter().map(|x| x.domain()).collect::<Vec<_>>());
    for (i, a, b) in want {
        let x = v.iter().find(|x| (x.domain().0 - a).abs() < 1e-6 && (x.domain().1 - b).abs() < 1e-6);
        match x {
            None => return fail("compound-domain", format!("no piece for {a}..{b} among {:?}", v.iter().map(|x| x.domain()).collect::<Vec<_>>())),
            Some(x) => piece(&model[i], x, a, b, "compound")?,
        }
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("split", 800_000, split), Law::new("trim", 800_000, trim), Law::new("compound", 400_000, compound)];

fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C07",
        rule: "random curves (clamped or not, rational) split at random parameters and at interior knots, trimmed to and outside of random ranges; chains of 1-4 spans trimmed at parameters inside spans and at their joints; non-trivial = degree >= 2 (split: with interior knots), more than one span",
        assumptions: &["parameters strictly inside the domain (compound curves: also joints and ends), at a knot or at least 4e-10 of the domain away from it"],
        laws: LAWS,
        probes: &[],
    })
}
