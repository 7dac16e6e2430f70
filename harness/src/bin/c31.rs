//! C31 building compound curves
use curvo_verif::prelude::*;

fn shuffle(s: &mut Src, v: &mut [RCurve]) {
    for i in (1..v.len()).rev() {
        let j = i - s.draw(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}
fn reversed(r: &RCurve) -> RCurve {
    let t = r.knots[0] + r.knots[r.knots.len() - 1];
    RCurve { degree: r.degree, knots: r.knots.iter().rev().map(|k| t - k).collect(), cps: r.cps.iter().rev().cloned().collect() }
}

/// whatever order and direction the connected pieces are given in, the result is the whole chain,
/// run through continuously, parameterised without gaps from 0
fn join(cx: &mut Cx) -> R {
    let n = cx.src.int(2, 6);
    let close = n > 2 && cx.src.chance(1, 3);
    let mut dim = None;
    if cx.src.chance(1, 2) {
        dim = Some(2);
    }
    let chain = gen_chain(&mut cx.src, Opt { dim, extra: (0, 3), deg: (1, 3), ..Opt::default() }, n, close);
    // joints must be distinguishable
    let ends: Vec<Vec<f64>> = std::iter::once(chain[0].points()[0].clone()).chain(chain.iter().map(|c| c.points().pop().unwrap())).collect();
    for i in 0..ends.len() {
        for j in 0..i {
            if dist(&ends[i], &ends[j]) < 1e-2 && !(close && j == 0 && i == n) {
                return discard("joints-too-close");
            }
        }
    }
    let mut given: Vec<RCurve> = chain.iter().map(|c| if cx.src.chance(1, 3) { reversed(c) } else { c.clone() }).collect();
    if cx.src.chance(2, 3) {
        shuffle(&mut cx.src, &mut given);
    }
    note!(cx, "closed {close} given {given:?}");
    cx.label_if(close, "closed");
    cx.nontrivial_if(n > 2);
    let c = ACC::new(&given);
    let m = c.spans();
    ensure!(m.len() == n, "lost-spans", "{} of {n} connected spans kept", m.len());
    let tol = 1e-6;
    let mut off = 0.;
    for (i, s) in m.iter().enumerate() {
        let (a, b) = s.domain();
        ensure!((a - off).abs() < 1e-9 * (1. + off), "parameters", "span {i} starts at {a}, expected {off}");
        off = b;
        if i > 0 {
            let (p, q) = (m[i - 1].points().pop().unwrap(), s.points()[0].clone());
            ensure!(dist(&p, &q) < tol, "disconnected", "span {} ends at {p:?}, span {i} starts at {q:?}", i - 1);
        }
    }
    // every given span is there, in one direction or the other
    for g in &given {
        let (a, b) = g.domain();
        let hit = m.iter().any(|s| {
            let (c, d) = s.domain();
            let same = |rev: bool| {
                (0..=6).all(|i| {
                    let f = i as f64 / 6.;
                    let h = if rev { 1. - f } else { f };
                    dist(&s.point((c + (d - c) * f).clamp(c, d)), &g.point((a + (b - a) * h).clamp(a, b))) < tol
                })
            };
            ((d - c) - (b - a)).abs() < 1e-9 * (1. + b - a) && (same(false) || same(true))
        });
        ensure!(hit, "span-missing", "the given span {g:?} is not in the compound curve");
    }
    ensure!(c.is_closed() == close, "is-closed", "is_closed {} expected {close}", c.is_closed());
    // evaluation
    for _ in 0..4 {
        let t = cx.src.real(0., off);
        let Some(p) = c.pt(t) else { return fail("undefined", format!("no point at {t} of {off}")) };
        let s = m.iter().find(|s| t >= s.domain().0 && t <= s.domain().1).unwrap();
        ensure!(dist(&p, &s.point(t)) < 1e-7 * (1. + s.scale()), "point", "at {t}: {p:?} expected {:?}", s.point(t));
    }
    ensure!(c.pt(-0.5).is_none() && c.pt(off + 0.5).is_none(), "outside", "a point outside the domain");
    let l = c.length().map_err(|e| Fail { sig: "length-error".into(), msg: e })?;
    let w: f64 = m.iter().map(|s| AC::new(s).length().unwrap()).sum();
    ensure!((l - w).abs() <= 1e-9 * (1. + w), "length", "length {l}, the spans sum to {w}");
    Ok(())
}
/// the pieces of a curve, in order, make the curve again
fn cut(cx: &mut Cx) -> R {
    let closed = cx.src.bool();
    let r = if closed {
        let rat = cx.src.bool();
        gen_star(&mut cx.src, &[0., 0.], 2., 4., (1, 4), rat)
    } else {
        gen_march(&mut cx.src, Opt { deg: (1, 4), extra: (0, 6), unclamped: false, dim: Some(2), ..Opt::default() })
    };
    let (a, b) = r.domain();
    let n = cx.src.int(2, 4);
    let mut rest = AC::new(&r);
    let mut given: Vec<RCurve> = vec![];
    let mut ts = vec![];
    for i in 1..n {
        let t = a + (b - a) * (i as f64 + cx.src.real(-0.3, 0.3)) / n as f64;
        let (x, y) = rest.split(t).map_err(|m| Fail { sig: "split".into(), msg: m })?;
        given.push(x.model());
        ts.push(t);
        rest = y;
    }
    given.push(rest.model());
    note!(cx, "{r:?} cut at {ts:?}");
    let p: Vec<Vec<f64>> = std::iter::once(r.point(a)).chain(ts.iter().map(|t| r.point(*t))).collect();
    let close = |x: &[f64], y: &[f64]| dist(x, y) < 1e-2;
    if (0..n).any(|i| (0..i).any(|j| close(&p[i], &p[j]))) || (!closed && p.iter().any(|q| close(q, &r.point(b)))) {
        return discard("joints-too-close");
    }
    cx.label_if(closed, "closed");
    cx.nontrivial_if(closed || n > 2);
    let k = ACC::new(&given);
    ensure!(k.spans().len() == n, "cut-lost-spans", "{} of {n} pieces kept", k.spans().len());
    for _ in 0..6 {
        let t = cx.src.real(0., b - a);
        let q = k.pt(t);
        ensure!(q.as_ref().is_some_and(|q| dist(q, &r.point((a + t).min(b))) < 1e-6 * (1. + r.scale())), "cut-point", "at {t}: {q:?}, the curve is at {:?}", r.point((a + t).min(b)));
    }
    Ok(())
}
static LAWS: &[Law] = &[Law::new("join", 120_000, join), Law::new("cut", 60_000, cut)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C31",
        rule: "chains of 2-6 random clamped curves (a third closed), a third of the spans reversed, two thirds of the chains shuffled; curves cut into 2-4 pieces, put together in order; non-trivial = more than 2 spans or closed",
        assumptions: &["joints are distinct points at least 1e-2 apart", "clamped spans"],
        laws: LAWS,
        probes: &[],
    })
}
