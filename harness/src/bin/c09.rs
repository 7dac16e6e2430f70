//! C09 reversal
use curvo_verif::prelude::*;

fn curve(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let c = AC::new(&r);
    note!(cx, "curve {r:?}");
    cx.label_if(!r.clamped(), "unclamped");
    cx.nontrivial_if(r.degree > 1 && !r.interior().is_empty());
    let x = c.invert();
    let (a, b) = r.domain();
    let s = r.knots[0] + r.knots[r.knots.len() - 1];
    let (xa, xb) = x.domain();
    let e = 1e-9 * (1. + a.abs() + b.abs());
    ensure!((xa - (s - b)).abs() < e && (xb - (s - a)).abs() < e, "domain", "reversed domain ({xa},{xb}), original ({a},{b})");
    let tol = 1e-7 * r.scale();
    for f in [0., 0.1, 0.25, 0.5, 0.77, 0.9, 1.] {
        let u = a + (b - a) * f;
        let w = (s - u).clamp(xa, xb);
        let (p, q) = (x.pt(w), r.point(u));
        ensure!(dist(&p, &q) <= tol, "point", "reversed at {w}: {p:?}, original at {u}: {q:?}");
        if r.degree > 1 && f > 0. && f < 1. && !r.interior().iter().any(|k| (k.0 - u).abs() < 1e-6) {
            let (p, q) = (x.tangent(w), c.tangent(u));
            ensure!(norm(&add(&p, &q)) <= 1e-5 * (1. + norm(&q)), "tangent", "reversed tangent {p:?}, original {q:?}");
        }
    }
    let y = x.invert();
    let m = y.model();
    ensure!(m.cps == r.cps && m.knots.iter().zip(&r.knots).all(|(p, q)| (p - q).abs() < e), "involution", "reversed twice: {m:?}");
    Ok(())
}

fn surface(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { deg: (1, 4), extra: (0, 3), ..Opt::default() });
    let s = s3(&r);
    let k = cx.src.draw(4);
    note!(cx, "surface {r:?} variant {k}");
    let (x, fu, fv) = match k {
        0 => (s.flip(FlipDirection::U), true, false),
        1 => (s.flip(FlipDirection::V), false, true),
        2 => (s.flip(FlipDirection::UV), true, true),
        _ => (s.inverse(), true, true),
    };
    cx.label(["flip-u", "flip-v", "flip-uv", "invert"][k as usize]);
    cx.nontrivial_if(r.du != r.dv || r.cps.len() != r.cps[0].len());
    let ((ua, ub), (va, vb)) = r.domain();
    let su = r.ku[0] + r.ku[r.ku.len() - 1];
    let sv = r.kv[0] + r.kv[r.kv.len() - 1];
    let tol = 1e-7 * r.scale();
    let ((xa, xb), (ya, yb)) = x.knots_domain();
    for _ in 0..6 {
        let (u, v) = (cx.src.real(ua, ub), cx.src.real(va, vb));
        let (w, z) = (if fu { su - u } else { u }.clamp(xa, xb), if fv { sv - v } else { v }.clamp(ya, yb));
        let (p, q) = (pv(&x.point_at(w, z)), r.point(u, v));
        ensure!(dist(&p, &q) <= tol, "surface-point", "flipped at ({w},{z}): {p:?}, original at ({u},{v}): {q:?}");
    }
    Ok(())
}

/// the reversed compound curve runs through the same points backwards, starting at its end
fn compound(cx: &mut Cx) -> R {
    let n = cx.src.int(1, 4);
    let chain = gen_chain(&mut cx.src, Opt { extra: (0, 4), ..Opt::default() }, n, false);
    let c = ACC::new(&chain);
    if c.spans().len() != n {
        return discard("not-joined");
    }
    let model = c.spans();
    note!(cx, "spans {chain:?}");
    cx.nontrivial_if(n > 1);
    let total = *model[n - 1].knots.last().unwrap();
    let first = model[0].knots[0];
    let x = c.invert();
    let tol = 1e-7 * model.iter().map(|m| m.scale()).fold(0., f64::max);
    ensure!(x.spans().len() == n, "compound-count", "{} spans", x.spans().len());
    for i in 0..=12 {
        let t = first + (total - first) * (i as f64 / 12.);
        let t = t.min(total);
        let xs = x.spans();
        // (the ends may differ by rounding)
        let (xa, xb) = (xs[0].domain().0, xs[n - 1].domain().1);
        ensure!((xa - first).abs() < 1e-9 * (1. + total) && (xb - total).abs() < 1e-9 * (1. + total), "compound-domain", "reversed domain ({xa},{xb}), original ({first},{total})");
        let w = (first + total - t).clamp(xa, xb);
        // a joint belongs to two spans, which meet there
        let (p, q) = (c.pt(t), x.pt(w));
        let (Some(p), Some(q)) = (p, q) else { return fail("compound-undefined", format!("no point at {t} or {w}")) };
        ensure!(dist(&p, &q) <= tol, "compound-point", "reversed at {w}: {q:?}, original at {t}: {p:?}");
    }
    Ok(())
}

fn region(cx: &mut Cx) -> R {
    let ext = gen_star(&mut cx.src, &[0., 0.], 4., 8., (1, 3), true);
    let hole = gen_star(&mut cx.src, &[0., 0.], 0.5, 1., (1, 3), true);
    note!(cx, "exterior {ext:?} hole {hole:?}");
    let r = Region::new(c2(&ext).into(), vec![c2(&hole).into()]);
    let x = r.inverse();
    cx.nontrivial_if(ext.degree > 1);
    for (orig, inv) in [(r.exterior(), x.exterior()), (&r.interiors()[0], &x.interiors()[0])] {
        let m = r2(&orig.spans()[0]);
        let (a, b) = m.domain();
        for i in 0..=8 {
            let t = a + (b - a) * i as f64 / 8.;
            let p = pv(&inv.spans()[0].point_at((a + b - t).clamp(a, b)));
            ensure!(dist(&p, &m.point(t)) <= 1e-7, "region-point", "reversed region at {}: {p:?} expected {:?}", a + b - t, m.point(t));
        }
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("curve", 800_000, curve), Law::new("surface", 480_000, surface), Law::new("compound", 480_000, compound), Law::new("region", 80_000, region)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C09",
        rule: "random curves, surfaces (flipped in u, v, both, inverted), compound curves of 1-4 spans and regions; non-trivial = degree >= 2 with interior knots, surfaces whose two directions differ, several spans",
        assumptions: &["compound curves of clamped spans"],
        laws: LAWS,
        probes: &[],
    })
}
