//! C08 Bezier decomposition
use curvo_verif::prelude::*;

fn decompose(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { extra: (0, 9), ..Opt::default() });
    let c = AC::new(&r);
    note!(cx, "curve {r:?}");
    let v = c.bezier().map_err(|e| Fail { sig: "error".into(), msg: e })?;
    let (a, b) = r.domain();
    let spans: Vec<(f64, f64)> = r.distinct().windows(2).map(|w| (w[0].0, w[1].0)).filter(|s| s.0 >= a && s.1 <= b).collect();
    cx.label_if(!r.clamped(), "unclamped");
    cx.label(&format!("{}-spans", spans.len().min(5)));
    cx.nontrivial_if(spans.len() > 1 && r.degree > 1);
    if r.clamped() {
        ensure!(v.len() == spans.len(), "count", "{} segments for {} knot spans: {:?}", v.len(), spans.len(), v.iter().map(|s| s.domain()).collect::<Vec<_>>());
    }
    let tol = 1e-8 * r.scale();
    let mut last: Option<AC> = None;
    for (s, t) in &spans {
        let hits: Vec<&AC> = v.iter().filter(|x| (x.domain().0 - s).abs() < 1e-9 && (x.domain().1 - t).abs() < 1e-9).collect();
        ensure!(hits.len() == 1, "domain", "{} segments on span ({s},{t}): {:?}", hits.len(), v.iter().map(|s| s.domain()).collect::<Vec<_>>());
        let x = hits[0];
        let m = x.model();
        if r.clamped() || spans.len() > 1 {
            ensure!(m.degree == r.degree && m.cps.len() == r.degree + 1 && m.clamped() && m.interior().is_empty(), "bezier", "not a Bezier segment: {m:?}");
        }
        for i in 0..=6 {
            let u = s + (t - s) * i as f64 / 6.;
            let side = if i == 6 { Side::Left } else { Side::Right };
            let (p, q) = (x.pt(u.clamp(x.domain().0, x.domain().1)), &r.derivs(u, 0, side)[0]);
            ensure!(dist(&p, q) <= tol, "shape", "at {u}: {p:?} expected {q:?}");
        }
        // derivatives agree too
        if r.degree > 1 {
            let u = s + (t - s) * 0.37;
            let (p, q) = (x.tangent(u), &r.derivs(u, 1, Side::Right)[1]);
            ensure!(dist(&p, q) <= 1e-6 * (1. + norm(q)), "tangent", "at {u}: {p:?} expected {q:?}");
        }
        if let Some(l) = &last {
            let (p, q) = (l.pt(l.domain().1), x.pt(x.domain().0));
            ensure!(dist(&p, &q) <= tol, "joint", "segments do not meet at {s}: {p:?} {q:?}");
        }
        last = Some(x.clone());
    }
    Ok(())
}
static LAWS: &[Law] = &[Law::new("decompose", 450_000, decompose)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C08",
        rule: "random curves of degree 1-5 with up to 9 extra control points (rational, clamped, unclamped, repeated knots); non-trivial = degree >= 2 and more than one knot span",
        assumptions: &["interior multiplicities at most the degree", "for unclamped curves only the segments on the domain are judged"],
        laws: LAWS,
        probes: &[],
    })
}
