//! C06 degree elevation
use curvo_verif::prelude::*;

fn elevate(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt { deg: (1, 4), ..Opt::default() });
    let c = AC::new(&r);
    let t = cx.src.int(0, r.degree + 3);
    note!(cx, "curve {r:?} to degree {t}");
    cx.label(&format!("{}-{}", r.degree, t.max(r.degree) - r.degree));
    cx.label_if(!r.clamped(), "unclamped");
    cx.label_if(!r.interior().is_empty(), "interior-knots");
    let x = c.elevate(t).map_err(|e| Fail { sig: "elevate-error".into(), msg: e })?;
    let m = x.model();
    if t <= r.degree {
        ensure!(m == r, "unchanged", "lower target changed the curve: {m:?}");
        return Ok(());
    }
    cx.nontrivial_if(!r.interior().is_empty());
    ensure!(m.degree == t, "degree", "degree {}", m.degree);
    ensure!(m.knots.len() == m.cps.len() + m.degree + 1, "valid", "{} knots {:?} for {} control points of degree {}", m.knots.len(), m.knots, m.cps.len(), m.degree);
    let (a, b) = r.domain();
    let mut want = vec![a; t + 1];
    want.extend(r.interior().iter().flat_map(|k| vec![k.0; k.1 + t - r.degree]));
    want.extend(vec![b; t + 1]);
    ensure!(m.knots.len() == want.len() && m.knots.iter().zip(&want).all(|(x, y)| (x - y).abs() < 1e-12), "knots", "knots {:?} expected {want:?}", m.knots);
    let tol = 1e-8 * r.scale();
    for u in r.probe_params(5) {
        let (p, q) = (x.pt(u), r.point(u));
        ensure!(dist(&p, &q) <= tol, "shape", "at {u}: {p:?} expected {q:?}");
    }
    Ok(())
}
static LAWS: &[Law] = &[Law::new("elevate", 2_400_000, elevate)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property { id: "C06", rule: "random clamped and unclamped curves of degree 1-4 elevated to a target from 0 to degree+3; non-trivial = really elevated and at least one interior knot", assumptions: &["interior multiplicities at most the degree"], laws: LAWS, probes: &[] })
}
