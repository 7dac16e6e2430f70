//! C10 transforming commutes with evaluating
use curvo_verif::prelude::*;

fn mag(m: &Affine, s: f64) -> f64 {
    norm(&m.b) + m.a.iter().map(|r| norm(r)).sum::<f64>() * s + 1.
}

fn curve(cx: &mut Cx) -> R {
    let r = gen_curve(&mut cx.src, Opt::default());
    let m = gen_affine(&mut cx.src, r.dim());
    note!(cx, "curve {r:?} map {m:?}");
    cx.label(&format!("{}d", r.dim()));
    cx.nontrivial_if(r.degree > 1 && r.is_rational());
    let c = AC::new(&r);
    let x = c.transformed(&m);
    let tol = 1e-8 * mag(&m, r.scale());
    let (a, b) = r.domain();
    ensure!(x.domain() == (a, b) && x.knots() == r.knots && x.degree() == r.degree, "parameters", "the parameterisation changed");
    for i in 0..x.weights().len() {
        ensure!((x.weights()[i] - r.weights()[i]).abs() < 1e-10 * (1. + r.weights()[i]), "weights", "weight {i} changed");
    }
    for i in 0..=8 {
        let u = a + (b - a) * i as f64 / 8.;
        let (p, q) = (x.pt(u), m.apply(&r.point(u)));
        ensure!(dist(&p, &q) <= tol, "point", "at {u}: {p:?} expected {q:?}");
    }
    let u = cx.src.real(a, b);
    let (p, q) = (x.tangent(u), m.apply_vec(&c.tangent(u)));
    ensure!(dist(&p, &q) <= 1e-7 * (1. + norm(&q)) + tol * 10., "tangent", "tangent at {u}: {p:?} expected {q:?}");
    Ok(())
}

fn surface(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { deg: (1, 3), extra: (0, 3), ..Opt::default() });
    let m = gen_affine(&mut cx.src, 3);
    note!(cx, "surface {r:?} map {m:?}");
    let x = s3(&r).transformed(&m.m4());
    cx.nontrivial_if(r.cps.iter().flatten().any(|p| p[3] != r.cps[0][0][3]));
    let tol = 1e-8 * mag(&m, r.scale());
    let ((a, b), (c, d)) = r.domain();
    for _ in 0..5 {
        let (u, v) = (cx.src.real(a, b), cx.src.real(c, d));
        let (p, q) = (pv(&x.point_at(u, v)), m.apply(&r.point(u, v)));
        ensure!(dist(&p, &q) <= tol, "surface-point", "at ({u},{v}): {p:?} expected {q:?}");
    }
    // a trimmed surface moves with its surface; its parameter space boundary stays
    let hole = gen_star(&mut cx.src, &[0.5 * (a + b), 0.5 * (c + d)], 0.1, 0.2, (1, 3), true);
    let t = TrimmedSurface::new(s3(&r), Some(c2(&hole)), vec![c2(&hole)]);
    let y = t.transformed(&m.m4());
    ensure!(y.exterior() == t.exterior() && y.interiors() == t.interiors(), "trim-curves", "the trimming curves changed");
    let (u, v) = (cx.src.real(a, b), cx.src.real(c, d));
    ensure!(dist(&pv(&y.surface().point_at(u, v)), &m.apply(&r.point(u, v))) <= tol, "trimmed-point", "at ({u},{v})");
    Ok(())
}

fn compound(cx: &mut Cx) -> R {
    let n = cx.src.int(1, 3);
    let chain = gen_chain(&mut cx.src, Opt { extra: (0, 3), ..Opt::default() }, n, false);
    let m = gen_affine(&mut cx.src, chain[0].dim());
    note!(cx, "spans {chain:?} map {m:?}");
    let c = ACC::new(&chain);
    let x = c.transformed(&m);
    cx.nontrivial_if(n > 1);
    let (s, t) = (c.spans(), x.spans());
    ensure!(s.len() == t.len(), "spans", "{} spans became {}", s.len(), t.len());
    for (s, t) in s.iter().zip(&t) {
        let (a, b) = s.domain();
        ensure!(t.knots == s.knots, "compound-parameters", "knots changed");
        for i in 0..=4 {
            let u = a + (b - a) * i as f64 / 4.;
            let (p, q) = (t.point(u), m.apply(&s.point(u)));
            ensure!(dist(&p, &q) <= 1e-8 * mag(&m, s.scale()), "compound-point", "at {u}: {p:?} expected {q:?}");
        }
    }
    // region
    let e = gen_star(&mut cx.src, &[0., 0.], 4., 8., (1, 3), true);
    let h: Vec<RCurve> = (0..2).map(|_| gen_star(&mut cx.src, &[0., 0.], 1., 2., (1, 3), true)).collect();
    let m = gen_affine(&mut cx.src, 2);
    let g = Region::new(c2(&e).into(), h.iter().map(|h| c2(h).into()).collect());
    let g2 = g.transformed(&m.m3());
    ensure!(g2.interiors().len() == 2, "region-interiors", "interiors lost");
    for (o, x) in std::iter::once((&e, g2.exterior())).chain(h.iter().zip(g2.interiors())) {
        let (a, b) = r2(&x.spans()[0]).domain();
        let (oa, ob) = o.domain();
        for i in 0..=4 {
            let f = i as f64 / 4.;
            let (p, q) = (pv(&x.point_at((a + (b - a) * f).clamp(a, b)).unwrap()), m.apply(&o.point((oa + (ob - oa) * f).clamp(oa, ob))));
            ensure!(dist(&p, &q) <= 1e-7 * mag(&m, 10.), "region-point", "at fraction {f}: {p:?} expected {q:?}");
        }
    }
    Ok(())
}
static LAWS: &[Law] = &[Law::new("curve", 800_000, curve), Law::new("surface", 480_000, surface), Law::new("compound", 320_000, compound)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C10",
        rule: "random curves, surfaces, trimmed surfaces, compound curves and regions under random invertible affine maps (translations, rotations, similarities, anisotropic and reflecting maps); non-trivial = rational with varying weights / several spans",
        assumptions: &["affine maps with condition number below about 100"],
        laws: LAWS,
        probes: &[],
    })
}
