//! C23 planes, extrusions and lofts
use curvo_verif::prelude::*;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
fn valid(r: &RSurface, what: &str) -> R {
    let n = r.cps[0].len();
    ensure!(r.cps.iter().all(|x| x.len() == n) && r.ku.len() == r.cps.len() + r.du + 1 && r.kv.len() == n + r.dv + 1, format!("{what}-valid"), "malformed {r:?}");
    ensure!(r.ku.windows(2).all(|w| w[0] <= w[1]) && r.kv.windows(2).all(|w| w[0] <= w[1]), format!("{what}-knots"), "unsorted knots {r:?}");
    Ok(())
}

fn plane(cx: &mut Cx) -> R {
    let dim = cx.src.int(2, 3);
    let (c, x, y) = (gen_point(&mut cx.src, dim, 10.), gen_point(&mut cx.src, dim, 5.), gen_point(&mut cx.src, dim, 5.));
    note!(cx, "center {c:?} axes {x:?} {y:?}");
    let r = if dim == 3 {
        rs3(&NurbsSurface3D::plane(p3(&c), v3(&x), v3(&y)))
    } else {
        rs2(&NurbsSurface2D::plane(p2(&c), nalgebra::Vector2::new(x[0], x[1]), nalgebra::Vector2::new(y[0], y[1])))
    };
    valid(&r, "plane")?;
    let ((ua, ub), (va, vb)) = r.domain();
    cx.nontrivial_if(norm(&x) > 0. && norm(&y) > 0.);
    for _ in 0..4 {
        let (f, g) = (cx.src.real(0., 1.), cx.src.real(0., 1.));
        let (p, q) = (r.point(ua + (ub - ua) * f, va + (vb - va) * g), add(&c, &add(&scale(&x, 2. * f - 1.), &scale(&y, 2. * g - 1.))));
        ensure!(dist(&p, &q) <= 1e-9 * 20., "plane", "at fractions ({f},{g}): {p:?}, expected {q:?}");
    }
    Ok(())
}

fn extrude(cx: &mut Cx) -> R {
    let c = gen_curve(&mut cx.src, Opt::default());
    let t = gen_point(&mut cx.src, c.dim(), 10.);
    note!(cx, "profile {c:?} translation {t:?}");
    cx.label_if(!c.clamped(), "unclamped");
    cx.label_if(c.is_rational(), "rational");
    cx.nontrivial_if(c.is_rational() && norm(&t) > 0.);
    let r = if c.dim() == 3 { rs3(&NurbsSurface3D::extrude(&c3(&c), &v3(&t))) } else { rs2(&NurbsSurface2D::extrude(&c2(&c), &nalgebra::Vector2::new(t[0], t[1]))) };
    valid(&r, "extrude")?;
    let ((ua, ub), dv) = r.domain();
    ensure!(dv == c.domain(), "extrude-domain", "v domain {dv:?}, profile {:?}", c.domain());
    for v in c.probe_params(2) {
        let f = cx.src.real(0., 1.);
        // from the translated profile back to the profile
        let (p, q) = (r.point(ua + (ub - ua) * f, v), add(&c.point(v), &scale(&t, 1. - f)));
        ensure!(dist(&p, &q) <= 1e-9 * (c.scale() + norm(&t)), "extrude", "at fraction {f}, {v}: {p:?}, expected {q:?}");
    }
    Ok(())
}

/// where along v is the section? (largest distance over the section's parameters)
fn at_section(r: &RSurface, c: &RCurve, v: f64) -> f64 {
    let ((ua, ub), _) = r.domain();
    let (a, b) = c.domain();
    (0..7).map(|i| i as f64 / 6.).map(|f| dist(&r.point(ua + (ub - ua) * f, v), &c.point(a + (b - a) * f))).fold(0., f64::max)
}

fn loft(cx: &mut Cx) -> R {
    let n = cx.src.int(2, 6);
    let dim = cx.src.int(2, 3);
    let rational = cx.src.chance(1, 3);
    let same = cx.src.chance(1, 4);
    let wild = cx.src.bool();
    let o = Opt { dim: Some(dim), deg: (1, 4), extra: (0, 4), unclamped: true, rational, radius: 3., ..Opt::default() };
    let first = gen_curve(&mut cx.src, o);
    let cs: Vec<RCurve> = (0..n)
        .map(|i| {
            let mut c = if same { first.clone() } else { gen_curve(&mut cx.src, o) };
            // sections one after the other, or anywhere
            let off = if wild { gen_point(&mut cx.src, dim, 10.) } else { [vec![0.; dim - 1], vec![4. * i as f64 + cx.src.real(0., 3.)]].concat() };
            for p in c.cps.iter_mut() {
                let w = p[dim];
                let q: Vec<f64> = p[..dim].iter().zip(&off).map(|(x, o)| x + o * w).collect();
                p[..dim].copy_from_slice(&q);
            }
            c
        })
        .collect();
    let deg = if cx.src.chance(1, 4) { None } else { Some(cx.src.int(1, 5)) };
    note!(cx, "sections {cs:?} degree {deg:?}");
    // coinciding neighbours have no chord between them
    for w in cs.windows(2) {
        if (0..5).all(|i| {
            let f = i as f64 / 4.;
            let at = |c: &RCurve| {
                let (a, b) = c.domain();
                c.point(a + (b - a) * f)
            };
            dist(&at(&w[0]), &at(&w[1])) < 0.05
        }) {
            return discard("coincide");
        }
    }
    cx.label_if(rational, "rational");
    cx.label_if(cs.iter().any(|c| !c.clamped()), "unclamped");
    cx.label_if(cs.iter().any(|c| c.degree != cs[0].degree), "degrees-differ");
    cx.label_if(cs.iter().any(|c| c.domain() != cs[0].domain()), "domains-differ");
    cx.nontrivial_if(n > 2 && deg.map(|d| d > 1).unwrap_or(true));
    let r = if dim == 3 {
        rs3(&NurbsSurface3D::try_loft(&cs.iter().map(c3).collect::<Vec<_>>(), deg).map_err(err("loft"))?)
    } else {
        rs2(&NurbsSurface2D::try_loft(&cs.iter().map(c2).collect::<Vec<_>>(), deg).map_err(err("loft"))?)
    };
    valid(&r, "loft")?;
    let du = cs.iter().map(|c| c.degree).max().unwrap();
    ensure!(r.du == du && r.dv == deg.unwrap_or(du).min(n - 1), "loft-degree", "degrees {} {}", r.du, r.dv);
    let sc = cs.iter().map(|c| c.scale()).fold(0., f64::max);
    let (_, (va, vb)) = r.domain();
    let mut last = va;
    for (i, c) in cs.iter().enumerate() {
        let (v, d) = if i == 0 {
            (va, at_section(&r, c, va))
        } else if i == n - 1 {
            (vb, at_section(&r, c, vb))
        } else {
            // further along than the section before it
            let m = 400;
            let f = |k: usize| last + (vb - last) * k as f64 / m as f64;
            let ds: Vec<f64> = (0..=m).map(|k| at_section(&r, c, f(k))).collect();
            let mut best = (f64::MAX, va);
            for k in 0..=m {
                let (lo, hi) = (k.saturating_sub(1), (k + 1).min(m));
                if ds[k] <= ds[lo] && ds[k] <= ds[hi] {
                    let (v, d) = golden(f(lo), f(hi), |v| at_section(&r, c, v));
                    if d < best.0 - 1e-9 {
                        best = (d, v);
                    }
                }
            }
            (best.1, best.0)
        };
        ensure!(d <= 1e-5 * sc, if i == 0 || i == n - 1 { "loft-end" } else { "loft-section" }, "section {i} is {d} away from the surface (v = {v}) {r:?}");
        last = v;
    }
    Ok(())
}

static LAWS: &[Law] = &[Law::new("plane", 200_000, plane), Law::new("extrude", 400_000, extrude), Law::new("loft", 1_200, loft)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C23",
        rule: "planes and extrusions in 2D/3D; lofts through 2-6 sections of degrees 1-4, in order or anywhere, rational or not, clamped or not, with the same or different degrees, knots and domains, loft degrees 1-5; non-trivial = rational profile, at least three sections and loft degree >= 2",
        assumptions: &["neighbouring sections do not coincide", "positive weights"],
        laws: LAWS,
        probes: &[],
    })
}
