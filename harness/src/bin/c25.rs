//! C25 frames along curves and swept surfaces
use curvo_verif::prelude::*;
use std::f64::consts::TAU;

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
/// the unit tangent: right-hand at knots, left-hand at the end
fn tangent(r: &RCurve, u: f64) -> Option<Vec<f64>> {
    let side = if u >= r.domain().1 { Side::Left } else { Side::Right };
    let d = &r.derivs(u, 1, side)[1];
    (norm(d) > 1e-6 * r.scale()).then(|| unit(d))
}
/// a curve in space whose tangent vanishes nowhere it is asked for
fn rail(s: &mut Src) -> (&'static str, RCurve) {
    match s.draw(4) {
        0 => {
            let (x, y) = gen_frame(s);
            let o = gen_point(s, 3, 5.);
            let (a, b) = (s.real(0., TAU), s.real(0.3, TAU));
            ("arc", r3(&NurbsCurve3D::try_arc(&p3(&o), &v3(&x), &v3(&y), s.log_real(0.5, 8.), a, a + b).unwrap()))
        }
        1 => {
            let (p, d) = (gen_point(s, 3, 5.), unit(&gen_dir(s)));
            let l = s.log_real(0.5, 10.);
            let n = s.int(2, 4);
            // along the axes too
            let d = if s.chance(1, 3) { let k = s.draw(3) as usize; let mut e = vec![0.; 3]; e[k] = if s.bool() { 1. } else { -1. }; e } else { d };
            let pts: Vec<_> = (0..n).map(|i| p3(&add(&p, &scale(&d, l * i as f64 / (n - 1) as f64)))).collect();
            ("line", r3(&NurbsCurve3D::polyline(&pts, s.bool())))
        }
        2 => ("march", gen_march(s, Opt { dim: Some(3), deg: (1, 4), extra: (0, 5), unclamped: true, ..Opt::default() })),
        _ => ("any", gen_curve(s, Opt { dim: Some(3), deg: (1, 4), extra: (0, 5), unclamped: true, ..Opt::default() })),
    }
}
fn gen_dir(s: &mut Src) -> Vec<f64> {
    gen_frame(s).0
}
/// the frame of least rotation: the smallest turn that takes one tangent to the next
fn turned(n: &[f64], t0: &[f64], t1: &[f64]) -> Vec<f64> {
    let c = dot(t0, t1);
    sub(n, &scale(&add(t0, t1), dot(t1, n) / (1. + c)))
}
fn close(a: &[f64], b: &[f64], eps: f64) -> bool {
    dist(a, b) <= eps
}

fn frames(cx: &mut Cx) -> R {
    let (name, r) = rail(&mut cx.src);
    let (a, b) = r.domain();
    let n = cx.src.int(0, 12);
    let inner: Vec<f64> = r.interior().iter().map(|k| k.0).collect();
    let order = cx.src.draw(3);
    let mut us: Vec<f64> = (0..n)
        .map(|i| match order {
            0 => if n == 1 { a } else { (a + (b - a) * i as f64 / (n - 1) as f64).min(b) },
            _ => gen_param(&mut cx.src, a, b, &inner),
        })
        .collect();
    if order == 1 {
        us.sort_by(f64::total_cmp);
    }
    note!(cx, "{name} {r:?} parameters {us:?}");
    cx.label(name);
    cx.nontrivial_if(n > 2 && name != "line");
    let fs = c3(&r).compute_frenet_frames(&us);
    ensure!(fs.len() == n, "count", "{} frames for {n} parameters", fs.len());
    let Some(ts) = us.iter().map(|u| tangent(&r, *u)).collect::<Option<Vec<_>>>() else { return discard("no-tangent") };
    for (i, (f, u)) in fs.iter().zip(&us).enumerate() {
        let (p, t, m, bi) = (pv(f.position()), vv(f.tangent()), vv(f.normal()), vv(f.binormal()));
        ensure!(close(&p, &r.point(*u), 1e-8 * (r.scale() + norm(&p))), "position", "frame {i} at {p:?}, the curve at {u}: {:?}", r.point(*u));
        ensure!(close(&t, &ts[i], 1e-5), "tangent", "tangent {t:?} at {u}, expected {:?}", ts[i]);
        ensure!((norm(&m) - 1.).abs() <= 1e-6 && dot(&m, &t).abs() <= 1e-5, "normal", "normal {m:?} tangent {t:?} at {u}");
        ensure!(close(&bi, &cross(&t, &m), 1e-5), "binormal", "binormal {bi:?}, tangent x normal {:?} at {u}", cross(&t, &m));
        if i > 0 {
            let m0 = vv(fs[i - 1].normal());
            // opposite tangents: any half turn
            if dot(&ts[i - 1], &ts[i]) > -0.99 {
                let w = turned(&m0, &ts[i - 1], &ts[i]);
                ensure!(close(&m, &w, 1e-4), "turn", "frame {i}: normal {m:?}, the smallest turn from {m0:?} gives {w:?} (tangents {:?} {:?})", ts[i - 1], ts[i]);
            }
        }
        let x = f.matrix();
        let q = gen_point(&mut cx.src, 3, 3.);
        let want = add(&p, &add(&scale(&bi, -q[0]), &add(&scale(&m, q[1]), &scale(&t, q[2]))));
        ensure!(close(&pv(&(x * p3(&q))), &want, 1e-4 * (1. + norm(&q))), "matrix", "{q:?} is moved to {:?}, expected {want:?}", x * p3(&q));
        ensure!(close(&vv(&(f.rotation() * v3(&q))), &sub(&want, &p), 1e-4 * (1. + norm(&q))), "rotation", "{q:?} is turned to {:?}", f.rotation() * v3(&q));
        let g = f.cast::<f64>();
        ensure!(g.position() == f.position() && g.tangent() == f.tangent() && g.normal() == f.normal() && g.binormal() == f.binormal(), "cast", "{g:?} {f:?}");
    }
    Ok(())
}

fn sweep(cx: &mut Cx) -> R {
    let (name, r) = loop_free(&mut cx.src);
    let o = Opt { dim: Some(3), deg: (1, 3), extra: (0, 3), unclamped: true, radius: 0.5, ..Opt::default() };
    let profile = gen_curve(&mut cx.src, o);
    let deg = if cx.src.chance(1, 4) { None } else { Some(cx.src.int(1, 4)) };
    note!(cx, "{name} rail {r:?} profile {profile:?} degree {deg:?}");
    cx.label(name);
    cx.nontrivial_if(name != "line");
    let (a, b) = r.domain();
    let n = r.cps.len() * 2;
    let us: Vec<f64> = (0..n).map(|i| if i + 1 == n { b } else { a + (b - a) * i as f64 / (n - 1) as f64 }).collect();
    let Some(ts) = us.iter().map(|u| tangent(&r, *u)).collect::<Option<Vec<_>>>() else { return discard("no-tangent") };
    let ps: Vec<Vec<f64>> = us.iter().map(|u| r.point(*u)).collect();
    if ts.windows(2).any(|w| dot(&w[0], &w[1]) < -0.9) || ps.windows(2).any(|w| dist(&w[0], &w[1]) < 0.01 * r.scale()) {
        return discard("sharp-turn");
    }
    let s = rs3(&NurbsSurface3D::try_sweep(&c3(&profile), &c3(&r), deg).map_err(err("sweep"))?);
    ensure!(s.du == profile.degree && s.dv == deg.unwrap_or(profile.degree).min(n - 1), "degrees", "degrees {} {}", s.du, s.dv);
    // the first frame: any normal; it is the one of the frames of the rail
    let f = c3(&r).compute_frenet_frames(&us[..1]);
    let mut m = vv(f[0].normal());
    let ((pa, pb), (ua, ub)) = (profile.domain(), s.domain().0);
    let (va, vb) = s.domain().1;
    ensure!((pb - pa - (ub - ua)).abs() < 1e-9 * (1. + pb.abs()), "u-domain", "{:?} {:?}", s.domain(), profile.domain());
    let xs: Vec<f64> = (0..5).map(|i| pa + (pb - pa) * i as f64 / 4.).collect();
    let sc = s.scale();
    let mut last = va;
    for i in 0..n {
        if i > 0 {
            m = unit(&turned(&m, &ts[i - 1], &ts[i]));
        }
        let bi = cross(&ts[i], &m);
        let section: Vec<Vec<f64>> = xs
            .iter()
            .map(|x| {
                let q = profile.point(*x);
                add(&ps[i], &add(&scale(&bi, -q[0]), &add(&scale(&m, q[1]), &scale(&ts[i], q[2]))))
            })
            .collect();
        let away = |v: f64| xs.iter().zip(&section).map(|(x, q)| dist(&s.point((*x - pa + ua).min(ub), v), q)).fold(0., f64::max);
        let (v, d) = if i == 0 {
            (va, away(va))
        } else if i + 1 == n {
            (vb, away(vb))
        } else {
            let k = 40 * n;
            let f = |j: usize| last + (vb - last) * j as f64 / k as f64;
            let ds: Vec<f64> = (0..=k).map(|j| away(f(j))).collect();
            let mut best = (va, f64::MAX);
            for j in 0..=k {
                let (lo, hi) = (j.saturating_sub(1), (j + 1).min(k));
                if ds[j] <= ds[lo] && ds[j] <= ds[hi] {
                    let g = golden(f(lo), f(hi), &away);
                    if g.1 < best.1 - 1e-7 * sc {
                        best = g;
                    }
                }
            }
            best
        };
        ensure!(d <= 1e-5 * sc, if i == 0 || i + 1 == n { "sweep-end" } else { "sweep-section" }, "section {i} of {n} is {d} away from the surface (v = {v})");
        last = v;
    }
    if name == "line" {
        // a straight rail: the profile moved along it
        let bi = cross(&ts[0], &m);
        let l = dist(&ps[0], &ps[n - 1]);
        for x in &xs {
            let q = profile.point(*x);
            let at = add(&ps[0], &add(&scale(&bi, -q[0]), &add(&scale(&m, q[1]), &scale(&ts[0], q[2]))));
            for j in 0..=10 {
                let d = sub(&s.point((*x - pa + ua).min(ub), va + (vb - va) * j as f64 / 10.), &at);
                let along = dot(&d, &ts[0]);
                ensure!(norm(&sub(&d, &scale(&ts[0], along))) <= 1e-5 * sc && along >= -1e-5 * sc && along <= l + 1e-5 * sc, "straight", "at ({x}, {j}/10): {d:?} from the profile, the rail is {:?} long {l}", ts[0]);
            }
        }
    }
    Ok(())
}
fn loop_free(s: &mut Src) -> (&'static str, RCurve) {
    rail(s)
}

static LAWS: &[Law] = &[Law::new("frames", 400_000, frames), Law::new("sweep", 1_500, sweep)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C25",
        rule: "arcs, lines (along the axes too), marching and wild curves in space of degrees 1-4, clamped or not, rational or not; up to 12 parameters in order, repeated or not, or in any order, or none; profiles of degrees 1-3 swept along them with every degree; non-trivial = more than two frames, rail not straight",
        assumptions: &["the tangent vanishes at no parameter asked for; between opposite tangents any half turn is allowed", "rails which turn sharply between neighbouring sections, or sections that coincide, are left out of sweeps"],
        laws: LAWS,
        probes: &[],
    })
}
