//! C13 circles, ellipses and arcs
use curvo_verif::prelude::*;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

struct Fig {
    c: Vec<f64>,
    x: Vec<f64>,
    y: Vec<f64>,
}
fn figure(s: &mut Src, dim: usize) -> Fig {
    let c = gen_point(s, dim, 8.);
    let r = gen_rotation(s, dim);
    let flip = s.bool();
    Fig { c, x: r[0].clone(), y: scale(&r[1], if flip { -1. } else { 1. }) }
}
fn arc_curve(f: &Fig, rx: f64, ry: f64, s: f64, e: f64, kind: u64) -> Result<AC, String> {
    if f.c.len() == 2 {
        let (c, x, y) = (vp::<2>(&f.c), vo::<2>(&f.x), vo::<2>(&f.y));
        let r = match kind {
            0 => NurbsCurve2D::try_circle(&c, &x, &y, rx),
            1 => NurbsCurve2D::try_arc(&c, &x, &y, rx, s, e),
            2 => NurbsCurve2D::try_ellipse(&c, &(x * rx), &(y * ry)),
            _ => NurbsCurve2D::try_ellipse_arc(&c, &(x * rx), &(y * ry), s, e),
        };
        r.map(AC::D2).map_err(|e| e.to_string())
    } else {
        let (c, x, y) = (vp::<3>(&f.c), vo::<3>(&f.x), vo::<3>(&f.y));
        let r = match kind {
            0 => NurbsCurve3D::try_circle(&c, &x, &y, rx),
            1 => NurbsCurve3D::try_arc(&c, &x, &y, rx, s, e),
            2 => NurbsCurve3D::try_ellipse(&c, &(x * rx), &(y * ry)),
            _ => NurbsCurve3D::try_ellipse_arc(&c, &(x * rx), &(y * ry), s, e),
        };
        r.map(AC::D3).map_err(|e| e.to_string())
    }
}

fn arc(cx: &mut Cx) -> R {
    let dim = 2 + cx.src.draw(2) as usize;
    let f = figure(&mut cx.src, dim);
    let kind = cx.src.draw(4);
    let rx = cx.src.log_real(0.2, 10.);
    let ry = if kind < 2 { rx } else { cx.src.log_real(0.2, 10.) };
    let (s, e) = if kind % 2 == 0 {
        (0., TAU)
    } else {
        let s = if cx.src.bool() { cx.src.real(-TAU, TAU) } else { FRAC_PI_2 * (cx.src.int(0, 8) as f64 - 4.) };
        let th = match cx.src.draw(4) {
            0 | 1 => cx.src.real(0.05, TAU),
            2 => FRAC_PI_2 * cx.src.int(1, 4) as f64,
            // next to whole quarter turns, up to the last bits
            _ => {
                let d = cx.src.log_real(1e-16, 0.3);
                let q = cx.src.int(1, 4);
                FRAC_PI_2 * q as f64 + if q == 4 || cx.src.bool() { -d } else { d }
            }
        };
        cx.label_if((th - PI).abs() < 0.05 && th != PI, "about half a turn");
        (s, s + th)
    };
    note!(cx, "kind {kind} centre {:?} axes {:?} {:?} radii {rx} {ry} angles {s}..{e}", f.c, f.x, f.y);
    cx.label(["circle", "arc", "ellipse", "ellipse-arc"][kind as usize]);
    cx.nontrivial_if(kind % 2 == 1);
    let c = arc_curve(&f, rx, ry, s, e, kind).map_err(|e| Fail { sig: "error".into(), msg: e })?;
    let (a, b) = c.domain();
    ensure!((a - s).abs() < 1e-9 && (b - e).abs() < 1e-9, "domain", "domain ({a},{b}) for angles {s}..{e}");
    let at = |t: f64| add(&f.c, &add(&scale(&f.x, rx * t.cos()), &scale(&f.y, ry * t.sin())));
    let tol = 1e-7 * (rx + ry + norm(&f.c));
    ensure!(dist(&c.pt(a), &at(s)) <= tol, "start", "starts at {:?} expected {:?}", c.pt(a), at(s));
    ensure!(dist(&c.pt(b), &at(e)) <= tol, "end", "ends at {:?} expected {:?}", c.pt(b), at(e));
    ensure!(dist(&c.pt(0.5 * (a + b)), &at(0.5 * (s + e))) <= tol, "middle", "middle {:?} expected {:?}", c.pt(0.5 * (a + b)), at(0.5 * (s + e)));
    // every point lies on the conic, in its plane, in angular order
    let n = 64;
    let mut last = s;
    for i in 0..=n {
        let u = a + (b - a) * i as f64 / n as f64;
        let d = sub(&c.pt(u.clamp(a, b)), &f.c);
        let (px, py) = (dot(&d, &f.x) / rx, dot(&d, &f.y) / ry);
        ensure!(((px * px + py * py).sqrt() - 1.).abs() <= 1e-8 * (1. + norm(&f.c) / rx.min(ry)), "on-conic", "at {u}: relative radius {}", (px * px + py * py).sqrt());
        let back = add(&scale(&f.x, px * rx), &scale(&f.y, py * ry));
        ensure!(dist(&back, &d) <= tol, "in-plane", "at {u}: leaves the plane");
        let mut t = py.atan2(px);
        t += ((last - 1e-5 - t) / TAU).ceil() * TAU;
        ensure!(t - last < 0.5, "monotone", "at {u}: angle jumps from {last} to {t}");
        // the rational parameterisation stays close to the angle (0.1 rad per quarter turn)
        ensure!((t - u).abs() < 0.75, "angle", "at {u}: angle {t}");
        last = t.max(last);
    }
    ensure!((last - e).abs() < 1e-4, "sweep", "the last angle is {last}, expected {e}");
    // arc length of a circle
    if kind < 2 {
        let l = c.length().map_err(|e| Fail { sig: "length-error".into(), msg: e })?;
        ensure!((l - rx * (e - s)).abs() <= 1e-4 * rx * (e - s), "length", "length {l} expected {}", rx * (e - s));
    }
    // a gap of the size of rounding errors is either
    let gap = (TAU - (e - s)).abs();
    ensure!((kind % 2 == 1 && gap > 0. && gap < 1e-9) || c.is_closed() == (gap < 1e-9), "closed", "is_closed {} for a sweep of {}", c.is_closed(), e - s);
    Ok(())
}

fn bad(cx: &mut Cx) -> R {
    let f = figure(&mut cx.src, 3);
    let s = cx.src.real(-6., 6.);
    let e = s - cx.src.real(0., 6.);
    note!(cx, "angles {s}..{e}");
    cx.nontrivial();
    ensure!(arc_curve(&f, 1., 1., s, e, 1).is_err() && arc_curve(&f, 2., 1., s, e, 3).is_err(), "bad-angles", "accepted angles {s}..{e}");
    Ok(())
}
static LAWS: &[Law] = &[Law::new("arc", 180_000, arc), Law::new("bad", 15_000, bad)];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C13",
        rule: "random centres, orthonormal axes (2D/3D, both orientations), radii 0.2-10, start angles in [-2pi, 2pi], sweeps up to a full turn, also next to whole quarter turns; non-trivial = arcs (not full turns)",
        assumptions: &["orthogonal axes", "sweeps at most a full turn"],
        laws: LAWS,
        probes: &[],
    })
}
