//! C20 boolean operations
use curvo_verif::prelude::{operation::BooleanOperation, *};

type Opts = CurveIntersectionSolverOptions<f64>;
type K = CompoundCurve<f64, Const<3>>;
fn e(sig: &'static str) -> impl Fn(String) -> Fail {
    move |m| Fail { sig: sig.into(), msg: m }
}
const OPS: [(BooleanOperation, &str); 3] = [(BooleanOperation::Union, "union"), (BooleanOperation::Intersection, "intersection"), (BooleanOperation::Difference, "difference")];
fn op_of(i: usize) -> BooleanOperation {
    match i {
        0 => BooleanOperation::Union,
        1 => BooleanOperation::Intersection,
        _ => BooleanOperation::Difference,
    }
}
fn apply(i: usize, a: bool, b: bool) -> bool {
    match i {
        0 => a || b,
        1 => a && b,
        _ => a && !b,
    }
}
/// the options of the library's own examples
fn opts(short: bool) -> Option<Opts> {
    let (step_size_tolerance, cost_tolerance) = if short { (1e-10, 1e-14) } else { (1e-8, 1e-10) };
    let size = FRAME.with(|f| f.get().0);
    let cost_tolerance = cost_tolerance * size * size;
    Some(Opts { minimum_distance: 1e-4 * size, knot_domain_division: 500, max_iters: 1000, step_size_tolerance, cost_tolerance })
}

thread_local! {
    /// the size at which the shapes of this case are built, and their offset
    static FRAME: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((1., 0., 0.)) };
}
fn frame(cx: &mut Cx) {
    let k = if cx.src.chance(3, 4) { 1. } else { cx.src.log_real(0.1, 10.) };
    let off = if cx.src.chance(3, 4) { [0., 0.] } else { [cx.src.real(-50., 50.) * k, cx.src.real(-50., 50.) * k] };
    cx.label_if(k < 0.5, "small");
    cx.label_if(k > 2., "large");
    note!(cx, "scaled by {k}, then moved by {off:?}");
    FRAME.with(|f| f.set((k, off[0], off[1])));
}
fn placed(r: &RCurve) -> NurbsCurve2D<f64> {
    let (k, x, y) = FRAME.with(|f| f.get());
    c2(&RCurve { cps: r.cps.iter().map(|p| vec![p[0] * k + x * p[2], p[1] * k + y * p[2], p[2]]).collect(), ..r.clone() })
}
fn unplaced(c: &NurbsCurve2D<f64>) -> RCurve {
    let (k, x, y) = FRAME.with(|f| f.get());
    let r = r2(c);
    RCurve { cps: r.cps.iter().map(|p| vec![(p[0] - x * p[2]) / k, (p[1] - y * p[2]) / k, p[2]]).collect(), ..r }
}

/// a dense closed polygon
#[derive(Clone)]
struct Poly {
    p: Vec<Vec<f64>>,
    dev: f64,
}
fn poly(rs: &[RCurve], n: usize) -> Poly {
    let mut p: Vec<Vec<f64>> = vec![];
    let mut dev = 0f64;
    for r in rs {
        let curved = r.degree > 1 || r.is_rational();
        let us = r.probe_params(if curved { n } else { 1 });
        let ps: Vec<Vec<f64>> = us.iter().map(|u| r.point(*u)).collect();
        if curved {
            for i in 0..us.len() - 1 {
                dev = dev.max(seg_dist(&ps[i], &ps[i + 1], &r.point((us[i] + us[i + 1]) / 2.)));
            }
        }
        p.extend(ps);
    }
    p.push(p[0].clone());
    p.dedup();
    Poly { p, dev }
}
impl Poly {
    fn inside(&self, q: &[f64]) -> bool {
        let mut c = false;
        for w in self.p.windows(2) {
            if (w[0][1] <= q[1]) != (w[1][1] <= q[1]) {
                let t = (q[1] - w[0][1]) / (w[1][1] - w[0][1]);
                if w[0][0] + t * (w[1][0] - w[0][0]) > q[0] {
                    c = !c;
                }
            }
        }
        c
    }
    fn dist(&self, q: &[f64]) -> f64 {
        self.p.windows(2).map(|w| seg_dist(&w[0], &w[1], q)).fold(f64::INFINITY, f64::min)
    }
    fn area(&self) -> f64 {
        self.p.windows(2).map(|w| w[0][0] * w[1][1] - w[0][1] * w[1][0]).sum::<f64>().abs() / 2.
    }
    fn bbox(&self) -> [f64; 4] {
        let mut b = [f64::INFINITY, f64::INFINITY, -f64::INFINITY, -f64::INFINITY];
        for p in &self.p {
            b = [b[0].min(p[0]), b[1].min(p[1]), b[2].max(p[0]), b[3].max(p[1])];
        }
        b
    }
}
fn seg_dist(a: &[f64], b: &[f64], q: &[f64]) -> f64 {
    let d = sub(b, a);
    let l = dot(&d, &d);
    let t = if l == 0. { 0. } else { (dot(&sub(q, a), &d) / l).clamp(0., 1.) };
    dist(&add(a, &scale(&d, t)), q)
}
fn cross2(a: &[f64], b: &[f64]) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}

/// a closed curve as its spans; joints, corners and the seam are places to keep away from
#[derive(Clone)]
struct Shape {
    rs: Vec<RCurve>,
    poly: Poly,
    corners: Vec<Vec<f64>>,
}
impl Shape {
    fn short(&self) -> bool {
        self.rs.iter().any(|r| r.domain().1 - r.domain().0 < 0.9)
    }
    fn new(rs: Vec<RCurve>) -> Shape {
        let poly = poly(&rs, 16);
        let mut corners = vec![];
        for r in &rs {
            corners.push(r.point(r.domain().0));
            if r.degree == 1 {
                corners.extend(r.points());
            }
        }
        Shape { rs, poly, corners }
    }
    fn k(&self) -> K {
        CompoundCurve::new(self.rs.iter().map(placed).collect())
    }
    fn simple(&self) -> bool {
        let p = &self.poly.p;
        let n = p.len() - 1;
        (0..n).all(|i| (i + 2..n).all(|j| (i == 0 && j == n - 1) || seg_cross(&p[i], &p[i + 1], &p[j], &p[j + 1]).is_none()))
    }
}
fn seg_cross(a: &[f64], b: &[f64], c: &[f64], d: &[f64]) -> Option<(f64, f64)> {
    let (u, v, w) = (sub(b, a), sub(d, c), sub(c, a));
    let det = cross2(&u, &v);
    if det == 0. {
        return None;
    }
    let s = cross2(&w, &v) / det;
    let t = cross2(&w, &u) / det;
    ((0. ..=1.).contains(&s) && (0. ..=1.).contains(&t)).then_some((s, t))
}

/// crossings of two outlines; None when one is not clear: too flat, too close to another, to a
/// corner or joint, or the outlines nearly touch elsewhere
fn crossings(a: &Shape, b: &Shape, gap: f64) -> Option<Vec<Vec<f64>>> {
    let mut out: Vec<Vec<f64>> = vec![];
    for w in a.poly.p.windows(2) {
        for v in b.poly.p.windows(2) {
            if let Some((s, _)) = seg_cross(&w[0], &w[1], &v[0], &v[1]) {
                let (d, f) = (sub(&w[1], &w[0]), sub(&v[1], &v[0]));
                if cross2(&d, &f).abs() < 0.3 * norm(&d) * norm(&f) {
                    return None;
                }
                let p = lerp(&w[0], &w[1], s);
                if out.iter().any(|q| dist(q, &p) < gap) {
                    return None;
                }
                out.push(p);
            }
        }
    }
    for p in a.corners.iter().chain(&b.corners) {
        if out.iter().any(|q| dist(p, q) < gap) {
            return None;
        }
    }
    for (x, y) in [(a, b), (b, a)] {
        for p in &x.poly.p {
            let d = y.poly.dist(p);
            if d < gap * 0.3 && !out.iter().any(|q| dist(q, p) < gap) {
                return None;
            }
        }
    }
    Some(out)
}

fn gen_shape(s: &mut Src, c: &[f64], size: f64) -> Shape {
    let kind = s.draw(8);
    let rs = match kind {
        0 => vec![r2(&NurbsCurve2D::try_circle(&p2(c), &Vector2::x(), &Vector2::y(), s.real(0.5, 1.) * size).unwrap())],
        1 | 7 => {
            let (w, h) = (s.real(0.3, 1.) * size, s.real(0.3, 1.) * size);
            let th = if s.bool() { 0. } else { s.real(0., 3.) };
            let (ct, st) = (f64::cos(th), f64::sin(th));
            let corners: Vec<[f64; 2]> = if kind == 1 {
                vec![[-w, -h], [w, -h], [w, h], [-w, h], [-w, -h]]
            } else {
                // a U with walls of thickness t
                let t = s.real(0.2, 0.8) * w.min(h);
                vec![[-w, -h], [w, -h], [w, h], [w - t, h], [w - t, t - h], [t - w, t - h], [t - w, h], [-w, h], [-w, -h]]
            };
            let mut pts: Vec<Vec<f64>> = corners.iter().map(|p| vec![c[0] + ct * p[0] - st * p[1], c[1] + st * p[0] + ct * p[1]]).collect();
            if s.bool() {
                pts.reverse();
            }
            vec![AC::polyline(&pts, s.bool()).model()]
        }
        2 => {
            let n = s.int(2, 4);
            let rad = s.real(0.5, 1.) * size;
            let ph = s.real(0., 6.);
            let a = |i: usize| ph + std::f64::consts::TAU * i as f64 / n as f64;
            (0..n).map(|i| r2(&NurbsCurve2D::try_arc(&p2(c), &Vector2::x(), &Vector2::y(), rad, a(i), a(i + 1)).unwrap())).collect()
        }
        k => {
            let w = s.bool();
            let lo = *s.pick(&[0.4, 0.4, 0.15]);
            let r = tame(gen_star(s, c, size * lo, size, (1, 3), w));
            if k < 6 {
                vec![r]
            } else {
                pieces(s, &r)
            }
        }
    };
    // the same outline on a short domain, as trimming gives it
    let f = if s.chance(3, 4) { 1. } else { s.log_real(0.02, 1.) };
    Shape::new(rs.into_iter().map(|r| RCurve { knots: r.knots.iter().map(|k| k * f).collect(), ..r }).collect())
}

/// a region: outline minus holes
struct Reg {
    ex: Shape,
    holes: Vec<Shape>,
}
impl Reg {
    fn inside(&self, q: &[f64]) -> bool {
        self.ex.poly.inside(q) && !self.holes.iter().any(|h| h.poly.inside(q))
    }
    fn shapes(&self) -> Vec<&Shape> {
        std::iter::once(&self.ex).chain(&self.holes).collect()
    }
    fn area(&self) -> f64 {
        self.ex.poly.area() - self.holes.iter().map(|h| h.poly.area()).sum::<f64>()
    }
    fn region(&self) -> Region<f64> {
        Region::new(self.ex.k(), self.holes.iter().map(|h| h.k()).collect())
    }
}

/// the result as polygons
fn result(clip: &Clip<f64>) -> Result<Vec<(Poly, Vec<Poly>)>, Fail> {
    let mut out = vec![];
    for r in clip.regions() {
        let mut ps = vec![];
        for k in std::iter::once(r.exterior()).chain(r.interiors()) {
            let rs: Vec<RCurve> = k.spans().iter().map(unplaced).collect();
            let n = rs.len();
            for i in 0..n {
                let (p, q) = (rs[i].point(rs[i].domain().1), rs[(i + 1) % n].point(rs[(i + 1) % n].domain().0));
                ensure!(dist(&p, &q) < 1e-3, "outline-open", "span {i} of {n} ends at {p:?}, the next one starts at {q:?}");
            }
            ps.push(poly(&rs, 16));
        }
        let ex = ps.remove(0);
        out.push((ex, ps));
    }
    Ok(out)
}

fn check(cx: &mut Cx, op: usize, a: &Reg, b: &Reg, clip: &Clip<f64>, tag: &str) -> R {
    let name = OPS[op].1;
    let res = result(clip)?;
    let count = |q: &[f64]| res.iter().filter(|(ex, ins)| ex.inside(q) && !ins.iter().any(|i| i.inside(q))).count();
    let margin = a.shapes().iter().chain(&b.shapes()).map(|s| s.poly.dev).fold(0., f64::max) * 4. + 5e-3;
    let (ba, bb) = (a.ex.poly.bbox(), b.ex.poly.bbox());
    let bx = [ba[0].min(bb[0]), ba[1].min(bb[1]), ba[2].max(bb[2]), ba[3].max(bb[3])];
    let mut asked = 0;
    for i in 0..80 {
        let q = if i % 4 < 2 {
            vec![cx.src.real(bx[0], bx[2]), cx.src.real(bx[1], bx[3])]
        } else {
            // beside an outline
            let ss: Vec<&Shape> = a.shapes().into_iter().chain(b.shapes()).collect();
            let s = ss[cx.src.draw(ss.len() as u64) as usize];
            let p = s.poly.p[cx.src.draw(s.poly.p.len() as u64) as usize].clone();
            vec![p[0] + cx.src.real(-0.3, 0.3), p[1] + cx.src.real(-0.3, 0.3)]
        };
        if a.shapes().iter().chain(&b.shapes()).any(|s| s.poly.dist(&q) < margin) {
            continue;
        }
        asked += 1;
        let (x, y) = (a.inside(&q), b.inside(&q));
        let want = apply(op, x, y);
        let got = count(&q);
        ensure!(got == want as usize, format!("{tag}{name}"), "{q:?} (subject {x}, clip {y}) is in {got} regions of the {name}: {}", res.iter().map(|(e, i)| format!("[area {:.3} minus {:?}]", e.area(), i.iter().map(|p| p.area()).collect::<Vec<_>>())).collect::<String>());
    }
    cx.nontrivial_if(asked > 20);
    Ok(())
}

fn describe(cx: &mut Cx, a: &Reg, b: &Reg, op: usize) {
    note!(cx, "{} of {:?} holes {:?} and {:?} holes {:?}", OPS[op].1, a.ex.rs, a.holes.iter().map(|h| &h.rs).collect::<Vec<_>>(), b.ex.rs, b.holes.iter().map(|h| &h.rs).collect::<Vec<_>>());
}

/// two closed curves
fn curves(cx: &mut Cx) -> R {
    frame(cx);
    let a = gen_shape(&mut cx.src, &[0., 0.], 5.);
    let c = { let r = cx.src.real(0., 8.); let t = cx.src.real(0., 6.3); vec![r * t.cos(), r * t.sin()] };
    let size = cx.src.real(1., 6.);
    let b = gen_shape(&mut cx.src, &c, size);
    let op = cx.src.int(0, 2);
    if !a.simple() || !b.simple() { return discard("crosses-itself") }
    let Some(xs) = crossings(&a, &b, 0.25) else { return discard("not-transversal") };
    let (na, nb) = (a.rs.len(), b.rs.len());
    cx.label(&format!("{}x{}", if na == 1 { "curve" } else { "compound" }, if nb == 1 { "curve" } else { "compound" }));
    cx.label(match xs.len() { 0 => "apart", 2 => "two", _ => "many" });
    let (ra, rb) = (Reg { ex: a, holes: vec![] }, Reg { ex: b, holes: vec![] });
    describe(cx, &ra, &rb, op);
    let short = ra.ex.short() || rb.ex.short();
    cx.label_if(short, "short-domain");
    let o = opts(short);
    let clip = match (na, nb) {
        (1, 1) => placed(&ra.ex.rs[0]).boolean(op_of(op), &placed(&rb.ex.rs[0]), o),
        (1, _) => placed(&ra.ex.rs[0]).boolean(op_of(op), &rb.ex.k(), o),
        (_, 1) => ra.ex.k().boolean(op_of(op), &placed(&rb.ex.rs[0]), o),
        _ => ra.ex.k().boolean(op_of(op), &rb.ex.k(), o),
    }.map_err(|x| e("error")(x.to_string()))?;
    check(cx, op, &ra, &rb, &clip, "")
}

/// a circle and a polygon that enters it, often at a small angle, leaves it again and touches it elsewhere
fn touch(cx: &mut Cx) -> R {
    frame(cx);
    let s = &mut cx.src;
    let shallow = s.chance(2, 3);
    let a = if shallow { s.real(2., 6.) } else { s.real(20., 60.) }.to_radians();
    let y = -a.cos();
    let both = s.chance(1, 3);
    let exit = if both { s.real(2., 6.).to_radians().cos() } else { s.real(-0.2, 0.6) };
    let touching = !both && s.chance(3, 4);
    let top = if both {
        s.real(1.2, 1.4)
    } else if touching {
        if s.bool() { 1. } else { 1. - s.log_real(1e-12, 1e-4) }
    } else {
        s.real(1.05, 1.3)
    };
    let w = s.real(2.5, 3.5);
    let mut pts = vec![[0., y], [if both { 0. } else { 0.5 }, exit], [w, exit], [w, top], [-3., top], [-3., 2.5], [5., 2.5], [5., -3.], [-3., -3.], [-3., y]];
    // turned, mirrored, started anywhere and in both directions
    let n = s.int(0, pts.len() - 1);
    pts.rotate_left(n);
    if s.bool() {
        pts.reverse();
    }
    let (t, m) = (s.real(0., std::f64::consts::TAU), if s.bool() { -1. } else { 1. });
    let turn = |p: &[f64; 2]| vec![5. * (m * p[0] * t.cos() - p[1] * t.sin()), 5. * (m * p[0] * t.sin() + p[1] * t.cos())];
    let mut pts: Vec<Vec<f64>> = pts.iter().map(turn).collect();
    pts.push(pts[0].clone());
    let seam = s.real(0., std::f64::consts::TAU);
    let back = if s.bool() { -1. } else { 1. };
    let circle = NurbsCurve2D::try_circle(&Point2::origin(), &Vector2::new(seam.cos(), seam.sin()), &(Vector2::new(-seam.sin(), seam.cos()) * back), 5.).unwrap();
    // the seam and the corners are away from the crossings and the touch
    let turned = |p: [f64; 2]| turn(&p);
    let h = (1. - exit * exit).sqrt();
    for p in [[-a.sin(), y], [0., 1.], [h, exit]] {
        if dist(&turned(p), &[5. * seam.cos(), 5. * seam.sin()]) < 0.3 {
            return discard("seam");
        }
    }
    let line = NurbsCurve2D::polyline(&pts.iter().map(|p| p2(p)).collect::<Vec<_>>(), true);
    let (circle, line) = (Shape::new(vec![r2(&circle)]), Shape::new(vec![r2(&line)]));
    let (x, z) = if s.bool() { (circle, line) } else { (line, circle) };
    let op = s.int(0, 2);
    cx.label_if(shallow, "shallow");
    cx.label_if(touching, "touching");
    cx.label_if(both, "shallow-twice");
    let (ra, rb) = (Reg { ex: x, holes: vec![] }, Reg { ex: z, holes: vec![] });
    describe(cx, &ra, &rb, op);
    // the search for intersections is randomised and may miss a crossing at a small angle now and then
    let mut res = Ok(());
    for _ in 0..6 {
        res = placed(&ra.ex.rs[0])
            .boolean(op_of(op), &placed(&rb.ex.rs[0]), opts(false))
            .map_err(|x| e("touch-error")(x.to_string()))
            .and_then(|clip| check(cx, op, &ra, &rb, &clip, "touch-"));
        if res.is_ok() {
            break;
        }
    }
    res
}

fn gen_region(s: &mut Src, c: &[f64], size: f64, holes: usize) -> Option<Reg> {
    let ex = gen_shape(s, c, size);
    let mut hs: Vec<Shape> = vec![];
    for _ in 0..holes {
        let mut hc = c.to_vec();
        let hsz = s.real(0.1, 0.3) * size;
        for _ in 0..10 {
            hc = vec![c[0] + s.real(-0.8, 0.8) * size, c[1] + s.real(-0.8, 0.8) * size];
            if ex.poly.inside(&hc) && ex.poly.dist(&hc) > hsz && hs.iter().all(|h| h.poly.dist(&hc) > hsz) {
                break;
            }
        }
        hs.push(gen_shape(s, &hc, hsz));
    }
    if !ex.simple() || hs.iter().any(|h| !h.simple()) {
        return None;
    }
    // holes inside, apart from each other
    for (i, h) in hs.iter().enumerate() {
        if crossings(&ex, h, 0.2)?.len() > 0 || !ex.poly.inside(&h.poly.p[0]) {
            return None;
        }
        for g in &hs[..i] {
            if crossings(g, h, 0.2)?.len() > 0 || g.poly.inside(&h.poly.p[0]) || h.poly.inside(&g.poly.p[0]) {
                return None;
            }
        }
    }
    Some(Reg { ex, holes: hs })
}

fn regions(cx: &mut Cx) -> R {
    frame(cx);
    let n = cx.src.int(1, 2);
    let Some(a) = gen_region(&mut cx.src, &[0., 0.], 5., n) else { return discard("no-region") };
    let m = cx.src.int(0, 2).saturating_sub(cx.src.int(0, 1));
    let c = { let r = cx.src.real(0., 8.); let t = cx.src.real(0., 6.3); vec![r * t.cos(), r * t.sin()] };
    let size = cx.src.real(1., 6.);
    let Some(b) = gen_region(&mut cx.src, &c, size, m) else { return discard("no-region") };
    let op = cx.src.int(0, 2);
    for x in a.shapes() {
        for y in b.shapes() {
            if crossings(x, y, 0.25).is_none() { return discard("not-transversal") }
        }
    }
    describe(cx, &a, &b, op);
    cx.label(&format!("{}-holes", m));
    let short = a.shapes().into_iter().chain(b.shapes()).any(|s| s.short());
    cx.label_if(short, "short-domain");
    let o = opts(short);
    let as_curve = m == 0 && cx.src.bool();
    let r = a.region();
    let clip = if as_curve {
        if b.ex.rs.len() == 1 { r.boolean(op_of(op), &placed(&b.ex.rs[0]), o) } else { r.boolean(op_of(op), &b.ex.k(), o) }
    } else {
        r.boolean(op_of(op), &b.region(), o)
    }.map_err(|x| e("region-error")(x.to_string()))?;
    check(cx, op, &a, &b, &clip, "region-")
}

static LAWS: &[Law] = &[
    Law::new("curves", 12_000, curves).rng(),
    Law::new("regions", 12_000, regions).rng(),
    Law::new("touch", 4_000, touch).rng(),
];
fn main() {
    curvo_verif::engine::main(&Property {
        id: "C20",
        rule: "circles, rectangles, star shapes, polygons and compound curves crossing transversally, nested or apart; regions with up to two holes; non-trivial = more than 20 of 80 points decided",
        assumptions: &["outlines do not cross themselves; crossings are transversal and apart from each other, from corners and from joints, as for C17","crossings at 2-6 degrees are asked of circles and polygons, up to six times because the randomised search for intersections may miss them"],
        laws: LAWS,
        probes: &[],
    })
}
