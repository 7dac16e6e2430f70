//! Facade over curvo's dimension-generic types, in terms of plain vectors.
use crate::refm::{RCurve, RSurface};
use curvo::prelude::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, DimName, Matrix3, Matrix4, OPoint, OVector};

pub type C2 = NurbsCurve2D<f64>;
pub type C3 = NurbsCurve3D<f64>;
pub type S3 = NurbsSurface3D<f64>;
pub type S2 = NurbsSurface2D<f64>;

pub fn pv<D: DimName>(p: &OPoint<f64, D>) -> Vec<f64>
where
    DefaultAllocator: Allocator<D>,
{
    p.coords.iter().cloned().collect()
}
pub fn vv<D: DimName>(p: &OVector<f64, D>) -> Vec<f64>
where
    DefaultAllocator: Allocator<D>,
{
    p.iter().cloned().collect()
}
pub fn vp<const N: usize>(p: &[f64]) -> OPoint<f64, Const<N>> {
    OPoint::<f64, Const<N>>::from_slice(&p[..N])
}
pub fn vo<const N: usize>(p: &[f64]) -> OVector<f64, Const<N>> {
    OVector::<f64, Const<N>>::from_column_slice(&p[..N])
}
pub fn p2(p: &[f64]) -> nalgebra::Point2<f64> {
    vp::<2>(p)
}
pub fn p3(p: &[f64]) -> nalgebra::Point3<f64> {
    vp::<3>(p)
}
pub fn v3(p: &[f64]) -> nalgebra::Vector3<f64> {
    vo::<3>(p)
}

pub fn knots<T: Copy + nalgebra::RealField>(k: &KnotVector<T>) -> Vec<T> {
    k.iter().cloned().collect()
}

pub fn c2(r: &RCurve) -> C2 {
    NurbsCurve2D::try_new(r.degree, r.cps.iter().map(|c| vp::<3>(c)).collect(), r.knots.clone()).unwrap()
}
pub fn c3(r: &RCurve) -> C3 {
    NurbsCurve3D::try_new(r.degree, r.cps.iter().map(|c| vp::<4>(c)).collect(), r.knots.clone()).unwrap()
}
pub fn r2(c: &C2) -> RCurve {
    RCurve { degree: c.degree(), knots: knots(c.knots()), cps: c.control_points().iter().map(pv).collect() }
}
pub fn r3(c: &C3) -> RCurve {
    RCurve { degree: c.degree(), knots: knots(c.knots()), cps: c.control_points().iter().map(pv).collect() }
}
pub fn s3(r: &RSurface) -> S3 {
    NurbsSurface3D::new(
        r.du,
        r.dv,
        r.ku.clone(),
        r.kv.clone(),
        r.cps.iter().map(|row| row.iter().map(|c| vp::<4>(c)).collect()).collect(),
    )
}
pub fn s2(r: &RSurface) -> S2 {
    NurbsSurface2D::new(
        r.du,
        r.dv,
        r.ku.clone(),
        r.kv.clone(),
        r.cps.iter().map(|row| row.iter().map(|c| vp::<3>(c)).collect()).collect(),
    )
}
pub fn rs3(s: &S3) -> RSurface {
    RSurface {
        du: s.u_degree(),
        dv: s.v_degree(),
        ku: knots(s.u_knots()),
        kv: knots(s.v_knots()),
        cps: s.control_points().iter().map(|row| row.iter().map(pv).collect()).collect(),
    }
}
pub fn rs2(s: &S2) -> RSurface {
    RSurface {
        du: s.u_degree(),
        dv: s.v_degree(),
        ku: knots(s.u_knots()),
        kv: knots(s.v_knots()),
        cps: s.control_points().iter().map(|row| row.iter().map(pv).collect()).collect(),
    }
}

/// A 2D or 3D curve of curvo.
#[derive(Clone, Debug)]
pub enum AC {
    D2(C2),
    D3(C3),
}
use AC::*;

macro_rules! each {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            D2($c) => $e,
            D3($c) => $e,
        }
    };
}
macro_rules! map {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            D2($c) => D2($e),
            D3($c) => D3($e),
        }
    };
}

type E<A> = Result<A, String>;
fn st<A>(r: anyhow_like::Result<A>) -> E<A> {
    r.map_err(|e| e.to_string())
}
mod anyhow_like {
    pub type Result<A> = std::result::Result<A, super::AnyErr>;
}
pub type AnyErr = Box<dyn std::error::Error + Send + Sync>;
fn er<A, X: Into<AnyErr>>(r: Result<A, X>) -> E<A> {
    st(r.map_err(|e| e.into()))
}

impl AC {
    pub fn new(r: &RCurve) -> AC {
        match r.dim() {
            2 => D2(c2(r)),
            3 => D3(c3(r)),
            n => panic!("harness: dim {n}"),
        }
    }
    pub fn try_new(r: &RCurve) -> E<AC> {
        match r.dim() {
            2 => er(NurbsCurve2D::try_new(r.degree, r.cps.iter().map(|c| vp::<3>(c)).collect(), r.knots.clone())).map(D2),
            _ => er(NurbsCurve3D::try_new(r.degree, r.cps.iter().map(|c| vp::<4>(c)).collect(), r.knots.clone())).map(D3),
        }
    }
    pub fn model(&self) -> RCurve {
        match self {
            D2(c) => r2(c),
            D3(c) => r3(c),
        }
    }
    pub fn dim(&self) -> usize {
        match self {
            D2(_) => 2,
            D3(_) => 3,
        }
    }
    pub fn d2(&self) -> &C2 {
        match self {
            D2(c) => c,
            _ => panic!("harness: not 2D"),
        }
    }
    pub fn d3(&self) -> &C3 {
        match self {
            D3(c) => c,
            _ => panic!("harness: not 3D"),
        }
    }
    pub fn degree(&self) -> usize {
        each!(self, c => c.degree())
    }
    pub fn ncp(&self) -> usize {
        each!(self, c => c.control_points().len())
    }
    pub fn knots(&self) -> Vec<f64> {
        each!(self, c => knots(c.knots()))
    }
    pub fn domain(&self) -> (f64, f64) {
        each!(self, c => c.knots_domain())
    }
    pub fn pt(&self, t: f64) -> Vec<f64> {
        each!(self, c => pv(&c.point_at(t)))
    }
    pub fn tangent(&self, t: f64) -> Vec<f64> {
        each!(self, c => vv(&c.tangent_at(t)))
    }
    pub fn second(&self, t: f64) -> Vec<f64> {
        each!(self, c => vv(&c.second_derivative_at(t)))
    }
    pub fn pt_tangent(&self, t: f64) -> (Vec<f64>, Vec<f64>) {
        each!(self, c => { let (p, v) = c.point_tangent_at(t); (pv(&p), vv(&v)) })
    }
    pub fn sample(&self, a: f64, b: f64, n: usize) -> Vec<Vec<f64>> {
        each!(self, c => c.sample_regular_range(a, b, n).iter().map(pv).collect())
    }
    pub fn sample_with(&self, a: f64, b: f64, n: usize) -> Vec<(f64, Vec<f64>)> {
        each!(self, c => c.sample_regular_range_with_parameter(a, b, n).iter().map(|(t, p)| (*t, pv(p))).collect())
    }
    pub fn weights(&self) -> Vec<f64> {
        each!(self, c => c.weights())
    }
    pub fn dehom(&self) -> Vec<Vec<f64>> {
        each!(self, c => c.dehomogenized_control_points().iter().map(pv).collect())
    }
    pub fn is_clamped(&self) -> bool {
        each!(self, c => c.is_clamped())
    }
    pub fn is_closed(&self) -> bool {
        each!(self, c => c.is_closed())
    }
    pub fn refine(&self, ks: Vec<f64>) -> E<AC> {
        Ok(map!(self, c => { let mut c = c.clone(); er(c.try_refine_knot(ks))?; c }))
    }
    pub fn add_knot(&self, k: f64) -> E<AC> {
        Ok(map!(self, c => { let mut c = c.clone(); er(c.try_add_knot(k))?; c }))
    }
    pub fn remove_knot(&self, k: f64, tol: Option<f64>) -> E<(AC, usize)> {
        let mut n = 0;
        let c = map!(self, c => { let mut c = c.clone(); n = er(c.try_remove_knot(k, tol))?; c });
        Ok((c, n))
    }
    pub fn clamp(&self) -> E<AC> {
        Ok(map!(self, c => { let mut c = c.clone(); er(c.try_clamp())?; c }))
    }
    pub fn normalize(&self) -> AC {
        map!(self, c => { let mut c = c.clone(); c.normalize_knots(); c })
    }
    pub fn elevate(&self, d: usize) -> E<AC> {
        Ok(map!(self, c => er(c.try_elevate_degree(d))?))
    }
    pub fn invert(&self) -> AC {
        map!(self, c => c.inverse())
    }
    pub fn split(&self, u: f64) -> E<(AC, AC)> {
        match self {
            D2(c) => er(c.try_split(u)).map(|(a, b)| (D2(a), D2(b))),
            D3(c) => er(c.try_split(u)).map(|(a, b)| (D3(a), D3(b))),
        }
    }
    pub fn trim(&self, a: f64, b: f64) -> E<Vec<AC>> {
        match self {
            D2(c) => er(c.try_trim_range((a, b))).map(|v| v.into_iter().map(D2).collect()),
            D3(c) => er(c.try_trim_range((a, b))).map(|v| v.into_iter().map(D3).collect()),
        }
    }
    pub fn bezier(&self) -> E<Vec<AC>> {
        match self {
            D2(c) => er(c.try_decompose_bezier_segments()).map(|v| v.into_iter().map(D2).collect()),
            D3(c) => er(c.try_decompose_bezier_segments()).map(|v| v.into_iter().map(D3).collect()),
        }
    }
    pub fn length(&self) -> E<f64> {
        each!(self, c => er(c.try_length()))
    }
    pub fn param_at_length(&self, l: f64, tol: Option<f64>) -> E<f64> {
        each!(self, c => er(c.try_parameter_at_length(l, tol)))
    }
    pub fn divide_by_length(&self, l: f64) -> E<Vec<(f64, f64)>> {
        each!(self, c => er(c.try_divide_by_length(l)).map(|v| v.iter().map(|x| (x.parameter(), x.length())).collect()))
    }
    pub fn divide_by_count(&self, n: usize) -> E<Vec<(f64, f64)>> {
        each!(self, c => er(c.try_divide_by_count(n)).map(|v| v.iter().map(|x| (x.parameter(), x.length())).collect()))
    }
    pub fn closest_param(&self, p: &[f64]) -> E<f64> {
        match self {
            D2(c) => er(c.find_closest_parameter(&vp::<2>(p))),
            D3(c) => er(c.find_closest_parameter(&vp::<3>(p))),
        }
    }
    pub fn closest_point(&self, p: &[f64]) -> E<Vec<f64>> {
        match self {
            D2(c) => er(c.find_closest_point(&vp::<2>(p))).map(|p| pv(&p)),
            D3(c) => er(c.find_closest_point(&vp::<3>(p))).map(|p| pv(&p)),
        }
    }
    pub fn tessellate(&self, tol: Option<f64>) -> Vec<Vec<f64>> {
        each!(self, c => c.tessellate(tol).iter().map(pv).collect())
    }
    /// m: affine map given as rows of [linear | translation]
    pub fn transformed(&self, m: &Affine) -> AC {
        match self {
            D2(c) => D2(c.transformed(&m.m3())),
            D3(c) => D3(c.transformed(&m.m4())),
        }
    }
    pub fn polyline(pts: &[Vec<f64>], normalize: bool) -> AC {
        if pts[0].len() == 2 {
            D2(NurbsCurve2D::polyline(&pts.iter().map(|p| vp::<2>(p)).collect::<Vec<_>>(), normalize))
        } else {
            D3(NurbsCurve3D::polyline(&pts.iter().map(|p| vp::<3>(p)).collect::<Vec<_>>(), normalize))
        }
    }
    pub fn interpolate(pts: &[Vec<f64>], degree: usize) -> E<AC> {
        if pts[0].len() == 2 {
            er(NurbsCurve2D::try_interpolate(&pts.iter().map(|p| vp::<2>(p)).collect::<Vec<_>>(), degree)).map(D2)
        } else {
            er(NurbsCurve3D::try_interpolate(&pts.iter().map(|p| vp::<3>(p)).collect::<Vec<_>>(), degree)).map(D3)
        }
    }
    pub fn periodic(pts: &[Vec<f64>], degree: usize) -> E<AC> {
        if pts[0].len() == 2 {
            er(NurbsCurve2D::try_periodic(&pts.iter().map(|p| vp::<2>(p)).collect::<Vec<_>>(), degree)).map(D2)
        } else {
            er(NurbsCurve3D::try_periodic(&pts.iter().map(|p| vp::<3>(p)).collect::<Vec<_>>(), degree)).map(D3)
        }
    }
    pub fn periodic_interpolate(pts: &[Vec<f64>], degree: usize, style: KnotStyle) -> E<AC> {
        if pts[0].len() == 2 {
            er(NurbsCurve2D::try_periodic_interpolate(&pts.iter().map(|p| vp::<2>(p)).collect::<Vec<_>>(), degree, style)).map(D2)
        } else {
            er(NurbsCurve3D::try_periodic_interpolate(&pts.iter().map(|p| vp::<3>(p)).collect::<Vec<_>>(), degree, style)).map(D3)
        }
    }
}

/// x -> A x + b
#[derive(Clone, Debug)]
pub struct Affine {
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
}
impl Affine {
    pub fn apply(&self, p: &[f64]) -> Vec<f64> {
        self.a
            .iter()
            .zip(&self.b)
            .map(|(r, t)| r.iter().zip(p).map(|(x, y)| x * y).sum::<f64>() + t)
            .collect()
    }
    pub fn apply_vec(&self, p: &[f64]) -> Vec<f64> {
        self.a.iter().map(|r| r.iter().zip(p).map(|(x, y)| x * y).sum::<f64>()).collect()
    }
    pub fn m3(&self) -> Matrix3<f64> {
        let (a, b) = (&self.a, &self.b);
        Matrix3::new(a[0][0], a[0][1], b[0], a[1][0], a[1][1], b[1], 0., 0., 1.)
    }
    pub fn m4(&self) -> Matrix4<f64> {
        let (a, b) = (&self.a, &self.b);
        Matrix4::new(
            a[0][0], a[0][1], a[0][2], b[0], a[1][0], a[1][1], a[1][2], b[1], a[2][0], a[2][1], a[2][2], b[2], 0., 0., 0., 1.,
        )
    }
}

/// A 2D or 3D compound curve of curvo.
#[derive(Clone, Debug, PartialEq)]
pub enum ACC {
    K2(CompoundCurve<f64, Const<3>>),
    K3(CompoundCurve<f64, Const<4>>),
}
use ACC::*;
macro_rules! eachk {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            K2($c) => $e,
            K3($c) => $e,
        }
    };
}
macro_rules! mapk {
    ($s:expr, $c:ident => $e:expr) => {
        match $s {
            K2($c) => K2($e),
            K3($c) => K3($e),
        }
    };
}
impl ACC {
    pub fn new(rs: &[RCurve]) -> ACC {
        if rs[0].dim() == 2 {
            K2(CompoundCurve::new(rs.iter().map(c2).collect()))
        } else {
            K3(CompoundCurve::new(rs.iter().map(c3).collect()))
        }
    }
    pub fn k2(&self) -> &CompoundCurve<f64, Const<3>> {
        match self {
            K2(c) => c,
            _ => panic!("harness: not 2D"),
        }
    }
    pub fn spans(&self) -> Vec<RCurve> {
        match self {
            K2(c) => c.spans().iter().map(r2).collect(),
            K3(c) => c.spans().iter().map(r3).collect(),
        }
    }
    pub fn pt(&self, t: f64) -> Option<Vec<f64>> {
        eachk!(self, c => c.point_at(t).map(|p| pv(&p)))
    }
    pub fn trim(&self, a: f64, b: f64) -> E<Vec<AC>> {
        match self {
            K2(c) => er(c.try_trim_range((a, b))).map(|v| v.into_iter().map(D2).collect()),
            K3(c) => er(c.try_trim_range((a, b))).map(|v| v.into_iter().map(D3).collect()),
        }
    }
    pub fn length(&self) -> E<f64> {
        eachk!(self, c => er(c.try_length()))
    }
    pub fn is_closed(&self) -> bool {
        eachk!(self, c => c.is_closed())
    }
    pub fn closest_point(&self, p: &[f64]) -> E<Vec<f64>> {
        match self {
            K2(c) => er(c.find_closest_point(&vp::<2>(p))).map(|p| pv(&p)),
            K3(c) => er(c.find_closest_point(&vp::<3>(p))).map(|p| pv(&p)),
        }
    }
    pub fn invert(&self) -> ACC {
        mapk!(self, c => c.inverse())
    }
    pub fn transformed(&self, m: &Affine) -> ACC {
        match self {
            K2(c) => K2(c.transformed(&m.m3())),
            K3(c) => K3(c.transformed(&m.m4())),
        }
    }
    pub fn tessellate(&self, tol: Option<f64>) -> Vec<Vec<f64>> {
        eachk!(self, c => c.tessellate(tol).iter().map(pv).collect())
    }
}
