//! C30 serialisation
use curvo_verif::prelude::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{Map, Value};

fn err<E: ToString>(what: &str) -> impl Fn(E) -> Fail + '_ {
    move |e| Fail { sig: format!("{what}-error"), msg: e.to_string() }
}
/// text of a value with the fields of its objects in another order and white space anywhere
fn text(s: &mut Src, v: &Value) -> String {
    let gap = |s: &mut Src| if s.chance(1, 6) { " \n\t"[..s.int(0, 3)].to_string() } else { String::new() };
    match v {
        Value::Array(a) => {
            let items: Vec<String> = a.iter().map(|x| format!("{}{}{}", gap(s), text(s, x), gap(s))).collect();
            format!("[{}]", items.join(","))
        }
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            for i in (1..keys.len()).rev() {
                let j = s.int(0, i);
                keys.swap(i, j);
            }
            let items: Vec<String> = keys.into_iter().map(|k| format!("{}\"{k}\"{}:{}{}", gap(s), gap(s), gap(s), text(s, &m[k]))).collect();
            format!("{{{}}}", items.join(","))
        }
        x => x.to_string(),
    }
}
/// numbers in order, and everything else
fn flat(v: &Value, nums: &mut Vec<f64>, shape: &mut String) {
    match v {
        Value::Number(n) => {
            nums.push(n.as_f64().unwrap());
            shape.push('#');
        }
        Value::Array(a) => {
            shape.push('[');
            a.iter().for_each(|x| flat(x, nums, shape));
            shape.push(']');
        }
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            keys.sort();
            for k in keys {
                shape.push_str(k);
                flat(&m[k], nums, shape);
            }
        }
        x => shape.push_str(&x.to_string()),
    }
}
fn equal(a: &Value, b: &Value, eps: f64) -> bool {
    let (mut x, mut y, mut s, mut t) = (vec![], vec![], String::new(), String::new());
    flat(a, &mut x, &mut s);
    flat(b, &mut y, &mut t);
    s == t && x.iter().zip(&y).all(|(a, b)| (a - b).abs() <= eps * a.abs().max(b.abs()))
}
/// paths to the objects of a value
fn objects(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            m.iter().for_each(|(k, x)| objects(x, format!("{at}/{k}"), out));
            out.push(at);
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| objects(x, format!("{at}/{i}"), out)),
        _ => {}
    }
}
fn round<T: Serialize + DeserializeOwned + std::fmt::Debug>(cx: &mut Cx, x: &T, what: &str) -> Result<Value, Fail> {
    let eps = if what.ends_with("f32") { 1e-7 } else { 1e-15 };
    let v = serde_json::to_value(x).map_err(err("serialize"))?;
    let y: T = serde_json::from_value(v.clone()).map_err(err("deserialize"))?;
    ensure!(format!("{x:?}") == format!("{y:?}"), format!("{what}-value"), "{x:?} came back as {y:?}");
    let t = text(&mut cx.src, &v);
    let y: T = serde_json::from_str(&t).map_err(err("text"))?;
    let w = serde_json::to_value(&y).map_err(err("serialize"))?;
    ensure!(equal(&v, &w, eps), format!("{what}-text"), "{x:?} came back as {y:?} from {t}");
    let plain = serde_json::to_string(x).map_err(err("serialize"))?;
    let p: Value = serde_json::from_str(&plain).map_err(err("text"))?;
    ensure!(equal(&v, &p, eps), format!("{what}-string"), "{v} is written as {plain}");
    Ok(v)
}
/// something is missing, doubled, of another type or does not fit
fn damaged<T: Serialize + DeserializeOwned + std::fmt::Debug>(cx: &mut Cx, v: &Value) -> R {
    let mut os = vec![];
    objects(v, String::new(), &mut os);
    for _ in 0..4 {
        let mut w = v.clone();
        let at = os[cx.src.draw(os.len() as u64) as usize].clone();
        let kind = cx.src.draw(7);
        let trimmed = w.pointer(&at).unwrap().get("surface").is_some();
        let m: &mut Map<String, Value> = w.pointer_mut(&at).unwrap().as_object_mut().unwrap();
        let keys: Vec<String> = m.keys().cloned().collect();
        let k = keys[cx.src.draw(keys.len() as u64) as usize].clone();
        let mut doc = None;
        let what = match kind {
            0 => {
                // no exterior is fine
                if k == "exterior" {
                    continue;
                }
                m.remove(&k);
                format!("without {at}/{k}")
            }
            1 => {
                let x = m[&k].clone();
                m.insert("other".into(), x);
                format!("another field in {at}")
            }
            2 => {
                let x = [Value::Bool(true), Value::String("x".into()), serde_json::json!({}), serde_json::json!([["x"]])][cx.src.draw(4) as usize].clone();
                let s = x.to_string();
                m.insert(k.clone(), x);
                format!("{at}/{k} is {s}")
            }
            3 => {
                // the same field twice
                m.insert("\u{1}".into(), m[&k].clone());
                doc = Some(w.to_string().replace("\\u0001", &k));
                format!("{at}/{k} twice")
            }
            4 => {
                // one knot or one point less or more
                if trimmed || k.contains("degree") || k == "interiors" {
                    continue;
                }
                let a = m.get_mut(&k).unwrap().as_array_mut().unwrap();
                if k == "spans" {
                    a.clear();
                } else if cx.src.bool() {
                    a.pop();
                } else {
                    let x = a.last().unwrap().clone();
                    a.push(x);
                }
                format!("{at}/{k} of another length")
            }
            5 => {
                let Some(d) = keys.iter().find(|k| k.contains("degree")) else { continue };
                let x = match cx.src.draw(3) {
                    0 => serde_json::json!(m[d].as_u64().unwrap() + 1),
                    1 => serde_json::json!(-1),
                    _ => serde_json::json!(u64::MAX),
                };
                let s = x.to_string();
                m.insert(d.clone(), x);
                format!("{at}/{d} is {s}")
            }
            _ => {
                let t = w.to_string();
                let n = cx.src.int(0, t.len() - 1);
                doc = Some(t[..n].to_string());
                format!("the first {n} characters")
            }
        };
        let doc = doc.unwrap_or_else(|| w.to_string());
        note!(cx, "{what}: {doc}");
        if let Ok(x) = serde_json::from_str::<T>(&doc) {
            return fail(["damaged-missing", "damaged-unknown", "damaged-type", "damaged-twice", "damaged-length", "damaged-degree", "damaged-cut"][kind as usize], format!("{what}: accepted as {x:?}"));
        }
    }
    Ok(())
}
fn curve(cx: &mut Cx) -> R {
    let o = Opt { unclamped: true, ..Opt::default() };
    let r = gen_curve(&mut cx.src, o);
    note!(cx, "{r:?}");
    cx.nontrivial_if(r.is_rational() && r.degree > 1);
    if r.dim() == 2 {
        let v = round(cx, &c2(&r), "curve")?;
        let w: NurbsCurve2D<f64> = serde_json::from_value(v.clone()).map_err(err("deserialize"))?;
        ensure!(r2(&w) == r, "curve-parts", "{w:?}");
        round(cx, &c2(&r).cast::<f32>(), "curve-f32")?;
        damaged::<NurbsCurve2D<f64>>(cx, &v)
    } else {
        let v = round(cx, &c3(&r), "curve")?;
        let w: NurbsCurve3D<f64> = serde_json::from_value(v.clone()).map_err(err("deserialize"))?;
        ensure!(r3(&w) == r, "curve-parts", "{w:?}");
        damaged::<NurbsCurve3D<f64>>(cx, &v)
    }
}
fn surface(cx: &mut Cx) -> R {
    let dim = cx.src.int(2, 3);
    let r = gen_surface(&mut cx.src, dim, Opt { deg: (1, 3), extra: (0, 3), ..Opt::default() });
    note!(cx, "{r:?}");
    cx.nontrivial_if(r.du != r.dv);
    if dim == 2 {
        let v = round(cx, &s2(&r), "surface")?;
        damaged::<NurbsSurface2D<f64>>(cx, &v)
    } else {
        let v = round(cx, &s3(&r), "surface")?;
        let w: NurbsSurface3D<f64> = serde_json::from_value(v.clone()).map_err(err("deserialize"))?;
        ensure!(rs3(&w) == r, "surface-parts", "{w:?}");
        damaged::<NurbsSurface3D<f64>>(cx, &v)
    }
}
fn compound(cx: &mut Cx) -> R {
    let dim = cx.src.int(2, 3);
    let n = cx.src.int(1, 4);
    let closed = cx.src.chance(1, 3);
    let spans = gen_chain(&mut cx.src, Opt { dim: Some(dim), ..Opt::default() }, n, closed);
    note!(cx, "{spans:?}");
    cx.nontrivial_if(n > 1);
    if dim == 2 {
        let v = round(cx, &CompoundCurve::<f64, nalgebra::U3>::new(spans.iter().map(c2).collect()), "compound")?;
        damaged::<CompoundCurve<f64, nalgebra::U3>>(cx, &v)
    } else {
        let v = round(cx, &CompoundCurve::<f64, nalgebra::U4>::new(spans.iter().map(c3).collect()), "compound")?;
        damaged::<CompoundCurve<f64, nalgebra::U4>>(cx, &v)
    }
}
fn trimmed(cx: &mut Cx) -> R {
    let r = gen_surface(&mut cx.src, 3, Opt { deg: (1, 2), extra: (0, 2), ..Opt::default() });
    let mut star = |s: &mut Src| gen_star(s, &[0.5, 0.5], 0.1, 0.4, (1, 3), true);
    let ext = cx.src.bool().then(|| star(&mut cx.src));
    let holes: Vec<RCurve> = (0..cx.src.int(0, 2)).map(|_| star(&mut cx.src)).collect();
    note!(cx, "{r:?} {ext:?} {holes:?}");
    cx.nontrivial_if(ext.is_some() && !holes.is_empty());
    let t = TrimmedSurface::new(s3(&r), ext.as_ref().map(c2), holes.iter().map(c2).collect());
    let v = round(cx, &t, "trimmed")?;
    let w: TrimmedSurface<f64> = serde_json::from_value(v.clone()).map_err(err("deserialize"))?;
    ensure!(rs3(w.surface()) == r && w.exterior().map(r2) == ext && w.interiors().iter().map(r2).collect::<Vec<_>>() == holes, "trimmed-parts", "{w:?}");
    damaged::<TrimmedSurface<f64>>(cx, &v)
}

static LAWS: &[Law] = &[Law::new("curve", 50_000, curve), Law::new("surface", 50_000, surface), Law::new("compound", 50_000, compound), Law::new("trimmed", 50_000, trimmed)];
fn main() {
    close_knots();
    curvo_verif::engine::main(&Property {
        id: "C30",
        rule: "curves, surfaces, compound curves and trimmed surfaces of all kinds as JSON values and as text with shuffled fields and white space; the same with a field missing, unknown, doubled or of another type, lists one longer or shorter, degrees that do not fit, or cut off; non-trivial = rational of degree > 1, unequal degrees, several spans, outlines and holes",
        assumptions: &["JSON text is compared up to 1e-15, the precision of the parser's own numbers"],
        laws: LAWS,
        probes: &[],
    })
}
