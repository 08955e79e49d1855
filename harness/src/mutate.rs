//! Single-site mutations of a schema-valid value that should make it invalid.
use crate::jsongen as jg;
use crate::schema::Defs;
use crate::tape::G;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub enum Step {
    Key(String),
    Idx(usize),
}
#[derive(Clone, Debug)]
pub enum Site {
    RemoveRequired(Vec<Step>, String),
    ChangeConst(Vec<Step>),
    ChangeEnum(Vec<Step>),
    SwapType(Vec<Step>),
    NullRequired(Vec<Step>, String),
}
impl Site {
    pub fn label(&self) -> &'static str {
        match self {
            Site::RemoveRequired(..) => "required member removed",
            Site::ChangeConst(..) => "constant changed",
            Site::ChangeEnum(..) => "enumerated value changed",
            Site::SwapType(..) => "JSON type changed",
            Site::NullRequired(..) => "required member null",
        }
    }
}

pub fn sites(d: &Defs, s: &Value, v: &Value, path: &mut Vec<Step>, out: &mut Vec<Site>) {
    let Some(o) = s.as_object() else { return };
    if o.contains_key("$ref") {
        let t = d.flat(s);
        if t != s {
            sites(d, t, v, path, out);
        }
        return;
    }
    if let Some(a) = o.get("anyOf").and_then(|a| a.as_array()) {
        if let Some(b) = a.iter().find(|x| d.valid(x, v)) {
            sites(d, b, v, path, out);
        }
        return;
    }
    if o.contains_key("const") {
        out.push(Site::ChangeConst(path.clone()));
        return;
    }
    if o.contains_key("enum") {
        out.push(Site::ChangeEnum(path.clone()));
        return;
    }
    if o.contains_key("type") {
        out.push(Site::SwapType(path.clone()));
    }
    if let Some(m) = v.as_object() {
        if let Some(r) = o.get("required").and_then(|r| r.as_array()) {
            for k in r.iter().filter_map(|k| k.as_str()) {
                // a nullable member may be left out: absent reads as null
                let nullable = o.get("properties").and_then(|p| p.get(k)).is_some_and(|ps| d.valid(ps, &Value::Null));
                if nullable {
                    continue;
                }
                out.push(Site::RemoveRequired(path.clone(), k.into()));
                out.push(Site::NullRequired(path.clone(), k.into()));
            }
        }
        for (k, x) in m {
            let ps = o.get("properties").and_then(|p| p.get(k)).or(o.get("additionalProperties"));
            if let Some(ps) = ps {
                path.push(Step::Key(k.clone()));
                sites(d, ps, x, path, out);
                path.pop();
            }
        }
    }
    if let (Some(a), Some(it)) = (v.as_array(), o.get("items")) {
        for (i, x) in a.iter().enumerate() {
            path.push(Step::Idx(i));
            sites(d, it, x, path, out);
            path.pop();
        }
    }
}

fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut c = v;
    for s in p {
        c = match s {
            Step::Key(k) => c.get_mut(k)?,
            Step::Idx(i) => c.get_mut(*i)?,
        };
    }
    Some(c)
}

pub fn apply(v: &Value, site: &Site, g: &mut G) -> Option<Value> {
    let mut w = v.clone();
    match site {
        Site::RemoveRequired(p, k) => {
            at(&mut w, p)?.as_object_mut()?.remove(k)?;
        }
        Site::NullRequired(p, k) => {
            *at(&mut w, p)?.as_object_mut()?.get_mut(k)? = Value::Null;
        }
        Site::ChangeConst(p) | Site::ChangeEnum(p) => {
            let x = at(&mut w, p)?;
            *x = match x {
                Value::String(s) => match g.below(9) {
                    6 | 7 => json!(jg::twin_string(s, g)),
                    8 => json!([s]),
                    0 => json!(format!("{s}x")),
                    1 => json!(format!(" {s}")),
                    2 => json!(s.to_uppercase()),
                    3 => json!(""),
                    4 => json!(7),
                    _ => json!(jg::string(g)),
                },
                Value::Number(n) => match g.below(3) {
                    0 => json!(n.as_i64().unwrap_or(0) + 1),
                    1 => json!(0),
                    _ => json!("x"),
                },
                _ => json!({"unexpected": true}),
            };
        }
        Site::SwapType(p) => {
            let x = at(&mut w, p)?;
            let mut opts: Vec<Value> =
                vec![json!(true), json!(13), json!("text"), json!([[["x"]]]), json!({"k": 1}), json!(1.5), json!(-4)];
            opts.retain(|o| std::mem::discriminant(o) != std::mem::discriminant(x) || o.is_number());
            if x.is_object() {
                // serde reads a positional array into any struct; the schemas are not held to that
                opts.retain(|o| !o.is_array());
            }
            if g.chance(1, 2) {
                let twins = look_alikes(x);
                if !twins.is_empty() {
                    opts = twins;
                }
            }
            if x.is_number() {
                opts.retain(|o| o == &json!(1.5) || !o.is_number());
            }
            *x = opts[g.idx(opts.len())].clone();
        }
    }
    Some(w)
}

/// Values of another JSON type that a lenient reader might take for `x`.
fn look_alikes(x: &Value) -> Vec<Value> {
    match x {
        Value::Number(n) => vec![json!(n.to_string()), json!(format!(" {n}")), json!([n]), json!(format!("{n}.0")), json!("")],
        Value::Bool(b) => vec![
            json!(b.to_string()),
            json!(*b as i64),
            json!(if *b { "yes" } else { "no" }),
            json!([b]),
            json!(""),
            json!(*b as i64 as f64),
        ],
        Value::String(s) => {
            let mut v = vec![json!([s]), json!({"text": s}), json!({"value": s}), json!({})];
            if let Ok(n) = s.parse::<i64>() {
                v.push(json!(n));
            }
            v
        }
        Value::Array(a) => {
            let mut v = vec![json!(x.to_string()), json!({}), json!({"0": a.first()}), json!("")];
            v.extend(a.first().filter(|y| !y.is_null() && !y.is_array()).cloned());
            v
        }
        Value::Object(_) => vec![json!(x.to_string()), json!(""), json!(0), json!(false)],
        Value::Null => vec![],
    }
}

/// A mutated instance that the schema no longer accepts, if one is found.
pub fn break_it(d: &Defs, s: &Value, v: &Value, g: &mut G) -> Option<(Value, Site)> {
    let mut out = vec![];
    sites(d, s, v, &mut vec![], &mut out);
    if out.is_empty() {
        return None;
    }
    for _ in 0..4 {
        let site = g.pick(&out).clone();
        if let Some(w) = apply(v, &site, g) {
            if !d.valid(s, &w) {
                return Some((w, site));
            }
        }
    }
    None
}
