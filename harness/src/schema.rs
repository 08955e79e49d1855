//! Pinned JSON Schemas (snapshot of the schema that accompanies every generated type),
//! a generator of schema-valid instances and a validator for the subset in use.
use crate::jsongen as jg;
use crate::tape::G;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[cfg(feature = "v2024_11_05")]
pub const SNAPSHOT: &str = include_str!("../../schemas/2024_11_05.json");
#[cfg(feature = "v2025_03_26")]
pub const SNAPSHOT: &str = include_str!("../../schemas/2025_03_26.json");
#[cfg(feature = "v2025_06_18")]
pub const SNAPSHOT: &str = include_str!("../../schemas/2025_06_18.json");
#[cfg(feature = "v2025_11_25")]
pub const SNAPSHOT: &str = include_str!("../../schemas/2025_11_25.json");
#[cfg(feature = "v2026_07_28")]
pub const SNAPSHOT: &str = include_str!("../../schemas/2026_07_28.json");
#[cfg(feature = "vdraft")]
pub const SNAPSHOT: &str = include_str!("../../schemas/draft.json");

pub struct Defs {
    pub defs: BTreeMap<String, Value>,
    /// generate empty optional arrays and null optional members too
    pub keep_blank: bool,
    min_depth: BTreeMap<String, u32>,
    /// required members of the results
    result_marks: std::collections::BTreeSet<String>,
}

const INF: u32 = 1000;

/// The same schemas, with a generator that also writes empty optional arrays and null free values.
pub fn defs_blank() -> &'static Defs {
    static D: OnceLock<Defs> = OnceLock::new();
    D.get_or_init(|| {
        let d = defs();
        Defs { defs: d.defs.clone(), keep_blank: true, min_depth: d.min_depth.clone(), result_marks: d.result_marks.clone() }
    })
}

pub fn defs() -> &'static Defs {
    static D: OnceLock<Defs> = OnceLock::new();
    D.get_or_init(|| {
        let raw: BTreeMap<String, Value> = serde_json::from_str(SNAPSHOT).unwrap();
        let mut defs: BTreeMap<String, Value> = raw.iter().map(|(k, v)| (k.clone(), merge_all_of(v, &raw))).collect();
        // The schema text only says "integer" here; the protocol fixes the code of this error.
        for (name, ptr) in [("UrlElicitError", "/properties/code"), ("UrlElicitationRequiredError", "/properties/error/properties/code")] {
            if let Some(c) = defs.get_mut(name).and_then(|d| d.pointer_mut(ptr)) {
                *c = json!({"type": "integer", "const": -32042});
            }
        }
        let mut min_depth: BTreeMap<String, u32> = defs.keys().map(|k| (k.clone(), INF)).collect();
        loop {
            let mut changed = false;
            for (k, s) in &defs {
                let d = depth_of(s, &min_depth);
                if d < min_depth[k] {
                    min_depth.insert(k.clone(), d);
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let result_marks = defs
            .iter()
            .filter(|(name, _)| name.ends_with("Result"))
            .filter_map(|(_, d)| d.get("required")?.as_array())
            .flatten()
            .filter_map(|k| k.as_str().map(String::from))
            .collect();
        Defs { defs, keep_blank: false, min_depth, result_marks }
    })
}

fn member_names(s: &Value, out: &mut std::collections::BTreeSet<String>) {
    match s {
        Value::Object(o) => {
            if let Some(Value::Object(p)) = o.get("properties") {
                out.extend(p.keys().cloned());
            }
            o.values().for_each(|x| member_names(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| member_names(x, out)),
        _ => {}
    }
}
/// Other spellings of a member name.
pub fn spellings(name: &str) -> Vec<String> {
    let snake: String = name.chars().flat_map(|c| if c.is_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect();
    let mut first = name.chars();
    let cap: String = first.next().into_iter().flat_map(|c| c.to_uppercase()).chain(first).collect();
    vec![
        snake.replace('_', "-"),
        snake,
        cap,
        name.to_lowercase(),
        name.to_uppercase(),
        name.trim_start_matches('_').to_string(),
        format!("_{name}"),
        format!("{name}_"),
        format!("{name}s"),
        name.trim_end_matches('s').to_string(),
        format!("{name} "),
    ]
}
/// Names that no definition of this version uses but that are close to one that is used, sorted.
pub fn odd_names() -> &'static Vec<String> {
    static O: OnceLock<Vec<String>> = OnceLock::new();
    O.get_or_init(|| {
        let mut known = std::collections::BTreeSet::new();
        defs().defs.values().for_each(|s| member_names(s, &mut known));
        let mut v: Vec<String> = known.iter().flat_map(|n| spellings(n)).filter(|n| !n.is_empty() && !known.contains(n)).collect();
        v.sort();
        v.dedup();
        v
    })
}

/// Members that only particular result types have.
fn result_members(d: &Defs) -> &'static std::collections::BTreeSet<String> {
    static O: OnceLock<std::collections::BTreeSet<String>> = OnceLock::new();
    O.get_or_init(|| {
        let mut out = std::collections::BTreeSet::new();
        for (n, s) in &d.defs {
            if let (true, Some(Value::Object(p))) = (n.ends_with("Result"), s.get("properties")) {
                out.extend(p.keys().filter(|k| *k != "_meta" && *k != "resultType").cloned());
            }
        }
        out
    })
}

/// Words of the source that could name a member but name none in this version, sorted.
pub fn odd_words() -> &'static (Vec<String>, Vec<String>) {
    static O: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();
    O.get_or_init(|| {
        let mut known = std::collections::BTreeSet::new();
        defs().defs.values().for_each(|s| member_names(s, &mut known));
        let pick = |v: &[String]| -> Vec<String> {
            let like_name = |s: &str| s.len() > 1 && s.chars().all(|c| c.is_ascii_alphanumeric() || "_-$.".contains(c));
            let mut v: Vec<String> = v.iter().filter(|s| like_name(s) && !known.contains(*s)).cloned().collect();
            v.sort();
            v.dedup();
            v
        };
        (pick(&crate::jsongen::dict().strings), pick(&crate::jsongen::dict().hot_strings))
    })
}

/// Replaces `allOf` by one merged object schema, everywhere.
fn merge_all_of(s: &Value, raw: &BTreeMap<String, Value>) -> Value {
    match s {
        Value::Array(a) => Value::Array(a.iter().map(|x| merge_all_of(x, raw)).collect()),
        Value::Object(o) => {
            let Some(Value::Array(parts)) = o.get("allOf") else {
                return Value::Object(o.iter().map(|(k, v)| (k.clone(), merge_all_of(v, raw))).collect());
            };
            let mut out = Map::new();
            let mut props = Map::new();
            let mut req: Vec<Value> = vec![];
            out.insert("type".into(), json!("object"));
            for p in parts {
                let p = match p.get("$ref").and_then(|r| r.as_str()) {
                    Some(r) => merge_all_of(&raw[&ref_name(r)], raw),
                    None => merge_all_of(p, raw),
                };
                if let Some(Value::Object(q)) = p.get("properties") {
                    for (k, v) in q {
                        props.insert(k.clone(), v.clone());
                    }
                }
                if let Some(Value::Array(r)) = p.get("required") {
                    for x in r {
                        if !req.contains(x) {
                            req.push(x.clone());
                        }
                    }
                }
                if let Some(ap) = p.get("additionalProperties") {
                    out.insert("additionalProperties".into(), ap.clone());
                }
            }
            out.insert("properties".into(), Value::Object(props));
            out.insert("required".into(), Value::Array(req));
            Value::Object(out)
        }
        _ => s.clone(),
    }
}

/// Rust name of a `$ref` target.
fn ref_name(r: &str) -> String {
    let n = r.rsplit('/').next().unwrap();
    match n {
        "Error" => "RpcError".to_string(),
        "ElicitRequestURLParams" => "ElicitRequestUrlParams".to_string(),
        "JSONObject" => "JsonObject".to_string(),
        "JSONValue" => "JsonValue".to_string(),
        _ => match n.strip_prefix("JSONRPC") {
            Some(rest) => format!("Jsonrpc{rest}"),
            None => n.to_string(),
        },
    }
}

fn depth_of(s: &Value, md: &BTreeMap<String, u32>) -> u32 {
    let Some(o) = s.as_object() else { return 0 };
    if let Some(r) = o.get("$ref").and_then(|r| r.as_str()) {
        let n = ref_name(r);
        return match md.get(&n) {
            Some(d) => (d + 1).min(INF),
            None => 0,
        };
    }
    if let Some(a) = o.get("anyOf").and_then(|a| a.as_array()) {
        return a.iter().map(|x| depth_of(x, md)).min().unwrap_or(0);
    }
    let mut d = 0;
    if let Some(req) = o.get("required").and_then(|r| r.as_array()) {
        for k in req {
            if let Some(p) = o.get("properties").and_then(|p| p.get(k.as_str().unwrap())) {
                d = d.max(depth_of(p, md));
            }
        }
    }
    d
}

/// A complete result: any result type other than the input-required discriminator.
fn result_type(g: &mut G) -> Value {
    if g.chance(1, 4) {
        json!(*g.pick(&["done", "", "custom/result", "Complete"]))
    } else {
        json!("complete")
    }
}

pub fn blank(v: &Value) -> bool {
    v.is_null() || v.as_array().is_some_and(|a| a.is_empty())
}

impl Defs {
    /// Follows references to the schema that carries the keywords.
    pub fn flat<'a>(&'a self, s: &'a Value) -> &'a Value {
        match s.get("$ref").and_then(|r| r.as_str()).and_then(|r| self.resolve(r)) {
            Some(t) => self.flat(t),
            None => s,
        }
    }
    pub fn get(&self, name: &str) -> Option<&Value> {
        self.defs.get(name)
    }
    /// Whether a member is one that no definition knows, although its name may look much like one that is known.
    pub fn is_odd(&self, key: &str) -> bool {
        key.starts_with("zz")
            || odd_words().0.binary_search_by(|x| x.as_str().cmp(key)).is_ok()
            || odd_names().binary_search_by(|x| x.as_str().cmp(key)).is_ok()
    }
    pub fn has(&self, name: &str) -> bool {
        self.defs.contains_key(name)
    }
    fn resolve<'a>(&'a self, r: &str) -> Option<&'a Value> {
        self.defs.get(&ref_name(r))
    }

    /// A schema-valid instance of the named type.
    pub fn gen(&self, name: &str, g: &mut G) -> Value {
        let s = self.defs.get(name).unwrap_or_else(|| panic!("no schema for {name}"));
        self.plain_result(name, self.gen_schema(s, g, 4))
    }

    /// A result of no particular type must not look like one of a particular type.
    pub fn plain_result(&self, name: &str, mut v: Value) -> Value {
        if !["Result", "EmptyResult", "GetTaskPayloadResult"].contains(&name) {
            return v;
        }
        if let Some(m) = v.as_object_mut() {
            let special = result_members(self);
            m.retain(|k, _| !special.contains(k));
            if let Some(meta) = m.get_mut("_meta").and_then(|x| x.as_object_mut()) {
                meta.remove("io.modelcontextprotocol/subscriptionId");
            }
        }
        v
    }

    pub fn gen_schema(&self, s: &Value, g: &mut G, depth: i32) -> Value {
        let Some(o) = s.as_object() else { return jg::any(g, 2) };
        if let Some(r) = o.get("$ref").and_then(|r| r.as_str()) {
            return match self.resolve(r) {
                Some(t) => self.plain_result(&ref_name(r), self.gen_schema(t, g, depth)),
                None => {
                    if r.ends_with("JSONObject") {
                        Value::Object(jg::any_map(g, 2))
                    } else if r.ends_with("JSONValue") {
                        jg::any(g, 2)
                    } else {
                        panic!("unresolved {r}")
                    }
                }
            };
        }
        if let Some(c) = o.get("const") {
            return c.clone();
        }
        if let Some(e) = o.get("enum").and_then(|e| e.as_array()) {
            return e[g.idx(e.len())].clone();
        }
        if let Some(a) = o.get("anyOf").and_then(|a| a.as_array()) {
            let branch = if depth <= 0 {
                a.iter().min_by_key(|x| depth_of(x, &self.min_depth)).unwrap()
            } else {
                &a[g.idx(a.len())]
            };
            return self.gen_schema(branch, g, depth);
        }
        let ty = match o.get("type") {
            Some(Value::Array(ts)) => ts[g.idx(ts.len())].as_str().unwrap().to_string(),
            Some(Value::String(t)) => t.clone(),
            _ => {
                if o.contains_key("properties") {
                    "object".to_string()
                } else {
                    return jg::any(g, 2);
                }
            }
        };
        match ty.as_str() {
            "null" => Value::Null,
            "boolean" => json!(g.chance(1, 2)),
            "string" => match o.get("format").and_then(|f| f.as_str()) {
                Some("uri") => json!(format!(
                    "{}{}{}",
                    g.pick(&["file:///", "https://h/", "urn:x:", "custom://", "HTTPS://Host.EXAMPLE:443/", "data:,", "ui://h"]),
                    g.pick(&["", "a", "b/c", "x%20y", "?q=1", "A/../B", "//", "%C3%A9", "%c3%a9", "C:/x", "a+b"]),
                    g.pick(&["", "", "/", "#f", "?a=1&b=2", "."])
                )),
                Some("byte") => match g.below(4) {
                    0 => json!("QQ==".repeat(1 + g.idx(400))),
                    _ => json!(*g.pick(&["", "QQ==", "aGVsbG8=", "AAECAw==", "+/+/", "-_-_", "QQ", "aGVs\nbG8="])),
                },
                Some("uri-template") => json!(*g.pick(&["file:///{p}", "x://{a}/{b}", "plain", "x:{?q*}", "{+path}/", "X://{A}"])),
                _ => json!(jg::string(g)),
            },
            "integer" => {
                let lo = o.get("minimum").and_then(|v| v.as_f64());
                let hi = o.get("maximum").and_then(|v| v.as_f64());
                let v = jg::int(g);
                let mut v = v;
                if let Some(lo) = lo {
                    if (v as f64) < lo {
                        v = lo as i64 + (v.unsigned_abs() % 7) as i64;
                    }
                }
                if let Some(hi) = hi {
                    if (v as f64) > hi {
                        v = (hi as i64) - v.rem_euclid(2);
                    }
                }
                json!(v)
            }
            "number" => {
                let lo = o.get("minimum").and_then(|v| v.as_f64());
                let hi = o.get("maximum").and_then(|v| v.as_f64());
                if let (Some(lo), Some(hi)) = (lo, hi) {
                    let f = match g.below(6) {
                        4 => {
                            // next to either end, at every scale
                            let part = jg::exact((hi - lo) * (0.5f64 + g.below(8) as f64 / 16.0) * 0.5f64.powi(g.below(1060) as i32));
                            let near = if g.chance(2, 3) { lo + part } else { hi - part };
                            if (lo..=hi).contains(&near) { jg::exact(near) } else { lo }
                        }
                        5 => Some(jg::float(g)).filter(|f| (lo..=hi).contains(f)).unwrap_or_else(|| jg::exact(lo + (hi - lo) * 1e-12)),
                        0 => jg::exact(lo + (hi - lo) * (g.below(1 << 20) as f64 / (1 << 20) as f64)),
                        1 => return if g.chance(1, 2) { json!(lo as i64) } else { json!(hi as i64) },
                        _ => lo + (hi - lo) * (g.below(9) as f64 / 8.0),
                    };
                    return json!(f);
                }
                if g.chance(1, 3) {
                    // integers that a double represents exactly
                    let n = g.range(-(1 << 20), 1 << 20);
                    json!(n)
                } else {
                    json!(jg::float(g))
                }
            }
            "array" => {
                let max = o.get("maxItems").and_then(|v| v.as_u64()).unwrap_or(u64::MAX);
                let n = match g.below(24) {
                    _ if depth <= 0 => 0,
                    23 if depth >= 2 => match jg::dict_len(g, 130) {
                        Some(n) if g.chance(1, 3) => n as u64,
                        _ => g.below(24),
                    }
                    .min(max),
                    k => (k % 4).min(max),
                };
                let item = o.get("items").cloned().unwrap_or(json!({}));
                if depth >= 2 {
                    if let Some(n) = jg::big_len(g, 120, 1100).filter(|n| *n as u64 <= max) {
                        return Value::Array(jg::fill(n, g, |g| self.gen_schema(&item, g, 1)));
                    }
                }
                let a = (0..n).map(|_| self.gen_schema(&item, g, depth - 1)).collect();
                Value::Array(jg::repeat(a, g))
            }
            "object" => {
                let mut m = Map::new();
                let req: Vec<&str> =
                    o.get("required").and_then(|r| r.as_array()).map(|r| r.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
                if let Some(props) = o.get("properties").and_then(|p| p.as_object()) {
                    for (k, ps) in props {
                        let needed = req.contains(&k.as_str());
                        if needed || (depth > 0 && g.chance(1, 2)) {
                            let mut v = if k == "resultType" && ps.get("const").is_none() {
                                if props.contains_key("inputRequests") {
                                    json!("input_required")
                                } else {
                                    result_type(g)
                                }
                            } else {
                                self.gen_schema(ps, g, depth - 1)
                            };
                            let free = v.is_array() && !["type", "anyOf"].iter().any(|k| self.flat(ps).get(k).is_some());
                            if !needed && !self.keep_blank && blank(&v) && !free {
                                // an absent optional member and an empty one are the same value
                                if v.is_null() {
                                    continue;
                                }
                                let item = self.flat(ps).get("items").cloned().unwrap_or(json!({}));
                                v = Value::Array(vec![self.gen_schema(&item, g, depth - 1)]);
                            }
                            m.insert(k.clone(), v);
                        }
                    }
                }
                if let Some(ap) = o.get("additionalProperties") {
                    if ap != &Value::Bool(false) && depth > -1 {
                        let n = match g.below(24) {
                            23 => jg::dict_len(g, 130).filter(|_| depth >= 2).map_or(16, |n| n as u64),
                            21..=22 => g.below(16),
                            _ => g.below(3),
                        };
                        // An extension member named like a required member of another result makes the value fit both
                        // (unless a discriminator settles it): which one it is read as is then left open.
                        let props = o.get("properties").and_then(|p| p.as_object()).filter(|p| !p.is_empty());
                        let settled = props.is_none_or(|p| p.contains_key("inputRequests"));
                        for _ in 0..n {
                            let k = jg::ident(g);
                            let declared = props.is_some_and(|p| p.contains_key(&k));
                            if !declared && !m.contains_key(&k) {
                                let v = self.gen_schema(ap, g, depth - 1);
                                if settled || v.is_number() || v.is_boolean() || !self.result_marks.contains(&k) {
                                    m.insert(k, v);
                                }
                            }
                        }
                    }
                }
                Value::Object(m)
            }
            other => panic!("type {other}"),
        }
    }

    pub fn valid_name(&self, name: &str, v: &Value) -> bool {
        self.valid(&self.defs[name], v)
    }

    /// Structural validity (formats and bounds are not judged).
    pub fn valid(&self, s: &Value, v: &Value) -> bool {
        let Some(o) = s.as_object() else { return s != &Value::Bool(false) };
        if let Some(r) = o.get("$ref").and_then(|r| r.as_str()) {
            return match self.resolve(r) {
                Some(t) => self.valid(t, v),
                None => !r.ends_with("JSONObject") || v.is_object(),
            };
        }
        if let Some(c) = o.get("const") {
            if c != v {
                return false;
            }
        }
        if let Some(e) = o.get("enum").and_then(|e| e.as_array()) {
            if !e.contains(v) {
                return false;
            }
        }
        if let Some(a) = o.get("anyOf").and_then(|a| a.as_array()) {
            if !a.iter().any(|x| self.valid(x, v)) {
                return false;
            }
        }
        if let Some(t) = o.get("type") {
            let one = |t: &str| match t {
                "null" => v.is_null(),
                "boolean" => v.is_boolean(),
                "string" => v.is_string(),
                "integer" => v.is_i64() || v.is_u64() || v.as_f64().is_some_and(|f| f.fract() == 0.0),
                "number" => v.is_number(),
                "array" => v.is_array(),
                "object" => v.is_object(),
                _ => true,
            };
            let ok = match t {
                Value::Array(ts) => ts.iter().any(|t| one(t.as_str().unwrap())),
                Value::String(t) => one(t),
                _ => true,
            };
            if !ok {
                return false;
            }
        }
        if let Some(m) = v.as_object() {
            if let Some(req) = o.get("required").and_then(|r| r.as_array()) {
                if !req.iter().all(|k| m.contains_key(k.as_str().unwrap())) {
                    return false;
                }
            }
            let props = o.get("properties").and_then(|p| p.as_object());
            for (k, x) in m {
                match props.and_then(|p| p.get(k)) {
                    Some(ps) => {
                        if !self.valid(ps, x) {
                            return false;
                        }
                    }
                    None => {
                        if let Some(ap) = o.get("additionalProperties") {
                            if !self.valid(ap, x) {
                                return false;
                            }
                        }
                    }
                }
            }
        }
        if let (Some(a), Some(it)) = (v.as_array(), o.get("items")) {
            if !a.iter().all(|x| self.valid(it, x)) {
                return false;
            }
        }
        true
    }
}
