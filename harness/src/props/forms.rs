//! Primitive schemas of elicitation forms read from JSON maps (P11).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m::{PrimitiveSchemaDefinition as Prim, RpcError};
use crate::mutate;
use crate::schema::defs;
use crate::tape::G;
use serde_json::{json, Map, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P11", name: "valid", quick: 25_000, thorough: 600_000, run: valid });
    v.push(Sub { prop: "P11", name: "unsupported", quick: 25_000, thorough: 600_000, run: unsupported });
    v.push(Sub { prop: "P11", name: "arbitrary", quick: 25_000, thorough: 600_000, run: arbitrary });
    #[cfg(feature = "fam_a")]
    v.push(Sub { prop: "P11", name: "option-list", quick: 10_000, thorough: 250_000, run: options });
}

fn kind(p: &Prim) -> &'static str {
    match p {
        Prim::StringSchema(_) => "StringSchema",
        Prim::NumberSchema(_) => "NumberSchema",
        Prim::BooleanSchema(_) => "BooleanSchema",
        #[cfg(feature = "fam_a")]
        Prim::EnumSchema(_) => "EnumSchema",
        #[cfg(not(feature = "fam_a"))]
        Prim::UntitledSingleSelectEnumSchema(_) => "UntitledSingleSelectEnumSchema",
        #[cfg(not(feature = "fam_a"))]
        Prim::TitledSingleSelectEnumSchema(_) => "TitledSingleSelectEnumSchema",
        #[cfg(not(feature = "fam_a"))]
        Prim::UntitledMultiSelectEnumSchema(_) => "UntitledMultiSelectEnumSchema",
        #[cfg(not(feature = "fam_a"))]
        Prim::TitledMultiSelectEnumSchema(_) => "TitledMultiSelectEnumSchema",
        #[cfg(not(feature = "fam_a"))]
        Prim::LegacyTitledEnumSchema(_) => "LegacyTitledEnumSchema",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}
#[cfg(feature = "fam_a")]
const KINDS: [&str; 4] = ["StringSchema", "NumberSchema", "BooleanSchema", "EnumSchema"];
#[cfg(not(feature = "fam_a"))]
const KINDS: [&str; 8] = [
    "StringSchema",
    "NumberSchema",
    "BooleanSchema",
    "UntitledSingleSelectEnumSchema",
    "TitledSingleSelectEnumSchema",
    "UntitledMultiSelectEnumSchema",
    "TitledMultiSelectEnumSchema",
    "LegacyTitledEnumSchema",
];

/// The kind a valid map describes: by its type and the members that carry options.
fn expected_kind(m: &Map<String, Value>) -> &'static str {
    let ty = m["type"].as_str().unwrap_or("");
    match ty {
        "boolean" => "BooleanSchema",
        "number" | "integer" => "NumberSchema",
        "array" => {
            if m["items"].get("anyOf").is_some() {
                "TitledMultiSelectEnumSchema"
            } else {
                "UntitledMultiSelectEnumSchema"
            }
        }
        _ if cfg!(feature = "fam_a") && m.contains_key("enum") => "EnumSchema",
        _ if m.contains_key("oneOf") => "TitledSingleSelectEnumSchema",
        _ if m.contains_key("enum") && m.contains_key("enumNames") => "LegacyTitledEnumSchema",
        _ if m.contains_key("enum") => "UntitledSingleSelectEnumSchema",
        _ => "StringSchema",
    }
}

fn is_parse_error(e: &RpcError, input: &Value) -> Res {
    ensure(e.code == -32700 && !e.message.is_empty(), "refusal is not a parse error", || format!("{} for {}", js(e), jg::short(input)))
}

fn valid(g: &mut G, c: &mut Ctx) -> Res {
    let ty = c.row(&KINDS);
    let v = defs().gen(ty, g);
    let want = v.clone();
    let mut map = v.as_object().unwrap().clone();
    let k = expected_kind(&map);
    // members no schema knows are no obstacle
    let extra = g.chance(1, 4);
    if extra {
        map.insert(format!("zz{}", jg::ident(g)), jg::any(g, 1));
    }
    c.input(&json!(map));
    c.class(k);
    c.nontrivial(map.len() >= 2);
    let p = Prim::try_from(&map).map_err(|e| Fail { sig: format!("{k}: refused"), msg: format!("{} for {}", js(&e), jg::short(&json!(map))) })?;
    ensure(kind(&p) == k, format!("{k}: taken for another kind"), || format!("{} for {}", kind(&p), jg::short(&v)))?;
    same(&want, &js(&p), &format!("{k}: content"))?;
    // the other reader of the same text agrees
    let q: Prim = serde_json::from_value(v.clone()).map_err(|e| Fail { sig: format!("{k}: readers disagree"), msg: format!("{e} for {}", jg::short(&v)) })?;
    same(&js(&q), &js(&p), &format!("{k}: readers disagree"))
}

fn unsupported(g: &mut G, c: &mut Ctx) -> Res {
    let ty = c.row(&KINDS);
    let mut v = defs().gen(ty, g);
    let o = v.as_object_mut().unwrap();
    let what = match g.below(5) {
        0 => {
            let t = g.pick(&["object", "null", "String", "int", "float", "bool", "enum ", "", " string", "any"]).to_string();
            let t = if g.chance(1, 3) { format!("t{}", jg::ident(g)) } else { t };
            o.insert("type".into(), json!(t));
            for k in ["enum", "oneOf", "enumNames"] {
                o.remove(k);
            }
            "unknown type"
        }
        1 => {
            o.remove("type");
            for k in ["enum", "oneOf", "enumNames"] {
                o.remove(k);
            }
            "no type"
        }
        2 => {
            let t = g.pick(&[json!(1), json!(null), json!(true), json!(["string"]), json!({"string": 1})]).clone();
            o.insert("type".into(), t);
            for k in ["enum", "oneOf", "enumNames"] {
                o.remove(k);
            }
            "type is no word"
        }
        3 => {
            o.clear();
            o.insert("type".into(), json!("object"));
            o.insert("properties".into(), json!({jg::ident(g): {"type": "string"}}));
            "nested object"
        }
        _ => {
            o.clear();
            o.insert("type".into(), json!("array"));
            match g.below(5) {
                0 => {}
                1 => {
                    o.insert("items".into(), json!({"type": "string"}));
                }
                2 => {
                    let i = jg::any(g, 0);
                    o.insert("items".into(), i);
                }
                3 => {
                    o.insert("items".into(), json!({"type": "object", "properties": {}}));
                }
                _ => {
                    o.insert("items".into(), json!({"type": "string", "enum": [1, null]}));
                }
            }
            "array of anything"
        }
    };
    c.input(&v);
    c.class(what);
    c.nontrivial(true);
    match Prim::try_from(v.as_object().unwrap()) {
        Err(e) => is_parse_error(&e, &v),
        Ok(p) => fail(format!("{what} accepted"), format!("{} read as {}", jg::short(&v), js(&p))),
    }
}

fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        // nested objects may hold members no schema knows
        (Value::Object(x), Value::Object(y)) => y.iter().all(|(k, q)| x.get(k).is_some_and(|p| close(p, q))),
        _ => a == b,
    }
}

/// Whatever the map, the answer is a definition that says nothing the map does not, or a parse error.
fn arbitrary(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let ty = c.row(&KINDS);
    let mut v = d.gen(ty, g);
    if g.chance(1, 2) {
        if let Some((w, _)) = mutate::break_it(d, d.get(ty).unwrap(), &v, g) {
            if w.is_object() {
                v = w;
            }
        }
    }
    for _ in 0..g.below(4) {
        let words = [
            "type", "enum", "oneOf", "enumNames", "items", "default", "format", "minLength", "maxLength", "minimum", "maximum",
            "title", "description", "anyOf", "minItems", "maxItems",
        ];
        let k = g.pick(&words).to_string();
        let x = match g.below(6) {
            0 => json!(g.pick(&["string", "number", "integer", "boolean", "array", "object", "enum", "null"])),
            1 => json!([jg::string(g), jg::string(g)]),
            2 => json!([{"const": jg::string(g), "title": jg::string(g)}]),
            3 => json!([{"enum": [jg::string(g)], "title": jg::string(g)}]),
            4 => json!({"type": "string", "enum": [jg::string(g)]}),
            _ => jg::any(g, 2),
        };
        let o = v.as_object_mut().unwrap();
        if g.chance(1, 4) {
            o.remove(&k);
        } else {
            o.insert(k, x);
        }
    }
    let map = v.as_object().unwrap();
    c.input(&v);
    c.nontrivial(!map.is_empty());
    match Prim::try_from(map) {
        Err(e) => {
            c.class("refused");
            is_parse_error(&e, &v)
        }
        Ok(p) => {
            c.class(kind(&p));
            if cfg!(feature = "fam_a") && !map.get("type").is_some_and(|t| t.is_string()) || map.get("type") == Some(&json!("enum")) {
                // the list of options of the oldest form is rearranged; see `option-list`
                return Ok(());
            }
            let out = js(&p);
            for (k, x) in out.as_object().cloned().unwrap_or_default() {
                ensure(map.get(&k).is_some_and(|y| close(y, &x)), format!("{}: says more than the map: {k}", kind(&p)), || {
                    format!("{} read as {out}", jg::short(&v))
                })?;
            }
            ensure(out.get("type").is_some(), format!("{}: no type", kind(&p)), || out.to_string())
        }
    }
}

/// Options listed one by one, each with an optional title.
#[cfg(feature = "fam_a")]
fn options(g: &mut G, c: &mut Ctx) -> Res {
    let n = g.idx(5);
    let (mut list, mut values, mut names) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let w = jg::string(g);
        let mut o = json!({"type": "string", "enum": [w]});
        values.push(w.clone());
        if g.chance(1, 2) {
            let t = jg::string(g);
            o["title"] = json!(t);
            names.push(t);
        } else {
            names.push(w);
        }
        list.push(o);
    }
    let mut map = Map::new();
    let mut want = json!({"type": "string", "enum": values});
    if n > 0 {
        want["enumNames"] = json!(names);
    }
    for k in ["title", "description"] {
        if g.chance(1, 2) {
            let t = jg::string(g);
            map.insert(k.into(), json!(t));
            want[k] = json!(t);
        }
    }
    let broken = n > 0 && g.chance(1, 3);
    if broken {
        let i = g.idx(n);
        list[i] = g.pick(&[json!({}), json!({"enum": []}), json!({"enum": [1]}), json!({"enum": "x"}), json!(null), json!({"const": "x"})]).clone();
    }
    map.insert("oneOf".into(), json!(list));
    c.input(&json!(map));
    c.class(if broken { "one option unreadable" } else { "options" });
    c.nontrivial(n > 0);
    match Prim::try_from(&map) {
        Err(e) => {
            is_parse_error(&e, &json!(map))?;
            ensure(broken, "options refused", || format!("{} for {}", js(&e), json!(map)))
        }
        Ok(p) => {
            ensure(!broken, "unreadable option accepted", || format!("{} for {}", js(&p), json!(map)))?;
            ensure(kind(&p) == "EnumSchema", "options taken for another kind", || kind(&p).to_string())?;
            same(&want, &js(&p), "options")
        }
    }
}
