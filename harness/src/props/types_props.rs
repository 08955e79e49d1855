//! Per-type properties: wire fidelity (P01), rejection (P02), robustness (P18), unknown members (P20).
use crate::engine::*;
use crate::jsongen as jg;
use crate::mutate;
use crate::schema::{blank, defs, defs_blank};
use crate::tape::G;
use crate::types::TYPES;
use serde_json::{json, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P01", name: "types", quick: 60_000, thorough: 1_500_000, run: fidelity });
    v.push(Sub { prop: "P01", name: "blank-members", quick: 15_000, thorough: 300_000, run: fidelity_blank });
    v.push(Sub { prop: "P01", name: "text", quick: 15_000, thorough: 300_000, run: fidelity_text });
    v.push(Sub { prop: "P22", name: "copies", quick: 12_000, thorough: 300_000, run: copies });
    v.push(Sub { prop: "P19", name: "defaults", quick: 500, thorough: 5_000, run: defaults });
    v.push(Sub { prop: "P02", name: "broken-instance", quick: 60_000, thorough: 1_500_000, run: reject });
}

type CopyFn = fn(&Value) -> Result<Option<Value>, String>;

/// A copy says what the original said, also after the original is gone.
fn copies(g: &mut G, c: &mut Ctx) -> Res {
    use crate::api::Side;
    use crate::{copy_of, u, wiregen as wg};
    let (name, v, copy, written): (String, Value, CopyFn, Option<Value>) = if g.chance(3, 4) {
        let t = c.row(TYPES);
        let d = if g.chance(1, 2) { defs() } else { defs_blank() };
        let v = d.gen(t.name, g);
        let w = (t.rt)(&v).ok();
        (t.name.into(), v, t.copy, w)
    } else {
        let side = wg::side(g);
        let v = if g.chance(1, 2) {
            wg::message(defs(), side, g).wire
        } else {
            Value::Array((0..g.range(1, 4)).map(|_| wg::message(defs(), side, g).wire).collect())
        };
        let (name, copy): (&str, CopyFn) = match (side, v.is_array()) {
            (Side::Client, false) => ("client message", |v| copy_of!(u::ClientMessage, v)),
            (Side::Client, true) => ("client messages", |v| copy_of!(u::ClientMessages, v)),
            (Side::Server, false) => ("server message", |v| copy_of!(u::ServerMessage, v)),
            (Side::Server, true) => ("server messages", |v| copy_of!(u::ServerMessages, v)),
        };
        let w = match side {
            Side::Client => serde_json::from_value::<u::ClientMessages>(v.clone()).ok().and_then(|x| serde_json::to_value(&x).ok()),
            Side::Server => serde_json::from_value::<u::ServerMessages>(v.clone()).ok().and_then(|x| serde_json::to_value(&x).ok()),
        };
        (name.into(), v, copy, w)
    };
    c.input(&json!({"type": name, "value": v}));
    c.nontrivial(interesting(&v));
    match (written, copy(&v)) {
        // what is not read is the business of others
        (None, _) | (_, Err(_)) => c.class("not read"),
        (_, Ok(None)) => c.class("no copies"),
        (Some(w), Ok(Some(x))) => {
            c.class("copied");
            same(&w, &x, &format!("{name}: copy"))?;
        }
    }
    Ok(())
}

/// The default value of a type says nothing: it is the value read from an empty object.
fn defaults(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let _ = g.below(2);
    let blank = (t.blank)();
    c.input(&json!({"type": t.name}));
    c.nontrivial(blank.is_some());
    let Some(x) = blank else { return Ok(()) };
    match (t.rt)(&json!({})) {
        Ok(w) => {
            c.class("as an empty object");
            same(&w, &x, &format!("{}: default", t.name))
        }
        Err(_) => {
            c.class("other");
            ensure(defs().valid_name(t.name, &x), format!("{}: default is no valid value", t.name), || jg::short(&x))
        }
    }
}

fn interesting(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.len() >= 2,
        Value::Array(a) => !a.is_empty(),
        _ => false,
    }
}

fn fidelity(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let v = defs().gen(t.name, g);
    c.input(&json!({"type": t.name, "value": v}));
    c.nontrivial(interesting(&v));
    c.class(if v.is_object() { "object" } else { "scalar" });
    match (t.rt)(&v) {
        Err(e) => fail(format!("{} rejected", t.name), format!("{} rejected valid {}: {e}", t.name, jg::short(&v))),
        Ok(w) => same(&v, &w, &format!("{} round trip", t.name)),
    }
}

/// Equal except that empty optional arrays and nulls may vanish.
fn same_mod_blank(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            x.iter().all(|(k, v)| match y.get(k) {
                Some(w) => same_mod_blank(v, w),
                None => blank(v),
            }) && y.keys().all(|k| x.contains_key(k))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_mod_blank(p, q)),
        _ => jg::json_eq(a, b),
    }
}

fn fidelity_blank(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let v = defs_blank().gen(t.name, g);
    c.input(&json!({"type": t.name, "value": v}));
    c.nontrivial(interesting(&v));
    match (t.rt)(&v) {
        Err(e) => fail(format!("{} rejected", t.name), format!("{} rejected valid {}: {e}", t.name, jg::short(&v))),
        Ok(w) => {
            ensure(same_mod_blank(&v, &w), format!("{} loses content", t.name), || {
                format!("{}: {} became {}", t.name, jg::short(&v), jg::short(&w))
            })?;
            // reading back what was written changes nothing more
            match (t.rt)(&w) {
                Err(e) => fail(format!("{} rejects own output", t.name), format!("{}: {e} on {}", t.name, jg::short(&w))),
                Ok(x) => same(&w, &x, &format!("{} second round trip", t.name)),
            }
        }
    }
}

fn fidelity_text(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let v = defs().gen(t.name, g);
    let text = if g.chance(1, 2) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
    c.input(&json!({"type": t.name, "text": text}));
    c.nontrivial(interesting(&v));
    match (t.rt_str)(&text) {
        Err(e) => fail(format!("{} rejected text", t.name), format!("{} rejected {text}: {e}", t.name)),
        Ok(s) => match serde_json::from_str::<Value>(&s) {
            Err(e) => fail(format!("{} writes invalid JSON", t.name), format!("{s}: {e}")),
            Ok(w) => same(&v, &w, &format!("{} text round trip", t.name)),
        },
    }
}

fn reject(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let t = c.row(TYPES);
    let v = d.gen(t.name, g);
    let s = d.get(t.name).unwrap();
    let Some((w, site)) = mutate::break_it(d, s, &v, g) else {
        c.class("no invalidating mutation");
        return Ok(());
    };
    c.input(&json!({"type": t.name, "value": w, "mutation": site.label()}));
    c.nontrivial(true);
    c.class(site.label());
    if t.name == "ServerResult" && cfg!(feature = "fam_c") && w.is_object() && w.get("resultType").is_none() {
        // documented: results of peers speaking an older version carry no discriminator
        c.class("result without discriminator (tolerated)");
        return Ok(());
    }
    match (t.rt)(&w) {
        Err(_) => Ok(()),
        Ok(x) => fail(
            format!("{} accepts {}", t.name, site.label()),
            format!("{} accepted {} ({:?}) and wrote {}", t.name, jg::short(&w), site, jg::short(&x)),
        ),
    }
}
