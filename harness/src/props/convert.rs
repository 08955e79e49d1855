//! Typed access: members (P01), constructors and fixed values (P19), payload conversions (P07).
use crate::engine::*;
use crate::glue::{CONSTS, CONVS, CTORS, MEMBERS, TRIES};
use crate::jsongen as jg;
use crate::schema::{blank, defs};
use crate::tape::G;
use serde_json::{json, Map, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P01", name: "members", quick: 40_000, thorough: 1_000_000, run: members });
    v.push(Sub { prop: "P19", name: "constructors", quick: 30_000, thorough: 600_000, run: ctors });
    v.push(Sub { prop: "P19", name: "fixed-values", quick: 20_000, thorough: 300_000, run: consts });
    v.push(Sub { prop: "P07", name: "into-unions", quick: 60_000, thorough: 1_200_000, run: convs });
    v.push(Sub { prop: "P07", name: "out-of-unions", quick: 30_000, thorough: 600_000, run: tries });
}

fn declared(name: &str) -> Vec<&'static str> {
    let s = defs().flat(defs().get(name).unwrap());
    s.get("properties").and_then(|p| p.as_object()).map(|p| p.keys().map(|k| k.as_str()).collect()).unwrap_or_default()
}

fn empty(v: &Value) -> bool {
    blank(v) || v.as_object().is_some_and(|o| o.is_empty())
}

fn members(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(MEMBERS);
    let v = defs().gen(t.name, g);
    c.input(&json!({"type": t.name, "value": v}));
    c.nontrivial(v.as_object().is_some_and(|o| o.len() >= 2));
    let got = (t.get)(&v).map_err(|e| Fail { sig: format!("{} rejected", t.name), msg: format!("{}: {e}", jg::short(&v)) })?;
    let known = declared(t.name);
    for (j, x) in got {
        if j == "*" {
            let rest: Map<String, Value> =
                v.as_object().unwrap().iter().filter(|(k, _)| !known.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect();
            let ok = if rest.is_empty() { empty(&x) } else { jg::json_eq(&Value::Object(rest), &x) };
            ensure(ok, format!("{}: other members", t.name), || format!("{} of {}", jg::short(&x), jg::short(&v)))?;
            continue;
        }
        match v.get(j) {
            Some(w) => ensure(jg::json_eq(w, &x), format!("{}.{j}", t.name), || {
                format!("member {j} of {} reads as {}", jg::short(&v), jg::short(&x))
            })?,
            None => ensure(empty(&x), format!("{}.{j} absent", t.name), || {
                format!("absent member {j} of {} reads as {}", jg::short(&v), jg::short(&x))
            })?,
        }
    }
    Ok(())
}

fn ctors(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(CTORS);
    let d = defs();
    let v = d.gen(t.name, g);
    c.input(&json!({"type": t.name, "value": v, "arguments": t.args}));
    c.nontrivial(t.args.len() >= 2);
    let w = (t.build)(&v).map_err(|e| Fail { sig: format!("{} rejected", t.name), msg: format!("{}: {e}", jg::short(&v)) })?;
    let (Some(vo), Some(wo)) = (v.as_object(), w.as_object()) else {
        return fail(format!("{}::new form", t.name), jg::short(&w));
    };
    let known = declared(t.name);
    let s = d.flat(d.get(t.name).unwrap());
    for (k, x) in wo {
        // an optional member with one possible value may be filled in
        if !vo.contains_key(k) && s["properties"][k]["const"] == *x && !x.is_null() {
            continue;
        }
        ensure(vo.get(k).is_some_and(|y| jg::json_eq(x, y)), format!("{}::new {k}", t.name), || {
            format!("constructed from the members of {}: {}", jg::short(&v), jg::short(&w))
        })?;
    }
    for k in vo.keys().filter(|k| !wo.contains_key(*k)) {
        let is_arg = t.args.contains(&k.as_str()) || (t.args.contains(&"*") && !known.contains(&k.as_str()));
        let required = s["required"].as_array().is_some_and(|r| r.iter().any(|x| x == k.as_str()));
        ensure(!is_arg && !required, format!("{}::new loses {k}", t.name), || {
            format!("constructed from the members of {}: {}", jg::short(&v), jg::short(&w))
        })?;
    }
    Ok(())
}

fn consts(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(CONSTS);
    let v = defs().gen(t.name, g);
    c.input(&json!({"type": t.name, "value": v}));
    c.nontrivial(true);
    let (a, b) = (t.get)(&v).map_err(|e| Fail { sig: format!("{} rejected", t.name), msg: format!("{}: {e}", jg::short(&v)) })?;
    // optional fixed members still have their accessor
    let want = v.get(t.member).cloned().unwrap_or_else(|| {
        let s = defs().flat(defs().get(t.name).unwrap());
        s["properties"][t.member]["const"].clone()
    });
    ensure(a == want || (v.get(t.member).is_none() && a.is_null()), format!("{}.{} accessor", t.name, t.member), || {
        format!("{a} for {}", jg::short(&v))
    })?;
    for b in b.into_iter().flatten() {
        ensure(b == want, format!("{}::{} value", t.name, t.member), || format!("{b} for {}", jg::short(&v)))?;
    }
    Ok(())
}

fn convs(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(CONVS);
    let v = defs().gen(t.from, g);
    c.input(&json!({"from": t.from, "to": t.to, "value": v}));
    c.nontrivial(v.as_object().is_some_and(|o| o.len() >= 2));
    c.class(t.rule);
    let at = format!("{} into {}", t.from, t.to);
    let (w, variant) = (t.run)(&v).map_err(|e| Fail { sig: format!("{at}: rejected"), msg: format!("{}: {e}", jg::short(&v)) })?;
    let mut want = v.clone();
    match t.rule {
        "jsonrpc" => {
            want.as_object_mut().unwrap().insert("jsonrpc".into(), json!("2.0"));
        }
        "error" => want = v["error"].clone(),
        "method_params" => {
            want.as_object_mut().unwrap().retain(|k, _| k == "method" || k == "params");
        }
        _ => {}
    }
    same(&want, &w, &at)?;
    ensure(variant != Some(false), format!("{at}: variant"), || format!("{} lands in another variant", jg::short(&v)))
}

/// Whether a union value made from a payload of type `from` converts to type `to`.
fn convertible(from: &str, to: &str) -> Option<bool> {
    const UNIONS: &[&str] =
        &["ClientRequest", "ServerRequest", "ClientNotification", "ServerNotification", "ClientResult", "ServerResult"];
    let to = if to == "GenericResult" { "Result" } else { to };
    if from == to {
        return Some(true);
    }
    if UNIONS.contains(&from) {
        return None;
    }
    Some(match to {
        t if UNIONS.contains(&t) => true,
        "ClientTaskResult" => from == "ElicitResult" || from == "CreateMessageResult",
        "Result" => from == "GetTaskPayloadResult",
        _ => false,
    })
}

fn tries(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TRIES);
    let v = defs().gen(t.from, g);
    c.input(&json!({"union": t.union, "from": t.from, "value": v}));
    c.nontrivial(v.as_object().is_some_and(|o| !o.is_empty()));
    let at = format!("{} via {}", t.from, t.union);
    let all = (t.run)(&v).map_err(|e| Fail { sig: format!("{at}: rejected"), msg: format!("{}: {e}", jg::short(&v)) })?;
    for (name, r) in all {
        let want = convertible(t.from, name);
        match r {
            Ok(w) => {
                ensure(want != Some(false), format!("{at} to {name}: accepted"), || jg::short(&v))?;
                same(&v, &w, &format!("{at} to {name}"))?;
            }
            Err(e) => {
                ensure(want != Some(true), format!("{at} to {name}: refused"), || format!("{} for {}", e, jg::short(&v)))?;
                ensure(e["code"] == -32603, format!("{at} to {name}: error code"), || e.to_string())?;
            }
        }
    }
    Ok(())
}
