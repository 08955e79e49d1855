//! Generators of whole protocol messages with the facts a correct reader must report.
use crate::api::{self, Side};
use crate::jsongen as jg;
use crate::schema::Defs;
use crate::tape::G;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug)]
pub struct Msg {
    pub side: Side,
    /// 0 request, 1 notification, 2 response, 3 error
    pub kind: usize,
    pub wire: Value,
    pub id: Option<Value>,
    pub method: Option<String>,
    /// schema type behind the message, or "custom"
    pub ty: String,
}

pub fn requests(side: Side) -> &'static [&'static str] {
    match side {
        Side::Client => api::CLIENT_REQUESTS,
        Side::Server => api::SERVER_REQUESTS,
    }
}
pub fn notifications(side: Side) -> &'static [&'static str] {
    match side {
        Side::Client => api::CLIENT_NOTIFICATIONS,
        Side::Server => api::SERVER_NOTIFICATIONS,
    }
}
pub fn results(side: Side) -> &'static [&'static str] {
    match side {
        Side::Client => api::CLIENT_RESULTS,
        Side::Server => api::SERVER_RESULTS,
    }
}

pub fn method_of(d: &Defs, ty: &str) -> String {
    d.get(ty).unwrap().pointer("/properties/method/const").unwrap().as_str().unwrap().to_string()
}

pub fn id(g: &mut G) -> Value {
    if g.chance(1, 2) {
        json!(jg::string(g))
    } else {
        json!(jg::int(g))
    }
}

/// A method name that is not one of the side's own methods of this kind.
pub fn custom_method(d: &Defs, own: &[&str], g: &mut G) -> String {
    let own: Vec<String> = own.iter().map(|t| method_of(d, t)).collect();
    let m = match g.below(5) {
        0 => g.pick(&["custom/method", "custom/method", "", " ", "/", "rpc.x", "ping2", "\u{0}", "Notifications/x"]).to_string(),
        1 => {
            // a near miss of a standard name
            let b = own[g.idx(own.len())].clone();
            match g.below(5) {
                0 => format!("{b} "),
                1 => b.to_uppercase(),
                2 => b[..b.len() - 1].to_string(),
                3 => format!("{b}/x"),
                _ => format!("x{b}"),
            }
        }
        2 => {
            // a standard name of another kind or side
            let all: Vec<&str> = [
                api::CLIENT_REQUESTS, api::SERVER_REQUESTS, api::CLIENT_NOTIFICATIONS, api::SERVER_NOTIFICATIONS,
            ]
            .concat();
            method_of(d, all[g.idx(all.len())])
        }
        3 => jg::ident(g),
        _ => jg::string(g),
    };
    if own.contains(&m) {
        format!("x-{m}")
    } else {
        m
    }
}

fn insert(v: &mut Value, k: &str, x: Value) {
    v.as_object_mut().unwrap().insert(k.into(), x);
}

pub fn standard_request(d: &Defs, side: Side, ty: &str, g: &mut G) -> Msg {
    let mut wire = d.gen(ty, g);
    let id = id(g);
    insert(&mut wire, "id", id.clone());
    insert(&mut wire, "jsonrpc", json!("2.0"));
    Msg { side, kind: 0, wire, id: Some(id), method: Some(method_of(d, ty)), ty: ty.into() }
}
pub fn standard_notification(d: &Defs, side: Side, ty: &str, g: &mut G) -> Msg {
    let mut wire = d.gen(ty, g);
    insert(&mut wire, "jsonrpc", json!("2.0"));
    Msg { side, kind: 1, wire, id: None, method: Some(method_of(d, ty)), ty: ty.into() }
}
pub fn response(side: Side, ty: &str, result: Value, g: &mut G) -> Msg {
    let id = id(g);
    let wire = json!({"id": id, "jsonrpc": "2.0", "result": result});
    Msg { side, kind: 2, wire, id: Some(id), method: None, ty: ty.into() }
}
pub fn standard_response(d: &Defs, side: Side, ty: &str, g: &mut G) -> Msg {
    let r = d.gen(ty, g);
    response(side, ty, r, g)
}
pub fn error(d: &Defs, side: Side, g: &mut G) -> Msg {
    let mut e = d.gen("RpcError", g);
    if e.get("data").is_some_and(|x| x.is_null()) {
        e.as_object_mut().unwrap().remove("data");
    }
    let id = id(g);
    let mut wire = json!({"jsonrpc": "2.0", "error": e});
    // from 2025-11-25 on an error may answer a message whose id could not be read
    let with_id = cfg!(feature = "fam_a") || !g.chance(1, 6);
    if with_id {
        insert(&mut wire, "id", id.clone());
    }
    Msg { side, kind: 3, wire, id: with_id.then_some(id), method: None, ty: "error".into() }
}
fn custom_params(g: &mut G) -> Option<Map<String, Value>> {
    if g.chance(1, 4) {
        None
    } else {
        Some(jg::any_map(g, 2))
    }
}
pub fn custom_request(d: &Defs, side: Side, g: &mut G) -> Msg {
    let method = custom_method(d, requests(side), g);
    let id = id(g);
    let mut wire = json!({"id": id, "jsonrpc": "2.0", "method": method});
    if let Some(p) = custom_params(g) {
        insert(&mut wire, "params", Value::Object(p));
    }
    Msg { side, kind: 0, wire, id: Some(id), method: Some(method), ty: "custom".into() }
}
pub fn custom_notification(d: &Defs, side: Side, g: &mut G) -> Msg {
    let method = custom_method(d, notifications(side), g);
    let mut wire = json!({"jsonrpc": "2.0", "method": method});
    if let Some(p) = custom_params(g) {
        insert(&mut wire, "params", Value::Object(p));
    }
    Msg { side, kind: 1, wire, id: None, method: Some(method), ty: "custom".into() }
}
/// A result object of no particular type.
pub fn free_response(d: &Defs, side: Side, g: &mut G) -> Msg {
    let mut m = jg::any_map(g, 2);
    if cfg!(feature = "fam_c") {
        m.insert("resultType".into(), json!("complete"));
    }
    if m.get("_meta").is_some_and(|x| !x.is_object()) {
        m.remove("_meta");
    }
    let m = d.plain_result("Result", Value::Object(m));
    response(side, "free", m, g)
}

/// Any message of either side.
pub fn message(d: &Defs, side: Side, g: &mut G) -> Msg {
    match g.below(10) {
        0..=2 => {
            let t = *g.pick(requests(side));
            standard_request(d, side, t, g)
        }
        3..=4 => {
            let t = *g.pick(notifications(side));
            standard_notification(d, side, t, g)
        }
        5..=6 => {
            let t = *g.pick(results(side));
            standard_response(d, side, t, g)
        }
        7 => error(d, side, g),
        8 => custom_request(d, side, g),
        _ => custom_notification(d, side, g),
    }
}

pub fn side(g: &mut G) -> Side {
    if g.chance(1, 2) {
        Side::Server
    } else {
        Side::Client
    }
}
