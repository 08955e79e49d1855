//! Error values (P10).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m::RpcError;
use crate::schema::defs;
use crate::tape::G;
use crate::u::{RpcErrorCodes as R, SdkError, SdkErrorCodes as S};
use crate::wiregen as wg;
use serde_json::{json, Value};
use std::error::Error;

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P10", name: "rpc-errors", quick: 12_000, thorough: 300_000, run: rpc });
    v.push(Sub { prop: "P10", name: "sdk-errors", quick: 12_000, thorough: 300_000, run: sdk });
    v.push(Sub { prop: "P10", name: "error-text", quick: 12_000, thorough: 300_000, run: text });
    v.push(Sub { prop: "P10", name: "error-messages", quick: 6_000, thorough: 150_000, run: messages });
    #[cfg(feature = "fam_b")]
    v.push(Sub { prop: "P10", name: "url-elicitation", quick: 3_000, thorough: 80_000, run: url });
    #[cfg(feature = "fam_c")]
    v.push(Sub { prop: "P10", name: "typed-errors", quick: 4_000, thorough: 100_000, run: typed });
}

/// The code constants of the module by name.
fn constants() -> Vec<(&'static str, i64)> {
    use crate::m;
    #[allow(unused_mut)]
    let mut v = vec![
        ("PARSE_ERROR", m::PARSE_ERROR),
        ("INVALID_REQUEST", m::INVALID_REQUEST),
        ("METHOD_NOT_FOUND", m::METHOD_NOT_FOUND),
        ("INVALID_PARAMS", m::INVALID_PARAMS),
        ("INTERNAL_ERROR", m::INTERNAL_ERROR),
    ];
    #[cfg(feature = "fam_b")]
    v.push(("URL_ELICITATION_REQUIRED", m::URL_ELICITATION_REQUIRED));
    #[cfg(feature = "fam_c")]
    {
        v.push(("HEADER_MISMATCH", m::HEADER_MISMATCH));
        v.push(("MISSING_REQUIRED_CLIENT_CAPABILITY", m::MISSING_REQUIRED_CLIENT_CAPABILITY));
        v.push(("UNSUPPORTED_PROTOCOL_VERSION", m::UNSUPPORTED_PROTOCOL_VERSION));
    }
    v
}

type Rpc = (&'static str, i64, fn() -> R, Option<(fn() -> RpcError, &'static str)>);
fn rpc_rows() -> Vec<Rpc> {
    #[allow(unused_mut)]
    let mut v: Vec<Rpc> = vec![
        ("PARSE_ERROR", -32700, || R::PARSE_ERROR, Some((RpcError::parse_error, "parse error"))),
        ("INVALID_REQUEST", -32600, || R::INVALID_REQUEST, Some((RpcError::invalid_request, "invalid request"))),
        ("METHOD_NOT_FOUND", -32601, || R::METHOD_NOT_FOUND, Some((RpcError::method_not_found, "method not found"))),
        ("INVALID_PARAMS", -32602, || R::INVALID_PARAMS, Some((RpcError::invalid_params, "invalid params"))),
        ("INTERNAL_ERROR", -32603, || R::INTERNAL_ERROR, Some((RpcError::internal_error, "internal error"))),
    ];
    #[cfg(feature = "fam_c")]
    {
        v.push(("HEADER_MISMATCH", -32020, || R::HEADER_MISMATCH, None));
        v.push(("MISSING_REQUIRED_CLIENT_CAPABILITY", -32021, || R::MISSING_REQUIRED_CLIENT_CAPABILITY, None));
        v.push(("UNSUPPORTED_PROTOCOL_VERSION", -32022, || R::UNSUPPORTED_PROTOCOL_VERSION, None));
    }
    v
}

fn data(g: &mut G) -> Option<Value> {
    if g.chance(1, 3) {
        None
    } else {
        let v = if g.chance(1, 4) {
            g.pick(&[json!({}), json!([]), json!(""), json!(0), json!(false), json!(0.0), json!([null]), json!({"": null})]).clone()
        } else {
            jg::any(g, 2)
        };
        Some(if v.is_null() { json!({}) } else { v })
    }
}
fn wire(code: i64, message: &str, data: &Option<Value>) -> Value {
    let mut v = json!({"code": code, "message": message});
    if let Some(d) = data {
        v["data"] = d.clone();
    }
    v
}

/// A random run of setters over an error, against the last value each of them set.
#[allow(clippy::type_complexity)]
fn steps<E>(g: &mut G, mut e: E, mut message: String, mut d: Option<Value>, set: &dyn Fn(E, Result<String, Option<Value>>) -> E) -> (E, String, Option<Value>) {
    for _ in 0..g.below(6) {
        if g.chance(1, 2) {
            message = if g.chance(1, 6) { String::new() } else { jg::string(g) };
            e = set(e, Ok(message.clone()));
        } else {
            d = data(g);
            e = set(e, Err(d.clone()));
        }
    }
    (e, message, d)
}

fn rpc(g: &mut G, c: &mut Ctx) -> Res {
    let rows = rpc_rows();
    let (name, code, make, shortcut) = c.row(&rows);
    let (message, d) = (jg::string(g), data(g));
    c.input(&json!({"error": name, "message": message, "data": d}));
    c.class(*name);
    c.nontrivial(d.is_some());
    ensure(i64::from(make()) == *code, format!("{name}: code"), || i64::from(make()).to_string())?;
    if let Some((_, n)) = constants().iter().find(|(n, _)| n == name) {
        ensure(n == code, format!("{name}: constant"), || n.to_string())?;
    }
    let want = wire(*code, &message, &d);
    let made = RpcError::new(make(), message.clone(), d.clone());
    same(&want, &js(&made), &format!("{name}: new"))?;
    #[allow(deprecated)]
    let described = std::error::Error::description(&made).to_string();
    ensure(described == message, format!("{name}: description"), || described.clone())?;
    let start = match shortcut {
        Some((f, _)) if g.chance(1, 2) => f(),
        _ => RpcError::new(make(), message.clone(), d.clone()),
    };
    let (m0, d0) = (start.message.clone(), start.data.clone());
    let (e, m1, d1) = steps(g, start, m0, d0, &|e, s| match s {
        Ok(m) => e.with_message(m),
        Err(d) => e.with_data(d),
    });
    same(&wire(*code, &m1, &d1), &js(&e), &format!("{name}: after a run of setters"))?;
    if let Some((f, text)) = shortcut {
        let e = f();
        ensure(e.code == *code && e.data.is_none(), format!("{name}: shortcut"), || js(&e).to_string())?;
        ensure(e.message.to_lowercase() == *text, format!("{name}: shortcut message"), || e.message.clone())?;
        let own = wire(*code, &e.message, &None);
        same(&own, &js(&e), &format!("{name}: shortcut content"))?;
        same(&wire(*code, &e.message, &d), &js(&f().with_data(d.clone())), &format!("{name}: with data"))?;
        same(&wire(*code, &message, &None), &js(&f().with_message(message.clone())), &format!("{name}: with message"))?;
        same(&want, &js(&f().with_message(message.as_str()).with_data(d.clone())), &format!("{name}: with both"))?;
        same(&want, &js(&f().with_data(d.clone()).with_message(message.as_str())), &format!("{name}: with both, other order"))?;
        let twice = f().with_data(Some(json!(1))).with_data(d.clone()).with_message("x").with_message(message.as_str());
        same(&want, &js(&twice), &format!("{name}: the last one counts"))?;
    }
    Ok(())
}

type Sdk = (&'static str, i64, fn() -> S, Option<(fn() -> SdkError, &'static str)>);
fn sdk_rows() -> Vec<Sdk> {
    #[allow(unused_mut)]
    let mut v: Vec<Sdk> = vec![
        ("CONNECTION_CLOSED", -32000, || S::CONNECTION_CLOSED, Some((SdkError::connection_closed, "connection closed"))),
        ("REQUEST_TIMEOUT", -32001, || S::REQUEST_TIMEOUT, None),
        ("RESOURCE_NOT_FOUND", -32002, || S::RESOURCE_NOT_FOUND, Some((SdkError::resource_not_found, "resource not found"))),
        ("BAD_REQUEST", -32015, || S::BAD_REQUEST, Some((SdkError::bad_request, "bad request"))),
        ("SESSION_NOT_FOUND", -32016, || S::SESSION_NOT_FOUND, Some((SdkError::session_not_found, "session not found"))),
        ("INVALID_REQUEST", -32600, || S::INVALID_REQUEST, Some((SdkError::invalid_request, "invalid request"))),
        ("METHOD_NOT_FOUND", -32601, || S::METHOD_NOT_FOUND, Some((SdkError::method_not_found, "method not found"))),
        ("INVALID_PARAMS", -32602, || S::INVALID_PARAMS, Some((SdkError::invalid_params, "invalid params"))),
        ("INTERNAL_ERROR", -32603, || S::INTERNAL_ERROR, Some((SdkError::internal_error, "internal error"))),
        ("PARSE_ERROR", -32700, || S::PARSE_ERROR, Some((SdkError::parse_error, "parse error"))),
    ];
    #[cfg(feature = "fam_b")]
    v.push(("URL_ELICITATION_REQUIRED", -32042, || S::URL_ELICITATION_REQUIRED, None));
    #[cfg(feature = "fam_c")]
    {
        v.push(("MISSING_REQUIRED_CLIENT_CAPABILITY", -32021, || S::MISSING_REQUIRED_CLIENT_CAPABILITY, None));
        v.push(("UNSUPPORTED_PROTOCOL_VERSION", -32022, || S::UNSUPPORTED_PROTOCOL_VERSION, None));
    }
    v
}

fn sdk(g: &mut G, c: &mut Ctx) -> Res {
    let rows = sdk_rows();
    let (name, code, make, shortcut) = c.row(&rows);
    let (message, d) = (jg::string(g), data(g));
    let timeout: u128 = match g.below(6) {
        0 => g.below(100_000) as u128,
        1 => g.u64() as u128,
        2 => std::time::Duration::MAX.as_millis(),
        3 => *g.pick(&[0, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX, 1 << 53, (1 << 53) + 1]),
        4 => (g.u64() as u128) << 32,
        _ => g.range(1, 600) as u128 * 1000,
    };
    c.input(&json!({"error": name, "message": message, "data": d, "timeout": timeout.to_string()}));
    c.class(*name);
    c.nontrivial(d.is_some());
    ensure(i64::from(make()) == *code, format!("{name}: code"), || i64::from(make()).to_string())?;
    if let Some((_, n)) = constants().iter().find(|(n, _)| n == name) {
        ensure(n == code, format!("{name}: constant"), || n.to_string())?;
    }
    // every code says what it stands for, in words of its own
    let own = make().to_string();
    ensure(!own.is_empty() && rows.iter().all(|r| r.0 == *name || r.2().to_string().to_lowercase() != own.to_lowercase()), format!("{name}: text"), || own.clone())?;
    if *name != "URL_ELICITATION_REQUIRED" {
        ensure(own.to_lowercase() == name.replace('_', " ").to_lowercase(), format!("{name}: text"), || own.clone())?;
    }
    let null = |v: Value| {
        let mut v = v;
        if v.get("data").is_some_and(|d| d.is_null()) {
            v.as_object_mut().unwrap().remove("data");
        }
        v
    };
    let want = wire(*code, &message, &d);
    let e = SdkError::new(make(), message.clone(), d.clone());
    same(&want, &null(js(&e)), &format!("{name}: new"))?;
    let start = match shortcut {
        Some((f, _)) if g.chance(1, 2) => f(),
        None if *name == "REQUEST_TIMEOUT" && g.chance(1, 2) => SdkError::request_timeout(timeout),
        _ => SdkError::new(make(), message.clone(), d.clone()),
    };
    let (m0, d0) = (start.message.clone(), start.data.clone());
    let (e1, m1, d1) = steps(g, start, m0, d0, &|e, s| match s {
        Ok(m) => e.with_message(&m),
        Err(d) => e.with_data(d),
    });
    same(&wire(*code, &m1, &d1), &null(js(&e1)), &format!("{name}: after a run of setters"))?;
    let shown = e.to_string();
    ensure(shown == format!("MCP error {code}: {message}"), format!("{name}: shown"), || shown.clone())?;
    #[allow(deprecated)]
    let described = std::error::Error::description(&e).to_string();
    ensure(described == message, format!("{name}: description"), || described.clone())?;
    let again: SdkError = serde_json::from_value(js(&e)).map_err(|x| Fail { sig: format!("{name}: own JSON rejected"), msg: x.to_string() })?;
    same(&want, &null(js(&again)), &format!("{name}: read back"))?;
    if let Some((f, text)) = shortcut {
        let e = f();
        ensure(e.code == *code && e.data.is_none(), format!("{name}: shortcut"), || js(&e).to_string())?;
        ensure(e.message.to_lowercase() == *text, format!("{name}: shortcut message"), || e.message.clone())?;
        same(&want, &null(js(&f().with_message(&message).with_data(d.clone()))), &format!("{name}: with both"))?;
        same(&want, &null(js(&f().with_data(d.clone()).with_message(&message))), &format!("{name}: with both, other order"))?;
    }
    if *name == "REQUEST_TIMEOUT" {
        let e = SdkError::request_timeout(timeout);
        ensure(e.code == -32001 && e.message.to_lowercase() == "request timeout", "request timeout", || js(&e).to_string())?;
        let t = e.data.as_ref().map(|d| d["timeout"].clone()).unwrap_or(Value::Null);
        // JSON numbers of this library end at u64::MAX
        let ok = match u64::try_from(timeout) {
            Ok(n) => t == json!(n),
            Err(_) => t.as_f64().is_some_and(|f| f >= u64::MAX as f64),
        };
        ensure(ok, "request timeout: the time", || format!("{timeout} reported as {t}"))?;
    }
    Ok(())
}

fn text(g: &mut G, c: &mut Ctx) -> Res {
    let valid = !g.chance(1, 3);
    let s = if valid {
        let mut e = defs().gen("RpcError", g);
        e.as_object_mut().unwrap().remove("data");
        if let Some(d) = data(g) {
            e["data"] = d;
        }
        c.input(&e);
        if g.chance(1, 2) {
            e.to_string()
        } else {
            serde_json::to_string_pretty(&e).unwrap()
        }
    } else {
        let s = match g.below(4) {
            0 => jg::string(g),
            1 => jg::any(g, 2).to_string(),
            2 => json!({"code": jg::string(g), "message": jg::string(g)}).to_string(),
            _ => {
                let t = wire(jg::int(g), &jg::string(g), &data(g)).to_string();
                let n = g.idx(t.chars().count());
                t.chars().take(n).collect()
            }
        };
        c.input(&json!(s));
        s
    };
    c.class(if valid { "error" } else { "garbled" });
    c.nontrivial(true);
    match s.parse::<RpcError>() {
        Ok(e) => {
            let want: Value = serde_json::from_str(&s).map_err(|x| Fail { sig: "garbled text accepted".into(), msg: format!("{x}: {s}") })?;
            if !valid {
                // (positional arrays are outside: every reader of this library takes them)
                if want.is_object() {
                    ensure(want["code"].is_i64() && want["message"].is_string(), "malformed error accepted", || s.clone())?;
                }
                return Ok(());
            }
            same(&want, &js(&e), "error read from text")?;
            let shown: Value = serde_json::from_str(&e.to_string()).map_err(|x| Fail { sig: "shown error is not JSON".into(), msg: format!("{x}: {e}") })?;
            same(&want, &shown, "error shown")?;
            let again = e.to_string().parse::<RpcError>().map(|x| js(&x)).unwrap_or(Value::Null);
            same(&want, &again, "error shown and read again")?;
            ensure(e.source().is_none(), "source", || s.clone())
        }
        Err(e) => {
            ensure(!valid, "error rejected", || format!("{s}: {e}"))?;
            ensure(e.code == -32700, "parse failure: code", || js(&e).to_string())?;
            let details = e.data.as_ref().and_then(|d| d["details"].as_str()).unwrap_or("");
            ensure(!details.is_empty(), "parse failure: details", || js(&e).to_string())
        }
    }
}

/// An error put into an answer is that error with that id.
fn messages(g: &mut G, c: &mut Ctx) -> Res {
    let rows = rpc_rows();
    let (name, code, make, _) = c.row(&rows);
    let (message, d) = (jg::string(g), data(g));
    let id = wg::id(g);
    let rid: crate::m::RequestId = serde_json::from_value(id.clone()).expect("id");
    #[allow(unused_mut)]
    let mut want = json!({"id": id, "jsonrpc": "2.0", "error": wire(*code, &message, &d)});
    #[cfg(feature = "fam_a")]
    let e = crate::m::JsonrpcError::create(rid, make(), message.clone(), d.clone());
    #[cfg(not(feature = "fam_a"))]
    let e = {
        let with_id = !g.chance(1, 4);
        if !with_id {
            want.as_object_mut().unwrap().remove("id");
        }
        crate::m::JsonrpcErrorResponse::create(with_id.then_some(rid), make(), message.clone(), d.clone())
    };
    c.input(&want);
    c.class(*name);
    c.nontrivial(d.is_some());
    same(&want, &js(&e), "error message created")?;
    let shown: Value = serde_json::from_str(&e.to_string()).unwrap_or(Value::Null);
    same(&want, &shown, "error message shown")?;
    same(&want, &js(&crate::u::ClientMessage::Error(e.clone())), "client error message")?;
    same(&want, &js(&crate::u::ServerMessage::Error(e)), "server error message")
}

#[cfg(feature = "fam_b")]
fn url(g: &mut G, c: &mut Ctx) -> Res {
    use crate::m;
    let n = g.idx(4);
    let ps: Vec<Value> = (0..n).map(|_| defs().gen("ElicitRequestUrlParams", g)).collect();
    let ps = crate::jsongen::repeat(ps, g);
    c.input(&json!(ps));
    c.nontrivial(n > 0);
    c.class(format!("{n} urls"));
    let typed: Vec<m::ElicitRequestUrlParams> = ps.iter().map(|p| serde_json::from_value(p.clone()).expect("params")).collect();
    let sdk = SdkError::url_elicit_required(typed.clone());
    let e = RpcError::url_elicit_required(typed);
    for k in ["code", "data"] {
        same(&js(&e)[k], &js(&sdk)[k], &format!("url elicitation: {k} of the SDK error"))?;
    }
    ensure(!sdk.message.is_empty(), "url elicitation: message of the SDK error", || js(&sdk).to_string())?;
    ensure(e.code == -32042, "url elicitation: code", || js(&e).to_string())?;
    #[allow(deprecated)]
    let fixed = [m::UrlElicitError::code_value(), m::UrlElicitError::code_name()];
    ensure(fixed == [-32042; 2], "url elicitation: fixed code", || format!("{fixed:?}"))?;
    let typed: m::UrlElicitError = serde_json::from_value(js(&e)).map_err(|x| Fail { sig: "url elicitation: not a UrlElicitError".into(), msg: format!("{x}: {}", js(&e)) })?;
    let made = m::UrlElicitError::new(typed.data.clone(), typed.message.clone());
    ensure(*made.code() == -32042, "url elicitation: code of a new one", || js(&made).to_string())?;
    same(&js(&e), &js(&made), "url elicitation: a new one")?;
    same(&json!({"elicitations": ps}), &js(&typed)["data"], "url elicitation: data")?;
    ensure(!e.message.is_empty(), "url elicitation: message", || js(&e).to_string())
}

#[cfg(feature = "fam_c")]
fn typed(g: &mut G, c: &mut Ctx) -> Res {
    use crate::m;
    let ty = ["MissingRequiredClientCapabilityError", "UnsupportedProtocolVersionError"][(c.index % 2) as usize];
    let v = defs().gen(ty, g);
    c.input(&v);
    c.class(ty);
    c.nontrivial(true);
    let bad = |e: serde_json::Error| Fail { sig: format!("{ty}: rejected"), msg: format!("{e}: {}", jg::short(&v)) };
    let plain = if c.index % 2 == 0 {
        let x: m::MissingRequiredClientCapabilityError = serde_json::from_value(v.clone()).map_err(bad)?;
        RpcError::from(x)
    } else {
        let x: m::UnsupportedProtocolVersionError = serde_json::from_value(v.clone()).map_err(bad)?;
        RpcError::from(x)
    };
    for k in ["code", "message", "data"] {
        same(&v["error"][k], &js(&plain)[k], &format!("{ty}: {k}"))?;
    }
    Ok(())
}
