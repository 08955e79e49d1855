//! From 2026 on: unfinished results (P15), per-request metadata and answers to input requests (P16).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m;
use crate::schema::defs;
use crate::tape::G;
use crate::u;
use crate::wiregen as wg;
use serde_json::{from_value, json, Map, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P15", name: "discriminator", quick: 25_000, thorough: 600_000, run: discriminator });
    v.push(Sub { prop: "P15", name: "typed-responses", quick: 12_000, thorough: 300_000, run: typed });
    v.push(Sub { prop: "P15", name: "input-requests", quick: 12_000, thorough: 300_000, run: input_requests });
    v.push(Sub { prop: "P16", name: "metadata", quick: 15_000, thorough: 400_000, run: metadata });
    v.push(Sub { prop: "P16", name: "stamping", quick: 15_000, thorough: 400_000, run: stamping });
    v.push(Sub { prop: "P16", name: "retry", quick: 15_000, thorough: 400_000, run: retry });
    v.push(Sub { prop: "P16", name: "input-builders", quick: 15_000, thorough: 400_000, run: builders });
}

fn bad(t: &str) -> impl Fn(serde_json::Error) -> Fail + '_ {
    move |e| Fail { sig: format!("{t}: valid value rejected"), msg: e.to_string() }
}

/// A result is unfinished exactly when its discriminator says so.
fn discriminator(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let ty = *c.row(wg::results(crate::api::Side::Server));
    let mut v = d.gen(ty, g);
    let o = v.as_object_mut().unwrap();
    if g.chance(1, 4) {
        // members of an unfinished result do not make one
        for k in ["inputRequests", "requestState"] {
            if g.chance(1, 2) {
                o.insert(k.into(), if k == "requestState" { json!(jg::string(g)) } else { d.gen("InputRequests", g) });
            }
        }
    }
    let mode = g.idx(7);
    match mode {
        0 | 1 => o.insert("resultType".into(), json!("complete")),
        2 | 3 => o.insert("resultType".into(), json!("input_required")),
        4 => o.remove("resultType"),
        5 => {
            let w = g.pick(&["Complete", "input_Required", "input-required", "INPUT_REQUIRED", "input_required ", "inputRequired", "", "task", "incomplete"]);
            o.insert("resultType".into(), json!(w))
        }
        _ => {
            let w = g.pick(&[json!(null), json!(1), json!(true), json!(["input_required"]), json!({"input_required": true})]).clone();
            o.insert("resultType".into(), w)
        }
    };
    c.input(&v);
    c.class(["complete", "complete", "input required", "input required", "none", "another word", "no word"][mode]);
    c.nontrivial(true);
    let unfinished = v.get("resultType") == Some(&json!("input_required"));
    let readable = v.get("resultType").is_none_or(|t| t.is_string());
    let legal = if unfinished { d.valid_name("InputRequiredResult", &v) } else { true };
    let mut want = v.clone();
    if want.get("resultType").is_none() {
        want["resultType"] = json!("complete");
    }
    let check = |r: &m::ServerResult, at: &str| -> Res {
        ensure(r.is_input_required() == unfinished, format!("{at}: input required"), || format!("{} for {}", r.is_input_required(), jg::short(&v)))?;
        ensure(r.is_complete() != unfinished, format!("{at}: complete"), || jg::short(&v))?;
        ensure(r.as_input_required().is_some() == unfinished, format!("{at}: the input required view"), || jg::short(&v))?;
        if let Some(i) = r.as_input_required() {
            ensure(i.result_type == "input_required", format!("{at}: the word of the view"), || i.result_type.clone())?;
            let (wm, ws) = (v.get("inputRequests").cloned().unwrap_or_default(), v.get("requestState").cloned().unwrap_or_default());
            same(&wm, &js(&i.input_requests), &format!("{at}: requests of the view"))?;
            same(&ws, &js(&i.request_state), &format!("{at}: state of the view"))?;
        }
        if !unfinished || legal {
            let mut w = want.clone();
            if unfinished {
                // an unfinished result has these members only
                w.as_object_mut().unwrap().retain(|k, _| ["resultType", "inputRequests", "requestState", "_meta"].contains(&k.as_str()));
                same(&w, &js(r), &format!("{at}: content"))?;
            }
        }
        Ok(())
    };
    match from_value::<m::ServerResult>(v.clone()) {
        Err(e) => ensure(!readable || !legal, "result rejected", || format!("{e}: {}", jg::short(&v)))?,
        Ok(r) => {
            ensure(readable, "result with an unreadable discriminator accepted", || jg::short(&v))?;
            ensure(legal, "malformed unfinished result accepted", || jg::short(&v))?;
            check(&r, "result")?;
            let again: m::ServerResult = from_value(js(&r)).map_err(bad("own result"))?;
            check(&again, "result read again")?;
        }
    }
    // the same inside a message
    let msg = wg::response(crate::api::Side::Server, ty, v.clone(), g);
    match from_value::<u::ServerMessage>(msg.wire.clone()) {
        Err(e) => ensure(!readable || !legal, "response rejected", || format!("{e}: {}", jg::short(&msg.wire))),
        Ok(x) => {
            ensure(readable && legal, "response with a malformed result accepted", || jg::short(&v))?;
            match x.as_response() {
                Ok(r) => check(&r.result, "response"),
                Err(_) => fail("response taken for something else", jg::short(&msg.wire)),
            }
        }
    }
}

/// Typed responses of the three requests that may be answered with a request for input.
fn typed(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let (ty, own) = [
        ("CallToolResultResponse", "CallToolResult"),
        ("GetPromptResultResponse", "GetPromptResult"),
        ("ReadResourceResultResponse", "ReadResourceResult"),
    ][(c.index % 3) as usize];
    let unfinished = g.chance(1, 2);
    let mut r = d.gen(if unfinished { "InputRequiredResult" } else { own }, g);
    r["resultType"] = json!(if unfinished { "input_required" } else { "complete" });
    if unfinished && g.chance(1, 3) {
        r.as_object_mut().unwrap().retain(|k, _| k == "resultType" || k == "_meta");
    }
    let v = json!({"id": wg::id(g), "jsonrpc": "2.0", "result": r});
    c.input(&json!({"type": ty, "value": v}));
    c.class(format!("{ty} {}", if unfinished { "unfinished" } else { "complete" }));
    c.nontrivial(r.as_object().unwrap().len() > 1);
    macro_rules! go {
        ($t:ty, $r:ty, $v:ident) => {{
            let x: $t = from_value(v.clone()).map_err(bad(ty))?;
            use $r as E;
            let (a, b) = (matches!(x.result, E::InputRequiredResult(_)), matches!(x.result, E::$v(_)));
            (js(&x), a, b, js(&x.result))
        }};
    }
    let (w, input, full, inner) = match own {
        "CallToolResult" => go!(m::CallToolResultResponse, m::CallToolResultResponseResult, CallToolResult),
        "GetPromptResult" => go!(m::GetPromptResultResponse, m::GetPromptResultResponseResult, GetPromptResult),
        _ => go!(m::ReadResourceResultResponse, m::ReadResourceResultResponseResult, ReadResourceResult),
    };
    ensure(input == unfinished && full != unfinished, format!("{ty}: presented as the other kind"), || jg::short(&v))?;
    same(&v, &w, &format!("{ty}: content"))?;
    same(&r, &inner, &format!("{ty}: result"))
}

/// The requests for input a result carries.
fn input_requests(g: &mut G, c: &mut Ctx) -> Res {
    let v = defs().gen("InputRequests", g);
    let o = v.as_object().unwrap().clone();
    c.input(&v);
    c.class(format!("{} requests", o.len()));
    c.nontrivial(!o.is_empty());
    let rs: m::InputRequests = from_value(v.clone()).map_err(bad("InputRequests"))?;
    ensure(rs.len() == o.len() && rs.is_empty() == o.is_empty(), "number of requests", || format!("{} for {}", rs.len(), o.len()))?;
    let keys: std::collections::BTreeSet<String> = rs.keys().cloned().collect();
    ensure(rs.keys().count() == o.len() && keys == o.keys().cloned().collect(), "keys of the requests", || format!("{keys:?}"))?;
    let pairs: Map<String, Value> = rs.iter().map(|(k, r)| (k.clone(), js(r))).collect();
    same(&v, &json!(pairs), "pairs of the requests")?;
    let keys: Vec<&String> = o.keys().collect();
    let other = if keys.is_empty() || g.chance(1, 3) { jg::string(g) } else { jg::twin_string(keys[g.idx(keys.len())], g) };
    ensure(rs.get(&other).is_some() == o.contains_key(&other), "key nobody used", || other.clone())?;
    for (k, w) in &o {
        let Some(r) = rs.get(k) else { return fail("request not found by its key", k.clone()) };
        same(w, &js(r), "request by key")?;
        let method = w["method"].as_str().unwrap_or("");
        ensure(r.method() == method, "method of a request", || format!("{} for {method}", r.method()))?;
        let views = [
            ("sampling/createMessage", r.as_create_message().map(js)),
            ("roots/list", r.as_list_roots().map(js)),
            ("elicitation/create", r.as_elicit().map(js)),
        ];
        for (name, view) in views {
            ensure(view.is_some() == (name == method), format!("{method} request viewed as {name}"), || jg::short(w))?;
            if let Some(x) = view {
                same(w, &x, "view of a request")?;
            }
        }
    }
    Ok(())
}

const NS: &str = "io.modelcontextprotocol";

/// Metadata built step by step against a JSON model.
fn metadata(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let mut log = vec![];
    let (mut want, mut meta) = if g.chance(1, 3) {
        let v = d.gen("RequestMetaObject", g);
        log.push(v.clone());
        let x: m::RequestMetaObject = from_value(v.clone()).map_err(bad("RequestMetaObject"))?;
        (v, x)
    } else {
        let (version, caps) = (jg::string(g), d.gen("ClientCapabilities", g));
        log.push(json!([version, caps]));
        let x = m::RequestMetaObject::new(version.clone(), from_value(caps.clone()).map_err(bad("ClientCapabilities"))?);
        (json!({format!("{NS}/protocolVersion"): version, format!("{NS}/clientCapabilities"): caps}), x)
    };
    for _ in 0..g.below(7) {
        let s = jg::string(g);
        match g.below(6) {
            0 => {
                let v = d.gen("Implementation", g);
                log.push(json!({"client": v}));
                want[format!("{NS}/clientInfo")] = v.clone();
                meta = meta.with_client_info(from_value(v).map_err(bad("Implementation"))?);
            }
            1 => {
                let v = d.gen("LoggingLevel", g);
                log.push(json!({"level": v}));
                want[format!("{NS}/logLevel")] = v.clone();
                meta = meta.with_log_level(from_value(v).map_err(bad("LoggingLevel"))?);
            }
            2 => {
                let v = d.gen("ProgressToken", g);
                log.push(json!({"progress": v}));
                want["progressToken"] = v.clone();
                meta = meta.with_progress_token(from_value(v).map_err(bad("ProgressToken"))?);
            }
            3 => {
                log.push(json!({"traceparent": s}));
                want["traceparent"] = json!(s);
                meta = meta.with_traceparent(s);
            }
            4 => {
                log.push(json!({"tracestate": s}));
                want["tracestate"] = json!(s);
                meta = meta.with_tracestate(s);
            }
            _ => {
                log.push(json!({"baggage": s}));
                want["baggage"] = json!(s);
                meta = meta.with_baggage(s);
            }
        }
    }
    c.input(&json!(log));
    c.class(format!("{} steps", log.len()));
    c.nontrivial(log.len() > 1);
    same(&want, &js(&meta), "metadata")?;
    let again: m::RequestMetaObject = from_value(js(&meta)).map_err(bad("own metadata"))?;
    same(&want, &js(&again), "metadata read again")?;
    for x in [&meta, &again] {
        for (k, got) in [("traceparent", x.traceparent()), ("tracestate", x.tracestate()), ("baggage", x.baggage())] {
            ensure(got == want.get(k).and_then(|v| v.as_str()), format!("metadata: {k}"), || format!("{got:?} in {}", jg::short(&want)))?;
        }
    }
    Ok(())
}

fn any_request(g: &mut G, c: &Ctx) -> wg::Msg {
    let d = defs();
    let n = wg::requests(crate::api::Side::Client).len() as u64 + 1;
    let i = c.index % n;
    if i + 1 == n {
        wg::custom_request(d, crate::api::Side::Client, g)
    } else {
        wg::standard_request(d, crate::api::Side::Client, wg::requests(crate::api::Side::Client)[i as usize], g)
    }
}

/// Stamping metadata on a request replaces its metadata and nothing else.
fn stamping(g: &mut G, c: &mut Ctx) -> Res {
    let msg = any_request(g, c);
    let new = defs().gen("RequestMetaObject", g);
    c.input(&json!({"request": msg.wire, "meta": new}));
    c.class(msg.ty.clone());
    c.nontrivial(true);
    let custom = msg.ty == "custom";
    let r: u::ClientJsonrpcRequest = from_value(msg.wire.clone()).map_err(bad("request"))?;
    let id = r.request_id().clone();
    let p: u::RequestFromClient = r.into();
    let old = p.meta().map(js);
    let had = (!custom).then(|| msg.wire["params"]["_meta"].clone());
    same(&json!(had), &json!(old), &format!("{}: metadata read", msg.ty))?;
    let method = p.method().to_string();
    let mut stamp: m::RequestMetaObject = from_value(new.clone()).map_err(bad("RequestMetaObject"))?;
    if stamp.extra.as_ref().is_some_and(|x| x.is_empty()) && g.chance(1, 2) {
        // as the constructor leaves it
        stamp.extra = None;
    }
    let q = p.with_meta(stamp);
    ensure(q.method() == method && json!(method) == msg.wire["method"], format!("{}: method after stamping", msg.ty), || q.method().to_string())?;
    let mut want = msg.wire.clone();
    if !custom {
        want["params"]["_meta"] = new.clone();
    }
    same(&json!((!custom).then(|| new.clone())), &json!(q.meta().map(js)), &format!("{}: stamped metadata", msg.ty))?;
    if !custom {
        same(&want["params"], &js(&q), &format!("{}: stamped params", msg.ty))?;
    }
    same(&want, &js(&u::ClientJsonrpcRequest::new(id, q)), &format!("{}: stamped request", msg.ty))
}

/// Answers to a request for input go into the three requests that take them; the rest of the request stays.
fn retry(g: &mut G, c: &mut Ctx) -> Res {
    let msg = any_request(g, c);
    let answers = defs().gen("InputResponses", g);
    let state = g.chance(1, 2).then(|| jg::string(g));
    c.input(&json!({"request": msg.wire, "answers": answers, "state": state}));
    c.class(msg.ty.clone());
    c.nontrivial(answers.as_object().is_some_and(|o| !o.is_empty()));
    let r: u::ClientJsonrpcRequest = from_value(msg.wire.clone()).map_err(bad("request"))?;
    let id = r.request_id().clone();
    let p: u::RequestFromClient = r.into();
    let takes = ["CallToolRequest", "GetPromptRequest", "ReadResourceRequest"].contains(&msg.ty.as_str());
    match p.with_input_responses(from_value(answers.clone()).map_err(bad("InputResponses"))?, state.clone()) {
        Err(e) => {
            ensure(!takes, format!("{}: answers refused", msg.ty), || js(&e).to_string())?;
            ensure(e.code == -32602 && e.message.contains(msg.method.as_deref().unwrap_or("")), "refusal of answers", || js(&e).to_string())
        }
        Ok(q) => {
            ensure(takes, format!("{}: answers accepted", msg.ty), || jg::short(&msg.wire))?;
            let mut want = msg.wire.clone();
            want["params"]["inputResponses"] = answers;
            match state {
                Some(s) => want["params"]["requestState"] = json!(s),
                None => {
                    want["params"].as_object_mut().unwrap().remove("requestState");
                }
            }
            same(&want, &js(&u::ClientJsonrpcRequest::new(id, q)), &format!("{}: request with answers", msg.ty))
        }
    }
}

/// Builders of input requests, answers and the params that carry them.
fn builders(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let (answers, state, requests) = (d.gen("InputResponses", g), jg::string(g), d.gen("InputRequests", g));
    let typed = || from_value::<m::InputResponses>(answers.clone());
    let n = c.index % 6;
    c.class(["answers", "call", "prompt", "resource", "plain", "unfinished result"][n as usize]);
    macro_rules! params {
        ($t:ty, $ty:literal) => {{
            let v = d.gen($ty, g);
            c.input(&json!([v, answers, state]));
            let mut want = v.clone();
            let mut x: $t = from_value(v).map_err(bad($ty))?;
            if g.chance(2, 3) {
                want["inputResponses"] = answers.clone();
                x = x.with_input_responses(typed().map_err(bad("InputResponses"))?);
            }
            if g.chance(2, 3) {
                want["requestState"] = json!(state);
                x = x.with_request_state(state.clone());
            }
            (want, js(&x))
        }};
    }
    c.nontrivial(true);
    let (want, got) = match n {
        0 => {
            let mut want = Map::new();
            let mut x = if g.chance(1, 2) { m::InputResponses::new() } else { m::InputResponses::default() };
            ensure(x.is_empty() && x.len() == 0, "no answers", String::new)?;
            let mut log = vec![];
            for _ in 0..g.below(5) {
                let keys: Vec<String> = want.keys().cloned().collect();
                let k = if !keys.is_empty() && g.chance(1, 3) { keys[g.idx(keys.len())].clone() } else { jg::string(g) };
                let ty = *g.pick(&["CreateMessageResult", "ListRootsResult", "ElicitResult"]);
                let v = d.gen(ty, g);
                log.push(json!([k, v]));
                want.insert(k.clone(), v.clone());
                x = match ty {
                    "CreateMessageResult" => x.insert(k, from_value::<m::CreateMessageResult>(v).map_err(bad(ty))?),
                    "ListRootsResult" => x.insert(k, from_value::<m::ListRootsResult>(v).map_err(bad(ty))?),
                    _ => x.insert(k, from_value::<m::ElicitResult>(v).map_err(bad(ty))?),
                };
                ensure(x.len() == want.len() && !x.is_empty(), "number of answers", || format!("{} for {}", x.len(), want.len()))?;
            }
            c.input(&json!(log));
            (json!(want), js(&x))
        }
        1 => {
            let (mut want, mut got) = params!(m::CallToolRequestParams, "CallToolRequestParams");
            if g.chance(1, 2) {
                let (name, meta) = (jg::string(g), d.gen("RequestMetaObject", g));
                want = json!({"name": name, "_meta": meta});
                let mut x = m::CallToolRequestParams::new(name, from_value(meta).map_err(bad("RequestMetaObject"))?);
                for _ in 0..g.below(3) {
                    let a = jg::any_map(g, 2);
                    want["arguments"] = json!(a);
                    x = x.with_arguments(a);
                }
                got = js(&x);
            }
            (want, got)
        }
        2 => params!(m::GetPromptRequestParams, "GetPromptRequestParams"),
        3 => params!(m::ReadResourceRequestParams, "ReadResourceRequestParams"),
        4 => params!(m::InputResponseRequestParams, "InputResponseRequestParams"),
        _ => {
            let v = d.gen("InputRequiredResult", g);
            c.input(&json!([v, requests, state]));
            let mut want = v.clone();
            let mut x: m::InputRequiredResult = from_value(v).map_err(bad("InputRequiredResult"))?;
            if g.chance(2, 3) {
                want["inputRequests"] = requests.clone();
                x = x.with_input_requests(from_value(requests.clone()).map_err(bad("InputRequests"))?);
            }
            if g.chance(2, 3) {
                want["requestState"] = json!(state);
                x = x.with_request_state(state.clone());
            }
            (want, js(&x))
        }
    };
    same(&want, &got, ["answers", "call", "prompt", "resource", "plain", "unfinished result"][n as usize])
}
