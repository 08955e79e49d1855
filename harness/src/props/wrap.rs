//! Payloads into envelopes and back (P06).
use crate::api::{Side, KINDS};
use crate::engine::*;
#[cfg(feature = "fam_a")]
use crate::glue::WRAPS;
use crate::glue::js;
use crate::jsongen as jg;
use crate::schema::defs;
use crate::tape::G;
use crate::u::{self, FromMessage, McpMessage};
use crate::wiregen as wg;
use crate::m;
use serde_json::{json, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P06", name: "rewrap", quick: 25_000, thorough: 600_000, run: rewrap });
    #[cfg(feature = "fam_a")]
    v.push(Sub { prop: "P06", name: "typed-payloads", quick: 25_000, thorough: 500_000, run: typed });
}

pub struct Rewrapped {
    flags: [bool; 4],
    ty: String,
    init: (bool, bool),
    /// the payload put into an envelope with and without an id
    with_id: Result<Value, Value>,
    without: Result<Value, Value>,
    /// the envelope built by its own constructor, and as a message
    direct: Option<(Value, Value)>,
}

macro_rules! rewrap_side {
    ($name:ident, $Msg:ty, $Payload:ty, $Req:ty, $ReqP:ty, $Ntf:ty, $NtfP:ty, $Res:ty, $init:expr) => {
        pub fn $name(x: $Msg, id: &m::RequestId) -> Rewrapped {
            let mut direct = None;
            let payload: $Payload = if let Ok(r) = x.clone().as_request() {
                #[cfg(feature = "fam_a")]
                let p: $ReqP = r.request;
                #[cfg(not(feature = "fam_a"))]
                let p: $ReqP = r.into();
                let e = <$Req>::new(id.clone(), p.clone());
                direct = Some((js(&e), js(&<$Msg>::from(e))));
                p.into()
            } else if let Ok(n) = x.clone().as_notification() {
                #[cfg(feature = "fam_a")]
                let p: $NtfP = n.notification;
                #[cfg(not(feature = "fam_a"))]
                let p: $NtfP = n.into();
                let e = <$Ntf>::new(p.clone());
                direct = Some((js(&e), js(&<$Msg>::from(e))));
                p.into()
            } else if let Ok(r) = x.clone().as_response() {
                let e = <$Res>::new(id.clone(), r.result.clone());
                direct = Some((js(&e), js(&<$Msg>::from(e))));
                r.result.into()
            } else {
                x.as_error().expect("one of the four kinds").error.into()
            };
            let flags = [payload.is_request(), payload.is_notification(), payload.is_response(), payload.is_error()];
            Rewrapped {
                flags,
                ty: payload.message_type().to_string(),
                init: $init(&payload),
                with_id: <$Msg>::from_message(payload.clone(), Some(id.clone())).map(|x| js(&x)).map_err(|e| js(&e)),
                without: <$Msg>::from_message(payload, None).map(|x| js(&x)).map_err(|e| js(&e)),
                direct,
            }
        }
    };
}

rewrap_side!(
    client, u::ClientMessage, u::MessageFromClient, u::ClientJsonrpcRequest, u::RequestFromClient,
    u::ClientJsonrpcNotification, u::NotificationFromClient, u::ClientJsonrpcResponse,
    |p: &u::MessageFromClient| (p.is_initialize_request(), p.is_initialized_notification())
);
rewrap_side!(
    server, u::ServerMessage, u::MessageFromServer, u::ServerJsonrpcRequest, u::RequestFromServer,
    u::ServerJsonrpcNotification, u::NotificationFromServer, u::ServerJsonrpcResponse,
    |_: &u::MessageFromServer| (false, false)
);

fn rewrap(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let m = wg::message(defs(), side, g);
    let fresh = wg::id(g);
    c.input(&json!({"side": format!("{side:?}"), "type": m.ty, "wire": m.wire, "id": fresh}));
    c.class(format!("{:?} {}", m.side, KINDS[m.kind]));
    c.nontrivial(m.wire.get("params").or(m.wire.get("result")).or(m.wire.get("error")).is_some());
    let at = format!("{side:?} {}", m.ty);
    let id: m::RequestId = serde_json::from_value(fresh.clone()).expect("request id");
    let bad = |e: serde_json::Error| Fail { sig: format!("{at} rejected"), msg: format!("{}: {e}", jg::short(&m.wire)) };
    let (r, read) = match side {
        Side::Client => {
            let x: u::ClientMessage = serde_json::from_value(m.wire.clone()).map_err(bad)?;
            let w = js(&x);
            (client(x, &id), w)
        }
        Side::Server => {
            let x: u::ServerMessage = serde_json::from_value(m.wire.clone()).map_err(bad)?;
            let w = js(&x);
            (server(x, &id), w)
        }
    };
    for k in 0..4 {
        ensure(r.flags[k] == (k == m.kind), format!("{at}: payload is_{}", KINDS[k]), || jg::short(&m.wire))?;
    }
    ensure(r.ty == KINDS[m.kind], format!("{at}: payload type"), || format!("{} for {}", r.ty, jg::short(&m.wire)))?;
    if !cfg!(feature = "fam_c") {
        let want = (m.kind == 0 && m.ty == "InitializeRequest", m.kind == 1 && m.ty == "InitializedNotification");
        ensure(r.init == want, format!("{at}: payload initialize test"), || jg::short(&m.wire))?;
    }
    // what the envelope must be: the message as it was read, with the given id
    let mut want = read.clone();
    want["id"] = fresh.clone();
    let mut bare = read;
    bare.as_object_mut().unwrap().remove("id");
    let refused = |r: &Result<Value, Value>, what: &str| match r {
        Err(e) => ensure(e["code"] == -32603, format!("{at}: {what}: error code"), || e.to_string()),
        Ok(w) => fail(format!("{at}: {what} accepted"), format!("{} became {}", jg::short(&m.wire), jg::short(w))),
    };
    let accepted = |r: &Result<Value, Value>, want: &Value| match r {
        Err(e) => fail(format!("{at}: refused"), format!("{e} for {}", jg::short(&m.wire))),
        Ok(w) => same(want, w, &format!("{at}: envelope")),
    };
    match m.kind {
        1 => {
            refused(&r.with_id, "notification with an id")?;
            accepted(&r.without, &bare)?;
        }
        3 if !cfg!(feature = "fam_a") => {
            accepted(&r.with_id, &want)?;
            accepted(&r.without, &bare)?;
        }
        _ => {
            accepted(&r.with_id, &want)?;
            refused(&r.without, "missing id")?;
        }
    }
    if let Some((e, x)) = &r.direct {
        let want = if m.kind == 1 { &bare } else { &want };
        same(want, e, &format!("{at}: constructed envelope"))?;
        same(want, x, &format!("{at}: constructed message"))?;
    }
    Ok(())
}

#[cfg(feature = "fam_a")]
fn typed(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(WRAPS);
    let d = defs();
    let v = d.gen(t.payload, g);
    let id = wg::id(g);
    c.input(&json!({"payload": t.payload, "message": t.message, "value": v, "id": id}));
    c.nontrivial(v.as_object().is_some_and(|o| o.len() >= 2));
    let at = format!("{} in {}", t.payload, t.message);
    let kind = if t.payload.ends_with("Request") {
        0
    } else if t.payload.ends_with("Notification") {
        1
    } else {
        2
    };
    c.class(KINDS[kind]);
    let mut want = if kind == 2 { json!({ "result": v }) } else { v.clone() };
    want["jsonrpc"] = json!("2.0");
    if kind != 1 {
        want["id"] = id.clone();
    }
    for given in [true, false] {
        let rid = given.then(|| serde_json::from_value::<m::RequestId>(id.clone()).expect("request id"));
        let (from, to) = (t.run)(&v, rid).map_err(|e| Fail { sig: format!("{at}: rejected"), msg: format!("{}: {e}", jg::short(&v)) })?;
        for (how, r) in [("from_message", from), ("to_message", to)] {
            match r {
                Ok(w) => {
                    ensure(given == (kind != 1), format!("{at}: {how}: id rule"), || format!("{} became {}", jg::short(&v), jg::short(&w)))?;
                    same(&want, &w, &format!("{at}: {how}"))?;
                }
                Err(e) => {
                    ensure(given == (kind == 1), format!("{at}: {how}: refused"), || format!("{e} for {}", jg::short(&v)))?;
                    ensure(e["code"] == -32603, format!("{at}: {how}: error code"), || e.to_string())?;
                }
            }
        }
    }
    Ok(())
}

