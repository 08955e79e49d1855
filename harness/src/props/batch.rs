//! Batches of messages (P12).
use crate::api::{self, Side, KINDS};
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::schema::defs;
use crate::tape::G;
use crate::u::{self, McpMessage};
use crate::wiregen::{self as wg, Msg};
use serde_json::{json, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P12", name: "batches", quick: 12_000, thorough: 300_000, run: batches });
    v.push(Sub { prop: "P12", name: "broken-batches", quick: 8_000, thorough: 200_000, run: broken });
}

struct Seen {
    is_batch: bool,
    includes_request: bool,
    wire: Value,
    shown: Option<String>,
    single: Result<Value, Value>,
    batch: Result<Vec<Value>, Value>,
}

macro_rules! see {
    ($x:expr, $shown:expr) => {{
        let x = $x;
        Seen {
            is_batch: x.is_batch(),
            includes_request: x.includes_request(),
            wire: js(&x),
            shown: $shown(&x),
            single: x.clone().as_single().map(|y| js(&y)).map_err(|e| js(&e)),
            batch: x.as_batch().map(|v| v.iter().map(js).collect()).map_err(|e| js(&e)),
        }
    }};
}

/// (as read from JSON, built from messages, built from payloads with the payload wires)
type Views = (Result<Seen, String>, Seen, (Seen, Vec<Value>));

macro_rules! side {
    ($name:ident, $Msgs:ty, $Msg:ty, $Pays:ty, $Pay:ty, $payload:expr) => {
        fn $name(wire: &Value, single: bool, parts: &[Value]) -> Views {
            let read = serde_json::from_value::<$Msgs>(wire.clone()).map(|x| see!(x, |x: &$Msgs| Some(x.to_string()))).map_err(|e| e.to_string());
            let msgs: Vec<$Msg> = parts.iter().map(|p| serde_json::from_value(p.clone()).expect("checked before")).collect();
            let pays: Vec<$Pay> = msgs.iter().cloned().map($payload).collect();
            let pay_wires: Vec<Value> = pays.iter().map(js).collect();
            let (a, b): ($Msgs, $Pays) = if single {
                (msgs[0].clone().into(), pays[0].clone().into())
            } else {
                (msgs.into(), pays.into())
            };
            (read, see!(a, |x: &$Msgs| Some(x.to_string())), (see!(b, |_: &$Pays| None), pay_wires))
        }
    };
}

macro_rules! payload {
    ($x:expr) => {{
        let x = $x;
        if x.is_request() {
            let r = x.as_request().expect("request");
            #[cfg(feature = "fam_a")]
            let r = r.request;
            RQ::from(r).into()
        } else if x.is_notification() {
            let r = x.as_notification().expect("notification");
            #[cfg(feature = "fam_a")]
            let r = r.notification;
            NT::from(r).into()
        } else if x.is_response() {
            x.as_response().expect("response").result.into()
        } else {
            x.as_error().expect("error").error.into()
        }
    }};
}

fn client_payload(x: u::ClientMessage) -> u::MessageFromClient {
    type RQ = u::RequestFromClient;
    type NT = u::NotificationFromClient;
    payload!(x)
}
fn server_payload(x: u::ServerMessage) -> u::MessageFromServer {
    type RQ = u::RequestFromServer;
    type NT = u::NotificationFromServer;
    payload!(x)
}
side!(client, u::ClientMessages, u::ClientMessage, u::MessagesFromClient, u::MessageFromClient, client_payload);
side!(server, u::ServerMessages, u::ServerMessage, u::MessagesFromServer, u::MessageFromServer, server_payload);

fn views(side: Side, wire: &Value, single: bool, parts: &[Value]) -> Views {
    match side {
        Side::Client => client(wire, single, parts),
        Side::Server => server(wire, single, parts),
    }
}

fn check(s: &Seen, single: bool, parts: &[Value], kinds: &[usize], at: &str) -> Res {
    ensure(s.is_batch == !single, format!("{at}: is_batch"), || jg::short(&s.wire))?;
    let any = kinds.contains(&0);
    ensure(s.includes_request == any, format!("{at}: includes_request"), || format!("{} for {}", s.includes_request, jg::short(&s.wire)))?;
    let whole = if single { parts[0].clone() } else { json!(parts) };
    same(&whole, &s.wire, &format!("{at}: content"))?;
    if let Some(t) = &s.shown {
        let shown: Value = serde_json::from_str(t).map_err(|e| Fail { sig: format!("{at}: displays invalid JSON"), msg: format!("{e}: {t}") })?;
        same(&whole, &shown, &format!("{at}: text"))?;
    }
    let refusal = |e: &Value| ensure(e["code"] == -32603, format!("{at}: error code"), || e.to_string());
    match (&s.single, &s.batch) {
        (Ok(x), Err(e)) if single => {
            refusal(e)?;
            same(&parts[0], x, &format!("{at}: as single"))
        }
        (Err(e), Ok(v)) if !single => {
            refusal(e)?;
            same(&json!(parts), &json!(v), &format!("{at}: as batch"))
        }
        _ => fail(format!("{at}: as single / as batch"), jg::short(&s.wire)),
    }
}

fn some_messages(g: &mut G, side: Side, n: usize) -> Vec<Msg> {
    jg::fill(n, g, |g| wg::message(defs(), side, g))
}

fn batches(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let single = g.chance(1, 4);
    let n = match jg::big_len(g, 24, 300) {
        _ if single => 1,
        Some(n) => n,
        None => g.idx(6),
    };
    let mut ms = some_messages(g, side, n);
    if n > 1 && g.chance(1, 3) {
        // one kind throughout, but for a single one somewhere
        let kind = *g.pick(&[1usize, 2, 3]);
        let pool: Vec<Msg> = (0..24).map(|_| wg::message(defs(), side, g)).filter(|m| m.kind == kind).take(3).collect();
        if !pool.is_empty() {
            let at = g.idx(n);
            for (i, m) in ms.iter_mut().enumerate() {
                if i != at {
                    *m = pool[g.idx(pool.len())].clone();
                } else if g.chance(2, 3) {
                    *m = wg::standard_request(defs(), side, g.pick(wg::requests(side)), g);
                }
            }
        }
    }
    let wires: Vec<Value> = ms.iter().map(|m| m.wire.clone()).collect();
    let wire = if single { wires[0].clone() } else { json!(wires) };
    c.input(&json!({"side": format!("{side:?}"), "wire": wire}));
    c.class(if single {
        "single".to_string()
    } else if n > 5 {
        "large batch".to_string()
    } else {
        format!("batch of {n}")
    });
    c.nontrivial(n >= 2);
    // each message on its own first: the batch must agree with it
    let mut parts = vec![];
    for m in &ms {
        let p = api::parse(side, &m.wire).map_err(|e| Fail { sig: format!("{side:?} {} {} rejected", KINDS[m.kind], m.ty), msg: e })?;
        parts.push(p.wire);
    }
    let kinds: Vec<usize> = ms.iter().map(|m| m.kind).collect();
    let at = format!("{side:?}");
    let (read, built, (pays, pay_wires)) = views(side, &wire, single, &wires);
    let read = read.map_err(|e| Fail { sig: format!("{at}: rejected"), msg: format!("{e} for {}", jg::short(&wire)) })?;
    check(&read, single, &parts, &kinds, &format!("{at} read"))?;
    check(&built, single, &parts, &kinds, &format!("{at} built"))?;
    check(&pays, single, &pay_wires, &kinds, &format!("{at} payloads"))
}

fn broken(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let n = 1 + g.idx(4);
    let mut wires: Vec<Value> = some_messages(g, side, n).into_iter().map(|m| m.wire).collect();
    let at = g.idx(n);
    let junk = match g.below(6) {
        0 => Value::Null,
        1 => json!(jg::string(g)),
        2 => json!(jg::int(g)),
        3 => json!({"jsonrpc": "2.0", "id": 1}),
        4 => json!([[{"jsonrpc": "2.0"}]]),
        _ => {
            let mut w = wires[at].clone();
            for k in ["method", "result", "error"] {
                w.as_object_mut().unwrap().remove(k);
            }
            w
        }
    };
    wires[at] = junk;
    let wire = json!(wires);
    c.input(&json!({"side": format!("{side:?}"), "wire": wire}));
    c.nontrivial(n >= 2);
    c.class(format!("batch of {n}"));
    let r = match side {
        Side::Client => serde_json::from_value::<u::ClientMessages>(wire.clone()).map(|x| js(&x)),
        Side::Server => serde_json::from_value::<u::ServerMessages>(wire.clone()).map(|x| js(&x)),
    };
    match r {
        Err(_) => Ok(()),
        Ok(x) => fail(format!("{side:?}: batch with a broken element accepted"), format!("{} read as {}", jg::short(&wire), jg::short(&x))),
    }
}
