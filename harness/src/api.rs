//! One view of the three message APIs found across protocol versions.
use crate::{m, u};
use serde_json::Value;
use u::{McpMessage, RpcMessage};

#[cfg(feature = "v2024_11_05")]
include!("lists_2024_11_05.rs");
#[cfg(feature = "v2025_03_26")]
include!("lists_2025_03_26.rs");
#[cfg(feature = "v2025_06_18")]
include!("lists_2025_06_18.rs");
#[cfg(feature = "v2025_11_25")]
include!("lists_2025_11_25.rs");
#[cfg(feature = "v2026_07_28")]
include!("lists_2026_07_28.rs");
#[cfg(feature = "vdraft")]
include!("lists_draft.rs");

pub const KINDS: [&str; 4] = ["Request", "Notification", "Response", "Error"];

#[cfg(feature = "fam_a")]
pub type ErrorMessage = m::JsonrpcError;
#[cfg(not(feature = "fam_a"))]
pub type ErrorMessage = m::JsonrpcErrorResponse;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    Client,
    Server,
}

/// Everything observable about a parsed message.
#[derive(Debug)]
pub struct Parsed {
    pub message_type: String,
    pub flags: [bool; 4],
    pub id: Option<Value>,
    /// the id as the request alone reports it
    pub request_id: Option<Value>,
    pub jsonrpc: String,
    /// method names reported by the accessors (all of them must agree)
    pub methods: Vec<String>,
    pub variant: &'static str,
    /// which of as_request / as_notification / as_response / as_error succeeds
    pub as_ok: [bool; 4],
    /// serialized form of the successful as_* conversion
    pub as_wire: Option<Value>,
    /// serialized form of the payload taken out of the envelope (request, notification or result alone)
    pub payload: Option<Value>,
    pub wire: Value,
    pub display: String,
    /// what each level of the message says about being an initialize request, an initialized notification
    pub init_request: Vec<bool>,
    pub initialized: Vec<bool>,
}

fn js<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or_else(|e| Value::String(format!("cannot serialize: {e}")))
}

macro_rules! observe {
    ($msg:expr, $M:ident, $req:path, $ntf:path, $res:path, $reqm:expr, $ntfm:expr, $reqp:expr, $ntfp:expr, $init:expr, $reqid:expr) => {{
        let x = $msg;
        let flags = [x.is_request(), x.is_notification(), x.is_response(), x.is_error()];
        let message_type = x.message_type().to_string();
        let id = x.request_id().map(js);
        let jsonrpc = x.jsonrpc().to_string();
        let wire = js(&x);
        let display = x.to_string();
        let (init_request, initialized) = $init(&x);
        let mut methods: Vec<String> = vec![];
        #[cfg(not(feature = "fam_a"))]
        match RpcMessage::method(&x) {
            Some(s) => methods.push(s.to_string()),
            None if flags[0] || flags[1] => methods.push("(no method reported)".to_string()),
            None => {}
        }
        let mut as_wire = None;
        let mut payload = None;
        let mut as_ok = [false; 4];
        let mut variant = "error";
        let mut request_id = None;
        if let Ok(r) = x.clone().as_request() {
            as_ok[0] = true;
            variant = $req(&r);
            methods.extend($reqm(&r));
            payload = $reqp(&r);
            request_id = Some($reqid(&r));
            as_wire = Some(js(&r));
        }
        if let Ok(r) = x.clone().as_notification() {
            as_ok[1] = true;
            variant = $ntf(&r);
            methods.extend($ntfm(&r));
            payload = $ntfp(&r);
            as_wire = Some(js(&r));
        }
        if let Ok(r) = x.clone().as_response() {
            as_ok[2] = true;
            variant = $res(&r.result);
            payload = Some(js(&r.result));
            as_wire = Some(js(&r));
        }
        if let Ok(r) = x.as_error() {
            as_ok[3] = true;
            as_wire = Some(js(&r));
        }
        Parsed { message_type, flags, id, request_id, jsonrpc, methods, variant, as_ok, as_wire, payload, wire, display, init_request, initialized }
    }};
}

#[cfg(feature = "fam_a")]
mod fam {
    use super::*;
    pub fn creq(r: &u::ClientJsonrpcRequest) -> &'static str {
        cl_req(&r.request)
    }
    pub fn sreq(r: &u::ServerJsonrpcRequest) -> &'static str {
        sv_req(&r.request)
    }
    pub fn cntf(r: &u::ClientJsonrpcNotification) -> &'static str {
        cl_ntf(&r.notification)
    }
    pub fn sntf(r: &u::ServerJsonrpcNotification) -> &'static str {
        sv_ntf(&r.notification)
    }
    pub fn creqm(r: &u::ClientJsonrpcRequest) -> Vec<String> {
        vec![r.method.clone(), r.request.method().to_string()]
    }
    pub fn sreqm(r: &u::ServerJsonrpcRequest) -> Vec<String> {
        vec![r.method.clone(), r.request.method().to_string()]
    }
    pub fn cntfm(r: &u::ClientJsonrpcNotification) -> Vec<String> {
        vec![r.method.clone()]
    }
    pub fn sntfm(r: &u::ServerJsonrpcNotification) -> Vec<String> {
        vec![r.method.clone(), r.notification.method().to_string()]
    }
    pub fn creqid(r: &u::ClientJsonrpcRequest) -> Value {
        js(&r.id)
    }
    pub fn sreqid(r: &u::ServerJsonrpcRequest) -> Value {
        js(&r.id)
    }
    pub fn creqp(r: &u::ClientJsonrpcRequest) -> Option<Value> {
        Some(js(&r.request))
    }
    pub fn sreqp(r: &u::ServerJsonrpcRequest) -> Option<Value> {
        Some(js(&r.request))
    }
    pub fn cntfp(r: &u::ClientJsonrpcNotification) -> Option<Value> {
        Some(js(&r.notification))
    }
    pub fn sntfp(r: &u::ServerJsonrpcNotification) -> Option<Value> {
        Some(js(&r.notification))
    }
}
#[cfg(not(feature = "fam_a"))]
mod fam {
    use super::*;
    pub use super::{cl_ntf as cntf, cl_req as creq, sv_ntf as sntf, sv_req as sreq};
    // the payload form taken out of an envelope must name the same method
    pub fn creqm(r: &u::ClientJsonrpcRequest) -> Vec<String> {
        let p: u::RequestFromClient = r.clone().into();
        vec![r.method().to_string(), p.method().to_string()]
    }
    pub fn sreqm(r: &u::ServerJsonrpcRequest) -> Vec<String> {
        let p: u::RequestFromServer = r.clone().into();
        vec![r.method().to_string(), p.method().to_string()]
    }
    pub fn cntfm(r: &u::ClientJsonrpcNotification) -> Vec<String> {
        let p: u::NotificationFromClient = r.clone().into();
        vec![r.method().to_string(), p.method().to_string()]
    }
    pub fn sntfm(r: &u::ServerJsonrpcNotification) -> Vec<String> {
        let p: u::NotificationFromServer = r.clone().into();
        vec![p.method().to_string()]
    }
    pub fn creqid(r: &u::ClientJsonrpcRequest) -> Value {
        js(r.request_id())
    }
    pub fn sreqid(r: &u::ServerJsonrpcRequest) -> Value {
        js(r.request_id())
    }
    pub fn creqp(r: &u::ClientJsonrpcRequest) -> Option<Value> {
        Some(js(&u::RequestFromClient::from(r.clone())))
    }
    pub fn sreqp(r: &u::ServerJsonrpcRequest) -> Option<Value> {
        Some(js(&u::RequestFromServer::from(r.clone())))
    }
    pub fn cntfp(r: &u::ClientJsonrpcNotification) -> Option<Value> {
        Some(js(&u::NotificationFromClient::from(r.clone())))
    }
    pub fn sntfp(r: &u::ServerJsonrpcNotification) -> Option<Value> {
        Some(js(&u::NotificationFromServer::from(r.clone())))
    }
}

fn client_init(x: &u::ClientMessage) -> (Vec<bool>, Vec<bool>) {
    #[allow(unused_mut)]
    let (mut a, mut b) = (vec![x.is_initialize_request()], vec![x.is_initialized_notification()]);
    #[cfg(not(feature = "fam_a"))]
    if let u::ClientMessage::Request(r) = x {
        a.push(u::RequestFromClient::from(r.clone()).is_initialize_request());
    }
    #[cfg(feature = "fam_b")]
    if let u::ClientMessage::Notification(n) = x {
        b.push(n.is_initialized_notification());
        b.push(u::NotificationFromClient::from(n.clone()).is_initialized_notification());
    }
    #[cfg(feature = "fam_a")]
    match x {
        u::ClientMessage::Request(r) => a.push(r.request.is_initialize_request()),
        u::ClientMessage::Notification(n) => b.push(n.notification.is_initialized_notification()),
        _ => {}
    }
    (a, b)
}
fn server_init(_: &u::ServerMessage) -> (Vec<bool>, Vec<bool>) {
    (vec![], vec![])
}

pub fn observe_client(x: u::ClientMessage) -> Parsed {
    observe!(x, ClientMessage, fam::creq, fam::cntf, cl_res, fam::creqm, fam::cntfm, fam::creqp, fam::cntfp, client_init, fam::creqid)
}
pub fn observe_server(x: u::ServerMessage) -> Parsed {
    observe!(x, ServerMessage, fam::sreq, fam::sntf, sv_res, fam::sreqm, fam::sntfm, fam::sreqp, fam::sntfp, server_init, fam::sreqid)
}

pub fn parse(side: Side, v: &Value) -> Result<Parsed, String> {
    match side {
        Side::Client => serde_json::from_value::<u::ClientMessage>(v.clone()).map(observe_client).map_err(|e| e.to_string()),
        Side::Server => serde_json::from_value::<u::ServerMessage>(v.clone()).map(observe_server).map_err(|e| e.to_string()),
    }
}

/// Parses text with `FromStr`; the error is the `RpcError` as JSON.
pub fn parse_str(side: Side, s: &str) -> Result<Parsed, Value> {
    match side {
        Side::Client => s.parse::<u::ClientMessage>().map(observe_client).map_err(|e| js(&e)),
        Side::Server => s.parse::<u::ServerMessage>().map(observe_server).map_err(|e| js(&e)),
    }
}

/// Round trip through the envelope type of the given kind alone (no enclosing union).
pub fn parse_envelope(side: Side, kind: usize, s: &str) -> Result<(Value, String, String), Value> {
    macro_rules! one {
        ($t:ty) => {
            s.parse::<$t>().map(|x| (js(&x), x.to_string(), x.jsonrpc().to_string())).map_err(|e| js(&e))
        };
    }
    match (side, kind) {
        (Side::Client, 0) => one!(u::ClientJsonrpcRequest),
        (Side::Client, 1) => one!(u::ClientJsonrpcNotification),
        (Side::Client, 2) => one!(u::ClientJsonrpcResponse),
        (Side::Server, 0) => one!(u::ServerJsonrpcRequest),
        (Side::Server, 1) => one!(u::ServerJsonrpcNotification),
        (Side::Server, 2) => one!(u::ServerJsonrpcResponse),
        _ => one!(ErrorMessage),
    }
}
