//! Plain values (text, numbers, lists, raw JSON) put into the unions that hold them (P07).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m;
use crate::schema::defs;
use crate::tape::G;
#[cfg(feature = "fam_a")]
use crate::u;
use serde_json::{json, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P07", name: "plain-values", quick: 15_000, thorough: 300_000, run: plain });
    v.push(Sub { prop: "P07", name: "generic-results", quick: 10_000, thorough: 200_000, run: generic });
    #[cfg(feature = "fam_b")]
    v.push(Sub { prop: "P07", name: "task-results", quick: 4_000, thorough: 80_000, run: task_results });
    #[cfg(feature = "fam_a")]
    v.push(Sub { prop: "P07", name: "raw-payloads", quick: 8_000, thorough: 160_000, run: raw });
}

/// (conversion, kind of plain value, the union's wire form and whether it lies in the variant of its kind)
type Row = (&'static str, &'static str, fn(&Value) -> Result<(Value, bool), String>);
macro_rules! row {
    ($k:literal, $a:ty, $b:ty, $p:pat) => {
        (concat!($k, " into ", stringify!($b)), $k, |v| {
            let x: $a = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            let y: $b = x.into();
            let ok = matches!(y, $p);
            Ok((js(&y), ok))
        })
    };
}

fn rows() -> Vec<Row> {
    #[allow(unused_mut)]
    let mut v: Vec<Row> = vec![row!("integer", i64, m::ProgressToken, m::ProgressToken::Integer(_))];
    #[cfg(feature = "v2025_06_18")]
    {
        use m::ElicitResultContent as C;
        v.push(row!("boolean", bool, m::ElicitResultContent, C::Boolean(_)));
        v.push(row!("integer", i64, m::ElicitResultContent, C::Integer(_)));
    }
    #[cfg(not(feature = "fam_a"))]
    {
        use m::{ElicitResultContent as C, ElicitResultContentPrimitive as P};
        v.push(row!("boolean", bool, m::ElicitResultContentPrimitive, P::Boolean(_)));
        v.push(row!("integer", i64, m::ElicitResultContentPrimitive, P::Integer(_)));
        v.push(row!("strings", Vec<String>, m::ElicitResultContent, C::StringArray(_)));
        v.push(row!(
            "blocks",
            Vec<m::SamplingMessageContentBlock>,
            m::CreateMessageContent,
            m::CreateMessageContent::SamplingMessageContentBlock(_)
        ));
        v.push(row!(
            "blocks",
            Vec<m::SamplingMessageContentBlock>,
            m::SamplingMessageContent,
            m::SamplingMessageContent::SamplingMessageContentBlock(_)
        ));
    }
    #[cfg(feature = "fam_c")]
    {
        v.push(row!("boolean", bool, m::JsonValueVariant2, m::JsonValueVariant2::Boolean(_)));
        v.push(row!("integer", i64, m::JsonValueVariant2, m::JsonValueVariant2::Integer(_)));
        v.push(row!("values", Vec<m::JsonValue>, m::JsonValue, m::JsonValue::Variant1(_)));
    }
    v
}

fn plain(g: &mut G, c: &mut Ctx) -> Res {
    let rows = rows();
    let (name, kind, run) = *c.row(&rows);
    let n = g.idx(5);
    let v = match kind {
        "integer" => json!(jg::int(g)),
        "boolean" => json!(g.chance(1, 2)),
        "strings" => (0..n).map(|_| json!(jg::string(g))).collect(),
        "blocks" => (0..n).map(|_| defs().gen("SamplingMessageContentBlock", g)).collect(),
        _ => (0..n).map(|_| defs().gen("JsonValue", g)).collect(),
    };
    c.input(&json!({"conversion": name, "value": v}));
    c.class(kind);
    c.nontrivial(v.as_array().is_none_or(|a| !a.is_empty()));
    let (w, right) = run(&v).map_err(|e| Fail { sig: format!("{name}: rejected"), msg: format!("{e}: {}", jg::short(&v)) })?;
    same(&v, &w, name)?;
    ensure(right, format!("{name}: variant"), || jg::short(&v))
}

/// Custom payloads given as raw JSON: kept as given, and no standard payload.
#[cfg(feature = "fam_a")]
fn raw(g: &mut G, c: &mut Ctx) -> Res {
    let v = if g.chance(2, 3) { Value::Object(jg::any_map(g, 3)) } else { jg::any(g, 3) };
    let row = *c.row(&["client request", "server request", "client notification", "server notification", "client result", "server result"]);
    c.input(&json!({"payload": row, "value": v}));
    c.class(row);
    c.nontrivial(v.as_object().is_some_and(|o| !o.is_empty()));
    fn tried<T: serde::Serialize>(r: Result<T, m::RpcError>) -> Result<Value, Value> {
        r.map(|x| js(&x)).map_err(|e| js(&e))
    }
    let (w, kept, out) = match row {
        "client request" => {
            let p = u::RequestFromClient::from(v.clone());
            (js(&p), matches!(p, u::RequestFromClient::CustomRequest(_)), tried(m::ClientRequest::try_from(p)))
        }
        "server request" => {
            let p = u::RequestFromServer::from(v.clone());
            (js(&p), matches!(p, u::RequestFromServer::CustomRequest(_)), tried(m::ServerRequest::try_from(p)))
        }
        "client notification" => {
            let p = u::NotificationFromClient::CustomNotification(v.clone());
            (js(&p), true, tried(m::ClientNotification::try_from(p)))
        }
        "server notification" => {
            let p = u::NotificationFromServer::CustomNotification(v.clone());
            (js(&p), true, tried(m::ServerNotification::try_from(p)))
        }
        "client result" => {
            let p = u::ResultFromClient::from(v.clone());
            (js(&p), matches!(p, u::ResultFromClient::CustomResult(_)), tried(m::ClientResult::try_from(p)))
        }
        _ => {
            let p = u::ResultFromServer::from(v.clone());
            (js(&p), matches!(p, u::ResultFromServer::CustomResult(_)), tried(m::ServerResult::try_from(p)))
        }
    };
    same(&v, &w, &format!("custom {row}"))?;
    ensure(kept, format!("custom {row}: variant"), || jg::short(&v))?;
    match out {
        Ok(x) => fail(format!("custom {row}: taken out as a standard one"), format!("{} as {}", jg::short(&v), jg::short(&x))),
        Err(e) => ensure(e["code"] == -32603, format!("custom {row}: error code"), || e.to_string()),
    }
}

/// The results of client tasks are client results.
#[cfg(feature = "fam_b")]
fn task_results(g: &mut G, c: &mut Ctx) -> Res {
    use crate::u::{ClientTaskResult as T, ResultFromClient as R};
    let ty = *c.row(&["ElicitResult", "CreateMessageResult"]);
    let v = defs().gen(ty, g);
    c.input(&json!([ty, v]));
    c.class(ty);
    c.nontrivial(v.as_object().is_some_and(|o| o.len() > 1));
    let bad = |e: serde_json::Error| Fail { sig: format!("{ty}: rejected"), msg: format!("{e}: {}", jg::short(&v)) };
    let (t, right) = if ty == "ElicitResult" {
        (T::ElicitResult(serde_json::from_value(v.clone()).map_err(bad)?), (|r| matches!(r, R::ElicitResult(_))) as fn(&R) -> bool)
    } else {
        (T::CreateMessageResult(serde_json::from_value(v.clone()).map_err(bad)?), (|r| matches!(r, R::CreateMessageResult(_))) as fn(&R) -> bool)
    };
    let r = R::from(t);
    ensure(right(&r), format!("{ty}: another variant"), || jg::short(&v))?;
    same(&v, &js(&r), &format!("{ty} as a task result"))?;
    let back = T::try_from(r).map_err(|e| Fail { sig: format!("{ty}: not taken back"), msg: js(&e).to_string() })?;
    let w = match back {
        T::ElicitResult(x) if ty == "ElicitResult" => js(&x),
        T::CreateMessageResult(x) if ty == "CreateMessageResult" => js(&x),
        _ => return fail(format!("{ty}: taken back as another"), jg::short(&v)),
    };
    same(&v, &w, &format!("{ty} taken back"))
}

type Generic = (&'static str, fn(&Value) -> Result<m::GenericResult, String>);
macro_rules! generic {
    ($($t:ident)*) => {
        &[$((stringify!($t), |v| {
            serde_json::from_value::<m::$t>(v.clone()).map(m::GenericResult::from).map_err(|e| e.to_string())
        })),*]
    };
}
#[cfg(feature = "fam_a")]
const GENERIC: &[Generic] = generic![InitializeResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult CompleteResult];
#[cfg(feature = "fam_b")]
const GENERIC: &[Generic] = generic![InitializeResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult GetTaskResult GetTaskPayloadResult CancelTaskResult ListTasksResult CompleteResult];
#[cfg(feature = "fam_c")]
const GENERIC: &[Generic] = generic![InputRequiredResult DiscoverResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult SubscriptionsListenResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult CompleteResult];

/// A result as a generic one: metadata in its place, everything else beside it.
fn generic(g: &mut G, c: &mut Ctx) -> Res {
    let (ty, run) = *c.row(GENERIC);
    let v = defs().gen(ty, g);
    c.input(&json!([ty, v]));
    c.class(if v.get("_meta").is_some() { "with metadata" } else { "without metadata" });
    c.nontrivial(v.as_object().is_some_and(|o| o.len() > 1));
    let r = run(&v).map_err(|e| Fail { sig: format!("{ty}: rejected"), msg: format!("{e}: {}", jg::short(&v)) })?;
    let mut rest = v.as_object().cloned().unwrap_or_default();
    same(&rest.remove("_meta").unwrap_or(Value::Null), &js(&r.meta), &format!("{ty} as a generic result: metadata"))?;
    #[cfg(feature = "fam_c")]
    same(&rest.remove("resultType").unwrap_or(Value::Null), &js(&r.result_type), &format!("{ty} as a generic result: result type"))?;
    let extra = js(&r.extra);
    same(&Value::Object(rest), &if extra.is_null() { json!({}) } else { extra }, &format!("{ty} as a generic result: content"))
}
