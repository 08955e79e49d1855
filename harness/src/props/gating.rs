//! Capability gating (P08): which requests and notifications a peer's declared capabilities allow.
use crate::api::{self, Side};
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::schema::defs;
use crate::tape::G;
use crate::u;
use crate::wiregen as wg;
use serde_json::{json, Map, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P08", name: "requests", quick: 40_000, thorough: 1_000_000, run: requests });
    v.push(Sub { prop: "P08", name: "notifications", quick: 12_000, thorough: 300_000, run: notifications });
}

/// Capabilities with every optional part independently present or absent (also deep ones).
fn caps(side: Side, g: &mut G) -> Value {
    let ty = match side {
        Side::Client => "ClientCapabilities",
        Side::Server => "ServerCapabilities",
    };
    let mut v = defs().gen(ty, g);
    let o = v.as_object_mut().unwrap();
    let names: &[&str] = match side {
        Side::Client => &["sampling", "roots", "elicitation"],
        Side::Server => &["prompts", "resources", "tools", "completions", "logging"],
    };
    for n in names {
        match g.below(3) {
            0 => {
                o.remove(*n);
            }
            1 => {
                o.entry(*n).or_insert_with(|| json!({}));
            }
            _ => {}
        }
    }
    if let Some(Value::Object(s)) = o.get_mut("sampling") {
        for k in ["context", "tools"] {
            match g.below(2) {
                0 => s.remove(k),
                _ => s.insert(k.into(), json!({})),
            };
        }
    }
    if cfg!(feature = "fam_b") {
        match g.below(4) {
            0 => {
                o.remove("tasks");
            }
            1 => {
                o.insert("tasks".into(), json!({}));
            }
            _ => {
                let mut t = Map::new();
                for k in ["list", "cancel"] {
                    if g.chance(1, 2) {
                        t.insert(k.into(), json!({}));
                    }
                }
                if g.chance(3, 4) {
                    let mut r = Map::new();
                    let groups: &[(&str, &str)] = match side {
                        Side::Client => &[("sampling", "createMessage"), ("elicitation", "create")],
                        Side::Server => &[("tools", "call")],
                    };
                    for (a, b) in groups {
                        match g.below(3) {
                            0 => {}
                            1 => {
                                r.insert(a.to_string(), json!({}));
                            }
                            _ => {
                                r.insert(a.to_string(), json!({*b: {}}));
                            }
                        }
                    }
                    t.insert("requests".into(), Value::Object(r));
                }
                o.insert("tasks".into(), Value::Object(t));
            }
        }
    }
    v
}

/// The declared capabilities a request needs: (path of members, words the refusal may use for it).
fn needs(method: &str, params: &Value) -> Vec<(&'static str, &'static str)> {
    let has = |k: &str| params.get(k).is_some();
    let task = cfg!(feature = "fam_b") && has("task");
    let mut n = vec![];
    match method {
        "prompts/get" | "prompts/list" => n.push(("/prompts", "prompt")),
        "resources/list" | "resources/templates/list" | "resources/read" => n.push(("/resources", "resource")),
        "tools/list" => n.push(("/tools", "tool")),
        "tools/call" => {
            n.push(("/tools", "tool"));
            if task {
                n.push(("/tasks/requests/tools/call", "task"));
            }
        }
        "completion/complete" => n.push(("/completions", "completion")),
        "sampling/createMessage" => {
            n.push(("/sampling", "sampling"));
            if cfg!(feature = "fam_b") {
                if params.get("includeContext").is_some_and(|x| x != "none") {
                    n.push(("/sampling/context", "context"));
                }
                if has("toolChoice") || has("tools") {
                    n.push(("/sampling/tools", "tool"));
                }
            }
            if task {
                n.push(("/tasks/requests/sampling/createMessage", "task"));
            }
        }
        "roots/list" => n.push(("/roots", "root")),
        "elicitation/create" => {
            n.push(("/elicitation", "elicit"));
            if task {
                n.push(("/tasks/requests/elicitation/create", "task"));
            }
        }
        _ => {}
    }
    if cfg!(feature = "fam_b") {
        match method {
            "logging/setLevel" => n.push(("/logging", "logging")),
            "resources/subscribe" | "resources/unsubscribe" => n.push(("/resources", "resource")),
            "tasks/get" | "tasks/result" => n.push(("/tasks", "task")),
            "tasks/list" => n.push(("/tasks/list", "task")),
            "tasks/cancel" => n.push(("/tasks/cancel", "task")),
            _ => {}
        }
    }
    n
}

fn judge(side: Side, ty: &str, method: &str, caps: &Value, missing: &[(&str, &str)], got: Result<(), Value>) -> Res {
    let at = format!("{side:?} {ty}");
    match (&got, missing.is_empty()) {
        (Ok(()), true) => Ok(()),
        (Ok(()), false) => fail(format!("{at}: allowed without {}", missing[0].0), format!("{method} with {}", jg::short(caps))),
        (Err(e), true) => fail(format!("{at}: refused"), format!("{method} refused with {e} for {}", jg::short(caps))),
        (Err(e), false) => {
            ensure(e["code"] == -32603, format!("{at}: refusal code"), || e.to_string())?;
            let m = e["message"].as_str().unwrap_or("");
            let peer = format!("{side:?}");
            ensure(m.contains(&peer), format!("{at}: refusal names the peer"), || format!("{m} lacks {peer}"))?;
            ensure(m.contains(method), format!("{at}: refusal names the method"), || format!("{m} lacks {method}"))?;
            // the part before the method
            let head = m.replace(method, "").to_lowercase();
            ensure(missing.iter().any(|(_, w)| head.contains(w)), format!("{at}: refusal names the capability"), || format!("{m}, missing {missing:?}"))
        }
    }
}

fn requests(g: &mut G, c: &mut Ctx) -> Res {
    // whose capabilities: the other side sends
    let side = if c.index % 2 == 0 { Side::Server } else { Side::Client };
    let sender = if side == Side::Server { Side::Client } else { Side::Server };
    let rows = wg::requests(sender);
    let k = (c.index / 2) as usize % (rows.len() + 1);
    let m = if k == rows.len() { wg::custom_request(defs(), sender, g) } else { wg::standard_request(defs(), sender, rows[k], g) };
    let caps = caps(side, g);
    let method = m.method.clone().unwrap();
    let none = json!({});
    let params = m.wire.get("params").unwrap_or(&none);
    // A method of a later or earlier protocol is a custom message here and never needs anything.
    let all = if m.ty == "custom" { vec![] } else { needs(&method, params) };
    let missing: Vec<_> = all.iter().filter(|(p, _)| caps.pointer(p).is_none()).cloned().collect();
    c.input(&json!({"peer": format!("{side:?}"), "capabilities": caps, "request": m.wire}));
    c.nontrivial(!all.is_empty());
    c.class(format!("{method_class}: {}", if missing.is_empty() { "allowed" } else { "refused" }, method_class = m.ty));
    let got = match side {
        Side::Server => {
            let caps: crate::m::ServerCapabilities = read(&caps)?;
            let r: u::ClientJsonrpcRequest = read(&m.wire)?;
            caps.can_handle_request(&r).map_err(|e| js(&e))
        }
        Side::Client => {
            let caps: crate::m::ClientCapabilities = read(&caps)?;
            let r: u::ServerJsonrpcRequest = read(&m.wire)?;
            caps.can_handle_request(&r).map_err(|e| js(&e))
        }
    };
    judge(side, &m.ty, &method, &caps, &missing, got)
}

fn read<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, Fail> {
    serde_json::from_value(v.clone()).map_err(|e| Fail { sig: format!("input of {} rejected", std::any::type_name::<T>().rsplit(':').next().unwrap()), msg: format!("{e}: {}", jg::short(v)) })
}

fn notifications(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let d = defs();
    let method = match g.below(4) {
        0 => wg::custom_method(d, wg::notifications(side), g),
        1 => {
            let t = [api::CLIENT_NOTIFICATIONS, api::SERVER_NOTIFICATIONS].concat();
            wg::method_of(d, t[g.idx(t.len())])
        }
        _ => {
            let t = wg::notifications(side);
            wg::method_of(d, t[g.idx(t.len())])
        }
    };
    let need: Option<(&str, &str)> = match (side, method.as_str()) {
        (Side::Server, "notifications/message") => Some(("/logging", "logging")),
        (Side::Server, "notifications/resources/updated" | "notifications/resources/list_changed") => Some(("/resources", "resource")),
        (Side::Server, "notifications/tools/list_changed") => Some(("/tools", "tool")),
        (Side::Server, "notifications/prompts/list_changed") => Some(("/prompts", "prompt")),
        (Side::Client, "notifications/roots/list_changed") if cfg!(feature = "fam_b") => Some(("/roots", "root")),
        _ => None,
    };
    let caps = caps(side, g);
    let missing: Vec<_> = need.into_iter().filter(|(p, _)| caps.pointer(p).is_none()).collect();
    c.input(&json!({"peer": format!("{side:?}"), "capabilities": caps, "notification": method}));
    c.nontrivial(need.is_some());
    c.class(format!("{side:?} {}: {}", if need.is_some() { method.as_str() } else { "ungated" }, if missing.is_empty() { "allowed" } else { "refused" }));
    let got = match side {
        Side::Server => read::<crate::m::ServerCapabilities>(&caps)?.can_accept_notification(&method).map_err(|e| js(&e)),
        Side::Client => read::<crate::m::ClientCapabilities>(&caps)?.can_accept_notification(&method).map_err(|e| js(&e)),
    };
    judge(side, need.map(|_| method.as_str()).unwrap_or("ungated"), &method, &caps, &missing, got)
}
