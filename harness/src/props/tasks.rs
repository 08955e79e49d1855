//! Task helpers of 2025-11-25 (P21).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m;
use crate::schema::defs;
use crate::tape::G;
use crate::u::{self, McpMetaEx};
use crate::wiregen as wg;
use serde_json::{from_value, json, Map, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P21", name: "augmented-server-messages", quick: 15_000, thorough: 400_000, run: server });
    v.push(Sub { prop: "P21", name: "augmented-client-requests", quick: 12_000, thorough: 300_000, run: client });
    v.push(Sub { prop: "P21", name: "builders", quick: 15_000, thorough: 400_000, run: builders });
    v.push(Sub { prop: "P21", name: "related-task", quick: 15_000, thorough: 400_000, run: related });
    v.push(Sub { prop: "P21", name: "abilities", quick: 12_000, thorough: 300_000, run: abilities });
    v.push(Sub { prop: "P21", name: "terminal", quick: 6_000, thorough: 150_000, run: terminal });
}

const KEY: &str = "io.modelcontextprotocol/related-task";

fn bad(t: &str) -> impl Fn(serde_json::Error) -> Fail + '_ {
    move |e| Fail { sig: format!("{t}: valid value rejected"), msg: e.to_string() }
}

/// Adds or removes the task member of params that may carry one.
fn vary(v: &mut Value, g: &mut G) {
    let t = defs().gen("TaskMetadata", g);
    if let Some(o) = v["params"].as_object_mut() {
        if g.chance(1, 2) {
            o.insert("task".into(), t);
        } else {
            o.remove("task");
        }
    }
}

fn server(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let side = crate::api::Side::Server;
    let rows = wg::requests(side);
    let i = (c.index % (rows.len() as u64 + 5)) as usize;
    let can = ["CreateMessageRequest", "ElicitRequest"];
    let mut msg = match i.checked_sub(rows.len()) {
        None => wg::standard_request(d, side, rows[i], g),
        Some(0) => wg::custom_request(d, side, g),
        Some(1) => wg::message(d, side, g),
        Some(2) => wg::standard_response(d, side, "CreateTaskResult", g),
        Some(n) => wg::standard_request(d, side, can[n - 3], g),
    };
    if can.contains(&msg.ty.as_str()) {
        vary(&mut msg.wire, g);
    } else if msg.ty == "custom" && g.chance(1, 2) {
        msg.wire["params"]["task"] = json!({});
    }
    let want = can.contains(&msg.ty.as_str()) && msg.wire["params"].get("task").is_some();
    c.input(&msg.wire);
    c.class(format!("{} {}", msg.ty, want));
    c.nontrivial(want);
    let at = &msg.ty;
    let x: u::ServerMessage = from_value(msg.wire.clone()).map_err(bad("message"))?;
    if msg.kind == 0 {
        let r = match x.as_request() {
            Ok(r) => r,
            Err(_) => return fail(format!("{at}: no request"), jg::short(&msg.wire)),
        };
        ensure(r.is_task_augmented() == want, format!("{at}: request"), || jg::short(&msg.wire))?;
        let p: u::RequestFromServer = r.into();
        ensure(p.is_task_augmented() == want, format!("{at}: payload"), || jg::short(&msg.wire))?;
        ensure(u::MessageFromServer::RequestFromServer(p.clone()).is_task_augmented() == want, format!("{at}: message payload"), || jg::short(&msg.wire))?;
        if msg.ty == "CreateMessageRequest" {
            let p: m::CreateMessageRequestParams = from_value(msg.wire["params"].clone()).map_err(bad("params"))?;
            ensure(p.is_task_augmented() == want, format!("{at}: params"), || jg::short(&msg.wire))?;
        }
        if msg.ty == "ElicitRequest" {
            let p: m::ElicitRequestParams = from_value(msg.wire["params"].clone()).map_err(bad("params"))?;
            ensure(p.is_task_augmented() == want, format!("{at}: params"), || jg::short(&msg.wire))?;
            ensure(json!(p.message()) == msg.wire["params"]["message"], "question text", || jg::short(&msg.wire))?;
        }
    } else {
        // nothing else asks for a task
        let p = match x {
            u::ServerMessage::Notification(n) => u::MessageFromServer::NotificationFromServer(n.into()),
            u::ServerMessage::Response(r) => u::MessageFromServer::ResultFromServer(r.result),
            u::ServerMessage::Error(e) => u::MessageFromServer::Error(e.error),
            _ => return fail(format!("{at}: no message"), jg::short(&msg.wire)),
        };
        ensure(!p.is_task_augmented(), format!("{at}: message payload"), || jg::short(&msg.wire))?;
    }
    Ok(())
}

fn client(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let side = crate::api::Side::Client;
    let rows = wg::requests(side);
    let i = (c.index % (rows.len() as u64 * 2)) as usize;
    let ty = if i < rows.len() { rows[i] } else { "CallToolRequest" };
    let mut msg = if g.chance(1, 12) { wg::custom_request(d, side, g) } else { wg::standard_request(d, side, ty, g) };
    if msg.ty == "CallToolRequest" {
        vary(&mut msg.wire, g);
    }
    let want = msg.ty == "CallToolRequest" && msg.wire["params"].get("task").is_some();
    c.input(&msg.wire);
    c.class(format!("{} {}", msg.ty, want));
    c.nontrivial(want);
    let r: u::ClientJsonrpcRequest = from_value(msg.wire.clone()).map_err(bad("request"))?;
    ensure(r.is_task_augmented() == want, format!("{}: request", msg.ty), || jg::short(&msg.wire))?;
    if msg.ty == "CallToolRequest" {
        let r: m::CallToolRequest = from_value(msg.wire.clone()).map_err(bad("request"))?;
        ensure(r.is_task_augmented() == want && r.params.is_task_augmented() == want, "tool call", || jg::short(&msg.wire))?;
    }
    Ok(())
}

fn builders(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let task = d.gen("TaskMetadata", g);
    let t = || from_value::<m::TaskMetadata>(task.clone()).map_err(bad("TaskMetadata"));
    let n = c.index % 4;
    c.class(["tool call", "elicitation", "url elicitation", "form elicitation"][n as usize]);
    c.nontrivial(true);
    let (want, got, augmented) = match n {
        0 => {
            let name = jg::string(g);
            let mut want = json!({"name": name});
            let mut x = if g.chance(1, 2) { m::CallToolRequestParams::new(name) } else { m::CallToolRequestParams::new(name.as_str()) };
            let mut log = vec![want.clone()];
            for _ in 0..g.below(6) {
                match g.below(3) {
                    0 => {
                        let a = jg::any_map(g, 2);
                        want["arguments"] = json!(a);
                        x = x.with_arguments(a);
                    }
                    1 => {
                        let a = d.gen("CallToolMeta", g);
                        want["_meta"] = a.clone();
                        x = x.with_meta(from_value(a).map_err(bad("CallToolMeta"))?);
                    }
                    _ => {
                        want["task"] = task.clone();
                        x = x.with_task(t()?);
                    }
                }
                log.push(want.clone());
            }
            c.input(&json!(log));
            ensure(x.is_task_augmented() == want.get("task").is_some(), "built tool call: augmented", || want.to_string())?;
            let req = m::CallToolRequest::new(from_value(json!(1)).unwrap(), x.clone());
            ensure(json!(req.tool_name()) == want["name"], "built tool call: name", || want.to_string())?;
            (want, js(&x), x.is_task_augmented())
        }
        1 => {
            let mut v = d.gen("ElicitRequestParams", g);
            let x: m::ElicitRequestParams = from_value(v.clone()).map_err(bad("ElicitRequestParams"))?;
            c.input(&json!([v, task]));
            let x = x.with_task(t()?);
            v["task"] = task.clone();
            (v, js(&x), x.is_task_augmented())
        }
        2 => {
            let mut v = d.gen("ElicitRequestUrlParams", g);
            let x: m::ElicitRequestUrlParams = from_value(v.clone()).map_err(bad("ElicitRequestUrlParams"))?;
            c.input(&json!([v, task]));
            let x = x.with_task(t()?);
            v["task"] = task.clone();
            (v, js(&x), true)
        }
        _ => {
            let mut v = d.gen("ElicitRequestFormParams", g);
            let x: m::ElicitRequestFormParams = from_value(v.clone()).map_err(bad("ElicitRequestFormParams"))?;
            c.input(&json!([v, task]));
            let x = x.with_task(t()?);
            v["task"] = task.clone();
            (v, js(&x), true)
        }
    };
    ensure(augmented == want.get("task").is_some(), "built: augmented", || jg::short(&want))?;
    same(&want, &got, "built")
}

fn meta_value(g: &mut G) -> Value {
    match g.below(4) {
        0 => json!({"taskId": jg::string(g)}),
        1 => json!({"taskId": jg::any(g, 1)}),
        2 => json!({"taskid": jg::string(g), "task": jg::string(g)}),
        _ => jg::any(g, 1),
    }
}

/// The related task id: what was set is what is read, wherever it is kept, and other metadata stays.
fn related(g: &mut G, c: &mut Ctx) -> Res {
    let id_of = |o: Option<&Map<String, Value>>| o.and_then(|o| o.get(KEY)).and_then(|v| v.get("taskId")).and_then(|v| v.as_str()).map(|s| s.to_string());
    ensure(u::RELATED_TASK_META_KEY == KEY, "key", || u::RELATED_TASK_META_KEY.into())?;
    let mut log = vec![];
    if c.index % 2 == 0 {
        c.class("metadata map");
        let mut want = jg::any_map(g, 1);
        let mut x = want.clone();
        log.push(json!(want));
        for _ in 0..g.below(6) {
            let (k, s) = (if g.chance(1, 4) { KEY.to_string() } else { jg::string(g) }, jg::string(g));
            match g.below(7) {
                0 => {
                    want.insert(KEY.into(), json!({"taskId": s}));
                    x.set_related_task_id(s.clone());
                }
                1 => {
                    want.insert(KEY.into(), json!({"taskId": s}));
                    x = x.with_related_task_id(s.as_str());
                }
                2 => {
                    want.insert(k.clone(), json!(s));
                    x = x.add(k, s);
                }
                3 => {
                    let n = jg::int(g);
                    want.insert(k.clone(), json!(n));
                    x = x.add(k.as_str(), n);
                }
                4 => {
                    let yes = g.chance(1, 2);
                    if yes {
                        want.insert(k.clone(), json!(s));
                    }
                    x = x.add_if(yes, k, s);
                }
                5 => {
                    let v = meta_value(g);
                    want.insert(KEY.into(), v.clone());
                    x = x.add_raw(KEY, v);
                }
                _ => {
                    let v = jg::any(g, 2);
                    want.insert(k.clone(), v.clone());
                    x = x.add_raw(k, v);
                }
            }
            log.push(json!(want));
            same(&json!(want), &json!(x), "metadata map")?;
            let id = x.related_task_id().map(|s| s.to_string());
            ensure(id == id_of(Some(&want)), "metadata map: related task", || format!("{id:?} in {}", json!(want)))?;
        }
    } else {
        c.class("task payload");
        let mut want = defs().gen("GetTaskPayloadResult", g);
        if g.chance(1, 2) {
            let m = meta_value(g);
            let mut meta = want.get("_meta").and_then(|m| m.as_object()).cloned().unwrap_or_default();
            meta.insert(KEY.into(), m);
            want["_meta"] = json!(meta);
        }
        log.push(want.clone());
        let mut x: m::GetTaskPayloadResult = from_value(want.clone()).map_err(bad("GetTaskPayloadResult"))?;
        for step in 0..=g.below(3) {
            if step > 0 {
                let s = jg::string(g);
                let mut meta = want.get("_meta").and_then(|m| m.as_object()).cloned().unwrap_or_default();
                meta.insert(KEY.into(), json!({"taskId": s}));
                want["_meta"] = json!(meta);
                log.push(json!(s));
                x.set_related_task_id(s);
            }
            same(&want, &js(&x), "task payload")?;
            let id = x.related_task_id().map(|s| s.to_string());
            let wid = id_of(want.get("_meta").and_then(|m| m.as_object()));
            ensure(id == wid, "task payload: related task", || format!("{id:?} in {}", jg::short(&want)))?;
        }
    }
    c.nontrivial(log.len() > 1);
    c.input(&json!(log));
    Ok(())
}

/// What a peer says it can do with tasks is what its capabilities name.
fn abilities(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let server = c.index % 2 == 0;
    let empty = |g: &mut G| if g.chance(1, 2) { json!({}) } else { json!(jg::any_map(g, 1)) };
    let mut tasks = json!({});
    for k in ["list", "cancel"] {
        if g.chance(1, 2) {
            tasks[k] = empty(g);
        }
    }
    if g.chance(3, 4) {
        let mut r = json!({});
        let kinds: &[(&str, &str)] = if server { &[("tools", "call")] } else { &[("sampling", "createMessage"), ("elicitation", "create")] };
        for (k, x) in kinds {
            if g.chance(2, 3) {
                r[*k] = if g.chance(2, 3) { json!({*x: empty(g)}) } else { json!({}) };
            }
        }
        tasks["requests"] = r;
    }
    let ty = if server { "ServerCapabilities" } else { "ClientCapabilities" };
    let mut caps = d.gen(ty, g);
    caps.as_object_mut().unwrap().remove("tasks");
    let some = g.chance(4, 5);
    if some {
        caps["tasks"] = tasks.clone();
    }
    c.input(&caps);
    c.class(format!("{ty} {}", if some { "with tasks" } else { "without tasks" }));
    c.nontrivial(some);
    let has = |p: &str| tasks.pointer(p).is_some();
    let checks: Vec<(&str, bool, bool, bool)> = if server {
        let x: m::ServerCapabilities = from_value(caps.clone()).map_err(bad(ty))?;
        let t: m::ServerTasks = from_value(tasks.clone()).map_err(bad("tasks"))?;
        vec![
            ("list", has("/list"), t.can_list_tasks(), x.can_list_tasks()),
            ("cancel", has("/cancel"), t.can_cancel_tasks(), x.can_cancel_tasks()),
            ("tools", has("/requests/tools/call"), t.can_run_task_augmented_tools(), x.can_run_task_augmented_tools()),
        ]
    } else {
        let x: m::ClientCapabilities = from_value(caps.clone()).map_err(bad(ty))?;
        let t: m::ClientTasks = from_value(tasks.clone()).map_err(bad("tasks"))?;
        vec![
            ("list", has("/list"), t.can_list_tasks(), x.can_list_tasks()),
            ("cancel", has("/cancel"), t.can_cancel_tasks(), x.can_cancel_tasks()),
            ("elicitation", has("/requests/elicitation/create"), t.can_accept_elicitation_task(), x.can_accept_elicitation_task()),
            ("sampling", has("/requests/sampling/createMessage"), t.can_accept_sampling_task(), x.can_accept_sampling_task()),
        ]
    };
    for (what, want, own, whole) in checks {
        ensure(own == want, format!("{ty} tasks: {what}"), || format!("{own} for {tasks}"))?;
        ensure(whole == (want && some), format!("{ty}: {what}"), || format!("{whole} for {}", jg::short(&caps)))?;
    }
    Ok(())
}

fn terminal(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let words = ["cancelled", "completed", "failed", "input_required", "working"];
    let w = *c.row(&words);
    let want = ["cancelled", "completed", "failed"].contains(&w);
    let (mut task, mut result) = (d.gen("Task", g), d.gen("GetTaskResult", g));
    task["status"] = json!(w);
    result["status"] = json!(w);
    c.input(&json!([task, result]));
    c.class(w);
    c.nontrivial(true);
    let s: m::TaskStatus = from_value(json!(w)).map_err(bad("TaskStatus"))?;
    let t: m::Task = from_value(task).map_err(bad("Task"))?;
    let r: m::GetTaskResult = from_value(result).map_err(bad("GetTaskResult"))?;
    ensure(s.is_terminal() == want, format!("status {w}"), String::new)?;
    ensure(t.is_terminal() == want, format!("task {w}"), String::new)?;
    ensure(r.is_terminal() == want, format!("task result {w}"), String::new)
}
