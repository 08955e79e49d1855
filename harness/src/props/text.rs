//! Text form of messages (P05) and rejection of malformed messages (P02).
use crate::api::{self, KINDS};
use crate::engine::*;
use crate::jsongen as jg;
use crate::mutate;
use crate::props::messages::declare;
use crate::schema::defs;
use crate::tape::G;
use crate::wiregen::{self as wg, Msg};
use serde_json::{json, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P04", name: "malformed-standard", quick: 25_000, thorough: 600_000, run: malformed });
    v.push(Sub { prop: "P05", name: "messages", quick: 25_000, thorough: 600_000, run: text });
    v.push(Sub { prop: "P05", name: "envelopes", quick: 20_000, thorough: 500_000, run: envelopes });
    v.push(Sub { prop: "P05", name: "garbled", quick: 25_000, thorough: 600_000, run: garbled });
    v.push(Sub { prop: "P02", name: "broken-message", quick: 25_000, thorough: 600_000, run: broken });
}

/// The text of a message with random layout.
fn layout(v: &Value, g: &mut G) -> String {
    match g.below(3) {
        0 => v.to_string(),
        1 => serde_json::to_string_pretty(v).unwrap(),
        _ => format!(" \n\t{}\r\n ", v),
    }
}

/// What the message must read back as: itself, except for the recorded finding on custom messages (P04).
fn expected(m: &Msg, wire: &Value) -> Value {
    if cfg!(feature = "fam_a") && m.ty == "custom" {
        wire.clone()
    } else {
        m.wire.clone()
    }
}

fn text(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let m = wg::message(defs(), side, g);
    let s = layout(&m.wire, g);
    declare(c, &m);
    c.nontrivial(true);
    let at = format!("{side:?} {}", m.ty);
    let p = api::parse_str(side, &s).map_err(|e| Fail { sig: format!("{at}: text rejected"), msg: format!("{e} for {s}") })?;
    let want = expected(&m, &p.wire);
    let shown: Value =
        serde_json::from_str(&p.display).map_err(|e| Fail { sig: format!("{at}: displays invalid JSON"), msg: format!("{e}: {}", p.display) })?;
    same(&want, &shown, &format!("{at}: displayed text"))?;
    // the displayed text is a message again, with the same facts
    if want == m.wire {
        let q = api::parse_str(side, &p.display).map_err(|e| Fail { sig: format!("{at}: own text rejected"), msg: format!("{e} for {}", p.display) })?;
        ensure(
            q.display == p.display && q.variant == p.variant && q.id == p.id && q.message_type == p.message_type,
            format!("{at}: text not stable"),
            || format!("{} then {}", p.display, q.display),
        )?;
    }
    Ok(())
}

fn envelopes(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let m = wg::message(defs(), side, g);
    let s = layout(&m.wire, g);
    declare(c, &m);
    c.nontrivial(true);
    let at = format!("{side:?} {} {}", KINDS[m.kind], m.ty);
    let (wire, shown, jsonrpc) = api::parse_envelope(side, m.kind, &s)
        .map_err(|e| Fail { sig: format!("{at}: envelope rejected"), msg: format!("{e} for {s}") })?;
    let want = expected(&m, &wire);
    same(&want, &wire, &format!("{at}: envelope content"))?;
    ensure(jsonrpc == "2.0", format!("{at}: jsonrpc"), || jsonrpc.clone())?;
    let shown: Value = serde_json::from_str(&shown).map_err(|e| Fail { sig: format!("{at}: displays invalid JSON"), msg: format!("{e}: {shown}") })?;
    same(&want, &shown, &format!("{at}: displayed text"))
}

/// A parse error is reported as such, with the reason.
fn parse_error(e: &Value, at: &str, s: &str) -> Res {
    ensure(e["code"] == -32700, format!("{at}: error code"), || format!("{e} for {s}"))?;
    ensure(e["data"]["details"].as_str().is_some_and(|d| !d.is_empty()), format!("{at}: error details"), || format!("{e} for {s}"))?;
    ensure(e["message"].as_str().is_some_and(|d| !d.is_empty()), format!("{at}: error message"), || format!("{e} for {s}"))
}

fn garbled(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let s = match g.below(5) {
        4 => {
            let m = wg::message(defs(), side, g);
            let t = layout(&m.wire, g);
            jg::junk_around(&t, g)
        }
        0 => jg::string(g),
        1 => jg::any(g, 2).to_string(),
        _ => {
            // cut, drop, double or replace something in a message
            let m = wg::message(defs(), side, g);
            let mut t: Vec<char> = m.wire.to_string().chars().collect();
            for _ in 0..=g.below(2) {
                let i = g.idx(t.len().max(1));
                match g.below(4) {
                    0 => t.truncate(i),
                    1 if i < t.len() => {
                        t.remove(i);
                    }
                    2 if i < t.len() => t[i] = *g.pick(&['"', '{', '}', '[', ']', ',', ':', '0', 'x', '\\', '\u{0}', 'é']),
                    _ => t.insert(i.min(t.len()), *g.pick(&['"', '{', '}', ',', ' ', '-', 'e', '\u{feff}'])),
                }
            }
            t.into_iter().collect()
        }
    };
    c.input(&json!({"side": format!("{side:?}"), "text": s}));
    let kind = g.idx(4);
    let v: Option<Value> = serde_json::from_str(&s).ok();
    let message_like = v
        .as_ref()
        .and_then(|v| v.as_object())
        .is_some_and(|o| ["method", "result", "error"].iter().any(|k| o.contains_key(*k)));
    // serde reads a positional array as any struct; only arrays of objects (batches) are held to be no message
    let positional = v.as_ref().and_then(|v| v.as_array()).is_some_and(|a| !a.iter().all(|x| x.is_object()));
    // numbers beyond every range are JSON that no value can hold, and a reader may skip them
    let beyond = v.is_none() && serde_json::from_str::<serde::de::IgnoredAny>(&s).is_ok();
    let message_like = message_like || positional || beyond;
    c.class(match (&v, message_like) {
        _ if beyond => "JSON beyond range",
        (None, _) => "not JSON",
        _ if positional => "JSON, positional array",
        (_, false) => "JSON, no message",
        _ => "JSON, message-like",
    });
    c.nontrivial(!message_like);
    match api::parse_str(side, &s) {
        Err(e) => parse_error(&e, "message", &s)?,
        Ok(p) => {
            ensure(message_like, "message: garbled text accepted", || format!("{s} read as {}", p.wire))?;
        }
    }
    match api::parse_envelope(side, kind, &s) {
        Err(e) => parse_error(&e, &format!("{} envelope", KINDS[kind]), &s),
        Ok((w, _, _)) => ensure(message_like, format!("{} envelope: garbled text accepted", KINDS[kind]), || format!("{s} read as {w}")),
    }
}

/// Messages broken at the envelope.
fn broken(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let mut m = wg::message(defs(), side, g);
    let wrong = |g: &mut G| g.pick(&[json!(null), json!(true), json!({}), json!([]), json!([["x"]])]).clone();
    let o = m.wire.as_object_mut().unwrap();
    // not claimed: the marker of server requests from 2026 on (they travel inside results), the text of
    // the marker where envelopes keep it as given, and results of the three oldest versions, which may be
    // any JSON value
    let free_marker = cfg!(feature = "fam_c") && side == api::Side::Server && m.kind == 0;
    let text_marker = cfg!(feature = "fam_a") || m.kind == 2;
    let what = match g.below(6) {
        0 if !free_marker => {
            o.remove("jsonrpc");
            "no protocol marker"
        }
        1 if !free_marker => {
            let mut w = g.pick(&[json!(2.0), json!(2), json!(null), json!({}), json!("1.0"), json!("2"), json!("2.00"), json!(""), json!("2.0 ")]).clone();
            if text_marker && w.is_string() {
                w = json!(true);
            }
            o.insert("jsonrpc".into(), w);
            "wrong protocol marker"
        }
        2 if m.kind != 1 => {
            let mut w = wrong(g);
            if g.chance(1, 4) {
                w = json!(1.5);
            }
            if m.kind == 3 && w.is_null() {
                w = json!(false);
            }
            o.insert("id".into(), w);
            "id of another type"
        }
        3 if m.kind <= 1 => {
            let w = wrong(g);
            o.insert("method".into(), w);
            "method of another type"
        }
        4 if m.kind == 2 && !cfg!(feature = "fam_a") => {
            let w = g.pick(&[json!(null), json!(true), json!(3), json!("x"), json!([["x"]])]).clone();
            o.insert("result".into(), w);
            "result of another type"
        }
        5 if m.kind == 3 => {
            match g.below(4) {
                0 => {
                    o["error"].as_object_mut().unwrap().remove("code");
                }
                1 => {
                    o["error"].as_object_mut().unwrap().remove("message");
                }
                2 => {
                    let w = g.pick(&[json!("1"), json!(1.5), json!(null), json!({})]).clone();
                    o["error"]["code"] = w;
                }
                _ => {
                    let w = g.pick(&[json!("1"), json!(1.5), json!(null), json!([["x"]])]).clone();
                    o.insert("error".into(), w);
                }
            }
            "broken error object"
        }
        _ if m.kind == 2 && cfg!(feature = "fam_a") => {
            o.remove("id");
            "response without id"
        }
        _ => {
            for k in ["method", "result", "error"] {
                o.remove(k);
            }
            "neither method nor result nor error"
        }
    };
    c.input(&json!({"side": format!("{side:?}"), "type": m.ty, "wire": m.wire, "broken": what}));
    c.class(what);
    c.nontrivial(true);
    match api::parse(side, &m.wire) {
        Err(_) => Ok(()),
        // an id of another type does not make a request; what is left may pass as a notification
        Ok(p) if what == "id of another type" && m.kind == 0 && !cfg!(feature = "fam_a") && !p.flags[0] => Ok(()),
        Ok(p) => fail(
            format!("{side:?} {} {} accepted: {what}", KINDS[m.kind], m.ty),
            format!("{} read as {}", jg::short(&m.wire), jg::short(&p.wire)),
        ),
    }
}

/// A standard message whose parameters break its definition is never presented as the standard message.
fn malformed(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let side = wg::side(g);
    let kind = g.idx(2);
    let ty = *g.pick(if kind == 0 { wg::requests(side) } else { wg::notifications(side) });
    let mut m = if kind == 0 { wg::standard_request(d, side, ty, g) } else { wg::standard_notification(d, side, ty, g) };
    let s = d.get(ty).unwrap();
    let Some((w, site)) = mutate::break_it(d, s, &m.wire, g) else {
        c.class("no invalidating mutation");
        return Ok(());
    };
    let mut rest = if w.is_object() { w.clone() } else { json!({}) };
    rest["params"] = m.wire["params"].clone();
    if m.wire.get("params").is_none() {
        rest.as_object_mut().unwrap().remove("params");
    }
    if rest != m.wire {
        c.class("mutation outside params");
        return Ok(());
    }
    m.wire = w;
    declare(c, &m);
    c.class(site.label());
    c.nontrivial(true);
    let at = format!("{side:?} {ty}");
    match api::parse(side, &m.wire) {
        Err(_) => Ok(()),
        Ok(p) => {
            ensure(p.variant == "custom", format!("{at}: malformed params accepted, {}", site.label()), || {
                format!("{} read as {} {}", jg::short(&m.wire), p.variant, p.wire)
            })?;
            let mut want = Msg { ty: "custom".into(), ..m.clone() };
            // a message without parameters and one whose parameters are null say the same
            if want.wire["params"].is_null() {
                want.wire.as_object_mut().unwrap().remove("params");
            }
            let mut got = p.wire.clone();
            if got["params"].is_null() {
                got.as_object_mut().unwrap().remove("params");
            }
            same(&expected(&want, &got), &got, &format!("{at}: malformed params: content"))
        }
    }
}
