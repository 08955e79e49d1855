//! Content blocks, tool results and tool call errors built through helpers (P13).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m;
use crate::schema::defs;
use crate::tape::G;
use crate::u::CallToolError;
use serde_json::{from_value, json, Map, Value};
use std::error::Error;

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P13", name: "blocks", quick: 20_000, thorough: 500_000, run: blocks });
    v.push(Sub { prop: "P13", name: "results", quick: 15_000, thorough: 400_000, run: results });
    v.push(Sub { prop: "P13", name: "call-errors", quick: 15_000, thorough: 400_000, run: errors });
    v.push(Sub { prop: "P13", name: "calls", quick: 5_000, thorough: 150_000, run: calls });
    #[cfg(not(feature = "fam_a"))]
    v.push(Sub { prop: "P13", name: "resource-contents", quick: 8_000, thorough: 200_000, run: contents });
    #[cfg(feature = "fam_b")]
    v.push(Sub { prop: "P13", name: "elicited-values", quick: 5_000, thorough: 150_000, run: elicited });
}

#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
pub type Block = m::CallToolResultContentItem;
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
pub type Block = m::ContentBlock;

#[cfg(feature = "v2024_11_05")]
const TYPES: &[(&str, &str)] = &[("TextContent", "text"), ("ImageContent", "image"), ("EmbeddedResource", "resource")];
#[cfg(feature = "v2025_03_26")]
const TYPES: &[(&str, &str)] =
    &[("TextContent", "text"), ("ImageContent", "image"), ("EmbeddedResource", "resource"), ("AudioContent", "audio")];
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
const TYPES: &[(&str, &str)] = &[
    ("TextContent", "text"),
    ("ImageContent", "image"),
    ("EmbeddedResource", "resource"),
    ("AudioContent", "audio"),
    ("ResourceLink", "resource_link"),
];

fn bad(t: &str) -> impl Fn(serde_json::Error) -> Fail + '_ {
    move |e| Fail { sig: format!("{t}: valid content rejected"), msg: e.to_string() }
}

/// Members a helper takes; the rest of the generated content is dropped from the expectation.
fn keep(v: &Value, ks: &[&str]) -> Value {
    let mut o = v.as_object().unwrap().clone();
    o.retain(|k, _| k == "type" || ks.contains(&k.as_str()));
    Value::Object(o)
}

/// (what the helper must have built, what it built)
#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn by_helper(t: &str, v: &Value) -> Result<(Value, Block), Fail> {
    Ok(match t {
        "TextContent" => {
            let x: m::TextContent = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["text", "annotations"]), Block::text_content(x.text, x.annotations))
        }
        "ImageContent" => {
            let x: m::ImageContent = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["data", "mimeType", "annotations"]), Block::image_content(x.data, x.mime_type, x.annotations))
        }
        #[cfg(feature = "v2025_03_26")]
        "AudioContent" => {
            let x: m::AudioContent = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["data", "mimeType", "annotations"]), Block::audio_content(x.data, x.mime_type, x.annotations))
        }
        _ => {
            let x: m::EmbeddedResource = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["resource", "annotations"]), Block::embedded_resource(x.resource, x.annotations))
        }
    })
}
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn by_helper(t: &str, v: &Value) -> Result<(Value, Block), Fail> {
    Ok(match t {
        "TextContent" => {
            let x: m::TextContent = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["text"]), Block::text_content(x.text))
        }
        "ImageContent" => {
            let x: m::ImageContent = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["data", "mimeType"]), Block::image_content(x.data, x.mime_type))
        }
        "AudioContent" => {
            let x: m::AudioContent = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["data", "mimeType"]), Block::audio_content(x.data, x.mime_type))
        }
        "ResourceLink" => {
            let x: m::ResourceLink = from_value(v.clone()).map_err(bad(t))?;
            (v.clone(), Block::resource_link(x))
        }
        _ => {
            let x: m::EmbeddedResource = from_value(v.clone()).map_err(bad(t))?;
            (keep(v, &["resource"]), Block::embedded_resource(x.resource))
        }
    })
}

/// Each typed view of the block: content or refusal.
fn views(b: &Block) -> Vec<(&'static str, Result<Value, m::RpcError>)> {
    #[allow(unused_mut)]
    let mut v = vec![
        ("TextContent", b.as_text_content().map(js)),
        ("ImageContent", b.as_image_content().map(js)),
        ("EmbeddedResource", b.as_embedded_resource().map(js)),
    ];
    #[cfg(not(feature = "v2024_11_05"))]
    v.push(("AudioContent", b.as_audio_content().map(js)));
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    v.push(("ResourceLink", b.as_resource_link().map(js)));
    v
}

fn check_block(b: &Block, t: &str, tag: &str, want: &Value, how: &str) -> Res {
    same(want, &js(b), &format!("{t} {how}"))?;
    ensure(b.content_type() == tag, format!("{t} {how}: content type"), || b.content_type().to_string())?;
    for (name, got) in views(b) {
        match got {
            Ok(x) => {
                ensure(name == t, format!("{t} {how}: also readable as {name}"), || jg::short(want))?;
                same(want, &x, &format!("{t} {how}: its own view"))?;
            }
            Err(e) => {
                ensure(name != t, format!("{t} {how}: not readable as itself"), || jg::short(want))?;
                ensure(e.code == -32603 && !e.message.is_empty(), format!("{t} {how}: refusal as {name}"), || js(&e).to_string())?;
            }
        }
    }
    Ok(())
}

fn blocks(g: &mut G, c: &mut Ctx) -> Res {
    let (t, tag) = *c.row(TYPES);
    let v = defs().gen(t, g);
    c.input(&v);
    c.class(t);
    c.nontrivial(v.as_object().is_some_and(|o| o.len() > 2));
    let (want, b) = by_helper(t, &v)?;
    check_block(&b, t, tag, &want, "built")?;
    let b: Block = from_value(v.clone()).map_err(bad(t))?;
    check_block(&b, t, tag, &v, "read")
}

fn text_block(s: &str) -> Value {
    json!({"type": "text", "text": s})
}
fn with_result_type(mut v: Value) -> Value {
    if cfg!(feature = "fam_c") {
        v["resultType"] = json!("complete");
    }
    v
}

#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
fn start(g: &mut G, log: &mut Vec<Value>) -> Result<(Value, m::CallToolResult), Fail> {
    let (t, _) = TYPES[g.idx(TYPES.len())];
    let v = defs().gen(t, g);
    log.push(v.clone());
    let (want, _) = by_helper(t, &v)?;
    let r = match t {
        "TextContent" => {
            let x: m::TextContent = from_value(v.clone()).map_err(bad(t))?;
            m::CallToolResult::text_content(x.text, x.annotations)
        }
        "ImageContent" => {
            let x: m::ImageContent = from_value(v.clone()).map_err(bad(t))?;
            m::CallToolResult::image_content(x.data, x.mime_type, x.annotations)
        }
        #[cfg(feature = "v2025_03_26")]
        "AudioContent" => {
            let x: m::AudioContent = from_value(v.clone()).map_err(bad(t))?;
            m::CallToolResult::audio_content(x.data, x.mime_type, x.annotations)
        }
        _ => {
            let x: m::EmbeddedResource = from_value(v.clone()).map_err(bad(t))?;
            m::CallToolResult::embedded_resource(x.resource, x.annotations)
        }
    };
    Ok((json!({"content": [want]}), r))
}
#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
fn start(g: &mut G, log: &mut Vec<Value>) -> Result<(Value, m::CallToolResult), Fail> {
    let n = g.idx(4);
    let k = g.idx(TYPES.len() + 1);
    let vs: Vec<Value> = (0..n)
        .map(|_| {
            let (t, _) = if k < TYPES.len() { TYPES[k] } else { TYPES[g.idx(TYPES.len())] };
            defs().gen(t, g)
        })
        .collect();
    log.push(json!(vs));
    let all = json!(vs);
    let r = match TYPES.get(k).map(|x| x.0) {
        Some("TextContent") => m::CallToolResult::text_content(from_value(all.clone()).map_err(bad("list"))?),
        Some("ImageContent") => m::CallToolResult::image_content(from_value(all.clone()).map_err(bad("list"))?),
        Some("AudioContent") => m::CallToolResult::audio_content(from_value(all.clone()).map_err(bad("list"))?),
        Some("ResourceLink") => m::CallToolResult::resource_link(from_value(all.clone()).map_err(bad("list"))?),
        Some(_) => m::CallToolResult::embedded_resource(from_value(all.clone()).map_err(bad("list"))?),
        None => m::CallToolResult::from_content(from_value(all.clone()).map_err(bad("list"))?),
    };
    Ok((with_result_type(json!({"content": all})), r))
}

#[cfg(not(feature = "fam_c"))]
fn meta(v: &Map<String, Value>) -> Option<Map<String, Value>> {
    Some(v.clone())
}
#[cfg(feature = "fam_c")]
fn meta(v: &Map<String, Value>) -> Option<m::ResultMetaObject> {
    from_value(json!(v)).ok()
}
#[cfg(not(feature = "fam_c"))]
fn gen_meta(g: &mut G) -> Map<String, Value> {
    jg::any_map(g, 2)
}
#[cfg(feature = "fam_c")]
fn gen_meta(g: &mut G) -> Map<String, Value> {
    defs().gen("ResultMetaObject", g).as_object().unwrap().clone()
}

/// A result grown by a sequence of helper calls against a JSON model of it.
fn results(g: &mut G, c: &mut Ctx) -> Res {
    let mut log = vec![];
    let (mut want, mut r) = if g.chance(1, 5) {
        let s = jg::string(g);
        log.push(json!({"error": s}));
        (with_result_type(json!({"content": [text_block(&s)], "isError": true})), m::CallToolResult::with_error(CallToolError::from_message(s)))
    } else {
        start(g, &mut log)?
    };
    for _ in 0..g.below(5) {
        match g.below(4) {
            0 => {
                let x = gen_meta(g);
                log.push(json!({"with_meta": x}));
                want["_meta"] = json!(x);
                r = r.with_meta(meta(&x));
            }
            1 => {
                log.push(json!("no meta"));
                want.as_object_mut().unwrap().remove("_meta");
                r = r.with_meta(None);
            }
            #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
            2 => {
                let x = jg::any_map(g, 2);
                log.push(json!({"with_structured_content": x}));
                want["structuredContent"] = json!(x);
                r = r.with_structured_content(x);
            }
            #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
            _ => {
                let (t, _) = TYPES[g.idx(TYPES.len())];
                let v = defs().gen(t, g);
                log.push(json!({"add_content": v}));
                let b: Block = from_value(v.clone()).map_err(bad(t))?;
                want["content"].as_array_mut().unwrap().push(v);
                r = r.add_content(b);
            }
            #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
            _ => {}
        }
    }
    c.input(&json!(log));
    c.class(format!("{} steps", log.len()));
    c.nontrivial(log.len() > 1);
    same(&want, &js(&r), "tool result")?;
    // and it is a tool result for whoever reads it
    let again: m::CallToolResult = from_value(js(&r)).map_err(|e| Fail { sig: "tool result unreadable".into(), msg: format!("{e}: {}", js(&r)) })?;
    same(&want, &js(&again), "tool result read back")
}

/// An error with the errors that caused it.
#[derive(Debug)]
struct Chain(String, Option<Box<Chain>>);
impl std::fmt::Display for Chain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Error for Chain {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.1.as_ref().map(|c| c.as_ref() as &(dyn Error + 'static))
    }
}

fn chain(texts: &[String]) -> Option<Box<Chain>> {
    texts.split_first().map(|(a, rest)| Box::new(Chain(a.clone(), chain(rest))))
}

fn errors(g: &mut G, c: &mut Ctx) -> Res {
    let (a, b) = (jg::string(g), jg::string(g));
    let causes: Vec<String> = (0..1 + g.idx(4)).map(|_| jg::string(g)).collect();
    let kind = (c.index % 6) as usize;
    let some = g.chance(1, 2);
    let pad = g.chance(1, 2);
    let tool = if pad { format!(" \t{a}\n ") } else { a.clone() };
    let tool = if g.chance(1, 6) { " ".repeat(g.idx(3)) } else { tool };
    c.input(&json!([kind, tool, b, some, causes]));
    c.nontrivial(true);
    let make = || match kind {
        0 => CallToolError::new(Chain(a.clone(), chain(&causes))),
        1 => CallToolError::new(Chain(a.clone(), None)),
        2 => CallToolError::unknown_tool(a.clone()),
        3 => CallToolError::invalid_arguments(&tool, some.then(|| b.clone())),
        4 => CallToolError::from_message(a.clone()),
        #[cfg(not(feature = "fam_a"))]
        _ => CallToolError::unsupported_task_augmented_tool_call(),
        #[cfg(feature = "fam_a")]
        _ => CallToolError::from_message(a.as_str()),
    };
    c.class(["error with a cause", "error", "unknown tool", "invalid arguments", "message", "other"][kind]);
    let e = make();
    let shown = e.to_string();
    match kind {
        0 | 1 | 4 => ensure(shown == a, "tool error text", || format!("{shown:?} for {a:?}"))?,
        2 => ensure(shown == format!("Unknown tool: {a}"), "unknown tool text", || format!("{shown:?} for {a:?}"))?,
        3 => {
            let t = tool.trim();
            if t.is_empty() {
                ensure(!shown.is_empty() && !shown.contains("''"), "invalid arguments without a tool", || shown.clone())?;
            } else {
                ensure(shown.contains(&format!("'{t}'")), "invalid arguments: tool name", || format!("{shown:?} for {t:?}"))?;
                ensure(!some || shown.ends_with(&b), "invalid arguments: details", || format!("{shown:?} for {b:?}"))?;
            }
        }
        #[cfg(feature = "fam_a")]
        _ => ensure(shown == a, "tool error text", || format!("{shown:?} for {a:?}"))?,
        #[cfg(not(feature = "fam_a"))]
        _ => ensure(shown.to_lowercase().contains("task"), "unsupported task text", || shown.clone())?,
    }
    let mut found = Vec::new();
    let mut next = e.source();
    while let Some(cause) = next {
        found.push(cause.to_string());
        next = cause.source();
    }
    let wanted: &[String] = if kind == 0 { &causes } else { &[] };
    ensure(found == wanted, "tool error causes", || format!("{found:?} for {wanted:?}"))?;
    if kind < 2 {
        ensure(e.0.downcast_ref::<Chain>().is_some_and(|c| c.0 == a), "tool error is the error given", || format!("{e:?}"))?;
    }
    // a protocol error and a failed tool result say the same
    let rpc = m::RpcError::from(e);
    same(&json!({"code": -32603, "message": shown}), &js(&rpc), "tool error as protocol error")?;
    let want = with_result_type(json!({"content": [text_block(&shown)], "isError": true}));
    same(&want, &js(&m::CallToolResult::from(make())), "tool error as result")?;
    same(&want, &js(&m::CallToolResult::with_error(make())), "tool result with error")
}

/// Reading a call: its tool and its text.
fn calls(g: &mut G, c: &mut Ctx) -> Res {
    let v = defs().gen("CallToolRequest", g);
    c.input(&v);
    c.nontrivial(v["params"].get("arguments").is_some());
    let r: m::CallToolRequest = from_value(v.clone()).map_err(bad("CallToolRequest"))?;
    ensure(json!(r.tool_name()) == v["params"]["name"], "tool name", || format!("{} for {}", r.tool_name(), jg::short(&v)))?;
    #[cfg(not(feature = "fam_a"))]
    {
        let v = defs().gen("ElicitRequestParams", g);
        let p: m::ElicitRequestParams = from_value(v.clone()).map_err(bad("ElicitRequestParams"))?;
        ensure(json!(p.message()) == v["message"], "question text", || jg::short(&v))?;
    }
    let s = jg::string(g);
    same(&text_block(&s), &js(&m::TextContent::from(s.as_str())), "text from a string")?;
    same(&text_block(&s), &js(&m::TextContent::from(s.clone())), "text from a string")
}

#[cfg(not(feature = "fam_a"))]
fn contents(g: &mut G, c: &mut Ctx) -> Res {
    let text = c.index % 2 == 0;
    let (a, b) = (jg::string(g), jg::string(g));
    let mut want = json!({"uri": b});
    want[if text { "text" } else { "blob" }] = json!(a);
    let mut log = vec![want.clone()];
    enum X {
        T(m::TextResourceContents),
        B(m::BlobResourceContents),
    }
    let mut x = if text { X::T(m::TextResourceContents::new(a, b)) } else { X::B(m::BlobResourceContents::new(a, b)) };
    for _ in 0..g.below(5) {
        let s = jg::string(g);
        match g.below(3) {
            0 => {
                #[cfg(feature = "fam_b")]
                let v = json!(jg::any_map(g, 2));
                #[cfg(feature = "fam_c")]
                let v = defs().gen("MetaObject", g);
                log.push(v.clone());
                want["_meta"] = v.clone();
                x = match x {
                    X::T(t) => X::T(t.with_meta(from_value(v).map_err(bad("meta"))?)),
                    X::B(t) => X::B(t.with_meta(from_value(v).map_err(bad("meta"))?)),
                };
            }
            1 => {
                log.push(json!({"mime": s}));
                want["mimeType"] = json!(s);
                x = match x {
                    X::T(t) => X::T(t.with_mime_type(s)),
                    X::B(t) => X::B(t.with_mime_type(s)),
                };
            }
            _ => {
                log.push(json!({"uri": s}));
                want["uri"] = json!(s);
                x = match x {
                    X::T(t) => X::T(t.with_uri(s)),
                    X::B(t) => X::B(t.with_uri(s)),
                };
            }
        }
    }
    c.input(&json!(log));
    c.class(if text { "text" } else { "blob" });
    c.nontrivial(log.len() > 1);
    let (own, held) = match x {
        X::T(t) => (js(&t), js(&m::EmbeddedResourceResource::from(t))),
        X::B(t) => (js(&t), js(&m::EmbeddedResourceResource::from(t))),
    };
    same(&want, &own, "resource contents")?;
    same(&want, &held, "resource contents held")
}

#[cfg(feature = "fam_b")]
fn elicited(g: &mut G, c: &mut Ctx) -> Res {
    let s = jg::string(g);
    let n = jg::int(g);
    let l: Vec<String> = (0..g.idx(4)).map(|_| jg::string(g)).collect();
    c.input(&json!([s, n, l]));
    c.nontrivial(true);
    use m::{ElicitResultContent as C, ElicitResultContentPrimitive as P};
    same(&json!(s), &js(&C::from(s.as_str())), "text value")?;
    same(&json!(s), &js(&C::from(s.clone())), "text value")?;
    same(&json!(s), &js(&P::from(s.as_str())), "text value")?;
    same(&json!(s), &js(&P::from(s.clone())), "text value")?;
    same(&json!(n), &js(&C::from(n)), "number value")?;
    same(&json!(n), &js(&P::from(n)), "number value")?;
    same(&json!(l), &js(&C::from(l.iter().map(|x| x.as_str()).collect::<Vec<&str>>())), "list value")?;
    same(&json!(l), &js(&C::from(l.clone())), "list value")
}
