//! Reading is total, deterministic and independent of layout (P18); unknown members are tolerated (P20).
use crate::api;
use crate::engine::*;
use crate::jsongen as jg;
use crate::props::messages::declare;
use crate::schema::{defs, odd_names, odd_words, spellings};
use crate::tape::G;
use crate::types::{TypeEntry, TYPES};
use crate::wiregen as wg;
use serde_json::{json, Map, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P18", name: "any-value", quick: 40_000, thorough: 1_500_000, run: any_value });
    v.push(Sub { prop: "P18", name: "any-text", quick: 20_000, thorough: 800_000, run: any_text });
    v.push(Sub { prop: "P18", name: "any-message", quick: 20_000, thorough: 800_000, run: any_message });
    v.push(Sub { prop: "P18", name: "layout", quick: 20_000, thorough: 600_000, run: layout });
    v.push(Sub { prop: "P18", name: "message-layout", quick: 15_000, thorough: 500_000, run: message_layout });
    v.push(Sub { prop: "P18", name: "faulty-streams", quick: 12_000, thorough: 300_000, run: faulty });
    v.push(Sub { prop: "P18", name: "shown-to-sinks", quick: 6_000, thorough: 200_000, run: shown });
    v.push(Sub { prop: "P20", name: "types", quick: 40_000, thorough: 1_000_000, run: unknown });
    v.push(Sub { prop: "P20", name: "messages", quick: 20_000, thorough: 600_000, run: unknown_messages });
}

/// A full sink or a lost connection is an error, never a success and never a crash.
fn faulty(g: &mut G, c: &mut Ctx) -> Res {
    use crate::types::{lost, sink};
    type Probe = (String, fn(&Value, usize) -> Result<(Vec<u8>, bool), String>, fn(&[u8]) -> bool);
    let (name, v, (at, write, read)): (String, Value, (String, _, _)) = if g.chance(1, 2) {
        let t = c.row(TYPES);
        (t.name.into(), defs().gen(t.name, g), (t.name.to_string(), t.sink, t.lost))
    } else {
        let side = wg::side(g);
        let m = wg::message(defs(), side, g);
        use crate::u;
        let probe: Probe = match side {
            api::Side::Client => ("client message".into(), sink::<u::ClientMessage>, lost::<u::ClientMessage>),
            api::Side::Server => ("server message".into(), sink::<u::ServerMessage>, lost::<u::ServerMessage>),
        };
        (m.ty, m.wire, probe)
    };
    let (all, ok) = write(&v, usize::MAX).map_err(|e| Fail { sig: format!("{at} rejected"), msg: format!("{e}: {}", jg::short(&v)) })?;
    ensure(ok, format!("{at}: writing fails"), || jg::short(&v))?;
    let text = String::from_utf8_lossy(&all).to_string();
    let room = if all.is_empty() { 0 } else { g.idx(all.len()) };
    c.input(&json!({"type": name, "value": v, "bytes": room}));
    c.class(if room == 0 { "no room" } else { "some room" });
    c.nontrivial(room > 0);
    let (_, ok) = write(&v, room).map_err(|e| Fail { sig: format!("{at} rejected"), msg: e })?;
    ensure(!ok, format!("{at}: a full sink goes unreported"), || format!("{room} of {} bytes of {text}", all.len()))?;
    // numbers standing alone may be cut into shorter numbers, but a lost connection is still no end of input
    ensure(!read(&all[..room]), format!("{at}: a lost connection goes unreported"), || format!("{room} bytes of {text}"))
}

/// A text sink that takes so many bytes and then fails.
struct Page {
    left: usize,
    taken: String,
}
impl std::fmt::Write for Page {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut n = s.len().min(self.left);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.left -= n;
        self.taken.push_str(&s[..n]);
        if n < s.len() {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

type Shown = Vec<(&'static str, Box<dyn std::fmt::Display>)>;

/// Everything that can be shown and is read from a message, or made of a text.
fn show_message(side: api::Side, kind: usize, v: &Value) -> Shown {
    use crate::u;
    let mut out: Shown = vec![];
    macro_rules! from {
        ($($t:ty),*) => {{$(
            if let Ok(x) = serde_json::from_value::<$t>(v.clone()) {
                out.push((stringify!($t), Box::new(x)));
            }
        )*}};
    }
    match (side, kind) {
        (api::Side::Client, 0) => from!(u::ClientMessage, u::ClientMessages, u::ClientJsonrpcRequest),
        (api::Side::Client, 1) => from!(u::ClientMessage, u::ClientMessages, u::ClientJsonrpcNotification),
        (api::Side::Client, 2) => from!(u::ClientMessage, u::ClientMessages, u::ClientJsonrpcResponse),
        (api::Side::Client, _) => from!(u::ClientMessage, u::ClientMessages, api::ErrorMessage),
        (api::Side::Server, 0) => from!(u::ServerMessage, u::ServerMessages, u::ServerJsonrpcRequest),
        (api::Side::Server, 1) => from!(u::ServerMessage, u::ServerMessages, u::ServerJsonrpcNotification),
        (api::Side::Server, 2) => from!(u::ServerMessage, u::ServerMessages, u::ServerJsonrpcResponse),
        (api::Side::Server, _) => from!(u::ServerMessage, u::ServerMessages, api::ErrorMessage),
    }
    out
}

fn show_batch(side: api::Side, v: Vec<Value>) -> Shown {
    use crate::u;
    match side {
        api::Side::Client => serde_json::from_value::<Vec<u::ClientMessage>>(json!(v))
            .map(|x| vec![("u::ClientMessages", Box::new(u::ClientMessages::from(x)) as Box<dyn std::fmt::Display>)]),
        api::Side::Server => serde_json::from_value::<Vec<u::ServerMessage>>(json!(v))
            .map(|x| vec![("u::ServerMessages", Box::new(u::ServerMessages::from(x)) as Box<dyn std::fmt::Display>)]),
    }
    .unwrap_or_default()
}

fn show_small(s: &str, id: &Value, data: Option<Value>) -> Shown {
    use crate::u;
    let mut out: Shown = vec![
        ("RpcError", Box::new(crate::m::RpcError::internal_error().with_message(s.to_string()).with_data(data))),
        ("SdkError", Box::new(u::SdkError::bad_request().with_message(s))),
        ("CallToolError", Box::new(u::CallToolError::from_message(s.to_string()))),
        ("UnknownTool", Box::new(u::UnknownTool(s.to_string()))),
    ];
    if let Ok(x) = serde_json::from_value::<crate::m::RequestId>(id.clone()) {
        out.push(("RequestId", Box::new(x)));
    }
    if let Err(e) = rust_mcp_schema::ProtocolVersion::try_from(s) {
        out.push(("ParseProtocolVersionError", Box::new(e)));
    }
    out
}

/// Whatever can be shown is shown whole, or the failure of the sink is reported.
fn shown(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let (input, all) = match g.below(4) {
        0 => {
            let (s, id) = (jg::string(g), wg::id(g));
            let all = show_small(&s, &id, g.chance(1, 2).then(|| json!(s)));
            (json!({"text": s, "id": id}), all)
        }
        1 => {
            let v: Vec<Value> = (0..g.below(4)).map(|_| wg::message(defs(), side, g).wire).collect();
            (json!({"side": format!("{side:?}"), "batch": v}), show_batch(side, v.clone()))
        }
        _ => {
            let m = wg::message(defs(), side, g);
            let all = show_message(side, m.kind, &m.wire);
            (json!({"side": format!("{side:?}"), "message": m.wire}), all)
        }
    };
    let part = g.below(1 << 20) as usize;
    c.input(&json!({"of": input, "part": part}));
    c.nontrivial(!all.is_empty());
    for (what, x) in all {
        c.class(what);
        let text = x.to_string();
        for room in [0, 1, part % text.len().max(1), text.len().saturating_sub(1), text.len()] {
            if room > text.len() {
                continue;
            }
            let mut page = Page { left: room, taken: String::new() };
            let ok = std::fmt::write(&mut page, format_args!("{x}")).is_ok();
            ensure(ok == (room == text.len()), format!("{what}: a full text sink goes unreported"), || format!("{room} of {} bytes of {text}", text.len()))?;
            ensure(text.starts_with(&page.taken), format!("{what}: shown otherwise to a sink"), || format!("{} for {text}", page.taken))?;
            ensure(!ok || page.taken == text, format!("{what}: shown in part"), || format!("{} for {text}", page.taken))?;
        }
    }
    Ok(())
}

/// Changes a value at random places, ending up valid or not.
pub fn disturb(v: &mut Value, g: &mut G, n: u64) {
    for _ in 0..n {
        // walk to a random place
        let mut path = String::new();
        loop {
            let down = g.chance(2, 3);
            match v.pointer(&path).unwrap() {
                Value::Object(m) if down && !m.is_empty() => {
                    let k = m.keys().nth(g.idx(m.len())).unwrap();
                    path = format!("{path}/{}", k.replace('~', "~0").replace('/', "~1"));
                }
                Value::Array(a) if down && !a.is_empty() => path = format!("{path}/{}", g.idx(a.len())),
                _ => break,
            }
        }
        let cur = v.pointer_mut(&path).unwrap();
        match (g.below(6), &mut *cur) {
            (0, Value::Object(m)) if !m.is_empty() => {
                let k = m.keys().nth(g.idx(m.len())).unwrap().clone();
                m.remove(&k);
            }
            (1, Value::Object(m)) => {
                m.insert(jg::ident(g), jg::any(g, 1));
            }
            (2, Value::Object(m)) if !m.is_empty() => {
                // move a member to another name
                let k = m.keys().nth(g.idx(m.len())).unwrap().clone();
                let x = m.remove(&k).unwrap();
                let other = m.keys().next().cloned().unwrap_or_else(|| jg::ident(g));
                m.insert(other, x);
            }
            (3, Value::Array(a)) => {
                let x = jg::any(g, 1);
                a.push(x);
            }
            (4, c) => *c = Value::Null,
            (_, c) => {
                let x = jg::any(g, 2);
                *c = x;
            }
        }
    }
}

/// Equal, floats up to the last digits (how the JSON library reads decimal text is not under test).
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || (x - y).abs() <= 1e-12 * x.abs()
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| alike(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| alike(v, w))),
        _ => a == b,
    }
}

fn value_for(t: &TypeEntry, g: &mut G, c: &mut Ctx) -> Value {
    match g.below(8) {
        0 => {
            c.class("arbitrary");
            jg::any(g, 3)
        }
        1 => {
            c.class("another type's value");
            let o = g.pick(TYPES);
            defs().gen(o.name, g)
        }
        2 => {
            c.class("members of two types");
            let mut a = defs().gen(t.name, g);
            let o = g.pick(TYPES);
            let b = defs().gen(o.name, g);
            if let (Value::Object(x), Value::Object(y)) = (&mut a, b) {
                for (k, v) in y {
                    if !x.contains_key(&k) || g.chance(1, 2) {
                        x.insert(k, v);
                    }
                }
            }
            a
        }
        3 => {
            c.class("valid");
            defs().gen(t.name, g)
        }
        _ => {
            c.class("disturbed");
            let mut v = defs().gen(t.name, g);
            let n = 1 + g.below(3);
            disturb(&mut v, g, n);
            v
        }
    }
}

fn parse(s: &[u8], at: &str) -> Result<Value, Fail> {
    serde_json::from_slice(s).map_err(|e| Fail { sig: format!("{at}: writes invalid JSON"), msg: format!("{e}: {}", String::from_utf8_lossy(s)) })
}

/// Every way of reading `v` gives the same answer, and what is written reads back as written.
fn check_all(t: &TypeEntry, v: &Value, text: &str, c: &mut Ctx) -> Res {
    let at = t.name;
    let a = (t.rt)(v);
    let b = (t.rt_str)(text);
    let s = (t.rt_slice)(text.as_bytes());
    let r = (t.rt_reader)(text.as_bytes());
    for (how, ok) in [("text", b.is_ok()), ("bytes", s.is_ok()), ("a reader", r.is_ok())] {
        ensure(ok == a.is_ok(), format!("{at}: value and {how} disagree"), || {
            format!("value {:?}, text {:?}, bytes {:?}, reader {:?} for {}", a.as_ref().err(), b.as_ref().err(), s.as_ref().err(), r.as_ref().err(), jg::short(v))
        })?;
    }
    let Ok(w) = a else {
        c.class("refused");
        return Ok(());
    };
    c.class("accepted");
    for (how, x) in [("text", parse(b.unwrap().as_bytes(), at)?), ("bytes", parse(&s.unwrap(), at)?), ("reader", parse(r.unwrap().as_bytes(), at)?)] {
        ensure(alike(&x, &w), format!("{at}: read through {how} differs"), || format!("{} and {}", jg::short(&w), jg::short(&x)))?;
    }
    match (t.rt)(&w) {
        Err(e) => fail(format!("{at}: own output refused"), format!("{e}: {} written for {}", jg::short(&w), jg::short(v))),
        Ok(x) => same(&w, &x, &format!("{at}: second writing")),
    }
}

fn any_value(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let v = value_for(t, g, c);
    c.input(&json!({"type": t.name, "value": v}));
    c.nontrivial(v.is_object() || v.is_array());
    check_all(t, &v, &v.to_string(), c)
}

/// Valid values and messages with text-level damage: no panic, and text and bytes agree.
fn any_text(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let base = if g.chance(1, 6) { jg::string(g) } else { value_for(t, g, c).to_string() };
    let mut b: Vec<u8> = base.into_bytes();
    let mut damage = |g: &mut G| {
        let i = g.idx(b.len().max(1));
        match g.below(8) {
            0 => b.truncate(i),
            1 if i < b.len() => {
                b.remove(i);
            }
            2 if i < b.len() => b[i] = g.below(256) as u8,
            3 if i < b.len() => b[i] ^= 1 << g.below(8),
            4 => {
                // repeat a slice (duplicate members, doubled values)
                let j = (i + g.idx(20)).min(b.len());
                let part: Vec<u8> = b[i.min(j)..j].to_vec();
                b.splice(j..j, part);
            }
            5 => {
                let x: &[u8] = g.pick(&[&b"1e999"[..], b"-0", b"1.0", b"18446744073709551616", b"\\ud800", b"\xff", b"\xc3", b"null", b"{}", b"[[[[", b"-9223372036854775809", b"0.1e1"]);
                let at = i.min(b.len());
                b.splice(at..at, x.iter().copied());
            }
            6 => b.extend_from_slice(b"  ]"),
            _ => {
                let at = i.min(b.len());
                b.insert(at, g.below(128) as u8);
            }
        }
    };
    for _ in 0..=g.below(2) {
        damage(g);
    }
    if g.chance(1, 40) {
        let depth = 1 + g.idx(300);
        b = [vec![b'['; depth], b, vec![b']'; depth]].concat();
    }
    let shown = String::from_utf8_lossy(&b).to_string();
    c.input(&json!({"type": t.name, "bytes": shown}));
    c.nontrivial(true);
    let s = (t.rt_slice)(&b);
    let r = (t.rt_reader)(&b);
    ensure(s.is_ok() == r.is_ok(), format!("{}: bytes and reader disagree", t.name), || format!("{:?} {:?} for {shown}", s.as_ref().err(), r.as_ref().err()))?;
    if let Ok(text) = std::str::from_utf8(&b) {
        let a = (t.rt_str)(text);
        ensure(s.is_ok() == a.is_ok(), format!("{}: bytes and text disagree", t.name), || format!("{:?} {:?} for {shown}", s.as_ref().err(), a.as_ref().err()))?;
        if let (Ok(x), Ok(y)) = (&s, &a) {
            ensure(x == y.as_bytes(), format!("{}: bytes and text read differently", t.name), || shown.clone())?;
        }
    } else {
        c.class("not UTF-8");
    }
    if let Ok(x) = s {
        c.class("accepted");
        parse(&x, t.name)?;
    }
    Ok(())
}

/// Arbitrary and disturbed messages: no panic anywhere in reading, inspecting and writing them.
fn any_message(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let side = wg::side(g);
    let mut v = match g.below(6) {
        0 => {
            let mut v = json!({});
            for k in ["jsonrpc", "id", "method", "params", "result", "error"] {
                if g.chance(1, 2) {
                    let x = jg::any(g, 2);
                    v[k] = x;
                }
            }
            v
        }
        1 => jg::any(g, 3),
        _ => {
            let other = wg::side(g);
            wg::message(d, other, g).wire
        }
    };
    let n = g.below(4);
    disturb(&mut v, g, n);
    if v.is_object() && g.chance(1, 4) {
        // members of two kinds at once
        let s2 = wg::side(g);
        let o = wg::message(d, s2, g).wire;
        for (k, x) in o.as_object().unwrap() {
            if v.get(k).is_none() {
                v[k] = x.clone();
            }
        }
    }
    c.input(&json!({"side": format!("{side:?}"), "wire": v}));
    c.nontrivial(v.is_object());
    let a = api::parse(side, &v);
    let b = api::parse_str(side, &v.to_string());
    ensure(a.is_ok() == b.is_ok(), format!("{side:?}: value and text disagree"), || format!("{:?} {:?} for {}", a.as_ref().err(), b.as_ref().err(), jg::short(&v)))?;
    let (Ok(a), Ok(b)) = (a, b) else {
        c.class("refused");
        return Ok(());
    };
    c.class("accepted");
    let at = format!("{side:?} {}", a.message_type);
    ensure(alike(&a.wire, &b.wire) && a.variant == b.variant && a.id == b.id && a.flags == b.flags, format!("{at}: value and text read differently"), || {
        format!("{} and {}", jg::short(&a.wire), jg::short(&b.wire))
    })?;
    // exactly one kind, whatever was accepted
    ensure(a.flags.iter().filter(|x| **x).count() == 1, format!("{at}: not exactly one kind"), || format!("{:?} for {}", a.flags, jg::short(&v)))?;
    // the marker, the id and the kind survive writing and reading again
    let again = api::parse(side, &a.wire).map_err(|e| Fail { sig: format!("{at}: own output refused"), msg: format!("{e}: {} for {}", jg::short(&a.wire), jg::short(&v)) })?;
    if cfg!(feature = "fam_a") && a.variant == "custom" {
        return ensure(again.flags == a.flags && again.id == a.id, format!("{at}: own output is another kind"), || {
            format!("{:?} {:?} then {:?} {:?}", a.flags, a.id, again.flags, again.id)
        }); // recorded finding of P04: params are nested on writing
    }
    ensure(again.flags == a.flags && again.id == a.id && again.variant == a.variant, format!("{at}: own output reads differently"), || {
        format!("{:?} {} then {:?} {} for {}", a.flags, a.variant, again.flags, again.variant, jg::short(&v))
    })?;
    same(&a.wire, &again.wire, &format!("{at}: second writing"))
}

/// JSON text with members in a random order, random white space and random escapes.
fn scramble(v: &Value, g: &mut G, out: &mut String) {
    let ws = |g: &mut G, out: &mut String| {
        if g.chance(1, 4) {
            out.push_str(g.pick(&[" ", "\n", "\t", "\r\n  "]));
        }
    };
    ws(g, out);
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                scramble(x, g, out);
            }
            out.push(']');
        }
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            for i in (1..ks.len()).rev() {
                let j = g.idx(i + 1);
                ks.swap(i, j);
            }
            out.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(g, out);
                escape(k, g, out);
                ws(g, out);
                out.push(':');
                scramble(&m[*k], g, out);
            }
            out.push('}');
        }
        Value::String(s) => escape(s, g, out),
        o => out.push_str(&o.to_string()),
    }
    ws(g, out);
}
fn escape(s: &str, g: &mut G, out: &mut String) {
    let all = g.chance(1, 4);
    out.push('"');
    for ch in s.chars() {
        if all || ch < ' ' || ch == '"' || ch == '\\' {
            let mut b = [0u16; 2];
            for u in ch.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            out.push(ch);
        }
    }
    out.push('"');
}

fn layout(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let v = if g.chance(1, 3) { value_for(t, g, c) } else { defs().gen(t.name, g) };
    let mut text = String::new();
    scramble(&v, g, &mut text);
    c.input(&json!({"type": t.name, "text": text}));
    c.nontrivial(v.as_object().is_some_and(|m| m.len() >= 2) || v.is_array());
    check_all(t, &v, &text, c)
}

fn message_layout(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let m = wg::message(defs(), side, g);
    let mut text = String::new();
    scramble(&m.wire, g, &mut text);
    c.input(&json!({"side": format!("{side:?}"), "type": m.ty, "text": text}));
    c.nontrivial(true);
    let at = format!("{side:?} {}", m.ty);
    let a = api::parse(side, &m.wire).map_err(|e| Fail { sig: format!("{at}: rejected"), msg: format!("{e}: {text}") })?;
    let b = api::parse_str(side, &text).map_err(|e| Fail { sig: format!("{at}: layout rejected"), msg: format!("{e}: {text}") })?;
    ensure(alike(&a.wire, &b.wire) && a.variant == b.variant && a.id == b.id && a.methods == b.methods, format!("{at}: layout changes the message"), || {
        format!("{} and {} for {text}", jg::short(&a.wire), jg::short(&b.wire))
    })
}

/// Adds unknown members to objects anywhere in the value; returns how many.
fn salt(v: &mut Value, g: &mut G, top: bool, is_top: bool) -> u32 {
    let mut n = 0;
    match v {
        Value::Object(m) => {
            for x in m.values_mut() {
                n += salt(x, g, top, false);
            }
            if (!is_top || top) && g.chance(1, 3) {
                let near: Vec<String> = m.keys().flat_map(|k| spellings(k).into_iter().map(move |s| (k, s))).filter(|(_, s)| defs().is_odd(s)).map(|(k, _)| k.clone()).collect();
                let (words, hot) = odd_words();
                let (k, x) = match g.below(5) {
                    // a word of the source: should it be taken for a member's name, its value matters
                    4 if !words.is_empty() => {
                        let w = if !hot.is_empty() && g.chance(2, 3) { g.pick(hot) } else { g.pick(words) };
                        let x = match g.below(3) {
                            0 if !m.is_empty() => m.values().nth(g.idx(m.len())).cloned().unwrap(),
                            1 => json!(jg::string(g)),
                            _ => whole(jg::any(g, 2)),
                        };
                        (w.clone(), x)
                    }
                    0 => (g.pick(odd_names()).clone(), whole(jg::any(g, 2))),
                    1 if !near.is_empty() => {
                        // a member beside one of almost the same name
                        let own = g.pick(&near).clone();
                        let odd: Vec<String> = spellings(&own).into_iter().filter(|s| defs().is_odd(s)).collect();
                        (g.pick(&odd).clone(), if g.chance(1, 2) { m[&own].clone() } else { whole(jg::any(g, 2)) })
                    }
                    _ => (g.pick(&["zzUnknown", "zz-next", "zz_future", "zz.dotted/name"]).to_string(), whole(jg::any(g, 2))),
                };
                m.insert(k, x);
                n += 1;
            }
        }
        Value::Array(a) => {
            for x in a {
                n += salt(x, g, top, false);
            }
        }
        _ => {}
    }
    n
}
/// Whole floats become integers (whether 1.0 passes for an integer is not under test).
fn whole(v: Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() && n.as_f64().unwrap().fract() == 0.0 => json!(n.as_f64().unwrap() as i64),
        Value::Array(a) => Value::Array(a.into_iter().map(whole).collect()),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k, whole(v))).collect()),
        o => o,
    }
}
/// Salts a value so that its schema still accepts it (maps may fix the type of their members).
fn salted(plain: &Value, g: &mut G, top: bool, fits: &dyn Fn(&Value) -> bool) -> (Value, u32) {
    for _ in 0..4 {
        let mut v = plain.clone();
        let n = salt(&mut v, g, top, true);
        if fits(&v) {
            return (v, n);
        }
    }
    (plain.clone(), 0)
}
/// Removes the unknown members again.
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            Value::Object(m.iter().filter(|(k, _)| !defs().is_odd(k)).map(|(k, v)| (k.clone(), strip(v))).collect::<Map<_, _>>())
        }
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        o => o.clone(),
    }
}

fn unknown(g: &mut G, c: &mut Ctx) -> Res {
    let t = c.row(TYPES);
    let plain = strip(&defs().gen(t.name, g));
    let (v, n) = salted(&plain, g, true, &|v| {
        // a result marked as input-required is read as exactly that
        let marked = t.name == "ServerResult" && cfg!(feature = "fam_c") && v["resultType"] == "input_required";
        defs().valid_name(if marked { "InputRequiredResult" } else { t.name }, v)
    });
    c.input(&json!({"type": t.name, "value": v}));
    c.nontrivial(n > 0);
    c.class(format!("{} unknown members", n.min(5)));
    let want = (t.rt)(&plain).map_err(|e| Fail { sig: format!("{} rejected", t.name), msg: format!("{e}: {}", jg::short(&plain)) })?;
    let got = (t.rt)(&v).map_err(|e| Fail { sig: format!("{} with unknown members rejected", t.name), msg: format!("{e}: {}", jg::short(&v)) })?;
    same(&strip(&want), &strip(&got), &format!("{} with unknown members", t.name))
}

fn unknown_messages(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let mut m = wg::message(defs(), side, g);
    m.wire = strip(&m.wire);
    let plain = m.wire.clone();
    let fits = |v: &Value| match m.kind {
        _ if m.ty == "custom" || m.ty == "error" => true,
        2 => defs().valid_name(&m.ty, &v["result"]),
        _ => defs().valid_name(&m.ty, v),
    };
    let (wire, n) = salted(&plain, g, false, &fits);
    m.wire = wire;
    declare(c, &m);
    c.nontrivial(n > 0);
    let at = format!("{side:?} {}", m.ty);
    let a = api::parse(side, &plain).map_err(|e| Fail { sig: format!("{at}: rejected"), msg: format!("{e}: {}", jg::short(&plain)) })?;
    let b = api::parse(side, &m.wire)
        .map_err(|e| Fail { sig: format!("{at}: with unknown members rejected"), msg: format!("{e}: {}", jg::short(&m.wire)) })?;
    ensure(a.variant == b.variant && a.id == b.id && a.flags == b.flags && a.methods == b.methods, format!("{at}: unknown members change the message"), || {
        format!("{} and {} for {}", a.variant, b.variant, jg::short(&m.wire))
    })?;
    same(&strip(&a.wire), &strip(&b.wire), &format!("{at}: with unknown members"))
}
