//! Whole messages: classification (P03), dispatch (P04), text form (P05).
use crate::api::{self, Parsed, Side, KINDS};
use crate::engine::*;
use crate::glue::{UnionType, UNIONS};
use crate::jsongen as jg;
use crate::schema::defs;
use crate::tape::G;
use crate::wiregen::{self as wg, Msg};
use serde_json::{json, Value};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P03", name: "classify", quick: 40_000, thorough: 1_000_000, run: classify });
    v.push(Sub { prop: "P03", name: "union-methods", quick: 10_000, thorough: 250_000, run: union_methods });
    v.push(Sub { prop: "P04", name: "standard", quick: 30_000, thorough: 800_000, run: standard });
    v.push(Sub { prop: "P04", name: "custom", quick: 20_000, thorough: 500_000, run: custom });
    v.push(Sub { prop: "P04", name: "results", quick: 20_000, thorough: 500_000, run: result_dispatch });
    v.push(Sub { prop: "P04", name: "unions", quick: 25_000, thorough: 600_000, run: unions });
}

pub fn declare(c: &mut Ctx, m: &Msg) {
    c.input(&json!({"side": format!("{:?}", m.side), "type": m.ty, "wire": m.wire}));
    c.class(format!("{:?} {}", m.side, KINDS[m.kind]));
}

fn parse(m: &Msg) -> Result<Parsed, Fail> {
    api::parse(m.side, &m.wire).map_err(|e| Fail {
        sig: format!("{:?} {} {} rejected", m.side, KINDS[m.kind], m.ty),
        msg: format!("{} rejected: {e}", jg::short(&m.wire)),
    })
}

fn classify(g: &mut G, c: &mut Ctx) -> Res {
    let side = wg::side(g);
    let m = wg::message(defs(), side, g);
    declare(c, &m);
    c.nontrivial(true);
    let p = parse(&m)?;
    let at = format!("{:?} {}", m.side, KINDS[m.kind]);
    for k in 0..4 {
        let want = k == m.kind;
        ensure(p.flags[k] == want, format!("{at}: is_{}", KINDS[k]), || format!("is_{} = {} for {}", KINDS[k], p.flags[k], jg::short(&m.wire)))?;
        ensure(p.as_ok[k] == want, format!("{at}: as_{}", KINDS[k]), || format!("as_{} ok = {} for {}", KINDS[k], p.as_ok[k], jg::short(&m.wire)))?;
    }
    ensure(p.message_type == KINDS[m.kind], format!("{at}: message_type"), || format!("{} for {}", p.message_type, jg::short(&m.wire)))?;
    ensure(p.id == m.id, format!("{at}: request id"), || format!("reported id {:?}, wire {}", p.id, jg::short(&m.wire)))?;
    ensure(p.request_id.is_none() || p.request_id == m.id, format!("{at}: id of the request alone"), || {
        format!("reported id {:?}, wire {}", p.request_id, jg::short(&m.wire))
    })?;
    ensure(p.jsonrpc == "2.0", format!("{at}: jsonrpc"), || p.jsonrpc.clone())?;
    ensure(p.as_wire.as_ref() == Some(&p.wire), format!("{at}: as_ changes content"), || format!("{:?} vs {}", p.as_wire, jg::short(&p.wire)))?;
    for x in &p.methods {
        ensure(Some(x) == m.method.as_ref(), format!("{at}: method accessor"), || format!("{x} for {}", jg::short(&m.wire)))?;
    }
    let init = m.kind == 0 && m.ty == "InitializeRequest";
    let inited = m.kind == 1 && m.ty == "InitializedNotification";
    ensure(p.init_request.iter().all(|x| *x == init), format!("{at}: initialize test"), || jg::short(&m.wire))?;
    ensure(p.initialized.iter().all(|x| *x == inited), format!("{at}: initialized test"), || jg::short(&m.wire))?;
    Ok(())
}

/// The unions of standard messages name the method they carry.
fn union_methods(g: &mut G, c: &mut Ctx) -> Res {
    use crate::m;
    #[cfg(not(feature = "fam_c"))]
    const KINDS: [&str; 4] = ["ClientRequest", "ServerNotification", "ClientNotification", "ServerRequest"];
    #[cfg(feature = "fam_c")]
    const KINDS: [&str; 2] = ["ClientRequest", "ServerNotification"];
    let kind = *c.row(&KINDS);
    let side = if kind.starts_with("Client") { Side::Client } else { Side::Server };
    let m = if kind.ends_with("Request") {
        let ty = *g.pick(wg::requests(side));
        wg::standard_request(defs(), side, ty, g)
    } else {
        let ty = *g.pick(wg::notifications(side));
        wg::standard_notification(defs(), side, ty, g)
    };
    declare(c, &m);
    c.class(kind);
    c.nontrivial(true);
    macro_rules! method {
        ($t:ident) => {{
            let mut v = m.wire.clone();
            // in the older versions these unions hold payloads, which carry no envelope members
            if cfg!(feature = "fam_a") {
                v.as_object_mut().unwrap().retain(|k, _| k != "id" && k != "jsonrpc");
            }
            serde_json::from_value::<m::$t>(v).map(|x| x.method().to_string())
        }};
    }
    let r = match kind {
        "ClientRequest" => method!(ClientRequest),
        "ServerNotification" => method!(ServerNotification),
        #[cfg(not(feature = "fam_c"))]
        "ClientNotification" => method!(ClientNotification),
        #[cfg(not(feature = "fam_c"))]
        "ServerRequest" => method!(ServerRequest),
        _ => unreachable!(),
    };
    match r {
        Err(e) => fail(format!("{kind}: {} rejected", m.ty), format!("{e}: {}", jg::short(&m.wire))),
        Ok(x) => ensure(Some(&x) == m.method.as_ref(), format!("{kind}: method of {}", m.ty), || format!("{x} for {}", jg::short(&m.wire))),
    }
}

fn standard(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let rows: Vec<(Side, usize, &str)> = [Side::Client, Side::Server]
        .into_iter()
        .flat_map(|s| {
            wg::requests(s).iter().map(move |t| (s, 0, *t)).chain(wg::notifications(s).iter().map(move |t| (s, 1, *t)))
        })
        .collect();
    let (side, kind, ty) = *c.row(&rows);
    let m = if kind == 0 { wg::standard_request(d, side, ty, g) } else { wg::standard_notification(d, side, ty, g) };
    declare(c, &m);
    c.nontrivial(m.wire.get("params").is_some());
    let p = parse(&m)?;
    dispatched(&m, &p, ty)
}

fn named(m: &Msg, p: &Parsed, variant: &str) -> Res {
    let at = format!("{:?} {}", m.side, m.ty);
    ensure(p.flags[m.kind], format!("{at}: wrong kind"), || format!("{} for {}", p.message_type, jg::short(&m.wire)))?;
    ensure(p.variant == variant, format!("{at}: read as {}", p.variant), || {
        format!("expected {variant}, got {} for {}", p.variant, jg::short(&m.wire))
    })?;
    ensure(!p.methods.is_empty() && p.methods.iter().all(|x| Some(x) == m.method.as_ref()), format!("{at}: method"), || {
        format!("{:?} for {}", p.methods, jg::short(&m.wire))
    })
}

/// The payload taken out of its envelope: the message without id and version, or its params alone.
fn payload(m: &Msg, p: &Parsed) -> Res {
    let Some(got) = &p.payload else { return Ok(()) };
    let at = format!("{:?} {}: payload", m.side, m.ty);
    let params = m.wire.get("params");
    if m.ty != "custom" && !cfg!(feature = "fam_a") {
        return same(params.unwrap_or(&Value::Null), got, &at);
    }
    let mut want = json!({"method": m.wire["method"]});
    if let Some(x) = params {
        want["params"] = x.clone();
    }
    let mut got = got.clone();
    if params.is_none() && m.ty == "custom" && got.get("params") == Some(&Value::Null) {
        got.as_object_mut().unwrap().remove("params");
    }
    same(&want, &got, &at)
}

fn dispatched(m: &Msg, p: &Parsed, variant: &str) -> Res {
    named(m, p, variant)?;
    payload(m, p)?;
    same(&m.wire, &p.wire, &format!("{:?} {}: content", m.side, m.ty))
}

fn custom(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let side = wg::side(g);
    let m = if g.chance(1, 2) { wg::custom_notification(d, side, g) } else { wg::custom_request(d, side, g) };
    declare(c, &m);
    c.class(match m.wire.get("params") {
        None => "no params",
        Some(p) if p.as_object().unwrap().is_empty() => "empty params",
        _ => "params",
    });
    c.nontrivial(m.wire.get("params").is_some());
    let p = parse(&m)?;
    if cfg!(feature = "fam_a") {
        // known finding: written back, the params hold the whole method and params once more
        let mut nested = m.wire.clone();
        nested["params"] = json!({"method": m.wire["method"], "params": m.wire.get("params").cloned().unwrap_or(Value::Null)});
        named(&m, &p, "custom")?;
        payload(&m, &p)?;
        if p.wire != m.wire && jg::json_eq(&p.wire, &nested) {
            return fail(NESTED, format!("{} written back as {}", jg::short(&m.wire), jg::short(&p.wire)));
        }
    }
    dispatched(&m, &p, "custom")
}

/// Signature of the recorded finding on custom messages of the older versions.
pub const NESTED: &str = "custom message written back with its method and params nested inside params";

const GENERIC: &[&str] = &["Result", "GetTaskPayloadResult"];

fn result_dispatch(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let rows: Vec<(Side, &str)> =
        [Side::Client, Side::Server].into_iter().flat_map(|s| wg::results(s).iter().map(move |t| (s, *t))).collect();
    let (side, ty) = *c.row(&rows);
    let m = wg::standard_response(d, side, ty, g);
    declare(c, &m);
    let r = &m.wire["result"];
    c.nontrivial(r.as_object().is_some_and(|o| !o.is_empty()));
    let p = parse(&m)?;
    let at = format!("{side:?} {ty}");
    same(&m.wire, &p.wire, &format!("{at}: content"))?;
    same(r, p.payload.as_ref().unwrap_or(&Value::Null), &format!("{at}: payload"))?;
    // The types the wire form could be, judged by their schemas alone.
    let fits: Vec<&str> = wg::results(side)
        .iter()
        .copied()
        .filter(|t| !GENERIC.contains(t) && fits(d, t, r))
        // where results carry a discriminator, it alone settles whether more input is asked for
        .filter(|t| r.get("resultType").is_none() || (*t == "InputRequiredResult") == (r["resultType"] == "input_required"))
        .collect();
    match fits.as_slice() {
        [one] => {
            c.class("one candidate type");
            ensure(p.variant == *one, format!("{at}: read as {}", p.variant), || {
                format!("only {one} fits, read as {} for {}", p.variant, jg::short(&m.wire))
            })
        }
        [] => {
            c.class("generic result");
            ensure(GENERIC.contains(&p.variant), format!("{at}: read as {}", p.variant), || {
                format!("no specific type fits, read as {} for {}", p.variant, jg::short(&m.wire))
            })
        }
        many => {
            c.class("several candidate types");
            ensure(many.contains(&p.variant), format!("{at}: read as {}", p.variant), || {
                format!("{many:?} fit, read as {} for {}", p.variant, jg::short(&m.wire))
            })
        }
    }
}

fn fits(d: &crate::schema::Defs, t: &str, r: &Value) -> bool {
    d.valid_name(t, r)
}

/// The unions of the schema itself: a wire form is read as the one variant whose type it fits.
fn unions(g: &mut G, c: &mut Ctx) -> Res {
    let d = defs();
    let rows: Vec<(&UnionType, &str, &str)> =
        UNIONS.iter().flat_map(|e| e.variants.iter().filter(|(_, t)| d.has(t)).map(move |(v, t)| (e, *v, *t))).collect();
    let (e, variant, ty) = *c.row(&rows);
    let v = d.gen(ty, g);
    c.input(&json!({"union": e.name, "type": ty, "value": v}));
    c.nontrivial(v.as_object().is_some_and(|o| o.len() > 1));
    let at = format!("{} from {variant}", e.name);
    let (got, back) = (e.run)(&v).map_err(|x| Fail { sig: format!("{at}: rejected"), msg: format!("{x}: {}", jg::short(&v)) })?;
    same(&v, &back, &format!("{at}: content"))?;
    let fit = |t: &str| !GENERIC.contains(&t) && (t == ty || !d.has(t) || fits(d, t, &v));
    let can: Vec<&str> = e
        .variants
        .iter()
        .filter(|(_, t)| fit(t))
        .filter(|(_, t)| v.get("resultType").is_none() || (*t == "InputRequiredResult") == (v["resultType"] == "input_required"))
        .map(|(n, _)| *n)
        .collect();
    let spare: Vec<&str> = e.variants.iter().filter(|(_, t)| GENERIC.contains(t)).map(|(n, _)| *n).collect();
    let (class, allowed) = match can.len() {
        0 => ("generic", spare),
        1 => ("one candidate type", can),
        _ => ("several candidate types", can),
    };
    c.class(class);
    ensure(allowed.contains(&got), format!("{at}: read as {got}"), || format!("{allowed:?} fit, read as {got}: {}", jg::short(&v)))
}
