//! Request ids (P09): equality, hashing, text, and answering out of order.
use crate::api::{self, Side};
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m::RequestId;
use crate::schema::defs;
use crate::tape::G;
use crate::u::{self, RpcMessage};
use crate::wiregen as wg;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P09", name: "pairs", quick: 15_000, thorough: 400_000, run: pairs });
    v.push(Sub { prop: "P09", name: "map-history", quick: 4_000, thorough: 100_000, run: history });
    v.push(Sub { prop: "P09", name: "out-of-order-answers", quick: 3_000, thorough: 80_000, run: answers });
    #[cfg(not(feature = "fam_a"))]
    v.push(Sub { prop: "P09", name: "id-of-a-request", quick: 6_000, thorough: 150_000, run: of_request });
}

/// The request unions of the schema report the id they carry.
#[cfg(not(feature = "fam_a"))]
fn of_request(g: &mut G, c: &mut Ctx) -> Res {
    use crate::m::ClientRequest;
    #[cfg(feature = "fam_b")]
    use crate::m::ServerRequest;
    #[cfg(feature = "fam_c")]
    let side = Side::Client;
    #[cfg(feature = "fam_b")]
    let side = if g.chance(1, 2) { Side::Client } else { Side::Server };
    let ty = *c.row(wg::requests(side));
    let m = wg::standard_request(defs(), side, ty, g);
    c.input(&json!([ty, m.wire]));
    c.class(ty);
    c.nontrivial(true);
    let bad = |e: serde_json::Error| Fail { sig: format!("{ty}: rejected"), msg: format!("{e}: {}", jg::short(&m.wire)) };
    let id = match side {
        Side::Client => js(serde_json::from_value::<ClientRequest>(m.wire.clone()).map_err(bad)?.request_id()),
        #[cfg(feature = "fam_c")]
        Side::Server => unreachable!(),
        #[cfg(feature = "fam_b")]
        Side::Server => js(serde_json::from_value::<ServerRequest>(m.wire.clone()).map_err(bad)?.request_id()),
    };
    same(&m.wire["id"], &id, &format!("{side:?} {ty}: id"))
}

/// Ids close to each other: numbers, their text, and odd strings.
fn near(g: &mut G) -> Value {
    match g.below(6) {
        0..=1 => json!(g.range(-2, 12)),
        2..=3 => json!(g.range(-2, 12).to_string()),
        4 => json!(*g.pick(&["", "a", "A", "a ", "01", "1.0", "+1", "\u{0}", "é", "e\u{301}", "-0", "null"])),
        _ => wg::id(g),
    }
}
/// An id that differs from the given one as little as possible, or not at all.
fn twin(v: &Value, g: &mut G) -> Value {
    match v {
        Value::String(s) => {
            let t = match g.below(12) {
                0 => s.clone(),
                1 => s.to_uppercase(),
                2 => s.to_lowercase(),
                3 => format!("{s} "),
                4 => format!(" {s}"),
                5 => s.trim().to_string(),
                6 => {
                    let n = s.chars().count();
                    s.chars().take(n.saturating_sub(1)).collect()
                }
                7 => s.replace('\u{e9}', "e\u{301}"),
                8 => format!("{s}\u{0}"),
                9 => s.chars().rev().collect(),
                10 => match s.parse::<i64>() {
                    Ok(n) => return json!(n),
                    Err(_) => format!("\"{s}\""),
                },
                _ => {
                    // another character at one place
                    let mut cs: Vec<char> = s.chars().collect();
                    if cs.is_empty() {
                        cs.push('0');
                    } else {
                        let i = g.idx(cs.len());
                        cs[i] = if cs[i] == 'a' { 'b' } else { 'a' };
                    }
                    cs.into_iter().collect()
                }
            };
            json!(t)
        }
        _ => {
            let n = v.as_i64().unwrap();
            match g.below(8) {
                0 => json!(n),
                1 => json!(n.to_string()),
                2 => json!(n.wrapping_add(1)),
                3 => json!(n.wrapping_sub(1)),
                4 => json!(n.wrapping_neg()),
                5 => json!(n ^ (1i64 << g.below(64))),
                6 => json!(n as i32 as i64),
                _ => json!(n.wrapping_add(1 << 32)),
            }
        }
    }
}
fn id_of(v: &Value) -> Result<RequestId, Fail> {
    serde_json::from_value(v.clone()).map_err(|e| Fail { sig: "id rejected".into(), msg: format!("{e}: {v}") })
}
fn built(v: &Value) -> RequestId {
    match v {
        Value::String(s) => RequestId::String(s.clone()),
        _ => RequestId::from(v.as_i64().unwrap()),
    }
}
fn hash<H: Hasher>(mut h: H, x: &RequestId) -> u64 {
    x.hash(&mut h);
    h.finish()
}

fn pairs(g: &mut G, c: &mut Ctx) -> Res {
    let a = near(g);
    let b = match g.below(4) {
        0 => near(g),
        1 => a.clone(),
        _ => twin(&a, g),
    };
    c.input(&json!([a, b]));
    let equal = a == b;
    let kind = |v: &Value| if v.is_string() { "string" } else { "integer" };
    c.class(format!("{} / {}: {}", kind(&a), kind(&b), if equal { "equal" } else { "different" }));
    let same_text = a.as_str().map(|s| s.to_string()).unwrap_or(a.to_string()) == b.as_str().map(|s| s.to_string()).unwrap_or(b.to_string());
    c.nontrivial(same_text || kind(&a) == kind(&b));
    let (x, y) = (id_of(&a)?, id_of(&b)?);
    for (x, y) in [(&x, &y), (&y, &x)] {
        ensure((x == y) == equal, "equality", || format!("{a} and {b}"))?;
        ensure((x != y) != equal, "inequality", || format!("{a} and {b}"))?;
        ensure((&x == y) == equal, "equality of a reference", || format!("{a} and {b}"))?;
    }
    if equal {
        let rs = RandomState::new();
        ensure(hash(DefaultHasher::new(), &x) == hash(DefaultHasher::new(), &y), "equal ids hash alike", || a.to_string())?;
        ensure(hash(rs.build_hasher(), &x) == hash(rs.build_hasher(), &y), "equal ids hash alike", || a.to_string())?;
    }
    for (v, x) in [(&a, &x), (&b, &y)] {
        same(v, &js(x), "id written")?;
        ensure(*x == built(v) && *x == x.clone(), "id built equals id read", || v.to_string())?;
        let text = v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string());
        ensure(x.to_string() == text, "id text", || format!("{v} shows as {x}"))?;
    }
    Ok(())
}

/// A pending-request table keyed by id against a table keyed by the wire text of the id.
fn history(g: &mut G, c: &mut Ctx) -> Res {
    let n = 1 + g.idx(40);
    let mut map: HashMap<RequestId, u64> = HashMap::new();
    let mut set: HashSet<RequestId> = HashSet::new();
    let mut model: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops = vec![];
    let mut collisions = 0;
    let mut seen: Vec<Value> = vec![];
    for i in 0..n as u64 {
        let v = if seen.is_empty() || g.chance(1, 2) { near(g) } else { twin(&seen[g.idx(seen.len())].clone(), g) };
        seen.push(v.clone());
        let key = v.to_string();
        let id = id_of(&v)?;
        collisions += model.contains_key(&key) as u32;
        match g.below(4) {
            0 | 1 => {
                ops.push(json!({"insert": v}));
                let want = model.insert(key, i);
                let got = map.insert(id.clone(), i);
                ensure(got == want, "insert", || format!("{:?} then {got:?}, expected {want:?}", ops))?;
                set.insert(id);
            }
            2 => {
                ops.push(json!({"remove": v}));
                let want = model.remove(&key);
                let got = map.remove(&id);
                ensure(got == want, "remove", || format!("{:?} then {got:?}, expected {want:?}", ops))?;
                ensure(set.remove(&id) == want.is_some(), "remove from a set", || format!("{ops:?}"))?;
            }
            _ => {
                ops.push(json!({"look up": v}));
                let (want, got) = (model.get(&key), map.get(&id));
                ensure(got == want, "look up", || format!("{:?} then {got:?}, expected {want:?}", ops))?;
                let scan = map.iter().find(|(k, _)| *k == id).map(|(_, v)| v);
                ensure(scan == want, "search", || format!("{:?} then {scan:?}, expected {want:?}", ops))?;
            }
        }
        ensure(map.len() == model.len() && set.len() == model.len(), "size", || format!("{ops:?}: {} entries, expected {}", map.len(), model.len()))?;
    }
    c.input(&json!(ops));
    c.nontrivial(collisions > 0);
    c.class(format!("{} steps", n / 10 * 10));
    Ok(())
}

/// One side has several requests under way; the answers come back in another order and each finds its request.
fn answers(g: &mut G, c: &mut Ctx) -> Res {
    let asker = wg::side(g);
    let answerer = if asker == Side::Client { Side::Server } else { Side::Client };
    let n = 1 + g.idx(7);
    let mut pending: HashMap<RequestId, usize> = HashMap::new();
    let mut sent: Vec<(Value, String)> = vec![];
    for _ in 0..n {
        let id = if sent.is_empty() || g.chance(1, 2) { near(g) } else { twin(&sent[g.idx(sent.len())].0.clone(), g) };
        if sent.iter().any(|(x, _)| *x == id) {
            continue;
        }
        let ty = *g.pick(wg::requests(asker));
        let mut wire = wg::standard_request(defs(), asker, ty, g).wire;
        wire["id"] = id.clone();
        let text = wire.to_string();
        let own = read_id(asker, &text)?;
        ensure(pending.insert(own, sent.len()).is_none(), "two requests under one id", || format!("{id} among {sent:?}"))?;
        sent.push((id, text));
    }
    let mut order: Vec<usize> = (0..sent.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, g.idx(i + 1));
    }
    c.input(&json!({"asker": format!("{asker:?}"), "requests": sent.iter().map(|x| &x.0).collect::<Vec<_>>(), "answers": order}));
    c.nontrivial(sent.len() >= 2);
    c.class(format!("{} under way", sent.len()));
    for k in order {
        // the peer reads the request and answers with the id it read
        let id = read_id(asker, &sent[k].1)?;
        let answer = if g.chance(1, 3) {
            #[cfg(feature = "fam_a")]
            let e = crate::m::JsonrpcError::create(id, u::RpcErrorCodes::INVALID_PARAMS, jg::string(g), None);
            #[cfg(not(feature = "fam_a"))]
            let e = crate::m::JsonrpcErrorResponse::create(Some(id), u::RpcErrorCodes::INVALID_PARAMS, jg::string(g), None);
            match answerer {
                Side::Client => u::ClientMessage::Error(e).to_string(),
                Side::Server => u::ServerMessage::Error(e).to_string(),
            }
        } else {
            let ty = *g.pick(wg::results(answerer));
            let mut wire = wg::standard_response(defs(), answerer, ty, g).wire;
            wire["id"] = js(&id);
            match answerer {
                Side::Client => parse::<u::ClientMessage>(&wire)?.to_string(),
                Side::Server => parse::<u::ServerMessage>(&wire)?.to_string(),
            }
        };
        let back = read_id(answerer, &answer)?;
        let hit = pending.remove(&back);
        ensure(hit == Some(k), "answer finds its request", || format!("answer {answer} to {} found {hit:?}", sent[k].0))?;
        ensure(js(&back) == sent[k].0, "id of the answer", || format!("{} became {}", sent[k].0, js(&back)))?;
        let id_in_answer = api::parse_str(answerer, &answer).ok().and_then(|p| p.id);
        ensure(id_in_answer.as_ref() == Some(&sent[k].0), "id of the answer", || format!("{id_in_answer:?}"))?;
    }
    ensure(pending.is_empty(), "requests left over", || format!("{}", pending.len()))
}

fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, Fail> {
    serde_json::from_value(v.clone()).map_err(|e| Fail { sig: "message rejected".into(), msg: format!("{e}: {v}") })
}
fn read_id(side: Side, text: &str) -> Result<RequestId, Fail> {
    let bad = |e: String| Fail { sig: "message rejected".into(), msg: format!("{e}: {text}") };
    let id = match side {
        Side::Client => text.parse::<u::ClientMessage>().map_err(|e| bad(e.to_string()))?.request_id().cloned(),
        Side::Server => text.parse::<u::ServerMessage>().map_err(|e| bad(e.to_string()))?.request_id().cloned(),
    };
    id.ok_or_else(|| Fail { sig: "message without id".into(), msg: text.into() })
}
