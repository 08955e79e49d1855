//! Closed lists of words (P17) and protocol versions (P14).
use crate::engine::*;
use crate::glue::js;
use crate::jsongen as jg;
use crate::m;
use crate::schema::defs;
use crate::tape::G;
use rust_mcp_schema::ProtocolVersion;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P17", name: "words", quick: 15_000, thorough: 400_000, run: words });
    v.push(Sub { prop: "P17", name: "near-words", quick: 15_000, thorough: 400_000, run: near_words });
    v.push(Sub { prop: "P14", name: "versions", quick: 6_000, thorough: 200_000, run: versions });
    v.push(Sub { prop: "P14", name: "near-versions", quick: 12_000, thorough: 400_000, run: near_versions });
    v.push(Sub { prop: "P14", name: "version-order", quick: 3_000, thorough: 60_000, run: order });
}

type Parse = fn(&str) -> Result<(Value, String), String>;
struct Row {
    name: &'static str,
    /// through JSON: (JSON written, shown, hash)
    read: fn(&Value) -> Result<(Value, String, u64), String>,
    equal: fn(&Value, &Value) -> bool,
    from_str: Option<Parse>,
}
macro_rules! rows {
    ($($t:ident $f:expr),* $(,)?) => {
        vec![$(Row {
            name: stringify!($t),
            read: |v| {
                let x: m::$t = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                Ok((js(&x), x.to_string(), hash_of(&x)))
            },
            equal: |a, b| {
                let (x, y): (m::$t, m::$t) = (serde_json::from_value(a.clone()).unwrap(), serde_json::from_value(b.clone()).unwrap());
                (x == y) && (y == x) && !(x != y)
            },
            from_str: $f,
        }),*]
    };
}
#[allow(unused_macros)]
macro_rules! fs {
    ($t:ident) => {
        Some(|s: &str| s.parse::<m::$t>().map(|x| (js(&x), x.to_string())).map_err(|e| e.to_string()))
    };
}
/// not every list can be hashed in every version: compare the shown form there
fn hash_of<T: std::fmt::Debug>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{x:?}").hash(&mut h);
    h.finish()
}

fn rows() -> Vec<Row> {
    #[allow(unused_mut)]
    #[cfg(feature = "fam_a")]
    let mut v = rows![IncludeContext None, LoggingLevel None, Role None];
    #[cfg(feature = "fam_b")]
    let mut v = rows![IncludeContext None, LoggingLevel None, Role fs!(Role)];
    // no equality on this list in these versions
    #[cfg(feature = "fam_c")]
    let mut v = rows![IncludeContext None, Role fs!(Role)];
    #[cfg(feature = "fam_c")]
    v.push(Row {
        name: "LoggingLevel",
        read: |v| {
            let x: m::LoggingLevel = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
            Ok((js(&x), x.to_string(), hash_of(&x)))
        },
        equal: |a, b| a == b,
        from_str: None,
    });
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    v.extend(rows![ElicitResultAction None, NumberSchemaType None, StringSchemaFormat fs!(StringSchemaFormat)]);
    #[cfg(not(feature = "fam_a"))]
    v.extend(rows![IconTheme None, ToolChoiceMode None]);
    #[cfg(feature = "fam_b")]
    v.extend(rows![TaskStatus None, ToolExecutionTaskSupport None]);
    #[cfg(feature = "fam_c")]
    v.extend(rows![
        CacheableResultCacheScope None, DiscoverResultCacheScope None, ListPromptsResultCacheScope None,
        ListResourceTemplatesResultCacheScope None, ListResourcesResultCacheScope None, ListToolsResultCacheScope None,
        ReadResourceResultCacheScope None,
    ]);
    v
}
fn list(ty: &str) -> Vec<String> {
    defs().get(ty).and_then(|d| d["enum"].as_array().cloned()).unwrap_or_default().iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()
}

fn words(g: &mut G, c: &mut Ctx) -> Res {
    let rows = rows();
    let r = c.row(&rows);
    let words = list(r.name);
    let (w, o) = (g.pick(&words).clone(), g.pick(&words).clone());
    c.input(&json!({"list": r.name, "word": w, "other": o}));
    c.class(r.name);
    c.nontrivial(true);
    let (wire, shown, h) = (r.read)(&json!(w)).map_err(|e| Fail { sig: format!("{}: {w} rejected", r.name), msg: e })?;
    ensure(wire == json!(w), format!("{}: {w} written", r.name), || wire.to_string())?;
    ensure(shown == w, format!("{}: {w} shown", r.name), || shown.clone())?;
    let (_, _, h2) = (r.read)(&json!(o)).map_err(|e| Fail { sig: format!("{}: {o} rejected", r.name), msg: e })?;
    ensure((r.equal)(&json!(w), &json!(o)) == (w == o) && (h == h2) == (w == o), format!("{}: equality", r.name), || format!("{w} and {o}"))?;
    #[cfg(feature = "fam_b")]
    if r.name == "IconTheme" {
        // other texts fall back to a theme, so only the words themselves say anything
        let x = m::IconTheme::from(w.as_str());
        ensure(js(&x) == json!(w), format!("IconTheme: text {w}"), || js(&x).to_string())?;
    }
    if let Some(f) = r.from_str {
        let (wire, shown) = f(&w).map_err(|e| Fail { sig: format!("{}: text {w} rejected", r.name), msg: e })?;
        ensure(wire == json!(w) && shown == w, format!("{}: text {w}", r.name), || format!("{wire} {shown}"))?;
    }
    Ok(())
}

/// Something close to one of `words` but not in it.
fn near(words: &[String], g: &mut G) -> String {
    let w = g.pick(words).clone();
    let n = w.chars().count().max(1);
    let i = g.idx(n);
    let mut t: Vec<char> = w.chars().collect();
    let s: String = match g.below(9) {
        0 => w.to_uppercase(),
        1 => format!(" {w}"),
        2 => format!("{w} "),
        3 => {
            t.remove(i);
            t.into_iter().collect()
        }
        4 => {
            t[i] = (b'a' + g.below(26) as u8) as char;
            t.into_iter().collect()
        }
        5 => {
            t.insert(i, t[i]);
            t.into_iter().collect()
        }
        6 => w.replace('-', "_").replace('_', ""),
        7 => {
            let mut cs = w.chars();
            cs.next().map(|f| f.to_uppercase().collect::<String>() + cs.as_str()).unwrap_or_default()
        }
        _ => jg::string(g),
    };
    if words.contains(&s) {
        format!("{s}\u{0}")
    } else {
        s
    }
}

fn near_words(g: &mut G, c: &mut Ctx) -> Res {
    let rows = rows();
    let r = c.row(&rows);
    let words = list(r.name);
    let s = if g.chance(1, 4) {
        // a word of another list
        let other = list(rows[g.idx(rows.len())].name);
        let w = g.pick(&other).clone();
        if words.contains(&w) {
            near(&words, g)
        } else {
            w
        }
    } else {
        near(&words, g)
    };
    c.input(&json!({"list": r.name, "text": s}));
    c.class(r.name);
    c.nontrivial(true);
    if let Ok((w, ..)) = (r.read)(&json!(s)) {
        return fail(format!("{}: foreign word accepted", r.name), format!("{s:?} read as {w}"));
    }
    if let Some(f) = r.from_str {
        match f(&s) {
            Ok((w, _)) => return fail(format!("{}: foreign text accepted", r.name), format!("{s:?} read as {w}")),
            Err(e) => ensure(e.contains(&s) || serde_json::to_string(&s).is_ok_and(|q| e.contains(&q[1..q.len() - 1])), format!("{}: refusal names the text", r.name), || format!("{e} for {s:?}"))?,
        }
    }
    Ok(())
}

const VERSIONS: [&str; 6] = ["2024-11-05", "2025-03-26", "2025-06-18", "2025-11-25", "2026-07-28", "DRAFT"];

fn version(i: usize) -> ProtocolVersion {
    match i {
        0 => ProtocolVersion::V2024_11_05,
        1 => ProtocolVersion::V2025_03_26,
        2 => ProtocolVersion::V2025_06_18,
        3 => ProtocolVersion::V2025_11_25,
        4 => ProtocolVersion::V2026_07_28,
        _ => ProtocolVersion::Draft,
    }
}

fn versions(g: &mut G, c: &mut Ctx) -> Res {
    let i = (c.index % 6) as usize;
    let draft = g.chance(1, 2);
    let text = VERSIONS[i];
    c.input(&json!({"version": text, "include_draft": draft}));
    c.class(text);
    c.nontrivial(true);
    let v = version(i);
    ensure(v.to_string() == text, format!("{text}: shown"), || v.to_string())?;
    let read = ProtocolVersion::try_from(text).map_err(|e| Fail { sig: format!("{text}: rejected"), msg: e.to_string() })?;
    ensure(read == v, format!("{text}: read as another"), || format!("{read:?}"))?;
    let s: String = read.into();
    ensure(s == text, format!("{text}: as string"), || s.clone())?;
    let all = ProtocolVersion::supported_versions(draft);
    let names: Vec<String> = all.iter().map(|x| x.to_string()).collect();
    let n = if draft { 6 } else { 5 };
    ensure(names == VERSIONS[..n], "supported versions", || format!("{names:?} with drafts {draft}"))?;
    ensure(all.contains(&v) == (draft || i < 5), format!("{text}: supported"), || format!("{names:?}"))?;
    let stable = ProtocolVersion::supported_versions(false);
    let latest = ProtocolVersion::latest();
    ensure(stable.iter().all(|x| *x <= latest) && stable.contains(&latest), "latest version", || latest.to_string())?;
    ensure(latest.to_string() == VERSIONS[4], "latest version", || latest.to_string())?;
    // the version this module speaks
    let own = m::LATEST_PROTOCOL_VERSION;
    let want = if crate::VERSION == "draft" { VERSIONS[4].to_string() } else { crate::VERSION.replace('_', "-") };
    ensure(own == want, "own version", || own.to_string())?;
    ensure(ProtocolVersion::try_from(own).is_ok_and(|p| stable.contains(&p)), "own version is supported", || own.to_string())?;
    ensure(m::JSONRPC_VERSION == "2.0", "JSON-RPC version", || m::JSONRPC_VERSION.into())
}

fn near_versions(g: &mut G, c: &mut Ctx) -> Res {
    let all: Vec<String> = VERSIONS.iter().map(|s| s.to_string()).collect();
    let s = match g.below(4) {
        0 => {
            let s = format!("20{:02}-{:02}-{:02}", 20 + g.below(10), 1 + g.below(12), 1 + g.below(31));
            if all.contains(&s) {
                format!("{s}Z")
            } else {
                s
            }
        }
        1 => {
            let s = all[g.idx(6)].to_lowercase();
            if all.contains(&s) {
                s.replace('-', *g.pick(&["_", "/", "", "."]))
            } else {
                s
            }
        }
        _ => near(&all, g),
    };
    c.input(&json!(s));
    c.nontrivial(true);
    c.class(if s.starts_with("20") { "date-like" } else { "other" });
    match ProtocolVersion::try_from(s.as_str()) {
        Ok(v) => fail("unknown version accepted", format!("{s:?} read as {v}")),
        Err(e) => {
            let t = e.to_string();
            ensure(t.contains(&s), "refusal names the version", || format!("{t} for {s:?}"))?;
            ensure(VERSIONS[..5].iter().all(|v| t.contains(v)), "refusal lists the supported versions", || t.clone())
        }
    }
}

/// Versions sort by time of publication, the draft last.
fn order(g: &mut G, c: &mut Ctx) -> Res {
    let n = 2 + g.idx(8);
    let xs: Vec<usize> = (0..n).map(|_| g.idx(6)).collect();
    c.input(&json!(xs));
    c.nontrivial(true);
    c.class(format!("{n} versions"));
    let mut vs: Vec<ProtocolVersion> = xs.iter().map(|i| version(*i)).collect();
    let mut want = xs.clone();
    want.sort();
    vs.sort();
    let got: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
    let want: Vec<&str> = want.iter().map(|i| VERSIONS[*i]).collect();
    ensure(got == want, "order of versions", || format!("{got:?}"))
}
