//! Property engine: runs a fixed number of generated cases per sub-check, shrinks failures,
//! writes replay files and an evidence fragment.
use crate::jsongen as jg;
use crate::tape::{hash_str, shrink, G};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Fail {
    /// Identifies the kind of failure and where it sits (not the particular random input).
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
pub fn ensure(ok: bool, sig: impl Into<String>, msg: impl FnOnce() -> String) -> Res {
    if ok {
        Ok(())
    } else {
        fail(sig, msg())
    }
}
/// JSON equality with a located difference.
pub fn same(want: &Value, got: &Value, sig: &str) -> Res {
    match jg::diff(want, got) {
        None => Ok(()),
        Some(p) => fail(
            format!("{sig}: {}", generic_path(&p)),
            format!("{sig}: at {p}: expected {} got {}", jg::short(want), jg::short(got)),
        ),
    }
}
/// Paths may carry generated keys; keep the signature printable and short.
fn generic_path(p: &str) -> String {
    p.chars().filter(|c| !c.is_control()).take(120).collect()
}

/// What a case reports about itself.
pub struct Ctx {
    pub index: u64,
    pub nontrivial: bool,
    pub digest: u64,
    pub classes: Vec<String>,
    pub sample: Option<String>,
    pub input: Option<Value>,
}
impl Ctx {
    pub fn new(index: u64) -> Self {
        Ctx { index, nontrivial: false, digest: 0, classes: vec![], sample: None, input: None }
    }
    /// Declares the generated input of this case.
    pub fn input(&mut self, v: &Value) {
        let s = v.to_string();
        self.digest ^= hash_str(&s).rotate_left(17);
        self.sample = Some(s.chars().take(300).collect());
        self.input = Some(v.clone());
    }
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial = self.nontrivial || yes;
    }
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    /// Picks a table row by the case index so every row gets the same share of cases.
    pub fn row<'a, T>(&self, rows: &'a [T]) -> &'a T {
        &rows[(self.index % rows.len() as u64) as usize]
    }
}

pub struct Sub {
    pub prop: &'static str,
    pub name: &'static str,
    /// cases in the quick tier
    pub quick: u64,
    /// cases in the thorough tier
    pub thorough: u64,
    pub run: fn(&mut G, &mut Ctx) -> Res,
}

pub fn guarded(sub: &Sub, g: &mut G, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (sub.run)(g, ctx))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let place: String = LAST_PANIC.with(|l| l.borrow().clone());
            fail(format!("panic in {place}"), format!("panicked: {m} ({place})"))
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let place = match info.location() {
            Some(l) => l.file().rsplit('/').next().unwrap_or("?").to_string(),
            None => "?".into(),
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = place);
    }));
}

#[derive(Clone)]
pub struct Known {
    pub prop: String,
    pub version: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
}

/// Known findings: lines `open: property=<id> version=<v> sub=<s> sig=<...> :: what fails`.
pub fn load_known(path: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    let mut out = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("open: ") else { continue };
        let (head, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
        let mut k = Known { prop: String::new(), version: String::new(), sub: String::new(), sig: String::new(), what: what.into() };
        let (fields, sig) = head.split_once(" sig=").unwrap_or((head, ""));
        k.sig = sig.to_string();
        for f in fields.split_whitespace() {
            if let Some(v) = f.strip_prefix("property=") {
                k.prop = v.into();
            } else if let Some(v) = f.strip_prefix("version=") {
                k.version = v.into();
            } else if let Some(v) = f.strip_prefix("sub=") {
                k.sub = v.into();
            }
        }
        out.push(k);
    }
    out
}

pub struct Opts {
    pub prop: String,
    pub version: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub scale_pct: u64,
    pub known: Vec<Known>,
    pub replay_dir: String,
    pub progress: Option<String>,
    pub only_sub: Option<String>,
}

/// Returns the evidence fragment; its "violations" and "known" lists drive the outcome.
pub fn run(subs: &[Sub], o: &Opts) -> Value {
    let mut frag_subs = vec![];
    let mut violations = vec![];
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut progress = o.progress.as_ref().and_then(|p| std::fs::File::create(p).ok());
    let (mut total, mut total_distinct) = (0u64, 0u64);
    let mut stream = 0u64;
    let max_sigs = std::env::var("MAX_SIGS").ok().and_then(|x| x.parse().ok()).unwrap_or(3);
    for sub in subs.iter().filter(|s| s.prop == o.prop) {
        if o.only_sub.as_ref().is_some_and(|x| x != sub.name) {
            continue;
        }
        let n = (if o.thorough { sub.thorough } else { sub.quick }) * o.scale_pct / 100;
        let n = n.max(1);
        let base = stream_base(&o.prop, o.version, sub.name, o.seed);
        let mut seen: HashSet<u64> = HashSet::new();
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<String> = vec![];
        let mut nontriv = 0u64;
        let mut sigs: BTreeSet<String> = BTreeSet::new();
        for i in 0..n {
            if let Some(f) = &mut progress {
                let _ = f.seek(SeekFrom::Start(0));
                let _ = f.write_all(format!("{:<60}{:>12}\n", sub.name, i).as_bytes());
            }
            let mut g = case_gen(base, i);
            let mut ctx = Ctx::new(i);
            let r = guarded(sub, &mut g, &mut ctx);
            total += 1;
            stream = stream.rotate_left(5) ^ ctx.digest;
            for c in &ctx.classes {
                *classes.entry(c.clone()).or_default() += 1;
            }
            if ctx.nontrivial {
                nontriv += 1;
                seen.insert(ctx.digest);
            }
            if samples.len() < 2 && (ctx.nontrivial || i + 1 == n) {
                if let Some(s) = &ctx.sample {
                    samples.push(format!("{}#{}: {}", sub.name, i, s));
                }
            }
            let Err(f) = r else { continue };
            if let Some(k) = known(o, sub, &f.sig) {
                known_hit.insert(format!("{} ({}, {}): {}", o.version, sub.name, f.sig, k.what));
                continue;
            }
            if !sigs.insert(f.sig.clone()) || sigs.len() > max_sigs {
                continue;
            }
            // shrink, keeping the same signature
            let want = f.sig.clone();
            let tape = shrink(g.used_all(), 3000, &mut |t| {
                let mut g = G::replay(t.to_vec());
                let mut c = Ctx::new(i);
                matches!(guarded(sub, &mut g, &mut c), Err(x) if x.sig == want)
            });
            let mut g = G::replay(tape.clone());
            let mut c = Ctx::new(i);
            // a failure that the case alone does not bring back is replayed with everything before it
            let (sig, msg, history) = match guarded(sub, &mut g, &mut c) {
                Err(x) => (x.sig, x.msg, false),
                Ok(()) => (f.sig, f.msg, true),
            };
            let rep = json!({
                "property": o.prop, "version": o.version, "sub": sub.name, "index": i, "seed": o.seed,
                "signature": sig, "message": msg, "input": c.input, "tape": tape, "history": history, "tier": if o.thorough { "thorough" } else { "quick" }, "scale": o.scale_pct, "dict": jg::dict().raw,
                "rerun": format!("python3 tools/check.py --replay <this file>"),
            });
            let path = format!("{}/{}-{}-{}-{:08x}.json", o.replay_dir, o.prop, o.version, sub.name, hash_str(&sig) as u32);
            let _ = std::fs::create_dir_all(&o.replay_dir);
            let _ = std::fs::write(&path, serde_json::to_string(&rep).unwrap());
            violations.push(json!({"sub": sub.name, "signature": sig, "message": msg, "replay": path}));
        }
        total_distinct += seen.len() as u64;
        frag_subs.push(json!({
            "sub": sub.name, "cases": n, "nontrivial": nontriv, "distinct_nontrivial": seen.len(),
            "classes": classes, "samples": samples,
        }));
    }
    json!({
        "version": o.version, "evaluations": total, "distinct_nontrivial": total_distinct, "subs": frag_subs,
        "violations": violations, "known": known_hit, "stream": format!("{stream:016x}"),
    })
}

fn known<'a>(o: &'a Opts, sub: &Sub, sig: &str) -> Option<&'a Known> {
    o.known.iter().find(|k| {
        k.prop == o.prop && k.version.split(',').any(|v| v == o.version) && k.sub == sub.name && k.sig == sig
    })
}

fn stream_base(prop: &str, version: &str, sub: &str, seed: u64) -> u64 {
    hash_str(&format!("{prop}/{version}/{sub}")) ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
fn case_gen(base: u64, i: u64) -> G {
    G::random(base ^ i.wrapping_mul(0xD134_2543_DE82_EF95))
}

/// Re-runs one recorded case. Ok when it passes now.
pub fn replay(subs: &[Sub], rep: &Value) -> Res {
    let prop = rep["property"].as_str().unwrap_or("");
    let name = rep["sub"].as_str().unwrap_or("");
    let Some(sub) = subs.iter().find(|s| s.prop == prop && s.name == name) else {
        return fail("replay", format!("no sub-check {prop}/{name} in this build"));
    };
    let index = rep["index"].as_u64().unwrap_or(0);
    let mut g = match rep["tape"].as_array() {
        Some(a) => G::replay(a.iter().filter_map(|x| x.as_u64()).collect()),
        // a case that killed the process has no shrunk tape: regenerate it
        None => case_gen(stream_base(prop, crate::VERSION, name, rep["seed"].as_u64().unwrap_or(0)), index),
    };
    let mut c = Ctx::new(index);
    guarded(sub, &mut g, &mut c)?;
    if rep["history"] == true {
        return relive(subs, rep);
    }
    Ok(())
}

/// Runs a property's whole stream of cases up to the recorded one.
fn relive(subs: &[Sub], rep: &Value) -> Res {
    let (prop, name) = (rep["property"].as_str().unwrap_or(""), rep["sub"].as_str().unwrap_or(""));
    for sub in subs.iter().filter(|s| s.prop == prop) {
        let n = (if rep["tier"] == "thorough" { sub.thorough } else { sub.quick }) * rep["scale"].as_u64().unwrap_or(100) / 100;
        let n = if sub.name == name { rep["index"].as_u64().unwrap_or(0) + 1 } else { n.max(1) };
        let base = stream_base(prop, crate::VERSION, sub.name, rep["seed"].as_u64().unwrap_or(0));
        for i in 0..n {
            let r = guarded(sub, &mut case_gen(base, i), &mut Ctx::new(i));
            if sub.name == name && i + 1 == n {
                return r;
            }
        }
    }
    Ok(())
}
