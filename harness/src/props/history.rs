//! Answers do not depend on what was asked before, or on what other threads ask (P22).
//!
//! The questions are the cases of every other property's sub-checks, with their own oracles: a case that holds
//! when it is asked alone has to hold again later, between other cases, and while other threads ask theirs.
use crate::engine::*;
use crate::jsongen as jg;
use crate::tape::G;
use serde_json::json;
use std::sync::Barrier;

pub fn subs(v: &mut Vec<Sub>) {
    v.push(Sub { prop: "P22", name: "again", quick: 4500, thorough: 60_000, run: again });
    v.push(Sub { prop: "P22", name: "threads", quick: 2500, thorough: 60_000, run: threads });
}

#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Question {
    sub: usize,
    /// the case number, which chooses the row of a sub-check's table
    row: u64,
    seed: u64,
    /// the choices of a case like an earlier one, instead of random ones
    tape: Option<Vec<u64>>,
    /// texts of an earlier question, which this one may use again
    words: (Vec<String>, Vec<i64>),
}

impl Question {
    fn new(sub: usize, row: u64, seed: u64) -> Self {
        Question { sub, row, seed, tape: None, words: Default::default() }
    }
    fn choices(&self) -> G {
        match &self.tape {
            Some(t) => G::replay(t.clone()),
            None => G::random(self.seed),
        }
        .with_words(&self.words)
    }
    /// Asks, and tells what was chosen and said on the way.
    fn recorded(&self) -> (Vec<u64>, (Vec<String>, Vec<i64>)) {
        let mut g = self.choices();
        let _ = guarded(&others()[self.sub], &mut g, &mut Ctx::new(self.row));
        (g.used_all(), g.words())
    }
}

fn others() -> &'static [Sub] {
    static ALL: std::sync::OnceLock<Vec<Sub>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| super::all().into_iter().filter(|s| s.prop != "P22").collect())
}

/// A sub-check: any, or in proportion to the cases it has of its own (those with many rows have many).
fn some_sub(g: &mut G) -> usize {
    if g.chance(1, 2) {
        return g.idx(others().len());
    }
    let mut at = g.below(others().iter().map(|s| s.quick).sum());
    others().iter().position(|s| at.checked_sub(s.quick).map(|rest| at = rest).is_none()).unwrap_or(0)
}

fn name(q: &Question) -> String {
    let s = &others()[q.sub];
    format!("{}/{}", s.prop, s.name)
}

/// The signature of the failure, if the case fails.
fn ask(q: &Question) -> Result<(), Fail> {
    guarded(&others()[q.sub], &mut q.choices(), &mut Ctx::new(q.row))
}

/// The signature a process that has asked nothing yet gets ("" when the case holds); for the first failures of a kind only.
fn in_a_new_process(q: &Question, sig: &str) -> Option<String> {
    static ASKED: std::sync::Mutex<std::collections::BTreeMap<String, u32>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
    let times = {
        let mut asked = ASKED.lock().ok()?;
        let total: u32 = asked.values().map(|n| (*n).min(5)).sum();
        let n = asked.entry(format!("{} {sig}", name(q))).or_default();
        *n += 1;
        if total > 1000 { u32::MAX } else { *n }
    };
    if times > 5 {
        return None;
    }
    let dict = std::env::temp_dir().join(format!("p22-{}.json", std::process::id()));
    std::fs::write(&dict, jg::dict().raw.to_string()).ok()?;
    let question = dict.with_extension("question");
    std::fs::write(&question, json!(q).to_string()).ok()?;
    let out = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["ask", "--dict", dict.to_str()?, "--question", question.to_str()?])
        .output();
    let _ = std::fs::remove_file(&dict);
    let _ = std::fs::remove_file(&question);
    let out = out.ok()?;
    // anything but a plain answer is no answer
    let text = String::from_utf8(out.stdout).ok()?;
    text.strip_prefix("answer: ").filter(|_| out.status.success()).map(|t| t.trim().to_string())
}

/// One question, as the only one of its process.
pub fn alone(question: &serde_json::Value) -> String {
    let q: Question = serde_json::from_value(question.clone()).expect("a question");
    ask(&q).err().map(|f| f.sig).unwrap_or_default()
}

/// Two questions of every kind, asked before anything else, with what came of them.
fn first_answers() -> &'static [(Question, Option<String>)] {
    static FIRST: std::sync::OnceLock<Vec<(Question, Option<String>)>> = std::sync::OnceLock::new();
    FIRST.get_or_init(|| {
        let qs = (0..2 * others().len()).map(|i| Question::new(i / 2, i as u64, 0x5EED + i as u64));
        qs.map(|q| (q.clone(), ask(&q).err().map(|f| f.sig))).collect()
    })
}

fn as_at_first(g: &mut G) -> Res {
    for _ in 0..3 {
        let (q, was) = g.pick(first_answers());
        let now = ask(q).err();
        let sig = now.as_ref().map(|f| &f.sig);
        ensure(sig == was.as_ref(), format!("{}: not the answer of the beginning", name(q)), || {
            format!("at first: {was:?}; now: {:?}", now.as_ref().map(|f| (&f.sig, &f.msg)))
        })?;
    }
    Ok(())
}

/// Some questions whose answer, asked alone, is right. The first words of the tape choose them.
fn questions(g: &mut G, c: &mut Ctx) -> Result<Vec<Question>, Fail> {
    first_answers();
    let n = 2 + g.idx(5);
    // half of the time all of one kind: the same code, entered again and again
    let one = g.chance(1, 2).then(|| some_sub(g));
    let same_seed = g.chance(1, 4);
    let same_row = g.chance(1, 2);
    let mut qs: Vec<Question> = vec![];
    for _ in 0..n {
        let sub = one.unwrap_or_else(|| some_sub(g));
        let seed = match qs.last() {
            Some(q) if same_seed => q.seed,
            _ => g.u64(),
        };
        let row = match qs.last() {
            Some(q) if same_row => q.row,
            _ => g.below(10_007),
        };
        let mut q = Question::new(sub, row, seed);
        if let Some(p) = qs.last().filter(|_| g.chance(1, 2)).cloned() {
            let (mut tape, words) = p.recorded();
            if g.chance(1, 2) && !tape.is_empty() {
                // the earlier question with one or two choices changed
                for _ in 0..=g.below(2) {
                    let i = g.idx(tape.len());
                    tape[i] = match g.below(4) {
                        0 => tape[i].wrapping_add(1),
                        1 => tape[i].saturating_sub(1),
                        2 => g.below(64),
                        _ => g.u64(),
                    };
                }
                q = Question { tape: Some(tape), words: p.words, ..Question::new(p.sub, p.row, p.seed) };
                c.class("nearly the same");
            } else {
                q.words = words;
                c.class("same words");
            }
        }
        qs.push(q);
    }
    c.class(if one.is_some() { "one kind" } else { "mixed" });
    let all: Vec<_> = qs.iter().map(|q| json!({"check": name(q), "row": q.row, "seed": q.seed, "like": q.tape.is_some(), "words": q.words})).collect();
    c.input(&json!({ "questions": all }));
    // what fails on its own is for the property it belongs to
    let mut good = vec![];
    for q in qs {
        match ask(&q) {
            Ok(()) => good.push(q),
            Err(f) => {
                let second = ask(&q);
                let two = second.as_ref().err().map_or("nothing", |f| f.sig.as_str());
                ensure(second.is_err(), format!("{}: two askings, two answers", name(&q)), || format!("first: {} ({}); then: {two}", f.sig, f.msg))?;
                if let Some(fresh) = in_a_new_process(&q, &f.sig) {
                    ensure(!fresh.is_empty(), format!("{}: another answer than in a new process", name(&q)), || format!("{}: {}", f.sig, f.msg))?;
                }
            }
        }
    }
    c.nontrivial(good.len() > 1);
    Ok(good)
}

fn changed(q: &Question, f: Fail, when: &str) -> Fail {
    Fail { sig: format!("{}: another answer {when}", name(q)), msg: format!("{}: {}", f.sig, f.msg) }
}

fn again(g: &mut G, c: &mut Ctx) -> Res {
    let qs = questions(g, c)?;
    if qs.is_empty() {
        return as_at_first(g);
    }
    for _ in 0..2 * qs.len() + g.idx(8) {
        let q = &qs[g.idx(qs.len())];
        ask(q).map_err(|f| changed(q, f, "later"))?;
    }
    as_at_first(g)
}

fn threads(g: &mut G, c: &mut Ctx) -> Res {
    let qs = questions(g, c)?;
    if qs.is_empty() {
        return as_at_first(g);
    }
    let n = 2 + g.idx(4);
    let plans: Vec<Vec<usize>> = (0..n).map(|_| (0..4 * qs.len()).map(|_| g.idx(qs.len())).collect()).collect();
    c.class(format!("{n} threads"));
    let gate = Barrier::new(n);
    let (qs, gate) = (&qs, &gate);
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        gate.wait();
                        plan.iter().find_map(|i| ask(&qs[*i]).err().map(|f| (*i, f)))
                    })
                    .expect("a thread")
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok().flatten()).next()
    });
    match bad {
        Some((i, f)) => Err(changed(&qs[i], f, "among other threads")),
        None => as_at_first(g),
    }
}
