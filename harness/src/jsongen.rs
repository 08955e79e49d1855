//! Structured JSON generators.
use crate::tape::G;
use serde_json::{json, Map, Value};

const WORDS: &[&str] = &[
    "", "a", "x", "name", "2.0", "1", "0", "-7", "null", "true", "text", "file:///a", "tools/call", "ping",
    "id", "result", "error", "method", "params", "_meta", "\u{0}", "\"q\"", "back\\slash", "tab\there", "nl\nx",
    "\u{e9}\u{4e16}\u{1F600}", " lead", "trail ", "https://example.com/x?y=1#z", "aGVsbG8=", "data:;base64,AA==",
    "complete", "input_required", "object", "string", "\u{7f}\u{80}\u{2028}", "\u{feff}bom", "e\u{301}", "\u{e9}", "cr\r\nlf",
    "Text", "NAME", "a b", "a  b", "x/", "/x", "+1", "1.0", "1e3", "<b>&amp;</b>", "%20", "{\"a\":1}", "[1]", "{x}", "$ref", "\\u0041",
];

/// Texts of the shapes that protocol members have, in the forms a tidy-minded reader may want to normalise.
const SHAPES: &[&str] = &[
    "2025-11-25T10:00:00Z", "2025-11-25T10:00:00+00:00", "2025-11-25T10:00:00.000Z", "2025-11-25t10:00:00z", "2025-11-25", "2024-02-30",
    "https://Example.COM/", "https://example.com", "HTTP://X", "http://x:80/", "file:///a//b/", "file:///a/../b", "file://localhost/a",
    "file:///C:\\x", "file:///with space", "file:///%41", "urn:x:y", "mailto:a@b", "not a url", "x://u:p@h/?q#", "https://[::1]/",
    "aGVsbG8", "aGVs\nbG8=", "a-_b", "AAAA", "====", "data:image/png;base64,AAAA",
    "text/plain; charset=utf-8", "IMAGE/PNG", "image/jpg", "text/plain;", "*/*", "application/vnd.x+json", "audio/x-wav",
    "1.0.0", "v1.2", "01", "1.0.0-rc.1+b", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "k=v,k2=v2", "k=v;p",
    "a.b.c", "a-b_c", "snake_case", "camelCase", "kebab-case", "UPPER", "com.example/name", "ns:name", "a/b/c", "..", ".", "~", "*", "?",
    "\u{df}", "\u{130}", "\u{212a}", "\u{fb01}", "\u{663}", "\u{bd}", "\u{2167}", "\u{202e}abc", "a\u{200d}b", "\u{fffd}", "\u{ffff}", "\u{e000}",
    "\u{ad}", "a\u{300}", "\u{1f1e6}\u{1f1e7}", "\u{d7ff}", "\u{10ffff}", "\u{1c5}", "\u{85}", "\u{1b}[0m", "1e999", "-0", "NaN", "Infinity", "0x10", "1_000",
    "true ", "None", "undefined", "[]", "{}", "\"\"", "''", "${x}", "{{x}}", "%s", "\\n", "<script>", "--", ";", ",", "a,b", "a;b", "k: v", "#", "@", "&amp;",
];

/// Literals of the code under test (see tools/literals.py); the hot ones are new in the working tree.
#[derive(Default)]
pub struct Dict {
    pub raw: Value,
    pub strings: Vec<String>,
    pub hot_strings: Vec<String>,
    pub ints: Vec<i64>,
    pub hot_ints: Vec<i64>,
    pub floats: Vec<f64>,
    pub hot_floats: Vec<f64>,
}
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

pub fn set_dict(v: &Value) {
    let strings = |k: &str| -> Vec<String> {
        v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
    };
    let ints = |k: &str| -> Vec<i64> { v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default() };
    let floats = |k: &str| -> Vec<f64> {
        v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).map(exact).collect()).unwrap_or_default()
    };
    let _ = DICT.set(Dict {
        raw: v.clone(),
        strings: strings("strings"),
        hot_strings: strings("hot_strings"),
        ints: ints("ints"),
        hot_ints: ints("hot_ints"),
        floats: floats("floats"),
        hot_floats: floats("hot_floats"),
    });
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

fn dict_pick<'a, T>(g: &mut G, all: &'a [T], hot: &'a [T]) -> Option<&'a T> {
    if all.is_empty() {
        return None;
    }
    Some(if !hot.is_empty() && g.chance(2, 3) { g.pick(hot) } else { g.pick(all) })
}

/// True about once in `n` choices, more often when the tree holds new literals.
fn dict_turn(g: &mut G, n: u64, hot: bool) -> bool {
    g.chance(if hot { 3 } else { 1 }, n)
}

/// A literal of the source, as it is or slightly changed.
pub fn dict_word(g: &mut G) -> Option<String> {
    let d = dict();
    let w = dict_pick(g, &d.strings, &d.hot_strings)?.clone();
    Some(match g.below(12) {
        0..=5 => w,
        6 => format!("{w}{}", WORDS[g.idx(WORDS.len())]),
        7 => format!("{}{w}", WORDS[g.idx(WORDS.len())]),
        8 => format!("{w}{}", d.strings[g.idx(d.strings.len())]),
        9 => format!("{}{w}{}", WORDS[g.idx(WORDS.len())], WORDS[g.idx(WORDS.len())]),
        _ => twin_string(&w, g),
    })
}

/// A literal of the source, unchanged.
pub fn dict_exact(g: &mut G) -> Option<String> {
    let d = dict();
    dict_pick(g, &d.strings, &d.hot_strings).cloned()
}

pub fn dict_int(g: &mut G) -> Option<i64> {
    let d = dict();
    let n = *dict_pick(g, &d.ints, &d.hot_ints)?;
    let n = n.saturating_add(g.below(3) as i64 - 1);
    Some(if g.chance(1, 3) { n.saturating_neg() } else { n })
}

/// A text that differs from `s`, but barely.
pub fn twin_string(s: &str, g: &mut G) -> String {
    let cs: Vec<char> = s.chars().collect();
    let t = match g.below(14) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!("{s} "),
        3 => format!(" {s}"),
        4 => format!("{s}\u{0}"),
        5 => format!("{s}/"),
        6 => format!("/{s}"),
        7 if !cs.is_empty() => cs[..cs.len() - 1].iter().collect(),
        8 if !cs.is_empty() => cs[1..].iter().collect(),
        9 if !cs.is_empty() => {
            let mut c = cs.clone();
            let i = g.idx(c.len());
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            c.into_iter().collect()
        }
        10 if !cs.is_empty() => {
            let mut c = cs.clone();
            let i = g.idx(c.len());
            c.remove(i);
            c.into_iter().collect()
        }
        11 => s.replace('_', "-"),
        12 => s.replace(['/', '-', ' '], "_"),
        13 => format!("{s}{s}"),
        _ => format!("{s}x"),
    };
    if t == s {
        format!("{s}x")
    } else {
        t
    }
}

/// A size (text length, element count) around a number the code mentions.
pub fn dict_len(g: &mut G, max: i64) -> Option<usize> {
    let d = dict();
    let fit = |v: &[i64]| -> Vec<i64> { v.iter().copied().filter(|n| *n > 1 && *n <= max).collect() };
    let (all, hot) = (fit(&d.ints), fit(&d.hot_ints));
    let n = *dict_pick(g, &all, &hot)?;
    Some((n + g.below(3) as i64 - 1).max(0) as usize)
}

/// Text of a length that buffers, limits and previews may not expect.
fn long(g: &mut G) -> String {
    let mut n = *g.pick(&[17usize, 33, 51, 65, 81, 101, 121, 129, 201, 256, 257, 501, 513, 1025, 4097]) - g.idx(3);
    let hot = dict().hot_ints.iter().any(|n| (2..=5000).contains(n));
    if dict().hot_ints.iter().any(|n| (5001..=140_000).contains(n)) && g.chance(1, 8) {
        n = dict_len(g, 140_000).unwrap_or(n);
    } else if hot && g.chance(1, 2) {
        n = dict_len(g, 5000).unwrap_or(n);
    }
    let unit = *g.pick(&["x", "ab ", "\u{e9}", "\u{1F600}", "0", "\n", "\"", "Az"]);
    let mut s = String::new();
    while s.len() < n {
        s.push_str(unit);
    }
    if g.chance(1, 2) {
        s.push_str("end");
    }
    s
}

pub fn string(g: &mut G) -> String {
    if let Some(s) = g.echo(14) {
        // the same text as somewhere else in the case, or nearly
        return if g.chance(1, 4) { twin_string(&s, g) } else { s };
    }
    let s = fresh_string(g);
    g.note(&s);
    s
}

fn fresh_string(g: &mut G) -> String {
    if dict_turn(g, 14, !dict().hot_strings.is_empty()) {
        if let Some(w) = dict_word(g) {
            return w;
        }
    }
    if dict_turn(g, 40, dict().hot_ints.iter().any(|n| (2..=140_000).contains(n))) {
        return long(g);
    }
    if g.chance(1, 24) {
        return g.pick(&["", "", " ", "\t", "\u{a0}", "\u{200b}"]).to_string();
    }
    if g.chance(1, 8) {
        return SHAPES[g.idx(SHAPES.len())].to_string();
    }
    match g.below(8) {
        0..=3 => WORDS[g.idx(WORDS.len())].to_string(),
        4..=5 => {
            let n = g.below(6);
            (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect()
        }
        6 => {
            let n = 1 + g.below(4);
            (0..n)
                .map(|_| {
                    let c = g.below(0x11_0000) as u32;
                    char::from_u32(c).unwrap_or('\u{fffd}')
                })
                .collect()
        }
        _ => {
            let mut s = String::new();
            for _ in 0..1 + g.below(3) {
                s.push_str(WORDS[g.idx(WORDS.len())]);
            }
            s
        }
    }
}

/// Short identifier-like string (object keys, capability names...).
pub fn ident(g: &mut G) -> String {
    if let Some(s) = g.echo(14) {
        return s;
    }
    let s = fresh_ident(g);
    g.note(&s);
    s
}

fn fresh_ident(g: &mut G) -> String {
    const IDS: &[&str] = &["a", "b", "key", "x-ext", "io.example/meta", "k\u{e9}", "progressToken", "zz", "name2", "A"];
    if dict_turn(g, 10, !dict().hot_strings.is_empty()) {
        if let Some(w) = dict_word(g) {
            return w;
        }
    }
    match g.below(4) {
        0..=2 => IDS[g.idx(IDS.len())].to_string(),
        _ => {
            let n = 1 + g.below(6);
            (0..n).map(|_| (b'a' + g.below(26) as u8) as char).collect()
        }
    }
}

pub fn int(g: &mut G) -> i64 {
    if let Some(n) = g.echo_int(14) {
        return if g.chance(1, 4) { n.wrapping_add(1) } else { n };
    }
    let n = fresh_int(g);
    g.note_int(n);
    n
}

fn fresh_int(g: &mut G) -> i64 {
    if dict_turn(g, 16, !dict().hot_ints.is_empty()) {
        if let Some(n) = dict_int(g) {
            return n;
        }
    }
    match g.below(8) {
        0..=3 => g.range(0, 10),
        4 => g.range(-10, 0),
        5 => *g.pick(&[
            i64::MAX, i64::MIN, -1, 1, i64::MAX - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, u32::MAX as i64,
            u32::MAX as i64 + 1, i32::MIN as i64, i32::MAX as i64 + 1, 255, 256, 65536,
        ]),
        6 => g.range(-1_000_000, 1_000_000),
        _ => g.u64() as i64,
    }
}

/// The number itself if its decimal text reads back exactly (which is serde_json's affair), 0.75 otherwise.
pub fn exact(f: f64) -> f64 {
    let back = serde_json::from_str::<f64>(&json!(f).to_string()).unwrap_or(f64::NAN);
    if f.is_finite() && back == f {
        f
    } else {
        0.75
    }
}

pub fn float(g: &mut G) -> f64 {
    if dict_turn(g, 16, !dict().hot_ints.is_empty() || !dict().hot_floats.is_empty()) {
        let d = dict();
        let pick = dict_pick(g, &d.floats, &d.hot_floats).copied();
        match pick {
            Some(f) if g.chance(1, 2) => return f,
            _ => {
                if let Some(n) = dict_int(g) {
                    return exact(n as f64);
                }
            }
        }
    }
    match g.below(5) {
        0 => g.range(-10, 10) as f64,
        // every scale, near a power of two
        4 => {
            let f = (1.0 + g.below(4) as f64 / 4.0) * 2f64.powi(g.range(-90, 90) as i32);
            exact(if g.chance(1, 2) { f } else { -f })
        }
        1 => g.range(-1000, 1000) as f64 / 8.0,
        2 => *g.pick(&[0.5, 0.1, 1e-9, 1e21, 123456.789, -0.25, 3.0, 2.5e300, 5e-324, 0.30000000000000004]),
        _ => {
            exact(f64::from_bits(g.u64()))
        }
    }
}

pub fn number(g: &mut G) -> Value {
    if g.chance(1, 2) {
        json!(float(g))
    } else {
        json!(int(g))
    }
}

/// Arbitrary JSON of bounded depth.
pub fn any(g: &mut G, depth: u32) -> Value {
    let n = if depth == 0 { 5 } else { 7 };
    match g.below(n) {
        0 => Value::Null,
        1 => json!(g.chance(1, 2)),
        2 => json!(int(g)),
        3 => json!(string(g)),
        4 => json!(float(g)),
        5 => {
            if let Some(n) = big_len(g, 60, 40) {
                if g.chance(1, 2) {
                    // depth instead of breadth
                    let v = any(g, 0);
                    return (0..n.min(40)).fold(v, |v, i| if i % 3 == 2 { json!({ "k": v }) } else { json!([v]) });
                }
                return Value::Array(fill(n, g, |g| any(g, 0)));
            }
            let k = g.below(4);
            let a = (0..k).map(|_| any(g, depth - 1)).collect();
            Value::Array(repeat(a, g))
        }
        _ => Value::Object(any_map(g, depth - 1)),
    }
}

/// A count the code may not expect: rarely a large one, more often when the tree holds a new number that could be a count.
pub fn big_len(g: &mut G, n: u64, max: i64) -> Option<usize> {
    let hot = dict().hot_ints.iter().any(|k| (2..=max).contains(k));
    if !dict_turn(g, n, hot) {
        return None;
    }
    if g.chance(2, 3) {
        dict_len(g, max)
    } else {
        Some(7 + g.idx(60))
    }
}

/// `n` elements, the later ones mostly copies of the first few.
pub fn fill<T: Clone>(n: usize, g: &mut G, mut one: impl FnMut(&mut G) -> T) -> Vec<T> {
    let mut a: Vec<T> = (0..n.min(6)).map(|_| one(g)).collect();
    while a.len() < n {
        let x = a[g.idx(6)].clone();
        a.push(x);
    }
    if n > 6 && g.chance(1, 2) {
        // something new at the far end
        a[n - 1] = one(g);
    }
    a
}

/// Now and then one element a second time.
pub fn repeat<T: Clone>(mut a: Vec<T>, g: &mut G) -> Vec<T> {
    if a.len() > 1 && g.chance(1, 5) {
        let (i, j) = (g.idx(a.len()), g.idx(a.len()));
        a[j] = a[i].clone();
    }
    a
}

/// A text that is not JSON, made of one that is: something stands before or after it.
pub fn junk_around(s: &str, g: &mut G) -> String {
    const JUNK: &[&str] = &[
        "\u{feff}", "\u{a0}", "\u{0}", "\u{b}", "\u{c}", "\u{2028}", "\u{200b}", "\u{3000}", "\u{85}", "\u{1e}", ",", ";", ".", "}", "]", "\"",
        "//", "/**/", "# x", "data: ", "null", "0", "x", "{}", "[]", "\\n", "&", "\u{1b}[0m", "Content-Length: 2\r\n\r\n", "NaN",
    ];
    let j = g.pick(JUNK);
    let gap = g.pick(&["", "", " ", "\n"]);
    match g.below(4) {
        0 => format!("{j}{gap}{s}"),
        1 => format!("{s}{gap}{j}"),
        2 => format!("{s}\n{s}"),
        _ => format!("{j}{gap}{s}{gap}{j}"),
    }
}

pub fn any_map(g: &mut G, depth: u32) -> Map<String, Value> {
    let k = g.below(4);
    let mut m = Map::new();
    for _ in 0..k {
        let key = if g.chance(1, 4) { string(g) } else { ident(g) };
        m.insert(key, any(g, depth));
    }
    m
}

/// Number-tolerant JSON equality: an integer and a float are equal when numerically equal;
/// two integers must be exactly equal.
pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x == y {
                return true;
            }
            let xi = x.is_i64() || x.is_u64();
            let yi = y.is_i64() || y.is_u64();
            if xi && yi {
                return false;
            }
            x.as_f64() == y.as_f64()
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_eq(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| json_eq(v, w)))
        }
        _ => a == b,
    }
}

/// First difference between two JSON values, as a path (for signatures and messages).
pub fn diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, p: &mut String) -> bool {
        if json_eq(a, b) {
            return false;
        }
        match (a, b) {
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (p1, q1) in x.iter().zip(y.iter()) {
                    let l = p.len();
                    p.push_str("[]");
                    if go(p1, q1, p) {
                        return true;
                    }
                    p.truncate(l);
                }
                true
            }
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    let l = p.len();
                    p.push('.');
                    p.push_str(k);
                    match y.get(k) {
                        None => {
                            p.push_str(" lost");
                            return true;
                        }
                        Some(w) => {
                            if go(v, w, p) {
                                return true;
                            }
                        }
                    }
                    p.truncate(l);
                }
                for k in y.keys() {
                    if !x.contains_key(k) {
                        p.push('.');
                        p.push_str(k);
                        p.push_str(" added");
                        return true;
                    }
                }
                true
            }
            _ => {
                p.push_str(" changed");
                true
            }
        }
    }
    let mut p = String::new();
    if go(a, b, &mut p) {
        Some(if p.is_empty() { "changed".into() } else { p })
    } else {
        None
    }
}

/// Compact text for messages.
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 600 {
        let t: String = s.chars().take(600).collect();
        format!("{t}...")
    } else {
        s
    }
}
