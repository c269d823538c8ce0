//! Verification intrinsics.
//!
//! The deductive engine gives these functions their symbolic meaning (a fresh symbolic value, a
//! case split, an assumption, a proof obligation). Compiled natively, the same functions draw from
//! a random or recorded source, so that any harness can be executed against the real code: to
//! replay a counterexample, and to search for one.
use std::cell::RefCell;
use std::sync::Arc;

pub struct Source {
    pub rng: u64,
    pub replay: Option<Vec<String>>,
    pub pos: usize,
    pub log: Vec<String>,
    pub covers: Vec<&'static str>,
    pub checks: u64,
    pub size: usize,
    /// names drawn so far: related names are likely
    pub names: Vec<String>,
    /// behave as for the deductive engine, outside of leaves
    pub engine: bool,
    pub in_leaf: usize,
}

thread_local! {
    pub static SRC: RefCell<Source> = RefCell::new(Source { rng: 1, replay: None, pos: 0, log: vec![], covers: vec![], checks: 0, size: 3, names: vec![], engine: false, in_leaf: 0 });
}

pub struct Assumed;
pub struct Failed(pub String);

fn next_rng() -> u64 {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        // splitmix64
        s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}

fn replayed() -> Option<String> {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        let pos = s.pos;
        let t = match &s.replay { Some(r) => r.get(pos).cloned(), None => None };
        if t.is_some() { s.pos += 1; }
        t
    })
}

fn log(t: String) { SRC.with(|s| s.borrow_mut().log.push(t)) }

/// A number drawn from the source: recorded token, or random by `f`
fn draw(lo: i128, hi: i128, f: impl Fn(u64) -> i128) -> i128 {
    if let Some(t) = replayed() {
        if let Ok(v) = t.parse::<i128>() { let v = v.clamp(lo, hi); log(v.to_string()); return v; }
    }
    let v = f(next_rng());
    log(v.to_string());
    v
}

fn biased(r: u64, lo: i128, hi: i128) -> i128 {
    let r2 = r >> 8;
    let v = match r & 7 {
        0 => (r2 % 4) as i128,
        1 => (r2 % 40) as i128,
        2 => hi - (r2 % 3) as i128,
        3 => lo + (r2 % 3) as i128,
        4 => { let span = hi - lo + 1; lo + span / 2 + (r2 % 5) as i128 - 2 }
        5 => { let k = (r2 % 64) as u32; let b = 1i128 << k; b + ((r2 >> 7) % 3) as i128 - 1 }
        6 => -((r2 % 40) as i128),
        _ => { let span = (hi - lo + 1) as u128; lo + ((((r2 as u128) << 64 | next_rng() as u128) % span) as i128) }
    };
    if v < lo { lo } else if v > hi { hi } else { v }
}

/// Symbolically: a case split over `0..n`
#[inline(never)]
pub fn choose(n: usize) -> usize {
    let v = draw(0, n as i128 - 1, |r| ((r >> 3) % n as u64) as i128) as usize;
    if v >= n { n - 1 } else { v }
}

#[inline(never)]
pub fn any_bool() -> bool { draw(0, 1, |r| ((r >> 5) & 1) as i128) != 0 }
#[inline(never)]
pub fn any_u16() -> u16 { draw(0, u16::MAX as i128, |r| biased(r, 0, u16::MAX as i128)) as u16 }
#[inline(never)]
pub fn any_i16() -> i16 { draw(i16::MIN as i128, i16::MAX as i128, |r| biased(r, i16::MIN as i128, i16::MAX as i128)) as i16 }
#[inline(never)]
pub fn any_u64() -> u64 { draw(0, u64::MAX as i128, |r| biased(r, 0, u64::MAX as i128)) as u64 }
#[inline(never)]
pub fn any_i64() -> i64 { draw(i64::MIN as i128, i64::MAX as i128, |r| biased(r, i64::MIN as i128, i64::MAX as i128)) as i64 }
#[inline(never)]
pub fn any_usize(max: usize) -> usize { draw(0, max as i128, |r| biased(r, 0, max as i128)) as usize }

/// An arbitrary character
#[inline(never)]
pub fn any_char() -> char {
    const POOL: &[char] = &['a', 'Z', '0', '9', ' ', '\t', '\n', '\r', '\\', ']', '[', '"', '\'', '%', '@', ';', ':', 'n', 't', 'b', 'd', 'x', 'c', '(', ')', ',', '.', '{', '}', '<', '>', '=', '_', '$', 'é', '²', 'Ⅷ', '٣', '字', '\u{0}', '\u{7f}', '\u{200b}', '😀'];
    let v = draw(0, 0x10ffff, |r| match r & 7 {
        0 => (0x20 + (r >> 8) % 0x5f) as i128,
        1 => loop { let c = ((next_rng()) % 0x110000) as u32; if char::from_u32(c).is_some() { break c as i128 } },
        _ => POOL[((r >> 8) % POOL.len() as u64) as usize] as u32 as i128,
    });
    char::from_u32(v as u32).unwrap_or('?')
}

pub fn is_name(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() { None => return false, Some(c) => if c.is_numeric() { return false } }
    s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '$')
}

fn rand_name(first_any: bool) -> String {
    const POOL: &[&str] = &["a", "b", "x", "y", "_t", "$s", "a1", "a_b$2", "UInt", "SInt", "mux", "validif", "add", "bits", "cat", "wire", "reg", "node", "mem", "inst", "of", "skip", "when", "is", "invalid", "with", "reset", "read", "write", "infer", "mport", "stop", "printf", "attach", "clock", "input", "output", "module", "extmodule", "circuit", "parameter", "defname", "depth", "reader", "old", "Clock", "Reset", "Fixed", "Analog", "é", "Ünï", "字", "longer_identifier_name", "E", "b1", "h", "head", "asUInt", "asFixed", "flipped", "elsewhere", "cmem", "smem", "x0", "_", "$", "_0", "undefined", "new", "AsyncReset", "else", "flip"];
    const DIG: &[&str] = &["0", "1", "42", "0a", "9_", "²"];
    let r = next_rng();
    if first_any && r % 5 == 0 { return DIG[(next_rng() % DIG.len() as u64) as usize].to_string(); }
    let mut s = POOL[(next_rng() % POOL.len() as u64) as usize].to_string();
    if r % 3 == 0 { s.push_str(&(next_rng() % 20).to_string()); }
    if r % 7 == 0 { s.push_str(POOL[(next_rng() % POOL.len() as u64) as usize]); }
    s
}

/// A random name: at times one already drawn, an extension or a prefix of one
fn near_name(first_any: bool) -> String {
    let r = next_rng();
    let old = SRC.with(|s| { let s = s.borrow(); if s.names.is_empty() { None } else { Some(s.names[((r >> 16) % s.names.len() as u64) as usize].clone()) } });
    let n = match (old, r % 12) {
        (Some(o), 0) => o,
        (Some(o), 1) => { let x = ["1", "_", "x", "$0", "a"][((r >> 8) % 5) as usize]; o + x }
        (Some(o), 2) => { let k = o.chars().count(); let o: String = o.chars().take(1.max(k / 2)).collect(); o }
        _ => rand_name(first_any),
    };
    SRC.with(|s| s.borrow_mut().names.push(n.clone()));
    n
}

fn str_draw(f: impl Fn() -> String) -> String {
    if let Some(t) = replayed() {
        if let Some(s) = t.strip_prefix("s:") { log(t.clone()); return unesc(s); }
    }
    let s = f();
    log(format!("s:{}", esc(&s)));
    s
}

pub fn esc(s: &str) -> String { s.chars().map(|c| if c.is_ascii_graphic() && c != '\\' { c.to_string() } else { format!("\\u{{{:x}}}", c as u32) }).collect() }
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            it.next(); it.next();
            let mut h = String::new();
            for d in it.by_ref() { if d == '}' { break } h.push(d); }
            o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
        } else { o.push(c) }
    }
    o
}

/// An arbitrary identifier: a non-empty sequence of identifier characters not starting with a
/// numeric one
#[inline(never)]
pub fn any_name() -> Arc<str> { let s = str_draw(|| near_name(false)); if !is_name(&s) { assume(false) } Arc::from(s) }

/// An arbitrary field name: a non-empty sequence of identifier characters
#[inline(never)]
pub fn any_field_name() -> Arc<str> { let s = str_draw(|| near_name(true)); if s.is_empty() || !is_name(&format!("_{}", s)) { assume(false) } Arc::from(s) }

/// A sequence of characters free of anything which needs to be escaped; may be empty
#[inline(never)]
pub fn any_plain() -> String {
    const POOL: &[&str] = &["", "a", "hello world", "src/Main.scala 12:7", "é字", " ", "x : y", "%not", "@[", "(a, b)", ";", "0.5", "nt"];
    str_draw(|| POOL[(next_rng() % POOL.len() as u64) as usize].to_string().replace('%', "").to_string())
}

/// Arbitrary text
#[inline(never)]
pub fn any_text() -> String {
    const POOL: &[&str] = &["\\", "\n", "\t", "]", "[", "\"", "'", "%", "%d", "%%", "\\n", "\\t", "n", "t", "b", "\r", ";", "@[", "\u{0}", "é字", "😀", " ", "x", "hello world", "src/Main.scala 12:7", "\u{200b}", "\u{2028}"];
    str_draw(|| {
        let mut s = String::new();
        for _ in 0..next_rng() % 7 { s.push_str(POOL[(next_rng() % POOL.len() as u64) as usize]) }
        s
    })
}

/// A line: some text starting with a character an identifier may start with
#[inline(never)]
pub fn any_line() -> String { let s = str_draw(line_text); if !is_name(&s[..s.chars().next().map_or(0, |c| c.len_utf8())]) { assume(false) } s }
/// A line which does not start with `else`
#[inline(never)]
pub fn any_line_not_else() -> String { let s = any_line(); if s.starts_with("else") { assume(false) } s }
/// Some text starting with an identifier character
#[inline(never)]
pub fn any_word_line() -> String { let s = str_draw(|| format!("{}{}", ["2", "_", "é", "s"][(next_rng() % 4) as usize], line_text())); if !s.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_' || c == '$') { assume(false) } s }
fn line_text() -> String {
    const POOL: &[&str] = &["", " <= b\n", ":\n", " := x", "\n", ".f is invalid\n", "é", "(", " ", "[0] <- q @[x]\n", "\n\n  skip\n"];
    let mut n = if next_rng() % 3 == 0 { ["skip", "when", "wire", "elsewhere", "els", "node", "mem", "inst", "stop", "module", "infer"][(next_rng() % 11) as usize].to_string() } else { near_name(false) };
    n.push_str(POOL[(next_rng() % POOL.len() as u64) as usize]);
    n
}

/// A recursion budget for generated trees: `1` for the deductive engine (deeper trees are opaque
/// leaves subject to the induction hypothesis)
#[inline(never)]
pub fn depth() -> usize { if !native() { return 1 } draw(0, 3, |r| ((r >> 3) % 4) as i128) as usize }

/// True when executed natively, false for the deductive engine
#[inline(never)]
pub fn native() -> bool { SRC.with(|s| { let s = s.borrow(); !s.engine || s.in_leaf > 0 }) }

/// Set the recorded tokens; the first may be `mode:engine`
pub fn set_replay(replay: Option<Vec<String>>) {
    SRC.with(|s| {
        let mut s = s.borrow_mut();
        s.engine = replay.as_ref().map(|r| r.first().map(|t| t == "mode:engine").unwrap_or(false)).unwrap_or(false);
        s.in_leaf = 0;
        s.pos = if s.engine { 1 } else { 0 };
        s.log.clear();
        if s.engine { s.log.push("mode:engine".to_string()) }
        s.replay = replay;
    })
}

/// A recorded big number
pub fn replayed_big() -> Option<String> {
    let t = SRC.with(|s| { let s = s.borrow(); s.replay.as_ref().and_then(|r| r.get(s.pos).cloned()) })?;
    let n = t.strip_prefix("big:")?.to_string();
    SRC.with(|s| s.borrow_mut().pos += 1);
    log(t);
    Some(n)
}

/// Run `f`, generating a leaf
pub fn as_leaf<T>(f: impl Fn() -> T) -> T {
    let seeded = SRC.with(|s| {
        let mut s = s.borrow_mut();
        let pos = s.pos;
        let seed = match &s.replay { Some(r) => r.get(pos).and_then(|t| t.strip_prefix("leaf:")).and_then(|t| t.parse::<u64>().ok()), None => None };
        if let Some(n) = seed {
            s.pos += 1;
            let old = (s.rng, s.replay.take(), s.pos);
            s.rng ^= n.wrapping_mul(0x9E3779B97F4A7C15);
            Some(old)
        } else { None }
    });
    SRC.with(|s| s.borrow_mut().in_leaf += 1);
    let r = f();
    SRC.with(|s| s.borrow_mut().in_leaf -= 1);
    if let Some((_, rep, pos)) = seeded { SRC.with(|s| { let mut s = s.borrow_mut(); s.replay = rep; s.pos = pos; }) }
    r
}

#[inline(never)]
pub fn assume(b: bool) { if !b { std::panic::panic_any(Assumed) } }

/// A proof obligation
#[inline(never)]
pub fn check(b: bool, what: &'static str) {
    SRC.with(|s| s.borrow_mut().checks += 1);
    if !b { std::panic::panic_any(Failed(what.to_string())) }
}

/// Reachability marker: the engine has to find at least one feasible path to every `cover`
#[inline(never)]
pub fn cover(what: &'static str) { SRC.with(|s| { let mut s = s.borrow_mut(); if !s.covers.contains(&what) { s.covers.push(what) } }) }
