//! C07 escaping, C20 indentation
use crate::gen::*;
use crate::print::{j, show, show_at, spaces};
use crate::vc::*;
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::ParamValue;
use firrtl_ast::stmt::{print::PrintElement, Entity};
use firrtl_ast::verif::{self, Indentation};
use nom::Parser;
use std::num::NonZeroUsize;
use std::sync::Arc;

crate::harnesses! {
    "C07": vc_info_text, vc_info_char, vc_info_none, vc_param_text, vc_param_char, vc_param_single, vc_fmt_text, vc_fmt_char, vc_fmt_spec, vc_info_syntax, nt_info, nt_unquoted;
    "C20": vc_lock, vc_lock_with, vc_sub, vc_parse_exact, vc_parse_more, vc_owning, vc_indent_text, vc_indent_line, nt_blocks;
}

// ---------------------------------------------------------------- C07

fn rt_info(t: &str) {
    let l = match choose(2) { 0 => "", _ => "\n" };
    let input = j(&[&verif::print_info(Some(t)), l]);
    match verif::parse_info(&input) {
        Ok((rest, Some(i))) => {
            check(rest == l, "exactly the printed info is consumed");
            check(i == t, "an info attribute survives printing and parsing");
        }
        _ => check(false, "a printed info attribute parses"),
    }
    cover("end");
}
pub fn vc_info_text() { rt_info(&any_text()) }
pub fn nt_info() { rt_info(&any_text()) }
/// Every single character survives, whatever precedes and follows it
pub fn vc_info_char() {
    let mut s = any_plain();
    s.push(any_char());
    s.push_str(&any_plain());
    rt_info(&s)
}
pub fn vc_info_none() {
    check(verif::print_info(None) == "", "nothing is printed in absence of an info");
    let t = match choose(3) { 0 => "", 1 => "\n", _ => "; c\n" };
    match verif::parse_info(t) { Ok((rest, None)) => check(rest == t, "nothing is consumed in absence of an info"), _ => check(false, "an info attribute is optional") }
    cover("end");
}
/// Infos are enclosed by ` @[` and `]`, plain text is printed as is
pub fn vc_info_syntax() {
    let s = any_plain();
    check(verif::print_info(Some(&s)) == j(&[" @[", &s, "]"]), "infos print in FIRRTL syntax");
    cover("end");
}
fn rt_param(s: &str) {
    let v = ParamValue::String(Arc::from(s));
    let l = match choose(2) { 0 => "", _ => "\n" };
    let input = j(&[&show(&v), l]);
    match verif::module::param_value(&input) {
        Ok((rest, p)) => {
            check(rest == l, "exactly the printed string is consumed");
            check(p == v, "a string parameter survives printing and parsing");
        }
        Err(_) => check(false, "a printed string parses"),
    }
    cover("end");
}
pub fn vc_param_text() { rt_param(&any_text()) }
pub fn vc_param_char() {
    let mut s = any_plain();
    s.push(any_char());
    s.push_str(&any_plain());
    rt_param(&s)
}
/// Single and double quotes are interchangeable
pub fn vc_param_single() {
    let s = any_plain();
    let q = if any_bool() { "'" } else { "\"" };
    match verif::module::param_value(&j(&[q, &s, q])) {
        Ok((rest, ParamValue::String(p))) => check(rest == "" && *p == *s, "a quoted string parses as its content"),
        _ => check(false, "a quoted string parses"),
    }
    cover("end");
}
fn parse_fmt<'a>(mut i: &'a str) -> Option<(Vec<verif::stmt::FmtStrPart>, &'a str)> {
    i = i.strip_prefix("\"")?;
    let mut v = Vec::new();
    while let Ok((r, p)) = verif::stmt::fmt_string_part(i) { v.push(p); i = r; }
    i = i.strip_prefix("\"")?;
    Some((v, i))
}
fn rt_fmt(s: &str) {
    let mut msg = Vec::new();
    msg.push(PrintElement::Literal(String::from(s)));
    let text = show(&verif::stmt::FormatString(&msg));
    match parse_fmt(&text) {
        Some((v, rest)) => {
            check(rest == "", "exactly the printed format string is consumed");
            if s.len() == 0 { check(v.len() == 0, "an empty format string is empty") } else {
                check(v.len() == 1 && match &v[0] { verif::stmt::FmtStrPart::Literal(p) => *p == *s, _ => false }, "a literal survives printing and parsing");
            }
        }
        None => check(false, "a printed format string parses"),
    }
    cover("end");
}
pub fn vc_fmt_text() { rt_fmt(&any_text()) }
pub fn vc_fmt_char() {
    let mut s = any_plain();
    s.push(any_char());
    s.push_str(&any_plain());
    rt_fmt(&s)
}
/// A format specifier is never mistaken for text, nor the other way around
pub fn vc_fmt_spec() {
    use firrtl_ast::stmt::print::Format as F;
    let f = any_format();
    let e = any_expr::<Arc<Entity>>();
    let s = any_plain();
    let mut msg = Vec::new();
    msg.push(PrintElement::Literal(j(&["%", &s])));
    msg.push(PrintElement::Value(e, f));
    let text = show(&verif::stmt::FormatString(&msg));
    let spec = match f { F::Binary => "%b", F::Decimal => "%d", F::Hexadecimal => "%x", F::Character => "%c" };
    check(text == j(&["\"%%", &s, spec, "\""]), "format strings print in FIRRTL syntax");
    match parse_fmt(&text) {
        Some((v, rest)) => {
            check(rest == "" && v.len() == 2, "a format string has as many parts as printed");
            check(match &v[0] { verif::stmt::FmtStrPart::Literal(p) => *p == j(&["%", &s]), _ => false }, "a literal survives");
            check(match &v[1] { verif::stmt::FmtStrPart::FormatSpec(g) => *g == f, _ => false }, "a format specifier survives");
        }
        None => check(false, "a printed format string parses"),
    }
    cover("end");
}
/// Unescaping: a backslash makes the next character literal, except for `n` and `t`
pub fn nt_unquoted() {
    let mut want = String::new();
    let mut input = String::new();
    for _ in 0..choose(6) {
        let c = any_char();
        match choose(3) {
            0 => { input.push('\\'); input.push(c); want.push(match c { 'n' => '\n', 't' => '\t', c => c }); }
            _ => { assume(c != '\\' && c != ']' && c != '\n' && c != '\t'); input.push(c); want.push(c); }
        }
    }
    let t = if any_bool() { "]" } else { "\n" };
    input.push_str(t);
    match verif::parsers::unquoted_string(&input, &['\n', '\t', ']']) {
        Ok((rest, s)) => { check(rest == t, "unquoting stops at the first unescaped special character"); check(s == want, "unquoting yields the text denoted") }
        Err(_) => check(false, "unquoting succeeds"),
    }
    cover("end");
}

// ---------------------------------------------------------------- C20

fn any_indent() -> (Indentation, bool, usize) {
    let n = any_usize(1 << 40);
    if any_bool() { (Indentation::MoreThan(n), true, n) } else { (Indentation::Exact(n), false, n) }
}
pub fn vc_lock() {
    let (mut i, more, n) = any_indent();
    let want = if more { n + 2 } else { n };
    let l: usize = (&i.lock()).into();
    check(l == want, "locking yields the exact length, or one step more than the lower bound");
    check(i == Indentation::Exact(want), "locking fixes the length");
    let l2: usize = i.lock().into();
    check(l2 == want && i == Indentation::Exact(want), "locking again has no effect");
    cover("end");
}
pub fn vc_lock_with() {
    let (mut i, more, n) = any_indent();
    let s = any_usize(1 << 40);
    match NonZeroUsize::new(s) {
        Some(k) => {
            let want = if more { n + s } else { n };
            let l: usize = i.lock_with(k).into();
            check(l == want && i == Indentation::Exact(want), "locking with a number of steps adds these");
        }
        None => {}
    }
    cover("end");
}
pub fn vc_sub() {
    let (mut i, more, n) = any_indent();
    let want = if more { n + 2 } else { n };
    let s = i.sub();
    check(i == Indentation::Exact(want), "creating a nested indentation locks");
    check(s == Indentation::MoreThan(want), "a nested indentation is deeper");
    check(i.lock().sub() == s, "locked indentations nest alike");
    check(Indentation::root() == Indentation::Exact(0) && Indentation::default() == Indentation::root(), "the root is not indented");
    cover("end");
}
/// Number of spaces, followed by something else
fn line() -> (usize, &'static str) { (any_usize(if native() { 20 } else { 1 << 40 }), match choose(4) { 0 => "", 1 => "x y", 2 => "\tx", _ => "\n" }) }
pub fn vc_parse_exact() {
    let (n, t) = line();
    let k = any_usize(if native() { 20 } else { 1 << 40 });
    let mut i = Indentation::Exact(k);
    let input = j(&[&spaces(n), t]);
    match i.parser().parse(&input) {
        Ok((rest, ())) => check(n == k && rest == t, "exactly the spaces are consumed, if as many as required"),
        Err(_) => check(n != k, "a line indented as required is accepted"),
    }
    check(i == Indentation::Exact(k), "an exact indentation does not change");
    cover("end");
}
pub fn vc_parse_more() {
    let (n, t) = line();
    let k = any_usize(if native() { 20 } else { 1 << 40 });
    let mut i = Indentation::MoreThan(k);
    let input = j(&[&spaces(n), t]);
    match i.parser().parse(&input) {
        Ok((rest, ())) => {
            check(n > k && rest == t, "all spaces are consumed, if more than required");
            check(i == Indentation::Exact(n), "the length encountered is locked");
        }
        Err(_) => {
            check(n <= k, "a line indented deeper is accepted");
            check(i == Indentation::MoreThan(k), "a failure does not lock");
        }
    }
    cover("end");
}
pub fn vc_owning() {
    let (n, t) = line();
    let k = any_usize(if native() { 20 } else { 1 << 40 });
    let i = if any_bool() { Indentation::MoreThan(k) } else { Indentation::Exact(k) };
    let input = j(&[&spaces(n), t]);
    let mut j1 = i.clone();
    let mut own = i.clone().into_parser();
    match (own.parse(&input), j1.parser().parse(&input)) {
        (Ok((a, k)), Ok((b, ()))) => {
            check(a == b, "both parsers consume the same");
            check(k == j1, "the owning parser yields the updated indentation");
        }
        (Err(_), Err(_)) => {}
        _ => check(false, "both parsers accept the same"),
    }
    check(Indentation::from(own) == j1, "both parsers update the indentation alike");
    cover("end");
}
pub fn vc_indent_text() {
    let n = any_usize(if native() { 30 } else { 1 << 40 });
    let mut i = Indentation::Exact(n);
    check(show(&i.lock()) == spaces(n), "an indentation prints as that many spaces");
    cover("end");
}
pub fn vc_indent_line() {
    let n = any_usize(if native() { 12 } else { 1 << 40 });
    let mut i = Indentation::Exact(n);
    let s = any_name();
    check(show_at(&s, &mut i) == j(&[&spaces(n), &s, "\n"]), "a line is indented and terminated");
    let _ = gen_literal::<Rf>;
    fn _unused<T: WithInfo>(_: T) {}
    cover("end");
}

// ---------------------------------------------------------------- block structure

#[derive(Clone, Debug, PartialEq)]
enum Tree { Leaf(u16), Cond(u16, Vec<Tree>, Vec<Tree>) }
#[derive(Clone, Copy, PartialEq)]
enum Line { Stop(u16), When(u16), Else }

/// The statements of a block the first line of which is at `pos`, according to indentation alone
fn ref_block(l: &[(usize, Line)], pos: &mut usize, more_than: Option<usize>) -> Option<Vec<Tree>> {
    let mut v = vec![];
    if *pos >= l.len() { return Some(v) }
    let ind = l[*pos].0;
    match more_than { Some(m) => if ind <= m { return Some(v) }, None => {} }
    while *pos < l.len() && l[*pos].0 == ind {
        match l[*pos].1 {
            Line::Stop(k) => { *pos += 1; v.push(Tree::Leaf(k)) }
            Line::Else => return None,
            Line::When(k) => {
                *pos += 1;
                let w = ref_block(l, pos, Some(ind))?;
                let mut e = vec![];
                if *pos < l.len() && l[*pos] == (ind, Line::Else) { *pos += 1; e = ref_block(l, pos, Some(ind))?; }
                v.push(Tree::Cond(k, w, e))
            }
        }
    }
    Some(v)
}
fn tree_of(s: &[firrtl_ast::stmt::Statement]) -> Vec<Tree> {
    use firrtl_ast::stmt::Kind;
    s.iter().map(|s| match s.kind() {
        Kind::Stop { code, .. } => Tree::Leaf(*code as u16),
        Kind::Conditional { cond, when, r#else } => {
            let k = match cond { firrtl_ast::expr::Expression::UIntLiteral { width, .. } => *width, _ => 0 };
            Tree::Cond(k, tree_of(when), tree_of(r#else))
        }
        _ => Tree::Leaf(0),
    }).collect()
}
/// Block membership follows from the indentation of the lines, whatever the steps
pub fn nt_blocks() {
    let n = 1 + choose(9);
    let base = 3 + choose(3);
    let mut lines: Vec<(usize, Line)> = vec![];
    let mut cur = base;
    let mut open: Vec<usize> = vec![];
    for k in 0..n {
        let line = match choose(5) { 0 | 1 => Line::Stop(k as u16 + 1), 2 | 3 => Line::When(k as u16 + 1), _ => if k == 0 { Line::When(1) } else { Line::Else } };
        // an indentation which makes sense, most of the time
        let ind = match lines.last() {
            None => base,
            Some((i, Line::When(_))) | Some((i, Line::Else)) => { if choose(12) > 0 { open.push(*i); i + 1 + choose(3) } else { *i } }
            Some((i, Line::Stop(_))) => match choose(8) {
                0..=3 => *i,
                4 | 5 => if open.is_empty() { *i } else { let k = choose(open.len()); let o = open[k]; open.truncate(k); o },
                6 => if line == Line::Else && !open.is_empty() { let k = choose(open.len()); let o = open[k]; open.truncate(k); o } else { *i },
                _ => (i + choose(4)).saturating_sub(2),
            },
        };
        cur = ind.max(1);
        lines.push((cur, line));
    }
    let _ = cur;
    let mut text = String::from("circuit m:\n  module m:\n");
    for (i, l) in &lines {
        for _ in 0..*i { text.push(' ') }
        match l { Line::Stop(k) => text.push_str(&format!("stop(UInt<1>(0), UInt<1>(0), {})\n", k)), Line::When(k) => text.push_str(&format!("when UInt<{}>(0):\n", k)), Line::Else => text.push_str("else:\n") }
    }
    let mut pos = 0;
    let want = ref_block(&lines, &mut pos, Some(2)).filter(|_| pos == lines.len());
    let got = firrtl_ast::circuit::parse(&text).ok().map(|c| tree_of(c.top_module().statements()));
    match (&got, &want) {
        (Some(g), Some(w)) => check(g == w, "lines belong to the block their indentation says"),
        (None, None) => {}
        (Some(_), None) => check(false, "inconsistent indentation is refused"),
        (None, Some(_)) => check(false, "consistent indentation is accepted"),
    }
    cover("end");
}
