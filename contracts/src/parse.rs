//! C08 everything accepted is accounted for, C22 layout, C23 number literals
use crate::env;
use crate::gen::*;
use crate::print::{j, show, show_at};
use crate::vc::*;
use firrtl_ast::circuit;
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::types::Type;
use firrtl_ast::verif::{self, Indentation};
use firrtl_ast::Circuit;
use num_bigint::{BigInt, BigUint};
use num_traits::{Num, ToPrimitive};
use std::sync::Arc;

crate::harnesses! {
    "C08": vc_identifier, vc_keyword, vc_decimal, vc_trailing, vc_print_values, nt_token_removed, nt_token_inserted, nt_reparse, nt_garbage_line, nt_names;
    "C22": vc_le, vc_spaced, vc_comma, vc_blank_stmt, vc_memory_spaces, nt_layout, nt_crlf, nt_expr_spaces;
    "C23": vc_uint_width, vc_sint_width, vc_lit_inferred, vc_lit_radix, nt_lit, nt_float;
}

// ---------------------------------------------------------------- C08

pub fn vc_identifier() {
    let n = any_name();
    let t = match choose(6) { 0 => "", 1 => " a", 2 => ".a", 3 => ":", 4 => "-1", _ => "(" };
    match verif::parsers::identifier(&j(&[&n, t])) {
        Ok((rest, p)) => check(rest == t && *p == *n, "an identifier is the longest sequence of identifier characters"),
        Err(_) => check(false, "an identifier parses"),
    }
    // never empty, never starting with a numeric character
    let u = match choose(5) { 0 => "", 1 => "-a", 2 => " a", 3 => "1a", _ => ".a" };
    check(verif::parsers::identifier(u).is_err(), "something else is not an identifier");
    let c = any_char();
    match verif::parsers::identifier(show(&c).as_str()) {
        Ok((_, p)) => check(!c.is_numeric() && (c.is_alphanumeric() || c == '_' || c == '$') && p.len() > 0, "identifiers consist of identifier characters"),
        Err(_) => check(c.is_numeric() || !(c.is_alphanumeric() || c == '_' || c == '$'), "identifier characters are accepted"),
    }
    cover("end");
}
/// A keyword is not recognised within a longer word
pub fn vc_keyword() {
    use nom::Parser;
    let n = any_field_name();
    let t = match choose(3) { 0 => "", 1 => " b", _ => ":" };
    let (i1, i2, i3) = (j(&["wire", t]), j(&["wire", &n, t]), j(&["<=", &n]));
    match verif::parsers::kw("wire").parse(&i1) {
        Ok((rest, ())) => check(rest == t, "exactly the keyword is consumed"),
        Err(_) => check(false, "a keyword is recognised"),
    }
    check(verif::parsers::kw("wire").parse(&i2).is_err(), "a keyword is not recognised within a longer word");
    match verif::parsers::op("<=").parse(&i3) {
        Ok((rest, ())) => check(*rest == *n, "exactly the operator is consumed"),
        Err(_) => check(false, "an operator is recognised"),
    }
    cover("end");
}
pub fn vc_decimal() {
    let t = match choose(4) { 0 => "", 1 => ")", 2 => ", 3", _ => ".5" };
    let v = any_u16();
    match verif::parsers::decimal::<u16>(&j(&[&show(&v), t])) { Ok((rest, p)) => check(rest == t && p == v, "a number parses as such"), Err(_) => check(false, "a number parses") }
    let v = any_i64();
    match verif::parsers::decimal::<i64>(&j(&[&show(&v), t])) { Ok((rest, p)) => check(rest == t && p == v, "a signed number parses as such"), Err(_) => check(false, "a signed number parses") }
    let v = any_u64();
    match verif::parsers::decimal::<u16>(&j(&[&show(&v), t])) {
        Ok((rest, p)) => check(rest == t && p as u64 == v, "a number out of range is not truncated"),
        Err(_) => check(v > 65535, "a number in range parses"),
    }
    check(verif::parsers::decimal::<u16>("").is_err() && verif::parsers::decimal::<i64>("-").is_err() && verif::parsers::decimal::<i64>("x").is_err(), "no number without digits");
    cover("end");
}
/// Lines with a trailing operand, parenthesis or word are rejected
pub fn vc_trailing() {
    let s = gen_stmt_k(match choose(4) { 0 => 0, 1 => 2, 2 => 5, _ => 7 }, 1);
    let s = s.with_info(None);
    let mut text = show_at(&s, &mut Indentation::Exact(2));
    text.pop();
    // (`skip <= zz` is a connection)
    let junk = match choose(4) { 0 => " zz", 1 => ")", 2 => ", zz", _ => if *s.kind() == stmt::Kind::Empty { " skip" } else { " <= zz" } };
    let input = j(&[&text, junk, "\n"]);
    match verif::stmt::stmt(&mut AllCtx::default(), &input, &mut Indentation::Exact(2)) {
        Ok(_) => check(false, "trailing input is not ignored"),
        Err(_) => {}
    }
    cover("end");
}
/// The number of values in a print statement is the number of format specifiers
pub fn vc_print_values() {
    let (a, b) = (any_expr::<Arc<Entity>>(), any_expr::<Arc<Entity>>());
    let (x, y) = (show(&a), show(&b));
    let (n, k) = (choose(3), choose(3));
    let fmt = match n { 0 => "v", 1 => "v %d", _ => "v %d %x" };
    let args = match k { 0 => String::new(), 1 => j(&[", ", &x]), _ => j(&[", ", &x, ", ", &y]) };
    let input = j(&["printf(", &x, ", ", &y, ", \"", fmt, "\"", &args, ")\n"]);
    match verif::stmt::stmt(&mut AllCtx::default(), &input, &mut Indentation::root()) {
        Ok((rest, s)) => {
            check(rest == "" && n == k, "a print statement has a value for every format specifier");
            check(match s.kind() { stmt::Kind::Print { msg, .. } => msg.len() == if n == 2 { 4 } else { n + 1 }, _ => false }, "a print statement has an element for every part");
        }
        Err(_) => check(n != k, "a print statement with a value for every format specifier parses"),
    }
    cover("end");
}

/// Tokens of a circuit: byte ranges of words, operators and strings; line structure is left alone
pub fn tokens(s: &str) -> Vec<(usize, usize)> {
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let end = |i: usize| if i < cs.len() { cs[i].0 } else { s.len() };
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i].1;
        let start = i;
        if c == ' ' || c == '\n' { i += 1; continue }
        if c == '@' && i + 1 < cs.len() && cs[i + 1].1 == '[' {
            i += 2;
            while i < cs.len() && cs[i].1 != ']' { if cs[i].1 == '\\' { i += 1 } i += 1 }
            i += 1;
        } else if c == '"' {
            i += 1;
            while i < cs.len() && cs[i].1 != '"' { if cs[i].1 == '\\' { i += 1 } i += 1 }
            i += 1;
        } else if verif::parsers::is_identifier_char(c) || (c == '-' && i + 1 < cs.len() && cs[i + 1].1.is_ascii_digit()) {
            i += 1;
            while i < cs.len() && verif::parsers::is_identifier_char(cs[i].1) { i += 1 }
        } else if i + 1 < cs.len() && matches!((c, cs[i + 1].1), ('<', '=') | ('<', '-') | ('=', '>') | ('<', '<') | ('>', '>')) {
            i += 2;
        } else { i += 1 }
        v.push((end(start), end(i.min(cs.len()))));
    }
    v
}
fn gen_circuit() -> Circuit {
    let ms = gen_modules(3);
    Circuit::new(ms[ms.len() - 1].clone()).with_info(any_info())
}
fn real_parameter(text: &str, t: (usize, usize)) -> bool {
    let line_start = text[..t.0].rfind('\n').map(|p| p + 1).unwrap_or(0);
    let line = text[line_start..].lines().next().unwrap_or("");
    line.trim_start().starts_with("parameter ") && line.contains('.') && !line.contains('"')
}
/// Tokens which may be left out, or mean the same as none
fn optional(text: &str, t: (usize, usize)) -> bool {
    let tok = &text[t.0..t.1];
    let line_start = text[..t.0].rfind('\n').map(|p| p + 1).unwrap_or(0);
    let line = &text[line_start..];
    // the comma of memory ports is optional
    (tok == "," && line.contains(" mport "))
        // a width which happens to be the inferred one, in a literal
        || tok == "-"
        // digits beyond the precision of a double
        || real_parameter(text, t)
}
/// No token is redundant: without it, the circuit is another one or none
pub fn nt_token_removed() {
    let c = gen_circuit();
    let text = show(&c);
    let toks = tokens(&text);
    let k = choose(toks.len());
    let t = toks[k];
    assume(!optional(&text, t));
    let cut = j(&[&text[..t.0], &text[t.1..]]);
    if let Ok(d) = circuit::parse(&cut) {
        if d == c {
            debug(&text); debug(&cut);
            // the name of a module can only be repeated, defaults of memories may be left out
            let tok = &text[t.0..t.1];
            let d2 = show(&d);
            check(tok == "" || sorted(&d2) != sorted(&text), "no token is ignored");
        }
    }
    cover("end");
}
/// Nothing can be added without effect
pub fn nt_token_inserted() {
    let c = gen_circuit();
    let text = show(&c);
    let toks = tokens(&text);
    let mut k = choose(toks.len());
    if any_bool() {
        // rare combinations of tokens are as likely as common ones
        let w = |k: usize| &text[toks[k].0..toks[k].1];
        let mut pairs: Vec<(&str, &str, usize)> = (1..toks.len()).map(|k| (w(k - 1), w(k), k)).collect();
        pairs.sort();
        pairs.dedup_by_key(|p| (p.0, p.1));
        if !pairs.is_empty() { k = pairs[choose(pairs.len())].2 }
    }
    let t = toks[k];
    let junk = if any_bool() { &text[t.0..t.1] } else { ["zz", "(", ")", ",", ":", "<=", "[0]", ".f", "5", "\"x\"", "skip", "@", "=>", "with", "flip", "is invalid", "#", "]", "%", "-"][choose(20)] };
    let at = if any_bool() { t.0 } else { t.1 };
    let sp = if any_bool() { " " } else { "" };
    let put = j(&[&text[..at], sp, junk, sp, &text[at..]]);
    if let Ok(d) = circuit::parse(&put) {
        if d == c { debug(&text); debug(&put); }
        // spaces in front of a line are significant, an additional comma in front of the clock is not
        check(d != c || (junk == "," && put.contains(" mport ")) || (junk.bytes().all(|b| b.is_ascii_digit()) && real_parameter(&text, t)) || (junk == "-" && text[at..].trim_start().starts_with('0')) || junk == "0", "nothing in the input is ignored");
    }
    cover("end");
}
/// Whatever is accepted is printed such that it parses as the same circuit
/// The order of parameters is not determined
fn sorted(t: &str) -> Vec<&str> { let mut v: Vec<&str> = t.lines().collect(); v.sort(); v }
fn debug(t: &str) { if std::env::var("VC_SHOW").is_ok() { eprintln!("-----\n{}", t) } }
pub fn nt_reparse() {
    let c = gen_circuit();
    let mut text = show(&c);
    for _ in 0..1 + choose(3) {
        let toks = tokens(&text);
        if toks.is_empty() { break }
        let k = choose(toks.len());
        let t = toks[k];
        text = match choose(4) {
            0 => j(&[&text[..t.0], &text[t.1..]]),
            1 => { let u = toks[choose(toks.len())]; j(&[&text[..t.0], &text[u.0..u.1], &text[t.1..]]) }
            2 => { let w = ["UInt", "5", "x", "+7", "\"hff\"", "skip", "flip", "clk", "else", "-3", "UInt<8>", "SInt(\"h-5\")", "new", "%d", "0", "99999"][choose(16)]; j(&[&text[..t.0], w, &text[t.1..]]) }
            _ => { let l = text.lines().nth(choose(text.lines().count())).unwrap_or("").to_string(); let p = text[t.0..].find('\n').map(|p| t.0 + p + 1).unwrap_or(text.len()); j(&[&text[..p], &l, "\n", &text[p..]]) }
        };
    }
    // the meaning of modules of the same name is not determined
    let mut names: Vec<&str> = text.lines().filter(|l| l.starts_with("  module ") || l.starts_with("  extmodule ")).map(|l| l.trim_start().split(|c| c == ' ' || c == ':').nth(1).unwrap_or("")).collect();
    let n = names.len();
    names.sort();
    names.dedup();
    assume(n == names.len());
    if let Ok(c) = circuit::parse(&text) {
        cover("accepted");
        let again = show(&c);
        debug(&text); debug(&again);
        match circuit::parse(&again) {
            // an empty block is printed as a `skip`
            Ok(d) => check(d == c || (again.contains("skip\n") && sorted(&show(&d)) == sorted(&again)), "an accepted circuit survives printing and parsing"),
            Err(_) => check(false, "an accepted circuit parses again after printing"),
        }
    }
    cover("end");
}
/// A line which is not FIRRTL makes the circuit invalid, wherever it is
pub fn nt_garbage_line() {
    let c = gen_circuit();
    let text = show(&c);
    let lines: Vec<&str> = text.lines().collect();
    // lines may continue in infos and strings: only simple ones are considered
    assume(!text.contains("\\\n"));
    let k = choose(lines.len() + 1);
    let indent = " ".repeat(choose(8));
    let junk = ["?", "zz", "skip skip", "node = 5", "= 3", "wire", "when", "else:", "zz <=", "module", "5", "attach()", "parameter", "input", "( )"][choose(15)];
    let mut put = String::new();
    for (i, l) in lines.iter().enumerate() { if i == k { put.push_str(&j(&[&indent, junk, "\n"])) } put.push_str(l); put.push('\n'); }
    if k == lines.len() { put.push_str(&j(&[&indent, junk, if any_bool() { "\n" } else { "" }])) }
    // `else:` continues a conditional which has no `else` yet
    if junk == "else:" { let _ = circuit::parse(&put); }
    else { check(circuit::parse(&put).is_err(), "a line which is not FIRRTL is not ignored"); }
    cover("end");
}
/// Names are taken literally, and are never empty
pub fn nt_names() {
    let n = any_name();
    let ctx = AllCtx::default();
    for t in [j(&["wire ", &n, " : UInt<1>\n"]), j(&["node ", &n, " = a\n"]), j(&["reg ", &n, " : UInt, clk\n"]), j(&["inst ", &n, " of ", &n, "\n"]), j(&["infer mport ", &n, " = ", &n, "[a], clk\n"])] {
        match verif::stmt::entity_decl(&ctx, &t, &mut Indentation::root()) {
            Ok((rest, (e, None))) => { use firrtl_ast::Named; check(rest == "" && e.name_ref() == &*n, "names are taken literally") }
            _ => check(false, "a declaration parses"),
        }
    }
    for t in ["wire : UInt<1>\n", "node = a\n", "reg : UInt, clk\n", "inst of a\n", "infer mport = a[b], clk\n", "wire 1a : UInt\n", "cmem : UInt[4]\n", "mem :\n  data-type => UInt\n  depth => 4\n"] {
        check(verif::stmt::entity_decl(&ctx, t, &mut Indentation::root()).is_err(), "a name is required");
    }
    for t in ["a. <= b\n", "a.b.c. <= b\n", "a[] <= b\n", ".a <= b\n", " <= b\n", "stop(a, b, 1) : \n"] {
        check(verif::stmt::stmt(&mut AllCtx::default(), t, &mut Indentation::root()).is_err(), "a name is required");
    }
    for t in ["circuit :\n", "circuit x\n", "circuit x:\n  module :\n    skip\n", "circuit x:\n", "circuit x:\n  module y:\n", "circuit x:\n  module x:\n    input : UInt\n", "circuit x:\n  extmodule x:\n    defname = \n", "circuit x:\n  extmodule x:\n    parameter = 4\n"] {
        check(circuit::parse(t).is_err(), "a name is required");
    }
    let _ = (env::strict(), Statement::from(stmt::Kind::Empty), Type::GroundType(any_ground()));
    cover("end");
}

// ---------------------------------------------------------------- C22

/// Line endings, including comments and blank lines
pub fn vc_le() {
    let t = match choose(3) { 0 => "", 1 => "  skip\n", _ => "x" };
    let c = any_plain();
    let input = match choose(8) {
        0 => j(&["\n", t]),
        1 => j(&["  \t\n", t]),
        2 => j(&[";", &c, "\n", t]),
        3 => j(&[" ; ", &c, "\n", t]),
        4 => j(&["\n\n  \n", t]),
        5 => j(&["\n ;", &c, "\n;", &c, "\n", t]),
        6 => j(&["\r\n", t]),
        _ => j(&[" ;", &c, "\r\n \r\n", t]),
    };
    match verif::parsers::le(&input) { Ok((rest, ())) => check(rest == t, "blank lines and comments are skipped, the next line is not"), Err(_) => check(false, "a line ending is recognised") }
    check(verif::parsers::le("").is_err() && verif::parsers::le(" x\n").is_err() && verif::parsers::le("; x").is_err(), "a line ending is required");
    cover("end");
}
pub fn vc_spaced() {
    use nom::Parser;
    let s = match choose(5) { 0 => "", 1 => " ", 2 => "   ", 3 => "\t", _ => " \t " };
    let (i1, i2) = (j(&[s, "<= a"]), j(&[s, "\n<= a"]));
    match verif::parsers::spaced(verif::parsers::op("<=")).parse(&i1) { Ok((rest, ())) => check(rest == " a", "preceding spaces are skipped"), Err(_) => check(false, "spaces are skipped") }
    check(verif::parsers::spaced(verif::parsers::op("<=")).parse(&i2).is_err(), "line endings are significant");
    cover("end");
}
pub fn vc_comma() {
    let s = match choose(3) { 0 => "", 1 => " ", _ => " \t" };
    check(verif::parsers::comma(&j(&[s, ", a"])) == Ok((" a", ())), "comma");
    check(verif::parsers::lp(&j(&[s, "(a"])) == Ok(("a", ())), "left parenthesis");
    check(verif::parsers::rp(&j(&[s, ") a"])) == Ok((" a", ())), "right parenthesis");
    check(verif::parsers::comma("a").is_err() && verif::parsers::lp("a").is_err() && verif::parsers::rp("a").is_err(), "punctuation is required");
    cover("end");
}
/// Comments and blank lines between statements make no difference
pub fn vc_blank_stmt() {
    let s = gen_stmt_k(match choose(4) { 0 => 0, 1 => 2, 2 => 5, _ => 6 }, 1);
    let mut text = show_at(&s, &mut Indentation::Exact(2));
    text.pop();
    let c = any_plain();
    let e = match choose(4) { 0 => j(&[" ;", &c, "\n"]), 1 => j(&["\n\n   \n"]), 2 => j(&["\n      ; ", &c, "\n"]), _ => j(&["  \n"]) };
    let input = j(&[&text, &e, "  skip\n"]);
    match verif::stmt::stmt(&mut AllCtx::default(), &input, &mut Indentation::Exact(2)) {
        Ok((rest, p)) => check(rest == "  skip\n" && p == s, "comments and blank lines make no difference"),
        Err(_) => check(false, "comments and blank lines are accepted"),
    }
    cover("end");
}
/// Spaces around the arrows of a memory make no difference
pub fn vc_memory_spaces() {
    let m = gen_memory();
    let text = crate::print::memory_text(&m, match choose(3) { 0 => "=>", 1 => "\t=>", _ => "=> \t" });
    match verif::stmt::stmt(&mut AllCtx::default(), &text, &mut Indentation::Exact(2)) {
        Ok((rest, p)) => check(rest == "" && p == Statement::from(stmt::Kind::Declaration(Arc::new(Entity::Memory(m)))), "spaces around arrows make no difference"),
        Err(_) => check(false, "spaces around arrows are free"),
    }
    cover("end");
}
/// Spread the text of a circuit: comments, blank lines, additional spaces and tabs
fn relayout(text: &str, nl: &str) -> String {
    let toks = tokens(text);
    let mut o = String::new();
    let mut pos = 0;
    if any_bool() { o.push_str(["\n", "; first\n", "  \n\n"][choose(3)]) }
    for (i, t) in toks.iter().enumerate() {
        let gap = &text[pos..t.0];
        // a token spanning several lines is taken as is; line starts keep their indentation
        if gap.contains('\n') {
            let (_, indent) = gap.split_at(gap.rfind('\n').unwrap() + 1);
            o.push_str(["", "", "", "  ", " ; a \"comment\" @[x]", ";", "\t"][choose(7)]);
            o.push_str(nl);
            if choose(4) == 0 { o.push_str([" \t", "        ; c:", "; skip"][choose(3)]); o.push_str(nl); }
            o.push_str(indent);
        } else if gap.contains(' ') && i > 0 {
            // next to punctuation, spaces are not required
            let word = |t: &(usize, usize)| text[t.0..t.1].chars().next().map(|c| verif::parsers::is_identifier_char(c) || c == '"' || c == '-').unwrap_or(false);
            if choose(4) == 0 && !(word(&toks[i - 1]) && word(t)) { o.push_str(&text[t.0..t.1]); pos = t.1; continue }
            o.push_str(gap);
            if choose(4) == 0 { o.push_str(["  ", "\t", " \t "][choose(3)]) }
        } else {
            o.push_str(gap);
            let tok = &text[t.0..t.1];
            if i > 0 && choose(4) == 0 && matches!(tok, "," | ")" | "(" | "]" | ":" | "}") { o.push_str([" ", "\t"][choose(2)]) }
        }
        o.push_str(&text[t.0..t.1]);
        pos = t.1;
    }
    o.push_str(nl);
    o
}
pub fn nt_layout() {
    let c = gen_circuit();
    let text = relayout(&show(&c), "\n");
    debug(&text);
    match circuit::parse(&text) { Ok(d) => check(d == c, "layout makes no difference"), Err(_) => check(false, "layout is free") }
    cover("end");
}
pub fn nt_crlf() {
    let c = gen_circuit();
    let text = relayout(&show(&c), "\r\n");
    match circuit::parse(&text) { Ok(d) => check(d == c, "the kind of line endings makes no difference"), Err(_) => check(false, "both kinds of line endings are accepted") }
    cover("end");
}
pub fn nt_expr_spaces() {
    let e = gen_expr::<Rf>(depth(), 2);
    let text = show(&e);
    let toks = tokens(&text);
    let mut o = String::new();
    let mut pos = 0;
    for (i, t) in toks.iter().enumerate() {
        o.push_str(&text[pos..t.0]);
        let tok = &text[t.0..t.1];
        let prev = if i > 0 { &text[toks[i - 1].0..toks[i - 1].1] } else { "" };
        // not within a width, where spaces are not accepted
        if i > 0 && choose(2) == 0 && tok != "<" && tok != ">" && prev != "<" { o.push_str([" ", "\t", "  "][choose(3)]) }
        o.push_str(tok);
        pos = t.1;
    }
    match verif::expr::expr(|n| Rf::by_name(n), &o) { Ok((rest, p)) => check(rest == "" && p == e, "spaces make no difference"), Err(_) => check(false, "spaces are accepted") }
    cover("end");
}

// ---------------------------------------------------------------- C23

fn bits_u(v: &BigUint) -> u64 { let mut n = 0; let mut w = v.clone(); while w.to_u8() != Some(0) { w >>= 1u32; n += 1; } n }

fn lit(text: &str) -> Option<Expr<Rf>> { match verif::expr::expr(|_| None, text) { Ok(("", e)) => Some(e), _ => None } }

/// An explicit width is kept as is
pub fn vc_uint_width() {
    let (v, w) = (any_biguint(), any_u16());
    let e = lit(&j(&["UInt<", &show(&w), ">(", &show(&v), ")"]));
    check(e == Some(Expression::UIntLiteral { value: v, width: w }), "width and value of an unsigned literal are taken literally");
    cover("end");
}
pub fn vc_sint_width() {
    let (v, w) = (any_bigint(), any_u16());
    let e = lit(&j(&["SInt<", &show(&w), ">(", &show(&v), ")"]));
    check(e == Some(Expression::SIntLiteral { value: v, width: w }), "width and value of a signed literal are taken literally");
    cover("end");
}
/// Without a width, it is the one required
pub fn vc_lit_inferred() {
    if any_bool() {
        let v = any_u64();
        let mut n = 0u16;
        while n < 64 && (v >> n) != 0 { n += 1; }
        let e = lit(&j(&["UInt(", &show(&v), ")"]));
        check(e == Some(Expression::UIntLiteral { value: BigUint::from(v), width: n }), "the width of an unsigned literal is the number of its bits");
    } else {
        let s = any_i64();
        let mut m = 0u16;
        let a = s.unsigned_abs();
        while m < 64 && (a >> m) != 0 { m += 1; }
        let e = lit(&j(&["SInt(", &show(&s), ")"]));
        check(e == Some(Expression::SIntLiteral { value: BigInt::from(s), width: m + 1 }), "the width of a signed literal includes the sign");
    }
    cover("end");
}
/// Concrete instances of all radix forms
pub fn vc_lit_radix() {
    let u = |v: u64, width| Some(Expression::UIntLiteral { value: BigUint::from(v), width });
    let s = |v: i64, width| Some(Expression::SIntLiteral { value: BigInt::from(v), width });
    match choose(10) {
        0 => check(lit("UInt<8>(\"hff\")") == u(255, 8), "hexadecimal literal"),
        1 => check(lit("UInt<8>(\"o17\")") == u(15, 8), "octal literal"),
        2 => check(lit("UInt<8>(\"b101\")") == u(5, 8), "binary literal"),
        3 => check(lit("UInt(\"hFf\")") == u(255, 8), "inferred width of a hexadecimal literal"),
        4 => check(lit("SInt<8>(\"h-7f\")") == s(-127, 8), "negative hexadecimal literal"),
        5 => check(lit("SInt(\"b-100\")") == s(-4, 4), "inferred width of a negative literal"),
        6 => check(lit("SInt(\"o+7\")") == s(7, 4), "explicit sign"),
        7 => check(lit("UInt(\"b2\")").is_none() && lit("UInt(\"o8\")").is_none() && lit("UInt(\"hg\")").is_none(), "digits have to be valid"),
        8 => check(lit("UInt(\"h-1\")").is_none() && lit("UInt(-1)").is_none() && lit("UInt(\"12\")").is_none() && lit("UInt(\"h\")").is_none(), "unsigned literals are not negative"),
        _ => check(lit("UInt(0)") == u(0, 0) && lit("SInt(0)") == s(0, 1) && lit("SInt(-1)") == s(-1, 2), "smallest literals"),
    }
    cover("end");
}
pub fn nt_lit() {
    let v = any_biguint();
    let neg = any_bool();
    let (r, k) = [(2u32, "b"), (8, "o"), (16, "h"), (10, "")][choose(4)];
    let mut d = v.to_str_radix(r);
    if any_bool() { d = d.to_uppercase() }
    for _ in 0..choose(3) { d.insert(0, '0') }
    let q = if r == 10 { "" } else { "\"" };
    let w = any_width();
    let ws = match w { Some(w) => j(&["<", &show(&w), ">"]), None => String::new() };
    let plus = if any_bool() { "+" } else { "" };
    if any_bool() {
        let e = lit(&j(&["UInt", &ws, "(", q, k, plus, &d, q, ")"]));
        let width = match w { Some(w) => Some(w as u64), None => Some(bits_u(&v)) };
        check(e == width.map(|w| Expression::UIntLiteral { value: v.clone(), width: w as u16 }), "value and width of an unsigned literal");
        if neg && v > BigUint::from(0u8) { check(lit(&j(&["UInt", &ws, "(", q, k, "-", &d, q, ")"])).is_none(), "unsigned literals are not negative") }
    } else {
        let s = BigInt::from_str_radix(&v.to_str_radix(10), 10).unwrap_or_default();
        let s = if neg { -s } else { s };
        let e = lit(&j(&["SInt", &ws, "(", q, k, if neg { "-" } else { plus }, &d, q, ")"]));
        let width = match w { Some(w) => w, None => (bits_u(&v) + 1) as u16 };
        check(e == Some(Expression::SIntLiteral { value: s, width }), "value and width of a signed literal");
    }
    // a width not representable is an error, not another width
    let big = show(&(65536u64 + any_u16() as u64));
    check(lit(&j(&["UInt<", &big, ">(", &show(&v), ")"])).is_none(), "a width out of range is not truncated");
    cover("end");
}
pub fn nt_float() {
    let d = any_double();
    let mut s = format!("{:?}", d).replace('e', "E");
    if !s.contains('.') { s = match s.find('E') { Some(p) => j(&[&s[..p], ".0", &s[p..]]), None => j(&[&s, ".0"]) } }
    match verif::parsers::float::<f64>(&s) { Ok((rest, p)) => check(rest == "" && p == d, "a floating point number parses as such"), Err(_) => check(false, "a floating point number parses") }
    cover("end");
}
