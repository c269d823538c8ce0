//! C09 parsers and typing never panic or hang
use crate::gen::*;
use crate::parse::tokens;
use crate::print::{j, show};
use crate::vc::*;
use firrtl_ast::circuit;
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::stmt::Entity;
use firrtl_ast::types::{Typed, TypeExt};
use firrtl_ast::verif::{self, Indentation};
use firrtl_ast::{Circuit, Named};
use std::sync::Arc;

crate::harnesses! {
    "C09": vc_tot_type, vc_tot_literal, vc_tot_escape, vc_tot_fmt, vc_tot_typing, nt_fuzz_circuit, nt_fuzz_text, nt_fuzz_parts, nt_fuzz_numbers, nt_typing;
}

/// An arbitrary short text of characters relevant to the grammar
fn any_input(max: usize) -> String {
    let n = choose(max + 1);
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push(any_char()); i += 1; }
    s
}
pub fn vc_tot_type() {
    let s = any_input(if native() { 12 } else { 3 });
    let t = j(&[match choose(4) { 0 => "", 1 => "UInt", 2 => "Fixed<", _ => "{" }, &s]);
    let r = verif::types::r#type(&t);
    if let Ok((rest, _)) = r { check(rest.len() <= t.len(), "a parser consumes input") }
    cover("end");
}
pub fn vc_tot_literal() {
    let s = any_input(if native() { 12 } else { 3 });
    let t = j(&[match choose(4) { 0 => "UInt<", 1 => "UInt(\"h", 2 => "SInt(", _ => "UInt<1>(" }, &s]);
    let _ = verif::expr::expr(|n| Rf::by_name(n), &t);
    cover("end");
}
pub fn vc_tot_escape() {
    let s = any_input(if native() { 12 } else { 4 });
    let t = j(&[" @[", &s]);
    let r = verif::parse_info(&t);
    check(r.is_ok(), "an info attribute is optional");
    cover("end");
}
pub fn vc_tot_fmt() {
    let s = any_input(if native() { 12 } else { 4 });
    match verif::stmt::fmt_string_part(&s) { Ok((rest, _)) => check(rest.len() < s.len(), "a part of a format string is not empty"), Err(_) => {} }
    cover("end");
}
/// Types of arbitrary expressions can be determined, or are reported as errors
pub fn vc_tot_typing() {
    let e: Expr<Rt> = Expression::PrimitiveOp(gen_op(1));
    let _ = e.r#type();
    let _ = e.flow();
    cover("end");
}
fn poke(text: &mut String) {
    let cut = |s: &str, i: usize| { let mut i = i; while !s.is_char_boundary(i) { i -= 1 } i };
    if text.is_empty() { return }
    match choose(7) {
        0 => { let a = cut(text, choose(text.len())); let b = cut(text, (a + choose(20)).min(text.len())); text.replace_range(a..b.max(a), ""); }
        1 => { let a = cut(text, choose(text.len())); text.insert(a, any_char()); }
        2 => { let a = cut(text, choose(text.len())); text.truncate(a); }
        3 => { let ts = tokens(text); if !ts.is_empty() { let t = ts[choose(ts.len())]; let u = ts[choose(ts.len())]; let w = text[u.0..u.1].to_string(); text.replace_range(t.0..t.1, &w); } }
        4 => { let ts = tokens(text); if !ts.is_empty() { let t = ts[choose(ts.len())]; let w = ["99999999999999999999", "-1", "65536", "0", "\"", "\"\\", "@[", "mux(", "((", "[", "UInt<", "when", "else", "%", "\"%", "\"h\"", "-", "\\", ";", "Fixed<<", "{", "flip"][choose(22)]; text.replace_range(t.0..t.1, w); } }
        5 => { let ls: Vec<&str> = text.lines().collect(); let a = choose(ls.len()); let b = choose(ls.len()); let mut v: Vec<&str> = ls.clone(); v.swap(a, b); *text = v.join("\n"); }
        _ => { let n = choose(6); *text = text.replacen('\n', &j(&["\n", &" ".repeat(n)]), 1 + choose(4)); }
    }
}
pub fn nt_fuzz_circuit() {
    let ms = gen_modules(2);
    let c = Circuit::new(ms[ms.len() - 1].clone()).with_info(any_info());
    let mut text = show(&c);
    for _ in 0..1 + choose(4) { poke(&mut text) }
    if let Ok(c) = circuit::parse(&text) {
        // using what was parsed does not panic, either
        let _ = show(&c);
        for s in c.top_module().statements() {
            for d in s.declarations() { let _ = d.r#type(); let _ = firrtl_ast::expr::Reference::flow(d); let _ = d.name(); }
        }
        cover("accepted");
    }
    if let Ok(m) = circuit::consumer(&text) { let mut n = 0; for r in m { n += 1; if let Err(e) = r { let _ = show(&e); } check(n <= text.len() + 1, "iterating over modules terminates") } }
    cover("end");
}
pub fn nt_fuzz_text() {
    let mut s = String::new();
    for _ in 0..choose(30) {
        match choose(3) {
            0 => s.push(any_char()),
            1 => s.push_str(["circuit ", "x", ":", "\n", "  module ", "    ", "when ", "else", "<=", "(", ")", "UInt", "<", ">", "\"", "@[", "]", "mem ", "=>", "depth ", "input ", "reg ", ",", "%d", "printf(", "-1", ";", "\r\n", "\\"][choose(29)]),
            _ => s.push_str(&any_name()),
        }
    }
    let _ = circuit::parse(&s);
    let _ = circuit::parse(&j(&["circuit x:\n  module x:\n    ", &s]));
    cover("end");
}
pub fn nt_fuzz_parts() {
    let mut s = match choose(4) {
        0 => show(&gen_expr::<Rf>(depth(), 2)),
        1 => show(&any_type()),
        2 => { let s = gen_stmt(2); crate::print::show_at(&s, &mut Indentation::root()) }
        _ => show(&gen_port()),
    };
    for _ in 0..choose(4) { poke(&mut s) }
    let _ = verif::types::r#type(&s);
    let _ = verif::stmt::stmt(&mut AllCtx::default(), &s, &mut Indentation::root());
    let _ = verif::stmt::stmts(AllCtx::default(), &s, &mut Indentation::root());
    let _ = verif::module::port(&s);
    let _ = verif::module::param_value(&s);
    let _ = verif::memory::memory(&s, &mut Indentation::root());
    let _ = verif::memory::simple_mem(&s);
    if let Ok((_, e)) = verif::expr::expr(|n| Some(wire_named(n.into())), &s) {
        let _ = e.r#type().map(|t| t.is_passive());
        let _ = e.flow();
        let _ = e.references().count();
    }
    cover("end");
}
/// Numbers of any size are handled in any place
pub fn nt_fuzz_numbers() {
    let num = || { let s = ["", "-", "+"][choose(3)]; let d = match choose(5) { 0 => show(&any_u64()), 1 => show(&any_u16()), 2 => j(&[&show(&any_u64()), &show(&any_u64()), &show(&any_u64())]), 3 => String::new(), _ => ["65535", "65536", "32767", "32768", "-32768", "٣", "²", "Ⅷ", "00", "18446744073709551616", "9223372036854775808"][choose(11)].to_string() }; j(&[s, &d]) };
    let (a, b, c) = (num(), num(), num());
    let w = |s: String| Some(wire_named(s.as_str().into()));
    let text = match choose(14) {
        0 => j(&["UInt<", &a, ">(", &b, ")"]),
        1 => j(&["SInt<", &a, ">(\"h", &b, "\")"]),
        2 => j(&["bits(UInt<", &a, ">(1), ", &b, ", ", &c, ")"]),
        3 => j(&["shl(UInt<", &a, ">(1), ", &b, ")"]),
        4 => j(&["dshl(UInt<", &a, ">(1), UInt<", &b, ">(1))"]),
        5 => j(&["pad(x, ", &a, ")"]),
        6 => j(&["head(UInt<", &a, ">(1), ", &b, ")"]),
        7 => j(&["tail(UInt<", &a, ">(1), ", &b, ")"]),
        8 => j(&["setp(asFixed(UInt<", &a, ">(1), ", &b, "), ", &c, ")"]),
        9 => j(&["incp(asFixed(SInt<", &a, ">(1), ", &b, "), ", &c, ")"]),
        10 => j(&["decp(asFixed(SInt<", &a, ">(1), ", &b, "), ", &c, ")"]),
        11 => j(&["mul(asFixed(SInt<", &a, ">(1), ", &b, "), asFixed(UInt<", &c, ">(1), ", &b, "))"]),
        12 => j(&["x[", &a, "][", &b, "]"]),
        _ => j(&["cat(UInt<", &a, ">(1), shr(SInt<", &b, ">(1), ", &c, "))"]),
    };
    if let Ok((_, e)) = verif::expr::expr(|n| w(n.to_string()), &text) { let _ = e.r#type(); let _ = e.flow(); let _ = show(&e); cover("accepted"); }
    let _ = verif::types::r#type(&j(&["Fixed<", &a, "><<", &b, ">>[", &c, "]"]));
    let _ = verif::memory::memory(&j(&["mem m:\n  data-type => UInt<", &a, ">\n  depth => ", &b, "\n  read-latency => ", &c, "\n"]), &mut Indentation::root());
    let _: Option<Arc<Entity>> = None;
    cover("end");
}
pub fn nt_typing() {
    let e: Expr<Rt> = gen_expr(depth(), 3);
    let _ = e.r#type();
    let _ = e.flow();
    cover("end");
}

/// Known findings: failing inputs which are demonstrated on every run
pub fn finding(name: &str) {
    let n = 1000000;
    let text = match name {
        "deep-nesting" => j(&["circuit a:\n  module a:\n    input b: ", &"{c: ".repeat(n), "UInt", &"}".repeat(n), "\n"]),
        _ => return,
    };
    let _ = circuit::parse(&text);
}
