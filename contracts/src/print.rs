//! C01–C05: concrete syntax and print/parse round trips
use crate::env;
use crate::gen::*;
use crate::vc::*;
use firrtl_ast::expr::{primitive::Operation, Expression};
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{self, common::PortDir, common::ReadUnderWrite, simple};
use firrtl_ast::module;
use firrtl_ast::stmt::{self, print::{Format, PrintElement}, Entity, Statement};
use firrtl_ast::types::{BundleField, GroundType, Orientation, ResetKind, Type};
use firrtl_ast::verif::{self, DisplayIndented, Indentation};
use firrtl_ast::Named;
use std::fmt::{self, Write};
use std::sync::Arc;

crate::harnesses! {
    "C01": vc_expr_literal, vc_expr_reference, vc_expr_op, vc_expr_mux, vc_expr_subscript, vc_expr_syntax, vc_op_syntax, vc_op_parse, nt_expr_deep, nt_expr_entity;
    "C02": vc_type_ground, vc_type_vector, vc_type_bundle, vc_type_syntax, vc_field_name, nt_type_deep;
    "C03": vc_stmt_connect, vc_stmt_simple, vc_stmt_attach, vc_stmt_stop, vc_stmt_print, vc_stmt_decl, vc_stmt_when, vc_stmt_else, vc_stmt_syntax, nt_stmt_deep, nt_stmts;
    "C04": vc_memory, vc_memory_syntax, vc_register, vc_simple_mem, vc_mport, vc_memport_display, nt_memory;
    "C05": vc_port, vc_instance, vc_param_int, vc_ext_module, vc_module_shell, vc_direction, nt_param, nt_module;
}

// ---------------------------------------------------------------- helpers

pub fn show<T: fmt::Display>(t: &T) -> String {
    let mut s = String::new();
    check(write!(s, "{}", t).is_ok(), "printing succeeds");
    s
}
pub fn show_at<T: DisplayIndented>(t: &T, indent: &mut Indentation) -> String {
    let mut s = String::new();
    check(DisplayIndented::fmt(t, indent, &mut s).is_ok(), "printing succeeds");
    s
}
/// Concatenation
pub fn j(parts: &[&str]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < parts.len() { s.push_str(parts[i]); i += 1; }
    s
}
pub fn spaces(n: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < n { s.push(' '); i += 1; }
    s
}
/// What may follow an expression
fn tail() -> &'static str { match choose(8) { 0 => "", 1 => ")", 2 => ", b", 3 => " <= b", 4 => "\n", 5 => " @[b]", 6 => "]", _ => ":" } }
fn type_tail() -> &'static str { match choose(6) { 0 => "", 1 => "\n", 2 => ", b", 3 => "}", 4 => " @[b]", _ => " with" } }
/// What may follow a line indented by `n`: nothing, or a line starting with a word, not indented more
fn line_tail(n: usize, when: bool) -> String {
    if any_bool() { return String::new() }
    let m = any_usize(n);
    if !when { return j(&[&spaces(m), &any_line()]) }
    if any_bool() { return j(&[&spaces(m), &any_line_not_else()]) }
    j(&[&spaces(m), "else", &any_word_line()])
}
/// The indentation of a line
fn any_indent() -> usize { any_usize(if native() { 12 } else { 1 << 40 }) }
pub fn info_text(i: Option<&str>) -> String { verif::print_info(i) }

fn rt_expr<R: MkRef>(e: &Expr<R>) {
    let t = tail();
    let text = j(&[&show(e), t]);
    match verif::expr::expr(|n| R::by_name(n), &text) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed expression is consumed");
            check(p == *e, "parsing a printed expression yields that expression");
        }
        Err(_) => check(false, "a printed expression parses"),
    }
    cover("end");
}

// ---------------------------------------------------------------- C01

pub fn vc_expr_literal() { rt_expr::<Rf>(&gen_literal()) }
pub fn vc_expr_reference() { rt_expr::<Rf>(&Expression::Reference(Rf::mk())) }
pub fn vc_expr_op() { rt_expr::<Rf>(&Expression::PrimitiveOp(gen_op(1))) }
pub fn vc_expr_mux() {
    let e = if any_bool() {
        Expression::Mux { sel: Arc::new(sub_expr::<Rf>(1)), a: Arc::new(sub_expr(1)), b: Arc::new(sub_expr(1)) }
    } else {
        Expression::ValidIf { sel: Arc::new(sub_expr::<Rf>(1)), value: Arc::new(sub_expr(1)) }
    };
    rt_expr(&e)
}
pub fn vc_expr_subscript() {
    let mut e: Expr<Rf> = match choose(3) {
        0 => Expression::Reference(Rf::mk()),
        1 => Expression::ValidIf { sel: Arc::new(sub_expr(1)), value: Arc::new(sub_expr(1)) },
        _ => gen_literal(),
    };
    let n = 1 + choose(if native() { 5 } else { 2 });
    let mut i = 0;
    while i < n {
        e = match choose(3) {
            0 => Expression::SubField { base: Arc::new(e), index: any_field_name() },
            1 => Expression::SubIndex { base: Arc::new(e), index: any_u16() },
            _ => Expression::SubAccess { base: Arc::new(e), index: Arc::new(sub_expr(1)) },
        };
        i += 1;
    }
    rt_expr(&e)
}
/// The concrete syntax of expressions
pub fn vc_expr_syntax() {
    let (a, b, c): (Expr<Rf>, Expr<Rf>, Expr<Rf>) = (sub_expr(1), sub_expr(1), sub_expr(1));
    let (x, y, z) = (show(&a), show(&b), show(&c));
    let (a, b, c) = (Arc::new(a), Arc::new(b), Arc::new(c));
    let n = any_u16();
    let d = show(&n);
    let (e, want): (Expr<Rf>, String) = match choose(8) {
        0 => { let v = any_biguint(); let t = show(&v); (Expression::UIntLiteral { value: v, width: n }, j(&["UInt<", &d, ">(", &t, ")"])) }
        1 => { let v = any_bigint(); let t = show(&v); (Expression::SIntLiteral { value: v, width: n }, j(&["SInt<", &d, ">(", &t, ")"])) }
        2 => { let r = Rf::mk(); (Expression::Reference(r.clone()), j(&[&r.name])) }
        3 => { let f = any_field_name(); (Expression::SubField { base: a, index: f.clone() }, j(&[&x, ".", &f])) }
        4 => (Expression::SubIndex { base: a, index: n }, j(&[&x, "[", &d, "]"])),
        5 => (Expression::SubAccess { base: a, index: b }, j(&[&x, "[", &y, "]"])),
        6 => (Expression::Mux { sel: a, a: b, b: c }, j(&["mux(", &x, ", ", &y, ", ", &z, ")"])),
        _ => (Expression::ValidIf { sel: a, value: b }, j(&["validif(", &x, ", ", &y, ")"])),
    };
    check(show(&e) == want, "expressions print in FIRRTL syntax");
    cover("end");
}
/// The syntax of an operation, given the printed operands
fn op_text(op: &Operation<Rf>) -> String {
    use Operation as O;
    let b = |k: &str, l: &Arc<Expr<Rf>>, r: &Arc<Expr<Rf>>| j(&[k, "(", &show(l), ", ", &show(r), ")"]);
    let u = |k: &str, l: &Arc<Expr<Rf>>| j(&[k, "(", &show(l), ")"]);
    let n = |k: &str, l: &Arc<Expr<Rf>>, v: u16| j(&[k, "(", &show(l), ", ", &show(&v), ")"]);
    match op {
        O::Add(l, r) => b("add", l, r),
        O::Sub(l, r) => b("sub", l, r),
        O::Mul(l, r) => b("mul", l, r),
        O::Div(l, r) => b("div", l, r),
        O::Rem(l, r) => b("rem", l, r),
        O::Lt(l, r) => b("lt", l, r),
        O::LEq(l, r) => b("leq", l, r),
        O::Gt(l, r) => b("gt", l, r),
        O::GEq(l, r) => b("geq", l, r),
        O::Eq(l, r) => b("eq", l, r),
        O::NEq(l, r) => b("neq", l, r),
        O::Pad(l, v) => n("pad", l, *v),
        O::Cast(l, GroundType::UInt(_)) => u("asUInt", l),
        O::Cast(l, GroundType::SInt(_)) => u("asSInt", l),
        O::Cast(l, GroundType::Fixed(_, Some(p))) => j(&["asFixed(", &show(l), ", ", &show(p), ")"]),
        O::Cast(l, GroundType::Clock) => u("asClock", l),
        O::Cast(l, _) => u("asAsyncReset", l),
        O::Shl(l, v) => n("shl", l, *v),
        O::Shr(l, v) => n("shr", l, *v),
        O::DShl(l, r) => b("dshl", l, r),
        O::DShr(l, r) => b("dshr", l, r),
        O::Cvt(l) => u("cvt", l),
        O::Neg(l) => u("neg", l),
        O::Not(l) => u("not", l),
        O::And(l, r) => b("and", l, r),
        O::Or(l, r) => b("or", l, r),
        O::Xor(l, r) => b("xor", l, r),
        O::AndReduce(l) => u("andr", l),
        O::OrReduce(l) => u("orr", l),
        O::XorReduce(l) => u("xorr", l),
        O::Cat(l, r) => b("cat", l, r),
        O::Bits(l, Some(lo), Some(hi)) => j(&["bits(", &show(l), ", ", &show(hi), ", ", &show(lo), ")"]),
        O::Bits(l, None, Some(v)) => n("head", l, *v),
        O::Bits(l, Some(v), _) => n("tail", l, *v),
        O::Bits(_, None, None) => String::new(),
        O::IncPrecision(l, v) => n("incp", l, *v),
        O::DecPrecision(l, v) => n("decp", l, *v),
        O::SetPrecision(l, v) => j(&["setp(", &show(l), ", ", &show(v), ")"]),
    }
}
pub fn vc_op_syntax() {
    let op: Operation<Rf> = gen_op(1);
    let want = op_text(&op);
    check(show(&op) == want, "operations print in FIRRTL syntax");
    cover("end");
}
/// Text in FIRRTL syntax parses as the operation it denotes
pub fn vc_op_parse() {
    let op: Operation<Rf> = gen_op(1);
    let text = op_text(&op);
    match verif::expr::primitive_op(|n| Rf::by_name(n), &text) {
        Ok((rest, p)) => {
            check(rest == "", "all of the operation is consumed");
            check(p == op, "text in FIRRTL syntax parses as the operation it denotes");
        }
        Err(_) => check(false, "text in FIRRTL syntax parses"),
    }
    cover("end");
}
pub fn nt_expr_deep() { rt_expr::<Rf>(&gen_expr(1 + depth(), 3)) }
pub fn nt_expr_entity() { rt_expr::<Arc<Entity>>(&gen_expr(depth(), 2)) }

// ---------------------------------------------------------------- C02

fn rt_type(t: &Type) {
    let l = type_tail();
    let text = j(&[&show(t), l]);
    match verif::types::r#type(&text) {
        Ok((rest, p)) => {
            check(rest == l, "exactly the printed type is consumed");
            check(p == *t, "parsing a printed type yields that type");
        }
        Err(_) => check(false, "a printed type parses"),
    }
    cover("end");
}
pub fn vc_type_ground() { rt_type(&Type::GroundType(any_ground())) }
pub fn vc_type_vector() {
    let mut t = if any_bool() { Type::GroundType(any_ground()) } else { let mut v = Vec::new(); v.push(gen_field(0)); Type::Bundle(v.into()) };
    let n = 1 + any_len(3);
    let mut i = 0;
    while i < n { t = Type::Vector(Arc::new(t), any_u16()); i += 1; }
    rt_type(&t)
}
pub fn vc_type_bundle() {
    let n = choose(if native() { 6 } else { 4 });
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { v.push(gen_field(0)); i += 1; }
    rt_type(&Type::Bundle(v.into()))
}
pub fn vc_type_syntax() {
    let t = leaf_type();
    let w = any_u16();
    let (p, d) = (any_i16(), show(&w));
    let q = show(&p);
    let s = show(&t);
    let (t, want): (Type, String) = match choose(14) {
        0 => (GroundType::UInt(None).into(), j(&["UInt"])),
        1 => (GroundType::UInt(Some(w)).into(), j(&["UInt<", &d, ">"])),
        2 => (GroundType::SInt(None).into(), j(&["SInt"])),
        3 => (GroundType::SInt(Some(w)).into(), j(&["SInt<", &d, ">"])),
        4 => (GroundType::Fixed(None, None).into(), j(&["Fixed"])),
        5 => (GroundType::Fixed(Some(w), None).into(), j(&["Fixed<", &d, ">"])),
        6 => (GroundType::Fixed(None, Some(p)).into(), j(&["Fixed<<", &q, ">>"])),
        7 => (GroundType::Fixed(Some(w), Some(p)).into(), j(&["Fixed<", &d, "><<", &q, ">>"])),
        8 => (GroundType::Clock.into(), j(&["Clock"])),
        9 => (GroundType::Reset(ResetKind::Regular).into(), j(&["Reset"])),
        10 => (GroundType::Reset(ResetKind::Async).into(), j(&["AsyncReset"])),
        11 => { let a = if any_bool() { Some(w) } else { None }; (GroundType::Analog(a).into(), if a.is_some() { j(&["Analog<", &d, ">"]) } else { j(&["Analog"]) }) }
        12 => (Type::Vector(Arc::new(t), w), j(&[&s, "[", &d, "]"])),
        _ => {
            let (f, g) = (gen_field(0), gen_field(0));
            let line = |f: &BundleField| j(&[if f.orientation() == Orientation::Flipped { "flip " } else { "" }, f.name(), ": ", &show(f.r#type())]);
            let want = j(&["{", &line(&f), ", ", &line(&g), "}"]);
            let mut v = Vec::new();
            v.push(f);
            v.push(g);
            (Type::Bundle(v.into()), want)
        }
    };
    check(show(&t) == want, "types print in FIRRTL syntax");
    cover("end");
}
pub fn vc_field_name() {
    let n = any_field_name();
    let t = match choose(3) { 0 => "", 1 => ":", _ => " : b" };
    let text = j(&[&n, t]);
    match verif::types::field_name(&text) {
        Ok((rest, p)) => check(rest == t && *p == *n, "a field name is the longest sequence of identifier characters"),
        Err(_) => check(false, "a field name parses"),
    }
    cover("end");
}
pub fn nt_type_deep() { rt_type(&gen_type(1 + depth())) }

// ---------------------------------------------------------------- C03

fn rt_stmt(s: &Statement) {
    let n = any_indent();
    let mut ind = Indentation::Exact(n);
    let text = show_at(s, &mut ind);
    check(ind == Indentation::Exact(n), "printing keeps the indentation");
    let t = line_tail(n, matches!(s.kind(), stmt::Kind::Conditional { .. }));
    let input = j(&[&text, &t]);
    let mut ctx = AllCtx::default();
    let mut ind = if any_bool() && n > 0 { Indentation::MoreThan(any_usize(n - 1)) } else { Indentation::Exact(n) };
    match verif::stmt::stmt(&mut ctx, &input, &mut ind) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed statement is consumed");
            check(p == *s, "parsing a printed statement yields that statement");
            check(ind == Indentation::Exact(n), "parsing a statement locks the indentation");
        }
        Err(_) => check(false, "a printed statement parses"),
    }
    cover("end");
}
pub fn vc_stmt_connect() { let k = choose(2); rt_stmt(&gen_stmt_k(k, 1)) }
pub fn vc_stmt_simple() { rt_stmt(&gen_stmt_k(match choose(3) { 0 => 2, 1 => 4, _ => 5 }, 1)) }
pub fn vc_stmt_attach() { rt_stmt(&gen_stmt_k(6, 1)) }
pub fn vc_stmt_stop() { rt_stmt(&gen_stmt_k(7, 1)) }
pub fn vc_stmt_print() { rt_stmt(&gen_stmt_k(8, 1)) }
pub fn vc_stmt_decl() { rt_stmt(&gen_stmt_k(3, 1)) }
pub fn vc_stmt_when() { let cond = any_expr(); let when = gen_stmts(0, 1); rt_stmt(&Statement::from(stmt::Kind::Conditional { cond, when: when.into(), r#else: Vec::new().into() }).with_info(any_info())) }
pub fn vc_stmt_else() { rt_stmt(&gen_stmt_k(9, 1)) }
pub fn nt_stmt_deep() { let d = depth(); rt_stmt(&gen_stmt(d)) }
/// A list of statements, including statements referring to prior declarations
pub fn nt_stmts() {
    let d = depth();
    let mut v = gen_stmts(d, 1);
    for _ in 0..any_len(4) { v.extend(gen_stmts(1, 1)) }
    let mut ind = Indentation::MoreThan(choose(4));
    let mut text = String::new();
    for s in &v { text.push_str(&show_at(s, &mut ind)); }
    let t = match ind { Indentation::Exact(n) if n > 0 => line_tail(n - 1, true), Indentation::MoreThan(n) => line_tail(n, true), _ => String::new() };
    let input = j(&[&text, &t]);
    let mut i2 = ind.clone();
    match verif::stmt::stmts(AllCtx::default(), &input, &mut i2) {
        Ok((rest, p)) => {
            check(rest == t, "all of the statements are consumed");
            check(p == v, "parsing printed statements yields those statements");
        }
        Err(_) => check(false, "printed statements parse"),
    }
    cover("end");
}
/// The concrete syntax of statements
pub fn vc_stmt_syntax() {
    use stmt::Kind as K;
    let (a, b): (Expr<Arc<Entity>>, Expr<Arc<Entity>>) = (any_expr(), any_expr());
    let (x, y) = (show(&a), show(&b));
    let n = any_name();
    let info = if any_bool() { Some(String::from("f.x 1:2")) } else { None };
    let it = if info.is_some() { " @[f.x 1:2]" } else { "" };
    let named = any_bool();
    let opt = if named { Some(n.clone()) } else { None };
    let ot = if named { j(&[" : ", &n]) } else { String::new() };
    let mut two = Vec::new();
    let (kind, want): (K, String) = match choose(14) {
        0 => (K::Connection { from: a, to: b }, j(&[&y, " <= ", &x])),
        1 => (K::PartialConnection { from: a, to: b }, j(&[&y, " <- ", &x])),
        2 => (K::Empty, j(&["skip"])),
        3 => (K::Invalidate(a), j(&[&x, " is invalid"])),
        4 => { two.push(a); two.push(b); (K::Attach(two), j(&["attach(", &x, ", ", &y, ")"])) }
        5 => { let c = any_i64(); (K::Stop { name: opt, clock: a, cond: b, code: c }, j(&["stop(", &x, ", ", &y, ", ", &show(&c), ")", &ot])) }
        6 => {
            let (c, d): (Expr<Arc<Entity>>, Expr<Arc<Entity>>) = (any_expr(), any_expr());
            let (f, g) = (any_format(), any_format());
            let spec = |f: Format| match f { Format::Binary => "%b", Format::Decimal => "%d", Format::Hexadecimal => "%x", Format::Character => "%c" };
            let want = j(&["printf(", &x, ", ", &y, ", \"v: ", spec(f), ", ", spec(g), "\", ", &show(&c), ", ", &show(&d), ")", &ot]);
            let mut msg = Vec::new();
            msg.push(PrintElement::Literal(String::from("v: ")));
            msg.push(PrintElement::Value(c, f));
            msg.push(PrintElement::Literal(String::from(", ")));
            msg.push(PrintElement::Value(d, g));
            (K::Print { name: opt, clock: a, cond: b, msg }, want)
        }
        7 => { let t = any_type1(); let s = show(&t); (K::Declaration(Arc::new(Entity::Wire { name: n.clone(), r#type: t })), j(&["wire ", &n, ": ", &s])) }
        8 => (K::Declaration(Arc::new(Entity::Node { name: n.clone(), value: a })), j(&["node ", &n, " = ", &x])),
        9 => { let r = gen_register(); let s = reg_text(&r); (K::Declaration(Arc::new(Entity::Register(r))), s) }
        10 => { let p = gen_mport(cmem_named(any_name())); let s = mport_text(&p); (K::Declaration(Arc::new(Entity::SimpleMemPort(p))), s) }
        11 => { let m = module_named(any_name()); let s = j(&["inst ", &n, " of ", m.name()]); (K::Declaration(Arc::new(Entity::Instance(module::Instance::new(n.clone(), m)))), s) }
        12 => { let m = gen_simple_mem(); let s = smem_text(&m); (K::SimpleMemDecl(Arc::new(m)), s) }
        _ => {
            let skip = || { let mut v = Vec::new(); v.push(Statement::from(K::Empty)); v };
            let (w, e, want) = match choose(4) {
                0 => (skip(), Vec::new(), j(&["when ", &x, ":", it, "\n    skip\n"])),
                1 => (skip(), skip(), j(&["when ", &x, ":", it, "\n    skip\n  else:\n    skip\n"])),
                2 => (Vec::new(), skip(), j(&["when ", &x, ":", it, "\n    skip\n  else:\n    skip\n"])),
                _ => {
                    let mut e = Vec::new();
                    e.push(Statement::from(K::Conditional { cond: b, when: skip().into(), r#else: Vec::new().into() }));
                    (skip(), e, j(&["when ", &x, ":", it, "\n    skip\n  else when ", &y, ":\n    skip\n"]))
                }
            };
            let s = Statement::from(K::Conditional { cond: a, when: w.into(), r#else: e.into() }).with_info(info);
            check(show_at(&s, &mut Indentation::Exact(2)) == j(&["  ", &want]), "conditionals print in FIRRTL syntax");
            cover("when");
            return
        }
    };
    let s = Statement::from(kind).with_info(info);
    check(show_at(&s, &mut Indentation::Exact(2)) == j(&["  ", &want, it, "\n"]), "statements print in FIRRTL syntax");
    cover("end");
}

// ---------------------------------------------------------------- C04

fn ruw_text(r: ReadUnderWrite) -> &'static str { match r { ReadUnderWrite::Old => "old", ReadUnderWrite::New => "new", ReadUnderWrite::Undefined => "undefined" } }
pub fn reg_text<R: MkRef>(r: &memory::Register<R>) -> String
where firrtl_ast::Expression<R>: fmt::Display {
    use firrtl_ast::types::Typed;
    let t = match r.r#type() { Ok(t) => t, Err(_) => { check(false, "a register has a type"); return String::new() } };
    let head = j(&["reg ", r.name(), ": ", &show(&t), ", ", &show(r.clock())]);
    match (r.reset_signal(), r.reset_value()) {
        (Some(s), Some(v)) => j(&[&head, " with: (reset => (", &show(s), ", ", &show(v), "))"]),
        _ => head,
    }
}
pub fn smem_text(m: &simple::Memory) -> String {
    use firrtl_ast::types::Typed;
    let t = match m.r#type() { Ok(t) => show(&t), Err(_) => String::new() };
    match m.kind() {
        simple::Kind::Combinatory => j(&["cmem ", m.name(), ": ", &t]),
        simple::Kind::Sequential(None) => j(&["smem ", m.name(), ": ", &t]),
        simple::Kind::Sequential(Some(r)) => j(&["smem ", m.name(), ": ", &t, ", ", ruw_text(r)]),
    }
}
pub fn mport_text<R: MkRef>(p: &simple::Port<R>) -> String {
    let d = match p.direction() { Some(PortDir::Read) => "read", Some(PortDir::Write) => "write", Some(PortDir::ReadWrite) => "rdwr", None => "infer" };
    j(&[d, " mport ", p.name(), " = ", p.memory().name(), "[", &show(p.address()), "], ", &show(p.clock())])
}
fn rt_memory(m: &memory::Memory) {
    let n = any_indent();
    let info = any_info();
    let d = Entity::Memory(m.clone());
    let s = Statement::from(stmt::Kind::Declaration(Arc::new(d))).with_info(info.clone());
    let text = show_at(&s, &mut Indentation::Exact(n));
    let t = line_tail(n, false);
    let input = j(&[&text, &t]);
    let mut ind = Indentation::Exact(n);
    match verif::memory::memory(&input, &mut ind) {
        Ok((rest, (p, i))) => {
            check(rest == t, "exactly the printed memory is consumed");
            check(p == *m, "parsing a printed memory yields that memory");
            check(i == info, "the info of a memory is preserved");
        }
        Err(_) => check(false, "a printed memory parses"),
    }
    cover("end");
}
pub fn vc_memory() { rt_memory(&gen_memory()) }
pub fn nt_memory() { rt_memory(&gen_memory()) }
pub fn vc_memory_syntax() {
    let m = gen_memory();
    let s = Statement::from(stmt::Kind::Declaration(Arc::new(Entity::Memory(m.clone())))).with_info(None);
    let text = show_at(&s, &mut Indentation::Exact(2));
    check(text == memory_text(&m, " => "), "memories print in FIRRTL syntax");
    cover("end");
}
/// The text of a memory, with the given arrow
pub fn memory_text(m: &memory::Memory, arrow: &str) -> String {
    let mut ports = String::new();
    for p in m.ports() {
        let d = match p.dir { PortDir::Read => "reader", PortDir::Write => "writer", PortDir::ReadWrite => "readwriter" };
        ports.push_str(&j(&["    ", d, arrow, &p.name, "\n"]));
    }
    j(&["  mem ", m.name(), ":\n    data-type", arrow, &show(m.data_type()), "\n    depth", arrow, &show(&m.depth()), "\n", &ports,
        "    read-latency", arrow, &show(&m.read_latency()), "\n    write-latency", arrow, &show(&m.write_latency()), "\n    read-under-write", arrow, ruw_text(m.read_under_write()), "\n"])
}
pub fn vc_register() {
    let r = gen_register::<Rf>();
    let text = show(&r);
    check(text == reg_text(&r), "registers print in FIRRTL syntax");
    let t = match choose(3) { 0 => "", 1 => "\n", _ => " @[b]" };
    let input = j(&[&text, t]);
    match verif::memory::register(|n| Rf::by_name(n), &input) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed register is consumed");
            check(p == r, "parsing a printed register yields that register");
        }
        Err(_) => check(false, "a printed register parses"),
    }
    cover("end");
}
pub fn vc_simple_mem() {
    let m = gen_simple_mem();
    let text = show(&m);
    check(text == smem_text(&m), "simple memories print in FIRRTL syntax");
    let t = match choose(3) { 0 => "", 1 => "\n", _ => " @[b]" };
    let input = j(&[&text, t]);
    match verif::memory::simple_mem(&input) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed memory is consumed");
            check(p == m, "parsing a printed memory yields that memory");
        }
        Err(_) => check(false, "a printed memory parses"),
    }
    cover("end");
}
pub fn vc_mport() {
    let p = gen_mport::<Rf>(cmem_named(any_name()));
    let text = show(&p);
    check(text == mport_text(&p), "memory ports print in FIRRTL syntax");
    let t = match choose(3) { 0 => "", 1 => "\n", _ => " @[b]" };
    let input = j(&[&text, t]);
    match verif::memory::simple_mem_port(|n| Some(cmem_named(n.into())), |n| Rf::by_name(n), &input) {
        Ok((rest, q)) => {
            check(rest == t, "exactly the printed port is consumed");
            check(q == p, "parsing a printed port yields that port");
        }
        Err(_) => check(false, "a printed port parses"),
    }
    cover("end");
}
pub fn vc_memport_display() {
    let p = memory::mem::Port { name: any_name(), dir: any_portdir() };
    let d = match p.dir { PortDir::Read => "reader", PortDir::Write => "writer", PortDir::ReadWrite => "readwriter" };
    check(show(&p) == j(&[d, " => ", &p.name]), "ports of memories print in FIRRTL syntax");
    let r = any_ruw();
    check(show(&r) == j(&[ruw_text(r)]) && r.keyword() == ruw_text(r), "read-under-write behaviour prints as keyword");
    cover("end");
}

// ---------------------------------------------------------------- C05

pub fn vc_direction() {
    let d = any_direction();
    let k = match d { module::Direction::Input => "input", module::Direction::Output => "output" };
    check(d.keyword() == k && show(&d) == j(&[k]), "directions print as keyword");
    match verif::module::direction(&j(&[k, " x"])) {
        Ok((rest, p)) => check(rest == " x" && p == d, "a direction parses"),
        Err(_) => check(false, "a direction parses"),
    }
    cover("end");
}
pub fn vc_port() {
    let p = gen_port();
    let text = show(&p);
    let k = match p.direction() { module::Direction::Input => "input ", module::Direction::Output => "output " };
    check(text == j(&[k, p.name(), ": ", &show(p.r#type()), &info_text(p.info())]), "ports print in FIRRTL syntax");
    let t = match choose(2) { 0 => "", _ => "\n" };
    let input = j(&[&text, t]);
    match verif::module::port(&input) {
        Ok((rest, q)) => {
            check(rest == t, "exactly the printed port is consumed");
            check(q == p, "parsing a printed port yields that port");
        }
        Err(_) => check(false, "a printed port parses"),
    }
    cover("end");
}
pub fn vc_instance() {
    let i = module::Instance::new(any_name(), module_named(any_name()));
    let text = show(&i);
    check(text == j(&["inst ", i.name(), " of ", i.module().name()]), "instances print in FIRRTL syntax");
    let t = match choose(3) { 0 => "", 1 => "\n", _ => " @[b]" };
    let input = j(&[&text, t]);
    match verif::module::instance(|n| Some(module_named(n.into())), &input) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed instance is consumed");
            check(p == i, "parsing a printed instance yields that instance");
        }
        Err(_) => check(false, "a printed instance parses"),
    }
    match verif::module::instance(|_| None, &input) { Ok(_) => check(false, "an unknown module cannot be instantiated"), Err(_) => {} }
    cover("end");
}
fn rt_param(v: &module::ParamValue) {
    let t = match choose(2) { 0 => "", _ => "\n" };
    let input = j(&[&show(v), t]);
    match verif::module::param_value(&input) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed parameter is consumed");
            check(p == *v, "parsing a printed parameter yields that parameter");
        }
        Err(_) => check(false, "a printed parameter parses"),
    }
    cover("end");
}
pub fn vc_param_int() {
    let n = any_i64();
    let v = module::ParamValue::Int(n);
    check(show(&v) == show(&n), "integer parameters print as such");
    rt_param(&v)
}
pub fn nt_param() { rt_param(&gen_param()) }
fn rt_module(m: &module::Module, known: impl Fn(&str) -> Option<Arc<module::Module>> + Copy) {
    let mut ind = Indentation::root().sub();
    let text = show_at(m, &mut ind);
    check(ind == Indentation::Exact(2), "modules are indented by one step");
    let k = choose(4);
    let t = match k { 0 => "", 1 | 2 => "  module x:\n", _ => "  extmodule y:\n" };
    let input = j(&[&text, t]);
    let mut ind = if k < 2 { Indentation::root().sub() } else { Indentation::Exact(2) };
    match verif::module::module(known, &input, &mut ind) {
        Ok((rest, p)) => {
            check(rest == t, "exactly the printed module is consumed");
            check(p == *m, "parsing a printed module yields that module");
            check(ind == Indentation::Exact(2), "parsing a module locks the indentation");
        }
        Err(_) => check(false, "a printed module parses"),
    }
    cover("end");
}
pub fn vc_ext_module() {
    let mut ports = Vec::new();
    let n = choose(2);
    let mut i = 0;
    while i < n { ports.push(Arc::new(gen_port())); i += 1; }
    let m = module::Module::new(any_name(), ports, gen_ext()).with_info(any_info());
    rt_module(&m, |_| None)
}
/// Header and ports of a module without statements
pub fn vc_module_shell() {
    let mut ports = Vec::new();
    let n = any_len(4);
    let mut i = 0;
    while i < n { ports.push(Arc::new(gen_port())); i += 1; }
    let m = module::Module::new(any_name(), ports, module::Kind::empty_regular()).with_info(any_info());
    let text = show_at(&m, &mut Indentation::Exact(2));
    let mut want = j(&["  module ", m.name(), ":", &info_text(m.info()), "\n"]);
    for p in m.ports() { want.push_str(&j(&["    ", &show(&**p), "\n"])); }
    check(text == want, "modules print in FIRRTL syntax");
    rt_module(&m, |_| None)
}
pub fn nt_module() {
    let ms = gen_modules(3);
    let m = &ms[ms.len() - 1];
    for k in &ms { env::add_module(k.clone()) }
    rt_module(m, |n| env::module(n))
}
