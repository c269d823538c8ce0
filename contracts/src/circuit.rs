//! C06 circuits, C19 module iteration
use crate::env;
use crate::gen::*;
use crate::print::{j, show};
use crate::vc::*;
use firrtl_ast::circuit::{self, ModuleConsumer};
use firrtl_ast::error::ParseError;
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::{self, Module, Modules};
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::{Circuit, Named};
use std::io::Read;
use std::sync::Arc;

crate::harnesses! {
    "C06": vc_circuit_once, vc_circuit_head, nt_circuit, nt_circuit_order;
    "C19": vc_consumer, vc_consumer_next, vc_consumer_info, nt_modules, nt_from_read, nt_modules_error, nt_agree;
}

fn shell(n: &str, deps: &[&Arc<Module>]) -> Arc<Module> {
    let mut stmts = Vec::new();
    let mut i = 0;
    while i < deps.len() {
        stmts.push(Statement::from(stmt::Kind::Declaration(Arc::new(Entity::Instance(module::Instance::new(deps[i].name().clone(), deps[i].clone()))))));
        i += 1;
    }
    Arc::new(Module::new(Arc::from(n), Vec::new(), module::Kind::Regular { stmts }))
}
/// Modules are printed once each, after the ones they instantiate: all shapes of up to four modules
pub fn vc_circuit_once() {
    let m = |n: &str, body: &str| j(&["  module ", n, ":\n", body]);
    let i = |n: &str| j(&["    inst ", n, " of ", n, "\n"]);
    let a = shell("a", &[]);
    let (top, want) = match choose(6) {
        0 => (a, j(&[&m("a", "")])),
        1 => (shell("t", &[&a]), j(&[&m("a", ""), &m("t", &i("a"))])),
        2 => (shell("t", &[&a, &a]), j(&[&m("a", ""), &m("t", &j(&[&i("a"), &i("a")]))])),
        3 => { let b = shell("b", &[&a]); (shell("t", &[&a, &b]), j(&[&m("a", ""), &m("b", &i("a")), &m("t", &j(&[&i("a"), &i("b")]))])) }
        4 => { let b = shell("b", &[&a]); (shell("t", &[&b, &a]), j(&[&m("a", ""), &m("b", &i("a")), &m("t", &j(&[&i("b"), &i("a")]))])) }
        _ => { let b = shell("b", &[&a]); let c = shell("c", &[&a]); (shell("t", &[&c, &b]), j(&[&m("a", ""), &m("c", &i("a")), &m("b", &i("a")), &m("t", &j(&[&i("c"), &i("b")]))])) }
    };
    let c = Circuit::new(top.clone());
    check(show(&c) == j(&["circuit ", top.name(), ":\n", &want]), "every module is printed once, after the ones it instantiates");
    match circuit::parse(&show(&c)) { Ok(d) => check(d == c, "a printed circuit parses as that circuit"), Err(_) => check(false, "a printed circuit parses") }
    cover("end");
}
pub fn vc_circuit_head() {
    let info = any_info();
    let n = any_name();
    let c = Circuit::new(module_named(n.clone())).with_info(info.clone());
    let text = show(&c);
    check(text == j(&["circuit ", &n, ":", &firrtl_ast::verif::print_info(info.as_deref()), "\n  module ", &n, ":\n"]), "circuits print in FIRRTL syntax");
    match circuit::parse(&text) { Ok(d) => check(d == c, "a printed circuit parses as that circuit"), Err(_) => check(false, "a printed circuit parses") }
    cover("end");
}
pub fn nt_circuit() {
    let ms = gen_modules(4);
    let c = Circuit::new(ms[ms.len() - 1].clone()).with_info(any_info());
    let text = show(&c);
    match circuit::parse(&text) { Ok(d) => check(d == c, "a printed circuit parses as that circuit"), Err(_) => check(false, "a printed circuit parses") }
    // final line endings and comments do not matter
    let more = j(&[&text, ["\n", "  ; the end\n", "\n\n"][choose(3)]]);
    check(match circuit::parse(&more) { Ok(d) => d == c, Err(_) => false }, "trailing blank lines and comments do not matter");
    cover("end");
}
pub fn nt_circuit_order() {
    let ms = gen_modules(6);
    let top = ms[ms.len() - 1].clone();
    let c = Circuit::new(top.clone());
    let text = show(&c);
    let mut printed: Vec<Arc<Module>> = vec![];
    for m in match circuit::consumer(&text) { Ok(c) => c, Err(_) => { check(false, "a printed circuit parses"); return } } {
        match m { Ok(m) => printed.push(m), Err(_) => { check(false, "a printed module parses"); return } }
    }
    let mut reach: Vec<Arc<Module>> = vec![];
    fn visit(m: &Arc<Module>, r: &mut Vec<Arc<Module>>) { if !r.iter().any(|x| x.name() == m.name()) { r.push(m.clone()); for d in all_insts(m.statements()) { visit(&d, r) } } }
    fn all_insts(v: &[Statement]) -> Vec<Arc<Module>> {
        let mut r = vec![];
        for s in v { match s.kind() {
            stmt::Kind::Declaration(e) => if let Entity::Instance(i) = &**e { r.push(i.module().clone()) },
            stmt::Kind::Conditional { when, r#else, .. } => { r.extend(all_insts(when)); r.extend(all_insts(r#else)) }
            _ => {}
        } }
        r
    }
    visit(&top, &mut reach);
    check(printed.len() == reach.len(), "exactly the modules required are printed, once each");
    for m in &reach { check(printed.iter().filter(|p| p.name() == m.name()).count() == 1, "every module required is printed once") }
    for (k, p) in printed.iter().enumerate() {
        for d in all_insts(p.statements()) { check(printed[..k].iter().any(|q| q.name() == d.name()), "modules are printed after the ones they instantiate") }
    }
    check(printed.last().map(|p| p.name() == top.name()) == Some(true), "the top module comes last");
    cover("end");
}

// ---------------------------------------------------------------- C19

type Item = Result<Arc<Module>, ParseError>;
/// Modules and errors; `None` is an error
fn items(n: usize, top: &Arc<str>) -> Vec<Option<Arc<Module>>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(match choose(4) { 0 => None, 1 => Some(module_named(top.clone())), 2 => Some(Arc::new(Module::new(top.clone(), Vec::new(), module::Kind::empty_external()))), _ => Some(module_named(any_name())) });
        i += 1;
    }
    v
}
fn feed(v: &[Option<Arc<Module>>]) -> Vec<Item> {
    let mut r: Vec<Item> = Vec::new();
    let mut i = 0;
    while i < v.len() { r.push(match &v[i] { Some(m) => Ok(m.clone()), None => Err(ParseError::from(String::from("e"))) }); i += 1; }
    r
}
fn first_top(v: &[Option<Arc<Module>>], top: &str) -> Option<Arc<Module>> {
    let mut i = 0;
    while i < v.len() { if let Some(m) = &v[i] { if m.name_ref() == top { return Some(m.clone()) } } i += 1; }
    None
}
/// A circuit results exactly if there are no errors and there is a top module
pub fn vc_consumer() {
    let n = choose(if native() { 6 } else { 4 });
    let top = any_name();
    let v = items(n, &top);
    let k = choose(n + 1);
    let mut c = ModuleConsumer::new(&*top, None, feed(&v).into_iter());
    let mut i = 0;
    while i < k { c.next(); i += 1; }
    let mut failed = false;
    let mut i = k;
    while i < n { if v[i].is_none() { failed = true } i += 1; }
    // errors passed on to the user are up to the user
    match (c.into_circuit(), first_top(&v, &top)) {
        (Ok(c), Some(m)) => check(!failed && Arc::ptr_eq(c.top_module(), &m) && c.info().is_none(), "the circuit is defined by the first module of that name"),
        (Ok(_), None) => check(false, "a circuit requires a top module"),
        (Err(_), t) => check(failed || t.is_none(), "valid modules with a top module define a circuit"),
    }
    cover("end");
}
/// Iterating yields all modules and errors, and notes the top module
pub fn vc_consumer_next() {
    let n = choose(if native() { 6 } else { 4 });
    let top = any_name();
    let v = items(n, &top);
    let mut c = ModuleConsumer::new(&*top, None, feed(&v).into_iter());
    let mut i = 0;
    loop {
        match (c.circuit(), first_top(&v[..i], &top)) {
            (Some(d), Some(m)) => check(Arc::ptr_eq(d.top_module(), &m), "the circuit is available once the top module was seen"),
            (None, None) => {}
            _ => check(false, "the circuit is available exactly if the top module was seen"),
        }
        match c.next() {
            None => { check(i == n, "every item is passed on"); break }
            Some(r) => {
                check(i < n, "no item is added");
                match (r, &v[i]) { (Ok(m), Some(w)) => check(Arc::ptr_eq(&m, w), "modules are passed on"), (Err(_), None) => {}, _ => check(false, "errors are passed on") }
            }
        }
        i += 1;
    }
    cover("end");
}
pub fn vc_consumer_info() {
    let s = any_plain();
    let info = if any_bool() { Some(s.clone()) } else { None };
    let v = { let mut v = Vec::new(); v.push(Some(module_named(Arc::from("t")))); v };
    let mut c = ModuleConsumer::new(String::from("t"), info.clone(), feed(&v).into_iter());
    if any_bool() { c.next(); check(match c.circuit() { Some(d) => d.info() == info.as_deref(), None => false }, "the info is attached"); }
    match c.into_circuit() { Ok(d) => check(d.info() == info.as_deref(), "the info is attached"), Err(_) => check(false, "the circuit is defined") }
    cover("end");
}
pub fn nt_modules() {
    let ms = gen_modules(5);
    let mut text = String::new();
    let mut ind = firrtl_ast::verif::Indentation::root().sub();
    for m in &ms { text.push_str(&crate::print::show_at(&**m, &mut ind)) }
    let mut it = Modules::new(&text);
    let mut n = 0;
    loop {
        for (k, m) in ms.iter().enumerate() { check(it.module(m.name()).is_some() == (k < n), "modules parsed are available") }
        match it.next() {
            Some(Ok(m)) => { check(n < ms.len() && *m == *ms[n], "modules are yielded in order"); n += 1; check(it.module(m.name()).map(|x| Arc::ptr_eq(x, &m)) == Some(true), "a module parsed is available"); }
            Some(Err(_)) => { check(false, "a printed module parses"); return }
            None => break,
        }
    }
    check(n == ms.len(), "all modules are yielded");
    check(it.next().is_none(), "nothing follows the last module");
    // modules added may be instantiated
    let last = &ms[ms.len() - 1];
    let one = crate::print::show_at(&**last, &mut ind);
    let mut it = Modules::new(&one);
    for m in &ms[..ms.len() - 1] { it.add_module(m.clone()) }
    match it.next() { Some(Ok(m)) => check(*m == **last, "modules added can be instantiated"), _ => check(false, "modules added can be instantiated") }
    let _ = env::strict();
    cover("end");
}
pub fn nt_modules_error() {
    let ms = gen_modules(4);
    let mut text = String::new();
    let mut ind = firrtl_ast::verif::Indentation::root().sub();
    let k = choose(ms.len() + 1);
    for (i, m) in ms.iter().enumerate() {
        if i == k { text.push_str("  modul x:\n") }
        text.push_str(&crate::print::show_at(&**m, &mut ind));
    }
    if k == ms.len() { text.push_str("  ?\n") }
    let mut it = Modules::new(&text);
    let mut errs = 0;
    let mut n = 0;
    while let Some(r) = it.next() { match r { Ok(_) => { check(errs == 0, "parsing stops at an error"); n += 1 } Err(e) => { check(show(&e).len() > 0, "an error has a description"); errs += 1 } } }
    check(errs == 1 && n == k, "an error is reported once, after the modules preceding it");
    let top = ms[ms.len() - 1].name().clone();
    let whole = j(&["circuit ", &top, ":\n", &text]);
    check(circuit::parse(&whole).is_err(), "an invalid module makes the circuit invalid");
    cover("end");
}
struct Chunks { data: Vec<u8>, pos: usize, fail: bool }
impl Read for Chunks {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.data.len() { return if self.fail { Err(std::io::ErrorKind::BrokenPipe.into()) } else { Ok(0) } }
        let n = (1 + choose(7)).min(b.len()).min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub fn nt_from_read() {
    let ms = gen_modules(1);
    let c = Circuit::new(ms[0].clone()).with_info(any_info());
    let mut data = show(&c).into_bytes();
    let fail = choose(3);
    if fail == 2 { data.push(0xff) }
    match Circuit::from_read(Chunks { data, pos: 0, fail: fail == 1 }) {
        Ok(d) => check(fail == 0 && d == c, "reading a circuit yields the circuit"),
        Err(ParseError::IO(_)) => check(fail != 0, "a readable circuit is read"),
        Err(_) => check(false, "failures to read are reported as such"),
    }
    cover("end");
}
/// A circuit from a buffer, a reader and module by module
pub fn nt_agree() {
    let ms = gen_modules(4);
    let mut text = String::from("circuit ");
    // the top module may come anywhere, or be missing
    let top = match choose(6) { 0 => any_name(), _ => ms[choose(ms.len())].name().clone() };
    text.push_str(&top);
    text.push_str(":\n");
    let mut ind = firrtl_ast::verif::Indentation::root().sub();
    for m in &ms { text.push_str(&crate::print::show_at(&**m, &mut ind)) }
    match choose(6) {
        0 => text.push_str("  ; end\n\n"),
        1 => text.push_str("x"),
        2 => { let k = choose(text.len() + 1); if text.is_char_boundary(k) { text.truncate(k) } }
        3 => { text = j(&["\n; head\n", &text]) }
        _ => {}
    }
    let a = circuit::parse(&text);
    let b = Circuit::from_read(Chunks { data: text.clone().into_bytes(), pos: 0, fail: false });
    match (&a, &b) { (Ok(x), Ok(y)) => check(x == y, "buffers and readers yield the same circuit"), (Err(_), Err(_)) => {} _ => check(false, "buffers and readers fail alike") }
    match circuit::consumer(&text) {
        Ok(c) => match (c.into_circuit(), &a) { (Ok(x), Ok(y)) => check(x == *y, "consumers and buffers yield the same circuit"), (Err(_), Err(_)) => {} _ => check(false, "consumers and buffers fail alike") },
        Err(_) => check(a.is_err(), "consumers and buffers fail alike"),
    }
    if let Ok(mut c) = circuit::consumer(&text) {
        let mut err = false;
        let mut seen: Vec<Arc<Module>> = Vec::new();
        while let Some(r) = c.next() { match r { Ok(m) => seen.push(m), Err(_) => { err = true; break } } }
        let want = seen.iter().find(|m| m.name_ref() == &*top);
        match (c.circuit(), want) { (Some(d), Some(m)) => check(Arc::ptr_eq(d.top_module(), m), "the circuit is that of the top module"), (None, None) => {} _ => check(false, "the circuit is available exactly if the top module was seen") }
        if !err { match (&a, c.circuit()) { (Ok(x), Some(y)) => check(*x == y, "iterated consumers yield the same circuit"), (Err(_), None) => {} _ => check(false, "iterated consumers fail alike") } }
    }
    cover("end");
}
