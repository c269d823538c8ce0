//! The entities, memories and modules declared so far, for generating consistent statement lists.
//!
//! Native only: for the deductive engine nothing is ever declared.
use firrtl_ast::memory::simple;
use firrtl_ast::module::Module;
use firrtl_ast::stmt::{Entity, Kind, Statement};
use firrtl_ast::Named;
use std::cell::RefCell;
use std::sync::Arc;

#[derive(Default)]
pub struct Env {
    /// Only declared things may be referred to
    pub strict: bool,
    pub ents: Vec<Arc<Entity>>,
    pub mems: Vec<Arc<simple::Memory>>,
    pub mods: Vec<Arc<Module>>,
}
thread_local! { static ENV: RefCell<Env> = RefCell::new(Env::default()); }

pub fn reset(strict: bool) { ENV.with(|e| *e.borrow_mut() = Env { strict, ..Env::default() }) }
pub fn strict() -> bool { ENV.with(|e| e.borrow().strict) }
pub fn add_module(m: Arc<Module>) { ENV.with(|e| e.borrow_mut().mods.push(m)) }
pub fn add_entity(m: Arc<Entity>) { ENV.with(|e| e.borrow_mut().ents.push(m)) }
/// Forget entities and memories, but keep modules
pub fn leave_module() { ENV.with(|e| { let mut e = e.borrow_mut(); e.ents.clear(); e.mems.clear() }) }
pub fn ents() -> Vec<Arc<Entity>> {
    // the latest declaration of every name
    ENV.with(|e| { let e = e.borrow(); let mut v: Vec<Arc<Entity>> = vec![]; for x in e.ents.iter().rev() { if !v.iter().any(|y| y.name() == x.name()) { v.push(x.clone()) } } v.reverse(); v })
}
pub fn mems() -> Vec<Arc<simple::Memory>> {
    ENV.with(|e| { let e = e.borrow(); let mut v: Vec<Arc<simple::Memory>> = vec![]; for x in e.mems.iter().rev() { if !v.iter().any(|y| y.name() == x.name()) { v.push(x.clone()) } } v.reverse(); v })
}
pub fn mods() -> Vec<Arc<Module>> { ENV.with(|e| e.borrow().mods.clone()) }
#[inline(never)]
pub fn entity(name: &str) -> Option<Arc<Entity>> { ENV.with(|e| e.borrow().ents.iter().rev().find(|x| x.name_ref() == name).cloned()) }
#[inline(never)]
pub fn memory(name: &str) -> Option<Arc<simple::Memory>> { ENV.with(|e| e.borrow().mems.iter().rev().find(|x| x.name_ref() == name).cloned()) }
#[inline(never)]
pub fn module(name: &str) -> Option<Arc<Module>> { ENV.with(|e| e.borrow().mods.iter().rev().find(|x| x.name_ref() == name).cloned()) }
/// Note what a statement declares
#[inline(never)]
pub fn declare(s: &Statement) {
    ENV.with(|e| match s.kind() {
        Kind::Declaration(d) => e.borrow_mut().ents.push(d.clone()),
        Kind::SimpleMemDecl(m) => e.borrow_mut().mems.push(m.clone()),
        _ => {}
    })
}
