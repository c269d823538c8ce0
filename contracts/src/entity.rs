//! C16 types of declared entities, C17 name resolution, C18 traversals, C21 builders
use crate::env;
use crate::gen::*;
use crate::print::{j, show, show_at};
use crate::vc::*;
use firrtl_ast::expr::{primitive::Operation, Expression, Flow, Reference};
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{self, common::PortDir, simple};
use firrtl_ast::module::{self, Direction, Module};
use firrtl_ast::stmt::context::{Context, SubContext, TopContext};
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::types::{required_address_width, BundleField, GroundType, Orientation, Type, TypeExt, Typed};
use firrtl_ast::verif::{self, Indentation};
use firrtl_ast::{Circuit, Named};
use std::sync::Arc;
use transiter::AutoTransIter;

crate::harnesses! {
    "C15": vc_entity_flow, vc_mport_type;
    "C16": vc_address_width, vc_memory_type, vc_memory_mask, vc_memory_port_count, vc_mport_type, vc_instance_type, vc_entity_type, vc_entity_flow, vc_entity_name, nt_memory_type;
    "C17": vc_top_context, vc_top_ports, vc_sub_context, vc_sub_shadow, vc_sub_merge, vc_undeclared, vc_declared, vc_mport_scope, vc_instance_scope, nt_scope, nt_entity_identity;
    "C18": vc_sub_exprs, vc_expr_children, vc_references, vc_stmt_children, vc_declarations, vc_instantiations, vc_referenced_modules, nt_references, nt_declarations;
    "C21": vc_memory_builder, vc_register_builder, vc_field_builder, vc_module_access, vc_port_access, vc_info_access, vc_mport_access, vc_entity_from, vc_type_from, vc_circuit_access, vc_ground_width;
}

// ---------------------------------------------------------------- C16

pub fn vc_address_width() {
    let n = any_u64();
    let w = required_address_width(n);
    check(w <= 64, "addresses have at most 64 bits");
    check(w == 64 || (1u128 << w) >= n as u128, "every element can be addressed");
    check(w == 0 || (1u128 << (w - 1)) < n as u128, "the address is no wider than required");
    cover("end");
}
/// A mask has the structure of the data type, with a bit for every ground type
fn is_mask(t: &Type, m: &Type) -> bool {
    match (t, m) {
        (Type::GroundType(_), Type::GroundType(GroundType::UInt(Some(1)))) => true,
        (Type::Vector(t, n), Type::Vector(m, k)) => *n == *k && is_mask(t, m),
        (Type::Bundle(t), Type::Bundle(m)) => {
            let mut r = t.len() == m.len();
            let mut i = 0;
            while r && i < t.len() {
                r = t[i].name() == m[i].name() && t[i].orientation() == m[i].orientation() && is_mask(t[i].r#type(), m[i].r#type());
                i += 1;
            }
            r
        }
        _ => false,
    }
}
fn is_field(f: &BundleField, name: &str, flip: bool) -> bool { **f.name() == *name && (f.orientation() == Orientation::Flipped) == flip }
fn is_ground(f: &BundleField, name: &str, g: GroundType) -> bool { is_field(f, name, false) && *f.r#type() == Type::GroundType(g) }
fn is_data(f: &BundleField, name: &str, flip: bool, t: &Type) -> bool { is_field(f, name, flip) && *f.r#type() == *t }

fn is_port(f: &BundleField, p: &memory::mem::Port, data: &Type, addr: GroundType) -> bool {
    if f.name() != &p.name || f.orientation() != Orientation::Flipped { return false }
    let bit = GroundType::UInt(Some(1));
    match f.r#type() {
        Type::Bundle(v) => match p.dir {
            PortDir::Read => v.len() == 4 && is_data(&v[0], "data", true, data) && is_ground(&v[1], "addr", addr) && is_ground(&v[2], "en", bit) && is_ground(&v[3], "clk", GroundType::Clock),
            PortDir::Write => v.len() == 5 && is_data(&v[0], "data", false, data) && is_field(&v[1], "mask", false) && is_mask(data, v[1].r#type())
                && is_ground(&v[2], "addr", addr) && is_ground(&v[3], "en", bit) && is_ground(&v[4], "clk", GroundType::Clock),
            PortDir::ReadWrite => v.len() == 7 && is_ground(&v[0], "wmode", bit) && is_data(&v[1], "rdata", true, data) && is_data(&v[2], "wdata", false, data)
                && is_field(&v[3], "wmask", false) && is_mask(data, v[3].r#type())
                && is_ground(&v[4], "addr", addr) && is_ground(&v[5], "en", bit) && is_ground(&v[6], "clk", GroundType::Clock),
        },
        _ => false,
    }
}
fn mem_of(data: Type, ports: usize) -> memory::Memory {
    let mut m = memory::Memory::new(any_name(), data, any_u64());
    let mut i = 0;
    while i < ports { m.add_port(memory::mem::Port { name: any_name(), dir: any_portdir() }); i += 1; }
    m
}
fn memory_type(m: &memory::Memory) {
    let addr = GroundType::UInt(Some(required_address_width(m.depth())));
    match m.r#type() {
        Ok(Type::Bundle(v)) => {
            let mut i = 0;
            for p in m.ports() { check(i < v.len() && is_port(&v[i], p, m.data_type(), addr), "a memory has a flipped field for every port"); i += 1; }
            check(v.len() == i, "a memory has no other fields");
        }
        _ => check(false, "the type of a memory is a bundle"),
    }
    check(m.flow() == Some(Flow::Source), "memories are sources");
    cover("end");
}
pub fn vc_memory_type() { let t = any_type1(); memory_type(&mem_of(t, 1)) }
pub fn vc_memory_port_count() { let n = choose(3); memory_type(&mem_of(Type::GroundType(GroundType::Clock), n)) }
/// Masks of types of every kind, in terms of the masks of the types they consist of
pub fn vc_memory_mask() {
    let t = match choose(3) {
        0 => Type::GroundType(any_ground()),
        1 => Type::Vector(Arc::new(any_type1()), any_u16()),
        _ => {
            let n = choose(if native() { 5 } else { 3 });
            let mut v = Vec::new();
            let mut i = 0;
            while i < n { v.push(gen_field(0)); i += 1; }
            Type::Bundle(v.into())
        }
    };
    let mut m = memory::Memory::new(any_name(), t, 4u64);
    m.add_port(memory::mem::Port { name: any_name(), dir: if any_bool() { PortDir::Write } else { PortDir::ReadWrite } });
    memory_type(&m)
}
pub fn nt_memory_type() { memory_type(&gen_memory()) }
pub fn vc_mport_type() {
    let t = match choose(3) { 0 => Type::Vector(Arc::new(leaf_type()), any_u16()), 1 => Type::GroundType(any_ground()), _ => { let mut v = Vec::new(); v.push(gen_field(0)); Type::Bundle(v.into()) } };
    let m = Arc::new(simple::Memory::new(any_name(), t.clone(), any_mem_kind()));
    check(match m.r#type() { Ok(u) => u == t, Err(_) => false }, "the type of a simple memory is the one given");
    let p = gen_mport::<Rf>(m.clone());
    match (p.r#type(), &t) {
        (Ok(u), Type::Vector(b, _)) => check(u == **b, "a memory port has the type of an element"),
        (Err(n), Type::Vector(..)) => { let _ = n; check(false, "a memory port of a vector has a type") }
        (Ok(_), _) => check(false, "only ports of vectors have a type"),
        (Err(n), _) => check(*n == *m, "the memory is reported"),
    }
    let want = match p.direction() { Some(PortDir::Read) => Some(Flow::Source), Some(PortDir::Write) => Some(Flow::Sink), Some(PortDir::ReadWrite) => Some(Flow::Duplex), None => None };
    check(p.flow() == want, "the flow of a memory port follows its direction");
    cover("end");
}
pub fn vc_instance_type() {
    let n = choose(if native() { 5 } else { 3 });
    let mut ports = Vec::new();
    let mut i = 0;
    while i < n { ports.push(Arc::new(module::Port::new(any_name(), any_type1(), any_direction()))); i += 1; }
    let m = Arc::new(Module::new(any_name(), ports.clone(), module::Kind::empty_regular()));
    let inst = module::Instance::new(any_name(), m);
    match inst.r#type() {
        Ok(Type::Bundle(v)) => {
            check(v.len() == n, "an instance has a field for every port");
            let mut i = 0;
            while i < n {
                check(v[i].name() == ports[i].name() && *v[i].r#type() == *ports[i].r#type(), "fields have name and type of the port");
                check((v[i].orientation() == Orientation::Flipped) == (ports[i].direction() == Direction::Input), "inputs are flipped");
                i += 1;
            }
        }
        _ => check(false, "the type of an instance is a bundle"),
    }
    check(inst.flow() == Some(Flow::Source), "instances are sources");
    cover("end");
}
/// An entity of every kind, along with its name, type and flow
fn any_entity() -> (Entity, Arc<str>, Option<Type>, Option<Flow>) {
    let n = any_name();
    let t = any_type1();
    match choose(7) {
        0 => { let d = any_direction(); (Entity::Port(Arc::new(module::Port::new(n.clone(), t.clone(), d))), n, Some(t), Some(if d == Direction::Input { Flow::Source } else { Flow::Sink })) }
        1 => (Entity::Wire { name: n.clone(), r#type: t.clone() }, n, Some(t), Some(Flow::Duplex)),
        2 => { let r = memory::Register::new(n.clone(), t.clone(), any_expr::<Arc<Entity>>()); let r = if any_bool() { r.with_reset(any_expr::<Arc<Entity>>(), any_expr::<Arc<Entity>>()) } else { r }; (Entity::Register(r), n, Some(t), Some(Flow::Duplex)) }
        3 => { let w = any_u16(); let e: Expr<Arc<Entity>> = if any_bool() { Expression::UIntLiteral { value: any_biguint(), width: w } } else { Expression::SubIndex { base: Arc::new(Expression::UIntLiteral { value: any_biguint(), width: w }), index: w } };
            let t = match &e { Expression::UIntLiteral { .. } => Some(Type::GroundType(GroundType::UInt(Some(w)))), _ => None };
            (Entity::Node { name: n.clone(), value: e }, n, t, Some(Flow::Source)) }
        4 => (Entity::Memory(memory::Memory::new(n.clone(), t, any_u64())), n, Some(Type::Bundle(Vec::new().into())), Some(Flow::Source)),
        5 => {
            let d = any_portdir();
            let v = any_bool();
            let mt = if v { Type::Vector(Arc::new(t.clone()), any_u16()) } else { Type::GroundType(GroundType::Clock) };
            let m = Arc::new(simple::Memory::new(any_name(), mt, any_mem_kind()));
            let p = simple::Port::new(n.clone(), m, Some(d), any_expr(), any_expr());
            (Entity::SimpleMemPort(p), n, if v { Some(t) } else { None }, Some(match d { PortDir::Read => Flow::Source, PortDir::Write => Flow::Sink, PortDir::ReadWrite => Flow::Duplex }))
        }
        _ => (Entity::Instance(module::Instance::new(n.clone(), module_named(any_name()))), n, Some(Type::Bundle(Vec::new().into())), Some(Flow::Source)),
    }
}
pub fn vc_entity_type() {
    let (e, _, t, _) = any_entity();
    let e = Arc::new(e);
    match (e.r#type(), t) {
        (Ok(u), Some(t)) => check(u == t, "an entity has the type declared"),
        (Err(x), None) => check(*x == *e, "the entity is reported"),
        _ => check(false, "an entity can be typed exactly if what it refers to can"),
    }
    cover("end");
}
pub fn vc_entity_flow() {
    let (e, _, _, f) = any_entity();
    check(Reference::flow(&Arc::new(e)) == f, "the flow of an entity follows from its kind");
    cover("end");
}
pub fn vc_entity_name() {
    let (e, n, _, _) = any_entity();
    check(*e.name() == n && e.name_ref() == &*n, "an entity has the name declared");
    check(e.is_declarable() == match e { Entity::Port(_) => false, _ => true }, "everything but ports can be declared");
    cover("end");
}

// ---------------------------------------------------------------- C17

fn wire(n: &Arc<str>, w: u16) -> Arc<Entity> { Arc::new(Entity::Wire { name: n.clone(), r#type: Type::GroundType(GroundType::UInt(Some(w))) }) }
fn cmem(n: &Arc<str>, w: u16) -> Arc<simple::Memory> { Arc::new(simple::Memory::new(n.clone(), Type::GroundType(GroundType::UInt(Some(w))), simple::Kind::Combinatory)) }
/// A name, often the one given
fn any_name_like(n: &Arc<str>) -> Arc<str> { if native() && any_bool() { n.clone() } else { any_name() } }

pub fn vc_top_context() {
    let a = any_name();
    let b = any_name_like(&a);
    let c = any_name_like(&b);
    let mut ctx = TopContext::new(|n: &str| if n == "m" { Some(module_named(n.into())) } else { None });
    check(ctx.entity(&a).is_none() && ctx.memory(&a).is_none(), "nothing is declared initially");
    ctx.add_entity(wire(&a, 1));
    ctx.add_entity(wire(&b, 2));
    ctx.add_memory(cmem(&a, 3));
    let want = if c == b { Some(wire(&b, 2)) } else if c == a { Some(wire(&a, 1)) } else { None };
    check(ctx.entity(&c) == want, "a name refers to the latest declaration");
    let want = if c == a { Some(cmem(&a, 3)) } else { None };
    check(ctx.memory(&c) == want, "memories are looked up separately");
    check(ctx.module(&c).is_some() == (&*c == "m"), "modules are looked up using the function given");
    cover("end");
}
pub fn vc_top_ports() {
    let a = any_name();
    let b = any_name();
    assume(a != b);
    let c = if any_bool() { any_name_like(&a) } else { any_name_like(&b) };
    let p = Arc::new(module::Port::new(a.clone(), Type::GroundType(GroundType::Clock), any_direction()));
    let q = Arc::new(module::Port::new(b.clone(), Type::GroundType(GroundType::Clock), any_direction()));
    let mut v = Vec::new();
    v.push(p.clone());
    v.push(q.clone());
    let ctx = TopContext::new(|_: &str| None).with_ports(v);
    match ctx.entity(&c).as_deref() {
        Some(Entity::Port(r)) => check(if c == a { *r == p } else { c == b && *r == q }, "ports are declared initially"),
        Some(_) => check(false, "ports are declared as ports"),
        None => check(c != a && c != b, "all ports are declared"),
    }
    cover("end");
}
pub fn vc_sub_context() {
    let a = any_name();
    let c = any_name_like(&a);
    let mut top = TopContext::new(|n: &str| if n == "m" { Some(module_named(n.into())) } else { None });
    top.add_entity(wire(&a, 1));
    top.add_memory(cmem(&a, 2));
    let s = SubContext::of(&mut top);
    check(s.entity(&c) == if c == a { Some(wire(&a, 1)) } else { None }, "entities of the parent are visible");
    check(s.memory(&c) == if c == a { Some(cmem(&a, 2)) } else { None }, "memories of the parent are visible");
    check(s.module(&c).is_some() == (&*c == "m"), "modules of the parent are visible");
    cover("end");
}
pub fn vc_sub_shadow() {
    let a = any_name();
    let b = any_name_like(&a);
    let c = any_name_like(&b);
    let mut top = TopContext::new(|_: &str| None);
    top.add_entity(wire(&a, 1));
    top.add_memory(cmem(&a, 1));
    let mut s = top.sub();
    s.add_entity(wire(&b, 2));
    s.add_memory(cmem(&b, 2));
    check(s.entity(&c) == if c == b { Some(wire(&b, 2)) } else if c == a { Some(wire(&a, 1)) } else { None }, "nested declarations take precedence");
    check(s.memory(&c) == if c == b { Some(cmem(&b, 2)) } else if c == a { Some(cmem(&a, 1)) } else { None }, "nested memories take precedence");
    cover("end");
}
pub fn vc_sub_merge() {
    let a = any_name();
    let b = any_name_like(&a);
    let c = any_name_like(&b);
    let mut top = TopContext::new(|_: &str| None);
    top.add_entity(wire(&a, 1));
    top.add_memory(cmem(&a, 1));
    let k = choose(2);
    {
        let mut s = top.sub();
        if k == 0 { s.add_entity(wire(&b, 2)) } else { s.add_memory(cmem(&b, 2)) }
    }
    let e = if k == 0 && c == b { Some(wire(&b, 2)) } else if c == a { Some(wire(&a, 1)) } else { None };
    let m = if k == 1 && c == b { Some(cmem(&b, 2)) } else if c == a { Some(cmem(&a, 1)) } else { None };
    check(top.entity(&c) == e, "nested declarations are added to the parent");
    check(top.memory(&c) == m, "nested memories are added to the parent");
    cover("end");
}
/// A context in which a single name is declared
pub struct One { pub name: Arc<str> }
impl Context for One {
    fn entity(&self, name: &str) -> Option<Arc<Entity>> { if *name == *self.name { Some(wire_named(self.name.clone())) } else { None } }
    fn add_entity(&mut self, _: Arc<Entity>) {}
    fn memory(&self, name: &str) -> Option<Arc<simple::Memory>> { if *name == *self.name { Some(cmem_named(self.name.clone())) } else { None } }
    fn add_memory(&mut self, _: Arc<simple::Memory>) {}
    fn module(&self, name: &str) -> Option<Arc<Module>> { if *name == *self.name { Some(module_named(self.name.clone())) } else { None } }
}
/// References to undeclared entities are rejected, wherever they appear
pub fn vc_undeclared() {
    let a = any_name();
    let b = any_name();
    assume(a != b);
    let input = match choose(13) {
        0 => j(&[&b, " <= ", &a, "\n"]),
        1 => j(&[&a, " <= ", &b, "\n"]),
        2 => j(&[&a, " <- ", &b, "\n"]),
        3 => j(&[&b, " is invalid\n"]),
        4 => j(&["node c = ", &b, "\n"]),
        5 => j(&["reg c : UInt<1>, ", &b, "\n"]),
        6 => j(&["reg c : UInt<1>, ", &a, " with: (reset => (", &b, ", ", &a, "))\n"]),
        7 => j(&["reg c : UInt<1>, ", &a, " with: (reset => (", &a, ", ", &b, "))\n"]),
        8 => j(&["attach(", &a, ", ", &b, ")\n"]),
        9 => j(&["stop(", &a, ", ", &b, ", 1)\n"]),
        10 => j(&["read mport c = ", &a, "[", &b, "], ", &a, "\n"]),
        11 => j(&["when ", &b, ":\n  skip\n"]),
        _ => j(&["printf(", &a, ", ", &a, ", \"%d\", ", &b, ")\n"]),
    };
    check(verif::stmt::stmt(&mut One { name: a.clone() }, &input, &mut Indentation::root()).is_err(), "undeclared entities cannot be referred to");
    let mut other = One { name: b.clone() };
    let _ = &mut other;
    cover("end");
}
/// References to declared entities resolve to these
pub fn vc_declared() {
    let a = any_name();
    let r = || Expression::Reference(wire_named(a.clone()));
    let (input, want) = match choose(5) {
        0 => (j(&[&a, " <= ", &a, "\n"]), stmt::Kind::Connection { to: r(), from: r() }),
        1 => (j(&[&a, " is invalid\n"]), stmt::Kind::Invalidate(r())),
        2 => (j(&["node c = ", &a, "\n"]), stmt::Kind::Declaration(Arc::new(Entity::Node { name: Arc::from("c"), value: r() }))),
        3 => (j(&["reg c : Clock, ", &a, "\n"]), stmt::Kind::Declaration(Arc::new(Entity::Register(memory::Register::new("c", GroundType::Clock, r()))))),
        _ => (j(&["infer mport c = ", &a, "[", &a, "], ", &a, "\n"]), stmt::Kind::Declaration(Arc::new(Entity::SimpleMemPort(simple::Port::new("c", cmem_named(a.clone()), None, r(), r()))))),
    };
    match verif::stmt::stmt(&mut One { name: a.clone() }, &input, &mut Indentation::root()) {
        Ok((rest, s)) => check(rest == "" && *s.kind() == want, "references resolve to the entity declared"),
        Err(_) => check(false, "declared entities can be referred to"),
    }
    cover("end");
}
pub fn vc_mport_scope() {
    let a = any_name();
    let b = any_name_like(&a);
    let input = j(&["rdwr mport c = ", &b, "[", &a, "], ", &a, "\n"]);
    match verif::stmt::stmt(&mut One { name: a.clone() }, &input, &mut Indentation::root()) {
        Ok((rest, s)) => {
            check(a == b, "ports belong to declared memories");
            let want = simple::Port::new("c", cmem_named(a.clone()), Some(PortDir::ReadWrite), Expression::Reference(wire_named(a.clone())), Expression::Reference(wire_named(a.clone())));
            check(rest == "" && *s.kind() == stmt::Kind::Declaration(Arc::new(Entity::SimpleMemPort(want))), "a port belongs to the memory of that name");
        }
        Err(_) => check(a != b, "declared memories can have ports"),
    }
    cover("end");
}
pub fn vc_instance_scope() {
    let a = any_name();
    let b = any_name_like(&a);
    let input = j(&["inst c of ", &b, "\n"]);
    match verif::stmt::stmt(&mut One { name: a.clone() }, &input, &mut Indentation::root()) {
        Ok((rest, s)) => {
            check(a == b, "only known modules can be instantiated");
            check(rest == "" && *s.kind() == stmt::Kind::Declaration(Arc::new(Entity::Instance(module::Instance::new("c", module_named(a.clone()))))), "the module of that name is instantiated");
        }
        Err(_) => check(a != b, "known modules can be instantiated"),
    }
    cover("end");
}
/// A declaration is visible from the next statement on, including nested ones, up to the end of the module
pub fn nt_scope() {
    let n = any_name();
    assume(!["clk", "c", "mm", "p"].contains(&&*n));
    let (decl, refer): (String, String) = match choose(5) {
        0 => (j(&["wire ", &n, " : UInt<4>\n"]), j(&["c <= ", &n, "\n"])),
        1 => (j(&["node ", &n, " = c\n"]), j(&[&n, " is invalid\n"])),
        2 => (j(&["reg ", &n, " : UInt<4>, clk\n"]), j(&["node zz = ", &n, "\n"])),
        3 => (j(&["cmem ", &n, " : UInt<4>[8]\n"]), j(&["infer mport zz = ", &n, "[c], clk\n"])),
        _ => (j(&["read mport ", &n, " = mm[c], clk\n"]), j(&["stop(clk, ", &n, ", 0)\n"])),
    };
    let head = "circuit m:\n  module m:\n    input clk: Clock\n    input c: UInt<1>\n    cmem mm: UInt<4>[8]\n";
    let parse = |body: String| firrtl_ast::circuit::parse(&j(&[head, &body])).is_ok();
    check(!parse(j(&["    ", &refer])), "an entity has to be declared");
    check(!parse(j(&["    ", &refer, "    ", &decl])), "an entity has to be declared before being used");
    check(parse(j(&["    ", &decl, "    ", &refer])), "a declared entity can be used");
    check(parse(j(&["    ", &decl, "    when c:\n      ", &refer])), "declarations are visible in nested blocks");
    check(parse(j(&["    ", &decl, "    when c:\n      skip\n    else:\n      when c:\n        ", &refer])), "declarations are visible in deeply nested blocks");
    check(parse(j(&["    when c:\n      ", &decl, "      ", &refer])), "nested declarations are visible in the block");
    check(parse(j(&["    when c:\n      ", &decl, "    ", &refer])), "nested declarations are visible after the block");
    check(!parse(j(&["    when c:\n      ", &refer, "    ", &decl])), "later declarations are not visible in the block");
    // the scope ends with the module
    let two = j(&["circuit k:\n", &head["circuit m:\n".len()..], "    ", &decl, "  module k:\n    input clk: Clock\n    input c: UInt<1>\n    ", &refer]);
    check(firrtl_ast::circuit::parse(&two).is_err(), "declarations are not visible in other modules");
    cover("end");
}
/// References resolve to the very entity declared
pub fn nt_entity_identity() {
    let ms = gen_modules(2);
    let c = Circuit::new(ms[ms.len() - 1].clone());
    if let Ok(d) = firrtl_ast::circuit::parse(&show(&c)) {
        fn walk(v: &[Statement], known: &mut Vec<Arc<Entity>>) {
            for s in v {
                let mut es: Vec<&Expr<Arc<Entity>>> = vec![];
                match s.kind() {
                    stmt::Kind::Connection { from, to } | stmt::Kind::PartialConnection { from, to } => { es.push(from); es.push(to) }
                    stmt::Kind::Invalidate(e) => es.push(e),
                    stmt::Kind::Attach(v) => es.extend(v),
                    stmt::Kind::Stop { clock, cond, .. } => { es.push(clock); es.push(cond) }
                    _ => {}
                }
                for e in es { for r in e.references() { check(known.iter().any(|k| Arc::ptr_eq(k, r)) || matches!(&**r, Entity::Port(_)), "references resolve to the very entity declared"); } }
                match s.kind() {
                    stmt::Kind::Declaration(d) => known.push(d.clone()),
                    stmt::Kind::Conditional { when, r#else, .. } => { walk(when, known); walk(r#else, known) }
                    _ => {}
                }
            }
        }
        walk(d.top_module().statements(), &mut vec![]);
    }
    cover("end");
}

// ---------------------------------------------------------------- C18

fn same_list(a: &[Arc<Expr<Rf>>], b: &[Arc<Expr<Rf>>]) -> bool {
    let mut r = a.len() == b.len();
    let mut i = 0;
    while r && i < a.len() { r = *a[i] == *b[i]; i += 1; }
    r
}
fn two(l: &Arc<Expr<Rf>>, r: &Arc<Expr<Rf>>) -> Vec<Arc<Expr<Rf>>> { let mut v = Vec::new(); v.push(l.clone()); v.push(r.clone()); v }
fn one(l: &Arc<Expr<Rf>>) -> Vec<Arc<Expr<Rf>>> { let mut v = Vec::new(); v.push(l.clone()); v }
fn operands(op: &Operation<Rf>) -> Vec<Arc<Expr<Rf>>> {
    use Operation as O;
    match op {
        O::Add(l, r) | O::Sub(l, r) | O::Mul(l, r) | O::Div(l, r) | O::Rem(l, r) | O::Lt(l, r) | O::LEq(l, r) | O::Gt(l, r) | O::GEq(l, r) | O::Eq(l, r) | O::NEq(l, r)
        | O::DShl(l, r) | O::DShr(l, r) | O::And(l, r) | O::Or(l, r) | O::Xor(l, r) | O::Cat(l, r) => two(l, r),
        O::Pad(l, _) | O::Shl(l, _) | O::Shr(l, _) | O::Bits(l, _, _) | O::IncPrecision(l, _) | O::DecPrecision(l, _) => one(l),
        O::Cast(l, _) => one(l),
        O::SetPrecision(l, _) => one(l),
        O::Cvt(l) | O::Neg(l) | O::Not(l) | O::AndReduce(l) | O::OrReduce(l) | O::XorReduce(l) => one(l),
    }
}
pub fn vc_sub_exprs() {
    let op: Operation<Rf> = gen_op(1);
    let got: Vec<Arc<Expr<Rf>>> = { let mut v = Vec::new(); for e in op.sub_exprs() { v.push(e.clone()) } v };
    check(same_list(&got, &operands(&op)), "sub_exprs() yields all operands, in order");
    cover("end");
}
/// The immediate sub-expressions of an expression
fn children(e: &Expr<Rf>) -> Vec<Arc<Expr<Rf>>> {
    match e {
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => one(base),
        Expression::SubAccess { base, index } => two(base, index),
        Expression::Mux { sel, a, b } => { let mut v = two(sel, a); v.push(b.clone()); v }
        Expression::ValidIf { sel, value } => two(sel, value),
        Expression::PrimitiveOp(op) => operands(op),
        _ => Vec::new(),
    }
}
fn any_node(sub: fn() -> Expr<Rf>) -> Expr<Rf> {
    match choose(8) {
        0 => gen_literal(),
        1 => Expression::Reference(Rf::mk()),
        2 => Expression::SubField { base: Arc::new(sub()), index: any_field_name() },
        3 => Expression::SubIndex { base: Arc::new(sub()), index: any_u16() },
        4 => Expression::SubAccess { base: Arc::new(sub()), index: Arc::new(sub()) },
        5 => Expression::Mux { sel: Arc::new(sub()), a: Arc::new(sub()), b: Arc::new(sub()) },
        6 => Expression::ValidIf { sel: Arc::new(sub()), value: Arc::new(sub()) },
        _ => Expression::PrimitiveOp(gen_op(1)),
    }
}
pub fn vc_expr_children() {
    let e = any_node(|| sub_expr(1));
    let got = <&Expr<Rf> as AutoTransIter<&Expr<Rf>>>::recurse(&&e);
    let want = children(&e);
    check(got.len() == want.len(), "every sub-expression is visited");
    let mut i = 0;
    while i < want.len() { check(*got[i] == *want[i], "every sub-expression is visited"); i += 1; }
    cover("end");
}
fn named(n: &str) -> Expr<Rf> { Expression::Reference(Rf { name: Arc::from(n) }) }
/// References of nested expressions are found, each as often as it occurs
pub fn vc_references() {
    let (a, b, c, d) = (Arc::new(named("a")), Arc::new(named("b")), Arc::new(named("c")), Arc::new(named("d")));
    let f = Arc::from("f");
    let (e, want): (Expr<Rf>, &[&str]) = match choose(8) {
        0 => (named("a"), &["a"]),
        1 => (Expression::SubAccess { base: a, index: b }, &["a", "b"]),
        2 => (Expression::Mux { sel: a, a: b, b: c }, &["a", "b", "c"]),
        3 => (Expression::ValidIf { sel: a, value: Arc::new(Expression::SubField { base: b, index: f }) }, &["a", "b"]),
        4 => (Expression::PrimitiveOp(Operation::Add(Arc::new(Expression::PrimitiveOp(Operation::Not(a))), Arc::new(Expression::SubIndex { base: b, index: 3 }))), &["a", "b"]),
        5 => (Expression::Mux { sel: Arc::new(Expression::ValidIf { sel: a.clone(), value: b }), a: Arc::new(Expression::SubAccess { base: c, index: a }), b: d }, &["a", "a", "b", "c", "d"]),
        6 => (Expression::PrimitiveOp(Operation::Bits(Arc::new(Expression::PrimitiveOp(Operation::Cat(a.clone(), a))), None, Some(1))), &["a", "a"]),
        _ => (Expression::UIntLiteral { value: 3u8.into(), width: 4 }, &[]),
    };
    let mut got: Vec<Arc<str>> = Vec::new();
    for r in e.references_() { got.push(r) }
    check(got.len() == want.len(), "every reference is found once per occurrence");
    let mut i = 0;
    while i < want.len() {
        let (mut n, mut m) = (0, 0);
        let mut k = 0;
        while k < want.len() { if want[k] == want[i] { n += 1 } if *got[k] == *want[i] { m += 1 } k += 1; }
        check(n == m, "every reference is found once per occurrence");
        i += 1;
    }
    cover("end");
}
trait Refs { fn references_(&self) -> Vec<Arc<str>>; }
impl Refs for Expr<Rf> {
    fn references_(&self) -> Vec<Arc<str>> {
        let w = retype(self);
        let mut v = Vec::new();
        for r in w.references() { v.push(r.name.clone()) }
        v
    }
}
/// `references()` requires a typed reference
fn retype(e: &Expr<Rf>) -> Expr<Rt> {
    let r = |e: &Arc<Expr<Rf>>| Arc::new(retype(e));
    match e {
        Expression::UIntLiteral { value, width } => Expression::UIntLiteral { value: value.clone(), width: *width },
        Expression::SIntLiteral { value, width } => Expression::SIntLiteral { value: value.clone(), width: *width },
        Expression::Reference(x) => Expression::Reference(Rt { name: x.name.clone(), ty: None, flow: None }),
        Expression::SubField { base, index } => Expression::SubField { base: r(base), index: index.clone() },
        Expression::SubIndex { base, index } => Expression::SubIndex { base: r(base), index: *index },
        Expression::SubAccess { base, index } => Expression::SubAccess { base: r(base), index: r(index) },
        Expression::Mux { sel, a, b } => Expression::Mux { sel: r(sel), a: r(a), b: r(b) },
        Expression::ValidIf { sel, value } => Expression::ValidIf { sel: r(sel), value: r(value) },
        Expression::PrimitiveOp(Operation::Not(e)) => Expression::PrimitiveOp(Operation::Not(r(e))),
        Expression::PrimitiveOp(Operation::Add(e, f)) => Expression::PrimitiveOp(Operation::Add(r(e), r(f))),
        Expression::PrimitiveOp(Operation::Cat(e, f)) => Expression::PrimitiveOp(Operation::Cat(r(e), r(f))),
        Expression::PrimitiveOp(Operation::Bits(e, l, h)) => Expression::PrimitiveOp(Operation::Bits(r(e), *l, *h)),
        Expression::PrimitiveOp(_) => { assume(false); loop {} }
    }
}
fn all_refs(e: &Expr<Rt>, v: &mut Vec<String>) {
    use Operation as O;
    match e {
        Expression::Reference(r) => v.push(r.name.to_string()),
        Expression::UIntLiteral { .. } | Expression::SIntLiteral { .. } => {}
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => all_refs(base, v),
        Expression::SubAccess { base, index } => { all_refs(base, v); all_refs(index, v) }
        Expression::Mux { sel, a, b } => { all_refs(sel, v); all_refs(a, v); all_refs(b, v) }
        Expression::ValidIf { sel, value } => { all_refs(sel, v); all_refs(value, v) }
        Expression::PrimitiveOp(op) => match op {
            O::Add(l, r) | O::Sub(l, r) | O::Mul(l, r) | O::Div(l, r) | O::Rem(l, r) | O::Lt(l, r) | O::LEq(l, r) | O::Gt(l, r) | O::GEq(l, r) | O::Eq(l, r) | O::NEq(l, r)
            | O::DShl(l, r) | O::DShr(l, r) | O::And(l, r) | O::Or(l, r) | O::Xor(l, r) | O::Cat(l, r) => { all_refs(l, v); all_refs(r, v) }
            O::Pad(l, _) | O::Shl(l, _) | O::Shr(l, _) | O::Bits(l, _, _) | O::IncPrecision(l, _) | O::DecPrecision(l, _) => all_refs(l, v),
            O::Cast(l, _) => all_refs(l, v),
            O::SetPrecision(l, _) => all_refs(l, v),
            O::Cvt(l) | O::Neg(l) | O::Not(l) | O::AndReduce(l) | O::OrReduce(l) | O::XorReduce(l) => all_refs(l, v),
        },
    }
}
pub fn nt_references() {
    let e: Expr<Rt> = gen_expr(depth(), 3);
    let mut want = vec![];
    all_refs(&e, &mut want);
    let mut got: Vec<String> = e.references().map(|r| r.name.to_string()).collect();
    want.sort();
    got.sort();
    check(got == want, "every reference is found once per occurrence");
    cover("end");
}
pub fn vc_stmt_children() {
    let n = any_len(3);
    let m = any_len(3);
    let mk = |n: usize| { let mut v: Vec<Statement> = Vec::new(); let mut i = 0; while i < n { v.push(leaf_stmt()); i += 1; } v };
    let (when, r#else) = (mk(n), mk(m));
    let s = Statement::from(stmt::Kind::Conditional { cond: any_expr(), when: when.clone().into(), r#else: r#else.clone().into() });
    let got = <&Statement as AutoTransIter<&Statement>>::recurse(&&s);
    check(got.len() == n + m, "every nested statement is visited");
    let mut i = 0;
    while i < n { check(*got[i] == when[i], "statements of the first branch are visited"); i += 1; }
    let mut i = 0;
    while i < m { check(*got[n + i] == r#else[i], "statements of the second branch are visited"); i += 1; }
    let k = choose(9);
    let t = gen_stmt_k(k, 1);
    check(<&Statement as AutoTransIter<&Statement>>::recurse(&&t).len() == 0, "other statements have no nested ones");
    cover("end");
}
fn decl(n: &str) -> Statement { Statement::from(stmt::Kind::Declaration(wire(&Arc::from(n), 1))) }
fn inst(n: &str) -> Statement { Statement::from(stmt::Kind::Declaration(Arc::new(Entity::Instance(module::Instance::new(n, module_named(Arc::from(n))))))) }
fn skip() -> Statement { Statement::from(stmt::Kind::Empty) }
fn cond(when: Vec<Statement>, r#else: Vec<Statement>) -> Statement {
    Statement::from(stmt::Kind::Conditional { cond: Expression::UIntLiteral { value: 1u8.into(), width: 1 }, when: when.into(), r#else: r#else.into() })
}
pub fn list1(a: Statement) -> Vec<Statement> { let mut v = Vec::new(); v.push(a); v }
fn list2(a: Statement, b: Statement) -> Vec<Statement> { let mut v = Vec::new(); v.push(a); v.push(b); v }
/// Nested statements declaring wires or instances `a` to `c`
fn nested(k: usize, d: fn(&str) -> Statement) -> (Statement, &'static [&'static str]) {
    match k {
        0 => (skip(), &[]),
        1 => (d("a"), &["a"]),
        2 => (cond(list1(d("a")), Vec::new()), &["a"]),
        3 => (cond(list1(skip()), list1(d("a"))), &["a"]),
        4 => (cond(list2(d("a"), skip()), list2(skip(), d("b"))), &["a", "b"]),
        5 => (cond(list2(cond(list1(d("a")), list1(d("b"))), d("c")), Vec::new()), &["a", "b", "c"]),
        6 => (cond(list1(skip()), list1(cond(list1(skip()), list1(cond(list1(d("a")), list1(d("b"))))))), &["a", "b"]),
        _ => (cond(list2(d("a"), d("a")), list1(d("a"))), &["a", "a", "a"]),
    }
}
fn same_names(got: &[Arc<str>], want: &[&str]) {
    check(got.len() == want.len(), "nothing is missed, nothing is found twice");
    let mut i = 0;
    while i < want.len() {
        let (mut n, mut m) = (0, 0);
        let mut k = 0;
        while k < want.len() { if *want[k] == *want[i] { n += 1 } if *got[k] == *want[i] { m += 1 } k += 1; }
        check(n == m, "nothing is missed, nothing is found twice");
        i += 1;
    }
}
pub fn vc_declarations() {
    let k = choose(8);
    let (s, want) = nested(k, if choose(2) == 0 { decl } else { inst });
    let mut got = Vec::new();
    for e in s.declarations() { got.push(e.name().clone()) }
    same_names(&got, want);
    cover("end");
}
pub fn vc_instantiations() {
    let k = choose(8);
    let (s, want) = nested(k, inst);
    let mut got = Vec::new();
    for i in s.instantiations() { got.push(i.name().clone()) }
    same_names(&got, want);
    let (t, _) = nested(k, decl);
    let mut n = 0;
    for _ in t.instantiations() { n += 1 }
    check(n == 0, "only instances are instantiations");
    cover("end");
}
pub fn vc_referenced_modules() {
    let k = choose(8);
    let (s, want) = nested(k, inst);
    let m = Module::new(Arc::from("top"), Vec::new(), module::Kind::Regular { stmts: list2(decl("x"), s) });
    let mut got = Vec::new();
    for i in m.referenced_modules() { got.push(i.name().clone()) }
    same_names(&got, want);
    let x = Module::new(Arc::from("ext"), Vec::new(), module::Kind::empty_external());
    let mut n = 0;
    for _ in x.referenced_modules() { n += 1 }
    check(n == 0, "external modules do not refer to modules");
    cover("end");
}
fn all_decls<'a>(s: &'a Statement, v: &mut Vec<&'a Arc<Entity>>) {
    match s.kind() {
        stmt::Kind::Declaration(d) => v.push(d),
        stmt::Kind::Conditional { when, r#else, .. } => { for s in when.iter().chain(r#else.iter()) { all_decls(s, v) } }
        _ => {}
    }
}
pub fn nt_declarations() {
    let d = depth();
    let v = { let mut v = gen_stmts(d, 1); v.extend(gen_stmts(2, 0)); v };
    let mut mods = vec![];
    for s in &v {
        let mut want = vec![];
        all_decls(s, &mut want);
        let got: Vec<_> = s.declarations().collect();
        check(got.len() == want.len() && want.iter().all(|w| got.iter().any(|g| Arc::ptr_eq(g, w))), "every declaration is found");
        let inst: Vec<_> = want.iter().filter_map(|e| if let Entity::Instance(i) = &***e { Some(i) } else { None }).collect();
        let got: Vec<_> = s.instantiations().collect();
        check(got.len() == inst.len() && inst.iter().all(|w| got.iter().any(|g| std::ptr::eq(*g, *w))), "every instantiation is found");
        for i in inst { mods.push(i.module().clone()) }
    }
    let m = Module::new(Arc::from("top"), Vec::new(), module::Kind::Regular { stmts: v.clone() });
    let got: Vec<_> = m.referenced_modules().collect();
    check(got.len() == mods.len() && mods.iter().all(|w| got.iter().any(|g| Arc::ptr_eq(g, w))), "every module referred to is found");
    let _ = env::strict();
    cover("end");
}

// ---------------------------------------------------------------- C21

pub fn vc_memory_builder() {
    let (n, t, d) = (any_name(), any_type1(), any_u64());
    let m = memory::Memory::new(n.clone(), t.clone(), d);
    let same = |m: &memory::Memory, rl: u16, wl: u16, ruw: memory::common::ReadUnderWrite, ports: &[memory::mem::Port]| {
        let mut i = 0;
        let mut r = *m.name() == n && *m.data_type() == t && m.depth() == d && m.read_latency() == rl && m.write_latency() == wl && m.read_under_write() == ruw;
        for p in m.ports() { r = r && i < ports.len() && *p == ports[i]; i += 1; }
        r && i == ports.len()
    };
    use memory::common::ReadUnderWrite as R;
    check(same(&m, 0, 0, R::Undefined, &[]), "a new memory has no ports, no latency and undefined behaviour");
    let (rl, wl, ruw) = (any_u16(), any_u16(), any_ruw());
    let port = || memory::mem::Port { name: any_name(), dir: any_portdir() };
    let (p, q, r) = (port(), port(), port());
    let mut m = m.with_read_latency(rl);
    check(same(&m, rl, 0, R::Undefined, &[]), "only the read latency is set");
    m.add_port(p.clone());
    check(same(&m, rl, 0, R::Undefined, &[p.clone()]), "a port is added");
    let mut m = m.with_write_latency(wl);
    check(same(&m, rl, wl, R::Undefined, &[p.clone()]), "only the write latency is set");
    let mut v = Vec::new();
    v.push(q.clone());
    v.push(r.clone());
    m.add_ports(v);
    check(same(&m, rl, wl, R::Undefined, &[p.clone(), q.clone(), r.clone()]), "ports are added, in order");
    let m = m.with_read_under_write(ruw);
    check(same(&m, rl, wl, ruw, &[p, q, r]), "only the read-under-write behaviour is set");
    cover("end");
}
pub fn vc_register_builder() {
    let (n, t) = (any_name(), any_type1());
    let (c, s, v): (Expr<Rf>, Expr<Rf>, Expr<Rf>) = (any_expr(), any_expr(), any_expr());
    let same = |r: &memory::Register<Rf>, reset: Option<(&Expr<Rf>, &Expr<Rf>)>| {
        *r.name() == n && *r.clock() == c && match r.r#type() { Ok(u) => u == t, Err(_) => false } && r.reset_signal() == reset.map(|r| r.0) && r.reset_value() == reset.map(|r| r.1)
    };
    let r = memory::Register::new(n.clone(), t.clone(), c.clone());
    check(same(&r, None), "a new register is not reset");
    let r = r.with_reset(s.clone(), v.clone());
    check(same(&r, Some((&s, &v))), "signal and value are set");
    check(same(&r.clone().with_reset(v.clone(), s.clone()), Some((&v, &s))), "signal and value are replaced");
    check(same(&r.clone().with_optional_reset(None), None) && same(&r.clone().without_reset(), None), "the reset is removed");
    check(same(&r.without_reset().with_optional_reset(Some((s.clone(), v.clone()))), Some((&s, &v))), "the reset is set");
    check(memory::Register::new(n.clone(), t.clone(), c.clone()).flow() == Some(Flow::Duplex), "registers are duplex");
    cover("end");
}
pub fn vc_field_builder() {
    let (n, t, u) = (any_field_name(), any_type1(), any_type1());
    let f = BundleField::new(n.clone(), t.clone());
    let same = |f: &BundleField, t: &Type, o: Orientation| *f.name() == n && *f.r#type() == *t && f.orientation() == o;
    check(same(&f, &t, Orientation::Normal), "a new field is not flipped");
    let o = any_orientation();
    let f = f.with_orientation(o);
    check(same(&f, &t, o), "only the orientation is set");
    let g = f.clone().flipped();
    check(same(&g, &t, if o == Orientation::Normal { Orientation::Flipped } else { Orientation::Normal }), "the orientation is flipped");
    check(g.flipped() == f, "flipping twice is the identity");
    check(same(&f.with_type(u.clone()), &u, o), "only the type is set");
    cover("end");
}
pub fn vc_type_from() {
    let g = any_ground();
    check(Type::from(g) == Type::GroundType(g), "ground types are types");
    let mut v = Vec::new();
    v.push(gen_field(0));
    v.push(gen_field(0));
    let t = Type::from(v.clone());
    let u: Type = v.clone().into_iter().collect();
    check(t == u, "bundles are made from lists or iterators alike");
    let mut i = 0;
    if let Type::Bundle(fs) = &t { while i < fs.len() { check(i < v.len() && fs[i] == v[i], "fields are kept, in order"); i += 1; } }
    check(i == 2, "fields are kept");
    check(TypeExt::ground_type(&t).is_none(), "bundles are no ground types");
    cover("end");
}
pub fn vc_module_access() {
    let name = any_name();
    let (p, q) = (Arc::new(gen_port()), Arc::new(gen_port()));
    let mut v = Vec::new();
    v.push(p.clone());
    v.push(q.clone());
    let ext = any_bool();
    let kind = if ext { module::Kind::empty_external() } else { let s = leaf_stmt(); module::Kind::Regular { stmts: list1(s) } };
    let mut m = Module::new(name.clone(), v, kind.clone());
    check(*m.name() == name && *m.kind() == kind && m.info().is_none(), "a module is made up from name, ports and kind");
    check(m.kind().keyword() == if ext { "extmodule" } else { "module" }, "keyword of a module");
    check(m.statements().len() == if ext { 0 } else { 1 } && m.kind().statements().len() == m.statements().len(), "statements of a module");
    if let module::Kind::Regular { stmts } = &kind { check(m.statements()[0] == stmts[0], "statements of a module") }
    let mut i = 0;
    for r in m.ports() { check(i < 2 && **r == if i == 0 { (*p).clone() } else { (*q).clone() }, "ports of a module, in order"); i += 1; }
    check(i == 2, "ports of a module");
    let n = if native() { match choose(3) { 0 => p.name().clone(), 1 => q.name().clone(), _ => any_name() } } else { any_name() };
    match m.port_by_name(&n) {
        Some(r) => check(if n == *p.name() { **r == *p } else { n == *q.name() && **r == *q }, "a port is found by its name"),
        None => check(n != *p.name() && n != *q.name(), "every port is found by its name"),
    }
    *m.kind_mut() = module::Kind::default();
    check(*m.kind() == module::Kind::empty_regular() && *m.name() == name, "only the kind is changed");
    cover("end");
}
pub fn vc_port_access() {
    let (n, t, d) = (any_name(), any_type1(), any_direction());
    let p = module::Port::new(n.clone(), t.clone(), d);
    check(*p.name() == n && *p.r#type() == t && p.direction() == d && p.info().is_none(), "a port is made up from name, type and direction");
    check(match Typed::r#type(&p) { Ok(u) => u == t, Err(_) => false }, "a port has the type given");
    check(p.flow() == Some(if d == Direction::Input { Flow::Source } else { Flow::Sink }), "inputs are sources, outputs are sinks");
    let m = module_named(any_name());
    let i = module::Instance::new(n.clone(), m.clone());
    check(*i.name() == n && Arc::ptr_eq(i.module(), &m), "an instance is made up from name and module");
    cover("end");
}
fn info_frame<T: WithInfo + Clone + PartialEq>(t: T) -> bool {
    let s = any_plain();
    let mut u = t.clone().with_info(Some(s.clone()));
    let mut r = u.info() == Some(s.as_str());
    u.set_info(None);
    r = r && u.info().is_none();
    u.set_info(Some(s.clone()));
    r = r && u.info() == Some(s.as_str());
    u.clear_info();
    r && u.info().is_none() && u == t.clone().with_info(None)
}
pub fn vc_info_access() {
    let r = match choose(4) {
        0 => info_frame(module::Port::new(any_name(), any_type1(), any_direction())),
        1 => { let s = gen_stmt_k(0, 1); info_frame(s) }
        2 => info_frame((*module_named(any_name())).clone()),
        _ => info_frame(Circuit::new(module_named(any_name()))),
    };
    check(r, "setting the info sets the info only");
    cover("end");
}
pub fn vc_mport_access() {
    let (n, m) = (any_name(), cmem_named(any_name()));
    let d = if any_bool() { Some(any_portdir()) } else { None };
    let (a, c): (Expr<Rf>, Expr<Rf>) = (any_expr(), any_expr());
    let p = simple::Port::new(n.clone(), m.clone(), d, a.clone(), c.clone());
    check(*p.name() == n && Arc::ptr_eq(p.memory(), &m) && p.direction() == d && *p.address() == a && *p.clock() == c, "a memory port is made up from its parts");
    let k = match choose(3) { 0 => simple::Kind::Combinatory, 1 => simple::Kind::Sequential(None), _ => simple::Kind::Sequential(Some(any_ruw())) };
    let s = simple::Memory::new(n.clone(), any_type1(), k);
    check(s.kind() == k && *s.name() == n && k.keyword() == (if k == simple::Kind::Combinatory { "cmem" } else { "smem" }), "a simple memory is made up from its parts");
    cover("end");
}
pub fn vc_entity_from() {
    match choose(5) {
        0 => { let p = Arc::new(gen_port()); check(Entity::from(p.clone()) == Entity::Port(p), "ports are entities") }
        1 => { let r = gen_register::<Arc<Entity>>(); check(Entity::from(r.clone()) == Entity::Register(r), "registers are entities") }
        2 => { let m = memory::Memory::new(any_name(), any_type1(), any_u64()); check(Entity::from(m.clone()) == Entity::Memory(m), "memories are entities") }
        3 => { let p = gen_mport::<Arc<Entity>>(cmem_named(any_name())); check(Entity::from(p.clone()) == Entity::SimpleMemPort(p), "memory ports are entities") }
        _ => { let i = module::Instance::new(any_name(), module_named(any_name())); check(Entity::from(i.clone()) == Entity::Instance(i), "instances are entities") }
    }
    let r = Rf::mk();
    check(Expression::from(r.clone()) == Expression::Reference(r), "references are expressions");
    let op: Operation<Rf> = Operation::Not(Arc::new(any_expr()));
    check(Expression::from(op.clone()) == Expression::PrimitiveOp(op), "operations are expressions");
    let k = gen_stmt_k(0, 1).kind().clone();
    let s = Statement::from(k.clone());
    check(*s.kind() == k && *AsRef::<stmt::Kind>::as_ref(&s) == k && s.info().is_none(), "a statement is made up from its kind");
    cover("end");
}
pub fn vc_circuit_access() {
    let m = module_named(any_name());
    let c = Circuit::new(m.clone());
    check(Arc::ptr_eq(c.top_module(), &m) && c.info().is_none(), "a circuit is made up from its top module");
    let _ = show_at::<String>;
    cover("end");
}
pub fn vc_ground_width() {
    let g = any_ground();
    let w = any_width();
    let h = g.with_width(w);
    use GroundType as G;
    let (want, kept) = match g {
        G::UInt(_) => (w, h == G::UInt(w)),
        G::SInt(_) => (w, h == G::SInt(w)),
        G::Fixed(_, p) => (w, h == G::Fixed(w, p)),
        G::Analog(_) => (w, h == G::Analog(w)),
        G::Clock | G::Reset(_) => (Some(1), h == g),
    };
    check(kept, "with_width() sets the width only");
    check(h.width() == want, "width() is the width set");
    cover("end");
}
