//! Generators of arbitrary ASTs. With `depth() == 1` (the deductive engine) every sub-tree is an
//! opaque leaf, i.e. an arbitrary value about which only the induction hypothesis is known.
use crate::vc::*;
use firrtl_ast::expr::{primitive::Operation, Expression, Flow, Reference};
use firrtl_ast::memory::{self, common::{PortDir, ReadUnderWrite}, mem, simple};
use firrtl_ast::module::{self, Direction, Module};
use firrtl_ast::stmt::{self, print::{Format, PrintElement}, Entity, Statement};
use firrtl_ast::types::{BitWidth, BundleField, GroundType, Orientation, ResetKind, SBits, Type, Typed};
use firrtl_ast::Named;
use crate::env;
use num_bigint::{BigInt, BigUint};
use std::sync::Arc;

pub type Expr<R> = Expression<R>;

// ---------------------------------------------------------------- references

/// Reference carrying nothing but a name
#[derive(Clone, Debug, PartialEq)]
pub struct Rf { pub name: Arc<str> }
impl Named for Rf { type Name = Arc<str>; fn name(&self) -> &Arc<str> { &self.name } }
impl Reference for Rf { fn flow(&self) -> Option<Flow> { None } }

/// Reference to an entity of arbitrary type and flow
#[derive(Clone, Debug, PartialEq)]
pub struct Rt { pub name: Arc<str>, pub ty: Option<Type>, pub flow: Option<Flow> }
impl Named for Rt { type Name = Arc<str>; fn name(&self) -> &Arc<str> { &self.name } }
impl Reference for Rt { fn flow(&self) -> Option<Flow> { self.flow } }
impl Typed for Rt {
    type Err = ();
    type Type = Type;
    fn r#type(&self) -> Result<Type, ()> { match &self.ty { Some(t) => Ok(t.clone()), None => Err(()) } }
}

/// References which may be made up from a name
pub trait MkRef: Reference + Clone + std::fmt::Debug + PartialEq {
    fn mk() -> Self;
    fn by_name(name: &str) -> Option<Self>;
    /// Whether there is anything to refer to
    fn avail() -> bool { true }
}
impl MkRef for Rf {
    fn mk() -> Self { Rf { name: any_name() } }
    fn by_name(name: &str) -> Option<Self> { Some(Rf { name: name.into() }) }
}
impl MkRef for Arc<Entity> {
    fn mk() -> Self {
        if native() && (env::strict() || any_bool()) {
            let e = env::ents();
            if e.len() > 0 { return e[choose(e.len())].clone() }
        }
        let n = any_name();
        match env::entity(&n) { Some(e) => e, None => wire_named(n) }
    }
    fn by_name(name: &str) -> Option<Self> { Some(wire_named(name.into())) }
    fn avail() -> bool { !native() || !env::strict() || env::ents().len() > 0 }
}
impl MkRef for Rt {
    fn mk() -> Self { Rt { name: any_name(), ty: any_opt_type(), flow: any_opt_flow() } }
    fn by_name(_: &str) -> Option<Self> { None }
}

pub fn wire_named(name: Arc<str>) -> Arc<Entity> { Arc::new(Entity::Wire { name, r#type: Type::GroundType(GroundType::UInt(None)) }) }

/// A context in which every name not declared is a wire, a simple memory and a module
#[derive(Default)]
pub struct AllCtx { pub ents: Vec<Arc<Entity>>, pub mems: Vec<Arc<simple::Memory>> }
impl stmt::context::Context for AllCtx {
    fn entity(&self, name: &str) -> Option<Arc<Entity>> {
        let mut i = self.ents.len();
        while i > 0 { i -= 1; if self.ents[i].name_ref() == name { return Some(self.ents[i].clone()) } }
        <Arc<Entity> as MkRef>::by_name(name)
    }
    fn add_entity(&mut self, e: Arc<Entity>) { self.ents.push(e) }
    fn memory(&self, name: &str) -> Option<Arc<simple::Memory>> {
        let mut i = self.mems.len();
        while i > 0 { i -= 1; if self.mems[i].name_ref() == name { return Some(self.mems[i].clone()) } }
        Some(cmem_named(name.into()))
    }
    fn add_memory(&mut self, m: Arc<simple::Memory>) { self.mems.push(m) }
    fn module(&self, name: &str) -> Option<Arc<Module>> { Some(module_named(name.into())) }
}
pub fn cmem_named(name: Arc<str>) -> Arc<simple::Memory> {
    Arc::new(simple::Memory::new(name, Type::GroundType(GroundType::UInt(None)), simple::Kind::Combinatory))
}
pub fn module_named(name: Arc<str>) -> Arc<Module> { Arc::new(Module::new(name, Vec::new(), module::Kind::empty_regular())) }

/// The length of a list: 0 to 2 for the engine, natively up to `max`, at times many more
pub fn any_len(max: usize) -> usize {
    if !native() { return choose(3) }
    if choose(14) == 1 { choose(5 * max) } else { choose(max) }
}

/// The length of a list with a minimal length: up to `min + 1` for the engine
pub fn any_from(min: usize, max: usize) -> usize { min + if native() { any_len(max) } else { choose(2) } }

// ---------------------------------------------------------------- scalars

pub fn any_width() -> BitWidth { if any_bool() { Some(any_u16()) } else { None } }
pub fn any_point() -> Option<SBits> { if any_bool() { Some(any_i16()) } else { None } }
pub fn any_orientation() -> Orientation { if any_bool() { Orientation::Flipped } else { Orientation::Normal } }
pub fn any_flow() -> Flow { match choose(3) { 0 => Flow::Source, 1 => Flow::Sink, _ => Flow::Duplex } }
pub fn any_opt_flow() -> Option<Flow> { if any_bool() { Some(any_flow()) } else { None } }
pub fn any_direction() -> Direction { if any_bool() { Direction::Input } else { Direction::Output } }
pub fn any_portdir() -> PortDir { match choose(3) { 0 => PortDir::Read, 1 => PortDir::Write, _ => PortDir::ReadWrite } }
pub fn any_ruw() -> ReadUnderWrite { match choose(3) { 0 => ReadUnderWrite::Old, 1 => ReadUnderWrite::New, _ => ReadUnderWrite::Undefined } }
pub fn any_ground() -> GroundType {
    match choose(7) {
        0 => GroundType::UInt(any_width()),
        1 => GroundType::SInt(any_width()),
        2 => GroundType::Fixed(any_width(), any_point()),
        3 => GroundType::Clock,
        4 => GroundType::Reset(ResetKind::Regular),
        5 => GroundType::Reset(ResetKind::Async),
        _ => GroundType::Analog(any_width()),
    }
}
#[inline(never)]
pub fn any_biguint() -> BigUint {
    if let Some(t) = replayed_big() { if let Ok(v) = t.parse() { return v } }
    match choose(3) { 0 => BigUint::from(any_u16()), 1 => BigUint::from(any_u64()), _ => (BigUint::from(any_u64()) << 61u32) + any_u64() }
}
#[inline(never)]
pub fn any_bigint() -> BigInt {
    if let Some(t) = replayed_big() { if let Ok(v) = t.parse() { return v } }
    let v = BigInt::from(any_biguint());
    if any_bool() { -v } else { v }
}
pub fn any_opt_name() -> Option<Arc<str>> { if any_bool() { Some(any_name()) } else { None } }

pub fn any_opt_text() -> Option<String> { if any_bool() { Some(any_text()) } else { None } }
/// An info attribute for harnesses concerned with other things
#[inline(never)]
pub fn any_info() -> Option<String> { any_opt_text() }

// ---------------------------------------------------------------- types

/// An arbitrary type; opaque for the deductive engine
#[inline(never)]
pub fn leaf_type() -> Type { as_leaf(|| if choose(3) > 0 { Type::GroundType(any_ground()) } else { let d = choose(2); gen_type(d) }) }

pub fn gen_type(d: usize) -> Type {
    if d == 0 && !native() { return leaf_type() }
    if d == 0 { return Type::GroundType(any_ground()) }
    match choose(3) {
        0 => Type::GroundType(any_ground()),
        1 => Type::Vector(Arc::new(gen_type(d - 1)), any_u16()),
        _ => {
            let n = any_len(4);
            let mut v = Vec::new();
            let mut i = 0;
            while i < n { v.push(gen_field(d - 1)); i += 1; }
            Type::Bundle(v.into())
        }
    }
}
pub fn gen_field(d: usize) -> BundleField {
    let n = any_field_name();
    let t = gen_type(d);
    BundleField::new(n, t).with_orientation(any_orientation())
}
pub fn any_type() -> Type { gen_type(depth()) }
pub fn any_opt_type() -> Option<Type> { if any_bool() { Some(leaf_type()) } else { None } }

/// A type related to `t`: mostly equal up to widths, with an occasional difference
pub fn similar_type(t: &Type) -> Type {
    match t {
        Type::GroundType(g) => match choose(5) {
            0 => Type::GroundType(*g),
            1 | 2 => match g {
                GroundType::Fixed(..) => Type::GroundType(GroundType::Fixed(any_width(), any_point())),
                g => Type::GroundType(g.with_width(any_width())),
            },
            3 => Type::GroundType(any_ground()),
            _ => Type::GroundType(*g),
        },
        Type::Vector(b, w) => match choose(8) {
            0 => Type::Vector(b.clone(), any_u16()),
            _ => Type::Vector(Arc::new(similar_type(b)), *w),
        },
        Type::Bundle(fs) => {
            let k = choose(12);
            let mut v: Vec<BundleField> = Vec::new();
            for f in fs.iter() {
                let mut g = BundleField::new(f.name().clone(), similar_type(f.r#type())).with_orientation(f.orientation());
                match choose(16) { 0 => g = g.flipped(), 1 => g = BundleField::new(any_field_name(), g.r#type().clone()).with_orientation(g.orientation()), _ => {} }
                v.push(g);
            }
            match k { 0 => { v.pop(); } 1 => v.push(gen_field(0)), 2 => v.reverse(), _ => {} }
            Type::Bundle(v.into())
        }
    }
}

// ---------------------------------------------------------------- expressions

/// An arbitrary expression; opaque for the deductive engine
#[inline(never)]
pub fn leaf_expr<R: MkRef>() -> Expr<R> { as_leaf(|| { let k = choose(6); if k < 3 && R::avail() { Expression::Reference(R::mk()) } else if k < 5 { gen_literal() } else { gen_expr(1, 1) } }) }

pub fn gen_literal<R: MkRef>() -> Expr<R> {
    if any_bool() { Expression::UIntLiteral { value: any_biguint(), width: any_u16() } } else { Expression::SIntLiteral { value: any_bigint(), width: any_u16() } }
}
pub fn gen_expr<R: MkRef>(d: usize, chain: usize) -> Expr<R> {
    let k = choose(if chain > 0 && (d > 0 || !native()) { 8 } else { 5 });
    match k {
        5 => Expression::SubField { base: Arc::new(gen_expr(d.saturating_sub(1), chain - 1)), index: any_field_name() },
        6 => Expression::SubIndex { base: Arc::new(gen_expr(d.saturating_sub(1), chain - 1)), index: any_u16() },
        7 => Expression::SubAccess { base: Arc::new(gen_expr(d.saturating_sub(1), chain - 1)), index: Arc::new(sub_expr(d)) },
        1 if d > 0 => Expression::Mux { sel: Arc::new(sub_expr(d)), a: Arc::new(sub_expr(d)), b: Arc::new(sub_expr(d)) },
        2 if d > 0 => Expression::ValidIf { sel: Arc::new(sub_expr(d)), value: Arc::new(sub_expr(d)) },
        3 | 4 if d > 0 => Expression::PrimitiveOp(gen_op(d)),
        0 => gen_literal(),
        _ => if R::avail() { Expression::Reference(R::mk()) } else { gen_literal() },
    }
}
/// An operand: opaque for the engine
pub fn sub_expr<R: MkRef>(d: usize) -> Expr<R> {
    if !native() { return leaf_expr() }
    if d <= 1 { leaf_expr() } else { gen_expr(d - 1, 2) }
}
pub fn any_expr<R: MkRef>() -> Expr<R> { if native() { let d = depth(); gen_expr(d, 2) } else { leaf_expr() } }
fn sub<R: MkRef>(d: usize) -> Arc<Expr<R>> { Arc::new(sub_expr(d)) }

pub const OPS: usize = 31;
/// An operation whose operands are made by `sub_expr` (printable ones only)
pub fn gen_op<R: MkRef>(d: usize) -> Operation<R> { let k = choose(OPS); gen_op_k(k, d) }
pub fn gen_op_k<R: MkRef>(k: usize, d: usize) -> Operation<R> {
    match k {
        0 => Operation::Add(sub(d), sub(d)),
        1 => Operation::Sub(sub(d), sub(d)),
        2 => Operation::Mul(sub(d), sub(d)),
        3 => Operation::Div(sub(d), sub(d)),
        4 => Operation::Rem(sub(d), sub(d)),
        5 => Operation::Lt(sub(d), sub(d)),
        6 => Operation::LEq(sub(d), sub(d)),
        7 => Operation::Gt(sub(d), sub(d)),
        8 => Operation::GEq(sub(d), sub(d)),
        9 => Operation::Eq(sub(d), sub(d)),
        10 => Operation::NEq(sub(d), sub(d)),
        11 => Operation::Pad(sub(d), any_u16()),
        12 => Operation::Cast(sub(d), any_cast_target()),
        13 => Operation::Shl(sub(d), any_u16()),
        14 => Operation::Shr(sub(d), any_u16()),
        15 => Operation::DShl(sub(d), sub(d)),
        16 => Operation::DShr(sub(d), sub(d)),
        17 => Operation::Cvt(sub(d)),
        18 => Operation::Neg(sub(d)),
        19 => Operation::Not(sub(d)),
        20 => Operation::And(sub(d), sub(d)),
        21 => Operation::Or(sub(d), sub(d)),
        22 => Operation::Xor(sub(d), sub(d)),
        23 => Operation::AndReduce(sub(d)),
        24 => Operation::OrReduce(sub(d)),
        25 => Operation::XorReduce(sub(d)),
        26 => Operation::Cat(sub(d), sub(d)),
        27 => match choose(3) {
            0 => Operation::Bits(sub(d), Some(any_u16()), Some(any_u16())),
            1 => Operation::Bits(sub(d), None, Some(any_u16())),
            _ => Operation::Bits(sub(d), Some(any_u16()), None),
        },
        28 => Operation::IncPrecision(sub(d), any_u16()),
        29 => Operation::DecPrecision(sub(d), any_u16()),
        _ => Operation::SetPrecision(sub(d), any_i16()),
    }
}
/// A cast target as the grammar can express it
pub fn any_cast_target() -> GroundType {
    match choose(5) {
        0 => GroundType::UInt(None),
        1 => GroundType::SInt(None),
        2 => GroundType::Fixed(None, Some(any_i16())),
        3 => GroundType::Clock,
        _ => GroundType::Reset(ResetKind::Async),
    }
}

// ---------------------------------------------------------------- memories and entities

pub fn gen_memory() -> memory::Memory {
    let mut m = memory::Memory::new(any_name(), any_type1(), any_u64());
    let n = any_len(4);
    let mut i = 0;
    while i < n { m.add_port(mem::Port { name: any_name(), dir: any_portdir() }); i += 1; }
    m.with_read_latency(any_u16()).with_write_latency(any_u16()).with_read_under_write(any_ruw())
}
/// A type: arbitrary natively, opaque for the engine
pub fn any_type1() -> Type { if native() { any_type() } else { leaf_type() } }
pub fn any_mem_kind() -> simple::Kind { match choose(3) { 0 => simple::Kind::Combinatory, 1 => simple::Kind::Sequential(None), _ => simple::Kind::Sequential(Some(any_ruw())) } }
pub fn gen_simple_mem() -> simple::Memory {
    simple::Memory::new(any_name(), any_type1(), any_mem_kind())
}
pub fn gen_mport<R: MkRef>(mem: Arc<simple::Memory>) -> simple::Port<R> {
    let d = if any_bool() { Some(any_portdir()) } else { None };
    simple::Port::new(any_name(), mem, d, any_expr(), any_expr())
}
pub fn gen_register<R: MkRef>() -> memory::Register<R> {
    let r = memory::Register::new(any_name(), any_type1(), any_expr::<R>());
    if any_bool() { r.with_reset(any_expr::<R>(), any_expr::<R>()) } else { r }
}
/// A simple memory a port may refer to
pub fn pick_mem() -> Arc<simple::Memory> {
    if native() && (env::strict() || any_bool()) {
        let e = env::mems();
        if e.len() > 0 { return e[choose(e.len())].clone() }
    }
    let n = any_name();
    match env::memory(&n) { Some(e) => e, None => cmem_named(n) }
}
pub fn pick_module() -> Arc<Module> {
    if native() && env::strict() { let e = env::mods(); return e[choose(e.len())].clone() }
    module_named(any_name())
}
/// An entity which can be declared, in the context `AllCtx`
pub fn gen_entity() -> Entity {
    let mut k = choose(6);
    if native() && env::strict() && ((k == 4 && env::mems().is_empty()) || (k == 5 && env::mods().is_empty())) { k = 0 }
    gen_entity_k(k)
}
pub fn gen_entity_k(k: usize) -> Entity {
    match k {
        0 => Entity::Wire { name: any_name(), r#type: any_type1() },
        1 => Entity::Register(gen_register()),
        2 => Entity::Node { name: any_name(), value: any_expr() },
        3 => Entity::Memory(gen_memory()),
        4 => Entity::SimpleMemPort(gen_mport(pick_mem())),
        _ => Entity::Instance(module::Instance::new(any_name(), pick_module())),
    }
}

// ---------------------------------------------------------------- statements

/// An arbitrary statement; opaque for the deductive engine
#[inline(never)]
pub fn leaf_stmt() -> Statement { as_leaf(|| { let d = if choose(4) == 0 { 1 } else { 0 }; gen_stmt(d) }) }

/// An arbitrary conditional statement; opaque for the deductive engine
#[inline(never)]
pub fn leaf_cond() -> Statement { as_leaf(|| gen_stmt_k(9, 1)) }

/// The statements of an `else`: none, a conditional, or others
fn gen_else(d: usize) -> Vec<Statement> {
    if native() { return gen_stmts(d, 0) }
    let n = choose(4);
    let mut v = Vec::new();
    if n == 1 { v.push(leaf_cond()) }
    if n > 1 {
        let s = leaf_stmt();
        // A single conditional is the case above
        if n == 2 { assume(!matches!(s.kind(), stmt::Kind::Conditional { .. })) }
        v.push(s);
    }
    if n == 3 { v.push(leaf_stmt()) }
    v
}

pub fn any_format() -> Format { match choose(4) { 0 => Format::Binary, 1 => Format::Decimal, 2 => Format::Hexadecimal, _ => Format::Character } }

/// A print message: literals are neither empty nor adjacent to each other
pub fn gen_msg() -> Vec<PrintElement> {
    let n = any_len(5);
    let mut v = Vec::new();
    let mut i = 0;
    let mut lit = false;
    while i < n {
        if !lit && any_bool() {
            let s = any_text();
            assume(!s.is_empty());
            v.push(PrintElement::Literal(s));
            lit = true;
        } else {
            v.push(PrintElement::Value(any_expr(), any_format()));
            lit = false;
        }
        i += 1;
    }
    v
}
pub const STMT_KINDS: usize = 10;
pub fn gen_stmt(d: usize) -> Statement { let k = choose(if d > 0 { STMT_KINDS } else { STMT_KINDS - 1 }); gen_stmt_k(k, d) }
pub fn gen_stmt_k(k: usize, d: usize) -> Statement {
    use firrtl_ast::info::WithInfo;
    let kind = match k {
        0 => stmt::Kind::Connection { from: any_expr(), to: any_expr() },
        1 => stmt::Kind::PartialConnection { from: any_expr(), to: any_expr() },
        2 => stmt::Kind::Empty,
        3 => stmt::Kind::Declaration(Arc::new(gen_entity())),
        4 => stmt::Kind::SimpleMemDecl(Arc::new(gen_simple_mem())),
        5 => stmt::Kind::Invalidate(any_expr()),
        6 => {
            let n = any_from(1, 4);
            let mut v = Vec::new();
            let mut i = 0;
            while i < n { v.push(any_expr()); i += 1; }
            stmt::Kind::Attach(v)
        }
        7 => stmt::Kind::Stop { name: any_opt_name(), clock: any_expr(), cond: any_expr(), code: any_i64() },
        8 => stmt::Kind::Print { name: any_opt_name(), clock: any_expr(), cond: any_expr(), msg: gen_msg() },
        _ => {
            let cond = any_expr();
            let when = if native() { gen_stmts(d - 1, 1) } else { crate::entity::list1(leaf_stmt()) };
            stmt::Kind::Conditional { cond, when: when.into(), r#else: gen_else(d - 1).into() }
        }
    };
    Statement::from(kind).with_info(any_info())
}
pub fn gen_stmts(d: usize, min: usize) -> Vec<Statement> {
    let n = any_from(min, 3);
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        let s = if native() { gen_stmt(d) } else { leaf_stmt() };
        env::declare(&s);
        v.push(s);
        i += 1;
    }
    v
}

// ---------------------------------------------------------------- modules

/// Modules with unique names, each instantiating only previous ones; native only
pub fn gen_modules(max: usize) -> Vec<Arc<Module>> {
    env::reset(true);
    let n = 1 + any_len(max);
    let mut v: Vec<Arc<Module>> = Vec::new();
    for _ in 0..n {
        let name = any_name();
        if v.iter().any(|m| m.name_ref() == &*name) { continue }
        let m = Arc::new(gen_module(name));
        env::add_module(m.clone());
        v.push(m);
    }
    env::reset(false);
    v
}
/// A module whose body refers to declared things, its ports and modules known; native only
pub fn gen_module(name: Arc<str>) -> Module {
    use firrtl_ast::info::WithInfo;
    env::leave_module();
    let mut ports = Vec::new();
    for _ in 0..any_len(4) {
        let p = Arc::new(gen_port());
        env::add_entity(Arc::new(p.clone().into()));
        ports.push(p);
    }
    let kind = if choose(4) > 0 {
        let d = choose(3);
        let mut stmts = gen_stmts(d, 0);
        for _ in 0..any_len(3) {
            if choose(2) == 0 && !env::mods().is_empty() {
                let s = Statement::from(stmt::Kind::Declaration(Arc::new(gen_entity_k(5)))).with_info(any_info());
                env::declare(&s);
                stmts.push(s);
            } else { stmts.extend(gen_stmts(1, 1)) }
        }
        module::Kind::Regular { stmts }
    } else { gen_ext() };
    Module::new(name, ports, kind).with_info(any_info())
}
pub fn gen_ext() -> module::Kind {
    let defname = any_opt_name();
    let n = any_len(4);
    let mut params = std::collections::HashMap::new();
    let mut i = 0;
    while i < n { params.insert(any_name(), gen_param()); i += 1; }
    module::Kind::External { defname, params }
}

pub fn gen_port() -> module::Port {
    use firrtl_ast::info::WithInfo;
    module::Port::new(any_name(), any_type1(), any_direction()).with_info(any_info())
}
pub fn any_double() -> f64 {
    let v = match choose(6) {
        0 => any_i64() as f64,
        1 => any_i16() as f64 / 16.0,
        2 => f64::from_bits(any_u64()),
        3 => any_i64() as f64 * 1e300,
        4 => any_i16() as f64 * 1e-320,
        _ => any_i16() as f64 / 10.0,
    };
    assume(v.is_finite());
    v
}
pub fn gen_param() -> module::ParamValue {
    match choose(if native() { 3 } else { 2 }) {
        0 => module::ParamValue::Int(any_i64()),
        1 => module::ParamValue::String(any_text().into()),
        _ => module::ParamValue::Double(any_double()),
    }
}
