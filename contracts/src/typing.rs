//! C10 typing of primitive operations, C11 typing of structural expressions, C15 flow
use crate::gen::*;
use crate::types::{math_fixed_max, max_ground_spec};
use crate::vc::*;
use firrtl_ast::expr::{primitive::Operation, Expression, Flow, Reference};
use firrtl_ast::types::{Combinator, GroundType, MaxWidth, Orientation, Type, Typed};
use firrtl_ast::Named;
use std::sync::Arc;

crate::harnesses! {
    "C10": vc_op_arith, vc_op_muldiv, vc_op_compare, vc_op_pad_cast, vc_op_shift, vc_op_bitwise, vc_op_bits, vc_op_precision, vc_op_into_expr;
    "C11": vc_ty_leaf, vc_ty_subfield, vc_ty_vector, vc_ty_mux, vc_ty_validif;
    "C15": vc_flow_add, vc_flow_leaf, vc_flow_subfield, vc_flow_vector, vc_flow_source;
}

type E = Expression<Rt>;

/// An operand of arbitrary (possibly failing) type
pub fn operand() -> Arc<E> {
    if native() {
        if choose(6) == 0 { return Arc::new(any_expr()) }
        let ty = match choose(12) { 0 => None, 1 => Some(any_type()), _ => Some(Type::GroundType(any_ground())) };
        return Arc::new(Expression::Reference(Rt { name: any_name(), ty, flow: any_opt_flow() }))
    }
    Arc::new(leaf_expr())
}
/// A second operand, natively often of the same kind as the first
fn operand_like(a: &E) -> Arc<E> {
    if native() && choose(3) > 0 {
        if let Ok(Type::GroundType(g)) = a.r#type() {
            let g = match g { GroundType::Fixed(..) => GroundType::Fixed(any_width(), any_point()), g => g.with_width(any_width()) };
            return Arc::new(Expression::Reference(Rt { name: any_name(), ty: Some(Type::GroundType(g)), flow: any_opt_flow() }))
        }
    }
    operand()
}
fn ground(e: &E) -> Option<GroundType> { match e.r#type() { Ok(Type::GroundType(g)) => Some(g), _ => None } }
/// A width or point which has to be representable to be known
fn width(v: i64) -> Option<u16> { if v < 0 || v > 65535 { None } else { Some(v as u16) } }
fn point(v: i64) -> Option<i16> { if v < -32768 || v > 32767 { None } else { Some(v as i16) } }
fn w1(w: Option<u16>, d: i64) -> Option<u16> { match w { Some(w) => width(w as i64 + d), None => None } }
fn w2(a: Option<u16>, b: Option<u16>, f: fn(i64, i64) -> i64) -> Option<u16> { match (a, b) { (Some(a), Some(b)) => width(f(a as i64, b as i64)), _ => None } }
fn max(a: i64, b: i64) -> i64 { if a > b { a } else { b } }
fn min(a: i64, b: i64) -> i64 { if a < b { a } else { b } }
fn add(a: i64, b: i64) -> i64 { a + b }

/// The operation has exactly this type (`None`: typing it fails)
fn expect(op: Operation<Rt>, want: Option<GroundType>, what: &'static str) {
    match (op.r#type(), want) {
        (Ok(g), Some(w)) => check(g == w, what),
        (Err(_), None) => {}
        _ => check(false, what),
    }
    cover("end");
}

pub fn vc_op_arith() {
    use GroundType as G;
    let l = operand();
    let r = operand_like(&l);
    let want = match (ground(&l), ground(&r)) {
        (Some(G::UInt(a)), Some(G::UInt(b))) => Some(G::UInt(w1(w2(a, b, max), 1))),
        (Some(G::SInt(a)), Some(G::SInt(b))) => Some(G::SInt(w1(w2(a, b, max), 1))),
        (Some(G::Fixed(Some(a), Some(p))), Some(G::Fixed(Some(b), Some(q)))) => Some(G::Fixed(w1(math_fixed_max((a, p), (b, q)), 1), Some(if p > q { p } else { q }))),
        (Some(G::Fixed(..)), Some(G::Fixed(..))) => Some(G::Fixed(None, None)),
        _ => None,
    };
    if any_bool() { expect(Operation::Add(l, r), want, "add: max(w1, w2) + 1") } else { expect(Operation::Sub(l, r), want, "sub: max(w1, w2) + 1") }
}
pub fn vc_op_muldiv() {
    use GroundType as G;
    let l = operand();
    let r = operand_like(&l);
    let (a, b) = (ground(&l), ground(&r));
    match choose(3) {
        0 => {
            let want = match (a, b) {
                (Some(G::UInt(a)), Some(G::UInt(b))) => Some(G::UInt(w2(a, b, add))),
                (Some(G::SInt(a)), Some(G::SInt(b))) => Some(G::SInt(w2(a, b, add))),
                (Some(G::Fixed(a, p)), Some(G::Fixed(b, q))) => Some(G::Fixed(w2(a, b, add), match (p, q) { (Some(p), Some(q)) => point(p as i64 + q as i64), _ => None })),
                _ => None,
            };
            expect(Operation::Mul(l, r), want, "mul: w1 + w2")
        }
        1 => {
            // the type of the divisor is not looked at; ill-typed ones are left unspecified
            let want = match (a, b) {
                (Some(G::UInt(a)), Some(G::UInt(_))) => Some(G::UInt(a)),
                (Some(G::SInt(a)), Some(G::SInt(_))) => Some(G::SInt(w1(a, 1))),
                (Some(G::UInt(_)), _) | (Some(G::SInt(_)), _) => return,
                _ => None,
            };
            expect(Operation::Div(l, r), want, "div: width of the dividend, plus one if signed")
        }
        _ => {
            let want = match (a, b) {
                (Some(G::UInt(a)), Some(G::UInt(b))) => Some(G::UInt(w2(a, b, min))),
                (Some(G::SInt(a)), Some(G::SInt(b))) => Some(G::SInt(w2(a, b, min))),
                (None, _) | (_, None) => None,
                _ => return,
            };
            expect(Operation::Rem(l, r), want, "rem: min(w1, w2)")
        }
    }
}
pub fn vc_op_compare() {
    use GroundType as G;
    let l = operand();
    let r = operand_like(&l);
    let ok = match (ground(&l), ground(&r)) {
        (Some(G::UInt(_)), Some(G::UInt(_))) | (Some(G::SInt(_)), Some(G::SInt(_))) | (Some(G::Fixed(..)), Some(G::Fixed(..))) => true,
        _ => false,
    };
    // comparisons of anything else are not type-checked
    assume(ok);
    let op = match choose(9) {
        0 => Operation::Lt(l, r),
        1 => Operation::LEq(l, r),
        2 => Operation::Gt(l, r),
        3 => Operation::GEq(l, r),
        4 => Operation::Eq(l, r),
        5 => Operation::NEq(l, r),
        6 => Operation::AndReduce(l),
        7 => Operation::OrReduce(l),
        _ => Operation::XorReduce(l),
    };
    expect(op, Some(G::UInt(Some(1))), "comparisons and reductions yield UInt<1>")
}
pub fn vc_op_pad_cast() {
    use GroundType as G;
    let e = operand();
    let g = ground(&e);
    if any_bool() {
        let n = any_u16();
        let want = match g {
            Some(G::UInt(w)) => Some(G::UInt(w2(w, Some(n), max))),
            Some(G::SInt(w)) => Some(G::SInt(w2(w, Some(n), max))),
            Some(G::Fixed(w, p)) => Some(G::Fixed(w2(w, Some(n), max), p)),
            Some(_) => return,
            None => None,
        };
        expect(Operation::Pad(e, n), want, "pad: max(w, n), unknown stays unknown")
    } else {
        let t = any_cast_target();
        let want = match g { Some(g) => Some(match t { G::UInt(_) => G::UInt(g.width()), G::SInt(_) => G::SInt(g.width()), G::Fixed(_, p) => G::Fixed(g.width(), p), t => t }), None => None };
        expect(Operation::Cast(e, t), want, "casts preserve the width")
    }
}
pub fn vc_op_shift() {
    use GroundType as G;
    let e = operand();
    let g = ground(&e);
    let n = any_u16();
    match choose(4) {
        0 => {
            let want = match g {
                Some(G::UInt(w)) => Some(G::UInt(w1(w, n as i64))),
                Some(G::SInt(w)) => Some(G::SInt(w1(w, n as i64))),
                Some(G::Fixed(w, p)) => Some(G::Fixed(w1(w, n as i64), p)),
                Some(_) => return,
                None => None,
            };
            expect(Operation::Shl(e, n), want, "shl: w + n")
        }
        1 => {
            let sh = |w: u16| width(max(w as i64 - n as i64, 1));
            let want = match g {
                Some(G::UInt(w)) => Some(G::UInt(match w { Some(w) => sh(w), None => None })),
                Some(G::SInt(w)) => Some(G::SInt(match w { Some(w) => sh(w), None => None })),
                Some(G::Fixed(Some(w), Some(p))) => Some(G::Fixed(width(max(w as i64 - n as i64, max(p as i64, 1))), Some(p))),
                Some(G::Fixed(..)) => Some(G::Fixed(None, None)),
                _ => None,
            };
            expect(Operation::Shr(e, n), want, "shr: max(w - n, 1)")
        }
        2 => {
            let s = if native() && any_bool() { Arc::new(Expression::Reference(Rt { name: any_name(), ty: Some(Type::GroundType(GroundType::UInt(Some((any_u16() % 20) as u16)))), flow: None })) } else { operand() };
            let sw = match ground(&s) { Some(G::UInt(w)) => w, Some(_) => return, None => None };
            let amount = |sw: u16| if sw > 16 { 65536 } else { (1i64 << sw) - 1 };
            let nw = |w: Option<u16>| match (w, sw) { (Some(w), Some(s)) => width(w as i64 + amount(s)), _ => None };
            let want = match (g, ground(&s)) {
                (Some(G::UInt(w)), Some(_)) => Some(G::UInt(nw(w))),
                (Some(G::SInt(w)), Some(_)) => Some(G::SInt(nw(w))),
                (Some(G::Fixed(w, p)), Some(_)) => Some(G::Fixed(nw(w), p)),
                (None, _) => None,
                // the width of the shift is only looked at if it matters
                _ => return,
            };
            expect(Operation::DShl(e, s), want, "dshl: w + 2^s - 1")
        }
        _ => {
            let want = g;
            expect(Operation::DShr(e, operand()), want, "dshr: width of the operand")
        }
    }
}
pub fn vc_op_bitwise() {
    use GroundType as G;
    let l = operand();
    let r = operand_like(&l);
    let (a, b) = (ground(&l), ground(&r));
    let int = |g: &Option<GroundType>| match g { Some(G::UInt(_)) | Some(G::SInt(_)) => true, _ => false };
    match choose(7) {
        k @ 0..=3 => {
            let want = match (a, b) {
                (Some(x), Some(y)) => {
                    if !int(&a) || !int(&b) { return }
                    Some(G::UInt(if k == 3 { w2(x.width(), y.width(), add) } else { w2(x.width(), y.width(), max) }))
                }
                _ => None,
            };
            let op = match k { 0 => Operation::And(l, r), 1 => Operation::Or(l, r), 2 => Operation::Xor(l, r), _ => Operation::Cat(l, r) };
            expect(op, want, "bit-wise operations: max(w1, w2), cat: w1 + w2")
        }
        4 => {
            let want = match a { Some(G::UInt(w)) => Some(G::SInt(w1(w, 1))), Some(G::SInt(w)) => Some(G::SInt(w)), _ => None };
            expect(Operation::Cvt(l), want, "cvt: w + 1 for unsigned operands")
        }
        5 => {
            let want = match a { Some(G::UInt(w)) | Some(G::SInt(w)) => Some(G::SInt(w1(w, 1))), Some(_) => return, None => None };
            expect(Operation::Neg(l), want, "neg: w + 1")
        }
        _ => {
            let want = match a { Some(G::UInt(w)) | Some(G::SInt(w)) => Some(G::UInt(w)), Some(_) => return, None => None };
            expect(Operation::Not(l), want, "not: w")
        }
    }
}
pub fn vc_op_bits() {
    use GroundType as G;
    let e = operand();
    let g = ground(&e);
    let (lo, hi) = (any_u16(), any_u16());
    match choose(3) {
        0 => {
            let want = match g { Some(_) => Some(G::UInt(if hi < lo { None } else { width(hi as i64 - lo as i64 + 1) })), None => None };
            expect(Operation::Bits(e, Some(lo), Some(hi)), want, "bits: hi - lo + 1")
        }
        1 => {
            let want = match g { Some(_) => Some(G::UInt(Some(hi))), None => None };
            expect(Operation::Bits(e, None, Some(hi)), want, "head: n")
        }
        _ => {
            let want = match g { Some(t) => Some(G::UInt(w1(t.width(), -(lo as i64)))), None => None };
            expect(Operation::Bits(e, Some(lo), None), want, "tail: w - n")
        }
    }
}
pub fn vc_op_precision() {
    use GroundType as G;
    let e = operand();
    let g = ground(&e);
    match choose(3) {
        0 => {
            let n = any_u16();
            let want = match g { Some(G::Fixed(w, p)) => Some(G::Fixed(w1(w, n as i64), match p { Some(p) => point(p as i64 + n as i64), None => None })), _ => None };
            expect(Operation::IncPrecision(e, n), want, "incp: w + n, p + n")
        }
        1 => {
            let n = any_u16();
            let want = match g { Some(G::Fixed(w, p)) => Some(G::Fixed(w1(w, -(n as i64)), match p { Some(p) => point(p as i64 - n as i64), None => None })), _ => None };
            expect(Operation::DecPrecision(e, n), want, "decp: w - n, p - n")
        }
        _ => {
            let n = any_i16();
            let want = match g {
                Some(G::Fixed(Some(w), Some(p))) => Some(G::Fixed(width(w as i64 - p as i64 + n as i64), Some(n))),
                Some(G::Fixed(..)) => Some(G::Fixed(None, Some(n))),
                _ => None,
            };
            expect(Operation::SetPrecision(e, n), want, "setp: w - p + n, n")
        }
    }
}
/// An operation as expression has the type of the operation, and fails with that very expression
pub fn vc_op_into_expr() {
    let op: Operation<Rt> = if native() { gen_op(1) } else { let k = choose(OPS); gen_op_k(k, 1) };
    let e = Expression::PrimitiveOp(op.clone());
    match (op.r#type(), e.r#type()) {
        (Ok(g), Ok(t)) => check(t == Type::GroundType(g), "type of an operation used as expression"),
        (Err(_), Err(x)) => check(x == e, "the failing expression is reported"),
        _ => check(false, "an operation can be typed exactly if the expression can"),
    }
    cover("end");
}

// ---------------------------------------------------------------- C11

pub fn vc_ty_leaf() {
    let w = any_u16();
    match choose(3) {
        0 => {
            let e: E = Expression::UIntLiteral { value: any_biguint(), width: w };
            check(e.r#type() == Ok(Type::GroundType(GroundType::UInt(Some(w)))), "type of an unsigned literal");
        }
        1 => {
            let e: E = Expression::SIntLiteral { value: any_bigint(), width: w };
            check(e.r#type() == Ok(Type::GroundType(GroundType::SInt(Some(w)))), "type of a signed literal");
        }
        _ => {
            let r = Rt { name: any_name(), ty: any_opt_type(), flow: None };
            let e = Expression::Reference(r.clone());
            match (e.r#type(), r.ty) {
                (Ok(t), Some(u)) => check(t == u, "a reference has the type of the entity"),
                (Err(x), None) => check(x == e, "an untyped reference is reported"),
                _ => check(false, "a reference can be typed exactly if the entity can"),
            }
        }
    }
    cover("end");
}
/// An expression whose type is a bundle, a vector, a ground type or an error
fn base() -> Arc<E> {
    if native() {
        let ty = match choose(8) { 0 => None, 1 => Some(any_type()), 2 | 3 => Some(Type::Vector(Arc::new(any_type()), any_u16())), _ => {
            let mut v = Vec::new();
            for _ in 0..any_len(4) { v.push(gen_field(1)) }
            Some(Type::Bundle(v.into()))
        } };
        return Arc::new(Expression::Reference(Rt { name: any_name(), ty, flow: any_opt_flow() }))
    }
    Arc::new(leaf_expr())
}
fn pick_field(e: &E) -> Arc<str> {
    if native() && choose(4) > 0 {
        if let Ok(Type::Bundle(fs)) = e.r#type() { if fs.len() > 0 { let k = choose(fs.len()); return fs[k].name().clone() } }
    }
    any_field_name()
}
pub fn vc_ty_subfield() {
    let b = base();
    let name = pick_field(&b);
    let e: E = Expression::SubField { base: b.clone(), index: name.clone() };
    let mut want = None;
    if let Ok(Type::Bundle(fs)) = b.r#type() {
        let mut i = 0;
        while i < fs.len() { if want.is_none() && *fs[i].name() == name { want = Some(fs[i].r#type().clone()) } i += 1; }
    }
    match (e.r#type(), want) {
        (Ok(t), Some(u)) => check(t == u, "a sub-field has the type of the field of that name"),
        (Err(_), None) => {}
        _ => check(false, "a sub-field can be typed exactly if there is a field of that name"),
    }
    cover("end");
}
pub fn vc_ty_vector() {
    let b = base();
    let want = match b.r#type() { Ok(Type::Vector(t, _)) => Some((*t).clone()), _ => None };
    let e: E = if any_bool() { Expression::SubIndex { base: b, index: any_u16() } } else { Expression::SubAccess { base: b, index: operand() } };
    match (e.r#type(), want) {
        (Ok(t), Some(u)) => check(t == u, "an element has the base type of the vector"),
        (Err(_), None) => {}
        _ => check(false, "an element can be typed exactly if the base is a vector"),
    }
    cover("end");
}
pub fn vc_ty_mux() {
    let a = if native() { base() } else { operand() };
    let b = if native() && any_bool() {
        let ty = match a.r#type() { Ok(t) => Some(similar_type(&t)), Err(_) => None };
        Arc::new(Expression::Reference(Rt { name: any_name(), ty, flow: None }))
    } else { operand_like(&a) };
    let e: E = Expression::Mux { sel: operand(), a: a.clone(), b: b.clone() };
    let want = match (a.r#type(), b.r#type()) {
        (Ok(Type::GroundType(x)), Ok(Type::GroundType(y))) => max_ground_spec(&x, &y).map(Type::GroundType),
        (Ok(x), Ok(y)) => Combinator::<Type>::combine(&MaxWidth::new(), &x, &y).ok(),
        _ => None,
    };
    match (e.r#type(), want) {
        (Ok(t), Some(u)) => check(t == u, "a multiplexer has the combined type of its inputs"),
        (Err(_), None) => {}
        _ => check(false, "a multiplexer can be typed exactly if the types of its inputs combine"),
    }
    cover("end");
}
pub fn vc_ty_validif() {
    let v = operand();
    let e: E = Expression::ValidIf { sel: operand(), value: v.clone() };
    match (e.r#type(), v.r#type()) {
        (Ok(t), Ok(u)) => check(t == u, "validif has the type of its value"),
        (Err(_), Err(_)) => {}
        _ => check(false, "validif can be typed exactly if its value can"),
    }
    cover("end");
}

// ---------------------------------------------------------------- C15

pub fn vc_flow_add() {
    let f = any_flow();
    check(f + Orientation::Normal == f, "the normal orientation preserves the flow");
    let g = f + Orientation::Flipped;
    check(g.is_source() == f.is_sink() && g.is_sink() == f.is_source(), "flipping swaps source and sink");
    check(g + Orientation::Flipped == f, "flipping twice is the identity");
    check(f.is_source() == (f == Flow::Source || f == Flow::Duplex), "sources are source or duplex");
    check(f.is_sink() == (f == Flow::Sink || f == Flow::Duplex), "sinks are sink or duplex");
    cover("end");
}
pub fn vc_flow_leaf() {
    let r = Rt { name: any_name(), ty: any_opt_type(), flow: any_opt_flow() };
    let e = Expression::Reference(r.clone());
    match (e.flow(), r.flow()) {
        (Ok(f), Some(g)) => check(f == g, "a reference has the flow of the entity"),
        (Err(x), None) => check(x == e, "a reference without flow is reported"),
        _ => check(false, "a reference has a flow exactly if the entity has"),
    }
    cover("end");
}
pub fn vc_flow_subfield() {
    let b = base();
    let name = pick_field(&b);
    let e: E = Expression::SubField { base: b.clone(), index: name.clone() };
    let mut o = None;
    if let Ok(Type::Bundle(fs)) = b.r#type() {
        let mut i = 0;
        while i < fs.len() { if o.is_none() && *fs[i].name() == name { o = Some(fs[i].orientation()) } i += 1; }
    }
    let want = match (b.flow(), o) { (Ok(f), Some(Orientation::Normal)) => Some(f), (Ok(Flow::Duplex), Some(_)) => Some(Flow::Duplex), (Ok(Flow::Source), Some(_)) => Some(Flow::Sink), (Ok(Flow::Sink), Some(_)) => Some(Flow::Source), _ => None };
    match (e.flow(), want) {
        (Ok(f), Some(g)) => check(f == g, "a flipped field inverts the flow"),
        (Err(_), None) => {}
        _ => check(false, "a sub-field has a flow exactly if the base has and the field exists"),
    }
    cover("end");
}
pub fn vc_flow_vector() {
    let b = base();
    let e: E = if any_bool() { Expression::SubIndex { base: b.clone(), index: any_u16() } } else { Expression::SubAccess { base: b.clone(), index: operand() } };
    match (e.flow(), b.flow()) {
        (Ok(f), Ok(g)) => check(f == g, "an element has the flow of the vector"),
        (Err(_), Err(_)) => {}
        _ => check(false, "an element has a flow exactly if the vector has"),
    }
    cover("end");
}
pub fn vc_flow_source() {
    let e: E = match choose(5) {
        0 => Expression::UIntLiteral { value: any_biguint(), width: any_u16() },
        1 => Expression::SIntLiteral { value: any_bigint(), width: any_u16() },
        2 => Expression::Mux { sel: operand(), a: operand(), b: operand() },
        3 => Expression::ValidIf { sel: operand(), value: operand() },
        _ => Expression::PrimitiveOp(gen_op(1)),
    };
    check(e.flow() == Ok(Flow::Source), "computed values are sources");
    cover("end");
}
