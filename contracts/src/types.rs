//! C12 type equivalence, C13 passivity/orientation, C14 width combination
use crate::gen::*;
use crate::vc::*;
use firrtl_ast::types::combinator::FnWidth;
use firrtl_ast::types::{combine_fixed_max, BitWidth, BundleField, Combinator, GroundType, MaxWidth, Orientation, OrientedType, Type, TypeExt};
use firrtl_ast::Named;
use std::sync::Arc;

crate::harnesses! {
    "C12": vc_eq_structural, vc_eq_reflexive, vc_eq_symmetric, vc_eq_transitive, vc_eq_ignores_widths, vc_ground_eq, vc_oriented_eq;
    "C13": vc_passive, vc_oriented, vc_flipped, vc_oriented_eq, vc_weak_eq, vc_oriented_passive, vc_ground_type, vc_orientation, vc_type_access;
    "C14": vc_max_ground, vc_max_type, vc_max_field, vc_fixed_max, vc_max_commutes, vc_fn_width, vc_ground_width;
}

/// A type and one related to it
fn type_pair() -> (Type, Type) {
    let a = any_type();
    let b = if native() && choose(4) > 0 { similar_type(&a) } else { any_type() };
    (a, b)
}

// ---------------------------------------------------------------- C12

/// The definition of type equivalence, one level deep; nested types are related by the
/// implementation itself (the induction hypothesis)
fn node_eq(a: &Type, b: &Type) -> bool {
    match (a, b) {
        (Type::GroundType(x), Type::GroundType(y)) => same_class(x, y),
        (Type::Vector(x, n), Type::Vector(y, m)) => *n == *m && TypeExt::eq(&**x, &**y),
        (Type::Bundle(x), Type::Bundle(y)) => {
            if x.len() != y.len() { return false }
            let mut i = 0;
            while i < x.len() {
                let (f, g) = (&x[i], &y[i]);
                if f.name() != g.name() || f.orientation() != g.orientation() || !TypeExt::eq(f.r#type(), g.r#type()) { return false }
                i += 1;
            }
            true
        }
        _ => false,
    }
}
fn same_class(a: &GroundType, b: &GroundType) -> bool {
    use firrtl_ast::types::ResetKind as R;
    use GroundType as G;
    match (a, b) {
        (G::UInt(_), G::UInt(_)) | (G::SInt(_), G::SInt(_)) | (G::Fixed(..), G::Fixed(..)) | (G::Clock, G::Clock) | (G::Analog(_), G::Analog(_)) => true,
        (G::Reset(R::Regular), G::Reset(R::Regular)) | (G::Reset(R::Async), G::Reset(R::Async)) => true,
        _ => false,
    }
}
pub fn vc_ground_eq() {
    let (a, b) = (any_ground(), any_ground());
    check(TypeExt::eq(&a, &b) == same_class(&a, &b), "ground types are equivalent exactly if of the same kind");
    cover("end");
}
pub fn vc_eq_structural() {
    let (a, b) = type_pair();
    check(TypeExt::eq(&a, &b) == node_eq(&a, &b), "type equivalence is the structural relation");
    cover("end");
}
pub fn vc_eq_reflexive() {
    let a = any_type();
    check(TypeExt::eq(&a, &a.clone()), "type equivalence is reflexive");
    cover("end");
}
pub fn vc_eq_symmetric() {
    let (a, b) = type_pair();
    check(TypeExt::eq(&a, &b) == TypeExt::eq(&b, &a), "type equivalence is symmetric");
    cover("end");
}
pub fn vc_eq_transitive() {
    let (a, b) = type_pair();
    let c = if native() { similar_type(&b) } else { any_type() };
    assume(TypeExt::eq(&a, &b));
    assume(TypeExt::eq(&b, &c));
    check(TypeExt::eq(&a, &c), "type equivalence is transitive");
    cover("end");
}
/// Changing widths and points alone never changes equivalence
pub fn vc_eq_ignores_widths() {
    let g = any_ground();
    let t = Type::GroundType(g);
    let u = Type::GroundType(match g { GroundType::Fixed(..) => GroundType::Fixed(any_width(), any_point()), g => g.with_width(any_width()) });
    let n = any_u16();
    check(TypeExt::eq(&t, &u), "equivalence ignores widths");
    let (v, w) = (Type::Vector(Arc::new(t.clone()), n), Type::Vector(Arc::new(u.clone()), n));
    check(TypeExt::eq(&v, &w), "equivalence ignores widths in vectors");
    let name = any_field_name();
    let o = any_orientation();
    let mk = |t: &Type| { let mut v = Vec::new(); v.push(BundleField::new(name.clone(), t.clone()).with_orientation(o)); Type::Bundle(v.into()) };
    check(TypeExt::eq(&mk(&t), &mk(&u)), "equivalence ignores widths in bundles");
    cover("end");
}

// ---------------------------------------------------------------- C13

pub fn vc_orientation() {
    use Orientation::*;
    let (a, b, c) = (any_orientation(), any_orientation(), any_orientation());
    check((a + b == Normal) == (a == b), "orientations add up like parities");
    check((a + b) + c == a + (b + c), "adding orientations is associative");
    check(a + b == b + a, "adding orientations is commutative");
    check(Orientation::default() == Normal, "the default orientation is normal");
    cover("end");
}
pub fn vc_passive() {
    let t = any_type();
    let want = match &t {
        Type::GroundType(_) => true,
        Type::Vector(b, _) => b.is_passive(),
        Type::Bundle(fs) => {
            let mut r = true;
            let mut i = 0;
            while i < fs.len() { if fs[i].orientation() == Orientation::Flipped || !fs[i].r#type().is_passive() { r = false } i += 1; }
            r
        }
    };
    check(t.is_passive() == want, "a type is passive exactly if nothing in it is flipped");
    cover("end");
}
fn same_oriented(t: &Type, o: Orientation, r: &OrientedType) -> bool {
    match (t, r) {
        (Type::GroundType(g), OrientedType::GroundType(h, p)) => *g == *h && *p == o,
        (Type::Vector(b, n), OrientedType::Vector(c, m)) => *n == *m && b.with_orientation(o) == **c,
        (Type::Bundle(fs), OrientedType::Bundle(gs)) => {
            if fs.len() != gs.len() { return false }
            let mut i = 0;
            while i < fs.len() {
                let inner = if fs[i].orientation() == o { Orientation::Normal } else { Orientation::Flipped };
                if *fs[i].name() != gs[i].0 || fs[i].r#type().with_orientation(inner) != gs[i].1 { return false }
                i += 1;
            }
            true
        }
        _ => false,
    }
}
pub fn vc_oriented() {
    let t = any_type();
    let o = any_orientation();
    check(same_oriented(&t, o, &t.with_orientation(o)), "orientation is pushed down to the ground types");
    check(OrientedType::from(&t) == t.with_orientation(Orientation::Normal), "conversion uses the normal orientation");
    cover("end");
}
pub fn vc_flipped() {
    let t = any_type();
    let o = any_orientation();
    let r = t.with_orientation(o);
    check(r.flipped() == t.with_orientation(o + Orientation::Flipped), "flipping flips every ground type");
    check(r.flipped().flipped() == r, "flipping twice is the identity");
    cover("end");
}
pub fn vc_oriented_eq() {
    let (a, b) = type_pair();
    let (x, y) = (a.with_orientation(any_orientation()), b.with_orientation(any_orientation()));
    let want = match (&x, &y) {
        (OrientedType::GroundType(g, o), OrientedType::GroundType(h, p)) => TypeExt::eq(g, h) && *o == *p,
        (OrientedType::Vector(v, n), OrientedType::Vector(w, m)) => *n == *m && TypeExt::eq(&**v, &**w),
        (OrientedType::Bundle(v), OrientedType::Bundle(w)) => {
            let mut r = v.len() == w.len();
            let mut i = 0;
            while r && i < v.len() { r = v[i].0 == w[i].0 && TypeExt::eq(&v[i].1, &w[i].1); i += 1; }
            r
        }
        _ => false,
    };
    check(TypeExt::eq(&x, &y) == want, "equivalence of oriented types is structural");
    check(TypeExt::eq(&x, &x.clone()), "equivalence of oriented types is reflexive");
    check(TypeExt::eq(&x, &y) == TypeExt::eq(&y, &x), "equivalence of oriented types is symmetric");
    cover("end");
}
pub fn vc_weak_eq() {
    let (a, b) = type_pair();
    let want = TypeExt::eq(&a.with_orientation(Orientation::Normal), &b.with_orientation(Orientation::Normal));
    check(a.weak_eq(&b) == want, "weak equivalence compares oriented types");
    if TypeExt::eq(&a, &b) { check(a.weak_eq(&b), "equivalence implies weak equivalence") }
    cover("end");
}
pub fn vc_oriented_passive() {
    let t = any_type();
    // any flip leads to a flipped ground type, provided there is a ground type below it
    if t.is_passive() { check(t.with_orientation(Orientation::Normal).is_passive(), "oriented form of a passive type is passive") }
    let r = t.with_orientation(any_orientation());
    let want = match &r {
        OrientedType::GroundType(_, o) => *o == Orientation::Normal,
        OrientedType::Vector(v, _) => v.is_passive(),
        OrientedType::Bundle(v) => { let mut r = true; let mut i = 0; while i < v.len() { if !v[i].1.is_passive() { r = false } i += 1; } r }
    };
    check(r.is_passive() == want, "an oriented type is passive exactly if no ground type is flipped");
    cover("end");
}
pub fn vc_ground_type() {
    let t = any_type();
    let o = any_orientation();
    match &t {
        Type::GroundType(g) => {
            check(t.ground_type() == Some(*g), "a ground type is its own ground type");
            check(t.with_orientation(o).ground_type() == Some(*g), "orientation preserves the ground type");
            check(TypeExt::ground_type(g) == Some(*g) && g.is_passive(), "ground types are passive");
            check(t == *g, "a type compares equal to its ground type");
        }
        _ => {
            check(t.ground_type().is_none(), "aggregates have no ground type");
            check(t.with_orientation(o).ground_type().is_none(), "oriented aggregates have no ground type");
        }
    }
    cover("end");
}
pub fn vc_type_access() {
    let t = any_type();
    match &t {
        Type::Vector(b, n) => {
            check(match t.vector() { Some((c, m)) => **c == **b && m == *n, None => false }, "vector() yields base and size");
            check(match t.vector_base() { Some(c) => **c == **b, None => false }, "vector_base() yields the base");
        }
        _ => check(t.vector().is_none() && t.vector_base().is_none(), "only vectors have a base"),
    }
    let name = any_field_name();
    match &t {
        Type::Bundle(fs) => {
            let mut want = None;
            let mut i = 0;
            while i < fs.len() { if want.is_none() && *fs[i].name() == name { want = Some(i) } i += 1; }
            match (want, t.field(&name)) {
                (None, None) => {}
                (Some(i), Some(f)) => check(*f == fs[i], "field() yields the first field of that name"),
                _ => check(false, "field() finds exactly the fields of the bundle"),
            }
            let mut n = 0;
            if let Some(it) = t.fields() { for f in it { check(n < fs.len() && *f == fs[n], "fields() yields the fields in order"); n += 1; } }
            check(n == fs.len(), "fields() yields every field");
        }
        _ => check(t.field(&name).is_none() && t.fields().is_none(), "only bundles have fields"),
    }
    cover("end");
}

// ---------------------------------------------------------------- C14

pub fn math_fixed_max(l: (u16, i16), r: (u16, i16)) -> BitWidth {
    let (lw, lp, rw, rp) = (l.0 as i64, l.1 as i64, r.0 as i64, r.1 as i64);
    let (li, ri) = (lw - lp, rw - rp);
    let v = (if li > ri { li } else { ri }) + (if lp > rp { lp } else { rp });
    if v < 0 || v > 65535 { None } else { Some(v as u16) }
}
pub fn vc_fixed_max() {
    let (l, r) = ((any_u16(), any_i16()), (any_u16(), any_i16()));
    check(combine_fixed_max(l, r) == math_fixed_max(l, r), "combine_fixed_max computes max(lw-lp, rw-rp) + max(lp, rp)");
    check(combine_fixed_max(l, r) == combine_fixed_max(r, l), "combine_fixed_max is commutative");
    cover("end");
}
fn maxw(l: BitWidth, r: BitWidth) -> BitWidth { match (l, r) { (Some(l), Some(r)) => Some(if l > r { l } else { r }), _ => None } }

pub fn max_ground_spec(l: &GroundType, r: &GroundType) -> Option<GroundType> {
    use GroundType as G;
    match (l, r) {
        (G::UInt(l), G::UInt(r)) => Some(G::UInt(maxw(*l, *r))),
        (G::SInt(l), G::SInt(r)) => Some(G::SInt(maxw(*l, *r))),
        (G::Analog(l), G::Analog(r)) => Some(G::Analog(maxw(*l, *r))),
        (G::Clock, G::Clock) => Some(G::Clock),
        (G::Reset(l), G::Reset(r)) => if *l == *r { Some(G::Reset(*l)) } else { None },
        (G::Fixed(lw, lp), G::Fixed(rw, rp)) => Some(match (lw, lp, rw, rp) {
            (Some(lw), Some(lp), Some(rw), Some(rp)) => G::Fixed(math_fixed_max((*lw, *lp), (*rw, *rp)), Some(if *lp > *rp { *lp } else { *rp })),
            _ => G::Fixed(None, None),
        }),
        _ => None,
    }
}
pub fn vc_max_ground() {
    let (l, r) = (any_ground(), if native() && any_bool() { any_ground() } else { any_ground() });
    let m = MaxWidth::new();
    match (m.combine(&l, &r), max_ground_spec(&l, &r)) {
        (Ok(g), Some(w)) => check(g == w, "MaxWidth selects the larger width"),
        (Err((a, b)), None) => check(*a == l && *b == r, "a failed combination returns its operands"),
        _ => check(false, "MaxWidth combines exactly the ground types of the same kind"),
    }
    check(MaxWidth::combine_widths(l.width(), r.width()) == maxw(l.width(), r.width()), "combine_widths is the maximum of known widths");
    cover("end");
}
/// Combination of types, one level deep
fn node_max(a: &Type, b: &Type) -> Option<Type> {
    let m = MaxWidth::new();
    match (a, b) {
        (Type::GroundType(x), Type::GroundType(y)) => max_ground_spec(x, y).map(Type::GroundType),
        (Type::Vector(x, n), Type::Vector(y, k)) => {
            if *n != *k { return None }
            match Combinator::<Type>::combine(&m, &**x, &**y) { Ok(t) => Some(Type::Vector(Arc::new(t), *n)), Err(_) => None }
        }
        (Type::Bundle(x), Type::Bundle(y)) => {
            if x.len() != y.len() { return None }
            let mut v = Vec::new();
            let mut i = 0;
            while i < x.len() {
                if x[i].name() != y[i].name() || x[i].orientation() != y[i].orientation() { return None }
                match Combinator::<Type>::combine(&m, x[i].r#type(), y[i].r#type()) {
                    Ok(t) => v.push(BundleField::new(x[i].name().clone(), t).with_orientation(x[i].orientation())),
                    Err(_) => return None,
                }
                i += 1;
            }
            Some(Type::Bundle(v.into()))
        }
        _ => None,
    }
}
pub fn vc_max_type() {
    let (a, b) = type_pair();
    match (Combinator::<Type>::combine(&MaxWidth::new(), &a, &b), node_max(&a, &b)) {
        (Ok(t), Some(w)) => check(t == w, "types are combined component-wise"),
        (Err((x, y)), None) => check(Combinator::<Type>::combine(&MaxWidth::new(), x, y).is_err(), "a failed combination names two types which do not combine"),
        (Ok(_), None) => check(false, "incompatible types do not combine"),
        (Err(_), Some(_)) => check(false, "compatible types combine"),
    }
    cover("end");
}
pub fn vc_max_field() {
    let (a, b) = (BundleField::new(any_field_name(), any_type()).with_orientation(any_orientation()), BundleField::new(any_field_name(), any_type()).with_orientation(any_orientation()));
    let b = if native() && any_bool() { a.clone().with_type(similar_type(a.r#type())) } else { b };
    let m = MaxWidth::new();
    let fits = a.name() == b.name() && a.orientation() == b.orientation();
    let inner = Combinator::<Type>::combine(&m, a.r#type(), b.r#type());
    match (Combinator::<BundleField>::combine(&m, &a, &b), inner) {
        (Ok(f), Ok(t)) => check(fits && f == BundleField::new(a.name().clone(), t).with_orientation(a.orientation()), "fields of the same name and orientation are combined"),
        (Err((x, y)), i) => {
            check(!(fits && i.is_ok()), "fields of the same name and orientation combine if their types do");
            check(Combinator::<BundleField>::combine(&m, x, y).is_err(), "a failed combination names two fields which do not combine");
        }
        (Ok(_), Err(_)) => check(false, "fields of other types do not combine"),
    }
    cover("end");
}
pub fn vc_max_commutes() {
    let (a, b) = (any_ground(), any_ground());
    let m = MaxWidth::new();
    match (m.combine(&a, &b), m.combine(&b, &a)) {
        (Ok(x), Ok(y)) => check(x == y, "combining ground types is commutative"),
        (Err(_), Err(_)) => {}
        _ => check(false, "combinability is symmetric"),
    }
    if let Ok(g) = m.combine(&a, &a) {
        match a { GroundType::Fixed(Some(_), None) | GroundType::Fixed(None, Some(_)) => {} _ => check(g == a, "combining a type with itself yields that type") }
    } else { check(false, "a type combines with itself") }
    cover("end");
}
pub fn vc_fn_width() {
    let (l, r) = (any_width(), any_width());
    let f = FnWidth::from(|a: u16, b: u16| a.checked_add(b));
    let want = match (l, r) { (Some(a), Some(b)) => if a as u32 + b as u32 > 65535 { None } else { Some((a as u32 + b as u32) as u16) }, _ => None };
    check(f.combine_widths(l, r) == want, "FnWidth applies its function to known widths only");
    check(Combinator::<BitWidth>::combine(&f, &l, &r) == Ok(want), "FnWidth never fails");
    let (g, h) = (any_ground(), any_ground());
    let got: Result<GroundType, _> = Combinator::<GroundType>::combine(&f, &g, &h);
    let sum = match (g.width(), h.width()) { (Some(a), Some(b)) => if a as u32 + b as u32 > 65535 { None } else { Some((a as u32 + b as u32) as u16) }, _ => None };
    use GroundType as G;
    match (g, h) {
        (G::UInt(_), G::UInt(_)) | (G::SInt(_), G::SInt(_)) | (G::Analog(_), G::Analog(_)) => check(got == Ok(g.with_width(sum)), "widths of integers are combined"),
        (G::Clock, G::Clock) => check(got == Ok(g), "clocks combine to a clock"),
        (G::Reset(a), G::Reset(b)) if a == b => check(got == Ok(g), "resets combine to a reset"),
        _ => check(match got { Err((x, y)) => Combinator::<GroundType>::combine(&f, x, y).is_err(), Ok(_) => false }, "other combinations are refused, naming two types which do not combine"),
    }
    cover("end");
}
pub fn vc_ground_width() {
    use GroundType as G;
    let g = any_ground();
    let want = match g { G::UInt(w) | G::SInt(w) | G::Fixed(w, _) | G::Analog(w) => w, G::Clock | G::Reset(_) => Some(1) };
    check(g.width() == want, "width of a ground type");
    let w = any_width();
    let h = g.with_width(w);
    let want = match g { G::UInt(_) => G::UInt(w), G::SInt(_) => G::SInt(w), G::Fixed(_, p) => G::Fixed(w, p), G::Analog(_) => G::Analog(w), g => g };
    check(h == want, "with_width replaces nothing but the width");
    cover("end");
}
