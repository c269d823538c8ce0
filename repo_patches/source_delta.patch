From 9980bb449968ea9ef6780949beb4369c09a5174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 01/22] fix: compare the orientations of both fields in bundle
 type equivalence

---
 src/types/type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type.rs b/src/types/type.rs
index 5c0b687..44cac56 100644
--- a/src/types/type.rs
+++ b/src/types/type.rs
@@ -92,7 +92,7 @@ impl TypeExt for Type {
                     .zip(v2.iter())
                     .all(|(f1, f2)| f1.name() == f2.name() &&
                         TypeExt::eq(f1.r#type(), f2.r#type()) &&
-                        f1.orientation() == f1.orientation())
+                        f1.orientation() == f2.orientation())
             } else {
                 false
             },
-- 
2.43.0


From be025b7d976dbc2ed68f0d072084de13a5a92bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 02/22] fix: make reset types equivalent to themselves

---
 src/types/ground.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 64e4098..44106e2 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -68,6 +68,7 @@ impl super::TypeExt for GroundType {
             (Self::SInt(_),     Self::SInt(_))     => true,
             (Self::Fixed(_, _), Self::Fixed(_, _)) => true,
             (Self::Clock,       Self::Clock)       => true,
+            (Self::Reset(l),    Self::Reset(r))    => l == r,
             (Self::Analog(_),   Self::Analog(_))   => true,
             _ => false
         }
-- 
2.43.0


From 8d15b1703421cde13142f7959c2664cc6a55cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 03/22] fix: combine equivalent reset types

---
 src/types/ground.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/ground.rs b/src/types/ground.rs
index 44106e2..dc1f1d7 100644
--- a/src/types/ground.rs
+++ b/src/types/ground.rs
@@ -102,6 +102,7 @@ impl<C: Combinator<BitWidth>> Combinator<GroundType> for C {
             (GroundType::UInt(l),   GroundType::UInt(r))   => combine(l, r).map(GroundType::UInt),
             (GroundType::SInt(l),   GroundType::SInt(r))   => combine(l, r).map(GroundType::SInt),
             (GroundType::Clock,     GroundType::Clock)     => Ok(GroundType::Clock),
+            (GroundType::Reset(l),  GroundType::Reset(r)) if l == r => Ok(GroundType::Reset(*l)),
             (GroundType::Analog(l), GroundType::Analog(r)) => combine(l, r).map(GroundType::Analog),
             _ => Err((lhs, rhs))
         }
-- 
2.43.0


From 43fd20621a84de9bad310f2dbab578a264a56584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 04/22] fix: use the sum of the operand widths as width of a
 concatenation

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 1ec6fcf..55ce7e7 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -226,7 +226,7 @@ impl<R> types::Typed for Operation<R>
             Self::OrReduce(..)              => Ok(GT::UInt(Some(1))),
             Self::XorReduce(..)             => Ok(GT::UInt(Some(1))),
             Self::Cat(lhs, rhs)             => Ok(
-                GT::UInt(max_width(ground(lhs)?.width(), ground(rhs)?.width())
+                GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
             Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
                 .or(t.width())
-- 
2.43.0


From c9e29ac024d2165026b667258f885d650865cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 05/22] fix: compute the widths of head, tail and bits without
 overflow

---
 src/expr/primitive.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 55ce7e7..306dbe4 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -228,11 +228,12 @@ impl<R> types::Typed for Operation<R>
             Self::Cat(lhs, rhs)             => Ok(
                 GT::UInt(sum_width(ground(lhs)?.width(), ground(rhs)?.width())
             )),
-            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(high
-                .or(t.width())
-                .and_then(|w| w.checked_sub(low.unwrap_or(1)))
-                .map(|w| w + 1)
-            )),
+            Self::Bits(sub, low, high)      => ground(sub).map(|t| GT::UInt(match (low, high) {
+                (Some(l), Some(h)) => h.checked_sub(*l).and_then(|w| w.checked_add(1)),
+                (None, Some(h))    => Some(*h),
+                (Some(l), None)    => t.width().and_then(|w| w.checked_sub(*l)),
+                (None, None)       => t.width(),
+            })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
                 p.and_then(|p| p.checked_add(*bits as SBits))
-- 
2.43.0


From 30f0f874224500ed6be383576a6ec0104a01831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 06/22] fix: expect and print the high index of a bit
 extraction first

---
 src/expr/parsers.rs   | 2 +-
 src/expr/primitive.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index 29981e1..a21f5b3 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -130,7 +130,7 @@ pub fn primitive_op<'i, R: super::Reference + Clone>(
         "cat"           => map(tuple((&sub, comma, &sub)), |(l, _, r)| PO::Cat(l, r))(input)?,
         "bits"          => map(
             tuple((&sub, comma, spaced(decimal), comma, spaced(decimal))),
-            |(e, _, l, _, h)| PO::Bits(e, Some(l), Some(h))
+            |(e, _, h, _, l)| PO::Bits(e, Some(l), Some(h))
         )(input)?,
         "head"          => map(
             tuple((&sub, comma, spaced(decimal))),
diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 306dbe4..94562d0 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -289,7 +289,7 @@ impl<R: Reference> fmt::Display for Operation<R> {
             Self::OrReduce(sub)                     => write!(f, "orr({})", sub),
             Self::XorReduce(sub)                    => write!(f, "xorr({})", sub),
             Self::Cat(lhs, rhs)                     => write!(f, "cat({}, {})", lhs, rhs),
-            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, l, h),
+            Self::Bits(sub, Some(l), Some(h))       => write!(f, "bits({}, {}, {})", sub, h, l),
             Self::Bits(sub, None, Some(high))       => write!(f, "head({}, {})", sub, high),
             Self::Bits(sub, Some(low), None)        => write!(f, "tail({}, {})", sub, low),
             Self::Bits(..)                          => Err(Default::default()),
-- 
2.43.0


From 632ea7dfcf17b9172fcf2e8a12ae21dec1cafa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 07/22] fix: do not claim a width for padding an operand of
 unknown width

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 94562d0..0eca5d0 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -188,7 +188,7 @@ impl<R> types::Typed for Operation<R>
             Self::GEq(..)                   => Ok(GT::UInt(Some(1))),
             Self::Eq(..)                    => Ok(GT::UInt(Some(1))),
             Self::NEq(..)                   => Ok(GT::UInt(Some(1))),
-            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(max(t.width(), Some(*bits)))),
+            Self::Pad(sub, bits)            => ground(sub).map(|t| t.with_width(t.width().map(|w| max(w, *bits)))),
             Self::Cast(sub, target)         => ground(sub).map(|t| target.with_width(t.width())),
             Self::Shl(sub, bits)            => ground(sub)
                 .map(|t| t.with_width(t.width().and_then(|w| w.checked_add(*bits)))),
-- 
2.43.0


From cb3bf2d2ce6a125b0e843d74d83f0c9fe2aa9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 08/22] fix: limit the width of a fixed point right shift from
 below

---
 src/expr/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 0eca5d0..58cfd45 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -196,7 +196,7 @@ impl<R> types::Typed for Operation<R>
                 GT::UInt(w)                 => Ok(GT::UInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::SInt(w)                 => Ok(GT::SInt(w.map(|w| max(w.saturating_sub(*bits), 1)))),
                 GT::Fixed(Some(w), Some(p)) => Ok(
-                    GT::Fixed(w.checked_sub(*bits).map(|w| max(w, max(p, 1) as UBits)), Some(p))
+                    GT::Fixed(Some(max(w.saturating_sub(*bits), max(p, 1) as UBits)), Some(p))
                 ),
                 GT::Fixed(..)               => Ok(GT::Fixed(None, None)),
                 _ => Err(self.clone().into()),
-- 
2.43.0


From bc506879ff32961d4dd5b8bc54d897e57bcf9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 09/22] fix: compute every representable width of a dynamic
 left shift

---
 src/expr/primitive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 58cfd45..3c08e13 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -203,10 +203,10 @@ impl<R> types::Typed for Operation<R>
             }),
             Self::DShl(sub, bits)           => ground(sub).and_then(|t| Ok(t
                 .with_width(match (t.width(), ground(bits)?.width()) {
-                    (Some(ws), Some(wb)) => (1 as UBits)
+                    (Some(ws), Some(wb)) => 1u32
                         .checked_shl(wb.into())
-                        .and_then(|w| w.checked_add(ws))
-                        .map(|w| w - 1),
+                        .and_then(|w| (w - 1).checked_add(ws.into()))
+                        .and_then(|w| w.try_into().ok()),
                     _ => None,
                 })
             )),
-- 
2.43.0


From 6dff2274b3439ee3e355e2cfc032ced06252d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 10/22] fix: do not wrap the point when changing the precision
 by large amounts

---
 src/expr/primitive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index 3c08e13..c667fcb 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -236,11 +236,11 @@ impl<R> types::Typed for Operation<R>
             })),
             Self::IncPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_add(*bits)),
-                p.and_then(|p| p.checked_add(*bits as SBits))
+                p.and_then(|p| (i32::from(p) + i32::from(*bits)).try_into().ok())
             )),
             Self::DecPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| w.checked_sub(*bits)),
-                p.and_then(|p| p.checked_sub(*bits as SBits))
+                p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
                 w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-- 
2.43.0


From c7a96b6622c2e5d88ceaa488404d48363bc9abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 11/22] fix: use the requested precision as point of a set
 precision operation

---
 src/expr/primitive.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expr/primitive.rs b/src/expr/primitive.rs
index c667fcb..3d344ab 100644
--- a/src/expr/primitive.rs
+++ b/src/expr/primitive.rs
@@ -243,10 +243,9 @@ impl<R> types::Typed for Operation<R>
                 p.and_then(|p| (i32::from(p) - i32::from(*bits)).try_into().ok())
             )),
             Self::SetPrecision(sub, bits)   => fixed(sub).map(|(w, p)| GT::Fixed(
-                w.and_then(|w| p.and_then(|p| (w as SBits).checked_sub(p)))
-                    .and_then(|w| w.checked_add(*bits))
+                w.and_then(|w| p.map(|p| i32::from(w) - i32::from(p) + i32::from(*bits)))
                     .and_then(|w| w.try_into().ok()),
-                p
+                Some(*bits)
             )),
         }
     }
-- 
2.43.0


From e635f184045951cc17859a487b1bed70358c6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 12/22] fix: reject literals without representable width
 instead of panicking

---
 src/expr/parsers.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/expr/parsers.rs b/src/expr/parsers.rs
index a21f5b3..8938293 100644
--- a/src/expr/parsers.rs
+++ b/src/expr/parsers.rs
@@ -26,23 +26,17 @@ pub fn expr<'i, R: super::Reference + Clone>(
     let sub = |i| map(spaced(|i| expr(reference, i)), Arc::new)(i);
 
     let (input, res) = alt((
-        map(
+        map_opt(
             tuple((kw("UInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| {
-                let width = width
-                    .or_else(|| value.bits().try_into().ok())
-                    .expect("Could not determine appropriate width");
-                E::UIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigUint, _)| width
+                .or_else(|| value.bits().try_into().ok())
+                .map(|width| E::UIntLiteral{value, width})
         ),
-        map(
+        map_opt(
             tuple((kw("SInt"), spaced(bitwidth), lp, spaced(num_lit), rp)),
-            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| {
-                let width = width
-                    .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
-                    .expect("Could not determine appropriate width");
-                E::SIntLiteral{value, width}
-            }
+            |(_, width, _, value, _): (_, _, _, num_bigint::BigInt, _)| width
+                .or_else(|| value.bits().checked_add(1).and_then(|b| b.try_into().ok()))
+                .map(|width| E::SIntLiteral{value, width})
         ),
         map(
             tuple((kw("mux"), lp, &sub, comma, &sub, comma, &sub, rp)),
-- 
2.43.0


From 67db1ff81f2880703fe37861cdebfe29a3f6a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 13/22] fix: print the info attached to an invalidation

---
 src/stmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stmt.rs b/src/stmt.rs
index ab78209..04e4470 100644
--- a/src/stmt.rs
+++ b/src/stmt.rs
@@ -154,7 +154,8 @@ impl DisplayIndented for Statement {
             Kind::Empty                             => writeln!(f, "{}skip{}", indent.lock(), info),
             Kind::Declaration(entity)               => display::EntityDecl(entity, info).fmt(indent, f),
             Kind::SimpleMemDecl(mem)                => writeln!(f, "{}{}{}", indent.lock(), mem, info),
-            Kind::Invalidate(expr)                  => writeln!(f, "{}{} is invalid", indent.lock(), expr),
+            Kind::Invalidate(expr)                  =>
+                writeln!(f, "{}{} is invalid{}", indent.lock(), expr, info),
             Kind::Attach(exprs)                     =>
                 writeln!(f, "{}attach({}){}", indent.lock(), CommaSeparated::from(exprs), info),
             Kind::Conditional{cond, when, r#else}   => {
-- 
2.43.0


From 3c44aa2b323e22bb62d7307ca293d020d3b8e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 14/22] fix: always print a decimal point for double parameters

---
 src/module.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/module.rs b/src/module.rs
index b221804..1074905 100644
--- a/src/module.rs
+++ b/src/module.rs
@@ -308,7 +308,13 @@ impl fmt::Display for ParamValue {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Int(v)    => fmt::Display::fmt(v, f),
-            Self::Double(v) => fmt::Display::fmt(v, f),
+            Self::Double(v) => {
+                // Without a decimal point, the value would be taken for an
+                // integer.
+                let s = v.to_string();
+                let point = if v.is_finite() && !s.contains('.') { ".0" } else { "" };
+                write!(f, "{}{}", s, point)
+            },
             Self::String(v) => {
                 fmt::Display::fmt(&'"', f)?;
                 v.chars().try_for_each(|c| match c {
-- 
2.43.0


From 848533bd4279a8e071671f67d6a0d0579997d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 15/22] fix: accept print statements with an empty message

---
 src/stmt/parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 8be2785..231874b 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -9,7 +9,7 @@ use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
 use nom::combinator::{iterator, map, opt, value, verify};
-use nom::multi::{many1, separated_list1};
+use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
 use crate::expr::parsers::expr;
@@ -116,7 +116,7 @@ pub fn stmt<'i>(
                 comma,
                 spaced(|i| {
                     let (i, fmt_str) = map(
-                        tuple((chr('"'), many1(fmt_string_part), chr('"'))),
+                        tuple((chr('"'), many0(fmt_string_part), chr('"'))),
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-- 
2.43.0


From 2ec1690492af7ec6984f660e1f1d1a3635672d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 16/22] fix: reject print statements lacking a value for a
 format specifier

---
 src/stmt/parsers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 231874b..7b2a29f 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -52,6 +52,7 @@ pub fn stmt<'i>(
     indentation: &'_ mut Indentation,
 ) -> IResult<'i, super::Statement> {
     use super::{Kind, Statement as S};
+    use nom::error::ParseError;
     use print::PrintElement as P;
 
     let indent = indentation.clone().into_parser();
@@ -120,11 +121,14 @@ pub fn stmt<'i>(
                         |(_, p, ..)| p
                     )(i)?;
                     let mut exprs = iterator(i, preceded(spaced(comma), spaced(&expr)));
-                    let ps: Vec<_> = fmt_str.into_iter().filter_map(|e| match e {
+                    let ps: Option<Vec<_>> = fmt_str.into_iter().map(|e| match e {
                         FmtStrPart::Literal(s) => Some(P::Literal(s)),
                         FmtStrPart::FormatSpec(f) => (&mut exprs).next().map(|e| P::Value(e, f)),
                     }).collect();
-                    exprs.finish().map(|(i, _)| (i, ps))
+                    let (i, _) = exprs.finish()?;
+                    ps.map(|ps| (i, ps)).ok_or_else(|| nom::Err::Error(
+                        crate::parsers::Error::from_error_kind(i, nom::error::ErrorKind::Many1)
+                    ))
                 }),
                 rp,
                 optional_name,
-- 
2.43.0


From a29df5919a6e94ac99058d8a098208a288e55e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 17/22] fix: report errors following the top module when
 parsing a circuit

---
 src/circuit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d979c4..ff009be 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -159,14 +159,20 @@ where I: Iterator<Item = Result<Arc<Module>, E>>,
     /// Try to create the requested circuit, consuming the iterator
     pub fn into_circuit(mut self) -> Result<Circuit, ParseError> {
         let info = self.info;
-        match self.top_module {
+        let top = match self.top_module {
             TopState::Name(n)   => self
                 .modules
                 .find(|m| m.as_ref().ok().map(|m| m.name_ref() == n).unwrap_or(true))
                 .map(|r| r.map_err(Into::into))
                 .unwrap_or_else(|| Err("top module not found".to_owned().into())),
             TopState::Module(m) => Ok(m),
-        }.map(|m| Circuit::new(m).with_info(info))
+        }?;
+
+        // The input is only valid if all of the modules are, including those
+        // following the top module.
+        self.modules.try_for_each(|m| m.map(|_| ()).map_err(Into::into))?;
+
+        Ok(Circuit::new(top).with_info(info))
     }
 }
 
-- 
2.43.0


From fd9d1b7ef757207c69c440364678e8654a253b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 18/22] fix: do not accept empty names

---
 src/parsers.rs       | 4 ++--
 src/types/parsers.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 8320f33..4461d63 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ mod tests;
 
 
 use nom::Parser;
-use nom::bytes::complete::{tag, take_while};
+use nom::bytes::complete::{tag, take_while, take_while1};
 use nom::character::complete::{char as chr, satisfy, space0};
 use nom::combinator::{not, peek, value};
 use nom::error::context;
@@ -29,7 +29,7 @@ pub type Error<'i> = nom::error::VerboseError<&'i str>;
 pub fn identifier(input: &str) -> IResult<&str> {
     context(
         "expected identifier",
-        preceded(peek(not(satisfy(char::is_numeric))), take_while(is_identifier_char))
+        preceded(peek(not(satisfy(char::is_numeric))), take_while1(is_identifier_char))
     )(input)
 }
 
diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 4921ae1..8911c6f 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -5,7 +5,7 @@
 use std::sync::Arc;
 
 use nom::branch::alt;
-use nom::bytes::complete::take_while;
+use nom::bytes::complete::take_while1;
 use nom::combinator::{map, opt, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
@@ -70,6 +70,6 @@ pub fn r#type(input: &str) -> IResult<super::Type> {
 ///
 /// The rules for field names are somehow more relaxed than for identifiers.
 pub fn field_name(input: &str) -> IResult<&str> {
-    context("expected field name", take_while(is_identifier_char))(input)
+    context("expected field name", take_while1(is_identifier_char))(input)
 }
 
-- 
2.43.0


From 70541b03d67d482881281116590c441eee6f42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 19/22] Add guarded access to internals for verification

---
 src/lib.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 07c34e9..8b03d77 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -38,3 +38,44 @@ pub use module::Module;
 pub use named::Named;
 pub use types::{GroundType, Type};
 
+
+/// Access to internal parsers and formatting helpers for verification
+#[allow(unexpected_cfgs)]
+#[cfg(firrtl_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::indentation::*;
+
+    pub mod parsers {
+        pub use crate::parsers::*;
+    }
+
+    pub mod expr {
+        pub use crate::expr::parsers::*;
+    }
+
+    pub mod types {
+        pub use crate::types::parsers::*;
+    }
+
+    pub mod memory {
+        pub use crate::memory::parsers::*;
+    }
+
+    pub mod stmt {
+        pub use crate::stmt::display::*;
+        pub use crate::stmt::parsers::*;
+    }
+
+    pub mod module {
+        pub use crate::module::parsers::*;
+    }
+
+    pub fn parse_info(input: &str) -> crate::parsers::IResult<Option<String>> {
+        crate::info::parse(input)
+    }
+
+    pub fn print_info(info: Option<&str>) -> String {
+        crate::info::Info::from(info).to_string()
+    }
+}
-- 
2.43.0


From 0c653da637daf7106915eb8f23d6913c8733bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:26 +0000
Subject: [PATCH 20/22] fix: do not require a space behind the arrow in memory
 entries

---
 src/memory/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/parsers.rs b/src/memory/parsers.rs
index b051fb7..c02606b 100644
--- a/src/memory/parsers.rs
+++ b/src/memory/parsers.rs
@@ -186,7 +186,7 @@ fn entry<'i>(input: &'i str) -> IResult<'i, Entry> {
 fn arrow<'i>(input: &'i str) -> IResult<'i, ()> {
     use nom::Parser;
 
-    spaced(kw("=>")).parse(input)
+    spaced(op("=>")).parse(input)
 }
 
 fn ruw<'i>(input: &'i str) -> IResult<'i, super::ReadUnderWrite> {
-- 
2.43.0


From 18cd2aa63947c0e396854d6e124b43a759f309ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:38 +0000
Subject: [PATCH 21/22] fix: accept bundle fields named flip

---
 src/types/parsers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/types/parsers.rs b/src/types/parsers.rs
index 8911c6f..ab253a6 100644
--- a/src/types/parsers.rs
+++ b/src/types/parsers.rs
@@ -6,10 +6,10 @@ use std::sync::Arc;
 
 use nom::branch::alt;
 use nom::bytes::complete::take_while1;
-use nom::combinator::{map, opt, value};
+use nom::combinator::{map, opt, peek, value};
 use nom::error::context;
 use nom::multi::{fold_many0, separated_list0};
-use nom::sequence::{preceded, tuple};
+use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::{IResult, decimal, is_identifier_char, kw, op, spaced};
 
@@ -44,8 +44,10 @@ pub fn bitwidth(input: &str) -> IResult<super::BitWidth> {
 pub fn r#type(input: &str) -> IResult<super::Type> {
     use super::Type as T;
 
+    // A field may itself be named "flip"
+    let flip = terminated(kw("flip"), peek(spaced(field_name)));
     let field = map(
-        tuple((opt(kw("flip")), spaced(field_name), spaced(op(":")), spaced(r#type))),
+        tuple((opt(flip), spaced(field_name), spaced(op(":")), spaced(r#type))),
         |(o, n, _, t)| super::BundleField::new(n, t)
             .with_orientation(o.map(|_| super::Orientation::Flipped).unwrap_or_default())
     );
-- 
2.43.0


From 87afe22127fa95e44314d38bb5a9662965ae0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:50 +0000
Subject: [PATCH 22/22] fix: accept statements starting with a reference named
 else behind a conditional

---
 src/stmt/parsers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stmt/parsers.rs b/src/stmt/parsers.rs
index 7b2a29f..3cd04a3 100644
--- a/src/stmt/parsers.rs
+++ b/src/stmt/parsers.rs
@@ -8,7 +8,7 @@ use std::sync::Arc;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::{anychar, char as chr};
-use nom::combinator::{iterator, map, opt, value, verify};
+use nom::combinator::{iterator, map, opt, peek, value, verify};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{preceded, tuple};
 
@@ -170,7 +170,10 @@ fn indented_condition<'i>(
 
     let (input, when) = stmts(ctx.sub(), input, &mut indentation.sub())?;
 
-    let (input, r#else) = if let Ok((i, _)) = tuple((indentation.clone().parser(), kw("else")))(input) {
+    // A statement may start with a reference to an entity named "else"
+    let branch = peek(spaced(alt((op(":"), kw("when")))));
+
+    let (input, r#else) = if let Ok((i, _)) = tuple((indentation.clone().parser(), kw("else"), branch))(input) {
         if let Ok((i, _)) = tuple((spaced(op(":")), info, le))(i) {
             stmts(ctx.sub(), i, &mut indentation.sub())
         } else {
-- 
2.43.0

