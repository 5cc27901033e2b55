------------------------------- MODULE Admit -------------------------------
(***************************************************************************)
(* What a program may ask of crevice, and whether the compiler lets it.    *)
(*                                                                         *)
(* A use is a record                                                       *)
(*   [form, kind, types]                                                   *)
(* form: one of Declarations (a deriving                                   *)
(*   declaration), "convert", "read", "write", "slice", "iter", "size",    *)
(*   "valuesize" (a use of a                                               *)
(*   value), "wrap" (the dynamic-uniform wrapper), "name" (the type's GLSL *)
(*   name).                                                                *)
(* kind: "std140", "std430", "glsl".                                       *)
(* types: Rust types of the fields, or the one type used.                  *)
(***************************************************************************)
EXTENDS Hosts

\* Rust types that stand for nothing in GLSL: no type there has their size, range or meaning.
StrangeNumbers == { "u8", "i8", "u16", "i16", "u64", "i64", "u128", "i128", "usize", "isize", "char" }
StrangeThings  == { "()", "(f32, f32)", "String", "&'static str", "*const f32", "fn()", "Option<f32>", "core::marker::PhantomData<f32>",
                    "core::num::NonZeroU32", "core::cell::Cell<f32>", "core::time::Duration", "core::cmp::Ordering", "core::ops::Range<f32>", "Plain", "Choice",
                    "(f32,)", "(f32, f32, f32)", "(f32, f32, f32, f32)", "(u32, i32)", "(Mixed,)", "Option<Mixed>", "Option<u8>", "Result<f32, u32>", "core::num::NonZeroI32",
                    "core::num::Wrapping<u8>", "core::num::Wrapping<u64>", "core::cell::RefCell<f32>", "core::mem::MaybeUninit<f32>", "core::sync::atomic::AtomicU32",
                    "core::sync::atomic::AtomicU64", "core::ops::RangeInclusive<u32>", "core::net::Ipv4Addr", "core::any::TypeId", "*mut u32", "fn(f32) -> f32",
                    "&'static u8", "&'static [u8]", "&'static Plain", "[u8; 4]", "[u64; 2]", "[char; 1]", "[Plain; 2]", "[Option<f32>; 2]", "Vec<u8>", "Vec<Plain>",
                    "Box<u64>", "Box<str>", "std::rc::Rc<u8>" }
StrangeVectors(lib) == { lib \o "Vector" \o ToString(n) \o "<" \o c \o ">" : n \in 2..4, c \in IF lib = "mint::" THEN StrangeNumbers ELSE { "u8", "i64", "i16", "usize" } }
                       \cup { lib \o "Point" \o ToString(n) \o "<" \o c \o ">" : n \in 2..3, c \in { "u16", "u64", "char", "isize" } }
StrangeGlam == { "glam::" \o c \o "Vec" \o ToString(n) : n \in 2..4, c \in { "I8", "U8", "I16", "U16", "I64", "U64", "USize" } }
StrangeMatrices(pre) == { pre \o ToString(n) \o "<" \o c \o ">" : n \in 2..4, c \in { "i32", "u32", "bool", "i64", "u8", "u64" } }
\* Laid out by the rules of one layout, and of no use in the other.
OtherLayout(lay, pres) ==
  { pre \o " as crevice::" \o l \o "::As" \o (IF l = "std140" THEN "Std140" ELSE "Std430") \o ">::Output" : l \in Layouts \ {lay}, pre \in pres }
StrangersOf(lay) == OtherLayout(lay, { "<Mixed", "<mint::Vector3<f32>" })
                    \cup (IF lay = "std430" THEN OtherLayout("std430", { "<crevice::std140::DynamicUniform<f32>" }) ELSE {})
\* What a struct is laid out as has no name in GLSL.
Nameless == UNION { OtherLayout(l, {"<Mixed"}) : l \in Layouts }
\* Structs that derive some things only; they cannot be part of what derives the others.
Derivers == { <<"Only140", {"std140"}>>, <<"Only430", {"std430"}>>, <<"OnlyGlsl", {"glsl"}>>, <<"Mixed", {"std140", "std430"}>> }
DeriverNames == { d[1] : d \in Derivers }
Strangers == StrangeNumbers \cup StrangeThings \cup StrangeVectors("mint::") \cup StrangeVectors("cgmath::") \cup StrangeVectors("nalgebra::")
             \cup StrangeMatrices("mint::ColumnMatrix") \cup StrangeMatrices("cgmath::Matrix") \cup StrangeGlam \cup StrangeMatrices("nalgebra::Matrix")

Supported == AllHosts \cup UserHosts \cup DynHosts
\* What the table of hosts says about a type; nothing about one it does not have.
Entry(ty) == { h \in Supported : h.h = ty }
\* The boolean is one type, whichever layout it is named through.
BothLayouts == { "crevice::" \o lay \o "::Bool" : lay \in Layouts }
HasLayout(ty, lay) == \E h \in Entry(ty) : lay \in h.lays \/ ty \in BothLayouts
HasName(ty) == \E h \in Entry(ty) : h.t \in Numeric /\ h.lib \notin {"dyn", "user"}
Known(ty, kind) == IF ty \in DeriverNames THEN \E d \in Derivers : d[1] = ty /\ kind \in d[2]
                   ELSE IF kind = "glsl" THEN HasName(ty) ELSE HasLayout(ty, kind)

\* With fields: all but the empty ones.  "variant" is an enum of one variant, "positional" one of unnamed fields.
EmptyDeclarations == { "unit", "fieldless", "numbered", "never" }
Declarations == EmptyDeclarations \cup { "named", "tuple", "transparent", "enum", "variant", "positional", "union" }
Admitted(u) ==
  CASE u.form = "named" -> \A i \in 1..Len(u.types) : Known(u.types[i], u.kind)
    [] u.form \in Declarations \ {"named"} -> FALSE
    [] OTHER -> Known(u.types[1], u.kind)
=============================================================================
