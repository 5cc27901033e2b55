-------------------------------- MODULE Hosts --------------------------------
(***************************************************************************)
(* The Rust types crevice supports as members and values, each with the    *)
(* GLSL type it stands for.  This table is the specification of "supported *)
(* type"; the conformance programs are generated from it.                  *)
(*                                                                         *)
(* A host is [h |-> Rust type, t |-> type term, lib |-> library,           *)
(*            lays |-> layouts it converts to].                            *)
(***************************************************************************)
EXTENDS Glsl

RustComp(c) == CASE c = "float" -> "f32" [] c = "double" -> "f64" [] c = "int" -> "i32"
                 [] c = "uint" -> "u32" [] c = "bool" -> "bool"
CamelPrefix(c) == CASE c = "float" -> "" [] c = "double" -> "D" [] c = "int" -> "I"
                    [] c = "uint" -> "U" [] c = "bool" -> "B"

Host(h, t, lib) == [h |-> h, t |-> t, lib |-> lib, lays |-> Layouts]

ScalarHosts == { Host(RustComp(c), Scalar(c), "core") : c \in Comps }

\* Libraries with generic vectors, points and matrices.
GenericVectors(lib, pre) ==
  { Host(pre \o "Vector" \o ToString(n) \o "<" \o RustComp(c) \o ">", Vec(c, n), lib)
      : c \in Comps, n \in 2..4 }
GenericPoints(lib, pre) ==
  { Host(pre \o "Point" \o ToString(n) \o "<" \o RustComp(c) \o ">", Vec(c, n), lib)
      : c \in Comps, n \in 2..3 }
GenericMatrices(lib, pre) ==
  { Host(pre \o ToString(n) \o "<" \o RustComp(c) \o ">", Mat(c, n), lib)
      : c \in {"float", "double"}, n \in 2..4 }

MintHosts   == GenericVectors("mint", "mint::") \cup GenericPoints("mint", "mint::")
                 \cup GenericMatrices("mint", "mint::ColumnMatrix")
CgmathHosts == GenericVectors("cgmath", "cgmath::") \cup GenericPoints("cgmath", "cgmath::")
                 \cup GenericMatrices("cgmath", "cgmath::Matrix")
NalgebraHosts == GenericVectors("nalgebra", "nalgebra::") \cup GenericPoints("nalgebra", "nalgebra::")
                 \cup GenericMatrices("nalgebra", "nalgebra::Matrix")

\* glam names one type per component kind; its boolean vectors are not supported.
GlamHosts ==
  { Host("glam::" \o CamelPrefix(c) \o "Vec" \o ToString(n), Vec(c, n), "glam")
      : c \in Comps \ {"bool"}, n \in 2..4 }
  \cup
  { Host("glam::" \o CamelPrefix(c) \o "Mat" \o ToString(n), Mat(c, n), "glam")
      : c \in {"float", "double"}, n \in 2..4 }

\* crevice's own layout types; each belongs to one layout.
OwnHosts(lay) ==
  LET own(h, t) == [h |-> "crevice::" \o lay \o "::" \o h, t |-> t, lib |-> "own", lays |-> {lay}]
  IN  { own(CamelPrefix(c) \o "Vec" \o ToString(n), Vec(c, n)) : c \in Comps, n \in 2..4 }
      \cup { own(CamelPrefix(c) \o "Mat" \o ToString(n), Mat(c, n)) : c \in {"float","double"}, n \in 2..4 }
      \cup { [h |-> "crevice::" \o lay \o "::Bool", t |-> Scalar("bool"), lib |-> "own", lays |-> {lay}] }

\* Types a user provides: plain data of w words (possibly none) aligned to a bytes,
\* and one that converts to a vec4.
UserHost(w, a) == Host("User<" \o ToString(w) \o ", " \o ToString(a) \o ">", Custom(4*w, a), "user")
ColourHost == Host("Colour", Vec("float", 4), "user")
UserHosts == { UserHost(1, 4), UserHost(3, 4), UserHost(2, 8), UserHost(5, 16), UserHost(1, 64), UserHost(7, 128),
               UserHost(3, 256), UserHost(2, 512), UserHost(1, 4096),
               UserHost(0, 16), UserHost(0, 256), ColourHost }

\* The wrapper, around anything std140, itself included.
Wrapped(h) == [h |-> "crevice::std140::DynamicUniform<" \o h.h \o ">", t |-> Dyn(h.t), lib |-> "dyn", lays |-> {"std140"}]
WrappedAll(H) == { Wrapped(h) : h \in { x \in H : "std140" \in x.lays } }
DynHosts == LET once == WrappedAll(ScalarHosts \cup GenericVectors("mint", "mint::") \cup GenericPoints("mint", "mint::")
                                    \cup GenericMatrices("mint", "mint::ColumnMatrix") \cup UserHosts \cup OwnHosts("std140"))
            IN once \cup WrappedAll({ h \in once : h.t.t.k \in {"custom", "scalar"} })

MathHosts == CgmathHosts \cup NalgebraHosts \cup GlamHosts
\* The hosts of the default feature set.
BaseHosts == ScalarHosts \cup MintHosts
AllHosts  == BaseHosts \cup MathHosts \cup OwnHosts("std140") \cup OwnHosts("std430")

\* One host per GLSL numeric type: the vocabulary for struct members.
MemberHosts == ScalarHosts \cup GenericVectors("mint", "mint::") \cup GenericMatrices("mint", "mint::ColumnMatrix")
HostFor(t)  == CHOOSE h \in MemberHosts : h.t = t

\* One representative per (size, alignment) class in the two layouts.
ClassReps == { Scalar("float"), Scalar("double"), Vec("float", 2), Vec("float", 3), Vec("float", 4),
               Vec("double", 2), Vec("double", 3), Vec("double", 4),
               Mat("float", 2), Mat("float", 3), Mat("float", 4),
               Mat("double", 2), Mat("double", 3), Mat("double", 4) }
=============================================================================
