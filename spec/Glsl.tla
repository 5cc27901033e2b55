-------------------------------- MODULE Glsl --------------------------------
(***************************************************************************)
(* The GLSL type universe and the std140 / std430 memory layout rules, as  *)
(* the OpenGL specification states them (section 7.6.2.2, "Standard        *)
(* Uniform Block Layout", rules 1-10, and its std430 amendment: no rounding *)
(* of array and structure alignments up to the alignment of a vec4).       *)
(*                                                                         *)
(* This module is written from the standard, not from the code.  It is the *)
(* declarative side of every layout property.                              *)
(*                                                                         *)
(* A type is a record (a "type term"):                                     *)
(*   [k |-> "scalar", c |-> comp]                                          *)
(*   [k |-> "vec", c |-> comp, n |-> 2..4]                                 *)
(*   [k |-> "mat", c |-> comp, n |-> columns = rows]                       *)
(*   [k |-> "struct", f |-> <<type, ...>>]                                 *)
(*   [k |-> "array", e |-> type, n |-> length]                             *)
(*   [k |-> "dyn", t |-> type]       wrapper raising alignment to >= 256   *)
(*   [k |-> "custom", size |-> bytes, align |-> bytes]  user-provided type *)
(* where comp is one of "float", "double", "int", "uint", "bool".          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Layouts == {"std140", "std430"}
Comps   == {"float", "double", "int", "uint", "bool"}

Max2(a, b)    == IF a > b THEN a ELSE b
RoundUp(n, m) == ((n + m - 1) \div m) * m

Scalar(c)  == [k |-> "scalar", c |-> c]
Vec(c, n)  == [k |-> "vec", c |-> c, n |-> n]
Mat(c, n)  == [k |-> "mat", c |-> c, n |-> n]
Struct(f)  == [k |-> "struct", f |-> f]
Array(e,n) == [k |-> "array", e |-> e, n |-> n]
Dyn(t)     == [k |-> "dyn", t |-> t]
Custom(s,a)== [k |-> "custom", size |-> s, align |-> a]

\* Rule N: basic machine units of a scalar component.  bool is a 32-bit word.
CompSize(c) == IF c = "double" THEN 8 ELSE 4

\* "rounded up to the base alignment of a vec4" -- rules 4 and 9, std140 only
Vec4Align == 16
AggregateAlign(lay, a) == IF lay = "std140" THEN RoundUp(a, Vec4Align) ELSE a

(***************************************************************************)
(* Base alignment, size, and array stride.                                 *)
(***************************************************************************)
RECURSIVE AlignOf(_, _), SizeOf(_, _), MaxAlign(_, _), MemberOffsets(_, _)

\* Rules 1-3.
VecAlign(c, n) == (IF n = 2 THEN 2 ELSE 4) * CompSize(c)

\* Rule 5: a column-major C-column matrix is an array of C column vectors.
ColumnArray(t) == Array(Vec(t.c, t.n), t.n)

AlignOf(lay, t) ==
  CASE t.k = "scalar" -> CompSize(t.c)
    [] t.k = "vec"    -> VecAlign(t.c, t.n)
    [] t.k = "mat"    -> AlignOf(lay, ColumnArray(t))
    [] t.k = "array"  -> AggregateAlign(lay, AlignOf(lay, t.e))
    [] t.k = "struct" -> AggregateAlign(lay, MaxAlign(lay, t.f))
    [] t.k = "dyn"    -> Max2(256, AlignOf(lay, t.t))
    [] t.k = "custom" -> t.align

MaxAlign(lay, fs) ==
  IF fs = <<>> THEN 1
  ELSE Max2(AlignOf(lay, Head(fs)), MaxAlign(lay, Tail(fs)))

\* Distance between consecutive elements of an array of t.
Stride(lay, t) == RoundUp(SizeOf(lay, t), AggregateAlign(lay, AlignOf(lay, t)))

\* Rule 9 applied member by member; the result is <<offsets, end>> where end is
\* the offset just past the last member.
RECURSIVE Place(_, _, _, _)
Place(lay, fs, at, acc) ==
  IF fs = <<>> THEN <<acc, at>>
  ELSE LET here == RoundUp(at, AlignOf(lay, Head(fs)))
       IN  Place(lay, Tail(fs), here + SizeOf(lay, Head(fs)), Append(acc, here))

MemberOffsets(lay, fs) == Place(lay, fs, 0, <<>>)[1]

SizeOf(lay, t) ==
  CASE t.k = "scalar" -> CompSize(t.c)
    [] t.k = "vec"    -> t.n * CompSize(t.c)
    [] t.k = "mat"    -> SizeOf(lay, ColumnArray(t))
    [] t.k = "array"  -> t.n * Stride(lay, t.e)
    [] t.k = "struct" -> RoundUp(Place(lay, t.f, 0, <<>>)[2], AlignOf(lay, t))
    [] t.k = "dyn"    -> SizeOf(lay, t.t)
    [] t.k = "custom" -> t.size

(***************************************************************************)
(* Leaves: the scalar components of a type in declaration order (matrices  *)
(* column by column), each with its byte offset -- what a shader reads.     *)
(***************************************************************************)
Leaf(o, c) == [o |-> o, c |-> c, z |-> CompSize(c)]

RECURSIVE LeavesAt(_, _, _), LeavesOfMembers(_, _, _, _)
LeavesAt(lay, t, base) ==
  CASE t.k = "scalar" -> << Leaf(base, t.c) >>
    [] t.k = "vec"    -> [i \in 1..t.n |-> Leaf(base + (i-1) * CompSize(t.c), t.c)]
    [] t.k = "mat"    ->
         LET st == Stride(lay, Vec(t.c, t.n))
         IN [i \in 1..(t.n * t.n) |->
               Leaf(base + ((i-1) \div t.n) * st + ((i-1) % t.n) * CompSize(t.c), t.c)]
    [] t.k = "array"  ->
         LET RECURSIVE El(_)
             El(i) == IF i = t.n THEN <<>>
                      ELSE LeavesAt(lay, t.e, base + i * Stride(lay, t.e)) \o El(i+1)
         IN El(0)
    [] t.k = "struct" ->
         LET offs == MemberOffsets(lay, t.f)
         IN LeavesOfMembers(lay, t.f, [i \in 1..Len(t.f) |-> base + offs[i]], 1)
    [] t.k = "dyn"    -> LeavesAt(lay, t.t, base)
    [] t.k = "custom" -> [i \in 1..(t.size \div 4) |-> Leaf(base + (i-1)*4, "uint")]

LeavesOfMembers(lay, fs, offs, i) ==
  IF i > Len(fs) THEN <<>>
  ELSE LeavesAt(lay, fs[i], offs[i]) \o LeavesOfMembers(lay, fs, offs, i+1)

Leaves(lay, t) == LeavesAt(lay, t, 0)

\* Byte positions (0-based) that some member covers.
Covered(lvs) == UNION { lvs[i].o .. (lvs[i].o + lvs[i].z - 1) : i \in 1..Len(lvs) }

(***************************************************************************)
(* GLSL names.                                                             *)
(***************************************************************************)
CompPrefix(c) == CASE c = "float" -> "" [] c = "double" -> "d" [] c = "int" -> "i"
                   [] c = "uint" -> "u" [] c = "bool" -> "b"
GlslName(t) ==
  CASE t.k = "scalar" -> t.c
    [] t.k = "vec"    -> CompPrefix(t.c) \o "vec" \o ToString(t.n)
    [] t.k = "mat"    -> CompPrefix(t.c) \o "mat" \o ToString(t.n)
    [] t.k = "struct" -> t.name

(***************************************************************************)
(* The numeric types of GLSL that have a Rust counterpart (square matrices *)
(* of floats and doubles only).                                            *)
(***************************************************************************)
Scalars  == { Scalar(c) : c \in Comps }
Vectors  == { Vec(c, n) : c \in Comps, n \in 2..4 }
Matrices == { Mat(c, n) : c \in {"float", "double"}, n \in 2..4 }
Numeric  == Scalars \cup Vectors \cup Matrices
=============================================================================
