-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* What the code computes, transcribed: the tables of primitive types      *)
(* (sizes of C structs with explicit padding members, alignment literals)  *)
(* and the arithmetic of the derive macro, field by field.  Nothing in     *)
(* this module uses the standard's layout rules (only type terms).         *)
(*                                                                         *)
(* An implementation record is                                             *)
(*   [size, align, rust (alignment required by Rust), leaves (offsets)].   *)
(***************************************************************************)
EXTENDS Glsl

(******************** what the code declares for primitives ****************)
ImplMinStructAlign == [std140 |-> 16, std430 |-> 0]

\* Rust size and alignment (repr(C)) of a scalar component.
RustCompSize(c)  == IF c = "double" THEN 8 ELSE 4
RustCompAlign(c) == RustCompSize(c)

\* ALIGNMENT literals of the vectors! table (the same in both layouts).
ImplVecAlign(c, n) ==
  IF c = "double" THEN (CASE n = 2 -> 16 [] n = 3 -> 32 [] n = 4 -> 32)
                  ELSE (CASE n = 2 -> 8  [] n = 3 -> 16 [] n = 4 -> 16)
\* matrices! table: ALIGNMENT, and trailing padding members per column (in components)
ImplMatAlign(lay, c, n) ==
  IF c = "double" THEN (CASE n = 2 -> 16 [] n = 3 -> 32 [] n = 4 -> 32)
  ELSE CASE n = 2 -> (IF lay = "std140" THEN 16 ELSE 8) [] n = 3 -> 16 [] n = 4 -> 16
ImplMatColPad(lay, c, n) ==
  CASE n = 2 -> (IF c = "float" /\ lay = "std140" THEN 2 ELSE 0)
    [] n = 3 -> 1
    [] n = 4 -> 0

\* [size, align, rust (alignment), leaves (byte offsets of the components)]
ImplNumeric(lay, t) ==
  CASE t.k = "scalar" ->
         [size |-> RustCompSize(t.c), align |-> RustCompSize(t.c), rust |-> RustCompAlign(t.c),
          leaves |-> <<0>>]
    [] t.k = "vec" ->
         [size |-> t.n * RustCompSize(t.c), align |-> ImplVecAlign(t.c, t.n), rust |-> RustCompAlign(t.c),
          leaves |-> [i \in 1..t.n |-> (i-1) * RustCompSize(t.c)]]
    [] t.k = "mat" ->
         LET col == (t.n + ImplMatColPad(lay, t.c, t.n)) * RustCompSize(t.c)
         IN [size |-> t.n * col, align |-> ImplMatAlign(lay, t.c, t.n), rust |-> RustCompAlign(t.c),
             leaves |-> [i \in 1..(t.n*t.n) |-> ((i-1) \div t.n) * col + ((i-1) % t.n) * RustCompSize(t.c)]]

\* The wrapper and user-provided types.
RECURSIVE ImplOfTerm(_, _)
ImplOfTerm(lay, t) ==
  CASE t.k \in {"scalar", "vec", "mat"} -> ImplNumeric(lay, t)
    [] t.k = "dyn" -> LET i == ImplOfTerm(lay, t.t)
                      IN [i EXCEPT !.align = IF 256 > @ THEN 256 ELSE @]
    [] t.k = "custom" -> [size |-> t.size, align |-> t.align, rust |-> 4,
                          leaves |-> [i \in 1..(t.size \div 4) |-> (i-1)*4]]

(***************************** the derive **********************************)
\* internal::align_offset
AlignOffset(offset, alignment) ==
  IF alignment = 0 \/ offset % alignment = 0 THEN 0 ELSE alignment - (offset % alignment)

(* State of the derive while it walks the fields of one struct. *)
StructStart(lay) == [offs |-> <<>>, end |-> 0, amax |-> ImplMinStructAlign[lay], rust |-> 1, leaves |-> <<>>]

\* One field with implementation record i.  The padding after the previous field
\* depends on the alignment of this one.
StructField(a, i) ==
  LET off == a.end + (IF a.offs = <<>> THEN 0 ELSE AlignOffset(a.end, i.align))
  IN [offs   |-> Append(a.offs, off),
      end    |-> off + i.size,
      amax   |-> IF i.align > a.amax THEN i.align ELSE a.amax,
      rust   |-> IF i.rust > a.rust THEN i.rust ELSE a.rust,
      leaves |-> a.leaves \o [j \in 1..Len(i.leaves) |-> off + i.leaves[j]]]

\* The last field's padding aligns the end to the struct's own alignment.
StructEnd(a) == [size |-> a.end + AlignOffset(a.end, a.amax), align |-> a.amax,
                 rust |-> a.rust, leaves |-> a.leaves]

\* The whole derive at once, for any type term without references.
RECURSIVE Impl(_, _), ImplFields(_, _, _)
ImplFields(lay, a, fs) ==
  IF fs = <<>> THEN StructEnd(a)
  ELSE ImplFields(lay, StructField(a, Impl(lay, Head(fs))), Tail(fs))
Impl(lay, t) == IF t.k = "struct" THEN ImplFields(lay, StructStart(lay), t.f)
                ELSE IF t.k = "dyn" THEN [Impl(lay, t.t) EXCEPT !.align = IF 256 > @ THEN 256 ELSE @]
                ELSE ImplOfTerm(lay, t)
=============================================================================
