------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* A buffer shared by the CPU, which converts Rust values to and from      *)
(* layout bytes, and a shader, which loads and stores members where the    *)
(* GLSL rules put them and may leave anything in the padding.              *)
(*                                                                         *)
(* A value is the sequence of its scalar components in declaration order,  *)
(* each a sequence of bytes (a bool is one 32-bit word).                   *)
(***************************************************************************)
EXTENDS Glsl

\* A bool's word is 1 or 0 when written; any non-zero word reads back as true.
BoolWord(b)  == IF b THEN <<1,0,0,0>> ELSE <<0,0,0,0>>
ReadLeaf(c, bytes) == IF c = "bool" THEN BoolWord(\E i \in DOMAIN bytes : bytes[i] # 0) ELSE bytes

\* Where a recorded image has no byte, NoByte stands for it.
NoByte == 256
Slice(mem, o, z) == [i \in 1..z |-> IF o + i <= Len(mem) THEN mem[o + i] ELSE NoByte]

\* What the CPU should read, given the bytes.
Read(lay, t, mem) ==
  LET lv == Leaves(lay, t)
  IN [k \in 1..Len(lv) |-> ReadLeaf(lv[k].c, Slice(mem, lv[k].o, lv[k].z))]

\* What is wrong with img as the bytes of value v of type t: names of the broken rules.
PlacedAt(lv, v, img) ==
  /\ Len(lv) = Len(v)
  /\ \A k \in 1..Len(lv) : Slice(img, lv[k].o, lv[k].z) = v[k]
PaddingZero(lv, img) ==
  \A p \in (0..(Len(img)-1)) \ Covered(lv) : img[p+1] = 0

UploadFaults(lay, t, v, img) ==
  LET lv == Leaves(lay, t)
  IN  (IF Len(img) = SizeOf(lay, t) THEN {} ELSE {"size"})
      \cup (IF PlacedAt(lv, v, img) THEN {} ELSE {"place"})
      \cup (IF PaddingZero(lv, img) THEN {} ELSE {"pad"})

\* The only bytes UploadFaults accepts: every position is either a leaf byte or zero.
RECURSIVE ImageFrom(_, _, _, _)
ImageFrom(lv, v, k, img) ==
  IF k > Len(lv) THEN img
  ELSE ImageFrom(lv, v, k+1, [p \in 1..Len(img) |->
         IF p > lv[k].o /\ p <= lv[k].o + lv[k].z THEN v[k][p - lv[k].o] ELSE img[p]])
Image(lay, t, v) == ImageFrom(Leaves(lay, t), v, 1, [p \in 1..SizeOf(lay, t) |-> 0])
=============================================================================
