----------------------------- MODULE TraceShape -----------------------------
(***************************************************************************)
(* Decides what was recorded of types too big to record byte by byte:      *)
(* where single components are, without listing the others.                *)
(*                                                                         *)
(* Events: type [align, size, rust]; full [len, weight, same, vsize], an   *)
(* image with every component set, weight being how many of its bytes are  *)
(* not zero; leaf [k, at, n], an image with only component k set, whose    *)
(* bytes from the first to the last that is not zero are at..at+n-1; read  *)
(* [k, salt, v], component k read from an image of bytes Fill(p, salt);    *)
(* cast and round [same], a comparison made by the recorder.               *)
(***************************************************************************)
EXTENDS Glsl, Json
CONSTANTS TypesFile, TraceFile, Checked
Types    == ndJsonDeserialize(TypesFile)
Sessions == ndJsonDeserialize(TraceFile)
T(i) == Types[Sessions[i].ty + 1].t
L(i) == Sessions[i].lay
Ev(i) == Sessions[i].ev
If(b, f) == IF b THEN {} ELSE {f}

Sum(n, f(_)) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f(i) + S(i - 1) IN S(n)
RECURSIVE Count(_), Weight(_), LeafOf(_, _, _, _)
Count(t) == CASE t.k = "scalar" -> 1
              [] t.k = "vec"    -> t.n
              [] t.k = "mat"    -> t.n * t.n
              [] t.k = "struct" -> LET c(i) == Count(t.f[i]) IN Sum(Len(t.f), c)
              [] t.k = "dyn"    -> Count(t.t)
              [] t.k = "custom" -> t.size \div 4
\* Bytes that are not zero when every component is set (a bool's word is 1).
LeafWeight(c) == IF c = "bool" THEN 1 ELSE CompSize(c)
Weight(t) == CASE t.k \in {"scalar", "vec", "mat"} -> Count(t) * LeafWeight(t.c)
               [] t.k = "struct" -> LET w(i) == Weight(t.f[i]) IN Sum(Len(t.f), w)
               [] t.k = "dyn"    -> Weight(t.t)
               [] t.k = "custom" -> t.size
\* The k-th component of a t at base: Leaves(lay, t)[k] without the others.
LeafOf(lay, t, k, base) ==
  CASE t.k = "dyn"    -> LeafOf(lay, t.t, k, base)
    [] t.k = "custom" -> Leaf(base + 4 * (k - 1), "uint")
    [] t.k = "struct" -> LET offs == MemberOffsets(lay, t.f)
                             RECURSIVE Find(_, _)
                             Find(i, j) == LET c == Count(t.f[i])
                                           IN IF j <= c THEN LeafOf(lay, t.f[i], j, base + offs[i]) ELSE Find(i + 1, j - c)
                         IN Find(1, k)
    [] OTHER          -> LeavesAt(lay, t, base)[k]
Fill(p, salt) == ((p % 251) * 7 + (p \div 251) * 13 + salt * 31 + 5) % 256

VARIABLES s, l
TypeFaults(e) == If(e.align = AlignOf(L(s), T(s)), "align") \cup If(e.size = SizeOf(L(s), T(s)) /\ e.rust = e.size, "size")
FullFaults(e) == If(e.len = SizeOf(L(s), T(s)), "size") \cup If(e.vsize = e.len, "length")
                 \cup If(e.weight = Weight(T(s)), "pad") \cup If(e.same, "determinism")
LeafFaults(e) == LET x == LeafOf(L(s), T(s), e.k, 0)
                 IN If(e.at = x.o /\ e.n = LeafWeight(x.c), "place")
ReadFaults(e) == LET x == LeafOf(L(s), T(s), e.k, 0)
                     m == [i \in 1..x.z |-> Fill(x.o + i - 1, e.salt)]
                 IN If(e.v = (IF x.c = "bool" THEN <<IF \E i \in 1..4 : m[i] # 0 THEN 1 ELSE 0, 0, 0, 0>> ELSE m), "read")
Faults(e) == CASE e.e = "type"  -> TypeFaults(e)
               [] e.e = "full"  -> FullFaults(e)
               [] e.e = "leaf"  -> LeafFaults(e)
               [] e.e = "read"  -> ReadFaults(e)
               [] e.e = "cast"  -> If(e.same, "cast")
               [] e.e = "round" -> If(e.same, "roundtrip")
               [] e.e = "panic" -> {"panic"}

Init == s \in 1..Len(Sessions) /\ l = 1
Next == /\ l <= Len(Ev(s))
        /\ LET F == Faults(Ev(s)[l]) \cap Checked
           IN F # {} => PrintT("@@" \o ToJson([s |-> s, l |-> l, faults |-> F, ty |-> Sessions[s].ty, lay |-> L(s)]))
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_<<s, l>>

\* Component by component is the same as all at once.
Small == Numeric \cup { Struct(<<Scalar("float"), Mat("float", 3), Scalar("bool")>>),
                        Struct(<<Vec("double", 3), Struct(<<Scalar("int"), Vec("float", 2)>>), Dyn(Custom(12, 4)), Mat("double", 2)>>) }
ASSUME \A lay \in Layouts, t \in Small :
         LET lv == Leaves(lay, t)
         IN Count(t) = Len(lv) /\ \A k \in 1..Len(lv) : LeafOf(lay, t, k, 0) = lv[k]
=============================================================================
