------------------------------ MODULE TraceWide ------------------------------
(***************************************************************************)
(* Sizers, and writers far into their output: only the arithmetic of       *)
(* offsets, with counts as pairs (module Wide).                            *)
(*                                                                         *)
(* Events: add [ty, off, len] of a sizer; put [ty, n, ret, len, held,      *)
(* first] of a writer that was given n values, where held is what its      *)
(* output was handed altogether and first where the first byte that is not *)
(* zero arrived (the values have no zero byte); bulk [k, ty, n, ...] of n   *)
(* values given at once (a slice, an iterator) or one by one, where runs   *)
(* says where in the output they were found, with nothing but zeros        *)
(* between them, rets what was returned, and sized what a sizer said, each *)
(* as runs <<from, step, how many>>.                                       *)
(***************************************************************************)
EXTENDS Wide, Json
CONSTANTS TypesFile, TraceFile, Checked
Types    == ndJsonDeserialize(TypesFile)
Sessions == ndJsonDeserialize(TraceFile)
Lay(s) == Sessions[s].lay
Ev(s)  == Sessions[s].ev
TypeOf(i) == Types[i + 1].t

VARIABLES s, l, at
vars == <<s, l, at>>
If(b, f) == IF b THEN {} ELSE {f}

AddFaults(e) == If(e.off = WFirst(Lay(s), at, TypeOf(e.ty)), "sizer offset")
                \cup If(e.len = WEnd(Lay(s), at, TypeOf(e.ty), 1), "sizer length")
PutFaults(e) == If(e.ok, "fails")
                \cup If(e.ret = (IF e.n = 0 THEN at ELSE WFirst(Lay(s), at, TypeOf(e.ty))), "far offset")
                \cup If(e.n = 0 \/ e.first = WFirst(Lay(s), at, TypeOf(e.ty)), "far place")
                \cup If(e.held = WEnd(Lay(s), at, TypeOf(e.ty), e.n), "far bytes")
                \cup If(e.len = WEnd(Lay(s), at, TypeOf(e.ty), e.n), "far length")
Sequence_(e) == e.k \in {"slice", "old", "iter", "vague"}
Slice_(e)    == e.k \in {"slice", "old"}
Run(first, step, n) == IF n = 0 THEN <<>> ELSE <<<<first, IF n = 1 THEN <<0, 0>> ELSE step, n>>>>
\* The ways n values of the given size and alignment may follow one another from `from`
\* (module Buffer's Plans): where they are and the ends allowed.
GlslElement(t) == t.k \in {"scalar", "vec", "mat", "struct"}
Spread(from, size, align, n, tail) ==
  LET first == WRoundUp(from, align)
      step  == WRoundUp(size, align)
      last  == WAdd(first, WMul(n - 1, step))
  IN IF n = 0 THEN [runs |-> <<>>, first |-> from, ends |-> {from}]
     ELSE [runs |-> Run(first, step, n), first |-> first, ends |-> {WAdd(last, size)} \cup (IF tail THEN {WAdd(last, step)} ELSE {})]
Natural(from, size, align, n)      == Spread(from, size, align, n, FALSE)
AsArray(lay, from, size, align, n) == Spread(from, size, AggregateAlign(lay, align), n, TRUE)
Al(e) == IF e.al < 1 THEN 1 ELSE e.al
WaysOf(lay, from, e) == {Natural(from, e.size, Al(e), e.n)}
                        \cup (IF Slice_(e) THEN {AsArray(lay, from, e.size, Al(e), e.n)} ELSE {})
Follows(e, w) == e.runs = w.runs /\ e.held \in w.ends
Returned(e, at_, w) == IF Sequence_(e) THEN e.rets = <<<<IF e.n = 0 THEN at_ ELSE w.first, <<0, 0>>, 1>>>>
                       ELSE e.rets = w.runs
Tag(pre, F) == { pre \o f : f \in F }
BulkFaults(e) ==
  LET ways == WaysOf(Lay(s), at, e)
      right == { w \in ways : Follows(e, w) }
      pre == IF Sequence_(e) THEN "seq " ELSE "each "
  IN Tag(pre, If(e.ok, "fails")
              \cup If(e.bad = -1 /\ e.tail # -1, "bytes")
              \cup If(e.bad # -1 \/ right # {}, "places")
              \cup If(~e.ok \/ \E w \in (IF right = {} THEN ways ELSE right) : Returned(e, at, w), "returns"))
     \cup If(e.len = e.held, "bulk length")
     \cup If(~e.sizer \/ (e.sized = e.runs /\ e.slen = e.held), "bulk sizer")
     \* Asked beforehand: what a fresh writer emits, one of the ways from offset 0.
     \cup If(~e.asked \/ at # <<0, 0>> \/ e.query = e.held, "bulk size")
     \cup If(~e.asked \/ \E w \in WaysOf(Lay(s), <<0, 0>>, e) : e.query \in w.ends, "bulk size")
     \* The items in absolute terms.
     \cup If(e.al = WAlignOf(Lay(s), TypeOf(e.ty)) /\ e.size = WSizeOf(Lay(s), TypeOf(e.ty)), "item")
     \* C14
     \cup (LET t == TypeOf(e.ty)
           IN IF ~Slice_(e) \/ e.n = 0 \/ ~e.ok \/ ~GlslElement(t) THEN {}
              ELSE IF Follows(e, AsArray(Lay(s), at, WSizeOf(Lay(s), t), WAlignOf(Lay(s), t), e.n)) THEN {}
              ELSE IF Follows(e, Natural(at, WSizeOf(Lay(s), t), WAlignOf(Lay(s), t), e.n)) THEN {"packed"}
              ELSE {"bulk array"})

Faults(e) == CASE e.e = "bulk" -> BulkFaults(e) [] e.e = "add" -> AddFaults(e) [] e.e = "put" -> PutFaults(e) [] e.e = "panic" -> {"panic"}

Init == s \in 1..Len(Sessions) /\ l = 1 /\ at = <<0, 0>>
Next == /\ l <= Len(Ev(s))
        /\ LET e == Ev(s)[l]  F == Faults(e) \cap Checked
           IN /\ F # {} => PrintT("@@" \o ToJson([s |-> s, l |-> l, at |-> at, faults |-> F, ty |-> IF e.e = "panic" THEN -1 ELSE e.ty, lay |-> Lay(s)]))
              /\ at' = IF e.e = "panic" THEN at ELSE IF e.e = "bulk" THEN e.held ELSE WEnd(Lay(s), at, TypeOf(e.ty), IF e.e = "add" THEN 1 ELSE e.n)
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_vars

\* The pairs count like the integers they stand for, wherever those suffice.
ASSUME \A a \in {0, 1, 15, 16, 17, Base - 1, Base, Base + 5, 3 * Base - 1}, al \in {1, 4, 16, 256, Base, 2 * Base} :
         /\ WRoundUp(W(a), al) = W(RoundUp(a, al))
         /\ WAdd(W(a), W(a + al)) = W(a + a + al)
         /\ WMul(7, W(a)) = W(7 * a)
=============================================================================
