----------------------------- MODULE GenBuffer -----------------------------
(***************************************************************************)
(* Scripts for the real writers: operations over a vocabulary of types,    *)
(* and how the output answers.  Breadth-first for all short scripts and    *)
(* all single faults, -simulate for long ones.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Types,       \* set of vocabulary indices (of layout Lay)
          Lay, OpSet(_), MinOps, MaxOps,
          Kinds,       \* how the output may answer: subset of {"I","E","Z","1","2","3","5"}
          MaxFaults, MaxGap, Caps, Sizer
VARIABLES ops, sched, nf, cap, phase
vars == <<ops, sched, nf, cap, phase>>

S(n) == ToString(n)
RECURSIVE Fs(_)
Fs(n) == IF n = 0 THEN "" ELSE "F," \o Fs(n-1)

Init == ops = <<>> /\ sched = "" /\ nf = 0 /\ cap \in Caps /\ phase = "ops"
AddOp == phase = "ops" /\ Len(ops) < MaxOps /\ \E o \in OpSet(Types) : ops' = Append(ops, o)
         /\ UNCHANGED <<sched, nf, cap, phase>>
EndOps == phase = "ops" /\ Len(ops) >= MinOps /\ phase' = (IF MaxFaults = 0 THEN "done" ELSE "sched")
          /\ UNCHANGED <<ops, sched, nf, cap>>
AddFault == phase = "sched" /\ nf < MaxFaults /\ \E g \in 0..MaxGap, k \in Kinds :
              sched' = sched \o Fs(g) \o k \o "," /\ nf' = nf + 1
            /\ UNCHANGED <<ops, cap, phase>>
EndSched == phase = "sched" /\ nf > 0 /\ phase' = "done" /\ UNCHANGED <<ops, sched, nf, cap>>
Next == AddOp \/ EndOps \/ AddFault \/ EndSched
Spec == Init /\ [][Next]_vars

RECURSIVE Join(_)
Join(o) == IF o = <<>> THEN "" ELSE " ; " \o Head(o) \o Join(Tail(o))
Script == Lay \o " " \o (IF Sizer THEN "1" ELSE "0") \o " " \o S(cap) \o " " \o (IF sched = "" THEN "-" ELSE sched) \o Join(ops)
Emit == phase = "done" => PrintT("@@" \o ToJson([x |-> Script]))

(****************************** operations *********************************)
One(t)     == { "w " \o S(v) : v \in t } \cup { "d " \o S(v) : v \in t }
Writes(t)  == { "w " \o S(v) : v \in t }
Slices(t, ns)  == { "s " \o S(v) \o " " \o S(n) : v \in t, n \in ns } \cup { "l " \o S(v) \o " " \o S(n) : v \in t, n \in ns }
Iters(t, ns, hs) == { "i " \o S(v) \o " " \o S(n) \o " " \o S(h) : v \in t, n \in ns, h \in hs }
Panics(t, ns) == { "p " \o S(v) \o " " \o S(n) : v \in t, n \in ns }
Pairs(t)   == { S(v) \o "," \o S(w) : v \in t, w \in t }
Triples(t) == { S(v) \o "," \o S(w) \o "," \o S(x) : v \in t, w \in t, x \in t }
Multis(t)  == { "m " \o p : p \in Pairs(t) } \cup { k \o S(n) \o " " \o p : k \in {"ms ", "mi "}, n \in {0, 1, 3}, p \in Pairs(t) }
Mixed(t)   == { "x " \o p : p \in Pairs(t) }
Queries(t) == { "q " \o S(v) : v \in t } \cup { "qs " \o S(v) \o " " \o S(n) : v \in t, n \in {0, 1, 2, 5} }
MultiQueries(t) == { "qm " \o S(n) \o " " \o p : n \in {1, 3}, p \in Pairs(t) }
\* Values of one user type that write different amounts; the first writes something.
RaggedOf(v, w, x) == { v \o "/" \o w \o "," \o x \o "/" \o v, v \o "," \o w \o "/-/" \o x, v \o "/" \o v \o "/" \o w \o "," \o v \o "," \o x \o "/-",
                       v \o "/" \o v \o "," \o w \o "/" \o x \o "/" \o x }
RaggedLists(t) == UNION { RaggedOf(S(v), S(w), S(x)) : v \in t, w \in t, x \in t }
Ragged(t)  == { k \o r : k \in {"vs ", "vi "}, r \in RaggedLists(t) }
RaggedQueries(t) == { "qv " \o r : r \in RaggedLists(t) }
Huge == 1000000000
=============================================================================
