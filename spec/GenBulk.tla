------------------------------ MODULE GenBulk ------------------------------
(***************************************************************************)
(* Long sessions for the real writers: few operations, many values each,   *)
(* some of them repeated many times.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Types,     \* vocabulary indices
          Lay,
          Kinds,     \* of operations: "slice", "old", "iter", "vague", "each", "direct"
          Counts,    \* how many values
          Prefixes,  \* how many single values of whatever type come first
          Pieces,    \* how much the output takes at a time; 0 any amount
          Repeats,   \* how often the whole is done
          MinOps, MaxOps
VARIABLES ops, pre, piece, repeat, phase
vars == <<ops, pre, piece, repeat, phase>>

S(n) == ToString(n)
Op(k, t, n) == " ; " \o k \o " " \o S(t) \o " " \o S(n)
Init == ops = <<>> /\ phase = "pre" /\ pre \in Prefixes /\ piece \in Pieces /\ repeat \in Repeats
Before == /\ phase = "pre"
          /\ IF pre = 0 THEN phase' = "ops" /\ UNCHANGED <<ops, pre>>
             ELSE \E t \in Types : ops' = Append(ops, Op("each", t, 1)) /\ pre' = pre - 1 /\ UNCHANGED phase
          /\ UNCHANGED <<piece, repeat>>
Pick == /\ phase = "ops" /\ Len(ops) < MaxOps
        /\ \E t \in Types, n \in Counts, k \in Kinds : ops' = Append(ops, Op(k, t, n))
        /\ UNCHANGED <<pre, piece, repeat, phase>>
End == phase = "ops" /\ Len(ops) >= MinOps /\ phase' = "done" /\ UNCHANGED <<ops, pre, piece, repeat>>
Next == Before \/ Pick \/ End
Spec == Init /\ [][Next]_vars

RECURSIVE Join(_)
Join(o) == IF o = <<>> THEN "" ELSE Head(o) \o Join(Tail(o))
Emit == phase = "done" => PrintT("@@" \o ToJson([x |-> Lay \o " " \o S(piece) \o " " \o S(repeat) \o Join(ops)]))
=============================================================================
