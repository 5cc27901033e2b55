----------------------------- MODULE BufferImpl -----------------------------
(***************************************************************************)
(* The writer as the code runs it, one request to the output per step, on  *)
(* an output that may take all of a request, a part of it, interrupt, or   *)
(* refuse -- at every step.                                                *)
(*                                                                         *)
(* Checked: every finished call satisfies the rules of module Buffer.      *)
(***************************************************************************)
EXTENDS Buffer
CONSTANTS Lay, Kinds,      \* the items a script may use
          MaxItems, MaxCalls, MaxFaults,
          CountsLate,      \* TRUE: padding counted after all of it is written (as before the repair)
          Faulty           \* may the output do anything but accept?

VARIABLES pc,      \* "idle", "item", "pad", "value"
          todo,    \* items of the call still to do
          off,     \* the writer's own count
          out,     \* bytes the output holds
          pend,    \* bytes of the request that the output has not yet taken
          left,    \* padding bytes still to write
          gap,     \* padding bytes of this item
          first,   \* offset to return, or -1
          cur,     \* the call so far
          faults,  \* how often the output misbehaved
          ncalls, torn, done
vars == <<pc, todo, off, out, pend, left, gap, first, cur, faults, ncalls, torn, done>>

Scripts == UNION { [1..n -> Kinds] : n \in 0..MaxItems }
NoCall == [items |-> <<>>, array |-> FALSE, panics |-> FALSE, ret |-> 0, len |-> 0, app |-> <<>>, calls |-> <<>>]

Init == /\ pc = "idle" /\ todo = <<>> /\ off = 0 /\ out = <<>> /\ pend = <<>> /\ left = 0 /\ gap = 0
        /\ first = -1 /\ cur = NoCall /\ faults = 0 /\ ncalls = 0 /\ torn = FALSE
        /\ done = [at |-> 0, c |-> NoCall]

Begin == /\ pc = "idle" /\ ncalls < MaxCalls /\ ~torn
         /\ \E items \in Scripts, array \in BOOLEAN :
              /\ array => \A i, j \in 1..Len(items) : items[i].al = items[j].al /\ Len(items[i].b) = Len(items[j].b)
              /\ cur' = [NoCall EXCEPT !.items = items, !.array = array]
              /\ todo' = items
         /\ pc' = "item" /\ first' = -1 /\ ncalls' = ncalls + 1
         /\ UNCHANGED <<off, out, pend, left, gap, faults, torn, done>>

\* align_offset, then one request per padding byte
StartItem == /\ pc = "item" /\ todo # <<>>
             /\ gap' = Gap(off, Head(todo).al) /\ left' = gap'
             /\ IF gap' = 0 THEN pc' = "value" /\ pend' = Head(todo).b
                            ELSE pc' = "pad" /\ pend' = <<0>>
             /\ UNCHANGED <<todo, off, out, first, cur, faults, ncalls, torn, done>>

Finish(ret) ==
  /\ pc' = "idle" /\ todo' = <<>> /\ pend' = <<>> /\ left' = 0 /\ gap' = 0 /\ first' = -1 /\ cur' = NoCall

Return == /\ pc = "item" /\ todo = <<>>
          /\ Finish(0)
          /\ done' = [at |-> Len(out) - Len(cur.app),
                      c |-> [cur EXCEPT !.ret = IF first = -1 THEN off ELSE first, !.len = off]]
          /\ UNCHANGED <<off, out, faults, ncalls, torn>>

\* write_all: what the output does with the request at hand
Log(r) == Append(cur.calls, <<Len(pend), r, 1>>)
Taken(k) == out' = out \o SubSeq(pend, 1, k) /\ cur' = [cur EXCEPT !.calls = Log(k), !.app = @ \o SubSeq(pend, 1, k)]

AcceptAll ==
  /\ pc \in {"pad", "value"} /\ pend # <<>>
  /\ Taken(Len(pend))
  /\ IF pc = "pad"
     THEN /\ off' = (IF CountsLate THEN (IF left = 1 THEN off + gap ELSE off) ELSE off + 1)
          /\ left' = left - 1
          /\ IF left = 1 THEN pc' = "value" /\ pend' = Head(todo).b ELSE pc' = "pad" /\ pend' = <<0>>
          /\ UNCHANGED <<todo, first>>
     ELSE /\ off' = off + Len(Head(todo).b)
          /\ first' = (IF first = -1 THEN off ELSE first)
          /\ todo' = Tail(todo) /\ pc' = "item" /\ pend' = <<>> /\ left' = 0
  /\ UNCHANGED <<gap, faults, ncalls, torn, done>>

AcceptSome ==
  /\ Faulty /\ faults < MaxFaults /\ pc \in {"pad", "value"} /\ Len(pend) > 1
  /\ \E k \in 1..(Len(pend)-1) : Taken(k) /\ pend' = SubSeq(pend, k+1, Len(pend))
  /\ faults' = faults + 1
  /\ UNCHANGED <<pc, todo, off, left, gap, first, ncalls, torn, done>>

Interrupted ==
  /\ Faulty /\ faults < MaxFaults /\ pc \in {"pad", "value"} /\ pend # <<>>
  /\ cur' = [cur EXCEPT !.calls = Log(-1)] /\ faults' = faults + 1
  /\ UNCHANGED <<pc, todo, off, out, pend, left, gap, first, ncalls, torn, done>>

Refused ==
  /\ Faulty /\ faults < MaxFaults /\ pc \in {"pad", "value"} /\ pend # <<>>
  /\ \E r \in {0, -2} :
       /\ done' = [at |-> Len(out) - Len(cur.app),
                   c |-> [cur EXCEPT !.calls = Log(r), !.ret = -1, !.len = off]]
       /\ torn' = Tears(done'.c)
  /\ Finish(-1) /\ faults' = faults + 1
  /\ UNCHANGED <<off, out, ncalls>>

Next == Begin \/ StartItem \/ Return \/ AcceptAll \/ AcceptSome \/ Interrupted \/ Refused
Spec == Init /\ [][Next]_vars /\ WF_vars(StartItem \/ Return \/ AcceptAll)

\* C06, C08, C09
CallsFollowTheRules == CallFaults(Lay, done.at, done.c) = {}
\* Between calls the count is what the output holds.
CountIsHeld == pc = "idle" /\ ~torn => off = Len(out)
\* The output is never rewritten.
AppendOnly == [][IsPrefix(out, out')]_out
\* A call begun on an output that misbehaves finitely often ends.
CallsEnd == (pc # "idle") ~> (pc = "idle")

K == { [al |-> 4, b |-> <<7>>], [al |-> 2, b |-> <<8, 8, 8>>], [al |-> 16, b |-> <<9, 9>>] }
K2 == { [al |-> 4, b |-> <<7, 7, 7, 7>>], [al |-> 8, b |-> <<8, 8, 8, 8, 8, 8, 8, 8>>] }
=============================================================================
