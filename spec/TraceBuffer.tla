---------------------------- MODULE TraceBuffer ----------------------------
(***************************************************************************)
(* Decides whether recorded sessions of the real writers, sizers and size  *)
(* queries follow the rules of module Buffer.  One session is one writer   *)
(* over one output, from new() until it is dropped.  Sessions are judged   *)
(* one by one, though some were recorded in each other's company: between  *)
(* each other's calls, from within each other's outputs and iterators, or  *)
(* in two threads.  No session may notice.                                 *)
(***************************************************************************)
EXTENDS Buffer, Codec, Json
CONSTANTS TypesFile, TraceFile, Checked

LOCAL INSTANCE Functions
Types    == ndJsonDeserialize(TypesFile)
Sessions == ndJsonDeserialize(TraceFile)
Lay(s) == Sessions[s].lay
Ev(s)  == Sessions[s].ev
TypeOf(i) == Types[i + 1].t

VARIABLES s, l, at, torn
vars == <<s, l, at, torn>>

Sequences_ == {"slice", "iter", "multislice", "multiiter", "mixed", "paniciter"}
NonZero(b) == Cardinality({i \in DOMAIN b : b[i] # 0})
Total(v) == FoldFunction(LAMBDA x, sum : sum + NonZero(x), 0, v)
TotalItems(items) == FoldFunction(LAMBDA x, sum : sum + Total(x.v), 0, items)

Tag(pre, F) == { pre \o f : f \in F }

\* Rules about the items themselves, in absolute terms (what GLSL says they are).
ItemFaults(c) ==
  If(\A i \in 1..Len(c.items) :
        LET t == TypeOf(c.items[i].ty)
        IN c.items[i].al = AlignOf(Lay(s), t) /\ c.items[i].b = Image(Lay(s), t, c.items[i].v), "item")

GlslElement(t) == t.k \in {"scalar", "vec", "mat", "struct"}
ArrayFaults(c) ==
  IF ~c.array \/ c.items = <<>> \/ ~GlslElement(TypeOf(c.items[1].ty)) THEN {}
  ELSE IF ~NotGlslArray(Lay(s), at, c, TypeOf(c.items[1].ty)) THEN {}
  ELSE IF Packed(at, c) THEN {"packed"} ELSE {"array"}

CallRules(c) ==
  LET F == CallFaults(Lay(s), at, c)
  IN F \cup (IF c.k \in Sequences_ THEN Tag("seq ", F) ELSE {})
       \cup (IF SawError(c) \/ Partial(c) \/ \E i \in 1..Len(c.calls) : c.calls[i][2] = -1 THEN Tag("faulty ", F) ELSE {})
       \cup (IF "item" \in Checked THEN ItemFaults(c) ELSE {})
       \cup ArrayFaults(c)
       \cup SizerFaults(at, c)
       \cup If(NonZero(c.app) <= TotalItems(c.items), "pad")
       \cup If(c.ret # -2 \/ c.panics, "panic")

Report(F, e) ==
  F # {} => PrintT("@@" \o ToJson([s |-> s, l |-> l, no |-> Sessions[s].no, lay |-> Lay(s), at |-> at, faults |-> F,
                                   k |-> e.k, ty |-> IF e.items = <<>> THEN -1 ELSE e.items[1].ty]))

\* The harness marks calls by an iterator that gives up through their kind.
WithPanics(e) == e @@ [panics |-> e.k = "paniciter"]

Init == s \in 1..Len(Sessions) /\ l = 1 /\ at = 0 /\ torn = FALSE
Call == /\ l <= Len(Ev(s)) /\ Ev(s)[l].e = "call"
        /\ LET c == WithPanics(Ev(s)[l])
               F == IF torn THEN {} ELSE CallRules(c) \cap Checked
           IN /\ Report(F, c)
              \* After a rejected call nothing more is claimed about the session.
              /\ torn' = (torn \/ Tears(c) \/ F \ {"packed"} # {})
              /\ at' = at + Len(c.app)
        /\ l' = l + 1 /\ UNCHANGED s
Query == /\ l <= Len(Ev(s)) /\ Ev(s)[l].e = "query"
         /\ Report(QueryFaults(Ev(s)[l]) \cap Checked, Ev(s)[l])
         /\ l' = l + 1 /\ UNCHANGED <<s, at, torn>>
\* The writer goes away; what it took it has passed on long before.
Drop == /\ l <= Len(Ev(s)) /\ Ev(s)[l].e = "drop"
        /\ LET late == If(Ev(s)[l].app = <<>>, "bytes") \cup If(Ev(s)[l].app = <<>>, "seq bytes") \cup If(Ev(s)[l].app = <<>>, "faulty bytes")
           IN Report(IF torn THEN {} ELSE late \cap Checked, [k |-> "drop", items |-> <<>>])
        /\ l' = l + 1 /\ UNCHANGED <<s, at, torn>>
Next == Call \/ Query \/ Drop
Spec == Init /\ [][Next]_vars
ASSUME PrintT("@@" \o ToJson([sessions |-> Len(Sessions)]))
=============================================================================
