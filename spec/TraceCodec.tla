----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Decides whether recorded sessions of the real code are behaviours of    *)
(* the shared-buffer model (module Codec).                                 *)
(*                                                                         *)
(* A session is one converted type in one layout: what the type declares   *)
(* about itself, then uploads (CPU value -> bytes), shader writes, casts   *)
(* and downloads (bytes -> CPU value).  Each event is one action; an       *)
(* action the model does not allow is reported with the names of the rules *)
(* it breaks, and the rest of the session is still checked.                *)
(***************************************************************************)
EXTENDS Codec, Json
CONSTANTS TypesFile, TraceFile,
          Checked      \* names of the rules this run decides

Types    == ndJsonDeserialize(TypesFile)
Sessions == ndJsonDeserialize(TraceFile)
T(s)  == Types[Sessions[s].ty + 1].t
L(s)  == Sessions[s].lay
Ev(s) == Sessions[s].ev

VARIABLES s,      \* which session
          l,      \* next event
          lv,     \* leaves of its type in its layout
          mem,    \* bytes of the shared buffer
          up,     \* value of the upload that put them there, or <<>>
          last    \* <<value, bytes>> of the upload before
vars == <<s, l, lv, mem, up, last>>

If(b, f) == IF b THEN {} ELSE {f}

\* Rules about a type as such.
HeaderFaults(x) ==
  If(x.align = AlignOf(x.lay, T(s)), "align") \cup If(x.size = SizeOf(x.lay, T(s)), "size")

NonZero(b) == Cardinality({i \in DOMAIN b : b[i] # 0})
RECURSIVE Total(_, _)
Total(v, k) == IF k > Len(v) THEN 0 ELSE NonZero(v[k]) + Total(v, k+1)

BoolsPlaced(v, img) ==
  \A k \in 1..Len(lv) : lv[k].c = "bool" => v[k] = Slice(img, lv[k].o, 4)
BoolsRead(v) ==
  \A k \in 1..Len(lv) : lv[k].c = "bool" => v[k] = ReadLeaf("bool", Slice(mem, lv[k].o, 4))

UpFaults(e) ==
  LET placed == PlacedAt(lv, e.v, e.img)
  IN If(Len(e.img) = SizeOf(L(s), T(s)), "size")
     \cup If(placed, "place")
     \* Where members are is the business of "place": with members elsewhere, the bytes
     \* beyond theirs must still be zero.
     \cup If(IF placed THEN PaddingZero(lv, e.img) ELSE NonZero(e.img) <= Total(e.v, 1), "pad")
     \cup If(last = <<>> \/ last[1] # e.v \/ last[2] = e.img, "determinism")
     \cup If(BoolsPlaced(e.v, e.img), "bool")
     \cup If(e.size = Len(e.img), "length")

DownFaults(e) ==
  If(e.v = [k \in 1..Len(lv) |-> ReadLeaf(lv[k].c, Slice(mem, lv[k].o, lv[k].z))], "read")
  \cup If(up = <<>> \/ up = e.v, "roundtrip")
  \cup If(BoolsRead(e.v), "bool")

CastFaults(e) == If(e.img = mem, "cast")
GpuFaults(e)  == If(Len(e.img) = Sessions[s].size, "length")

\* Every word of a range, stored in one boolean of an arbitrary buffer: the words that
\* read back as false.  Only zero may.
ScanFaults(e) ==
  If(/\ e.leaf \in 1..Len(lv) /\ lv[e.leaf].c = "bool" /\ lv[e.leaf].o = e.at
     /\ \A i \in 1..Len(e.sample) : e.sample[i] = <<0,0,0,0>>
     /\ e.falses = (IF e.from0 THEN <<0, 1>> ELSE <<0, 0>>), "bool")

Faults(e) == CASE e.e = "up"    -> UpFaults(e)
               [] e.e = "down"  -> DownFaults(e)
               [] e.e = "cast"  -> CastFaults(e)
               [] e.e = "gpu"   -> GpuFaults(e)
               [] e.e = "scan"  -> ScanFaults(e)
               [] e.e = "panic" -> {"panic"}

Report(F, e) ==
  F # {} => PrintT("@@" \o ToJson([s |-> s, l |-> l, ty |-> Sessions[s].ty, lay |-> L(s), faults |-> F, e |-> e]))

Init == /\ s \in 1..Len(Sessions)
        /\ l = 0
        /\ lv = Leaves(L(s), T(s))
        /\ mem = <<>> /\ up = <<>> /\ last = <<>>
Header == /\ l = 0 /\ l' = 1
          /\ Report((IF Len(Ev(s)) > 0 /\ Ev(s)[1].e = "scan" THEN {} ELSE HeaderFaults(Sessions[s])) \cap Checked, "header")
          /\ UNCHANGED <<s, lv, mem, up, last>>
Event(name) == /\ l \in 1..Len(Ev(s)) /\ Ev(s)[l].e = name
               /\ Report(Faults(Ev(s)[l]) \cap Checked, name)
               /\ l' = l + 1 /\ UNCHANGED <<s, lv>>
Upload   == /\ Event("up")
            /\ mem' = Ev(s)[l].img /\ up' = Ev(s)[l].v /\ last' = <<Ev(s)[l].v, Ev(s)[l].img>>
Shader   == /\ Event("gpu")
            /\ mem' = Ev(s)[l].img /\ up' = <<>> /\ last' = <<>>
Cast     == Event("cast") /\ UNCHANGED <<mem, up, last>>
Download == Event("down") /\ UNCHANGED <<mem, up, last>>
Panic    == Event("panic") /\ UNCHANGED <<mem, up, last>>
Scan     == Event("scan") /\ UNCHANGED <<mem, up, last>>
Next == Scan \/ Header \/ Upload \/ Shader \/ Cast \/ Download \/ Panic
Spec == Init /\ [][Next]_vars

\* Nothing but events moves a session: used by the driver to know that all were read.
ASSUME PrintT("@@" \o ToJson([sessions |-> Len(Sessions)]))
=============================================================================
