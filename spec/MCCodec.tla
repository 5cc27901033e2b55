------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* Exhaustive interleavings of upload, shader store, shader scribble in    *)
(* padding, and download over small types.  The CPU side uses the offsets  *)
(* the code computes (module Impl); the shader side uses the standard's.   *)
(***************************************************************************)
EXTENDS Codec, Impl
CONSTANT Types

VARIABLES lay, t, mem, val
vars == <<lay, t, mem, val>>
\* val: what the members hold now, per the last writer (ghost).

CompValues(c) == IF c = "bool" THEN {BoolWord(TRUE), BoolWord(FALSE)}
                 ELSE IF c = "double" THEN {<<1,2,3,4,5,6,7,8>>}
                 ELSE {<<1,2,3,4>>, <<0,0,0,9>>}
ShaderWords(c) == IF c = "bool" THEN {<<0,0,0,0>>, <<1,0,0,0>>, <<0,0,2,0>>, <<255,255,255,255>>}
                  ELSE IF c = "double" THEN {<<8,7,6,5,4,3,2,255>>}
                  ELSE {<<9,8,7,255>>}

lv == Leaves(lay, t)
\* Values are varied one leaf at a time from a base value, to keep the state space small.
Base  == [k \in 1..Len(lv) |-> CHOOSE w \in CompValues(lv[k].c) : TRUE]
Values == {Base} \cup { [Base EXCEPT ![k] = w] : k \in 1..Len(lv), w \in UNION { CompValues(lv[j].c) : j \in 1..Len(lv) } }
WellTyped == { v \in Values : \A k \in 1..Len(lv) : v[k] \in CompValues(lv[k].c) }

ImplImage(v) ==
  LET i == Impl(lay, t)
  IN ImageFrom([k \in 1..Len(lv) |-> [o |-> i.leaves[k], z |-> lv[k].z, c |-> lv[k].c]], v, 1,
               [p \in 1..i.size |-> 0])
ImplRead(m) == LET i == Impl(lay, t)
               IN [k \in 1..Len(lv) |-> ReadLeaf(lv[k].c, Slice(m, i.leaves[k], lv[k].z))]

Init == /\ lay \in Layouts /\ t \in Types
        /\ val = Base /\ mem = ImplImage(Base)
Upload   == \E v \in WellTyped : val' = v /\ mem' = ImplImage(v) /\ UNCHANGED <<lay, t>>
Store    == \E k \in 1..Len(lv) : \E w \in ShaderWords(lv[k].c) :
              /\ mem' = ImageFrom(<<lv[k]>>, <<w>>, 1, mem)
              /\ val' = [val EXCEPT ![k] = ReadLeaf(lv[k].c, w)]
              /\ UNCHANGED <<lay, t>>
\* The shader (or the driver) may leave anything in the padding; all of it at once is
\* representative, because no action reads padding selectively.
Scribble == /\ mem' = [p \in 1..Len(mem) |-> IF (p-1) \in Covered(lv) THEN mem[p] ELSE 170]
            /\ UNCHANGED <<lay, t, val>>
Next == Upload \/ Store \/ Scribble
Spec == Init /\ [][Next]_vars

\* C01/C02: what the CPU wrote is where the shader looks; C05: and the other way round.
SharedView == Read(lay, t, mem) = val
\* A download, at any moment, returns what the members hold.
DownloadSeesMembers == ImplRead(mem) = val
\* C04, on upload: only members differ from zero.
UploadClean == [][mem' # mem /\ val' \in WellTyped /\ mem' = ImplImage(val') =>
                    UploadFaults(lay, t, val', mem') = {}]_vars
ImageUnique == \A v \in WellTyped : UploadFaults(lay, t, v, Image(lay, t, v)) = {} /\ ImplImage(v) = Image(lay, t, v)

MCTypes == { Struct(<<Scalar("bool"), Vec("bool", 2)>>), Struct(<<Vec("float", 3), Scalar("bool")>>),
             Struct(<<Scalar("float"), Scalar("double")>>), Mat("float", 2),
             Struct(<<Struct(<<Scalar("bool")>>), Scalar("int")>>) }
=============================================================================
