------------------------------ MODULE Declare ------------------------------
(***************************************************************************)
(* The derive as a state machine, shaped like the code.                    *)
(*                                                                         *)
(* A program is a sequence of struct declarations.  A declaration is built *)
(* field by field; a later field may use an earlier declaration as type.   *)
(* For each layout the machine keeps what the generated code computes: the *)
(* running end offset, the padding inserted after every field (known only  *)
(* once the next field, or the end of the struct, is seen), and the        *)
(* alignment so far (module Impl).  The invariants at the end say that the *)
(* result is nevertheless what the standard (module Glsl) prescribes.      *)
(***************************************************************************)
EXTENDS Hosts, Impl, SequencesExt

VARIABLES
  decls,    \* closed declarations: sequence of [fields, imp] -- see Close
  cur,      \* fields of the open declaration: sequence of [name, host, t]
  alg       \* per layout: [offs, end, amax] of the open declaration
dvars == <<decls, cur, alg>>

\* A field type is a term, or a reference [k |-> "ref", d |-> index into decls].
ImplOf(lay, t) == IF t.k = "ref" THEN decls[t.d].imp[lay] ELSE ImplOfTerm(lay, t)

\* The term a reference stands for.
RECURSIVE Resolve(_)
Resolve(t) == IF t.k = "ref"
              THEN [k |-> "struct", name |-> decls[t.d].name, f |-> [i \in 1..Len(decls[t.d].fields) |-> Resolve(decls[t.d].fields[i].t)]]
              ELSE IF t.k = "dyn" THEN [t EXCEPT !.t = Resolve(@)] ELSE t

EmptyAlg == [lay \in Layouts |-> StructStart(lay)]

DeclareInit == decls = <<>> /\ cur = <<>> /\ alg = EmptyAlg

AddField(name, host, t) ==
  /\ cur' = Append(cur, [name |-> name, host |-> host, t |-> t])
  /\ alg' = [lay \in Layouts |-> StructField(alg[lay], ImplOf(lay, t))]
  /\ UNCHANGED decls

ClosedImp == [lay \in Layouts |-> StructEnd(alg[lay])]

Close(name) ==
  /\ cur # <<>>
  /\ decls' = Append(decls, [name |-> name, fields |-> cur, imp |-> ClosedImp])
  /\ cur' = <<>>
  /\ alg' = EmptyAlg

(****************************** properties *********************************)
ResolvedCur == [i \in 1..Len(cur) |-> Resolve(cur[i].t)]
CurTerm == [k |-> "struct", f |-> ResolvedCur]

\* C01, C02: the running algorithm agrees with the standard's member offsets ...
MembersWhereGlslPutsThem ==
  \A lay \in Layouts : alg[lay].offs = MemberOffsets(lay, ResolvedCur)
\* ... and so do every leaf (component, column, nested member), size and alignment.
ClosedIsGlsl ==
  cur # <<>> => \A lay \in Layouts :
    LET imp == ClosedImp[lay]
        lv  == Leaves(lay, CurTerm)
    IN /\ imp.size = SizeOf(lay, CurTerm)
       /\ imp.align = AlignOf(lay, CurTerm)
       /\ imp.leaves = [i \in 1..Len(lv) |-> lv[i].o]
\* C04, C17: repr(C) inserts no padding of its own: every field offset and the
\* total size are already multiples of what Rust requires.
NoImplicitPadding ==
  cur # <<>> => \A lay \in Layouts :
    /\ \A i \in 1..Len(cur) : alg[lay].offs[i] % ImplOf(lay, cur[i].t).rust = 0
    /\ ClosedImp[lay].size % ClosedImp[lay].rust = 0
    /\ ClosedImp[lay].rust <= 8
\* C03: the primitive tables are the standard's.
PrimitivesAreGlsl ==
  \A lay \in Layouts, t \in Numeric :
    LET i == ImplNumeric(lay, t)  lv == Leaves(lay, t)
    IN i.size = SizeOf(lay, t) /\ i.align = AlignOf(lay, t) /\ i.leaves = [j \in 1..Len(lv) |-> lv[j].o]
\* Members are in bounds, in order and disjoint.
MembersDisjoint ==
  cur # <<>> => \A lay \in Layouts :
    LET lv == Leaves(lay, CurTerm)
    IN \A i \in 1..(Len(lv)-1) : lv[i].o + lv[i].z <= lv[i+1].o
Std430NoLarger ==
  cur # <<>> => ClosedImp["std430"].size <= ClosedImp["std140"].size
AlignmentsArePowersOfTwo ==
  cur # <<>> => \A lay \in Layouts : ClosedImp[lay].align \in {1,2,4,8,16,32,64,128,256,512,1024,2048,4096}
SizeIsMultipleOfAlign ==
  cur # <<>> => \A lay \in Layouts : ClosedImp[lay].size % ClosedImp[lay].align = 0
=============================================================================
