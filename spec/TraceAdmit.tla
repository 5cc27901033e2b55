----------------------------- MODULE TraceAdmit -----------------------------
(***************************************************************************)
(* Decides whether the compiler let exactly those uses through that have a *)
(* layout (or a GLSL name).  An event is a use and whether it compiled.    *)
(***************************************************************************)
EXTENDS Admit, Json
CONSTANTS TraceFile
Uses == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l = 1
Fault(u) == IF u.accepted = Admitted(u) THEN {} ELSE IF u.accepted THEN {"accepted"} ELSE {"refused"}
Next == /\ l <= Len(Uses)
        /\ Fault(Uses[l]) # {} => PrintT("@@" \o ToJson([l |-> l, faults |-> Fault(Uses[l])]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
