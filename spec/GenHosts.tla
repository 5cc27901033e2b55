------------------------------ MODULE GenHosts ------------------------------
(* Prints the table of supported Rust types. *)
EXTENDS Hosts, Json
SetToSeqLays(L) == (IF "std140" \in L THEN <<"std140">> ELSE <<>>) \o (IF "std430" \in L THEN <<"std430">> ELSE <<>>)
PrintAll(H) == \A h \in H : PrintT("@@" \o ToJson([h |-> h.h, t |-> h.t, lib |-> h.lib, lays |-> SetToSeqLays(h.lays),
                                               g |-> IF h.t \in Numeric THEN GlslName(h.t) ELSE ""]))
ASSUME PrintAll(AllHosts \cup UserHosts \cup DynHosts)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
