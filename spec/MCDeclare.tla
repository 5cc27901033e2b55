----------------------------- MODULE MCDeclare -----------------------------
(* Exhaustive exploration of the derive machine within small constants. *)
EXTENDS Declare
CONSTANTS Alphabet, MaxFields, MaxDecls

Terms == Alphabet \cup { [k |-> "ref", d |-> i] : i \in 1..Len(decls) }
Init == DeclareInit
Next == \/ /\ Len(cur) < MaxFields /\ Len(decls) < MaxDecls
           /\ \E t \in Terms : AddField("f", "", t)
        \/ /\ Len(decls) < MaxDecls - 1 /\ Close("S")
Spec == Init /\ [][Next]_dvars

WideAlphabet == Numeric
ClassAlphabet == ClassReps
NestAlphabet == { Scalar("float"), Vec("float", 2), Vec("float", 3), Vec("double", 3), Mat("float", 2) }
ASSUME PrimitivesAreGlsl

DynAlphabet == { Scalar("float"), Vec("float", 3), Dyn(Scalar("float")), Dyn(Vec("double", 3)), Custom(4, 512), Dyn(Custom(4, 512)) }
=============================================================================
