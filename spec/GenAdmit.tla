------------------------------ MODULE GenAdmit ------------------------------
(***************************************************************************)
(* Uses to compile: every stranger in every form, alone among fields of    *)
(* the usual kinds, and for each form the same with nothing strange.       *)
(***************************************************************************)
EXTENDS Admit, Json
CONSTANT Usual      \* hosts
VARIABLES use, done
vars == <<use, done>>
Kinds == Layouts \cup {"glsl"}
U(f, k, ts) == [form |-> f, kind |-> k, types |-> ts]
All(k) == Strangers \cup DeriverNames \cup { h.h : h \in Usual } \cup (IF k = "glsl" THEN Nameless ELSE StrangersOf(k))
\* Forms that make sense for a kind.
ValueForms(k) == IF k = "glsl" THEN {"name"} ELSE {"convert", "read", "write", "slice", "iter", "size", "valuesize"} \cup (IF k = "std140" THEN {"wrap"} ELSE {})
Init == use \in { U("", k, <<>>) : k \in Kinds } /\ done = FALSE
\* These in every position among three.
Everywhere == { "u8", "u64", "Plain", "mint::Vector3<u8>", "mint::Vector3<f32>", "bool", "Only140", "Only430" }
Add  == /\ use.form = "" /\ Len(use.types) < 3
        /\ \E t \in All(use.kind) :
              LET ts == Append(use.types, t)
                  odd == { i \in 1..Len(ts) : ts[i] # "f32" }
              IN \* at most one that is not simply a float; most of those come last, after one float at most
                 /\ Cardinality(odd) <= 1
                 /\ \A i \in odd : ts[i] \in Everywhere \/ (i = Len(ts) /\ i <= 2)
                 /\ use' = [use EXCEPT !.types = ts]
        /\ UNCHANGED done
Declare == /\ use.form = "" /\ ~done
           /\ \E f \in Declarations :
                 /\ f \in EmptyDeclarations <=> use.types = <<>>
                 /\ f = "transparent" => Len(use.types) = 1
                 /\ f # "named" => \A i \in 1..Len(use.types) : Known(use.types[i], use.kind) /\ use.types[i] \in {"f32", "mint::Vector3<f32>"}
                 /\ use' = [use EXCEPT !.form = f]
           /\ done' = TRUE
Value == /\ use.form = "" /\ Len(use.types) = 1 /\ ~done
         /\ \E f \in ValueForms(use.kind) : use' = [use EXCEPT !.form = f]
         /\ done' = TRUE
Next == ~done /\ (Add \/ Declare \/ Value)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(use))
\* The table of hosts and the list of strangers do not overlap.
NoStrangerIsKnown == \A s \in Strangers : \A k \in Kinds : ~Known(s, k)
ASSUME NoStrangerIsKnown
=============================================================================
