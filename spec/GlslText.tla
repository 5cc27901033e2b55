------------------------------ MODULE GlslText ------------------------------
(***************************************************************************)
(* The GLSL declaration of a struct, as a sequence of tokens, and what a   *)
(* shader compiler makes of it.                                            *)
(***************************************************************************)
EXTENDS Codec

\* struct NAME { (TYPE NAME ;)+ } ;
Bad == [ok |-> FALSE, name |-> "", members |-> <<>>]
Punct == {"{", "}", ";", ",", "#", "(", ")", "[", "]", "<", ">", ":", "=", ".", "-", "+", "*", "/", "&", "|", "!", "?", "'", "\"", "@", "$"}
RECURSIVE ParseMembers(_, _)
ParseMembers(tk, acc) ==
  CASE tk = <<"}", ";">> /\ acc # <<>> -> [ok |-> TRUE, members |-> acc]
    [] Len(tk) >= 5 /\ tk[3] = ";" /\ tk[1] \notin Punct /\ tk[2] \notin Punct
         -> ParseMembers(SubSeq(tk, 4, Len(tk)), Append(acc, [ty |-> tk[1], name |-> tk[2]]))
    [] OTHER -> [ok |-> FALSE, members |-> <<>>]
Parse(tk) ==
  IF Len(tk) >= 8 /\ tk[1] = "struct" /\ tk[3] = "{" /\ tk[2] \notin Punct
  THEN LET m == ParseMembers(SubSeq(tk, 4, Len(tk)), <<>>)
       IN IF m.ok THEN [ok |-> TRUE, name |-> tk[2], members |-> m.members] ELSE Bad
  ELSE Bad

\* Words that cannot be member or struct names in GLSL (those in the vocabulary at hand).
Reserved == { "struct", "in", "out", "inout", "const", "if", "else", "for", "while", "do", "break", "continue", "return", "true", "false",
              "static", "enum", "union", "typedef", "template", "this", "extern", "input", "output", "void", "float", "int", "uint", "bool",
              "double", "class", "interface", "inline", "public", "namespace", "using", "default", "switch", "case", "buffer", "uniform" }
              \cup { GlslName(t) : t \in Numeric }

\* What a type name means, given the structs declared so far: a sequence of [name, t].
Meaning(env, ty) ==
  IF \E t \in Numeric : GlslName(t) = ty THEN CHOOSE t \in Numeric : GlslName(t) = ty
  ELSE IF \E i \in 1..Len(env) : env[i].name = ty
  THEN env[CHOOSE i \in 1..Len(env) : env[i].name = ty].t
  ELSE [k |-> "unknown", name |-> ty]
Declared(env, p) == [k |-> "struct", name |-> p.name, f |-> [i \in 1..Len(p.members) |-> Meaning(env, p.members[i].ty)]]

RECURSIVE Known(_)
Known(t) == IF t.k = "unknown" THEN FALSE ELSE IF t.k = "struct" THEN \A i \in 1..Len(t.f) : Known(t.f[i]) ELSE TRUE

\* The structs of a program, read in order.
RECURSIVE Environment(_, _)
Environment(texts, env) ==
  IF texts = <<>> THEN env
  ELSE LET p == Parse(Head(texts))
       IN Environment(Tail(texts), Append(env, [name |-> p.name, t |-> Declared(env, p)]))

\* Does the declaration mean the type it was generated for?  (Names of structs aside.)
RECURSIVE Same(_, _)
Same(a, b) ==
  IF a.k # b.k THEN FALSE
  ELSE IF a.k = "struct" THEN Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : Same(a.f[i], b.f[i])
  ELSE a = b
=============================================================================
