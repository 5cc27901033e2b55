----------------------------- MODULE TraceGlsl -----------------------------
(***************************************************************************)
(* Decides whether generated GLSL declares the structs whose bytes are     *)
(* produced.  A session is one program: per declaration the text (as       *)
(* tokens), the exposed name and member list; and recorded conversions of  *)
(* its last declaration in both layouts.                                   *)
(***************************************************************************)
EXTENDS GlslText, Json
CONSTANTS TraceFile, Checked
Sessions == ndJsonDeserialize(TraceFile)

VARIABLES s, l
vars == <<s, l>>
If(b, f) == IF b THEN {} ELSE {f}

\* want: the declaration as the program has it; got: what the derive produced.
Texts(n) == [i \in 1..n |-> Sessions[s].got[i].tokens]
DeclFaults(i) ==
  LET want == Sessions[s].want[i]
      got  == Sessions[s].got[i]
      p    == Parse(got.tokens)
      env  == Environment(Texts(i-1), <<>>)
      t    == Declared(env, p)
  IN If(p.ok, "syntax")
     \cup If(p.name = want.name /\ p.name \notin Reserved, "struct name")
     \cup If([j \in 1..Len(p.members) |-> p.members[j].name] = want.names, "member names")
     \cup If(\A j \in 1..Len(p.members) : p.members[j].name \notin Reserved, "member names")
     \cup If(got.const = p.name, "name constant")
     \cup If(got.fields = [j \in 1..Len(p.members) |-> <<p.members[j].ty, p.members[j].name>>], "field list")
     \cup If(Known(t) /\ Same(t, want.t), "member types")

\* The bytes, read through the declaration.
BytesFaults(c) ==
  LET env  == Environment(Texts(Len(Sessions[s].got)), <<>>)
      t    == env[Len(env)].t
      lv   == Leaves(c.lay, t)
      size == SizeOf(c.lay, t)
  IN IF ~Known(t) THEN {"relayout"}
     ELSE If(c.align = AlignOf(c.lay, t) /\ c.size = size, "relayout")
          \cup If(\A i \in 1..Len(c.ups) : Len(c.ups[i].img) = size /\ PlacedAt(lv, c.ups[i].v, c.ups[i].img), "relayout")

\* Built-in types: [name, t].
NameFaults(c) == If(c.name = GlslName(c.t), "type name")

Items(x) == Len(x.got) + Len(x.bytes) + Len(x.hosts)
Faults(x, n) == CASE n <= Len(x.got) -> DeclFaults(n)
                  [] n > Len(x.got) /\ n <= Len(x.got) + Len(x.bytes) -> BytesFaults(x.bytes[n - Len(x.got)])
                  [] OTHER -> NameFaults(x.hosts[n - Len(x.got) - Len(x.bytes)])
Init == s \in 1..Len(Sessions) /\ l = 1
Next == /\ l <= Items(Sessions[s])
        /\ LET F == Faults(Sessions[s], l) \cap Checked
           IN F # {} => PrintT("@@" \o ToJson([s |-> s, l |-> l, faults |-> F]))
        /\ l' = l + 1 /\ s' = s
Spec == Init /\ [][Next]_vars
=============================================================================
