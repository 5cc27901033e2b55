----------------------------- MODULE GenShapes -----------------------------
(***************************************************************************)
(* Behaviours of the derive machine turned into conformance programs: each *)
(* finished behaviour is printed as one JSON line, with the declarations   *)
(* to compile and the type term each of them stands for.                   *)
(*                                                                         *)
(* Exhaustive (breadth-first) for the small alphabets, random (-simulate)  *)
(* for programs of several long, nested declarations.                      *)
(***************************************************************************)
EXTENDS Declare, Json
CONSTANTS
  Alphabet,    \* set of hosts usable as field types
  Final,       \* hosts for the last field of each declaration; {} for those of Alphabet
  MinLens,     \* sequence: least number of fields of each declaration
  MaxLens,     \* sequence: greatest number of fields of each declaration
  UseRefs,     \* may a field be an earlier declaration?
  NeedRef,     \* must every later declaration use an earlier one?
  MaxLeaves,   \* no declaration grows beyond this many components
  Names,       \* field names to choose from; {} for f0, f1, ...
  DeclNames,   \* struct names to choose from; {} for S1, S2, ...
  Styles       \* ways to write a program down that must not matter

\* want: fields still to add before the open declaration may close; kind: what the
\* next field will be.  Both only steer random walks towards nesting.
\* name: the name picked for what comes next, or "".
VARIABLES want, kind, style, name
gvars == <<decls, cur, alg, want, kind, style, name>>

NumDecls == Len(MinLens)
Nth == Len(decls) + 1
Done == Nth > NumDecls
HasRef == \E i \in 1..Len(cur) : cur[i].t.k = "ref"

Init == DeclareInit /\ want \in MinLens[1]..MaxLens[1] /\ kind \in {"host"} /\ style \in Styles /\ name = ""
\* Names come in a step of their own, so that a random walk weighs names and types separately.
Free   == Names \ { cur[i].name : i \in 1..Len(cur) }
Unused == DeclNames \ { decls[i].name : i \in 1..Len(decls) }
FieldName == IF Names = {} THEN "f" \o ToString(Len(cur)) ELSE name
TypeName  == IF DeclNames = {} THEN "S" \o ToString(Nth) ELSE name
NeedsName == name = "" /\ IF Len(cur) < want THEN Names # {} ELSE DeclNames # {}
Pick == /\ NeedsName
        /\ name' \in (IF Len(cur) < want THEN Free ELSE Unused)
        /\ UNCHANGED <<decls, cur, alg, want, kind>>
Fits(d) == Len(decls[d].imp["std140"].leaves) + Len(alg["std140"].leaves) <= MaxLeaves
Host1 == /\ kind = "host" \/ \A d \in 1..Len(decls) : ~Fits(d)
         /\ \E h \in (IF Final # {} /\ Len(cur) = want - 1 THEN Final ELSE Alphabet) : AddField(FieldName, h.h, h.t)
Ref1  == kind = "ref" /\ \E d \in 1..Len(decls) : Fits(d) /\ AddField(FieldName, decls[d].name, [k |-> "ref", d |-> d])
\* A declaration that needs a reference and has room for one more field only gets it now.
Kinds(first, room, has) == IF ~UseRefs \/ first THEN {"host"}
                           ELSE IF NeedRef /\ ~has /\ room = 1 THEN {"ref"} ELSE {"host", "ref"}
KindNext == kind' \in Kinds(decls = <<>>, want - Len(cur'), \E i \in 1..Len(cur') : cur'[i].t.k = "ref")
Add == /\ ~NeedsName /\ Len(cur) < want /\ (Host1 \/ Ref1)
       /\ want' = want /\ KindNext /\ name' = ""
End == /\ ~NeedsName /\ Len(cur) = want /\ (NeedRef /\ decls # <<>> => HasRef)
       /\ Close(TypeName) /\ name' = ""
       /\ IF Nth = NumDecls THEN want' = 0 /\ kind' = "host"
          ELSE want' \in MinLens[Nth+1]..MaxLens[Nth+1] /\ kind' \in Kinds(FALSE, want', FALSE)
Next == ~Done /\ UNCHANGED style /\ (Pick \/ Add \/ End)
Spec == Init /\ [][Next]_gvars

Program == [style |-> style, decls |-> [i \in 1..Len(decls) |->
              [name |-> decls[i].name, fields |-> [j \in 1..Len(decls[i].fields) |->
                  [n |-> decls[i].fields[j].name, h |-> decls[i].fields[j].host]],
               t |-> Resolve([k |-> "ref", d |-> i]), g |-> [j \in 1..Len(decls[i].fields) |-> Resolve(decls[i].fields[j].t)]]]]
Emit == Done => PrintT("@@" \o ToJson(Program))
EmittedIsGlsl == ClosedIsGlsl /\ MembersWhereGlslPutsThem

(******************************* alphabets *********************************)
AllMembers == MemberHosts
Classes    == { HostFor(t) : t \in ClassReps }
Few        == { HostFor(t) : t \in { Scalar("float"), Vec("float", 2), Vec("float", 3), Vec("double", 3), Mat("float", 2) } }
BaseMembers == BaseHosts
OwnMembers(lay) == OwnHosts(lay)
NoStyle == {"plain"}

\* Longer than tables of names may expect: 63 and 252 characters.
LongName == "a_field_with_a_long_name_that_tells_what_it_is_for_in_the_shade"
VeryLongName == LongName \o LongName \o LongName \o LongName
\* Identifiers that are fine in Rust (some only as r#name) and in GLSL.
GlslSafeNames == { "a", "b1", "_c", "position", "Color", "UPPER", "snake_case_name", "camelCase", "x", "value", "name", "NAME", "FIELDS",
  "ty", "field", "r", "rr", "rtype", "r_fn", "type", "match", "fn", "impl", "move", "loop", "mod", "ref", "use", "where", "async", "await",
  "dyn", "trait", "let", "mut", "pub", "unsafe", "yield", "priv", "override", "virtual", "final", "abstract", "become", "typeof", "unsized",
  "box", "macro", "try", "_pad", "_pad0", "_pad1", "pad", "definition", "s1", "structure",
  LongName, LongName \o "_left", LongName \o "_right", VeryLongName, VeryLongName \o "1" }
\* Identifiers that look like what the derives generate, or are only Rust's business.
OddNames == GlslSafeNames \cup { "_pad2", "_pad7", "_pad12", "__pad0", "__pad1", "___pad0", "_padding", "input", "output", "offset",
  "starting_offset", "alignment", "ALIGNMENT", "Output", "zeroed", "as_std140", "from_std140", "as_bytes", "std140", "crevice", "core", "std",
  "bytemuck", "u8", "usize", "f32", "self_", "in", "struct", "enum", "const", "static", "extern", "for", "if", "else", "return", "break",
  "continue", "while", "true", "false", "as", "do", "gen", "Std140", "AsStd140", "internal", "size_of", "align_offset", "max_arr", "val", "this",
  "S", "X", "A", "Position", "POSITION", "uni_ete", "uni_han", "uni_eszett", "fields", "FIELDS_", "size", "align", "Field" }
PadNames == { "_pad0", "_pad1", "_pad2", "__pad0" }
StructNames == { "Light", "PointLight", "type", "fn", "match", "_Under", "lower", "X", "Std140", "Std430", "AsStd140", "Output", "Zeroable", "Pod", "Writer",
  "Vec3", "Mat4", "Bool", "Glsl", "GlslStruct", "Type", "Struct", "Std", "Core", "Crevice", "light", "LIGHT", "uni_Omega", "Field", "F32", "U8", LongName, VeryLongName }
\* Names a shortcut might take for a number or a vector.
ShortNames == { "Sun", "Ray", "Map", "Q", "V2", "I32", "F64", "Vec", "Vec2", "Vector2", "Point3", "Mat", "Matrix", "ColumnMatrix2", "Float", "Double" }
\* Names that become one another when something is put after them.
DigitNames == { "A", "A1", "A11", "A2", "A_", "A_1", "A_Pad", "A_Pad1" }
GlslStructNames == { "Light", "PointLight", "type", "fn", "match", "_Under", "lower", "X", "Std140", "Struct1", "rType", "r", "Glsl", "NAME",
  "Light_1", "Light1", "Light11", LongName, VeryLongName }
\* Ways to write the same program that must make no difference.
WrittenStyles ==
  { w \in [vis : {"", "pub", "pub(crate)", "pub(super)", "pub(in crate)"},
           place : {"module", "nested", "split", "same", "function", "macro", "closure", "constant", "method", "genericfn"},
           imports : {"none", "use", "glob", "renamed"},
           extra : {"", "derives", "docs", "alias", "paren", "raw", "where", "repr", "repr16", "shadow", "fieldvis",
                     "consts", "units", "methods", "types", "bare", "paths", "typemacro", "projection", "generic", "cfgs", "attrs"}] :
      /\ w.place \in {"split", "same"} => w.vis # ""
      /\ w.extra = "bare" => w.place \notin {"function", "closure", "constant", "method", "genericfn"} }
\* Those of them that change how types are named or laid out in Rust.
LayoutStyles == { w \in WrittenStyles : w.vis = "pub" /\ w.imports = "none"
                    /\ w.extra \in {"", "alias", "repr", "repr16", "paths", "typemacro", "projection", "generic", "cfgs", "attrs"} }
\* Inner structs in a package of their own.
ApartStyles == { [vis |-> "pub", place |-> "crates", imports |-> i, extra |-> e] : i \in {"none", "use", "glob", "renamed"},
                   e \in {"", "docs", "alias", "paren", "raw", "repr", "shadow", "consts", "types", "paths", "typemacro", "cfgs", "attrs"} }
FloatFew == { HostFor(t) : t \in { Scalar("float"), Vec("float", 2), Vec("float", 3), Vec("float", 4), Mat("float", 3) } }
=============================================================================
