-------------------------- MODULE UnboundedDeclare --------------------------
(***************************************************************************)
(* The derive's arithmetic (Impl: StructField, StructEnd) beside the       *)
(* standard's (Glsl: Place, rule 9), for any number of fields of any size. *)
(* TLC explores Declare within bounds; here Apalache shows that Inv is     *)
(* inductive, so the two agree for every struct; and since a closed struct *)
(* is again a field (FieldAgain), for every nesting.                       *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
  \* @type: Set(Int);
  Aligns    \* the alignments a field may have

VARIABLES
  \* @type: Str;
  lay,
  \* @type: Bool;
  any,      \* has the struct a field yet?
  \* @type: Int;
  end,      \* code: offset after the last field
  \* @type: Int;
  amax,     \* code: alignment so far
  \* @type: Int;
  rust,     \* alignment Rust requires of the generated struct
  \* @type: Int;
  at,       \* standard: offset after the last member
  \* @type: Int;
  smax      \* standard: largest base alignment of a member

Few  == Aligns = {1, 4, 8, 16, 32, 256, 4096}
Many == Aligns = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 65536}

\* n modulo an alignment, with literal divisors (which solvers decide).
\* @type: (Int, Int) => Int;
Mod(n, m) == CASE m = 1 -> 0 [] m = 2 -> n % 2 [] m = 4 -> n % 4 [] m = 8 -> n % 8 [] m = 16 -> n % 16 [] m = 32 -> n % 32
               [] m = 64 -> n % 64 [] m = 128 -> n % 128 [] m = 256 -> n % 256 [] m = 512 -> n % 512 [] m = 1024 -> n % 1024
               [] m = 2048 -> n % 2048 [] m = 4096 -> n % 4096 [] m = 65536 -> n % 65536 [] OTHER -> 0

\* What "rounded up to a multiple" means, without arithmetic: the least such number.
\* @type: (Int, Int, Int) => Bool;
IsRoundUp(r, n, m) == r >= n /\ r - n < m /\ Mod(r, m) = 0

\* internal::align_offset
\* @type: (Int, Int) => Int;
AlignOffset(offset, alignment) ==
  IF alignment = 0 \/ Mod(offset, alignment) = 0 THEN 0 ELSE alignment - Mod(offset, alignment)

\* @type: (Int, Int) => Int;
Larger(a, b) == IF a > b THEN a ELSE b

\* What can be a field: a size, an alignment, and what Rust requires, which divides both.
\* @type: (Int, Int, Int) => Bool;
Field(size, align, r) == size >= 0 /\ align \in Aligns /\ r \in {1, 4, 8} /\ Mod(align, r) = 0 /\ Mod(size, r) = 0

Init == /\ lay \in {"std140", "std430"} /\ any = FALSE /\ end = 0 /\ rust = 1 /\ at = 0 /\ smax = 1
        /\ amax = IF lay = "std140" THEN 16 ELSE 0

Next == \E size \in Int, align \in Aligns, r \in {1, 4, 8}, here \in Int :
          /\ Field(size, align, r)
          /\ any' = TRUE
          \* the code: padding after the previous field
          /\ end' = end + (IF any THEN AlignOffset(end, align) ELSE 0) + size
          /\ amax' = Larger(align, amax)
          /\ rust' = Larger(r, rust)
          \* the standard
          /\ IsRoundUp(here, at, align)
          /\ at' = here + size
          /\ smax' = Larger(smax, align)
          /\ UNCHANGED lay

Inv == /\ lay \in {"std140", "std430"}
       /\ any \in BOOLEAN
       /\ end >= 0 /\ smax \in Aligns /\ rust \in {1, 4, 8}
       /\ end = at
       /\ amax = (IF lay = "std140" THEN Larger(16, smax) ELSE IF any THEN smax ELSE 0)
       /\ ~any => end = 0 /\ smax = 1 /\ rust = 1
       /\ Mod(smax, rust) = 0

InductiveInit == /\ lay \in {"std140", "std430"} /\ any \in BOOLEAN /\ end \in Int /\ amax \in Aligns \cup {0} /\ rust \in {1, 4, 8}
                 /\ at \in Int /\ smax \in Aligns /\ Inv

\* The closed struct: StructEnd.
ImplSize == end + AlignOffset(end, amax)
GlslAlign == IF lay = "std140" /\ smax < 16 THEN 16 ELSE smax     \* rule 9
ClosedIsGlsl == any => amax = GlslAlign /\ IsRoundUp(ImplSize, at, GlslAlign)
NeverClosed == any => amax = smax                                   \* not so in std140: must fail
FieldAgain == any => Field(ImplSize, amax, rust)
\* Wherever the next field goes, Rust puts it there too.
NoImplicitPadding == \A align \in Aligns, r \in {1, 4, 8} :
                        Mod(align, r) = 0 => Mod(end + (IF any THEN AlignOffset(end, align) ELSE 0), r) = 0
Consequences == ClosedIsGlsl /\ FieldAgain /\ NoImplicitPadding
=============================================================================
