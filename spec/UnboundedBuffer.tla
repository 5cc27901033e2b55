--------------------------- MODULE UnboundedBuffer ---------------------------
(***************************************************************************)
(* BufferImpl in byte counts: items of any size, any number of items and   *)
(* calls, an output that may split, interrupt or refuse any request any    *)
(* number of times.  Apalache shows that Inv is inductive; Consequences    *)
(* are C06, C07 and C09 as far as counts go.  (TLC explores BufferImpl,    *)
(* bytes included, within bounds.)                                         *)
(***************************************************************************)
EXTENDS Integers

CONSTANT
  \* @type: Set(Int);
  Aligns

VARIABLES
  \* @type: Str;
  pc,      \* "idle", "item" (between the items of a call), "pad", "value"
  \* @type: Int;
  off,     \* the writer's own count
  \* @type: Int;
  held,    \* bytes the output holds
  \* @type: Int;
  al,      \* the item at hand
  \* @type: Int;
  size,
  \* @type: Int;
  left,    \* padding still to write
  \* @type: Int;
  taken,   \* bytes of the value the output has taken
  \* @type: Int;
  start,   \* held when the call began
  \* @type: Int;
  first,   \* offset to return, or -1
  \* @type: Int;
  fal,     \* alignment of the first item
  \* @type: Bool;
  torn,    \* refused in the middle of a value
  \* @type: Int;
  sizer,   \* a sizer told of the same types
  \* @type: Int;
  said     \* what the sizer returned for the item at hand

Few  == Aligns = {1, 4, 8, 16, 256}
Many == Aligns = {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 65536}

\* @type: (Int, Int) => Int;
Mod(n, m) == CASE m = 1 -> 0 [] m = 2 -> n % 2 [] m = 4 -> n % 4 [] m = 8 -> n % 8 [] m = 16 -> n % 16 [] m = 32 -> n % 32
               [] m = 64 -> n % 64 [] m = 128 -> n % 128 [] m = 256 -> n % 256 [] m = 512 -> n % 512 [] m = 1024 -> n % 1024
               [] m = 2048 -> n % 2048 [] m = 4096 -> n % 4096 [] m = 65536 -> n % 65536 [] OTHER -> 0
\* @type: (Int, Int, Int) => Bool;
IsRoundUp(r, n, m) == r >= n /\ r - n < m /\ Mod(r, m) = 0
\* @type: (Int, Int) => Int;
AlignOffset(offset, alignment) ==
  IF alignment = 0 \/ Mod(offset, alignment) = 0 THEN 0 ELSE alignment - Mod(offset, alignment)

Init == /\ pc = "idle" /\ off = 0 /\ held = 0 /\ al = 1 /\ size = 0 /\ left = 0 /\ taken = 0 /\ start = 0
        /\ first = -1 /\ fal = 1 /\ torn = FALSE /\ sizer = 0 /\ said = 0

Begin == /\ pc = "idle" /\ ~torn
         /\ pc' = "item" /\ start' = held /\ first' = -1
         /\ sizer' = off            \* a sizer that has heard of everything so far
         /\ UNCHANGED <<off, held, al, size, left, taken, fal, torn, said>>

StartItem == /\ pc = "item"
             /\ \E a \in Aligns, z \in Int :
                  /\ z >= 0
                  /\ al' = a /\ size' = z /\ taken' = 0
                  /\ left' = AlignOffset(off, a)
                  /\ pc' = (IF left' = 0 THEN "value" ELSE "pad")
                  /\ fal' = (IF first = -1 THEN a ELSE fal)
                  \* Sizer::add
                  /\ said' = sizer + AlignOffset(sizer, a)
                  /\ sizer' = said' + z
             /\ UNCHANGED <<off, held, start, first, torn>>

\* one zero byte
Pad == /\ pc = "pad"
       /\ held' = held + 1 /\ off' = off + 1 /\ left' = left - 1
       /\ pc' = (IF left' = 0 THEN "value" ELSE "pad")
       /\ UNCHANGED <<al, size, taken, start, first, fal, torn, sizer, said>>

\* the value, or a part of it
Take == /\ pc = "value" /\ taken < size
        /\ \E k \in Int : k > 0 /\ k <= size - taken /\ taken' = taken + k /\ held' = held + k
        /\ UNCHANGED <<pc, off, al, size, left, start, first, fal, torn, sizer, said>>

ItemDone == /\ pc = "value" /\ taken = size
            /\ off' = off + size
            /\ first' = (IF first = -1 THEN off ELSE first)
            /\ pc' = "item"
            /\ UNCHANGED <<held, al, size, left, taken, start, fal, torn, sizer, said>>

Return == pc = "item" /\ pc' = "idle" /\ UNCHANGED <<off, held, al, size, left, taken, start, first, fal, torn, sizer, said>>

\* An interruption is asked again and changes nothing.  A refusal ends the call.
Refuse == /\ pc \in {"pad", "value"}
          /\ pc = "value" => taken < size
          /\ pc' = "idle" /\ torn' = (pc = "value" /\ taken > 0)
          /\ UNCHANGED <<off, held, al, size, left, taken, start, first, fal, sizer, said>>

Next == Begin \/ StartItem \/ Pad \/ Take \/ ItemDone \/ Return \/ Refuse

\* A refused byte of padding that leaves the one before it uncounted.  Must fail.
RefuseLate == /\ pc = "pad" /\ pc' = "idle" /\ torn' = FALSE
              /\ off' = off - 1
              /\ UNCHANGED <<held, al, size, left, taken, start, first, fal, sizer, said>>
NextLate == Next \/ RefuseLate

Inv == /\ pc \in {"idle", "item", "pad", "value"}
       /\ torn \in BOOLEAN /\ (torn => pc = "idle")
       /\ al \in Aligns /\ fal \in Aligns /\ size >= 0 /\ off >= 0 /\ start >= 0
       /\ ~torn => held = off + (IF pc = "value" THEN taken ELSE 0)
       /\ pc = "pad" => left > 0 /\ left < al /\ Mod(off + left, al) = 0 /\ taken = 0
       /\ pc = "value" => left = 0 /\ Mod(off, al) = 0 /\ taken >= 0 /\ taken <= size
       /\ pc \in {"pad", "value"} => said = off + left /\ sizer = said + size
       /\ pc = "item" => sizer = off
       \* the first item of the call, from where the call found the output
       /\ start <= off
       /\ first >= -1
       /\ pc = "item" /\ first = -1 => off = start
       /\ pc = "pad" /\ first = -1 => fal = al /\ IsRoundUp(off + left, start, al)
       /\ pc = "value" /\ first = -1 => fal = al /\ IsRoundUp(off, start, al)
       /\ pc # "idle" /\ first # -1 => IsRoundUp(first, start, fal)

InductiveInit ==
  /\ pc \in {"idle", "item", "pad", "value"} /\ off \in Int /\ held \in Int /\ al \in Aligns /\ size \in Int /\ left \in Int
  /\ taken \in Int /\ start \in Int /\ first \in Int /\ fal \in Aligns /\ torn \in BOOLEAN /\ sizer \in Int /\ said \in Int /\ Inv

\* C06: what a call returns, and what it reports as length.
ReturnsWhere == pc = "item" /\ first # -1 => IsRoundUp(first, start, fal)
NothingWritten == pc = "item" /\ first = -1 => held = start
CountIsHeld == pc = "idle" /\ ~torn => off = held          \* C06, C09
\* C07: the sizer's answer is where the value's first byte is, and its length the writer's.
SizerAgrees == /\ pc = "value" => said = held - taken
               /\ pc = "item" => sizer = held
Consequences == ReturnsWhere /\ NothingWritten /\ CountIsHeld /\ SizerAgrees
=============================================================================
