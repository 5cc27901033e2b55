------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* What a writer may do, seen from outside: calls go in, bytes arrive at   *)
(* the output, results come back.                                          *)
(*                                                                         *)
(* An item is one value as its type presents it: [al |-> alignment,        *)
(* b |-> bytes].  A call is a record                                       *)
(*   [items, array (a slice of converted values), panics (the caller's     *)
(*    iterator gives up after the items), ret, len, app, calls, ...]       *)
(* ret: returned offset, -1 an error, -2 a panic.  app: bytes the output   *)
(* gained.  calls: <<offered, accepted or -1 (interrupted) or -2 (failed), *)
(* times>> for each run of requests the output saw.                        *)
(***************************************************************************)
EXTENDS Glsl

\* Recorded alignments may be anything: 0 moves nothing, and no honest gap is this long.
LongestGap == 1048576
Zeros(n) == [i \in 1..(IF n > LongestGap THEN LongestGap ELSE n) |-> 0]
NextFor(at, al) == IF al < 1 THEN at ELSE RoundUp(at, al)
Gap(at, al) == NextFor(at, al) - at

RECURSIVE ConcatRec(_, _, _)
ConcatRec(at, items, acc) ==
  IF items = <<>> THEN acc
  ELSE LET pos == NextFor(at, Head(items).al)
           end == pos + Len(Head(items).b)
       IN ConcatRec(end, Tail(items),
            [bytes |-> acc.bytes \o Zeros(pos - at) \o Head(items).b,
             offs  |-> Append(acc.offs, pos),
             cuts  |-> Append(acc.cuts, Len(acc.bytes) + (pos - at) + Len(Head(items).b))])
\* The items one after another, each at its next aligned offset.
OneByOne(at, items) == ConcatRec(at, items, [bytes |-> <<>>, offs |-> <<>>, cuts |-> <<0>>])

\* The items as the elements of a GLSL array: base alignment and stride of the array.
Strided(at, items, baseAlign, stride, tail) ==
  IF items = <<>> THEN OneByOne(at, items)
  ELSE LET base == NextFor(at, baseAlign)
           n == Len(items)
           raw(i) == items[i].b \o Zeros(IF i < n \/ tail THEN stride - Len(items[i].b) ELSE 0)
           RECURSIVE Cat(_)
           Cat(i) == IF i > n THEN <<>> ELSE raw(i) \o Cat(i+1)
       IN [bytes |-> Zeros(base - at) \o Cat(1), offs |-> [i \in 1..n |-> base + (i-1)*stride], cuts |-> <<0>>]

(* Layouts a call may choose from.  The documentation does not say that a slice is     *)
(* packed naturally; property C14 does say it is a GLSL array.  Every other property   *)
(* accepts either.                                                                     *)
ArrayAlign(lay, al) == AggregateAlign(lay, al)
ArrayStride(lay, size, al) == NextFor(size, AggregateAlign(lay, al))
Plans(lay, at, c) ==
  {OneByOne(at, c.items)}
  \cup (IF ~c.array \/ c.items = <<>> THEN {}
        ELSE LET al == c.items[1].al  z == Len(c.items[1].b)
             IN { Strided(at, c.items, ArrayAlign(lay, al), ArrayStride(lay, z, al), tail) : tail \in BOOLEAN })

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(***************************** the output's side ***************************)
HardError(k) == k[2] = -2 \/ k[2] = 0
ShortAccept(k) == k[2] > 0 /\ k[2] < k[1]
SawError(c) == \E i \in 1..Len(c.calls) : HardError(c.calls[i])
Partial(c)  == \E i \in 1..Len(c.calls) : ShortAccept(c.calls[i])
\* A request refused after part of what it belongs to was taken: how much the writer then
\* counts is unspecified (std's write_all does not say).
Tears(c) == SawError(c) /\ Partial(c)

(********************************* rules ***********************************)
\* at: bytes the output holds, which is also the length the writer reports.
If(b, f) == IF b THEN {} ELSE {f}
FirstOf(p, at) == IF p.offs = <<>> THEN at ELSE p.offs[1]

CallFaults(lay, at, c) ==
  LET plans == Plans(lay, at, c)
      full  == { p \in plans : p.bytes = c.app }
      ok    == c.ret >= 0
      bad   == SawError(c)
  IN \* A call the output did not disturb emits its bytes, all of them and nothing else,
     \* and returns where the first of them is.
     (IF bad \/ c.panics THEN {} ELSE
        If(ok, "fails") \cup If(full # {}, "bytes")
        \cup If(ok => \E p \in (IF full # {} THEN full ELSE plans) : c.ret = FirstOf(p, at), "offset"))
     \* What a disturbed call emits is the beginning of that.
     \cup (IF ~bad THEN {} ELSE
             If(c.ret = -1, "error lost") \cup If(\E p \in plans : IsPrefix(c.app, p.bytes), "prefix")
             \cup If(\A i \in 1..Len(c.calls) : HardError(c.calls[i]) => i = Len(c.calls) /\ c.calls[i][3] = 1, "goes on"))
     \* An iterator that panics after some items: the items so far, or fewer.
     \cup (IF bad \/ ~c.panics THEN {} ELSE
             If(c.ret = -2, "fails")
             \cup If(\E i \in 1..Len(OneByOne(at, c.items).cuts) : Len(c.app) = OneByOne(at, c.items).cuts[i], "bytes")
             \cup If(IsPrefix(c.app, OneByOne(at, c.items).bytes), "prefix"))
     \cup If(Tears(c) \/ c.len = at + Len(c.app), "len")

\* C14: exactly a GLSL array, with or without the padding after the last element.
NotGlslArray(lay, at, c, t) ==
  /\ c.items # <<>> /\ c.ret >= 0 /\ ~SawError(c)
  /\ ~\E tail \in BOOLEAN :
        LET p == Strided(at, c.items, AlignOf(lay, Array(t, 1)), Stride(lay, t), tail)
        IN p.bytes = c.app /\ p.offs[1] = c.ret
Packed(at, c) == LET p == OneByOne(at, c.items) IN p.bytes = c.app /\ p.offs[1] = c.ret

\* C07: a sizer that was told the same types.
SizerFaults(at, c) ==
  IF ~c.sizer THEN {}
  ELSE LET p == OneByOne(at, c.items)
       IN If(c.items = <<>> \/ c.sized[1] = c.ret, "sizer offset")
          \cup If(\A i \in 1..Len(c.sized) : c.sized[i] = p.offs[i], "sizer offsets")
          \cup If(c.slen = c.len, "sizer length")
\* C07: asked beforehand.
QueryFaults(q) ==
  If(q.ret >= 0 /\ q.q = q.held /\ q.len = q.held, "size")
  \cup If(q.static = -1 \/ q.static = q.held, "static size")
  \cup If(~q.sizer \/ q.slen = q.held, "sizer length")
=============================================================================
