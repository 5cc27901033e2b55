-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Byte counts beyond TLC's integers: pairs <<h, l>> standing for          *)
(* h * 2^20 + l with 0 <= l < 2^20, and the layout arithmetic on them.     *)
(***************************************************************************)
EXTENDS Glsl

Base == 1048576
W(n) == <<n \div Base, n % Base>>
WAdd(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + l \div Base, l % Base>>
\* Alignments are powers of two; those up to 2^20 only move the low part.
WRoundUp(a, al) == IF al <= Base THEN LET l == RoundUp(a[2], al) IN <<a[1] + l \div Base, l % Base>>
                   ELSE <<RoundUp(IF a[2] = 0 THEN a[1] ELSE a[1] + 1, al \div Base), 0>>
RECURSIVE WMul(_, _)
WMul(n, a) == IF n = 0 THEN <<0, 0>>
              ELSE LET h == WMul(n \div 2, a)  d == WAdd(h, h) IN IF n % 2 = 1 THEN WAdd(d, a) ELSE d

\* A type: a term, or a user type too big for one [k |-> "huge", size |-> pair, align |-> bytes].
WSizeOf(lay, t)  == IF t.k = "huge" THEN t.size ELSE W(SizeOf(lay, t))
WAlignOf(lay, t) == IF t.k = "huge" THEN t.align ELSE AlignOf(lay, t)

\* n values of t one after another from at: where the first starts, and the end.
WFirst(lay, at, t)  == WRoundUp(at, WAlignOf(lay, t))
WEnd(lay, at, t, n) ==
  IF n = 0 THEN at
  ELSE WAdd(WAdd(WFirst(lay, at, t), WMul(n - 1, WRoundUp(WSizeOf(lay, t), WAlignOf(lay, t)))), WSizeOf(lay, t))
=============================================================================
