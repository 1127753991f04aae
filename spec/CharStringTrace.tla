-------------------------- MODULE CharStringTrace --------------------------
(* Compares what the library draws for CFF glyphs with module CharString.   *)
(* Events: "font" with charstrings and subroutines, "glyph" with the drawn  *)
(* path: ops with coordinates times 64, drawn at x64/64, y64/64 with scale  *)
(* f4/4; box are the bounds of the glyph in font units.                     *)
EXTENDS CharStringPath, Trace

VARIABLE font
vars == <<tvars, font>>

-----------------------------------------------------------------------------
(* Bounds: whole units that enclose the outline, and do not exceed those of *)
(* the control points (a box of either is fine).  Curves are sampled at     *)
(* sixteenths of their length.                                              *)
CeilU(a) == -((-a) \div 16)
FloorU(a) == a \div 16
Sample(a, b, c, d, k) == LET j == 16 - k IN a * j * j * j + 3 * b * j * j * k + 3 * c * j * k * k + d * k * k * k    \* times 4096

\* extremes of coordinate i over a path: records [lo, hi] of what is surely reached, and [lo2, hi2] of what may be
RECURSIVE Ext(_, _, _, _)
Ext(out, i, at, acc) ==
  IF out = <<>> THEN acc
  ELSE LET o == Head(out)
           z == EndOf(o)[i]
           Join(lo, hi, lo2, hi2) == [lo |-> MinV(acc.lo, lo), hi |-> MaxV(acc.hi, hi), lo2 |-> MinV(acc.lo2, lo2), hi2 |-> MaxV(acc.hi2, hi2)]
       IN IF o.k # 3 THEN Ext(Tail(out), i, z, Join(z, z, z, z))
          ELSE LET a == at
                   b == o.p[1][i]
                   c == o.p[2][i]
                   d == z
                   S == {Sample(a, b, c, d, k) : k \in 0..16}
                   top == CHOOSE x \in S : \A y \in S : y <= x
                   low == CHOOSE x \in S : \A y \in S : x <= y
                   hi == top \div 4096
                   lo == -((-low) \div 4096)
                   hull == {a, b, c, d}
               IN Ext(Tail(out), i, z, Join(lo, hi, CHOOSE x \in hull : \A y \in hull : x <= y, CHOOSE x \in hull : \A y \in hull : y <= x))

BoxOK(e, out) ==
  IF out = <<>> THEN e.box = <<0, 0, 0, 0>>
  ELSE LET Big == 1000000
           X == Ext(out, 1, 0, [lo |-> Big, hi |-> -Big, lo2 |-> Big, hi2 |-> -Big])
           Y == Ext(out, 2, 0, [lo |-> Big, hi |-> -Big, lo2 |-> Big, hi2 |-> -Big])
       IN \/ \E v \in {X.lo, -X.hi, Y.lo, -Y.hi} : v < -350000     \* too far for the arithmetic of the model
          \/ /\ e.box[1] <= FloorU(X.lo) /\ e.box[1] >= FloorU(X.lo2)
             /\ e.box[2] <= FloorU(Y.lo) /\ e.box[2] >= FloorU(Y.lo2)
             /\ e.box[3] >= CeilU(X.hi) /\ e.box[3] <= CeilU(X.hi2)
             /\ e.box[4] >= CeilU(Y.hi) /\ e.box[4] <= CeilU(Y.hi2)

\* contours of a single point may or may not count for the bounds
HasDot(out) == \E i \in 1..Len(out) : out[i].k = 0 /\ (i = Len(out) \/ out[i + 1].k = 0)

Glyph(e) ==
  LET G == Exec(font, e.g)
  IN IF e.panic # "" THEN {"panic: " \o e.panic}
     ELSE IF G.st = "unsettled" THEN {}
     ELSE IF G.st = "bad" THEN IF Focus("C10") THEN Fail(~e.err, "a malformed charstring is drawn") ELSE {}
     ELSE IF e.err THEN {"a sound charstring is refused"}
     ELSE (IF Focus("C10") THEN (IF e.frac THEN {"coordinates are not exact"} ELSE PathOK(e, G.out)) ELSE {})
          \cup (IF Focus("C11") THEN Fail(~HasDot(G.out) /\ ~BoxOK(e, G.out), "bounds") ELSE {})

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.op = "font" -> Fail(e.err # "", "the font is refused: " \o e.err)
    [] e.op = "glyph" -> Glyph(e)

Init == TraceInit /\ font = [cs |-> <<>>]
Next == StepWith(Check) /\ font' = IF Cur.op = "font" THEN Cur ELSE font
Spec == Init /\ [][Next]_vars
=============================================================================
