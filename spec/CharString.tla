----------------------------- MODULE CharString -----------------------------
(***************************************************************************)
(* Type 2 charstrings: from the bytes of a charstring and the subroutines  *)
(* to the path that has to be drawn.  Coordinates are in sixteenths of a   *)
(* unit; numbers that are no multiple of that are outside of the model.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

AbsV(a) == IF a < 0 THEN -a ELSE a
MinV(a, b) == IF a < b THEN a ELSE b
MaxV(a, b) == IF a < b THEN b ELSE a
Sgn16(v) == IF v >= 32768 THEN v - 65536 ELSE v
Bias(n) == IF n < 1240 THEN 107 ELSE IF n < 33900 THEN 1131 ELSE 32768

MaxStack == 48
MaxNest  == 10
MaxHints == 96

-----------------------------------------------------------------------------
(* Numbers: [ok, v, p]; ok is "ok", "bad" (cut off) or "unsettled"          *)
NumSize(b0) == CASE b0 = 28 -> 3 [] b0 \in 32..246 -> 1 [] b0 \in 247..254 -> 2 [] b0 = 255 -> 5
Number(b, p) ==
  LET b0 == b[p]
  IN IF p + NumSize(b0) - 1 > Len(b) THEN [ok |-> "bad"]
     ELSE CASE b0 = 28 -> [ok |-> "ok", v |-> 16 * Sgn16(b[p + 1] * 256 + b[p + 2])]
            [] b0 \in 32..246 -> [ok |-> "ok", v |-> 16 * (b0 - 139)]
            [] b0 \in 247..250 -> [ok |-> "ok", v |-> 16 * ((b0 - 247) * 256 + b[p + 1] + 108)]
            [] b0 \in 251..254 -> [ok |-> "ok", v |-> 16 * (-(b0 - 251) * 256 - b[p + 1] - 108)]
            [] b0 = 255 -> LET f == b[p + 3] * 256 + b[p + 4]
                           IN IF f % 4096 # 0 THEN [ok |-> "unsettled"] ELSE [ok |-> "ok", v |-> 16 * Sgn16(b[p + 1] * 256 + b[p + 2]) + f \div 4096]

-----------------------------------------------------------------------------
(* Operators: what the operands s mean, as a sequence of segments given by  *)
(* deltas: <<dx, dy>> lines and <<dx1, dy1, dx2, dy2, dx3, dy3>> curves.    *)
Chop(s, from, size, k) == SubSeq(s, from + (k - 1) * size, from + k * size - 1)
Chunks(s, from, size, n) == [k \in 1..n |-> Chop(s, from, size, k)]

HLines(s, hor) == [k \in 1..Len(s) |-> IF (k % 2 = 1) = hor THEN <<s[k], 0>> ELSE <<0, s[k]>>]

\* alternating curves; the last may end with one more operand
AltCurves(s, hor) ==
  LET n == Len(s) \div 4
      odd == Len(s) % 4 = 1
  IN [k \in 1..n |->
        LET c == Chop(s, 1, 4, k)
            x == IF k = n /\ odd THEN s[Len(s)] ELSE 0
        IN IF (k % 2 = 1) = hor THEN <<c[1], 0, c[2], c[3], x, c[4]>> ELSE <<0, c[1], c[2], c[3], c[4], x>>]

\* curves that start and end in the same direction, with an optional first operand
SameCurves(s, hor) ==
  LET odd == Len(s) % 4
      n == Len(s) \div 4
  IN [k \in 1..n |->
        LET c == Chop(s, 1 + odd, 4, k)
            x == IF k = 1 /\ odd = 1 THEN s[1] ELSE 0
        IN IF hor THEN <<c[1], x, c[2], c[3], c[4], 0>> ELSE <<x, c[1], c[2], c[3], 0, c[4]>>]

Flex1(s) ==
  LET dx == s[1] + s[3] + s[5] + s[7] + s[9]
      dy == s[2] + s[4] + s[6] + s[8] + s[10]
  IN << SubSeq(s, 1, 6), SubSeq(s, 7, 10) \o (IF AbsV(dx) > AbsV(dy) THEN <<s[11], -dy>> ELSE <<-dx, s[11]>>) >>

\* [ok, segs]
No == [ok |-> "bad"]
Yes(s) == [ok |-> "ok", segs |-> s]
Draw(op, s) ==
  LET n == Len(s) IN
  CASE op = 5  -> IF n >= 2 /\ n % 2 = 0 THEN Yes(Chunks(s, 1, 2, n \div 2)) ELSE No
    [] op = 6  -> IF n >= 1 THEN Yes(HLines(s, TRUE)) ELSE No
    [] op = 7  -> IF n >= 1 THEN Yes(HLines(s, FALSE)) ELSE No
    [] op = 8  -> IF n >= 6 /\ n % 6 = 0 THEN Yes(Chunks(s, 1, 6, n \div 6)) ELSE No
    [] op = 24 -> IF n = 2 THEN [ok |-> "unsettled"] ELSE IF n >= 8 /\ n % 6 = 2 THEN Yes(Chunks(s, 1, 6, n \div 6) \o <<SubSeq(s, n - 1, n)>>) ELSE No
    [] op = 25 -> IF n = 6 THEN [ok |-> "unsettled"] ELSE IF n >= 8 /\ n % 2 = 0 THEN Yes(Chunks(s, 1, 2, (n - 6) \div 2) \o <<SubSeq(s, n - 5, n)>>) ELSE No
    [] op = 26 -> IF n >= 4 /\ n % 4 <= 1 THEN Yes(SameCurves(s, FALSE)) ELSE No
    [] op = 27 -> IF n >= 4 /\ n % 4 <= 1 THEN Yes(SameCurves(s, TRUE)) ELSE No
    [] op = 30 -> IF n >= 4 /\ n % 4 <= 1 THEN Yes(AltCurves(s, FALSE)) ELSE No
    [] op = 31 -> IF n >= 4 /\ n % 4 <= 1 THEN Yes(AltCurves(s, TRUE)) ELSE No
    [] op = 1035 -> IF n = 13 THEN Yes(<<SubSeq(s, 1, 6), SubSeq(s, 7, 12)>>) ELSE No                                     \* flex
    [] op = 1034 -> IF n = 7 THEN Yes(<< <<s[1], 0, s[2], s[3], s[4], 0>>, <<s[5], 0, s[6], -s[3], s[7], 0>> >>) ELSE No   \* hflex
    [] op = 1036 -> IF n = 9 THEN Yes(<< <<s[1], s[2], s[3], s[4], s[5], 0>>, <<s[6], 0, s[7], s[8], s[9], -(s[2] + s[4] + s[8])>> >>) ELSE No   \* hflex1
    [] op = 1037 -> IF n = 11 THEN Yes(Flex1(s)) ELSE No                                                                  \* flex1
    [] OTHER -> [ok |-> "none"]

DrawOps == {5, 6, 7, 8, 24, 25, 26, 27, 30, 31, 1034, 1035, 1036, 1037}
StemOps == {1, 3, 18, 23}
MaskOps == {19, 20}
MoveOps == {4, 21, 22}

\* absolute segments from a position: <<x, y>> points
RECURSIVE Place(_, _, _)
Place(segs, at, acc) ==
  IF segs = <<>> THEN [at |-> at, segs |-> acc]
  ELSE LET d == Head(segs)
       IN IF Len(d) = 2 THEN LET p == <<at[1] + d[1], at[2] + d[2]>> IN Place(Tail(segs), p, Append(acc, [k |-> 1, p |-> <<p>>]))
          ELSE LET a == <<at[1] + d[1], at[2] + d[2]>>
                   b == <<a[1] + d[3], a[2] + d[4]>>
                   c == <<b[1] + d[5], b[2] + d[6]>>
               IN Place(Tail(segs), c, Append(acc, [k |-> 3, p |-> <<a, b, c>>]))

-----------------------------------------------------------------------------
(* Execution.  Font f: cs charstrings, g global subroutines, l per font     *)
(* dictionary the local ones, fd the dictionary of each glyph (from 1).     *)
(* The state m: code (stack of [b, p], innermost last), s operands, at,     *)
(* out (the path), hints, moved, wide (the width has been seen), steps.     *)
Refused == [st |-> "bad"]
Unsettled == [st |-> "unsettled"]

Top(m) == m.code[Len(m.code)]
Jump(m, p) == [m EXCEPT !.code[Len(m.code)].p = p]

\* the operands without the width argument, for the first operator that takes it
Takes(m, op) ==
  IF m.wide THEN m.s
  ELSE LET odd == CASE op = 21 -> Len(m.s) = 3
                    [] op \in {4, 22} -> Len(m.s) = 2
                    [] op = 14 -> Len(m.s) \in {1, 5}
                    [] OTHER -> Len(m.s) % 2 = 1
       IN IF odd THEN Tail(m.s) ELSE m.s

\* an operand too many for a stack clearing operator before the first moveto, after the width has been seen:
\* readers differ in whether they take it for a width
Spare(m, op) == m.wide /\ ~m.moved /\ Len(m.s) > 0 /\ LET n == Len(m.s) IN
                  CASE op = 21 -> n = 3 [] op \in {4, 22} -> n = 2 [] op = 14 -> n \in {1, 5} [] op \in StemOps \cup MaskOps -> n % 2 = 1 [] OTHER -> FALSE

RECURSIVE Run(_, _, _)
Run(f, g, m) ==
  IF m.steps > 3000 THEN Unsettled
  ELSE IF AbsV(m.at[1]) > 480000 \/ AbsV(m.at[2]) > 480000 THEN Unsettled
  ELSE
    LET b == Top(m).b
        p == Top(m).p
    IN IF p > Len(b) THEN Refused                \* the end without endchar or return
       ELSE IF b[p] >= 32 \/ b[p] = 28 THEN
          LET v == Number(b, p)
          IN IF v.ok = "bad" THEN Refused
             ELSE IF v.ok = "unsettled" THEN Unsettled
             ELSE IF Len(m.s) >= MaxStack THEN Refused
             ELSE Run(f, g, [Jump(m, p + NumSize(b[p])) EXCEPT !.s = Append(@, v.v), !.steps = @ + 1])
       ELSE IF b[p] = 12 /\ p = Len(b) THEN Refused
       ELSE
         LET op == IF b[p] = 12 THEN 1000 + b[p + 1] ELSE b[p]
             n == [Jump(m, IF b[p] = 12 THEN p + 2 ELSE p + 1) EXCEPT !.steps = @ + 1]
             clear == [n EXCEPT !.s = <<>>, !.wide = TRUE]
             s == Takes(m, op)
         IN CASE Spare(m, op) -> Unsettled
              [] op = 14 ->
                   IF Len(s) = 0 THEN [st |-> "ok", out |-> m.out] ELSE IF Len(s) = 4 THEN Unsettled ELSE Refused
              [] op \in StemOps ->
                   IF m.moved THEN Refused
                   ELSE IF m.masked THEN Unsettled
                   ELSE IF Len(s) < 2 \/ Len(s) % 2 # 0 \/ m.hints + Len(s) \div 2 > MaxHints THEN Refused
                   ELSE Run(f, g, [clear EXCEPT !.hints = @ + Len(s) \div 2])
              [] op \in MaskOps ->
                   LET h == m.hints + Len(s) \div 2
                   IN IF Len(s) % 2 # 0 \/ h > MaxHints THEN Refused
                      ELSE IF s # <<>> /\ (m.moved \/ m.masked) THEN Unsettled
                      ELSE IF h = 0 THEN Unsettled
                      ELSE IF p + (h + 7) \div 8 > Len(b) THEN Refused
                      ELSE Run(f, g, [Jump(clear, p + 1 + (h + 7) \div 8) EXCEPT !.hints = h, !.masked = TRUE])
              [] op \in MoveOps ->
                   IF Len(s) # (IF op = 21 THEN 2 ELSE 1) THEN Refused
                   ELSE LET at == CASE op = 21 -> <<m.at[1] + s[1], m.at[2] + s[2]>> [] op = 22 -> <<m.at[1] + s[1], m.at[2]>> [] op = 4 -> <<m.at[1], m.at[2] + s[1]>>
                        IN Run(f, g, [clear EXCEPT !.at = at, !.moved = TRUE, !.out = Append(@, [k |-> 0, p |-> <<at>>])])
              [] op \in DrawOps ->
                   IF ~m.moved THEN Refused
                   ELSE LET d == Draw(op, m.s)
                        IN IF d.ok = "bad" THEN Refused
                           ELSE IF d.ok = "unsettled" THEN Unsettled
                           ELSE LET q == Place(d.segs, m.at, <<>>) IN Run(f, g, [clear EXCEPT !.at = q.at, !.out = @ \o q.segs])
              [] op \in {10, 29} ->
                   IF m.s = <<>> THEN Refused
                   ELSE LET subrs == IF op = 29 THEN f.g ELSE f.l[f.fd[g + 1]]
                            v == m.s[Len(m.s)]
                            i == v \div 16 + Bias(Len(subrs))
                        IN IF v % 16 # 0 THEN Unsettled
                           ELSE IF i \notin 0..(Len(subrs) - 1) THEN Refused
                           ELSE IF Len(m.code) - 1 > MaxNest THEN Refused
                           ELSE IF Len(m.code) - 1 = MaxNest THEN Unsettled      \* a level more than the limit may be let through
                           ELSE Run(f, g, [n EXCEPT !.s = SubSeq(@, 1, Len(@) - 1), !.code = Append(@, [b |-> subrs[i + 1], p |-> 1])])
              [] op = 11 -> IF Len(m.code) = 1 THEN Refused ELSE Run(f, g, [n EXCEPT !.code = SubSeq(@, 1, Len(@) - 1)])
              \* arithmetic and storage operators need not be supported
              [] op \in 1000..1033 -> Unsettled
              [] OTHER -> Refused

Start(b) == [code |-> <<[b |-> b, p |-> 1]>>, s |-> <<>>, at |-> <<0, 0>>, out |-> <<>>, hints |-> 0, moved |-> FALSE, masked |-> FALSE, wide |-> FALSE, steps |-> 0]

Exec(f, g) == IF g >= Len(f.cs) THEN Refused ELSE Run(f, g, Start(f.cs[g + 1]))

-----------------------------------------------------------------------------
(* Bounds of the control points, and whether there are curves               *)
Points(out) == FlattenSeq([i \in 1..Len(out) |-> out[i].p])
Curved(out) == \E i \in 1..Len(out) : out[i].k = 3

(* Encoders for the design model: all forms of a number, in sixteenths      *)
Byte2(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
NumForms(v) ==
  (IF v \in -107..107 THEN {<<v + 139>>} ELSE {})
  \cup (IF v \in 108..1131 THEN {<<247 + (v - 108) \div 256, (v - 108) % 256>>} ELSE {})
  \cup (IF v \in -1131..-108 THEN {<<251 + (-v - 108) \div 256, (-v - 108) % 256>>} ELSE {})
  \cup {<<28>> \o Byte2(v)} \cup {<<255>> \o Byte2(v) \o <<0, 0>>}
Num(v) == CHOOSE x \in NumForms(v) : \A y \in NumForms(v) : Len(x) <= Len(y)
Nums(vs) == FlattenSeq([i \in 1..Len(vs) |-> Num(vs[i])])
OpBytes(op) == IF op >= 1000 THEN <<12, op - 1000>> ELSE <<op>>
=============================================================================
