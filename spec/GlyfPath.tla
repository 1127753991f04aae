------------------------------ MODULE GlyfPath ------------------------------
(* Compares a drawn path with the outline of a TrueType glyph (module Glyf). *)
(* e.ops: the drawn path with coordinates times 8 (0 move, 1 line,           *)
(* 2 quadratic, 4 close), drawn at e.x8/8, e.y8/8 with scale e.f4/4.         *)
EXTENDS Glyf

\* the drawn contours: sequences of segments as in module Glyf; <<>> of the malformed ones is reported separately
Broken == [ok |-> FALSE, cs |-> <<>>]
RECURSIVE Split(_, _, _, _)
Split(ops, i, cur, acc) ==      \* cur: <<start, position, segments>> or <<>>
  IF i > Len(ops) THEN [ok |-> cur = <<>>, cs |-> acc]
  ELSE LET o == ops[i]
       IN CASE o[1] = 0 -> IF cur # <<>> THEN Broken ELSE Split(ops, i + 1, << <<o[2], o[3]>>, <<o[2], o[3]>>, <<>> >>, acc)
            [] cur = <<>> -> Broken
            [] o[1] = 1 -> Split(ops, i + 1, <<cur[1], <<o[2], o[3]>>, Append(cur[3], [c |-> <<>>, s |-> cur[2], p |-> <<o[2], o[3]>>])>>, acc)
            [] o[1] = 2 -> Split(ops, i + 1, <<cur[1], <<o[4], o[5]>>, Append(cur[3], [c |-> <<o[2], o[3]>>, s |-> cur[2], p |-> <<o[4], o[5]>>])>>, acc)
            [] o[1] = 4 -> Split(ops, i + 1, <<>>, Append(acc, SelectSeq(IF cur[2] = cur[1] THEN cur[3] ELSE Append(cur[3], [c |-> <<>>, s |-> cur[2], p |-> cur[1]]), LAMBDA s : ~Degenerate(s))))
            [] OTHER -> Broken

\* expected point q (doubled) against drawn point d (times 8)
PtOK(e, q, d) == /\ AbsV(d[1] - (e.x8 + e.f4 * q[1])) <= AbsV(e.f4) * q[3]
                 /\ AbsV(d[2] - (e.y8 + e.f4 * q[2])) <= AbsV(e.f4) * q[4]
SegOK(e, a, b) == /\ (a.c = <<>>) = (b.c = <<>>)
                  /\ a.c # <<>> => PtOK(e, a.c, b.c)
                  /\ PtOK(e, a.s, b.s) /\ PtOK(e, a.p, b.p)
ContourOK(e, want, got) ==
  \/ \E k \in 1..Len(want) : want[k].c = <<>> /\ (want[k].p[3] > 0 \/ want[k].p[4] > 0 \/ want[k].s[3] > 0 \/ want[k].s[4] > 0)
        /\ AbsV(want[k].p[1] - want[k].s[1]) <= want[k].p[3] + want[k].s[3] /\ AbsV(want[k].p[2] - want[k].s[2]) <= want[k].p[4] + want[k].s[4]
  \/ /\ Len(want) = Len(got)
     /\ Len(want) = 0 \/ \E r \in 0..(Len(want) - 1) : \A k \in 1..Len(want) : SegOK(e, want[((k + r - 1) % Len(want)) + 1], got[k])
NonEmpty(cs) == SelectSeq(cs, LAMBDA s : s # <<>>)

PathOK(e, G) ==
  LET got == Split(e.ops, 1, <<>>, <<>>)
      want == NonEmpty(Path(G))
      have == NonEmpty(got.cs)
  IN IF ~got.ok THEN {"a contour is not closed or a curve has no start"}
     ELSE IF Len(want) # Len(have) THEN {"number of contours"}
     ELSE IF \E i \in 1..Len(want) : ~ContourOK(e, want[i], have[i]) THEN {"outline"} ELSE {}
=============================================================================
