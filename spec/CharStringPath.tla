--------------------------- MODULE CharStringPath ---------------------------
(* Compares a drawn path with the outline of a CFF glyph (module CharString):*)
(* e.ops: the drawn path with coordinates times 64, drawn at e.x64/64,       *)
(* e.y64/64 with scale e.f4/4.                                               *)
EXTENDS CharString

\* contours as sequences of <<start, segments>>; segments [k, p]
Line(p) == [k |-> 1, p |-> <<p>>]
EndOf(s) == s.p[Len(s.p)]
RECURSIVE NoZero(_, _, _)
NoZero(at, segs, acc) ==      \* without lines of no length
  IF segs = <<>> THEN acc
  ELSE LET s == Head(segs) IN NoZero(EndOf(s), Tail(segs), IF s.k = 1 /\ s.p[1] = at THEN acc ELSE Append(acc, s))
Closed(start, segs) ==
  LET last == IF segs = <<>> THEN start ELSE EndOf(segs[Len(segs)])
  IN NoZero(start, IF last = start THEN segs ELSE Append(segs, Line(start)), <<>>)

RECURSIVE Want(_, _, _)
Want(out, cur, acc) ==
  LET flush == IF cur = <<>> THEN acc ELSE Append(acc, [at |-> cur[1], segs |-> Closed(cur[1], cur[2])])
  IN IF out = <<>> THEN flush
     ELSE LET o == Head(out)
          IN IF o.k = 0 THEN Want(Tail(out), <<o.p[1], <<>>>>, flush)
             ELSE Want(Tail(out), <<cur[1], Append(cur[2], o)>>, acc)

Broken == [ok |-> FALSE, cs |-> <<>>]
PtsOf(o) == [i \in 1..((Len(o) - 1) \div 2) |-> <<o[2 * i], o[2 * i + 1]>>]
RECURSIVE Got(_, _, _, _)
Got(ops, i, cur, acc) ==
  IF i > Len(ops) THEN [ok |-> cur = <<>>, cs |-> acc]
  ELSE LET o == ops[i]
       IN CASE o[1] = 0 -> IF cur # <<>> THEN Broken ELSE Got(ops, i + 1, <<PtsOf(o)[1], <<>>>>, acc)
            [] o[1] = 4 /\ cur # <<>> -> Got(ops, i + 1, <<>>, Append(acc, [at |-> cur[1], segs |-> Closed(cur[1], cur[2])]))
            [] o[1] = 4 -> Got(ops, i + 1, <<>>, acc)
            [] o[1] \in {1, 3} /\ cur # <<>> -> Got(ops, i + 1, <<cur[1], Append(cur[2], [k |-> o[1], p |-> PtsOf(o)])>>, acc)
            [] OTHER -> Broken

Drawn(cs) == SelectSeq(cs, LAMBDA c : c.segs # <<>>)

PtOK(e, q, d) == d[1] = e.x64 + e.f4 * q[1] /\ d[2] = e.y64 + e.f4 * q[2]
ContourOK(e, w, h) ==
  /\ PtOK(e, w.at, h.at)
  /\ Len(w.segs) = Len(h.segs)
  /\ \A i \in 1..Len(w.segs) : w.segs[i].k = h.segs[i].k /\ \A j \in 1..Len(w.segs[i].p) : PtOK(e, w.segs[i].p[j], h.segs[i].p[j])

PathOK(e, out) ==
  LET got == Got(e.ops, 1, <<>>, <<>>)
      want == Drawn(Want(out, <<>>, <<>>))
      have == Drawn(got.cs)
  IN IF ~got.ok THEN {"a contour is not closed or a curve has no start"}
     ELSE IF Len(want) # Len(have) THEN {"number of contours"}
     ELSE IF \E i \in 1..Len(want) : ~ContourOK(e, want[i], have[i]) THEN {"outline"} ELSE {}
=============================================================================
