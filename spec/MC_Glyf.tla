------------------------------ MODULE MC_Glyf ------------------------------
(***************************************************************************)
(* Simple glyphs built point by point, every point with one of the legal   *)
(* encodings of its deltas.  Decoding gives the points back, and the path  *)
(* passes every on-curve point, bends at every off-curve point and is      *)
(* closed.  Every glyph is exported as bytes.                              *)
(***************************************************************************)
EXTENDS Glyf, TLC, Json

CONSTANTS MaxPts, Menu, Export

Deltas == CASE Menu = 1 -> { <<7, 0, "short", "same">>, <<0, -5, "same", "short">>, <<-300, 4, "long", "long">> }
            [] Menu = 2 -> { <<7, 0, "short", "same">>, <<0, -5, "same", "short">>, <<-300, 4, "long", "long">>, <<0, 0, "long", "short">>, <<-255, 255, "short", "short">>, <<0, 600, "same", "long">> }

VARIABLES pts, ends, rep
vars == <<pts, ends, rep>>

Init == pts = <<>> /\ ends = <<>> /\ rep \in BOOLEAN
Add == /\ Len(pts) < MaxPts
       /\ \E d \in Deltas : \E on \in BOOLEAN : pts' = Append(pts, [dx |-> d[1], dy |-> d[2], hx |-> d[3], hy |-> d[4], on |-> on])
       /\ UNCHANGED <<ends, rep>>
End == /\ pts # <<>>
       /\ ends # <<>> => ends[Len(ends)] < Len(pts) - 1
       /\ ends' = Append(ends, Len(pts) - 1)
       /\ UNCHANGED <<pts, rep>>
Next == Add \/ End
Spec == Init /\ [][Next]_vars

Done == ends # <<>> /\ ends[Len(ends)] = Len(pts) - 1
Bytes == EncodeSimple(pts, ends, <<-10, -20, 30, 40>>, <<7, 8>>, rep)
G == Simple(Bytes)

RECURSIVE Sum(_, _)
Sum(f(_), k) == IF k = 0 THEN 0 ELSE f(k) + Sum(f, k - 1)

Decodes == Done => /\ G.st = "ok" /\ Len(G.pts) = Len(pts) /\ G.ends = ends /\ G.ins = <<7, 8>>
                   /\ \A k \in 1..Len(pts) : /\ G.pts[k].on = pts[k].on
                                             /\ G.pts[k].x = Sum(LAMBDA i : pts[i].dx, k)
                                             /\ G.pts[k].y = Sum(LAMBDA i : pts[i].dy, k)
\* every proper prefix of the bytes is refused
Prefix == Done => \A k \in 0..(Len(Bytes) - 1) : k >= 10 => Simple(SubSeq(Bytes, 1, k)).st # "ok"

Closed(s) == s = <<>> \/ \A k \in 1..Len(s) : s[k].s = s[IF k = 1 THEN Len(s) ELSE k - 1].p
Drawn == Done =>
  \A i \in 1..Len(ends) :
    LET c == ContourPts(G, i)
        s == Segs(c)
    IN /\ Closed(s)
       /\ Len(c) > 1 =>
            /\ {Pt(c[k]) : k \in {j \in 1..Len(c) : c[j].on}} \subseteq {s[k].p : k \in 1..Len(s)}
            /\ Len(SelectSeq(s, LAMBDA x : x.c # <<>>)) = Cardinality({j \in 1..Len(c) : ~c[j].on})

Plans == (Export /\ Done) => PrintT("PLAN " \o ToJson([glyphs |-> <<Bytes>>]))
=============================================================================
