-------------------------------- MODULE Glyf --------------------------------
(***************************************************************************)
(* TrueType glyphs: from the bytes of the glyf and loca tables to the path *)
(* that has to be drawn.  Bytes are integers 0..255.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions

Sgn16(v) == IF v >= 32768 THEN v - 65536 ELSE v
Sgn8(v)  == IF v >= 128 THEN v - 256 ELSE v
U16(b, p) == b[p + 1] * 256 + b[p + 2]            \* p counts bytes from 0
I16(b, p) == Sgn16(U16(b, p))
Bit(v, k) == (v \div k) % 2 = 1                   \* k a power of two
AbsV(a) == IF a < 0 THEN -a ELSE a

\* results of decoding: "ok" with fields, "bad" must be refused, "unsettled" is not settled by the format
Bad == [st |-> "bad"]
Unsettled == [st |-> "unsettled"]

-----------------------------------------------------------------------------
(* Locating a glyph: f is [glyf, loca (offsets in bytes), n]                *)
GlyphData(f, g) ==
  IF g >= f.n THEN Bad
  ELSE LET a == f.loca[g + 1]
           z == f.loca[g + 2]
       IN IF z < a \/ z > Len(f.glyf) THEN Bad ELSE [st |-> "ok", b |-> SubSeq(f.glyf, a + 1, z)]

-----------------------------------------------------------------------------
(* Simple glyphs                                                            *)
\* flags of n points from position p: [ok, flags, p]
RECURSIVE Flags(_, _, _, _)
Flags(b, p, n, acc) ==
  IF Len(acc) = n THEN [st |-> "ok", fl |-> acc, p |-> p]
  ELSE IF p >= Len(b) THEN Bad
  ELSE LET v == b[p + 1]
       IN IF ~Bit(v, 8) THEN Flags(b, p + 1, n, Append(acc, v))
          ELSE IF p + 1 >= Len(b) THEN Bad
          ELSE LET k == b[p + 2] + 1
               IN IF Len(acc) + k > n THEN Unsettled ELSE Flags(b, p + 2, n, acc \o [i \in 1..k |-> v])

\* coordinates: bit s says one byte, bit m then its sign, or else "same as before"
RECURSIVE Coords(_, _, _, _, _, _, _)
Coords(b, p, fl, s, m, v, acc) ==
  IF Len(acc) = Len(fl) THEN [st |-> "ok", v |-> acc, p |-> p]
  ELSE LET f == fl[Len(acc) + 1]
           size == IF Bit(f, s) THEN 1 ELSE IF Bit(f, m) THEN 0 ELSE 2
       IN IF p + size > Len(b) THEN Bad
          ELSE LET w == CASE size = 1 -> v + (IF Bit(f, m) THEN b[p + 1] ELSE -b[p + 1])
                          [] size = 0 -> v
                          [] size = 2 -> v + I16(b, p)
               IN Coords(b, p + size, fl, s, m, w, Append(acc, w))

Simple(b) ==
  LET nc == I16(b, 0)
      ip == 10 + 2 * nc
  IN IF Len(b) < ip + 2 THEN Bad
     ELSE LET ends == [i \in 1..nc |-> U16(b, 10 + 2 * (i - 1))]
              il == U16(b, ip)
              n == IF nc = 0 THEN 0 ELSE ends[nc] + 1
          IN IF \E i \in 2..nc : ends[i] <= ends[i - 1] THEN Unsettled
             ELSE IF Len(b) < ip + 2 + il THEN Bad
             ELSE LET F == Flags(b, ip + 2 + il, n, <<>>)
                  IN IF F.st # "ok" THEN F
                     ELSE LET X == Coords(b, F.p, F.fl, 2, 16, 0, <<>>)
                          IN IF X.st # "ok" THEN X
                             ELSE LET Y == Coords(b, X.p, F.fl, 4, 32, 0, <<>>)
                                  IN IF Y.st # "ok" THEN Y
                                     ELSE IF \E i \in 1..n : AbsV(X.v[i]) > 32000 \/ AbsV(Y.v[i]) > 32000 THEN Unsettled
                                     ELSE [st |-> "ok", ends |-> ends, ins |-> SubSeq(b, ip + 3, ip + 2 + il), deps |-> {},
                                           pts |-> [i \in 1..n |-> [x |-> X.v[i], y |-> Y.v[i], on |-> Bit(F.fl[i], 1), ex |-> 0, ey |-> 0]]]

-----------------------------------------------------------------------------
(* Composite glyphs.  A point carries how far its coordinates may be off    *)
(* because transformed coordinates are rounded (ex, ey).                    *)
MaxDepth == 8       \* composites inside composites

CompSize(fl) == 4 + (IF Bit(fl, 1) THEN 4 ELSE 2) + (IF Bit(fl, 8) THEN 2 ELSE IF Bit(fl, 64) THEN 4 ELSE IF Bit(fl, 128) THEN 8 ELSE 0)

Times(c, t) == c * t        \* coordinates and F2Dot14 factors stay far below 2^31
Near(p) == (p + 8192) \div 16384
Exact(p) == p % 16384 = 0
CeilDiv(a) == (a + 16383) \div 16384

Moved(q, fl, dx, dy, t) ==
  IF ~(Bit(fl, 8) \/ Bit(fl, 64) \/ Bit(fl, 128)) THEN [q EXCEPT !.x = @ + dx, !.y = @ + dy]
  ELSE LET ax == Times(q.x, t[1])
           cx == Times(q.y, t[3])
           by == Times(q.x, t[2])
           dyy == Times(q.y, t[4])
       IN [q EXCEPT !.x = dx + Near(ax + cx), !.y = dy + Near(by + dyy),
                    !.ex = (IF Exact(ax) /\ Exact(cx) THEN 0 ELSE 1) + CeilDiv(q.ex * AbsV(t[1]) + q.ey * AbsV(t[3])),
                    !.ey = (IF Exact(by) /\ Exact(dyy) THEN 0 ELSE 1) + CeilDiv(q.ex * AbsV(t[2]) + q.ey * AbsV(t[4]))]

RECURSIVE Decode(_, _, _)
RECURSIVE Comps(_, _, _, _, _)
Comps(f, b, p, depth, acc) ==
  IF p + 4 > Len(b) THEN Bad
  ELSE
    LET fl == U16(b, p)
        sub == U16(b, p + 2)
        q == p + (IF Bit(fl, 1) THEN 8 ELSE 6)
        z == p + CompSize(fl)
    IN IF ~Bit(fl, 2) THEN Bad                     \* point matching is not supported
       ELSE IF z > Len(b) THEN Bad
       ELSE
         LET dx == IF Bit(fl, 1) THEN I16(b, p + 4) ELSE Sgn8(b[p + 5])
             dy == IF Bit(fl, 1) THEN I16(b, p + 6) ELSE Sgn8(b[p + 6])
             t == IF Bit(fl, 8) THEN <<I16(b, q), 0, 0, I16(b, q)>>
                  ELSE IF Bit(fl, 64) THEN <<I16(b, q), 0, 0, I16(b, q + 2)>>
                  ELSE IF Bit(fl, 128) THEN <<I16(b, q), I16(b, q + 2), I16(b, q + 4), I16(b, q + 6)>>
                  ELSE <<16384, 0, 0, 16384>>
             G == Decode(f, sub, depth + 1)
         IN IF G.st # "ok" THEN G
            ELSE
              LET tr == Bit(fl, 8) \/ Bit(fl, 64) \/ Bit(fl, 128)
                  far == tr /\ \E i \in 1..Len(G.pts) : AbsV(G.pts[i].x) > 8000 \/ AbsV(G.pts[i].y) > 8000
                  n == Len(acc.pts)
                  \* scaled component offsets are another reading of the same bytes
                  amb == tr /\ Bit(fl, 2048)
              IN IF far \/ amb THEN Unsettled
                 ELSE LET more == [pts |-> acc.pts \o [i \in 1..Len(G.pts) |-> Moved(G.pts[i], fl, dx, dy, t)],
                                   ends |-> acc.ends \o [i \in 1..Len(G.ends) |-> G.ends[i] + n],
                                   deps |-> acc.deps \cup {sub} \cup G.deps,
                                   ins |-> acc.ins \/ Bit(fl, 256)]
                      IN IF \E i \in 1..Len(more.pts) : AbsV(more.pts[i].x) > 32000 \/ AbsV(more.pts[i].y) > 32000 THEN Unsettled
                         ELSE IF Bit(fl, 32) THEN Comps(f, b, z, depth, more)
                         ELSE IF more.ins /\ (z + 2 > Len(b) \/ z + 2 + U16(b, z) > Len(b)) THEN Bad
                         ELSE [st |-> "ok", pts |-> more.pts, ends |-> more.ends, deps |-> more.deps,
                               ins |-> IF more.ins THEN SubSeq(b, z + 3, z + 2 + U16(b, z)) ELSE <<>>]

Decode(f, g, depth) ==
  LET D == GlyphData(f, g)
  IN IF D.st # "ok" THEN D
     ELSE IF D.b = <<>> THEN [st |-> "ok", pts |-> <<>>, ends |-> <<>>, deps |-> {}, ins |-> <<>>]
     ELSE IF Len(D.b) < 10 THEN Bad
     ELSE IF I16(D.b, 0) >= 0 THEN Simple(D.b)
     ELSE IF depth >= MaxDepth THEN Bad
     ELSE IF I16(D.b, 0) < -1 THEN Unsettled
     ELSE Comps(f, D.b, 10, depth, [pts |-> <<>>, ends |-> <<>>, deps |-> {}, ins |-> FALSE])

Box(f, g) == LET D == GlyphData(f, g) IN IF D.st # "ok" \/ Len(D.b) < 10 THEN <<0, 0, 0, 0>> ELSE <<I16(D.b, 2), I16(D.b, 4), I16(D.b, 6), I16(D.b, 8)>>

-----------------------------------------------------------------------------
(* Drawing.  A contour is a cyclic sequence of segments; coordinates are    *)
(* doubled so that implied points are integers.  A segment is               *)
(* [c: control point or <<>>, p: end point], points are <<x, y, ex, ey>>.   *)
Pt(q) == <<2 * q.x, 2 * q.y, 2 * q.ex, 2 * q.ey>>
Mid(a, b) == <<a.x + b.x, a.y + b.y, a.ex + b.ex, a.ey + b.ey>>

ContourPts(G, i) == SubSeq(G.pts, (IF i = 1 THEN 0 ELSE G.ends[i - 1] + 1) + 1, G.ends[i] + 1)

\* segments that end in or pass point k of a contour
Segs(c) ==
  LET n == Len(c)
      nxt(k) == c[(k % n) + 1]
      prv(k) == c[((k + n - 2) % n) + 1]
      From(k) ==
        IF c[k].on THEN (IF prv(k).on THEN << [c |-> <<>>, s |-> Pt(prv(k)), p |-> Pt(c[k])] >> ELSE <<>>)
        ELSE << [c |-> Pt(c[k]), s |-> IF prv(k).on THEN Pt(prv(k)) ELSE Mid(prv(k), c[k]), p |-> IF nxt(k).on THEN Pt(nxt(k)) ELSE Mid(c[k], nxt(k))] >>
  IN IF n = 1 THEN <<>> ELSE FlattenSeq([k \in 1..n |-> From(k)])

Degenerate(s) == s.c = <<>> /\ s.s = s.p
Path(G) == [i \in 1..Len(G.ends) |-> SelectSeq(Segs(ContourPts(G, i)), LAMBDA s : ~Degenerate(s))]

-----------------------------------------------------------------------------
(* The encoder of the design model: points with chosen encodings.           *)
Byte2(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
\* how: "short", "long" or "same"
Enc1(d, how) == CASE how = "short" -> <<AbsV(d)>> [] how = "long" -> Byte2(d) [] how = "same" -> <<>>
FlagOf(q) == (IF q.on THEN 1 ELSE 0)
  + (CASE q.hx = "short" -> 2 + (IF q.dx >= 0 THEN 16 ELSE 0) [] q.hx = "same" -> 16 [] q.hx = "long" -> 0)
  + (CASE q.hy = "short" -> 4 + (IF q.dy >= 0 THEN 32 ELSE 0) [] q.hy = "same" -> 32 [] q.hy = "long" -> 0)

RECURSIVE PackFlags(_, _)
PackFlags(fl, rep) ==
  IF fl = <<>> THEN <<>>
  ELSE LET same == CHOOSE k \in 1..Len(fl) : (\A j \in 1..k : fl[j] = fl[1]) /\ (k = Len(fl) \/ fl[k + 1] # fl[1])
       IN IF rep /\ same > 1 THEN <<fl[1] + 8, same - 1>> \o PackFlags(SubSeq(fl, same + 1, Len(fl)), rep)
          ELSE <<fl[1]>> \o PackFlags(Tail(fl), rep)

EncodeSimple(pts, ends, box, ins, rep) ==
  Byte2(Len(ends)) \o FlattenSeq([i \in 1..4 |-> Byte2(box[i])]) \o FlattenSeq([i \in 1..Len(ends) |-> Byte2(ends[i])]) \o Byte2(Len(ins)) \o ins
  \o PackFlags([i \in 1..Len(pts) |-> FlagOf(pts[i])], rep)
  \o FlattenSeq([i \in 1..Len(pts) |-> Enc1(pts[i].dx, pts[i].hx)])
  \o FlattenSeq([i \in 1..Len(pts) |-> Enc1(pts[i].dy, pts[i].hy)])
=============================================================================
