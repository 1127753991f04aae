------------------------------ MODULE MC_Woff2 -----------------------------
(***************************************************************************)
(* The number encodings, the table of coordinate codes row by row, and     *)
(* small fonts in every combination of legal choices of a WOFF2 writer,    *)
(* with one fault of each kind.  A reference encoder is checked against    *)
(* the decoder of Woff2; the files are exported as plans that are replayed *)
(* with real fonts and real Brotli streams.                                *)
(***************************************************************************)
EXTENDS Woff2, Json

CONSTANTS Rich, Export

VARIABLES c, b, o
vars == <<c, b, o>>

B2(v) == <<(v \div 256) % 256, v % 256>>
B4(v) == B2(v \div 65536) \o B2(v % 65536)
S2(v) == B2(IF v < 0 THEN v + 65536 ELSE v)

-----------------------------------------------------------------------------
(* Numbers                                                                  *)
Nums == {0, 1, 2, 63, 64, 127, 128, 129, 252, 253, 254, 255, 256, 505, 506, 507, 508, 509, 510, 761, 762, 763, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435455, 268435456, 536870911}
RECURSIVE Seven(_, _)
Seven(v, last) == (IF v >= 128 THEN Seven(v \div 128, FALSE) ELSE <<>>) \o << IF last THEN v % 128 ELSE 128 + (v % 128) >>
Enc128(v) == Seven(v, TRUE)
Enc255(v, form) == CASE form = "word" -> <<253>> \o B2(v) [] form = "one" -> <<255, v - 253>> [] form = "two" -> <<254, v - 506>> [] OTHER -> <<v>>
Fits255(v, form) == CASE form = "word" -> v < 65536 [] form = "one" -> v >= 253 /\ v < 509 [] form = "two" -> v >= 506 /\ v < 762 [] OTHER -> v < 253
Forms == {"word", "one", "two", "byte"}

\* the rows of the table of coordinate codes: number of bits of x and y, what is added, and the signs
Row(i) ==
  IF i < 10 THEN [xb |-> 0, yb |-> 8, ax |-> 0, ay |-> <<0, 0, 256, 256, 512, 512, 768, 768, 1024, 1024>>[i + 1], sx |-> 0, sy |-> IF i % 2 = 0 THEN -1 ELSE 1]
  ELSE IF i < 20 THEN [xb |-> 8, yb |-> 0, ax |-> <<0, 0, 256, 256, 512, 512, 768, 768, 1024, 1024>>[i - 9], ay |-> 0, sx |-> IF i % 2 = 0 THEN -1 ELSE 1, sy |-> 0]
  ELSE LET g == IF i < 84 THEN i - 20 ELSE IF i < 120 THEN i - 84 ELSE i - 120
           sx == IF i % 2 = 0 THEN -1 ELSE 1
           sy == IF (g \div 2) % 2 = 0 THEN -1 ELSE 1
       IN IF i < 84 THEN [xb |-> 4, yb |-> 4, ax |-> <<1, 17, 33, 49>>[g \div 16 + 1], ay |-> <<1, 17, 33, 49>>[(g % 16) \div 4 + 1], sx |-> sx, sy |-> sy]
          ELSE IF i < 120 THEN [xb |-> 8, yb |-> 8, ax |-> <<1, 257, 513>>[g \div 12 + 1], ay |-> <<1, 257, 513>>[(g % 12) \div 4 + 1], sx |-> sx, sy |-> sy]
          ELSE IF i < 124 THEN [xb |-> 12, yb |-> 12, ax |-> 0, ay |-> 0, sx |-> sx, sy |-> sy]
          ELSE [xb |-> 16, yb |-> 16, ax |-> 0, ay |-> 0, sx |-> sx, sy |-> sy]
BitsOf(q) == FlattenSeq([i \in 1..Len(q) |-> [k \in 1..8 |-> (q[i] \div 2 ^ (8 - k)) % 2]])
Val(bs) == FoldLeft(LAMBDA a, x : (2 * a) + x, 0, bs)
ByRow(i, q) == LET w == Row(i) z == BitsOf(q)
               IN [dx |-> w.sx * (w.ax + Val(SubSeq(z, 1, w.xb))), dy |-> w.sy * (w.ay + Val(SubSeq(z, w.xb + 1, w.xb + w.yb)))]
QMenu == {0, 1, 15, 16, 128, 170, 255}

\* every code that stands for a change of coordinates, with its bytes
InRange(v, a, w) == v >= a /\ v < a + (2 ^ w)
Signed(v, s) == IF s = 0 THEN v = 0 ELSE IF s < 0 THEN v <= 0 ELSE v >= 0
CodeOf(i, dx, dy) ==
  LET w == Row(i) IN
  IF ~(Signed(dx, w.sx) /\ Signed(dy, w.sy) /\ InRange(AbsV(dx), w.ax, w.xb) /\ InRange(AbsV(dy), w.ay, w.yb)) THEN <<>>
  ELSE LET z == BitsOf(B2(AbsV(dx) - w.ax))
           y == BitsOf(B2(AbsV(dy) - w.ay))
           all == SubSeq(z, 17 - w.xb, 16) \o SubSeq(y, 17 - w.yb, 16)
       IN [k \in 1..(Len(all) \div 8) |-> Val(SubSeq(all, (8 * k) - 7, 8 * k))]
CodesOf(dx, dy) == {i \in 0..127 : CodeOf(i, dx, dy) # <<>>}

-----------------------------------------------------------------------------
(* Small fonts: glyph 0 is empty, 1 and 3 are simple, 2 is a composite      *)
Moves == << <<0, 0>>, <<3, -5>>, <<0, 300>>, <<-70, 1>>, <<1279, 0>>, <<-64, 64>>, <<769, -2>>, <<5000, -4095>> >>
NumSet == [k : {"num"}, v : Nums]
U255Set == [k : {"u255"}, v : {n \in Nums : n < 65536}, form : Forms]
TripSet == [k : {"trip"}, i : 0..127, q1 : QMenu, q2 : QMenu]
MoveSet == [k : {"move"}, m : 1..Len(Moves), i : 0..127]
\* triplets: which of the codes that fit is taken, "first" or "last"; form: of the numbers of points and instructions
FileSet == {[k |-> "file", glyf |-> g, trip |-> t, form |-> f, bbox |-> x, ov |-> v, fmt |-> m, hm |-> h, nhm |-> n, tag |-> a, order |-> r, fault |-> q] :
              g \in BOOLEAN, t \in {"first", "last"}, f \in {"byte", "word"}, x \in {"all", "need"}, v \in {"none", "clear", "set"}, m \in {0, 1}, h \in 0..3, n \in {1, 3, 4}, a \in {"known", "spelt"},
              r \in {"up", "down"}, q \in {"no", "boxempty", "nobox", "stream", "tables", "sig", "tv", "brotli", "hmshort", "hmlong", "hmbits", "loca", "locasize", "bit11", "dsig", "head", "length", "reserved"}}
Files == {x \in FileSet : /\ (~x.glyf => x.trip = "first" /\ x.form = "byte" /\ x.bbox = "all" /\ x.ov = "none")
                          /\ (x.fault \in {"boxempty", "nobox", "stream", "loca", "locasize"} => x.glyf)
                          /\ (x.fault \in {"hmshort", "hmlong", "hmbits"} => x.hm # 0)
                          /\ (x.fault # "no" => x.trip = "first" /\ x.form = "byte" /\ x.order = "up" /\ x.tag = "known" /\ x.ov # "clear")
                          /\ (~Rich => ((x.tag = "known") = (x.order = "up")) /\ (x.fault # "no" => x.nhm = 3 /\ x.fmt = 0))}
Cases == NumSet \cup {x \in U255Set : Fits255(x.v, x.form)} \cup TripSet \cup MoveSet \cup Files

Pts == << << <<10, 0>>, <<3, -5>>, <<0, 300>> >>, << <<-70, 1>>, <<1279, 0>> >> >>          \* two contours, moves
Ons == <<TRUE, FALSE, TRUE, TRUE, FALSE>>
AllPts == FlattenSeq(Pts)
Ins1 == <<1, 2, 3>>
SumX(k) == FoldLeft(LAMBDA a, m : a + m[1], 0, SubSeq(AllPts, 1, k))
SumY(k) == FoldLeft(LAMBDA a, m : a + m[2], 0, SubSeq(AllPts, 1, k))
Xs == TLCEval([i \in 1..5 |-> SumX(i)])
Ys == TLCEval([i \in 1..5 |-> SumY(i)])
\* glyph 1 has the box of its points, glyph 3 another one
Box1 == <<MinOf(Xs), MinOf(Ys), MaxOf(Xs), MaxOf(Ys)>>
Box2 == <<-11, -12, 13, 14>>
Box3 == <<Box1[1] - 1, Box1[2], Box1[3], Box1[4]>>
CompRaw == B2(2 + 1 + 32) \o B2(1) \o S2(100) \o S2(-3) \o B2(2 + 256 + 8) \o B2(3) \o <<5, 251>> \o S2(8192)
Ins2 == <<9>>
N == 4

BoxB(x) == S2(x[1]) \o S2(x[2]) \o S2(x[3]) \o S2(x[4])
\* as in a glyf table: coordinates two bytes each
RawSimple(box, ov) == B2(2) \o BoxB(box) \o B2(2) \o B2(4) \o B2(Len(Ins1)) \o Ins1
                      \o [i \in 1..5 |-> (IF Ons[i] THEN 1 ELSE 0) + (IF i = 1 /\ ov THEN 64 ELSE 0)]
                      \o FlattenSeq([i \in 1..5 |-> S2(AllPts[i][1])]) \o FlattenSeq([i \in 1..5 |-> S2(AllPts[i][2])])
RawComp == S2(-1) \o BoxB(Box2) \o CompRaw \o B2(Len(Ins2)) \o Ins2
Pad4(x) == x \o [i \in 1..(F!Padded(Len(x)) - Len(x)) |-> 0]
OvSet == c.ov = "set"
RawGlyphs == TLCEval(<< <<>>, Pad4(RawSimple(Box1, OvSet)), Pad4(RawComp), Pad4(RawSimple(Box3, FALSE)) >>)
LocaOf == LET raw == RawGlyphs IN FlattenSeq([g \in 1..(N + 1) |-> LET at == FoldLeft(LAMBDA a, x : a + Len(x), 0, SubSeq(raw, 1, g - 1)) IN IF c.fmt = 0 THEN B2(at \div 2) ELSE B4(at)])

\* the transformed table
Pick(m) == LET all == CodesOf(m[1], m[2]) IN IF c.trip = "first" THEN CHOOSE i \in all : \A j \in all : i <= j ELSE CHOOSE i \in all : \A j \in all : i >= j
Num(v) == IF c.form = "word" THEN <<253>> \o B2(v) ELSE <<v>>
GStream == FlattenSeq([i \in 1..5 |-> CodeOf(Pick(AllPts[i]), AllPts[i][1], AllPts[i][2])]) \o Num(Len(Ins1))
FStream == [i \in 1..5 |-> Pick(AllPts[i]) + (IF Ons[i] THEN 0 ELSE 128)]
Boxed == <<c.fault = "boxempty", c.bbox = "all", c.fault # "nobox", TRUE>>
Bitmap == << (IF Boxed[1] THEN 128 ELSE 0) + (IF Boxed[2] THEN 64 ELSE 0) + (IF Boxed[3] THEN 32 ELSE 0) + 16, 0, 0, 0 >>
Transformed ==
  LET s1 == S2(0) \o S2(2) \o S2(-1) \o S2(2)
      s2 == Num(3) \o Num(2) \o Num(3) \o Num(2)
      s3 == FStream \o FStream
      s4 == GStream \o Num(Len(Ins2)) \o GStream
      s5 == CompRaw
      s6 == Bitmap \o (IF Boxed[1] THEN BoxB(Box1) ELSE <<>>) \o (IF Boxed[2] THEN BoxB(Box1) ELSE <<>>) \o (IF Boxed[3] THEN BoxB(Box2) ELSE <<>>) \o BoxB(Box3)
      s7 == Ins1 \o Ins2 \o Ins1
      s8 == IF c.ov = "none" THEN <<>> ELSE << IF OvSet THEN 64 ELSE 0, 0, 0, 0 >>
      cut == IF c.fault = "stream" THEN 1 ELSE 0
  IN B2(0) \o B2(IF c.ov = "none" THEN 0 ELSE 1) \o B2(N) \o B2(c.fmt) \o B4(Len(s1)) \o B4(Len(s2)) \o B4(Len(s3)) \o B4(Len(s4)) \o B4(Len(s5)) \o B4(Len(s6)) \o B4(Len(s7) - cut)
     \o s1 \o s2 \o s3 \o s4 \o s5 \o s6 \o SubSeq(s7, 1, Len(s7) - cut) \o s8

\* metrics: a side bearing is left out where it is the left side of the box
Lefts == <<0, Box1[1], Box2[1], Box3[1]>>
Advs == <<500, 1000, 65535, 7>>
Lsb(g) == IF (IF g <= c.nhm THEN Bit(c.hm, 1) ELSE Bit(c.hm, 2)) THEN Lefts[g] ELSE 20 + g
RawHmtx == FlattenSeq([g \in 1..c.nhm |-> B2(Advs[g]) \o S2(Lsb(g))]) \o FlattenSeq([k \in 1..(N - c.nhm) |-> S2(Lsb(c.nhm + k))])
TransHmtx == << IF c.fault = "hmbits" THEN c.hm + 4 ELSE c.hm >> \o FlattenSeq([g \in 1..c.nhm |-> B2(Advs[g])])
             \o (IF Bit(c.hm, 1) THEN <<>> ELSE FlattenSeq([g \in 1..c.nhm |-> S2(Lsb(g))]))
             \o (IF Bit(c.hm, 2) THEN <<>> ELSE FlattenSeq([k \in 1..(N - c.nhm) |-> S2(Lsb(c.nhm + k))]))
HmData == IF c.hm = 0 THEN RawHmtx ELSE CASE c.fault = "hmshort" -> SubSeq(TransHmtx, 1, Len(TransHmtx) - 1) [] c.fault = "hmlong" -> Append(TransHmtx, 0) [] OTHER -> TransHmtx

HeadT == [i \in 1..54 |-> IF i = 17 THEN (IF c.fault = "bit11" THEN 0 ELSE 8) ELSE IF i = 52 THEN c.fmt ELSE IF i \in 9..12 \/ i = 51 THEN 0 ELSE i]
HheaT == [i \in 1..36 |-> IF i = 36 THEN c.nhm ELSE IF i = 35 THEN 0 ELSE 2]
MaxpT == <<0, 0, 80, 0, 0, N>>
Other == <<90, 90, 90, 90>>
GlyfT == FlattenSeq(RawGlyphs)
\* records [tag, data (in the stream), orig (length), tr]
Tables0 == << [tag |-> HHEA, raw |-> HheaT, data |-> HheaT, tr |-> FALSE], [tag |-> HMTX, raw |-> RawHmtx, data |-> HmData, tr |-> c.hm # 0], [tag |-> MAXP, raw |-> MaxpT, data |-> MaxpT, tr |-> FALSE],
              [tag |-> Other, raw |-> <<5, 6, 7>>, data |-> <<5, 6, 7>>, tr |-> FALSE], [tag |-> HEAD, raw |-> HeadT, data |-> HeadT, tr |-> FALSE] >>
GlyfLoca == << [tag |-> GLYF, raw |-> GlyfT, data |-> IF c.glyf THEN Transformed ELSE GlyfT, tr |-> c.glyf],
               [tag |-> LOCA, raw |-> LocaOf, data |-> IF ~c.glyf THEN LocaOf ELSE IF c.fault = "loca" THEN <<1>> ELSE <<>>, tr |-> c.glyf] >>
Rest == CASE c.fault = "head" -> SubSeq(Tables0, 1, 4) [] c.fault = "dsig" -> Append(Tables0, [tag |-> DSIG, raw |-> <<1>>, data |-> <<1>>, tr |-> FALSE]) [] OTHER -> Tables0
Order == TLCEval(IF c.order = "up" THEN Rest \o GlyfLoca ELSE GlyfLoca \o Reverse(Rest))

Entry(r) ==
  LET gl == r.tag \in {GLYF, LOCA}
      tv == IF c.fault = "tv" /\ r.tag = MAXP THEN 1 ELSE IF gl THEN (IF r.tr THEN 0 ELSE 3) ELSE IF r.tr THEN 1 ELSE 0
      kn == \E k \in 1..63 : KnownTags[k] = r.tag
      \* a known tag may be spelt out
      name == IF kn /\ c.tag = "known" THEN << 64 * tv + ((CHOOSE k \in 1..63 : KnownTags[k] = r.tag) - 1) >> ELSE << 64 * tv + 63 >> \o r.tag
      orig == IF c.fault = "locasize" /\ r.tag = LOCA /\ c.glyf THEN Len(r.raw) + 2 ELSE Len(r.raw)
  IN name \o Enc128(orig) \o (IF r.tr THEN Enc128(Len(r.data)) ELSE <<>>)
Data(ord) == FlattenSeq([i \in 1..Len(ord) |-> ord[i].data])
Payload == <<1, 2, 3, 4, 5>>            \* stands for the Brotli stream
File(ord) ==
  LET dir == TLCEval(FlattenSeq([i \in 1..Len(ord) |-> Entry(ord[i])]))
      len == 48 + Len(dir) + 8
  IN (IF c.fault = "sig" THEN <<119, 79, 70, 51>> ELSE <<119, 79, 70, 50>>) \o <<0, 1, 0, 0>> \o B4(IF c.fault = "length" THEN len + 1 ELSE len) \o B2(Len(ord)) \o B2(IF c.fault = "reserved" THEN 1 ELSE 0)
     \o B4(1000) \o B4(5) \o B2(1) \o B2(0) \o [i \in 1..20 |-> 0] \o dir \o Payload \o <<0, 0, 0>>
Stream(ord) == CASE c.fault = "brotli" -> [st |-> "bad", data |-> <<>>]
            [] c.fault = "tables" -> [st |-> "ok", data |-> Append(Data(ord), 0)]
            [] OTHER -> [st |-> "ok", data |-> Data(ord)]

\* the bare file
Sorted(ord) == LET n == Len(ord) IN TLCEval([k \in 1..n |-> ord[CHOOSE i \in 1..n : Cardinality({j \in 1..n : F!TagLess(ord[j].tag, ord[i].tag)}) = k - 1]])
Bare(ts) ==
  LET n == Len(ts)
      e == 2 ^ F!Log2(n)
      OffOf(k) == 12 + 16 * n + FoldLeft(LAMBDA a, r : a + F!Padded(Len(r.raw)), 0, SubSeq(ts, 1, k - 1))
      all == TLCEval(<<0, 1, 0, 0>> \o B2(n) \o B2(16 * e) \o B2(F!Log2(n)) \o B2(16 * n - 16 * e)
             \o FlattenSeq([k \in 1..n |-> LET x == F!SumOf(ts[k].raw) IN ts[k].tag \o B2(x[1]) \o B2(x[2]) \o B4(OffOf(k)) \o B4(Len(ts[k].raw))])
             \o FlattenSeq([k \in 1..n |-> Pad4(ts[k].raw)]))
      hs == {k \in 1..n : ts[k].tag = HEAD}
  IN IF hs = {} THEN all
     ELSE LET h == OffOf(CHOOSE k \in hs : TRUE)
              x == F!Sub(F!Whole, F!SumOf(all))
          IN SubSeq(all, 1, h + 8) \o B2(x[1]) \o B2(x[2]) \o SubSeq(all, h + 13, Len(all))
\* a bare file in which something differs
Spoilt(ts, what) ==
  LET Ed(r) == CASE what = "point" /\ r.tag = GLYF -> [r EXCEPT !.raw = [i \in 1..Len(r.raw) |-> IF i = 26 THEN (r.raw[i] + 1) % 256 ELSE r.raw[i]]]       \* x of the second point of glyph 1, its high byte
                 [] what = "box" /\ r.tag = GLYF -> [r EXCEPT !.raw = [i \in 1..Len(r.raw) |-> IF i = 4 THEN (r.raw[i] + 1) % 256 ELSE r.raw[i]]]
                 [] what = "lsb" /\ r.tag = HMTX -> [r EXCEPT !.raw = [i \in 1..Len(r.raw) |-> IF i = 4 THEN (r.raw[i] + 1) % 256 ELSE r.raw[i]]]
                 [] what = "adv" /\ r.tag = HMTX -> [r EXCEPT !.raw = [i \in 1..Len(r.raw) |-> IF i = 2 THEN (r.raw[i] + 1) % 256 ELSE r.raw[i]]]
                 [] what = "loca" /\ r.tag = LOCA -> [r EXCEPT !.raw = [i \in 1..Len(r.raw) |-> IF i = 1 + (IF c.fmt = 0 THEN 4 ELSE 8) THEN (r.raw[i] + 1) % 256 ELSE r.raw[i]]]
                 [] what = "byte" /\ r.tag = Other -> [r EXCEPT !.raw = <<5, 6, 8>>]
                 [] OTHER -> r
  IN Bare(TLCEval([k \in 1..Len(ts) |-> Ed(ts[k])]))

-----------------------------------------------------------------------------
Spoils == {"point", "box", "lsb", "adv", "byte", "loca"}
Init == c \in Cases /\ b = <<>> /\ o = <<>>
Next == /\ o = <<>> /\ c' = c
        /\ IF c.k # "file" THEN b' = <<0>> /\ o' = [st |-> "-"]
           ELSE LET ord == Order
                    d == TLCEval(Stream(ord))
                    ts == Sorted(ord)
                IN /\ b' = TLCEval(File(ord))
                   /\ o' = [st |-> Read2(b', d).st, good |-> Judge(b', d, TRUE, Bare(ts)), refuse |-> Judge(b', d, FALSE, <<>>),
                            seen |-> IF c.fault # "no" THEN {} ELSE {w \in Spoils : Judge(b', d, TRUE, Spoilt(ts, w)) # {}}]
Spec == Init /\ [][Next]_vars
Read == o # <<>>

\* numbers come back, and only the shortest form of a Base128 number is read
Numbers == c.k = "num" => LET e == Enc128(c.v) IN Base128(e, 0) = [st |-> "ok", v |-> c.v, p |-> Len(e)] /\ Base128(<<128>> \o e, 0).st = "bad" /\ Base128(SubSeq(e, 1, Len(e) - 1), 0).st = "bad"
Words == c.k = "u255" => LET e == Enc255(c.v, c.form) IN U255(e, 0) = [st |-> "ok", v |-> c.v, p |-> Len(e)] /\ U255(SubSeq(e, 1, Len(e) - 1), 0).st = "bad"
\* the decoder of coordinates is the table
Rows == c.k = "trip" => LET q == <<c.q1, c.q2, c.q1, c.q2>> w == Row(c.i) z == (w.xb + w.yb) \div 8 IN TripSize(c.i) = z /\ Triplet(c.i, SubSeq(q, 1, z)) = ByRow(c.i, SubSeq(q, 1, z))
Back == c.k = "move" => LET m == Moves[c.m] q == CodeOf(c.i, m[1], m[2]) IN q = <<>> \/ Triplet(c.i, q) = [dx |-> m[1], dy |-> m[2]]

Decodes == (Read /\ c.k = "file" /\ c.fault = "no") => o.st = "ok" /\ o.good = {} /\ o.refuse # {}
Refuses == (Read /\ c.k = "file" /\ c.fault \in {"boxempty", "nobox", "stream", "tables", "sig", "tv", "brotli", "hmshort"}) =>
             o.refuse = {} /\ o.good # {}
Permits == (Read /\ c.k = "file" /\ c.fault \in {"bit11", "dsig", "length", "reserved", "hmbits", "hmlong", "head", "locasize", "loca"}) => o.refuse = {}
Discerns == (Read /\ c.k = "file" /\ c.fault = "no") => o.seen = Spoils

Plans == (Export /\ ~Read /\ c.k = "file") => PrintT("PLAN " \o ToJson(c))
=============================================================================
