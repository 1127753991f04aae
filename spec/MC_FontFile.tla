---------------------------- MODULE MC_FontFile ----------------------------
(***************************************************************************)
(* Small whole fonts, laid out as files by a reference writer: some        *)
(* glyphs, characters, advances, kerning pairs and names, in either width  *)
(* of the character map and of the glyph offsets.  A strict reader objects *)
(* to none of them and reads what was meant; and whatever byte of a table  *)
(* is changed, it objects or reads something else, but for the bytes that  *)
(* carry nothing (Idle).                                                   *)
(***************************************************************************)
EXTENDS FontFile

CONSTANTS Rich

VARIABLES x, s, p, d          \* the font; table s has d added to its byte p, or none if p = 0
vars == <<x, s, p, d>>

Byte2(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
Byte4(v) == Byte2(v \div 65536) \o Byte2(v % 65536)
Words(vs) == FlattenSeq([i \in 1..Len(vs) |-> Byte2(vs[i])])
Zeros(n) == [i \in 1..n |-> 0]

-----------------------------------------------------------------------------
(* The writer                                                               *)
Chars == x.map
Narrow == SelectSeq(Chars, LAMBDA e : e[1] < 65535)
Cmap4 ==
  LET k == Len(Narrow) + 1
      a == IF x.arr /\ k > 1 THEN <<Narrow[k - 1][2]>> ELSE <<>>          \* the last one by the array
      End(i) == IF i < k THEN Narrow[i][1] ELSE 65535
      Arr(i) == a # <<>> /\ i = k - 1
  IN Words(<<4, 16 + 8 * k + 2 * Len(a), 0, 2 * k>> \o Search(k, 2)) \o Words([i \in 1..k |-> End(i)]) \o Words(<<0>>) \o Words([i \in 1..k |-> End(i)])
     \o Words([i \in 1..k |-> IF i = k THEN 1 ELSE IF Arr(i) THEN 0 ELSE (65536 + Narrow[i][2] - Narrow[i][1]) % 65536])
     \o Words([i \in 1..k |-> IF Arr(i) THEN 4 ELSE 0]) \o Words(a)
Cmap12 == Words(<<12, 0>>) \o Byte4(16 + 12 * Len(Chars)) \o Byte4(0) \o Byte4(Len(Chars)) \o FlattenSeq([i \in 1..Len(Chars) |-> Byte4(Chars[i][1]) \o Byte4(Chars[i][1]) \o Byte4(Chars[i][2])])
CmapBytes ==
  LET recs == IF x.wide THEN <<<<0, 3, 0>>, <<0, 4, 1>>, <<3, 1, 0>>, <<3, 10, 1>>>> ELSE <<<<0, 3, 0>>, <<3, 1, 0>>>>
      at == 4 + 8 * Len(recs)
  IN Words(<<0, Len(recs)>>) \o FlattenSeq([i \in 1..Len(recs) |-> Words(<<recs[i][1], recs[i][2]>>) \o Byte4(at + recs[i][3] * Len(Cmap4))]) \o Cmap4 \o (IF x.wide THEN Cmap12 ELSE <<>>)
KernBytes == LET k == Len(x.kern) IN Words(<<0, 1, 0, 14 + 6 * k>>) \o <<0, 1>> \o Words(<<k>> \o Search(k, 6)) \o FlattenSeq([i \in 1..k |-> Words(x.kern[i])])

\* glyph g: a triangle, and nothing for glyph 0
GlyphBytes(g) == IF g = 0 THEN <<>> ELSE Words(<<1, g, 0, g + 300, 400, 2, 0>>) \o <<1, 1, 1>> \o Words(<<g, 300, -100, 0, 0, 400>>) \o <<0>>          \* one byte to make it even
RECURSIVE Begins(_)
Begins(g) == IF g = 0 THEN 0 ELSE Begins(g - 1) + Len(GlyphBytes(g - 1))
LocaBytes == FlattenSeq([i \in 1..(x.n + 1) |-> IF x.long THEN Byte4(Begins(i - 1)) ELSE Byte2(Begins(i - 1) \div 2)])
HeadBytes == Words(<<1, 0, 1, 0, 0, 0, 24335, 15605, 0, 1000>>) \o Zeros(16) \o Words(<<0, 0, 500, 500, 0, 8, 2, IF x.long THEN 1 ELSE 0, 0>>)
HheaBytes == Words(<<1, 0, 900, -200, 0, 600, 0, 0, 500, 1, 0, 0>>) \o Zeros(10) \o Words(<<x.k>>)
HmtxBytes == FlattenSeq([g \in 1..x.n |-> IF g <= x.k THEN Words(<<500 + g, g>>) ELSE Words(<<g>>)])
MaxpBytes == Words(<<1, 0, x.n, 3, 1, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0>>)
NameOf(g) == IF g = 0 THEN <<46, 110, 111, 116, 100, 101, 102>> ELSE <<97 + g, 120>>
PostBytes == Words(<<2, 0, 0, 0, 0, 0, 0, 0>>) \o Zeros(16) \o Words(<<x.n>>) \o Words([g \in 1..x.n |-> IF g = 1 THEN 0 ELSE 258 + g - 2]) \o FlattenSeq([g \in 1..(x.n - 1) |-> <<2>> \o NameOf(g)])
NameBytes == Words(<<0, 2, 30, 3, 1, 1033, 1, 2, 0, 3, 1, 1033, 2, 2, 2, 65, 66>>)
Font == [cmap |-> CmapBytes, glyf |-> FlattenSeq([g \in 1..x.n |-> GlyphBytes(g - 1)]), head |-> HeadBytes, hhea |-> HheaBytes, hmtx |-> HmtxBytes,
         kern |-> KernBytes, loca |-> LocaBytes, maxp |-> MaxpBytes, name |-> NameBytes, post |-> PostBytes]
Order == <<"cmap", "glyf", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "post">>

\* as a file
Pad(b) == b \o Zeros(S!Padded(Len(b)) - Len(b))
RECURSIVE At(_, _)
At(t, i) == IF i = 1 THEN 12 + 16 * Len(Order) ELSE At(t, i - 1) + S!Padded(Len(t[Order[i - 1]]))
FileOf(t) == <<0, 1, 0, 0>> \o Words(<<Len(Order)>> \o Search(Len(Order), 16))
             \o FlattenSeq([i \in 1..Len(Order) |-> TagOf(Order[i]) \o Zeros(4) \o Byte4(At(t, i)) \o Byte4(Len(t[Order[i]]))])
             \o FlattenSeq([i \in 1..Len(Order) |-> Pad(t[Order[i]])])

-----------------------------------------------------------------------------
(* Reading it                                                               *)
Asked == UNION {{Chars[i][1] - 1, Chars[i][1], Chars[i][1] + 1} : i \in 1..Len(Chars)} \cup {65535}
CmapSays(f) == LET r == Recs(f.t["cmap"])
                   Subtab(i) == SubAt(f.t["cmap"], r[i].off)
               IN [i \in {j \in 1..Len(r) : Unicode(r[j])} |-> LET t == TLCEval(Subtab(i)) IN [c \in {a \in Asked : a < 65536 \/ Wide(r[i])} |-> LET g == M!LookupSub(t, c) IN IF g = M!NoGlyph THEN 0 ELSE g]]
Pairs == (0..(x.n - 1)) \X (0..(x.n - 1))
KernSays(f) == LET Q == TLCEval(K!Kerns(f.t["kern"])) IN IF Q.st # "ok" THEN <<>> ELSE [q \in Pairs |-> K!Kerning(Q.subs, q[1], q[2])]
GlyfSays(f) == LET o == Outlines(f) IN [g \in 1..x.n |-> [a |-> LET D == G!Decode(o, g - 1, 0) IN IF D.st = "ok" THEN D.pts ELSE <<>>, b |-> G!Box(o, g - 1)]]
Says(f, tag) ==
  CASE tag = "cmap" -> <<CmapSays(f), [i \in 1..Len(Recs(f.t["cmap"])) |-> <<Recs(f.t["cmap"])[i].plat, Recs(f.t["cmap"])[i].enc>>]>>
    [] tag = "kern" -> KernSays(f)
    [] tag \in {"glyf", "loca"} -> GlyfSays(f)
    [] tag \in {"hhea", "hmtx"} -> [g \in 1..x.n |-> <<AdvanceOf(f, "hhea", "hmtx", g - 1), BearingOf(f, "hhea", "hmtx", g - 1)>>]
    [] tag = "post" -> T!PostNames(f.t["post"], f.n)
    [] tag = "name" -> T!Names(f.t["name"])
    [] tag = "maxp" -> T!Maxp(f.t["maxp"])

-----------------------------------------------------------------------------
Maps == LET CC == IF Rich THEN {32, 33, 65, 65534, 65536} ELSE {32, 33, 65536}
        IN {SetToSortSeq(m, LAMBDA a, b : a[1] < b[1]) : m \in {q \in SUBSET (CC \X {1, 2}) : \A a, b \in q : a[1] = b[1] => a = b}}
KernLists == {<<>>, <<<<0, 1, -30>>>>, <<<<0, 1, -30>>, <<1, 0, 5>>, <<1, 1, 300>>>>}
Fonts ==
  {[n |-> 3, map |-> m, wide |-> TRUE, arr |-> a, kern |-> <<<<0, 1, -30>>, <<1, 0, 5>>>>, long |-> FALSE, k |-> 2] : m \in Maps, a \in BOOLEAN}
  \cup {[n |-> n, map |-> IF n = 1 THEN <<>> ELSE <<<<40, n - 1>>>>, wide |-> FALSE, arr |-> FALSE, kern |-> IF n = 1 THEN <<>> ELSE q, long |-> l, k |-> k] :
          n \in 1..(IF Rich THEN 4 ELSE 3), q \in KernLists, l \in BOOLEAN, k \in 1..4}
Changed == {"cmap", "kern", "loca", "glyf", "hmtx", "hhea", "post", "name", "maxp"}

f0 == Read(FileOf(Font), FALSE)
Init == x \in {y \in Fonts : y.k <= y.n} /\ s = "" /\ p = 0 /\ d = 0
Next == /\ p = 0
        /\ s' \in Changed /\ p' \in 1..Len(Font[s']) /\ d' \in ({1, 128})
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Sound == p = 0 => LET f == TLCEval(f0) IN
  /\ f.st = "ok" /\ f.n = x.n /\ f.t = Font
  /\ \A tag \in DOMAIN f.t : Flaws(f, tag) = {}
  /\ \A i \in DOMAIN CmapSays(f) : \A c \in DOMAIN CmapSays(f)[i] : CmapSays(f)[i][c] = IF \E j \in 1..Len(Chars) : Chars[j][1] = c THEN Chars[CHOOSE j \in 1..Len(Chars) : Chars[j][1] = c][2] ELSE 0
  /\ \A q \in Pairs : KernSays(f)[q] = IF \E j \in 1..Len(x.kern) : x.kern[j][1] = q[1] /\ x.kern[j][2] = q[2] THEN x.kern[CHOOSE j \in 1..Len(x.kern) : x.kern[j][1] = q[1] /\ x.kern[j][2] = q[2]][3] ELSE 0
  /\ \A g \in 1..x.n : Says(f, "hmtx")[g] = <<500 + (IF g <= x.k THEN g ELSE x.k), g>>
  /\ Says(f, "post") = [g \in 1..x.n |-> NameOf(g - 1)]
  /\ \A g \in 2..x.n : LET a == GlyfSays(f)[g].a IN Len(a) = 3 /\ <<a[1].x, a[1].y, a[2].x, a[2].y, a[3].x, a[3].y>> = <<g - 1, 0, g + 299, 0, g + 199, 400>>
  /\ GlyfSays(f)[1].a = <<>>

\* bytes (from 1) that carry nothing: languages of character maps, values of hhea, versions and memory of post, unused flags of points, spare bytes of glyphs
Idle(tag, i) ==
  CASE tag = "cmap" -> LET at == 4 + 8 * (IF x.wide THEN 4 ELSE 2) IN i \in {at + 5, at + 6} \/ (i > at + Len(Cmap4) + 8 /\ i <= at + Len(Cmap4) + 12)
    [] tag = "kern" -> x.kern = <<>> /\ i \in {10} \cup 13..18
    [] tag = "hhea" -> i <= 34
    [] tag = "maxp" -> FALSE
    [] tag = "post" -> i \in 5..32
    [] tag = "glyf" -> \E g \in 1..(x.n - 1) : i - Begins(g) \in {15, 16, 17, 30}
    [] OTHER -> FALSE
Noticed == (p # 0 /\ ~Idle(s, p)) =>
  LET t == TLCEval([Font EXCEPT ![s] = [@ EXCEPT ![p] = (@ + d) % 256]])
      f == TLCEval(Read(FileOf(t), FALSE))
      all == IF s \in {"hhea", "hmtx"} THEN {"hhea", "hmtx"} ELSE IF s \in {"loca", "glyf"} THEN {"loca", "glyf"} ELSE IF s = "maxp" THEN DOMAIN t ELSE {s}
  IN f.st # "ok" \/ (\E tag \in all : Flaws(f, tag) # {}) \/ Says(f, s) # Says(f0, s)
=============================================================================
