------------------------------ MODULE FontFile ------------------------------
(***************************************************************************)
(* A whole font file, read by the rules of the formats alone: what a       *)
(* reader that knows nothing but OpenType takes from it, and what a strict *)
(* reader objects to (Flaws).  The readings of the parts are those of the  *)
(* modules for the single formats.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

S == INSTANCE Sfnt
T == INSTANCE Tables
M == INSTANCE Cmap
K == INSTANCE Kern
G == INSTANCE GlyfPath
C == INSTANCE Cff
P == INSTANCE CharStringPath

Tags == {"cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "glyf", "loca", "CFF ", "OS/2", "vhea", "vmtx", "kern"}
TagOf(s) == CASE s = "OS/2" -> <<79, 83, 47, 50>> [] s = "vhea" -> <<118, 104, 101, 97>> [] s = "vmtx" -> <<118, 109, 116, 120>> [] s = "kern" -> <<107, 101, 114, 110>>
              [] OTHER -> S!T(s)

Over(cond, what) == IF cond THEN {what} ELSE {}
W16(b, p) == b[p + 1] * 256 + b[p + 2]
Log2(n) == S!Log2(n)
\* the fields that help a binary search among n items of some size
Search(n, size) == <<size * 2 ^ Log2(n), Log2(n), size * (n - 2 ^ Log2(n))>>
Fields(b, p) == <<W16(b, p), W16(b, p + 2), W16(b, p + 4)>>

-----------------------------------------------------------------------------
(* The file: [st, tt, n, t], t the tables by tag                            *)
Read(b, emb) ==
  LET O == TLCEval(S!Open(b, 0, emb))
      At(s) == CHOOSE i \in 1..Len(O.dir) : O.dir[i].tag = TagOf(s)
      here == {s \in Tags : \E i \in 1..Len(O.dir) : O.dir[i].tag = TagOf(s)}
      t == TLCEval([s \in here |-> S!Content(b, O.dir[At(s)])])
  IN IF O.st # "ok" THEN [st |-> O.st, tt |-> FALSE, n |-> 0, t |-> <<>>]
     ELSE [st |-> "ok", tt |-> O.ver \in S!TrueTypes, n |-> IF "maxp" \in here /\ Len(t["maxp"]) >= 6 THEN W16(t["maxp"], 4) ELSE 0, t |-> t]
Has(f, s) == s \in DOMAIN f.t

-----------------------------------------------------------------------------
(* Character maps: the subtables as records of module Cmap                  *)
Recs(b) == [i \in 1..W16(b, 2) |-> LET p == 4 + 8 * (i - 1) IN [plat |-> W16(b, p), enc |-> W16(b, p + 2), off |-> S!FU32(b, p + 4)]]
SubLen(b, o) == IF W16(b, o) < 8 THEN W16(b, o + 2) ELSE S!FU32(b, o + 4)
Least(f) == CASE f = 0 -> 262 [] f = 4 -> 24 [] f = 6 -> 10 [] f = 12 -> 16 [] OTHER -> 8
KnownFormats == {0, 4, 6, 12}
SubAt(b, o) ==
  LET f == W16(b, o)
      len == SubLen(b, o)
      ws(p, n) == [i \in 1..n |-> W16(b, o + p + 2 * (i - 1))]
  IN CASE f = 0 -> [f |-> 0, a |-> SubSeq(b, o + 7, o + 262)]
       [] f = 4 -> LET n == W16(b, o + 6) \div 2
                   IN [f |-> 4, e |-> ws(14, n), s |-> ws(16 + 2 * n, n), d |-> ws(16 + 4 * n, n), o |-> ws(16 + 6 * n, n), a |-> ws(16 + 8 * n, (len - 16 - 8 * n) \div 2)]
       [] f = 6 -> [f |-> 6, s |-> W16(b, o + 6), a |-> ws(10, W16(b, o + 8))]
       [] f = 12 -> [f |-> 12, g |-> [i \in 1..S!FU32(b, o + 12) |-> <<S!FU32(b, o + 16 + 12 * (i - 1)), S!FU32(b, o + 20 + 12 * (i - 1)), S!FU32(b, o + 24 + 12 * (i - 1))>>]]

\* whether a subtable can be taken apart
Fits(b, o) ==
  /\ o + 8 <= Len(b)
  /\ W16(b, o) \in KnownFormats
  /\ SubLen(b, o) >= Least(W16(b, o)) /\ SubLen(b, o) <= Len(b) - o
  /\ W16(b, o) = 4 => 16 + 8 * (W16(b, o + 6) \div 2) <= SubLen(b, o)
  /\ W16(b, o) = 6 => 10 + 2 * W16(b, o + 8) <= SubLen(b, o)
  /\ W16(b, o) = 12 => S!FU32(b, o + 12) <= (SubLen(b, o) - 16) \div 12
CmapOK(b) ==
  /\ Len(b) >= 4 /\ W16(b, 0) = 0 /\ 4 + 8 * W16(b, 2) <= Len(b)
  /\ \A i \in 1..W16(b, 2) : LET o == Recs(b)[i].off IN o >= 4 + 8 * W16(b, 2) /\ o < S!Far /\ Fits(b, o)
Subs(b) == LET r == Recs(b) IN [i \in 1..Len(r) |-> SubAt(b, r[i].off)]

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* every array index of a segment is in the table
InArray(t) == \A i \in 1..Len(t.s) : t.o[i] # 0 => (t.o[i] % 2 = 0 /\ t.s[i] <= t.e[i] /\ (t.o[i] \div 2) - (Len(t.s) - i + 1) >= 0
                                                     /\ (t.o[i] \div 2) + (t.e[i] - t.s[i]) - (Len(t.s) - i + 1) < Len(t.a))
Unicode(r) == (r.plat = 0 /\ r.enc \in {0, 1, 2, 3, 4, 6}) \/ (r.plat = 3 /\ r.enc \in {1, 10})
Wide(r) == (r.plat = 0 /\ r.enc \in {4, 6}) \/ (r.plat = 3 /\ r.enc = 10)
SubFlaws(b, r, n) ==
  LET o == r.off
      t == TLCEval(SubAt(b, o))
      len == SubLen(b, o)
  IN CASE t.f = 0 -> Over(len # 262, "length of a cmap subtable") \cup Over(\E i \in 1..256 : t.a[i] >= n, "cmap glyph out of range")
       [] t.f = 6 -> Over(len # 10 + 2 * Len(t.a), "length of a cmap subtable") \cup Over(\E i \in 1..Len(t.a) : t.a[i] >= n, "cmap glyph out of range")
       [] t.f = 4 ->
            LET k == Len(t.s)
                sane == k > 0 /\ Ascending(t.e) /\ (\A i \in 1..k : t.s[i] <= t.e[i]) /\ (\A i \in 1..(k - 1) : t.e[i] < t.s[i + 1]) /\ t.e[k] = 65535 /\ InArray(t)
            IN Over(W16(b, o + 6) % 2 # 0 \/ k = 0 \/ Fields(b, o + 8) # Search(k, 2), "search fields of a cmap subtable")
               \cup Over(W16(b, o + 14 + 2 * k) # 0, "padding of a cmap subtable")
               \cup Over(len # 16 + 8 * k + 2 * Len(t.a), "length of a cmap subtable")
               \cup Over(~sane, "segments of a cmap subtable")
               \cup Over(sane /\ t.s[k] = 65535 /\ ~(IF t.o[k] = 0 THEN t.d[k] = 1 ELSE t.a[(t.o[k] \div 2)] = 0), "last segment of a cmap subtable")
               \cup Over(sane /\ \E i \in 1..k : \E c \in t.s[i]..t.e[i] : M!Lookup4(t, c) >= n, "cmap glyph out of range")
       [] t.f = 12 ->
            LET k == Len(t.g)
                sane == (\A i \in 1..k : t.g[i][1] <= t.g[i][2] /\ t.g[i][2] <= 1114111) /\ \A i \in 1..(k - 1) : t.g[i][2] < t.g[i + 1][1]
            IN Over(W16(b, o + 2) # 0, "padding of a cmap subtable")
               \cup Over(len # 16 + 12 * k, "length of a cmap subtable")
               \cup Over(~sane, "groups of a cmap subtable")
               \cup Over(sane /\ \E i \in 1..k : t.g[i][3] + t.g[i][2] - t.g[i][1] >= n, "cmap glyph out of range")
CmapFlaws(b, n) ==
  IF ~CmapOK(b) THEN {"cmap is malformed"}
  ELSE LET r == Recs(b)
       IN Over(\E i \in 1..(Len(r) - 1) : r[i].plat > r[i + 1].plat \/ (r[i].plat = r[i + 1].plat /\ r[i].enc >= r[i + 1].enc), "order of the cmap records")
          \cup Over(\E i \in 1..Len(r) : r[i].plat = 3 /\ ((r[i].enc = 1 /\ W16(b, r[i].off) # 4) \/ (r[i].enc = 10 /\ W16(b, r[i].off) # 12)), "format of a Windows cmap subtable")
          \cup Over(\E i, j \in 1..Len(r) : r[i].off < r[j].off /\ r[j].off < r[i].off + SubLen(b, r[i].off), "cmap subtables that overlap")
          \cup Over(Len(r) > 0 /\ ~\E i \in 1..Len(r) : r[i].plat = 3 /\ Unicode(r[i]), "no Unicode cmap subtable for Windows")
          \cup Over(\E i \in 1..Len(r) : W16(b, r[i].off) = 12 /\ Unicode(r[i]) /\ ~Wide(r[i]) /\ \E k \in 1..Len(SubAt(b, r[i].off).g) : SubAt(b, r[i].off).g[k][2] > 65535, "characters beyond the encoding of a cmap subtable")
          \cup UNION {SubFlaws(b, r[i], n) : i \in 1..Len(r)}

-----------------------------------------------------------------------------
(* Kerning: every subtable, for binary search                               *)
RECURSIVE KernWalk(_, _, _, _)
KernWalk(b, p, left, n) ==
  IF left = 0 THEN Over(p # Len(b), "length of the kern table")
  ELSE IF p + 14 > Len(b) THEN {"kern is malformed"}
  ELSE LET k == W16(b, p + 6)
           need == 14 + 6 * k
           at(i) == p + 14 + 6 * (i - 1)
       IN IF p + need > Len(b) \/ W16(b, p) # 0 \/ b[p + 5] # 0 THEN {"kern is malformed"}
          ELSE Over(W16(b, p + 2) # need % 65536, "length of a kern subtable")
               \cup Over(b[p + 6] \notin {1, 3}, "kerning that is not horizontal")
               \cup Over(k > 0 /\ k < 8192 /\ Fields(b, p + 8) # Search(k, 6), "search fields of a kern subtable")      \* the fields can't hold more
               \cup Over(\E i \in 1..(k - 1) : ~(W16(b, at(i)) < W16(b, at(i + 1)) \/ (W16(b, at(i)) = W16(b, at(i + 1)) /\ W16(b, at(i) + 2) < W16(b, at(i + 1) + 2))), "order of the kerning pairs")
               \cup Over(\E i \in 1..k : W16(b, at(i)) >= n \/ W16(b, at(i) + 2) >= n, "kerning of a glyph out of range")
               \cup KernWalk(b, p + need, left - 1, n)
KernFlaws(b, n) == IF Len(b) < 4 \/ W16(b, 0) # 0 THEN {"kern is malformed"} ELSE KernWalk(b, 4, W16(b, 2), n)

-----------------------------------------------------------------------------
(* Glyphs                                                                   *)
LocFormat(f) == W16(f.t["head"], 50)
LocaFlaws(f) ==
  LET b == f.t["loca"]
      size == IF LocFormat(f) = 0 THEN 2 ELSE 4
  IN IF Len(f.t["head"]) # 54 THEN {} ELSE Over(Len(b) # size * (f.n + 1), "length of loca")
Outlines(f) ==          \* for module Glyf; offsets beyond the table are Far
  LET b == f.t["loca"]
  IN [glyf |-> f.t["glyf"], n |-> f.n, loca |-> [i \in 1..(f.n + 1) |-> IF LocFormat(f) = 0 THEN 2 * W16(b, 2 * (i - 1)) ELSE S!FU32(b, 4 * (i - 1))]]
GlyfFlaws(f) ==
  IF LocaFlaws(f) # {} \/ Len(f.t["head"]) # 54 THEN {}
  ELSE LET o == TLCEval(Outlines(f))
           sane == (\A i \in 1..f.n : o.loca[i] <= o.loca[i + 1]) /\ o.loca[f.n + 1] <= Len(o.glyf)
       IN IF ~sane THEN {"offsets of the glyphs"}
          ELSE Over(\E g \in 0..(f.n - 1) : G!Decode(o, g, 0).st = "bad", "a glyph is malformed")
CffOf(f) == C!Cff(f.t["CFF "])
CffFlaws(f) ==
  LET F == TLCEval(CffOf(f))
  IN IF F.st = "bad" THEN {"CFF is malformed"}
     ELSE IF F.st # "ok" THEN {}
     ELSE Over(F.n # f.n, "number of charstrings")
          \cup Over(\E g \in 0..(F.n - 1) : P!Exec(F, g).st = "bad", "a charstring is malformed")

-----------------------------------------------------------------------------
(* What a strict reader objects to in table s of the file                   *)
PostFlaws(f) ==
  LET b == f.t["post"]
  IN Over(T!PostOK(b, f.tt, f.n) = "bad", "post is malformed")
     \cup (IF Len(b) > 34 /\ T!PostOK(b, f.tt, f.n) # "bad" /\ W16(b, 0) = 2
           THEN LET k == Len(T!Pascals(b, 34 + 2 * f.n, <<>>).s) IN Over(\E g \in 1..f.n : W16(b, 34 + 2 * (g - 1)) >= 258 + k, "a glyph name is missing") ELSE {})
NameFlaws(b) ==
  IF T!NameOK(b) # "ok" THEN {"name is malformed"}
  ELSE LET r == T!Names(b)
           Less(x, y) == \E k \in 1..4 : x[k] < y[k] /\ \A j \in 1..(k - 1) : x[j] = y[j]
       IN Over(\E i \in 1..(Len(r) - 1) : ~Less(r[i].r, r[i + 1].r), "order of the names")
MetricFlaws(f, h, m) ==
  LET n == f.n IN
  IF T!XheaOK(f.t[h], n, h = "vhea") # "ok" THEN {h \o " is malformed"}
  ELSE IF ~Has(f, m) THEN {} ELSE Over(T!XmtxOK(f.t[m], n, T!LongMetrics(f.t[h])) # "ok", "length of " \o m)
Flaws(f, s) ==
  CASE s = "cmap" -> CmapFlaws(f.t[s], f.n)
    [] s = "kern" -> KernFlaws(f.t[s], f.n)
    [] s = "loca" -> LocaFlaws(f)
    [] s = "glyf" -> GlyfFlaws(f)
    [] s = "CFF " -> CffFlaws(f)
    [] s = "post" -> PostFlaws(f)
    [] s = "name" -> NameFlaws(f.t[s])
    [] s = "head" -> Over(T!HeadOK(f.t[s]) # "ok", "head is malformed")
    [] s = "maxp" -> Over(T!MaxpOK(f.t[s], f.tt) # "ok", "maxp is malformed")
    [] s = "OS/2" -> Over(T!OS2OK(f.t[s]) # "ok", "OS/2 is malformed")
    [] s \in {"hhea", "hmtx"} -> IF Has(f, "hhea") THEN MetricFlaws(f, "hhea", "hmtx") ELSE {}
    [] s \in {"vhea", "vmtx"} -> IF Has(f, "vhea") THEN MetricFlaws(f, "vhea", "vmtx") ELSE {}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* What the file says, where that is settled                                *)
Metrics(f, h, m) == \A s \in {h, m} : Has(f, s) /\ T!XheaOK(f.t[h], f.n, h = "vhea") = "ok" /\ T!XmtxOK(f.t[m], f.n, T!LongMetrics(f.t[h])) # "bad"
AdvanceOf(f, h, m, g) == T!Advance(f.t[m], T!LongMetrics(f.t[h]), g)
BearingOf(f, h, m, g) == T!Bearing(f.t[m], f.n, T!LongMetrics(f.t[h]), g)
=============================================================================
