------------------------------ MODULE MC_Sfnt ------------------------------
(***************************************************************************)
(* Files and collections laid out in every way: which table is missing,    *)
(* the order of records and of data, gaps, tables shared by the fonts of a *)
(* collection, spare bytes, cuts, wrong indices.  A reference writer is    *)
(* checked against the reader and the statement of a well-formed file; the *)
(* layouts are exported and replayed with real tables.                     *)
(***************************************************************************)
EXTENDS Sfnt, TLC, Json

CONSTANTS Rich, Export

VARIABLES c, b, o          \* the layout, the file, and what reading it gives
vars == <<c, b, o>>

Tags(k) == (IF k = "tt" THEN <<T("cmap"), T("glyf"), T("head"), T("hhea"), T("hmtx"), T("loca"), T("maxp"), T("name"), T("post")>>
            ELSE <<T("CFF "), T("cmap"), T("head"), T("hhea"), T("hmtx"), T("maxp"), T("name"), T("post")>>)
Orders == IF Rich THEN {"up", "down", "turn"} ELSE {"up", "down"}
Perm(w, n) == [i \in 1..n |-> CASE w = "up" -> i [] w = "down" -> n + 1 - i [] w = "turn" -> (i % n) + 1]

Singles == {[k |-> k, fonts |-> 0, index |-> x, miss |-> m, rec |-> r, data |-> p, gap |-> g, cut |-> q, spare |-> s, share |-> FALSE, major |-> 1] :
              k \in {"tt", "cff"}, x \in {-1, 0, 1}, m \in 0..9, r \in Orders, p \in Orders, g \in {0, 4}, q \in {"no", "byte", "dir", "head"}, s \in {0, 4}}
Colls == {[k |-> k, fonts |-> f, index |-> x, miss |-> m, rec |-> r, data |-> "up", gap |-> g, cut |-> q, spare |-> s, share |-> h, major |-> j] :
              k \in {"tt", "cff"}, f \in 1..3, x \in {-1, 0, 1, 2, 3}, m \in {0, 3}, r \in Orders, g \in {0}, q \in {"no", "byte"}, s \in {0, 4}, h \in BOOLEAN, j \in {1, 2, 3}}
Cases == {x \in Singles : x.k = "cff" => x.miss <= 8} \cup Colls

-----------------------------------------------------------------------------
B2(v) == <<v \div 256, v % 256>>
B4(v) == B2(v \div 65536) \o B2(v % 65536)
Pad(x) == x \o [i \in 1..(Padded(Len(x)) - Len(x)) |-> 0]
TableSeq == LET a == Tags(c.k) IN IF c.miss = 0 THEN a ELSE SelectSeq(a, LAMBDA t : t # a[c.miss])

\* table contents: font f, table i, of any length
Data(f, t) == IF t = T("head") THEN [j \in 1..54 |-> IF j \in 9..12 THEN 0 ELSE (7 * j + f) % 256]
              ELSE [j \in 1..(3 + (t[1] % 5)) |-> (t[2] + t[4] * j + (IF c.share /\ t # T("name") THEN 0 ELSE 50 * f)) % 256]
Recs(f) == LET s == TableSeq n == Len(s) IN [i \in 1..n |-> s[Perm(c.rec, n)[i]]]
Blocks(f) == LET s == TableSeq n == Len(s) IN [i \in 1..n |-> s[Perm(c.data, n)[i]]]

RECURSIVE Place(_, _, _)
Place(blocks, f, at) == IF blocks = <<>> THEN <<>> ELSE <<[tag |-> Head(blocks), off |-> at + c.gap]>> \o Place(Tail(blocks), f, at + c.gap + Padded(Len(Data(f, Head(blocks)))))
DirBytes(f, base, places) ==
  LET s == Recs(f)
      n == Len(s)
      OffOf(t) == places[CHOOSE i \in 1..n : places[i].tag = t].off
  IN (IF c.k = "tt" THEN T("1.0") ELSE T("OTTO")) \o B2(n) \o B2(16 * 2 ^ Log2(n)) \o B2(Log2(n)) \o B2(16 * n - 16 * 2 ^ Log2(n))
     \o FlattenSeq([i \in 1..n |-> LET d == Data(f, s[i]) x == SumOf(d) IN s[i] \o B2(x[1]) \o B2(x[2]) \o B4(OffOf(s[i])) \o B4(Len(d))])
Body(f) == FlattenSeq([i \in 1..Len(Blocks(f)) |-> [j \in 1..c.gap |-> 0] \o Pad(Data(f, Blocks(f)[i]))])
FontLen == 12 + 16 * Len(TableSeq)
One(f, base) == DirBytes(f, base, Place(Blocks(f), f, base + FontLen)) \o Body(f)

NF == IF c.fonts = 0 THEN 1 ELSE c.fonts
Sizes == Len(One(1, 0))
Base(f) == IF c.fonts = 0 THEN 0 ELSE 12 + 4 * c.fonts + (f - 1) * Sizes
Whole0 == (IF c.fonts = 0 THEN <<>> ELSE T("ttcf") \o B2(c.major) \o B2(0) \o B4(c.fonts) \o FlattenSeq([f \in 1..c.fonts |-> B4(Base(f))]))
          \o FlattenSeq([f \in 1..NF |-> One(f, Base(f))]) \o [i \in 1..c.spare |-> 9]
Cut == CASE c.cut = "no" -> Whole0
         [] c.cut = "byte" -> SubSeq(Whole0, 1, Len(Whole0) - c.spare - 4)
         [] c.cut = "dir" -> SubSeq(Whole0, 1, FontLen - 1)
         [] c.cut = "head" -> SubSeq(Whole0, 1, 11)

Init == c \in Cases /\ b = <<>> /\ o = <<>>
Next == o = <<>> /\ b' = Cut /\ o' = Open(b', c.index, FALSE) /\ c' = c
Spec == Init /\ [][Next]_vars
Read == o # <<>>

Expected == IF c.cut \in {"dir", "head"} \/ c.miss # 0 \/ c.index < 0 \/ c.index >= NF THEN "bad"
            ELSE IF c.fonts > 0 /\ c.major = 3 THEN "bad"
            ELSE IF c.cut = "byte" /\ c.index = NF - 1 THEN "cut" ELSE "ok"
Verdict == Read => IF Expected = "cut" THEN o.st \in {"bad", "unsettled"} ELSE o.st = Expected
Exact == (Read /\ o.st = "ok") => /\ Len(o.dir) = Len(TableSeq)
                        /\ \A i \in 1..Len(o.dir) : Content(b, o.dir[i]) = Data(c.index + 1, o.dir[i].tag)

\* the plain layout, with the checksum of the file in place, is well formed; no other one is
WithSum(f) == LET r == CHOOSE x \in {o.dir[i] : i \in 1..Len(o.dir)} : x.tag = T("head")
                  x == Sub(Whole, SumOf(f))
              IN SubSeq(f, 1, r.off + 8) \o B2(x[1]) \o B2(x[2]) \o SubSeq(f, r.off + 13, Len(f))
Sane == (Read /\ c.fonts = 0 /\ o.st = "ok") =>
          LET w == Wrong(WithSum(b), [i \in 1..Len(TableSeq) |-> [tag |-> TableSeq[i], data |-> Data(1, TableSeq[i])]], c.k = "tt")
          IN IF c.rec = "up" /\ c.spare = 0 THEN w = {} ELSE w # {}

Plans == (Export /\ ~Read) => PrintT("PLAN " \o ToJson(c))
=============================================================================
