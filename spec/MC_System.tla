----------------------------- MODULE MC_System -----------------------------
(***************************************************************************)
(* Style names put together from the known words, every CSS weight, every  *)
(* small set of installed fonts with every query, and every small name     *)
(* table.  The specification is checked against a second definition of the *)
(* order of weights; the cases are exported and replayed.                  *)
(***************************************************************************)
EXTENDS System, Json

CONSTANTS Rich, Export

VARIABLES c, o
vars == <<c, o>>

A == Txt("Aa")
B == Txt("Bb")
G == Txt("gen")
E == Txt("empty")
Gen == << [name |-> G, list |-> <<B, A>>], [name |-> E, list |-> <<>>], [name |-> Txt("self"), list |-> <<Txt("self"), A>>] >>
Comma == <<44>>
Queries == {A, B, A \o Comma \o B, B \o <<44, 32>> \o A, G, Txt("none") \o Comma \o G, E \o Comma \o A, G \o Comma \o A, Txt("none"), Txt("self"), <<>>, E, E \o Comma \o G \o Comma \o E}
Wts == IF Rich THEN 1..9 ELSE {1, 3, 4, 5, 6, 9}
Fonts == [fam : {A, B}, st : {w + s : w \in Wts, s \in {0, Slanted}}]

Words == {w.s : w \in WeightWords} \cup {<<>>}
Marks == Slants \cup {<<>>}
NameCases == [k : {"name"}, w : Words, z : Seps \cup {<<32, 32>>, <<95>>}, i : Marks, pre : {<<>>, <<32>>, <<120>>}, post : {<<>>, <<32>>, <<120>>}]
CssCases == [k : {"css"}, w : {-1000, -50, -1} \cup (0..1100) \cup {2000, 100000}, it : BOOLEAN]
\* one or two fonts of a family and one of the other
MatchCases == {[k |-> "match", f |-> f, q |-> q, st |-> st] :
                 f \in {<<>>} \cup {<<x>> : x \in Fonts} \cup {<<x, y>> : x, y \in {z \in Fonts : Rich \/ z.fam = A}}, q \in IF Rich THEN Queries ELSE {A, G, B \o Comma \o A, E, Txt("self")}, st \in {w + s : w \in 1..9, s \in {0, Slanted}}}
\* records of a name table: [pl, la, id, v]
Recs == [pl : {3, 1, 0}, la : {1033, 2057, 1031, 0, 9}, id : {1, 2, 16, 17, 4}, v : {Txt("Fa"), Txt("Bold"), Txt("Odd")}]
Sound(r) == (r.id \in {1, 16} => r.v # Txt("Bold")) /\ (r.id \in {2, 17} => r.v # Txt("Fa")) /\ (r.id = 4 => r.v = Txt("Odd")) /\ (r.pl = 0 => r.la = 0) /\ (r.pl = 1 => r.la \in {0, 9}) /\ (r.pl = 3 => r.la # 0)
Few == {r \in Recs : Sound(r)}
TableCases == {[k |-> "table", r |-> r, ver |-> v] : r \in {<<>>} \cup {<<x>> : x \in Few} \cup {<<x, y>> : x, y \in Few} \cup
                 {<<x, y, z>> : x \in {q \in Few : q.id = 1 /\ q.la \in {1033, 1031}}, y \in {q \in Few : q.id = 2 /\ q.pl = 3}, z \in {q \in Few : q.id \in {16, 17, 1} /\ (Rich \/ q.pl = 3)}}, v \in {0, 1}}
Cases == NameCases \cup CssCases \cup MatchCases \cup TableCases

-----------------------------------------------------------------------------
B2(v) == <<v \div 256, v % 256>>
Utf(v) == FlattenSeq([i \in 1..Len(v) |-> B2(v[i])])
Table == LET n == Len(c.r)
             OffOf(i) == FoldLeft(LAMBDA a, x : a + 2 * Len(x.v), 0, SubSeq(c.r, 1, i - 1))
             lead == IF c.ver = 1 THEN B2(0) ELSE <<>>
         IN B2(c.ver) \o B2(n) \o B2(6 + 12 * n + Len(lead)) \o FlattenSeq([i \in 1..n |-> LET x == c.r[i] IN B2(x.pl) \o B2(1) \o B2(x.la) \o B2(x.id) \o B2(2 * Len(x.v)) \o B2(OffOf(i))])
            \o lead \o FlattenSeq([i \in 1..n |-> Utf(c.r[i].v)])
File == LET t == TLCEval(Table) IN <<0, 1, 0, 0>> \o B2(1) \o <<0, 16, 0, 0, 0, 0>> \o NameTag \o <<0, 0, 0, 0>> \o <<0, 0, 0, 28>> \o <<0, 0>> \o B2(Len(t)) \o t
Full == c.pre \o c.w \o c.z \o c.i \o c.post
FontSeq == [i \in 1..Len(c.f) |-> [fam |-> c.f[i].fam, st |-> c.f[i].st, file |-> i]]

Init == c \in Cases /\ o = <<>>
Next == /\ o = <<>> /\ c' = c
        /\ o' = CASE c.k = "name" -> [r |-> StyleName(Full)]
                  [] c.k = "css" -> [r |-> Css(c.w, c.it)]
                  [] c.k = "match" -> [r |-> Matched(FontSeq, Gen, c.q, c.st)]
                  [] c.k = "table" -> [r |-> Declares(File)]
Spec == Init /\ [][Next]_vars
Read == o # <<>>

\* a name made of known words is read in one way; anything else is unknown
OneReading == (Read /\ c.k = "name") =>
  /\ (c.pre = <<>> /\ c.post = <<>> /\ c.z \in Seps /\ c.w # <<>> /\ (c.i # <<>> \/ c.z = <<>>)) =>
        o.r = {(CHOOSE x \in WeightWords : x.s = c.w).w + (IF c.i = <<>> THEN 0 ELSE Slanted)}
  /\ (c.pre = <<>> /\ c.post = <<>> /\ c.z = <<>> /\ c.w = <<>> /\ c.i # <<>>) => o.r = {4 + Slanted}
  /\ (c.pre = <<120>> \/ (c.post = <<120>> /\ Full # <<120>>)) => o.r \in {{Unknown}, {4 + Slanted, Unknown}}
Nearest == (Read /\ c.k = "css") => \A x \in o.r : \A h \in 1..9 : LET D1(v) == IF 100 * v > c.w THEN 100 * v - c.w ELSE c.w - 100 * v IN D1(WeightOf(x)) < D1(h) \/ (D1(WeightOf(x)) = D1(h) /\ h <= WeightOf(x))

\* the order of CSS: 400 and 500 look at each other first; up to 500 lighter ones come first, above heavier ones
Before(w, a, b2) ==
  LET Class(x) == CASE x = w -> 0
                    [] w \in {4, 5} /\ x \in {4, 5} -> 1
                    [] w <= 5 -> IF x < w THEN 2 ELSE 3
                    [] OTHER -> IF x > w THEN 2 ELSE 3
      Dist(x) == IF x > w THEN x - w ELSE w - x
  IN Class(a) < Class(b2) \/ (Class(a) = Class(b2) /\ Dist(a) <= Dist(b2))
Chosen == (Read /\ c.k = "match") =>
  LET fs == Families(Gen, c.q)
      inst == {i \in 1..Len(fs) : Installed(FontSeq, fs[i])}
  IN IF inst = {} THEN o.r = <<>>
     ELSE LET fam == fs[CHOOSE i \in inst : \A j \in inst : i <= j]
              same == {i \in 1..Len(FontSeq) : FontSeq[i].fam = fam /\ SlantOf(FontSeq[i].st) = SlantOf(c.st)}
          IN IF same = {} THEN o.r = <<>>
             ELSE o.r # <<>> /\ o.r[1].fam = fam /\ SlantOf(o.r[1].st) = SlantOf(c.st) /\ \A i \in same : Before(WeightOf(c.st), WeightOf(o.r[1].st), WeightOf(FontSeq[i].st))

\* typographic names come before legacy ones, and only English Windows names count
Eng(id) == {c.r[i].v : i \in {j \in 1..Len(c.r) : c.r[j].id = id /\ c.r[j].pl = 3 /\ c.r[j].la % 256 = 9}}
Declared == (Read /\ c.k = "table") =>
  /\ (o.r.st = "ok") => /\ o.r.fam \in (IF Eng(16) # {} THEN Eng(16) ELSE Eng(1))
                        /\ o.r.style = 7
                        /\ Txt("Bold") \in (IF Eng(17) # {} THEN Eng(17) ELSE Eng(2))
  /\ (Cardinality(Eng(1)) = 1 /\ Eng(2) = {Txt("Bold")} /\ Eng(16) = {} /\ Eng(17) = {}) => o.r.st = "ok"
  /\ (Eng(1) \cup Eng(16) = {} /\ \A i \in 1..Len(c.r) : c.r[i].pl = 3) => o.r.st = "none"

Plans == (Export /\ ~Read /\ c.k \in {"match", "table"}) => PrintT("PLAN " \o ToJson(c))
=============================================================================
