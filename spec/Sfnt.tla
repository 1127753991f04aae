-------------------------------- MODULE Sfnt --------------------------------
(***************************************************************************)
(* The container of tables: directories, collections, what a file exposes, *)
(* and what a written file has to look like.  Files are sequences of       *)
(* bytes, tags are sequences of four bytes.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

FU8(b, p)  == b[p + 1]
FU16(b, p) == b[p + 1] * 256 + b[p + 2]
Far == 1000000000           \* stands for every offset that no file of the model reaches
FU32(b, p) == IF b[p + 1] >= 32 THEN Far ELSE FU16(b, p) * 65536 + FU16(b, p + 2)
FTag(b, p) == SubSeq(b, p + 1, p + 4)

T(s) == CASE s = "cmap" -> <<99, 109, 97, 112>> [] s = "head" -> <<104, 101, 97, 100>> [] s = "hhea" -> <<104, 104, 101, 97>> [] s = "hmtx" -> <<104, 109, 116, 120>>
          [] s = "maxp" -> <<109, 97, 120, 112>> [] s = "name" -> <<110, 97, 109, 101>> [] s = "post" -> <<112, 111, 115, 116>> [] s = "glyf" -> <<103, 108, 121, 102>>
          [] s = "loca" -> <<108, 111, 99, 97>> [] s = "CFF " -> <<67, 70, 70, 32>> [] s = "CFF2" -> <<67, 70, 70, 50>>
          [] s = "ttcf" -> <<116, 116, 99, 102>> [] s = "OTTO" -> <<79, 84, 84, 79>> [] s = "true" -> <<116, 114, 117, 101>> [] s = "1.0" -> <<0, 1, 0, 0>>

TrueTypes == {T("true"), T("1.0")}
Required(ver, emb) ==
  IF emb THEN (IF ver \in TrueTypes THEN {T("glyf"), T("head"), T("hhea"), T("hmtx"), T("loca"), T("maxp")} ELSE {T("cmap"), T("CFF ")})
  ELSE {T("cmap"), T("head"), T("hhea"), T("hmtx"), T("maxp"), T("name"), T("post")} \cup (IF ver \in TrueTypes THEN {T("glyf"), T("loca")} ELSE {})

Padded(n) == ((n + 3) \div 4) * 4

-----------------------------------------------------------------------------
(* Reading: [st, dir]; dir are the records [tag, off, len] in the order of  *)
(* the file.  st: "bad", "ok", "unsettled".                                 *)
BadFile == [st |-> "bad", dir |-> <<>>, ver |-> <<>>]

DirAt(b, at, emb) ==
  IF at + 12 > Len(b) THEN BadFile
  ELSE LET ver == FTag(b, at)
           n == FU16(b, at + 4)
       IN IF ver \notin TrueTypes \cup {T("OTTO")} \/ at + 12 + 16 * n > Len(b) THEN BadFile
          ELSE LET dir == [i \in 1..n |-> LET p == at + 12 + 16 * (i - 1) IN [tag |-> FTag(b, p), off |-> FU32(b, p + 8), len |-> FU32(b, p + 12)]]
                   tags == {dir[i].tag : i \in 1..n}
                   Out(r) == r.off >= Far \/ r.len >= Far \/ r.off + r.len > Len(b)
                   Edge(r) == r.off + Padded(r.len) > Len(b) \/ (r.len = 0 /\ r.off >= Len(b))          \* the last table is not padded
               IN IF \E i \in 1..n : Out(dir[i]) THEN BadFile
                  ELSE IF ~(Required(ver, emb) \subseteq tags) THEN BadFile
                  ELSE IF ver \notin TrueTypes /\ ~emb /\ ((T("CFF ") \in tags) = (T("CFF2") \in tags)) THEN BadFile
                  ELSE [st |-> IF Cardinality(tags) # n \/ \E i \in 1..n : Edge(dir[i]) THEN "unsettled" ELSE "ok", dir |-> dir, ver |-> ver]

Open(b, index, emb) ==
  IF Len(b) < 12 THEN BadFile
  ELSE IF FTag(b, 0) # T("ttcf") THEN (IF index # 0 THEN BadFile ELSE DirAt(b, 0, emb))
  ELSE IF FU16(b, 4) \notin {1, 2} \/ FU16(b, 6) # 0 THEN BadFile
  ELSE LET n == FU32(b, 8) IN
       IF index < 0 \/ index >= n \/ n >= Far \/ 12 + 4 * n > Len(b) THEN BadFile
       ELSE LET at == FU32(b, 12 + 4 * index) IN IF at >= Far THEN BadFile ELSE DirAt(b, at, emb)

Content(b, r) == SubSeq(b, r.off + 1, r.off + r.len)

-----------------------------------------------------------------------------
(* Sums of 32-bit words, as pairs of 16-bit words.                          *)
Add(x, y) == LET lo == x[2] + y[2] IN << (x[1] + y[1] + lo \div 65536) % 65536, lo % 65536 >>
Sub(x, y) == LET lo == x[2] - y[2] IN << (x[1] - y[1] + (IF lo < 0 THEN 65535 ELSE 65536)) % 65536, (lo + 65536) % 65536 >>
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
SumOf(b) == FoldLeft(LAMBDA acc, k : Add(acc, <<At(b, 4 * k - 3) * 256 + At(b, 4 * k - 2), At(b, 4 * k - 1) * 256 + At(b, 4 * k)>>), <<0, 0>>, [k \in 1..((Len(b) + 3) \div 4) |-> k])
Whole == <<45488, 44986>>          \* B1B0 AFBA

Zeroed(b, p, n) == SubSeq(b, 1, p) \o [i \in 1..n |-> 0] \o SubSeq(b, p + n + 1, Len(b))

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)

RECURSIVE TagLess(_, _)
TagLess(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE TagLess(Tail(a), Tail(b))

\* what is wrong with a written file b of a font with the given tables (records [tag, data])
Wrong(b, tables, tt) ==
  LET n == Len(tables)
      F(cond, what) == IF cond THEN {what} ELSE {}
      end0 == 12 + 16 * n
  IN IF Len(b) < end0 \/ FU16(b, 4) # n THEN {"number of tables"}
     ELSE
       LET dir == [i \in 1..n |-> LET p == 12 + 16 * (i - 1) IN [tag |-> FTag(b, p), sum |-> <<FU16(b, p + 4), FU16(b, p + 6)>>, off |-> FU32(b, p + 8), len |-> FU32(b, p + 12)]]
           DataOf(tag) == (CHOOSE i \in 1..n : tables[i].tag = tag)
           order == [k \in 1..n |-> CHOOSE i \in 1..n : Cardinality({j \in 1..n : dir[j].off < dir[i].off \/ (dir[j].off = dir[i].off /\ (dir[j].len < dir[i].len \/ (dir[j].len = dir[i].len /\ j < i)))}) = k - 1]
       IN F(FTag(b, 0) \notin (IF tt THEN TrueTypes ELSE {T("OTTO")}), "version")
          \cup F(<<FU16(b, 6), FU16(b, 8), FU16(b, 10)>> # <<16 * 2 ^ Log2(n), Log2(n), 16 * n - 16 * 2 ^ Log2(n)>>, "search fields")
          \cup F(\E i \in 1..(n - 1) : ~TagLess(dir[i].tag, dir[i + 1].tag), "order of the records")
          \cup F({dir[i].tag : i \in 1..n} # {tables[i].tag : i \in 1..n}, "tags")
          \cup (IF \E i \in 1..n : dir[i].off >= Far \/ dir[i].len >= Far \/ dir[i].off < end0 \/ dir[i].off % 4 # 0 \/ dir[i].off + Padded(dir[i].len) > Len(b) THEN {"place of a table"}
                ELSE IF {dir[i].tag : i \in 1..n} # {tables[i].tag : i \in 1..n} THEN {}
                ELSE LET Plain(i) == LET c == Content(b, dir[i]) IN IF dir[i].tag = T("head") /\ Len(c) >= 12 THEN Zeroed(c, 8, 4) ELSE c
                         Same(i) == LET c == Content(b, dir[i])
                                        d == tables[DataOf(dir[i].tag)].data
                                    IN IF dir[i].tag = T("head") /\ Len(c) = 54 /\ Len(d) = 54 THEN Zeroed(Zeroed(c, 8, 4), 28, 8) = Zeroed(Zeroed(d, 8, 4), 28, 8) ELSE c = d
                         headAt == {dir[i].off : i \in {j \in 1..n : dir[j].tag = T("head")}}
                     IN F(\E k \in 1..(n - 1) : dir[order[k]].off + Padded(dir[order[k]].len) > dir[order[k + 1]].off, "overlapping tables")
                        \cup F(\E i \in 1..n : ~Same(i), "contents of a table")
                        \cup F(\E i \in 1..n : \E j \in (dir[i].off + dir[i].len)..(dir[i].off + Padded(dir[i].len) - 1) : FU8(b, j) # 0, "padding")
                        \cup F(\E i \in 1..n : dir[i].sum # SumOf(Plain(i)), "checksum of a table")
                        \cup F(\E h \in headAt : <<FU16(b, h + 8), FU16(b, h + 10)>> # Sub(Whole, SumOf(Zeroed(b, h + 8, 4))), "checksum of the file")
                        \cup F(Len(b) % 4 # 0 \/ (n > 0 /\ Len(b) # dir[order[n]].off + Padded(dir[order[n]].len)), "length of the file"))
=============================================================================
