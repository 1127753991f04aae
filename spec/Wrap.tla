-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Fonts wrapped in WOFF and EOT, and how a file's format is recognised.   *)
(* Decompression is a parameter: z[i] is what the i-th compressed table    *)
(* inflates to, as [st |-> "ok" | "bad" | "odd", data |-> ...].            *)
(***************************************************************************)
EXTENDS Sfnt, Bitwise

S(s) == CASE s = "wOFF" -> <<119, 79, 70, 70>> [] s = "wOF2" -> <<119, 79, 70, 50>>

\* the format of a file: its media type, "" if unknown
Media(b) ==
  IF Len(b) < 4 THEN ""
  ELSE LET t == FTag(b, 0) IN
       CASE t = S("wOFF") -> "font/woff"
         [] t = S("wOF2") -> "font/woff2"
         [] t \in TrueTypes \cup {T("ttcf")} -> "font/truetype"
         [] t = T("OTTO") -> "font/opentype"
         [] OTHER -> IF Len(b) > 36 /\ FU8(b, 34) = 76 /\ FU8(b, 35) = 80 THEN "application/vnd.ms-fontobject" ELSE ""
Ext(m) == CASE m = "font/woff" -> ".woff" [] m = "font/woff2" -> ".woff2" [] m = "font/truetype" -> ".ttf" [] m = "font/opentype" -> ".otf"
            [] m = "application/vnd.ms-fontobject" -> ".eot" [] m = "" -> ""

-----------------------------------------------------------------------------
(* WOFF: [st, ver, tables]; st "ok": has to decode to these tables; "odd":  *)
(* may be refused, but if not, decodes to these tables; "bad": refused.     *)
BadWrap == [st |-> "bad", ver |-> <<>>, tables |-> <<>>]

WoffRec(b, i) == LET p == 44 + 20 * (i - 1) IN [tag |-> FTag(b, p), off |-> FU32(b, p + 4), comp |-> FU32(b, p + 8), orig |-> FU32(b, p + 12), sum |-> <<FU16(b, p + 16), FU16(b, p + 18)>>]
WoffCount(b) == IF Len(b) < 44 THEN 0 ELSE LET n == FU16(b, 12) IN IF Len(b) < 44 + 20 * n THEN 0 ELSE n

Woff(b, z) ==
  LET n == WoffCount(b)
      ver == FTag(b, 4)
      rec == [i \in 1..n |-> WoffRec(b, i)]
      Outside(r) == r.off >= Far \/ r.comp >= Far \/ r.off + r.comp > Len(b)
      Raw(r) == SubSeq(b, r.off + 1, r.off + r.comp)
      \* two blocks share a byte
      Clash(i, j) == rec[i].comp > 0 /\ rec[j].comp > 0 /\ rec[i].off < rec[j].off + rec[j].comp /\ rec[j].off < rec[i].off + rec[i].comp
      st == [i \in 1..n |-> IF Outside(rec[i]) THEN "bad" ELSE IF rec[i].comp = rec[i].orig THEN "ok" ELSE IF rec[i].comp > rec[i].orig THEN "bad" ELSE z[i].st]
      total == FoldLeft(LAMBDA a, r : IF a >= Far \/ r.orig >= Far \/ a + Padded(r.orig) >= Far THEN Far ELSE a + Padded(r.orig), 12 + 16 * n, rec)
  IN IF n = 0 \/ FTag(b, 0) # S("wOFF") \/ ver = T("ttcf") \/ FU32(b, 8) # Len(b) THEN BadWrap
     ELSE IF \E i \in 1..n : st[i] = "bad" THEN BadWrap
     ELSE IF \E i \in 1..n : rec[i].comp > 0 /\ rec[i].off < 44 + 20 * n THEN BadWrap
     ELSE IF \E i, j \in 1..n : i < j /\ Clash(i, j) THEN BadWrap
     ELSE LET tables == [i \in 1..n |-> [tag |-> rec[i].tag, data |-> IF rec[i].comp = rec[i].orig THEN Raw(rec[i]) ELSE z[i].data]]
              Sum(t) == SumOf(IF t.tag = T("head") /\ Len(t.data) >= 12 THEN Zeroed(t.data, 8, 4) ELSE t.data)
              heads == {i \in 1..n : tables[i].tag = T("head")}
          IN IF \E i \in 1..n : Len(tables[i].data) # rec[i].orig THEN BadWrap
             ELSE [st |-> IF /\ FU16(b, 14) = 0 /\ FU32(b, 16) = total /\ total <= 30 * 1024 * 1024
                             /\ \A i \in 1..n : st[i] = "ok" /\ (i < n => TagLess(rec[i].tag, rec[i + 1].tag)) /\ rec[i].off % 4 = 0 /\ Sum(tables[i]) = rec[i].sum
                             /\ ver \in TrueTypes \cup {T("OTTO")}
                             /\ \A i \in heads : Len(tables[i].data) = 54
                             /\ heads # {}
                          THEN "ok" ELSE "odd",
                   ver |-> ver, tables |-> tables]

\* the tables of a decoded file, [tag, data] in the order of the records; <<>> if they cannot be read
Listed(o) ==
  IF Len(o) < 12 \/ Len(o) < 12 + 16 * FU16(o, 4) THEN <<>>
  ELSE LET n == FU16(o, 4)
           dir == [i \in 1..n |-> LET p == 12 + 16 * (i - 1) IN [tag |-> FTag(o, p), off |-> FU32(o, p + 8), len |-> FU32(o, p + 12)]]
       IN IF \E i \in 1..n : dir[i].off >= Far \/ dir[i].len >= Far \/ dir[i].off + dir[i].len > Len(o) THEN <<>>
          ELSE [i \in 1..n |-> [tag |-> dir[i].tag, data |-> Content(o, dir[i])]]
Plain(t) == IF t.tag = T("head") /\ Len(t.data) >= 12 THEN Zeroed(t.data, 8, 4) ELSE t.data
SameTables(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].tag = b[i].tag /\ Plain(a[i]) = Plain(b[i])

\* what is wrong with the decoded file o of a WOFF file that reads as w
WoffWrong(w, o) == (IF SameTables(w.tables, Listed(o)) THEN {} ELSE {"tables of the decoded file"})
                   \cup (IF FTag(o, 0) # w.ver THEN {"version of the decoded file"} ELSE {})
                   \cup (IF w.st = "ok" THEN Wrong(o, w.tables, w.ver # T("OTTO")) ELSE {})

-----------------------------------------------------------------------------
(* EOT, little endian                                                       *)
L16(b, p) == b[p + 1] + 256 * b[p + 2]
L32(b, p) == IF b[p + 4] >= 32 THEN Far ELSE L16(b, p) + 65536 * L16(b, p + 2)

\* the position after a string at p with its size, Far if outside
After(b, p) == IF p >= Far \/ p + 2 > Len(b) \/ p + 2 + L16(b, p) > Len(b) THEN Far ELSE p + 2 + L16(b, p)
\* and after a size of four bytes
After4(b, p) == IF p >= Far \/ p + 4 > Len(b) \/ L32(b, p) >= Far \/ p + 4 + L32(b, p) > Len(b) THEN Far ELSE p + 4 + L32(b, p)
Skip(p, n) == IF p >= Far THEN Far ELSE p + n

V10 == <<0, 0, 1, 0>>
V21 == <<1, 0, 2, 0>>
V22 == <<2, 0, 2, 0>>

BadEot == [st |-> "bad", data |-> <<>>]
Eot(b) ==
  IF Len(b) < 82 \/ FTag(b, 8) \notin {V10, V21, V22} \/ L16(b, 34) # 20556 THEN BadEot
  ELSE LET ver == FTag(b, 8)
           names == After(b, Skip(After(b, Skip(After(b, Skip(After(b, 82), 2)), 2)), 2))
           root == IF ver = V10 THEN names ELSE After(b, Skip(names, 2))
           data == IF ver # V22 THEN root ELSE After4(b, Skip(After(b, Skip(root, 10)), 4))
           size == L32(b, 4)
           Bit(p, m) == (FU8(b, p) \div m) % 2 = 1
           raw == SubSeq(b, data + 1, data + size)
       IN IF data >= Far \/ size >= Far \/ data + size > Len(b) THEN BadEot
          ELSE IF Bit(12, 4) THEN BadEot                       \* compressed: not supported
          ELSE [st |-> IF size > 0 THEN "ok" ELSE "odd", data |-> IF Bit(15, 16) THEN [i \in 1..size |-> raw[i] ^^ 80] ELSE raw]
=============================================================================
