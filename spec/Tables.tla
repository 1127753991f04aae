------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The fixed tables of a font: what their bytes mean.  A table is a        *)
(* sequence of bytes (<<>> if it is absent); values of 32 and 64 bits are  *)
(* given by their 16-bit words, most significant first.  Every decoder     *)
(* gives a sequence of values in the order of the format; the verdict on a *)
(* table is "ok", "bad" or "unsettled" (readers may differ).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, StdNames

U8(b, p)  == b[p + 1]                                  \* offsets from 0, as in the format documents
U16(b, p) == b[p + 1] * 256 + b[p + 2]
I16(b, p) == LET v == U16(b, p) IN IF v >= 32768 THEN v - 65536 ELSE v
W(b, p, n) == [i \in 1..n |-> U16(b, p + 2 * (i - 1))]          \* n unsigned words
S(b, p, n) == [i \in 1..n |-> I16(b, p + 2 * (i - 1))]          \* n signed words

-----------------------------------------------------------------------------
\* head: revision, flags, unitsPerEm, created, modified, bounds, macStyle, lowestRecPPEM, directionHint, locFormat, dataFormat
HeadOK(b) ==
  IF Len(b) # 54 \/ W(b, 12, 2) # <<24335, 15605>> \/ U8(b, 20) >= 128 \/ U8(b, 28) >= 128 \/ U16(b, 50) > 1 THEN "bad"
  ELSE IF U16(b, 0) # 1 THEN (IF U16(b, 2) # 0 THEN "bad" ELSE "unsettled") ELSE IF U16(b, 2) # 0 THEN "unsettled" ELSE "ok"
HeadVals(b) == W(b, 4, 2) \o W(b, 16, 2) \o W(b, 20, 8) \o S(b, 36, 4) \o W(b, 44, 2) \o S(b, 48, 3)
UnitsPerEm(b) == U16(b, 18)

\* maxp
MaxpOK(b, tt) ==
  IF Len(b) < 6 THEN "bad"
  ELSE IF tt THEN (IF W(b, 0, 2) = <<1, 0>> /\ Len(b) = 32 THEN "ok" ELSE "bad")
  ELSE (IF W(b, 0, 2) = <<0, 20480>> /\ Len(b) = 6 THEN "ok" ELSE "bad")
NumGlyphs(b) == U16(b, 4)
Maxp(b) == W(b, 0, 2) \o W(b, 4, 1) \o (IF Len(b) = 32 THEN W(b, 6, 13) ELSE [i \in 1..13 |-> 0])

\* hhea and vhea: ascender .. caretOffset, metricDataFormat, number of long metrics
XheaOK(b, n, vert) ==
  IF Len(b) # 36 \/ U16(b, 34) = 0 \/ U16(b, 34) > n THEN "bad"
  ELSE IF U16(b, 0) # 1 THEN (IF U16(b, 2) \notin {0, 1, 4096} THEN "bad" ELSE "unsettled")
  ELSE IF U16(b, 2) = 0 \/ (vert /\ U16(b, 2) = 4096) THEN "ok" ELSE "unsettled"
Hhea(b) == S(b, 4, 3) \o W(b, 10, 1) \o S(b, 12, 6) \o S(b, 32, 1) \o W(b, 34, 1)
Vhea(b) == S(b, 4, 10) \o S(b, 32, 1) \o W(b, 34, 1)
LongMetrics(x) == U16(x, 34)

\* hmtx and vmtx
XmtxOK(b, n, k) == IF Len(b) < 4 * k + 2 * (n - k) THEN "bad" ELSE IF Len(b) > 4 * k + 2 * (n - k) THEN "unsettled" ELSE "ok"
Advance(b, k, g) == U16(b, 4 * (IF g < k THEN g ELSE k - 1))
Bearing(b, n, k, g) == IF g < k THEN I16(b, 4 * g + 2) ELSE IF g < n THEN I16(b, 4 * k + 2 * (g - k)) ELSE 0

\* OS/2, by version; what a version lacks is 0 (x-height and cap height may be estimated)
OS2Len(v) == CASE v = 1 -> 86 [] v \in 2..4 -> 96 [] v = 5 -> 100
OS2OK(b) ==
  IF Len(b) < 68 THEN "bad"
  ELSE LET v == U16(b, 0) IN IF v = 0 THEN (IF Len(b) \in {68, 78} THEN "ok" ELSE "bad") ELSE IF v > 5 THEN "bad" ELSE IF Len(b) = OS2Len(v) THEN "ok" ELSE "bad"
Or0(b, p, n, sg) == IF Len(b) >= p + 2 * n THEN (IF sg THEN S(b, p, n) ELSE W(b, p, n)) ELSE [i \in 1..n |-> 0]
OS2(b) == W(b, 0, 1) \o S(b, 2, 1) \o W(b, 4, 3) \o S(b, 10, 11) \o [i \in 1..10 |-> U8(b, 31 + i)] \o W(b, 42, 8) \o [i \in 1..4 |-> U8(b, 57 + i)]
          \o W(b, 62, 3) \o Or0(b, 68, 3, TRUE) \o Or0(b, 74, 2, FALSE) \o Or0(b, 78, 4, FALSE) \o Or0(b, 86, 2, TRUE) \o Or0(b, 90, 3, FALSE) \o Or0(b, 96, 2, FALSE)
HeightsAt == {51, 52}          \* where the x-height and the cap height are in OS2(b)

\* ascender, descender and line gap that layout should use
VertMetrics(hhea, os2) ==
  LET Pos(v) == IF v > 0 THEN v ELSE 0
      asc == I16(hhea, 4)
      desc == I16(hhea, 6)
      gap == I16(hhea, 8)
      base == <<Pos(asc), Pos(-desc), Pos(gap)>>
  IN IF os2 = <<>> \/ Len(os2) < 78 THEN base
     ELSE IF (U16(os2, 62) \div 128) % 2 = 1
          THEN LET ta == I16(os2, 68)
                   td == I16(os2, 70)
               IN IF ta > 0 /\ td < 0 THEN <<ta, -td, Pos(I16(os2, 72))>> ELSE base
          ELSE LET wa == U16(os2, 74)
                   wd == U16(os2, 76)
                   lead == asc - desc + gap - (wa + wd)
               IN IF wa # 0 /\ wd # 0 THEN <<wa, wd, IF lead > 65535 THEN 65535 ELSE Pos(lead)>> ELSE base

-----------------------------------------------------------------------------
\* post: italicAngle, underline, isFixedPitch, memory; and the name of every glyph, in bytes
RECURSIVE Pascals(_, _, _)
Pascals(b, p, acc) ==         \* [ok, s] the strings from offset p on
  IF p >= Len(b) THEN [ok |-> "ok", s |-> acc]
  ELSE IF p = Len(b) - 1 THEN [ok |-> IF U8(b, p) = 0 THEN "unsettled" ELSE "bad1", s |-> IF U8(b, p) = 0 THEN Append(acc, <<>>) ELSE acc]
  ELSE LET n == U8(b, p) IN
       IF n > 63 \/ p + 1 + n > Len(b) THEN [ok |-> "bad", s |-> acc]
       ELSE Pascals(b, p + 1 + n, Append(acc, SubSeq(b, p + 2, p + 1 + n)))
PostOK(b, tt, n) ==
  IF Len(b) < 32 THEN "bad"
  ELSE CASE W(b, 0, 2) = <<1, 0>> -> IF tt /\ Len(b) = 32 THEN (IF n <= 258 THEN "ok" ELSE "unsettled") ELSE "bad"
         [] W(b, 0, 2) = <<2, 0>> ->
              IF ~tt \/ Len(b) < 34 \/ U16(b, 32) # n \/ Len(b) < 34 + 2 * n THEN "bad"
              ELSE LET P == Pascals(b, 34 + 2 * n, <<>>) IN IF P.ok = "bad" THEN "bad" ELSE IF P.ok # "ok" THEN "unsettled" ELSE "ok"
         [] W(b, 0, 2) = <<3, 0>> -> IF Len(b) = 32 THEN "ok" ELSE "bad"
         [] OTHER -> "bad"
Post(b) == W(b, 4, 2) \o S(b, 8, 2) \o W(b, 12, 10)
PostNames(b, n) ==
  CASE W(b, 0, 2) = <<1, 0>> -> [g \in 1..n |-> IF g <= 258 THEN MacNames[g] ELSE <<>>]
    [] W(b, 0, 2) = <<2, 0>> ->
         LET strs == Pascals(b, 34 + 2 * n, <<>>).s
         IN [g \in 1..n |-> LET i == U16(b, 34 + 2 * (g - 1)) IN IF i < 258 THEN MacNames[i + 1] ELSE IF i - 258 < Len(strs) THEN strs[i - 257] ELSE <<>>]
    [] OTHER -> [g \in 1..n |-> <<>>]

-----------------------------------------------------------------------------
\* name: records with their text as characters
NameHead(b) == 6 + 12 * U16(b, 2)
NameEnd(b) == IF U16(b, 0) = 0 THEN NameHead(b) ELSE NameHead(b) + 2 + 4 * U16(b, NameHead(b))
NameLen(b, p) == U16(b, p)
NameOK(b) ==
  IF Len(b) < 6 \/ U16(b, 0) > 1 THEN "bad"
  ELSE IF Len(b) < NameHead(b) THEN "bad"
  ELSE IF U16(b, 0) = 1 /\ (Len(b) < NameHead(b) + 2 \/ Len(b) < NameEnd(b)) THEN "bad"
  ELSE LET st == U16(b, 4)
           Bad(p) == st + U16(b, p + 2) + U16(b, p) > Len(b)
       IN IF st > Len(b) THEN "bad"
          ELSE IF \E i \in 0..(U16(b, 2) - 1) : Bad(6 + 12 * i + 8) THEN "bad"
          ELSE IF U16(b, 0) = 1 /\ \E i \in 0..(U16(b, NameHead(b)) - 1) : Bad(NameHead(b) + 2 + 4 * i) THEN "bad"
          ELSE IF st # NameEnd(b) THEN "unsettled" ELSE "ok"

Part(b, p) == LET from == U16(b, 4) + U16(b, p + 2) IN SubSeq(b, from + 1, from + U16(b, p))

NoText == <<-1>>          \* ill-formed, or an encoding that is not settled
RECURSIVE Utf16(_, _, _)
Utf16(v, p, acc) ==
  IF p >= Len(v) THEN acc
  ELSE IF p = Len(v) - 1 THEN NoText
  ELSE LET u == U16(v, p) IN
       IF u \in 55296..56319 THEN
          IF p + 3 >= Len(v) THEN NoText
          ELSE LET l == U16(v, p + 2) IN IF l \in 56320..57343 THEN Utf16(v, p + 4, Append(acc, 65536 + (u - 55296) * 1024 + l - 56320)) ELSE NoText
       ELSE IF u \in 56320..57343 THEN NoText ELSE Utf16(v, p + 2, Append(acc, u))
TextOf(plat, enc, v) ==
  IF plat \in {0, 3} THEN Utf16(v, 0, <<>>)
  ELSE IF plat = 1 /\ enc = 0 THEN [i \in 1..Len(v) |-> IF v[i] < 128 THEN v[i] ELSE MacRoman[v[i] - 127]]
  ELSE NoText

Names(b) == [i \in 1..U16(b, 2) |-> LET p == 6 + 12 * (i - 1) IN [r |-> W(b, p, 4), v |-> Part(b, p + 8)]]
LangTags(b) == IF U16(b, 0) = 0 THEN <<>> ELSE [i \in 1..U16(b, NameHead(b)) |-> Part(b, NameHead(b) + 2 + 4 * (i - 1))]

-----------------------------------------------------------------------------
(* A font: t with all the tables.                                           *)
Present(t) == DOMAIN t
Verdicts(t, tt) ==
  LET n == IF MaxpOK(t.maxp, tt) = "bad" THEN 0 ELSE NumGlyphs(t.maxp)
      hh == XheaOK(t.hhea, n, FALSE)
      vh == IF "vhea" \in Present(t) THEN XheaOK(t.vhea, n, TRUE) ELSE "ok"
  IN << HeadOK(t.head), MaxpOK(t.maxp, tt), hh, IF hh = "bad" THEN "bad" ELSE XmtxOK(t.hmtx, n, LongMetrics(t.hhea)),
        vh, IF "vmtx" \notin Present(t) THEN "ok" ELSE IF "vhea" \notin Present(t) \/ vh = "bad" THEN "unsettled" ELSE XmtxOK(t.vmtx, n, LongMetrics(t.vhea)),
        IF "OS/2" \in Present(t) THEN OS2OK(t["OS/2"]) ELSE "ok", PostOK(t.post, tt, n), NameOK(t.name) >>
FontOK(t, tt) == LET V == Verdicts(t, tt) IN IF \E i \in 1..Len(V) : V[i] = "bad" THEN "bad" ELSE IF \E i \in 1..Len(V) : V[i] = "unsettled" THEN "unsettled" ELSE "ok"
=============================================================================
