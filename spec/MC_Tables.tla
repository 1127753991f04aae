----------------------------- MODULE MC_Tables -----------------------------
(***************************************************************************)
(* Every choice of ascenders, descenders, gaps and flags from a set of     *)
(* values around the corners (signs, zero, extremes), and every number of  *)
(* glyphs and long metrics up to a bound, laid out as tables.  Checked     *)
(* against independent statements; every case is exported.                 *)
(***************************************************************************)
EXTENDS Tables, TLC, Json

CONSTANTS MaxGlyphs, Rich, Export

VARIABLES c
vars == <<c>>

Byte2(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
Words(vs) == FlattenSeq([i \in 1..Len(vs) |-> Byte2(vs[i])])
Zeros(n) == [i \in 1..n |-> 0]

Vs == IF Rich THEN {-32768, -7, 0, 900, 32767} ELSE {-7, 0, 900, 32767}
Ds == IF Rich THEN {-32768, -200, 0, 9} ELSE {-32768, -200, 0}
Gs == IF Rich THEN {-90, 0, 90} ELSE {-90, 90}
Wins == IF Rich THEN {0, 100, 1100, 65535} ELSE {0, 1100, 65535}

VCases == {[k |-> "v", hhea |-> <<a, d, g>>, typo |-> <<0, 0, 0>>, win |-> <<0, 0>>, flag |-> FALSE, os2 |-> FALSE] : a \in Vs, d \in Ds, g \in Gs}
          \cup {[k |-> "v", hhea |-> <<a, d, 90>>, typo |-> <<750, -250, 200>>, win |-> <<p, q>>, flag |-> FALSE, os2 |-> TRUE] : a \in Vs, d \in Ds, p \in Wins, q \in Wins}
          \cup {[k |-> "v", hhea |-> <<910, -210, g>>, typo |-> <<a, d, h>>, win |-> <<1100, p>>, flag |-> TRUE, os2 |-> TRUE] : g \in Gs, a \in Vs, d \in Ds, h \in {-32768, 0, 33}, p \in {0, 300}}
MCases == {[k |-> "m", n |-> n, h |-> h, v |-> v] : n \in 1..MaxGlyphs, h \in 1..MaxGlyphs, v \in 0..MaxGlyphs}

Init == c \in VCases \cup {m \in MCases : m.h <= m.n /\ m.v <= m.n}
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
HheaOf(vs, n) == Words(<<1, 0>>) \o Words(vs) \o Words(<<1000, -1, -2, -3, 1, 0, 0>>) \o Zeros(10) \o Words(<<n>>)
OS2Of(x) == Words(<<4, 500, 400, 5, 0>>) \o Words([i \in 1..11 |-> i]) \o Zeros(10) \o Zeros(16) \o <<86, 82, 73, 70>> \o Words(<<IF x.flag THEN 192 ELSE 64, 32, 126>>)
            \o Words(x.typo) \o Words(x.win) \o Zeros(8) \o Words(<<500, 700, 0, 32, 2>>)
MtxOf(n, k, s) == FlattenSeq([g \in 1..n |-> IF g <= k THEN Words(<<s + 10 * g, -s - g>>) ELSE Words(<<-s - g>>)])

VTables == [hhea |-> HheaOf(c.hhea, 1), os2 |-> IF c.os2 THEN OS2Of(c) ELSE <<>>]
MTables == [hhea |-> HheaOf(<<900, -200, 0>>, c.h), hmtx |-> MtxOf(c.n, c.h, 500), vhea |-> IF c.v = 0 THEN <<>> ELSE HheaOf(<<500, -500, 0>>, c.v), vmtx |-> IF c.v = 0 THEN <<>> ELSE MtxOf(c.n, c.v, 1000)]

\* the fields come back
Fields == c.k = "v" => /\ XheaOK(VTables.hhea, 1, FALSE) = "ok"
                       /\ SubSeq(Hhea(VTables.hhea), 1, 3) = c.hhea
                       /\ c.os2 => /\ OS2OK(VTables.os2) = "ok"
                                   /\ SubSeq(OS2(VTables.os2), 42, 44) = c.typo
                                   /\ SubSeq(OS2(VTables.os2), 45, 46) = c.win
                                   /\ OS2(VTables.os2)[51] = 500 /\ OS2(VTables.os2)[52] = 700 /\ Len(OS2(VTables.os2)) = 57

\* the values never are negative, fit in 16 bits, and come from one of the three sources as a pair
Sources == c.k = "v" =>
  LET v == VertMetrics(VTables.hhea, VTables.os2)
      P(x) == IF x < 0 THEN 0 ELSE x
  IN /\ \A i \in 1..3 : v[i] \in 0..65535
     /\ <<v[1], v[2]>> \in {<<P(c.hhea[1]), P(-c.hhea[2])>>, <<c.typo[1], -c.typo[2]>>, c.win}
     \* the distance of the baselines is that of hhea, or more, if the win values are used and all is in range
     /\ (c.os2 /\ ~c.flag /\ c.win[1] # 0 /\ c.win[2] # 0) => v[1] + v[2] + v[3] >= (IF c.hhea[1] - c.hhea[2] + c.hhea[3] > 65535 THEN 65535 ELSE c.hhea[1] - c.hhea[2] + c.hhea[3])
     /\ (c.os2 /\ c.flag) => v # c.win

\* advances: as many different ones as long metrics; bearings: one for every glyph
Lookups == c.k = "m" =>
  /\ XmtxOK(MTables.hmtx, c.n, c.h) = "ok" /\ XmtxOK(Tail(MTables.hmtx), c.n, c.h) = "bad"
  /\ \A g \in 0..(c.n + 1) : Advance(MTables.hmtx, c.h, g) = 500 + 10 * (IF g + 1 <= c.h THEN g + 1 ELSE c.h)
  /\ \A g \in 0..(c.n - 1) : Bearing(MTables.hmtx, c.n, c.h, g) = -500 - (g + 1)
  /\ Bearing(MTables.hmtx, c.n, c.h, c.n) = 0

\* strings
Texts == /\ Utf16(<<0, 65, 216, 61, 222, 0>>, 0, <<>>) = <<65, 128512>> /\ Utf16(<<216, 61>>, 0, <<>>) = NoText /\ Utf16(<<0>>, 0, <<>>) = NoText
         /\ TextOf(1, 0, <<65, 142>>) = <<65, 233>>
         /\ Len(MacNames) = 258 /\ Len(CffStrings) = 391 /\ Len(MacRoman) = 128
         /\ Cardinality({MacNames[i] : i \in 1..258}) = 258 /\ Cardinality({CffStrings[i] : i \in 1..391}) = 391

Plans == Export => PrintT("PLAN " \o ToJson(IF c.k = "v" THEN [k |-> "v", hhea |-> VTables.hhea, os2 |-> VTables.os2] ELSE [k |-> "m", n |-> c.n, t |-> MTables]))
=============================================================================
