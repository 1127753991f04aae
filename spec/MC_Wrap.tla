------------------------------ MODULE MC_Wrap ------------------------------
(***************************************************************************)
(* Every way of wrapping a font in WOFF (tables stored or compressed,      *)
(* order of the data, gaps, metadata and private blocks, flavours) and EOT *)
(* (versions, obfuscation, lengths of every string), and one fault of each *)
(* kind.  A reference encoder is checked against the decoder; the cases    *)
(* are exported and replayed with real fonts and real zlib streams.        *)
(***************************************************************************)
EXTENDS Wrap, TLC, Json

CONSTANTS Rich, Export

VARIABLES c, b, o
vars == <<c, b, o>>

NT == 4
Faults == {"no", "sig", "ver", "length", "total", "reserved", "sum", "outside", "overlap", "indir", "order", "short", "long", "broken", "cut", "more", "grown"}
Woffs == {[k |-> "woff", fl |-> f, z |-> z, data |-> d, gap |-> g, meta |-> m, priv |-> p, fault |-> q, at |-> a] :
            f \in {"1.0", "true", "OTTO"}, z \in [1..NT -> BOOLEAN], d \in {"up", "down"}, g \in {0, 4}, m \in {FALSE}, p \in {FALSE, TRUE}, q \in Faults, a \in 1..NT}
MetaWoffs == {[k |-> "woff", fl |-> f, z |-> z, data |-> d, gap |-> g, meta |-> TRUE, priv |-> p, fault |-> "no", at |-> 1] :
            f \in {"1.0", "true", "OTTO"}, z \in [1..NT -> BOOLEAN], d \in {"up", "down"}, g \in {0, 4}, p \in {FALSE, TRUE}}
Lens == IF Rich THEN {0, 1, 2, 5} ELSE {0, 3}
EFaults == {"no", "magic", "version", "compressed", "cut", "size", "sub", "empty"}
Eots == {[k |-> "eot", v |-> v, xor |-> x, names |-> <<n1, n2, n1 + n2, n2>>, root |-> r, sig |-> s, eudc |-> u, tail |-> t, fault |-> q] :
            v \in {10, 21, 22}, x \in BOOLEAN, n1 \in Lens, n2 \in Lens, r \in {0, 3}, s \in {0, 2}, u \in {0, 7}, t \in {0, 3}, q \in EFaults}
Cases == {x \in Woffs : x.at > 1 => x.fault \in {"sum", "outside", "short", "long", "broken", "grown"}} \cup MetaWoffs
         \cup {x \in Eots : (x.v # 22 => x.sig = 0 /\ x.eudc = 0) /\ (x.v = 10 => x.root = 0) /\ (x.fault # "no" => x.tail = 0)}

-----------------------------------------------------------------------------
B2(v) == <<(v \div 256) % 256, v % 256>>
B4(v) == B2(v \div 65536) \o B2(v % 65536)
E2(v) == <<v % 256, v \div 256>>
E4(v) == E2(v % 65536) \o E2(v \div 65536)
Pad(x) == x \o [i \in 1..(Padded(Len(x)) - Len(x)) |-> 0]
Rep(v, n) == [i \in 1..n |-> v]

\* tables; a compressed table of the model is the value and the number of times it is repeated
Tag(i) == <<T("cmap"), T("glyf"), T("head"), T("post")>>[i]
Data(i) == IF i = 3 THEN Zeroed(Rep(6, 54), 8, 4) ELSE Rep(i, 6 + i)
Comp(i) == IF c.z[i] THEN <<Data(i)[1], Len(Data(i)), 77>> ELSE Data(i)
Orig(i) == Len(Data(i)) + (CASE c.fault = "short" /\ c.at = i -> 1 [] c.fault = "long" /\ c.at = i -> -1 [] OTHER -> 0)
Z == [i \in 1..NT |-> IF c.fault = "broken" /\ c.at = i THEN [st |-> "bad", data |-> <<>>] ELSE [st |-> "ok", data |-> Data(i)]]

Order == IF c.data = "up" THEN [i \in 1..NT |-> i] ELSE [i \in 1..NT |-> NT + 1 - i]
DirEnd == 44 + 20 * NT
RECURSIVE Places(_, _)
Places(order, at) == IF order = <<>> THEN <<>> ELSE <<[i |-> Head(order), off |-> at + c.gap]>> \o Places(Tail(order), at + c.gap + Padded(Len(Comp(Head(order)))))
WoffFile ==
  LET places == Places(Order, DirEnd)
      OffOf(i) == LET x == places[CHOOSE k \in 1..NT : places[k].i = i].off
                  IN CASE c.fault = "outside" /\ c.at = i -> 100000 [] c.fault = "overlap" /\ i = 4 -> places[CHOOSE k \in 1..NT : places[k].i = 2].off
                       [] c.fault = "indir" /\ i = 1 -> 60 [] OTHER -> x
      CompLen(i) == IF c.fault = "grown" /\ c.at = i THEN Orig(i) + 1 ELSE Len(Comp(i))
      body == FlattenSeq([k \in 1..NT |-> Rep(0, c.gap) \o Pad(Comp(Order[k]))])
      total == 12 + 16 * NT + FoldLeft(LAMBDA a, i : a + Padded(Orig(i)), 0, [i \in 1..NT |-> i]) + (IF c.fault = "total" THEN 4 ELSE 0)
      meta == IF c.meta THEN Rep(9, 8) ELSE <<>>
      priv == IF c.priv THEN Rep(8, 12) ELSE <<>>
      dir == [i \in 1..NT |-> LET x == SumOf(IF c.fault = "sum" /\ c.at = i THEN Data(i) \o Rep(1, 4) ELSE Data(i)) IN Tag(i) \o B4(OffOf(i)) \o B4(CompLen(i)) \o B4(Orig(i)) \o B2(x[1]) \o B2(x[2])]
      dirs == IF c.fault = "order" THEN <<dir[2], dir[1]>> \o SubSeq(dir, 3, NT) ELSE dir
      len == DirEnd + Len(body) + Len(meta) + Len(priv)
      h == (IF c.fault = "sig" THEN <<119, 79, 70, 71>> ELSE S("wOFF")) \o (IF c.fault = "ver" THEN T("ttcf") ELSE T(c.fl)) \o B4(IF c.fault = "length" THEN len + 1 ELSE len)
           \o B2(NT) \o B2(IF c.fault = "reserved" THEN 1 ELSE 0) \o B4(total) \o B2(1) \o B2(0)
           \o (IF c.meta THEN B4(DirEnd + Len(body)) \o B4(8) \o B4(20) ELSE Rep(0, 12)) \o (IF c.priv THEN B4(DirEnd + Len(body) + Len(meta)) \o B4(12) ELSE Rep(0, 8))
      all == h \o FlattenSeq(dirs) \o body \o meta \o priv
  IN CASE c.fault = "cut" -> SubSeq(all, 1, Len(all) - 3) [] c.fault = "more" -> all \o <<0>> [] OTHER -> all
ZFile == IF c.k = "woff" /\ c.fault = "order" THEN <<Z[2], Z[1], Z[3], Z[4]>> ELSE IF c.k = "woff" THEN Z ELSE <<>>

EotFont == [i \in 1..11 |-> (37 * i) % 256]
EotFile ==
  LET Str(n) == E2(n) \o Rep(65, n)
      body == IF c.fault = "empty" THEN <<>> ELSE IF c.xor THEN [i \in 1..11 |-> EotFont[i] ^^ 80] ELSE EotFont
      names == Str(c.names[1]) \o E2(0) \o Str(c.names[2]) \o E2(0) \o Str(c.names[3]) \o E2(0) \o Str(c.names[4])
      root == IF c.v = 10 THEN <<>> ELSE E2(0) \o Str(c.root)
      sig == IF c.v # 22 THEN <<>> ELSE E4(0) \o E4(0) \o E2(0) \o Str(c.sig) \o E4(0) \o E4(c.eudc) \o Rep(3, c.eudc)
      ver == IF c.fault = "version" THEN <<3, 0, 2, 0>> ELSE CASE c.v = 10 -> V10 [] c.v = 21 -> V21 [] c.v = 22 -> V22
      all == E4(0) \o E4(Len(body) + (IF c.fault = "size" THEN 1 ELSE 0)) \o ver \o <<IF c.fault = "compressed" THEN 4 ELSE 0, 0, 0, IF c.xor THEN 16 ELSE 0>> \o Rep(1, 10) \o <<1, 0>> \o E4(400) \o E2(0)
             \o (IF c.fault = "magic" THEN E2(20557) ELSE E2(20556)) \o Rep(2, 24) \o Rep(7, 4) \o Rep(0, 16) \o E2(0) \o names \o root \o sig \o body \o Rep(5, c.tail)
  IN CASE c.fault = "cut" -> SubSeq(all, 1, Len(all) - Len(body) - 1) [] c.fault = "sub" -> SubSeq(all, 1, 81) [] OTHER -> all

Init == c \in Cases /\ b = <<>> /\ o = <<>>
Next == /\ o = <<>> /\ c' = c
        /\ b' = IF c.k = "woff" THEN WoffFile ELSE EotFile
        /\ o' = IF c.k = "woff" THEN Woff(b', ZFile) ELSE Eot(b')
Spec == Init /\ [][Next]_vars
Read == o # <<>>

\* a decoded table that is declared longer or shorter than it is: a stored one overlaps or leaves bytes, a compressed one inflates to another length
Expected ==
  IF c.k = "eot" THEN (CASE c.fault = "no" -> {"ok"} [] c.fault = "empty" -> {"odd"} [] OTHER -> {"bad"})
  ELSE CASE c.fault = "no" -> {"ok"}
         [] c.fault \in {"total", "reserved", "order", "sum"} -> {"odd"}
         [] c.fault \in {"short", "long"} -> {"bad"}
         [] c.fault = "broken" -> IF c.z[c.at] THEN {"bad"} ELSE {"ok"}
         [] OTHER -> {"bad"}
Verdict == Read => o.st \in Expected
Exact == Read => IF c.k = "eot" THEN (o.st = "ok" => o.data = EotFont)
                 ELSE (o.st = "ok" => o.tables = [i \in 1..NT |-> [tag |-> Tag(i), data |-> Data(i)]] /\ o.ver = T(c.fl))
Known == Read => Media(b) = (IF c.k = "eot" THEN (IF c.fault = "magic" THEN "" ELSE "application/vnd.ms-fontobject") ELSE IF c.fault = "sig" THEN (IF FU8(b, 34) = 76 THEN "x" ELSE "") ELSE "font/woff")

Plans == (Export /\ ~Read) => PrintT("PLAN " \o ToJson(c))
=============================================================================
