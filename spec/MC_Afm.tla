------------------------------- MODULE MC_Afm -------------------------------
(***************************************************************************)
(* Metrics files written from small abstract fonts, in every form of the   *)
(* numbers, with every way to end lines and several orders of the keys,    *)
(* and damaged in every line.  Reading what was written gives the font     *)
(* back; damage is noticed, or not settled, or changes nothing.            *)
(***************************************************************************)
EXTENDS Afm, Json

CONSTANTS Rich, Export

VARIABLES c, o
vars == <<c, o>>

-----------------------------------------------------------------------------
(* Writing                                                                  *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
\* m in thousandths, with as many digits after the point as needed, or three
AbsV(v) == IF v < 0 THEN -v ELSE v
Three(n) == <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Number(m, long) == (IF m < 0 THEN <<45>> ELSE <<>>) \o Digits(AbsV(m) \div 1000) \o (IF AbsV(m) % 1000 # 0 \/ long THEN <<46>> \o Three(AbsV(m) % 1000) ELSE <<>>)
Sp == <<32>>
JoinBy(ws, z) == FoldLeft(LAMBDA a, w : IF a = <<>> THEN w ELSE a \o z \o w, <<>>, ws)
Key(k, ws) == JoinBy(<<T(k)>> \o ws, Sp)

Chars == << [name |-> T("A"), code |-> 65, wx |-> 722000, bb |-> <<14000, -200, 654400, 718000>>, ligs |-> <<>>],
            [name |-> T("f"), code |-> 102, wx |-> 278000, bb |-> <<14000, 0, 262000, 728600>>, ligs |-> << <<T("A"), T("comma")>> >>],
            [name |-> T("comma"), code |-> -1, wx |-> -700, bb |-> <<-87000, -147600, 191000, 106000>>, ligs |-> <<>>],
            [name |-> T("fi"), code |-> 174, wx |-> 65535000, bb |-> <<0, 0, 0, 0>>, ligs |-> <<>>] >>
Menus == IF Rich THEN {<<>>, <<1>>, <<1, 3>>, <<3, 2, 1>>, <<4, 1, 2, 3>>} ELSE {<<>>, <<1, 3>>, <<3, 2, 1>>}

\* ways to write the line of a character: the order of its parts, how the code is written, how the line ends
CharText(x, w) ==
  LET wx == <<T("WX"), Number(x.wx, w.long)>>
      nm == <<T("N"), x.name>>
      bb == <<T("B")>> \o [i \in 1..4 |-> Number(x.bb[i], w.long)]
      lg == [i \in 1..Len(x.ligs) |-> <<T("L"), x.ligs[i][1], x.ligs[i][2]>>]
      code == IF w.hex /\ x.code >= 0 THEN <<T("CH"), T(CASE x.code = 65 -> "<41>" [] x.code = 102 -> "<66>" [] x.code = 174 -> "<00aE>" [] OTHER -> "<0>")>>
              ELSE <<T("C"), (IF x.code < 0 THEN <<45>> ELSE <<>>) \o Digits(AbsV(x.code))>>
      parts == <<code>> \o (CASE w.order = 1 -> <<wx, nm, bb>> \o lg [] w.order = 2 -> <<nm>> \o lg \o <<bb, wx>> [] OTHER -> <<bb>> \o lg \o <<wx, <<T("WY"), Number(5000, FALSE)>>, nm>>)
      gap == IF w.wide THEN <<32, 9>> ELSE Sp
  IN JoinBy([i \in 1..Len(parts) |-> JoinBy(parts[i], gap)], gap \o wSemi \o gap) \o (IF w.tail THEN gap \o wSemi \o gap ELSE <<>>)

Globals(w) == << Key("FontName", <<T("Some-Font")>>), Key("FullName", <<T("Some"), T("Font")>>), Key("Notice", <<T("C"), T("2000")>>), Key("FamilyName", <<T("Some")>>), Key("Weight", <<T("Semi"), T("Bold")>>),
                 Key("ItalicAngle", <<Number(-12300, FALSE)>>), Key("IsFixedPitch", <<T("false")>>), Key("FontBBox", [i \in 1..4 |-> Number(<<-166400, -225000, 1000600, 931000>>[i], w.long)]),
                 Key("UnderlinePosition", <<Number(-100000, w.long)>>), Key("UnderlineThickness", <<Number(50000, FALSE)>>), Key("CapHeight", <<Number(718400, FALSE)>>), Key("XHeight", <<Number(523000, FALSE)>>),
                 Key("Ascender", <<Number(718000, FALSE)>>), Key("Descender", <<Number(-207000, w.long)>>) >>
Values == [FontName |-> T("Some-Font"), FullName |-> T("Some Font"), FamilyName |-> T("Some"), Weight |-> T("Semi Bold"), ItalicAngle |-> -12300, IsFixedPitch |-> FALSE,
           FontBBox |-> <<-166400, -225000, 1000600, 931000>>, UnderlinePosition |-> -100000, UnderlineThickness |-> 50000, CapHeight |-> 718400, XHeight |-> 523000, Ascender |-> 718000, Descender |-> -207000]

\* all pairs of the characters have a kerning that tells them apart
Kern(m) == FlattenSeq([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> <<Chars[m[i]].name, Chars[m[j]].name, (IF i = j THEN -1 ELSE 1) * (1000 * (10 * i + j) + 400)>>]])
Text(w, m) ==
  LET g == Globals(w)
      cs == <<Key("StartCharMetrics", <<Digits(Len(m) + w.more)>>)>> \o [i \in 1..Len(m) |-> CharText(Chars[m[i]], w)] \o <<T("EndCharMetrics")>>
      kp == Kern(m)
      ks == <<T("StartKernData")>> \o (IF w.track THEN <<Key("StartTrackKern", <<Digits(1)>>), Key("TrackKern", <<Number(-1000, FALSE), Digits(14), Digits(0), Digits(72), Number(1890, FALSE)>>), T("EndTrackKern")>> ELSE <<>>)
            \o <<Key(IF w.zero THEN "StartKernPairs0" ELSE "StartKernPairs", <<Digits(Len(kp) + w.morek)>>)>> \o [i \in 1..Len(kp) |-> Key("KPX", <<kp[i][1], kp[i][2], Number(kp[i][3], w.long)>>)] \o <<T("EndKernPairs"), T("EndKernData")>>
      split == IF w.order = 3 THEN 6 ELSE Len(g)
      gg == IF w.order = 2 THEN Reverse(g) ELSE g
  IN <<Key("StartFontMetrics", <<T("4.1")>>)>> \o SubSeq(gg, 1, split) \o cs \o (IF w.order = 3 THEN SubSeq(gg, split + 1, Len(gg)) ELSE <<>>) \o ks \o <<T("EndFontMetrics")>>
Eol(w) == CASE w.eol = "lf" -> <<10>> [] w.eol = "cr" -> <<13>> [] OTHER -> <<13, 10>>
Bytes(ls, w) == FlattenSeq([i \in 1..Len(ls) |-> ls[i] \o (IF i = Len(ls) /\ w.open THEN <<>> ELSE Eol(w))])

Plain == [order |-> 1, long |-> FALSE, hex |-> FALSE, tail |-> TRUE, wide |-> FALSE, track |-> FALSE, zero |-> FALSE, eol |-> "lf", open |-> FALSE, more |-> 0, morek |-> 0]
Ways == {[Plain EXCEPT !.order = a, !.long = l, !.hex = h, !.tail = t, !.wide = x, !.track = z, !.zero = z, !.eol = e, !.open = p] :
           a \in 1..3, l \in BOOLEAN, h \in BOOLEAN, t \in BOOLEAN, x \in BOOLEAN, z \in BOOLEAN, e \in {"lf", "cr", "crlf"}, p \in BOOLEAN}
Some(w) == Rich \/ ((w.open => w.order = 1) /\ (w.wide => w.tail) /\ (w.hex = w.track))
Menu(i) == CHOOSE m \in Menus : Len(m) = i
Faults == [k : {"cut", "drop", "twice", "swap", "spoil", "bare"}, at : 1..60] \cup [k : {"more"}, at : {-1, 1}] \cup [k : {"morek"}, at : {-1, 1}] \cup {[k |-> "no", at |-> 0]}
Cases == {[w |-> w, m |-> m, x |-> [k |-> "no", at |-> 0]] : w \in {y \in Ways : Some(y)}, m \in Menus}
         \cup {[w |-> [Plain EXCEPT !.order = a, !.eol = e, !.track = TRUE], m |-> m, x |-> f] : a \in IF Rich THEN 1..3 ELSE {1, 3}, e \in IF Rich THEN {"lf", "crlf"} ELSE {"lf"}, m \in Menus, f \in Faults}
Way == CASE c.x.k = "more" -> [c.w EXCEPT !.more = c.x.at] [] c.x.k = "morek" -> [c.w EXCEPT !.morek = c.x.at] [] OTHER -> c.w
Applies == (c.x.k = "more" => c.x.at + Len(c.m) >= 0) /\ (c.x.k = "morek" => c.x.at + Len(Kern(c.m)) >= 0)
Damaged ==
  LET ls == TLCEval(Text(Way, c.m))
      n == Len(ls)
      i == c.x.at
  IN CASE c.x.k \in {"no", "more", "morek"} \/ i > n -> ls
       [] c.x.k = "cut" -> SubSeq(ls, 1, i - 1)
       [] c.x.k = "drop" -> SubSeq(ls, 1, i - 1) \o SubSeq(ls, i + 1, n)
       [] c.x.k = "twice" -> SubSeq(ls, 1, i) \o SubSeq(ls, i, n)
       [] c.x.k = "swap" -> IF i = n THEN ls ELSE SubSeq(ls, 1, i - 1) \o <<ls[i + 1], ls[i]>> \o SubSeq(ls, i + 2, n)
       [] c.x.k = "spoil" -> [ls EXCEPT ![i] = <<120>> \o Tail(@)]
       [] c.x.k = "bare" -> [ls EXCEPT ![i] = SubSeq(@, 1, Len(@) \div 2)]

Init == c \in {x \in Cases : TRUE} /\ o = <<>>
Next == o = <<>> /\ c' = c /\ Applies /\ LET b == TLCEval(Bytes(Damaged, Way)) IN o' = [b |-> b, r |-> Read(b)]
Spec == Init /\ [][Next]_vars
Done == o # <<>>

Same(s) == /\ \A k \in DOMAIN Values : HasKey(s, k) /\ Get(s, k, 0) = Values[k]
           /\ Len(s.c) = Len(c.m)
           /\ \A i \in 1..Len(c.m) : LET x == Chars[c.m[i]]
                                         y == s.c[i]
                                     IN y.code = x.code /\ y.name = x.name /\ y.wx = <<x.wx>> /\ y.bb = x.bb /\ y.ligs = x.ligs
           /\ s.k = Kern(c.m)
\* a font with characters lacks the one of a ligature
Lacks == \E i \in 1..Len(c.m) : c.m[i] = 2 /\ ~({1, 3} \subseteq Range(c.m))
Whole == (Done /\ c.x.k = "no") => IF Lacks THEN o.r.st = "bad" ELSE o.r.st = "ok" /\ Same(o.r)
\* one line too many or too few in a section is noticed
Counted == (Done /\ c.x.k \in {"more", "morek"}) => o.r.st # "ok"
\* a text that is cut short is never taken for a whole one
CutShort == (Done /\ c.x.k = "cut" /\ c.x.at <= Len(Text(Way, c.m))) => o.r.st # "ok"
\* a line that is lost, repeated or spoilt is noticed, or takes a value of the whole font with it
Noticed == (Done /\ c.x.k \in {"drop", "twice", "swap", "spoil"} /\ o.r.st = "ok") =>
             Same([o.r EXCEPT !.f = @ \o FlattenSeq([i \in 1..14 |-> LET k == <<"FontName", "FullName", "FamilyName", "Weight", "ItalicAngle", "IsFixedPitch", "FontBBox", "UnderlinePosition", "UnderlineThickness", "CapHeight", "XHeight", "Ascender", "Descender", "FontName">>[i]
                                                                      IN IF HasKey(o.r, k) \/ i = 14 THEN <<>> ELSE <<[k |-> k, v |-> Values[k]]>>])])
             \/ c.x.k = "swap"
Plans == (Export /\ Done) => PrintT("PLAN " \o ToJson([b |-> o.b]))
=============================================================================
