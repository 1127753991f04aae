-------------------------------- MODULE Afm --------------------------------
(***************************************************************************)
(* Adobe Font Metrics files: what a text, a sequence of bytes, says.  A    *)
(* machine reads one line after the other.  Numbers are in thousandths.    *)
(* st "ok": settled; "bad": the format is broken, there has to be an       *)
(* error; "odd": not settled.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CodeOf(ch) == IF \E i \in 1..26 : SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i) = ch THEN 64 + (CHOOSE i \in 1..26 : SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i) = ch)
              ELSE IF \E i \in 1..26 : SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) = ch THEN 96 + (CHOOSE i \in 1..26 : SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) = ch)
              ELSE IF \E i \in 1..10 : SubSeq("0123456789", i, i) = ch THEN 47 + (CHOOSE i \in 1..10 : SubSeq("0123456789", i, i) = ch)
              ELSE CASE ch = ";" -> 59 [] ch = "-" -> 45 [] ch = "." -> 46 [] ch = "<" -> 60 [] ch = ">" -> 62 [] OTHER -> 32
T(s) == TLCEval([i \in 1..Len(s) |-> CodeOf(SubSeq(s, i, i))])

-----------------------------------------------------------------------------
(* Characters by name: the printing characters of ASCII and some others     *)
Punct == << <<"space", 32>>, <<"exclam", 33>>, <<"quotedbl", 34>>, <<"numbersign", 35>>, <<"dollar", 36>>, <<"percent", 37>>, <<"ampersand", 38>>, <<"quotesingle", 39>>, <<"parenleft", 40>>,
            <<"parenright", 41>>, <<"asterisk", 42>>, <<"plus", 43>>, <<"comma", 44>>, <<"hyphen", 45>>, <<"period", 46>>, <<"slash", 47>>, <<"zero", 48>>, <<"one", 49>>, <<"two", 50>>,
            <<"three", 51>>, <<"four", 52>>, <<"five", 53>>, <<"six", 54>>, <<"seven", 55>>, <<"eight", 56>>, <<"nine", 57>>, <<"colon", 58>>, <<"semicolon", 59>>, <<"less", 60>>, <<"equal", 61>>,
            <<"greater", 62>>, <<"question", 63>>, <<"at", 64>>, <<"bracketleft", 91>>, <<"backslash", 92>>, <<"bracketright", 93>>, <<"asciicircum", 94>>, <<"underscore", 95>>, <<"grave", 96>>,
            <<"braceleft", 123>>, <<"bar", 124>>, <<"braceright", 125>>, <<"asciitilde", 126>>, <<"exclamdown", 161>>, <<"cent", 162>>, <<"sterling", 163>>, <<"yen", 165>>, <<"section", 167>>,
            <<"copyright", 169>>, <<"registered", 174>>, <<"degree", 176>>, <<"questiondown", 191>>, <<"Agrave", 192>>, <<"Aacute", 193>>, <<"AE", 198>>, <<"Ccedilla", 199>>, <<"Eth", 208>>,
            <<"Ntilde", 209>>, <<"multiply", 215>>, <<"Oslash", 216>>, <<"Thorn", 222>>, <<"germandbls", 223>>, <<"adieresis", 228>>, <<"aring", 229>>, <<"ae", 230>>, <<"eth", 240>>, <<"divide", 247>>,
            <<"oslash", 248>>, <<"thorn", 254>>, <<"ydieresis", 255>>, <<"OE", 338>>, <<"oe", 339>>, <<"Scaron", 352>>, <<"florin", 402>>, <<"endash", 8211>>, <<"emdash", 8212>>, <<"quoteleft", 8216>>,
            <<"quoteright", 8217>>, <<"quotedblleft", 8220>>, <<"quotedblright", 8221>>, <<"dagger", 8224>>, <<"bullet", 8226>>, <<"ellipsis", 8230>>, <<"Euro", 8364>>, <<"trademark", 8482>> >>
Agl == TLCEval({[n |-> T(p[1]), r |-> p[2]] : p \in Range(Punct)} \cup {[n |-> <<c>>, r |-> c] : c \in (65..90) \cup (97..122)})
RunesOf(name) == {x.r : x \in {y \in Agl : y.n = name}}
NamesOf(r) == {x.n : x \in {y \in Agl : y.r = r}}

-----------------------------------------------------------------------------
(* Lines, words, numbers                                                    *)
LF == 10
CR == 13
\* the lines: ends at LF, at CR, or at both together
Lines(b) ==
  LET n == Len(b)
      ends == TLCEval(SetToSortSeq({i \in 1..n : b[i] = LF \/ b[i] = CR}, <))
      k == Len(ends)
      Start(j) == IF j = 1 THEN 1 ELSE ends[j - 1] + 1
      whole == TLCEval([j \in 1..k |-> [t |-> SubSeq(b, Start(j), ends[j] - 1), skip |-> b[ends[j]] = LF /\ ends[j] > 1 /\ b[ends[j] - 1] = CR]])
      last == IF k = 0 THEN b ELSE SubSeq(b, ends[k] + 1, n)
      kept == TLCEval(SelectSeq(whole, LAMBDA w : ~w.skip))
  IN [i \in 1..Len(kept) |-> kept[i].t] \o (IF last = <<>> THEN <<>> ELSE <<last>>)
\* more than one way to end lines
MixedEnds(b) ==
  LET crlf == \E i \in 1..(Len(b) - 1) : b[i] = CR /\ b[i + 1] = LF
      cr == \E i \in 1..Len(b) : b[i] = CR /\ (i = Len(b) \/ b[i + 1] # LF)
      lf == \E i \in 1..Len(b) : b[i] = LF /\ (i = 1 \/ b[i - 1] # CR)
  IN Cardinality({x \in {1, 2, 3} : (x = 1 /\ crlf) \/ (x = 2 /\ cr) \/ (x = 3 /\ lf)}) > 1

Gap(c) == c \in {32, 9}
Words(l) == LET n == Len(l)
                at == TLCEval([i \in 1..n |-> i])
                from == TLCEval(SelectSeq(at, LAMBDA i : ~Gap(l[i]) /\ (i = 1 \/ Gap(l[i - 1]))))
                to == TLCEval(SelectSeq(at, LAMBDA i : ~Gap(l[i]) /\ (i = n \/ Gap(l[i + 1]))))
            IN [i \in 1..Len(from) |-> SubSeq(l, from[i], to[i])]
RECURSIVE TrimGap(_)
TrimGap(l) == IF l = <<>> THEN l ELSE IF Gap(l[1]) THEN TrimGap(Tail(l)) ELSE IF Gap(l[Len(l)]) THEN TrimGap(SubSeq(l, 1, Len(l) - 1)) ELSE l

Digit(c) == c >= 48 /\ c <= 57
Value(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)
NoNum == [ok |-> FALSE, v |-> 0]
\* a decimal number of at most six digits before and three after the point, in thousandths
Num(w) ==
  LET neg == w # <<>> /\ w[1] = 45
      u == IF neg THEN Tail(w) ELSE w
      dots == {i \in 1..Len(u) : u[i] = 46}
      dot == IF dots = {} THEN Len(u) + 1 ELSE CHOOSE i \in dots : TRUE
      whole == SubSeq(u, 1, dot - 1)
      part == SubSeq(u, dot + 1, Len(u))
  IN IF Cardinality(dots) > 1 \/ ~(\A i \in 1..Len(u) : Digit(u[i]) \/ u[i] = 46) \/ whole = <<>> \/ Len(whole) > 6 \/ Len(part) > 3 \/ (dots # {} /\ part = <<>>) THEN NoNum
     ELSE LET v == 1000 * Value(whole) + Value(part) * (CASE Len(part) = 1 -> 100 [] Len(part) = 2 -> 10 [] OTHER -> 1)
          IN [ok |-> TRUE, v |-> IF neg THEN -v ELSE v]
Whl(w) == LET x == Num(w) IN IF x.ok /\ ~\E i \in 1..Len(w) : w[i] = 46 THEN [ok |-> TRUE, v |-> x.v \div 1000] ELSE NoNum
HexDigit(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 99
Hex(w) == LET u == SubSeq(w, 2, Len(w) - 1)
          IN IF Len(w) < 3 \/ Len(w) > 6 \/ w[1] # 60 \/ w[Len(w)] # 62 \/ \E i \in 1..Len(u) : HexDigit(u[i]) = 99 THEN NoNum
             ELSE [ok |-> TRUE, v |-> FoldLeft(LAMBDA a, c : 16 * a + HexDigit(c), 0, u)]

-----------------------------------------------------------------------------
(* The machine.  f holds the values of the font by key, c its characters,   *)
(* k its pairs of names with their kerning.                                 *)
kStartFont == T("StartFontMetrics")
kEndFont == T("EndFontMetrics")
kStartChar == T("StartCharMetrics")
kEndChar == T("EndCharMetrics")
kStartKern == T("StartKernData")
kEndKern == T("EndKernData")
kStartTrack == T("StartTrackKern")
kEndTrack == T("EndTrackKern")
kTrack == T("TrackKern")
kStartPairs == {T("StartKernPairs"), T("StartKernPairs0")}
kEndPairs == T("EndKernPairs")
kKPX == T("KPX")
TextKeys == TLCEval({[k |-> T(s), f |-> s] : s \in {"FontName", "FullName", "FamilyName", "Weight"}})
NumKeys == TLCEval({[k |-> T(s), f |-> s] : s \in {"CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness", "ItalicAngle"}})
kBBox == T("FontBBox")
kFixed == T("IsFixedPitch")
kCharWidth == T("CharWidth")
\* keys that stand for nothing here outside of their sections, or that change what other keys are
OddKeys == TLCEval({T(s) : s \in {"StartDirection", "MetricsSets", "EndCharMetrics", "EndKernData", "EndKernPairs", "EndTrackKern", "KPX", "C", "CH", "StartFontMetrics", "StartKernPairs", "StartTrackKern", "EndDirection"}})
kTrue == T("true")
kFalse == T("false")
wSemi == <<59>>
kC == T("C")
kCH == T("CH")
kWX == T("WX")
kWY == T("WY")
kN == T("N")
kB == T("B")
kL == T("L")
kComment == T("Comment")

RECURSIVE Groups(_, _, _)
Groups(w, cur, acc) == IF w = <<>> THEN Append(acc, cur) ELSE IF w[1] = wSemi THEN Groups(Tail(w), <<>>, Append(acc, cur)) ELSE Groups(Tail(w), Append(cur, w[1]), acc)

\* a line of the characters: [st, v]
CharLine(l) ==
  LET w == TLCEval(Words(l))
      G == TLCEval(Groups(w, <<>>, <<>>))
      first == G[1]
      rest == TLCEval(IF Len(G) > 1 /\ G[Len(G)] = <<>> THEN SubSeq(G, 2, Len(G) - 1) ELSE SubSeq(G, 2, Len(G)))
      code == IF Len(first) # 2 THEN NoNum ELSE IF first[1] = kC THEN Whl(first[2]) ELSE Hex(first[2])
      Of(key) == {i \in 1..Len(rest) : rest[i] # <<>> /\ rest[i][1] = key}
      Shape(g) == IF g = <<>> THEN FALSE
                  ELSE CASE g[1] \in {kWX, kWY} -> Len(g) = 2 /\ Num(g[2]).ok
                         [] g[1] = kN -> Len(g) = 2
                         [] g[1] = kB -> Len(g) = 5 /\ \A i \in 2..5 : Num(g[i]).ok
                         [] g[1] = kL -> Len(g) = 3
                         [] OTHER -> FALSE
      one(key) == rest[CHOOSE i \in Of(key) : TRUE]
  IN IF w = <<>> \/ Gap(l[1]) \/ w[1] = kComment THEN [st |-> "odd"]
     ELSE IF w[1] \notin {kC, kCH} THEN [st |-> "bad"]
     ELSE IF ~code.ok \/ (\E i \in 1..Len(w) : w[i] # wSemi /\ \E j \in 1..Len(w[i]) : w[i][j] = 59) \/ (\E i \in 1..Len(rest) : ~Shape(rest[i]))
             \/ \E key \in {kWX, kWY, kN, kB} : Cardinality(Of(key)) > 1 THEN [st |-> "odd"]
     ELSE IF Of(kN) = {} THEN [st |-> "bad"]
     ELSE [st |-> "ok", v |-> [code |-> code.v, name |-> one(kN)[2],
                               wx |-> IF Of(kWX) = {} THEN <<>> ELSE <<Num(one(kWX)[2]).v>>,
                               bb |-> IF Of(kB) = {} THEN <<>> ELSE [i \in 1..4 |-> Num(one(kB)[i + 1]).v],
                               ligs |-> [i \in 1..Cardinality(Of(kL)) |-> LET o == TLCEval(SetToSortSeq(Of(kL), <)) IN <<rest[o[i]][2], rest[o[i]][3]>>]]]

Fresh == [st |-> "ok", m |-> "start", left |-> 0, f |-> <<>>, c |-> <<>>, k |-> <<>>, seen |-> {}]
Odd(s) == [s EXCEPT !.st = "odd"]
Bad(s) == [s EXCEPT !.st = "bad"]
HasKey(s, key) == \E i \in 1..Len(s.f) : s.f[i].k = key
Set1(s, key, v) == IF HasKey(s, key) THEN Odd(s) ELSE [s EXCEPT !.f = Append(@, [k |-> key, v |-> v])]
\* a section with a count of lines
Enter(s, w, mode) == LET n == IF Len(w) = 2 THEN Whl(w[2]) ELSE NoNum
                     IN IF Len(w) = 2 /\ n.ok /\ n.v < 0 THEN Bad(s) ELSE IF ~n.ok \/ mode \in s.seen \/ n.v > 65535 THEN Odd(s)
                        ELSE [s EXCEPT !.m = mode, !.left = n.v, !.seen = @ \cup {mode}]

Line(s, l) ==
  IF s.st # "ok" \/ s.m = "done" THEN s
  ELSE
    LET w == TLCEval(IF s.m = "chars" /\ s.left > 0 THEN <<>> ELSE Words(l))
        key == IF w = <<>> THEN <<>> ELSE w[1]
        inset == l # <<>> /\ Gap(l[1]) /\ w # <<>>
    IN CASE s.m = "start" -> IF inset THEN Odd(s) ELSE IF key = kStartFont THEN [s EXCEPT !.m = "top"] ELSE Bad(s)
         [] s.m = "chars" /\ s.left > 0 ->
              LET x == CharLine(l)
              IN CASE x.st = "odd" -> Odd(s) [] x.st = "bad" -> Bad(s) [] OTHER -> [s EXCEPT !.c = Append(@, x.v), !.left = @ - 1]
         [] s.m = "chars" -> IF w = <<>> \/ inset \/ key = kComment THEN Odd(s) ELSE IF key = kEndChar THEN [s EXCEPT !.m = "top"] ELSE Bad(s)
         [] s.m = "kern" ->
              IF w = <<>> THEN s ELSE IF inset THEN Odd(s)
              ELSE IF key = kStartTrack THEN Enter(s, w, "track") ELSE IF key \in kStartPairs THEN Enter(s, w, "pairs") ELSE IF key = kEndKern THEN [s EXCEPT !.m = "top"] ELSE Odd(s)
         [] s.m = "track" -> IF w = <<>> \/ inset THEN Odd(s)
                             ELSE IF s.left > 0 THEN (IF key = kTrack THEN [s EXCEPT !.left = @ - 1] ELSE Odd(s))
                             ELSE IF key = kEndTrack THEN [s EXCEPT !.m = "kern"] ELSE IF key = kComment THEN Odd(s) ELSE Bad(s)
         [] s.m = "pairs" -> IF w = <<>> \/ inset \/ key = kComment THEN Odd(s)
                             ELSE IF s.left > 0
                                  THEN IF key # kKPX \/ Len(w) # 4 \/ ~Num(w[4]).ok THEN Odd(s)
                                       ELSE IF ~(\E i \in 1..Len(s.c) : s.c[i].name = w[2]) \/ ~(\E i \in 1..Len(s.c) : s.c[i].name = w[3]) THEN (IF "chars" \in s.seen THEN Bad(s) ELSE Odd(s))
                                       ELSE [s EXCEPT !.k = Append(@, <<w[2], w[3], Num(w[4]).v>>), !.left = @ - 1]
                             ELSE IF key = kEndPairs THEN [s EXCEPT !.m = "kern"] ELSE Bad(s)
         [] OTHER ->
              IF w = <<>> THEN s
              ELSE IF inset THEN Odd(s)
              ELSE IF \E x \in TextKeys : x.k = key THEN Set1(s, (CHOOSE x \in TextKeys : x.k = key).f, TrimGap(SubSeq(l, Len(key) + 1, Len(l))))
              ELSE IF \E x \in NumKeys : x.k = key THEN (IF Len(w) # 2 \/ ~Num(w[2]).ok THEN Odd(s) ELSE Set1(s, (CHOOSE x \in NumKeys : x.k = key).f, Num(w[2]).v))
              ELSE IF key = kBBox THEN (IF Len(w) # 5 \/ \E i \in 2..Len(w) : ~Num(w[i]).ok THEN Odd(s) ELSE Set1(s, "FontBBox", [i \in 1..4 |-> Num(w[i + 1]).v]))
              ELSE IF key = kFixed THEN (IF Len(w) # 2 \/ w[2] \notin {kTrue, kFalse} THEN Odd(s) ELSE Set1(s, "IsFixedPitch", w[2] = kTrue))
              ELSE IF key = kCharWidth THEN (IF Len(w) # 3 \/ \E i \in 2..Len(w) : ~Num(w[i]).ok THEN Odd(s) ELSE Set1(s, "CharWidth", [i \in 1..2 |-> Num(w[i + 1]).v]))
              ELSE IF key = kStartChar THEN Enter(s, w, "chars")
              ELSE IF key = kStartKern THEN (IF "kern" \in s.seen THEN Odd(s) ELSE [s EXCEPT !.m = "kern", !.seen = @ \cup {"kern"}])
              ELSE IF key = kEndFont THEN [s EXCEPT !.m = "done"]
              ELSE IF key \in OddKeys THEN Odd(s)
              ELSE s

\* what the text says; f as a sequence of keys and values
Read(b) ==
  LET s == FoldLeft(Line, Fresh, Lines(b))
      names == {s.c[i].name : i \in 1..Len(s.c)}
      runes == UNION {RunesOf(n) : n \in names}
      ligs == UNION {Range(s.c[i].ligs) : i \in 1..Len(s.c)}
  IN IF s.st # "ok" THEN s
     ELSE IF MixedEnds(b) THEN Odd(s)
     ELSE IF s.m \notin {"done", "top"} THEN Bad(s)
     ELSE IF \E g \in ligs : g[1] \notin names \/ g[2] \notin names THEN Bad(s)
     ELSE IF s.m = "top" \/ Cardinality(names) # Len(s.c) THEN Odd(s)
     ELSE IF \E i, j \in 1..Len(s.k) : i < j /\ s.k[i][1] = s.k[j][1] /\ s.k[i][2] = s.k[j][2] THEN Odd(s)
     ELSE IF \E i \in 1..Len(s.c) : \E x, y \in 1..Len(s.c[i].ligs) : x < y /\ s.c[i].ligs[x][1] = s.c[i].ligs[y][1] THEN Odd(s)
     ELSE s
Get(s, key, no) == IF HasKey(s, key) THEN s.f[CHOOSE i \in 1..Len(s.f) : s.f[i].k = key].v ELSE no

-----------------------------------------------------------------------------
(* Whole numbers for a value in thousandths; halves go either way           *)
Near(m) == {r \in {m \div 1000, (m \div 1000) + 1} : (1000 * r - m) \in -500..500}
\* got, a number of 16 bits however it is read
Is16(got, m) == \E r \in Near(m) : (got - r) % 65536 = 0

IndexOf(s, name) == {i \in 1..Len(s.c) : s.c[i].name = name}
=============================================================================
