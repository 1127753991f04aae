--------------------------------- MODULE Cmd ---------------------------------
(***************************************************************************)
(* The command line tool: what its arguments mean, and which files it      *)
(* writes.  Texts are sequences of characters (numbers); names of glyphs   *)
(* sequences of bytes.  Readings have a status: "ok", "bad" (must be       *)
(* refused), "odd" (not settled by the documentation: anything goes that   *)
(* is not a crash).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Dash == 45
Back == 92
Pct  == 37

IsDec(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDec(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 16
Limit == 16777216          \* what is at least this is as good as this

\* the value of a text of digits in a base, or -1
RECURSIVE NumAcc(_, _, _)
NumAcc(s, base, v) ==
  IF s = <<>> THEN v
  ELSE LET d == HexVal(s[1]) IN IF d >= base THEN -1 ELSE NumAcc(Tail(s), base, IF v >= Limit THEN Limit ELSE v * base + d)
Num(s, base) == IF s = <<>> THEN -1 ELSE NumAcc(s, base, 0)

Worst(sts) == IF "bad" \in sts THEN "bad" ELSE IF "odd" \in sts THEN "odd" ELSE "ok"

FirstDash(s) == LET D == {i \in 1..Len(s) : s[i] = Dash} IN IF D = {} THEN 0 ELSE Min(D)

\* N or N-M, as intervals of numbers up to a highest one; a plus sign is not settled
Interval(s, base, top) ==
  LET d == FirstDash(s)
      lo == IF d = 0 THEN s ELSE SubSeq(s, 1, d - 1)
      hi == IF d = 0 THEN s ELSE SubSeq(s, d + 1, Len(s))
      a == Num(lo, base)
      b == Num(hi, base)
  IN IF \E i \in 1..Len(s) : s[i] = 43 THEN [st |-> "odd", lo |-> 0, hi |-> 0]
     ELSE IF a < 0 \/ b < 0 \/ b < a THEN [st |-> "bad", lo |-> 0, hi |-> 0]
     ELSE IF b > top THEN [st |-> "over", lo |-> a, hi |-> b]
     ELSE [st |-> "ok", lo |-> a, hi |-> b]

GlyphItem(s) == LET v == Interval(s, 10, 65535) IN [v EXCEPT !.st = IF @ = "over" THEN "bad" ELSE @]
CodeItem(s)  == LET v == Interval(s, 16, 1114111) IN [v EXCEPT !.st = IF @ = "over" THEN "odd" ELSE @]

-----------------------------------------------------------------------------
(* Literal characters with the escapes of Go strings                        *)
Escapes == << <<97, 7>>, <<98, 8>>, <<116, 9>>, <<110, 10>>, <<118, 11>>, <<102, 12>>, <<114, 13>>, <<34, 34>>, <<39, 39>>, <<44, 44>>, <<45, 45>>, <<92, 92>> >>
Escaped(c) == {Escapes[i][2] : i \in {j \in 1..Len(Escapes) : Escapes[j][1] = c}}
HexLen(c) == CASE c = 120 -> 2 [] c = 117 -> 4 [] c = 85 -> 8 [] OTHER -> 0

\* characters as <<code, escaped>>
RECURSIVE Lex(_)
Lex(s) ==
  IF s = <<>> THEN [st |-> "ok", t |-> <<>>]
  ELSE IF s[1] # Back THEN LET R == Lex(Tail(s)) IN [R EXCEPT !.t = <<<<s[1], FALSE>>>> \o @]
  ELSE IF Len(s) = 1 THEN [st |-> "odd", t |-> <<>>]
  ELSE IF Escaped(s[2]) # {} THEN LET R == Lex(SubSeq(s, 3, Len(s))) IN [R EXCEPT !.t = <<<<CHOOSE e \in Escaped(s[2]) : TRUE, TRUE>>>> \o @]
  ELSE LET k == HexLen(s[2])
           v == IF k = 0 \/ Len(s) < k + 2 THEN -1 ELSE Num(SubSeq(s, 3, k + 2), 16)
       IN IF v < 0 \/ v > 1114111 \/ (v >= 55296 /\ v <= 57343) THEN [st |-> "odd", t |-> <<>>]
          ELSE LET R == Lex(SubSeq(s, k + 3, Len(s))) IN [R EXCEPT !.t = <<<<v, TRUE>>>> \o @]

IsDash(x) == x = <<Dash, FALSE>>
\* intervals of characters: a-z, or single ones; a dash makes a range of the characters on both its sides, but at the end, or after a range, it stands for itself
RECURSIVE Spans(_, _)
Spans(t, after) ==                     \* after: what comes before is a range
  IF t = <<>> THEN [st |-> "ok", iv |-> {}]
  ELSE IF IsDash(t[1]) THEN
    IF Len(t) = 1 THEN [st |-> "ok", iv |-> {<<Dash, Dash>>}]
    ELSE IF ~after \/ IsDash(t[2]) THEN [st |-> "odd", iv |-> {}]
    ELSE LET R == Spans(Tail(t), FALSE) IN [R EXCEPT !.iv = @ \cup {<<Dash, Dash>>}]
  ELSE IF Len(t) >= 3 /\ IsDash(t[2]) THEN
    IF IsDash(t[3]) \/ t[3][1] < t[1][1] THEN [st |-> "odd", iv |-> {}]
    ELSE LET R == Spans(SubSeq(t, 4, Len(t)), TRUE) IN [R EXCEPT !.iv = @ \cup {<<t[1][1], t[3][1]>>}]
  ELSE LET R == Spans(Tail(t), FALSE) IN [R EXCEPT !.iv = @ \cup {<<t[1][1], t[1][1]>>}]
CharItem(s) == LET L == Lex(s) IN IF L.st # "ok" THEN [st |-> L.st, iv |-> {}] ELSE Spans(L.t, FALSE)

-----------------------------------------------------------------------------
(* The glyphs that are asked for. f: a font as in FontLib; nb: the names of *)
(* its glyphs; a: g, c, n, u: lists of texts, r: list of [known, has: the   *)
(* characters of the font that belong to the category or script]            *)
Chars(f) == {f.cm[i] : i \in 1..Len(f.cm)}
Within(f, iv) == {p[2] : p \in {q \in Chars(f) : \E v \in iv : v[1] <= q[1] /\ q[1] <= v[2]}}
Asked(f, nb, a) ==
  LET G == [i \in 1..Len(a.g) |-> GlyphItem(a.g[i])]
      C == [i \in 1..Len(a.c) |-> CharItem(a.c[i])]
      U == [i \in 1..Len(a.u) |-> CodeItem(a.u[i])]
      Named(s) == {i - 1 : i \in {j \in 1..Len(nb) : nb[j] = s}}
      N == [i \in 1..Len(a.n) |-> IF a.n[i] = <<>> \/ Cardinality(Named(a.n[i])) > 1 THEN "odd" ELSE "ok"]
      R == [i \in 1..Len(a.r) |-> IF a.r[i].known THEN "ok" ELSE "bad"]
      st == Worst({G[i].st : i \in 1..Len(G)} \cup {C[i].st : i \in 1..Len(C)} \cup {U[i].st : i \in 1..Len(U)} \cup {N[i] : i \in 1..Len(N)} \cup {R[i] : i \in 1..Len(R)})
      over == \E i \in 1..Len(G) : G[i].st = "ok" /\ G[i].hi >= f.n
  IN IF st = "bad" \/ over THEN [st |-> "bad", s |-> {}]
     ELSE IF st = "odd" THEN [st |-> "odd", s |-> {}]
     ELSE [st |-> "ok",
           s |-> {0} \cup UNION {G[i].lo..G[i].hi : i \in 1..Len(G)} \cup UNION {Within(f, C[i].iv) : i \in 1..Len(C)}
                 \cup UNION {Within(f, {<<U[i].lo, U[i].hi>>}) : i \in 1..Len(U)} \cup UNION {Named(a.n[i]) : i \in 1..Len(a.n)}
                 \cup UNION {{p[2] : p \in {q \in Chars(f) : q[1] \in ToSet(a.r[i].has)}} : i \in 1..Len(a.r)}]

-----------------------------------------------------------------------------
(* Patterns for names: %i glyph ID, %n glyph name, %u character, %% percent *)
RECURSIVE Digits(_, _)
Digits(v, base) == (IF v < base THEN <<>> ELSE Digits(v \div base, base)) \o <<LET d == v % base IN IF d < 10 THEN 48 + d ELSE 87 + d>>

RECURSIVE Expand(_, _, _, _)
Expand(pat, id, name, char) ==         \* char = -1: none
  IF pat = <<>> THEN [st |-> "ok", s |-> <<>>]
  ELSE IF pat[1] # Pct THEN LET R == Expand(Tail(pat), id, name, char) IN [R EXCEPT !.s = <<pat[1]>> \o @]
  ELSE IF Len(pat) = 1 THEN [st |-> "odd", s |-> <<>>]
  ELSE LET R == Expand(SubSeq(pat, 3, Len(pat)), id, name, char)
           With(x) == [R EXCEPT !.s = x \o @]
           Missing == [st |-> IF R.st = "odd" THEN "odd" ELSE "missing", s |-> <<>>]
       IN CASE pat[2] = Pct -> With(<<Pct>>)
            [] pat[2] = 105 -> With(Digits(id, 10))
            [] pat[2] = 110 -> IF name = <<>> THEN Missing ELSE With(name)
            [] pat[2] = 117 -> IF char < 0 THEN Missing ELSE With(Digits(char, 16))
            [] OTHER -> [st |-> "odd", s |-> <<>>]

\* any of the characters of a glyph may be the one
Expansions(pat, id, name, chars) == IF chars = {} THEN {Expand(pat, id, name, -1)} ELSE {Expand(pat, id, name, c) : c \in chars}

-----------------------------------------------------------------------------
(* What is written. cmd: "subset" or "merge"; t: the type option; ext: the  *)
(* extension; src: container of the input; k: kind of the font to write.    *)
Wanted(cmd, t, ext, src) ==
  CASE t = "font/truetype" -> "tt"
    [] t = "font/opentype" -> "cff"
    [] t = "font/woff2" -> "woff2"
    [] t # "" -> "none"
    [] ext \in {".ttf", ".ttc"} -> "tt"
    [] ext \in {".otf", ".otc"} -> "cff"
    [] ext = ".woff2" -> "woff2"
    [] ext \in {".woff", ".eot"} -> "none"
    [] cmd = "merge" -> "none"
    [] OTHER -> IF src \in {"tt", "cff", "woff2"} THEN src ELSE "none"
Fits(want, k) == want = "woff2" \/ want = k
EncOK(enc) == enc \in {"", "base64"}

\* the outputs are written in order up to the first that is refused: state of each as "new", "old", "absent"
\* o: [want, exists, yes: the user agrees to overwrite]
MayWrite(o, k, force) == Fits(o.want, k) /\ (o.exists => force \/ o.yes)
Before(o) == IF o.exists THEN "old" ELSE "absent"
RECURSIVE Outcome(_, _, _)
Outcome(outs, k, force) ==
  IF outs = <<>> THEN <<>>
  ELSE IF MayWrite(outs[1], k, force) THEN <<"new">> \o Outcome(Tail(outs), k, force)
  ELSE [i \in 1..Len(outs) |-> Before(outs[i])]
Success(outs, k, force) == \A i \in 1..Len(outs) : MayWrite(outs[i], k, force)
=============================================================================
