------------------------------- MODULE MC_Cmd -------------------------------
(***************************************************************************)
(* The command line as a state machine, in three parts that TLC explores   *)
(* apart.  "char", "glyph", "code", "pattern": every text up to a length   *)
(* over an alphabet that has all kinds of characters.  "span": lists of    *)
(* characters and ranges with a choice of how each character is written,   *)
(* so that what is meant is known before it is written.  "out": runs that  *)
(* write a list of outputs one after the other.                            *)
(***************************************************************************)
EXTENDS Cmd, Json

CONSTANTS MaxText, MaxItems, MaxOuts, Export

VARIABLE x
vars == x

-----------------------------------------------------------------------------
(* texts *)
Alpha(p) == CASE p = "char" -> {97, 99, Dash, Back, 120, 54, 50}             \* a c - \ x 6 2
              [] p = "glyph" -> {48, 49, 51, Dash, 57, 97}
              [] p = "code" -> {48, 52, 49, Dash, 66, 98, 103}
              [] p = "pattern" -> {Pct, 105, 110, 117, 120, 50}
Texts == {"char", "glyph", "code", "pattern"}

(* spans: each is <<first, last, more>>, a character with its form; more: a dash and another character come right after the range *)
Forms == {"plain", "esc", "x", "u", "U"}
Cs == {97, 99, Dash, Back, 44, 7}
Writable(c, fm) == CASE fm = "plain" -> c \notin {Dash, Back, 44}
                     [] fm = "esc" -> \E i \in 1..Len(Escapes) : Escapes[i][2] = c
                     [] OTHER -> TRUE
Zero(k, v) == LET d == Digits(v, 16) IN [i \in 1..(k - Len(d)) |-> 48] \o d
Put(c, fm) == CASE fm = "plain" -> <<c>>
                [] fm = "esc" -> <<Back, Escapes[CHOOSE i \in 1..Len(Escapes) : Escapes[i][2] = c][1]>>
                [] fm = "x" -> <<Back, 120>> \o Zero(2, c)
                [] fm = "u" -> <<Back, 117>> \o Zero(4, c)
                [] fm = "U" -> <<Back, 85>> \o Zero(8, c)
Chr == {<<c, fm>> : c \in Cs, fm \in Forms}
Good(q) == Writable(q[1], q[2])
Span == {<<a, b, more>> \in (Chr \X (Chr \cup {<<-1, "none">>}) \X BOOLEAN) :
            Good(a) /\ (b[1] = -1 \/ (Good(b) /\ a[1] <= b[1])) /\ (more => b[1] # -1 /\ a[2] \in {"plain", "x"} /\ b[2] \in {"plain", "esc"})}
Text(l) == FlattenSeq([i \in 1..Len(l) |-> Put(l[i][1][1], l[i][1][2]) \o (IF l[i][2][1] = -1 THEN <<>> ELSE <<Dash>> \o Put(l[i][2][1], l[i][2][2])) \o (IF l[i][3] THEN <<Dash, 99>> ELSE <<>>)])
Meant(l) == UNION {LET s == l[i] IN IF s[2][1] = -1 THEN {s[1][1]} ELSE (s[1][1]..s[2][1]) \cup (IF s[3] THEN {Dash, 99} ELSE {}) : i \in 1..Len(l)}

(* outputs *)
Outs == [ext : {".ttf", ".otf", ".woff2", ".woff", ".bin"}, exists : BOOLEAN, yes : BOOLEAN]
OutRuns == {[p |-> "out", cmd |-> c, k |-> k, t |-> t, src |-> s, force |-> f, outs |-> o, i |-> 0, files |-> [j \in 1..Len(o) |-> Before(o[j])], fail |-> FALSE] :
              c \in {"subset", "merge"}, k \in {"tt", "cff"}, t \in {"", "font/truetype", "font/woff2", "text/plain"}, s \in {"sfnt", "woff2", "other"}, f \in BOOLEAN,
              o \in {u \in UNION {[1..n -> Outs] : n \in 1..MaxOuts} : Len(u) > 0}}
Src(r) == IF r.src = "sfnt" THEN r.k ELSE r.src
Want(r, o) == Wanted(r.cmd, r.t, o.ext, Src(r))

Init ==
  \/ \E p \in Texts : x = [p |-> p, s |-> <<>>]
  \/ x = [p |-> "span", l |-> <<>>]
  \/ /\ x \in OutRuns
     /\ \A j \in 1..Len(x.outs) : x.outs[j].exists \/ ~x.outs[j].yes
     /\ x.cmd = "merge" => x.src = "sfnt"

\* one more character, span, or output
Next ==
  \/ x.p \in Texts /\ Len(x.s) < MaxText /\ \E c \in Alpha(x.p) : x' = [x EXCEPT !.s = Append(@, c)]
  \/ x.p = "span" /\ Len(x.l) < MaxItems /\ \E s \in Span : x' = [x EXCEPT !.l = Append(@, s)]
  \/ /\ x.p = "out" /\ x.i < Len(x.outs) /\ ~x.fail
     /\ LET o == x.outs[x.i + 1]
            w == Want(x, o)
        IN IF Fits(w, x.k) /\ (~o.exists \/ x.force \/ o.yes)
           THEN x' = [x EXCEPT !.i = @ + 1, !.files[x.i + 1] = w]
           ELSE x' = [x EXCEPT !.i = @ + 1, !.fail = TRUE]
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
All(iv) == UNION {v[1]..v[2] : v \in iv}

\* what is written is what is meant
Denotes == x.p = "span" => LET R == CharItem(Text(x.l)) IN R.st = "ok" /\ All(R.iv) = Meant(x.l)

\* a text that falls into two parts, each of them settled, without a dash between them, means both
Splits ==
  x.p = "char" =>
    LET R == CharItem(x.s) IN
    /\ R.st \in {"ok", "odd"}
    /\ \A k \in 1..(Len(x.s) - 1) :
         LET A == CharItem(SubSeq(x.s, 1, k))
             B == CharItem(SubSeq(x.s, k + 1, Len(x.s)))
             apart == x.s[k] # Dash /\ x.s[k + 1] # Dash
         IN (A.st = "ok" /\ B.st = "ok" /\ apart) => (R.st = "ok" /\ All(R.iv) = All(A.iv) \cup All(B.iv))

\* numbers and ranges of them, against the other direction; anything else is refused
Shown(base, s) == {v \in 0..1300 : Digits(v, base) = s}
Plain(base, s) == Len(s) > 0 /\ (Len(s) = 1 \/ s[1] # 48) /\ \A i \in 1..Len(s) : HexVal(s[i]) < base /\ s[i] # 66
Numbers ==
  x.p \in {"glyph", "code"} =>
    LET base == IF x.p = "glyph" THEN 10 ELSE 16
        R == IF x.p = "glyph" THEN GlyphItem(x.s) ELSE CodeItem(x.s)
        D == {i \in 1..Len(x.s) : x.s[i] = Dash}
        lo == IF D = {} THEN x.s ELSE SubSeq(x.s, 1, Min(D) - 1)
        hi == IF D = {} THEN x.s ELSE SubSeq(x.s, Min(D) + 1, Len(x.s))
    IN IF Plain(base, lo) /\ Plain(base, hi) /\ Len(lo) <= 3 /\ Len(hi) <= 3
       THEN \A a \in Shown(base, lo), b \in Shown(base, hi) : R.st = (IF a <= b THEN "ok" ELSE "bad") /\ (a <= b => R.lo = a /\ R.hi = b)
       ELSE (R.st = "ok" => Cardinality(D) <= 1 /\ lo # <<>> /\ hi # <<>> /\ \A i \in 1..Len(x.s) : x.s[i] = Dash \/ HexVal(x.s[i]) < base)

\* a pattern in two parts, not cut within a variable, gives both; percent signs that are doubled stay
RECURSIVE Doubled(_)
Doubled(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = Pct THEN <<Pct, Pct>> ELSE <<s[1]>>) \o Doubled(Tail(s))
Patterns ==
  x.p = "pattern" =>
    LET E(s) == Expand(s, 12, <<103, 49>>, 228)
        R == E(x.s)
    IN /\ E(Doubled(x.s)) = [st |-> "ok", s |-> x.s]
       /\ \A k \in 1..(Len(x.s) - 1) : LET A == E(SubSeq(x.s, 1, k)) IN LET B == E(SubSeq(x.s, k + 1, Len(x.s))) IN A.st = "ok" /\ B.st = "ok" => R = [st |-> "ok", s |-> A.s \o B.s]
       /\ Expand(x.s, 12, <<>>, -1).st = "ok" => ~\E i \in 1..(Len(x.s) - 1) : x.s[i] = Pct /\ x.s[i + 1] \in {110, 117} /\ (i = 1 \/ x.s[i - 1] # Pct)

\* nothing that was there is lost without consent, what is written is of the kind of the font, and nothing follows a failure
Careful ==
  x.p = "out" =>
    \A j \in 1..Len(x.outs) :
      LET o == x.outs[j] IN
      /\ x.files[j] = "absent" => ~o.exists
      /\ o.exists /\ ~x.force /\ ~o.yes => x.files[j] = "old"
      /\ x.files[j] \in {"tt", "cff"} => x.files[j] = x.k
      /\ x.files[j] \notin {"old", "absent"} => j <= x.i /\ (x.t # "" \/ o.ext # ".woff")
\* in the end the files are as the outcome says
Told ==
  (x.p = "out" /\ (x.i = Len(x.outs) \/ x.fail)) =>
    LET os == [j \in 1..Len(x.outs) |-> [want |-> Want(x, x.outs[j]), exists |-> x.outs[j].exists, yes |-> x.outs[j].yes]]
        X == Outcome(os, x.k, x.force)
    IN /\ \A j \in 1..Len(os) : (X[j] = "new") = (x.files[j] \notin {"old", "absent"}) /\ (X[j] # "new" => x.files[j] = X[j])
       /\ Success(os, x.k, x.force) = ~x.fail

Plans ==
  Export =>
    IF x.p \in Texts THEN (x.s # <<>> => PrintT("PLAN " \o ToJson(x)))
    ELSE IF x.p = "span" THEN (x.l # <<>> => PrintT("PLAN " \o ToJson([p |-> "char", s |-> Text(x.l)])))
    ELSE x.i = 0 => PrintT("PLAN " \o ToJson([p |-> "out", cmd |-> x.cmd, k |-> x.k, t |-> x.t, src |-> Src(x), force |-> x.force, outs |-> x.outs]))
=============================================================================
