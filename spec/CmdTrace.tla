------------------------------ MODULE CmdTrace ------------------------------
(* Validates recorded runs of the command line tool. *)
EXTENDS FontCmp, Cmd

vars == tvars

IfCrash(e) == Fail(e.crash # "", "the tool crashes: " \o e.crash)

\* what became of the files. e.out[i]: state "new"/"old"/"absent", b64: its text is that of base64, k: what it begins as,
\* err: why it cannot be read, f: the font, nb: its names; sum: digest of the font bytes
State(e, i) == e.out[i].state
Untouched(e) == \A i \in 1..Len(e.out) : State(e, i) = Before(e.out[i])

Bytes(e, i, want) ==          \* the form of a written file
  Fail(e.enc = "base64" /\ ~e.out[i].b64, "not base64")
  \cup Fail(e.out[i].k # want, "written as " \o e.out[i].k \o " instead of " \o want)
  \cup Fail(e.out[i].err # "", "the output does not parse: " \o e.out[i].err)

Refused(e) == Fail(e.code = 0, "no error") \cup Fail(~Untouched(e), "a file was written in spite of an error")

NoNames(f) == [f EXCEPT !.g = [i \in 1..Len(f.g) |-> [f.g[i] EXCEPT !.m = ""]], !.find = <<>>]

Files(e, k, Good(_)) ==
  LET outs == [i \in 1..Len(e.out) |-> [want |-> Wanted(e.op, e.t, e.out[i].ext, e.src), exists |-> e.out[i].exists, yes |-> e.out[i].yes]]
      X == Outcome(outs, k, e.force)
  IN Fail(e.code = 0 /\ ~Success(outs, k, e.force), "no error although an output was refused")
     \cup Fail(e.code # 0 /\ Success(outs, k, e.force), "an error")
     \cup UNION {IF State(e, i) # X[i] THEN {"an output is " \o State(e, i) \o " instead of " \o X[i]}
                 ELSE IF X[i] # "new" THEN {}
                 ELSE LET b == Bytes(e, i, IF outs[i].want = "woff2" THEN "woff2" ELSE k) IN IF b # {} THEN b ELSE Good(i) : i \in 1..Len(e.out)}

\* tables that WOFF2 leaves out
Signed(f, g) == IF HasTab(f, "DSIG") /\ ~HasTab(g, "DSIG") THEN [f EXCEPT !.tabs = SelectSeq(@, LAMBDA x : x # "DSIG")] ELSE f

-----------------------------------------------------------------------------
Subset(e) ==
  LET f == e.f
      A == Asked(f, e.nb, e.a)
      ids == SetToSortSeq(A.s, <)
      Exp(i) == Expansions(e.pat, ids[i], e.nb[ids[i] + 1], ToSet(f.uni[ids[i] + 1]))
      E == TLCEval([i \in 1..Len(ids) |-> Exp(i)])
      oddpat == e.pat # <<>> /\ \E i \in 1..Len(ids) : \E x \in E[i] : x.st = "odd"
      long == f.k = "tt" /\ e.pat # <<>> /\ \E i \in 1..Len(ids) : \E x \in E[i] : Len(x.s) > 63
      Text(x) == IF x.st = "missing" THEN <<>> ELSE x.s
      Named(got, nb) ==
        IF Len(nb) < Len(ids) THEN FALSE
        ELSE IF e.pat # <<>> THEN \A i \in 1..Len(ids) : (f.k = "cff" /\ (i = 1 \/ \E x \in E[i] : Text(x) = <<>>)) \/ nb[i] \in {Text(x) : x \in E[i]}
        ELSE f.k = "cff" \/ \A i \in 1..Len(nb) : nb[i] = <<>>
      Good(i) == LET got == e.out[i].f IN
        IF got.fail # "" THEN {"a query of the output panics: " \o got.fail}
        ELSE SubsetWrong(Signed(NoNames(f), got), ids, <<"min">>, NoNames(got))
             \cup Fail(~Named(got, e.out[i].nb), "names of glyphs")
  IN IF f.fail # "" THEN {}
     ELSE IF A.st = "bad" \/ ~EncOK(e.enc) THEN Refused(e)
     ELSE IF A.st = "odd" \/ oddpat \/ long THEN {}
     ELSE Files(e, f.k, Good)

\* e.fs: the fonts, and what results after merging each into the first: m[i] = [err, f]
Merge(e) ==
  LET RECURSIVE Steps(_, _)
      Steps(a, i) == IF i > Len(e.fs) THEN "ok" ELSE IF MergeFails(a, e.fs[i], e.re) THEN "fails" ELSE IF i = Len(e.fs) THEN "ok" ELSE Steps(e.mid, i + 1)
      last == IF Len(e.fs) = 3 THEN e.mid ELSE e.fs[1]
      Good(i) == LET got == e.out[i].f IN
        IF got.fail # "" THEN {"a query of the output panics: " \o got.fail}
        ELSE IF Len(e.fs) = 1 THEN {"one font: " \o x : x \in Differ(e.fs[1], got)}
        ELSE IF e.fs[Len(e.fs)].n < 2 THEN {"an empty font: " \o x : x \in Differ(last, got)}
        ELSE MergeWrong(Signed(last, got), e.fs[Len(e.fs)], e.re, "", got)
  IN IF \E i \in 1..Len(e.fs) : e.fs[i].fail # "" THEN {}
     ELSE IF ~EncOK(e.enc) \/ Steps(e.fs[1], 2) = "fails" THEN Refused(e)
     ELSE Files(e, e.fs[1].k, Good)

\* lines of style sheets: .name{content:"\41"}
Brace(c) == <<123, 99, 111, 110, 116, 101, 110, 116, 58, 34, 92>> \o Digits(c, 16) \o <<34, 125>>
Css(e) ==
  LET f == e.f
      Line(g) == {Expand(e.pat, g, e.nb[g + 1], c) : c \in ToSet(f.uni[g + 1])}
      L == TLCEval([g \in 1..(f.n - 1) |-> Line(g)])
      odd == \E g \in 1..(f.n - 1) : \E x \in L[g] : x.st = "odd"
      gs == SelectSeq([g \in 1..(f.n - 1) |-> g], LAMBDA g : \E x \in L[g] : x.st = "ok")
      Full(g) == UNION {LET x == Expand(e.pat, g, e.nb[g + 1], c) IN IF x.st = "ok" THEN {x.s \o Brace(d) : d \in ToSet(f.uni[g + 1])} ELSE {} : c \in ToSet(f.uni[g + 1])}
  IN IF f.fail # "" \/ odd THEN {}
     ELSE IF e.exists /\ ~e.append /\ ~e.force /\ ~e.yes THEN Fail(e.state # "old", "a file is overwritten without asking")
     ELSE Fail(e.code # 0, "an error")
          \cup Fail(e.append /\ e.exists /\ ~e.kept, "appending loses what was there")
          \cup Fail(e.code = 0 /\ (Len(e.lines) # Len(gs) \/ \E i \in 1..Len(gs) : i <= Len(e.lines) /\ e.lines[i] \notin Full(gs[i])), "lines of the style sheet")

\* the table directory as printed: [tag, sum, off, len], 32-bit numbers as pairs of halves
U2(b, p) == b[p] * 256 + b[p + 1]
Pair(b, p) == <<U2(b, p), U2(b, p + 2)>>
Info(e) ==
  LET n == U2(e.dir, 5)
      X == [i \in 1..n |-> [tag |-> SubSeq(e.dir, 16 * i - 3, 16 * i), sum |-> Pair(e.dir, 16 * i + 1), off |-> Pair(e.dir, 16 * i + 5), len |-> Pair(e.dir, 16 * i + 9)]]
  IN Fail(e.code # 0, "an error")
     \cup Fail(e.code = 0 /\ e.version # Pair(e.dir, 1), "version")
     \cup Fail(e.code = 0 /\ e.rows # X, "the table directory")

\* the glyph that is drawn: its number, characters and name come first
Draw(e) ==
  LET f == e.f
      id == IF e.char >= 0 THEN LET g == {p[2] : p \in {q \in Chars(f) : q[1] = e.char}} IN IF g = {} THEN 0 ELSE CHOOSE x \in g : TRUE ELSE e.g
  IN IF f.fail # "" \/ id >= f.n \/ (e.must /\ id = 0) THEN {}
     ELSE Fail(e.gid # id, "another glyph is drawn")
          \cup Fail(e.gid = id /\ ToSet(e.chars) # ToSet(f.uni[id + 1]), "characters of the glyph")
          \cup Fail(e.gid = id /\ e.name # e.nb[id + 1], "name of the glyph")

Check(e) ==
  IF e.op = "crash" THEN {"crash"}
  ELSE IF e.crash # "" THEN IfCrash(e)
  ELSE CASE e.op = "subset" -> Subset(e)
         [] e.op = "merge" -> Merge(e)
         [] e.op = "css" -> Css(e)
         [] e.op = "info" -> Info(e)
         [] e.op = "draw" -> Draw(e)

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
