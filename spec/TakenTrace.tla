----------------------------- MODULE TakenTrace -----------------------------
(* Events: "freetype": a font read from the file b by golang/freetype, and   *)
(* out, the file made from it; f and g: the fonts of a plain file with the   *)
(* same tables, and of out.  "sfnt": a font of x/image, with the errors when *)
(* b and out are parsed.  same: the memory of the file is as it was; again:   *)
(* a second time gives the same.                                             *)
EXTENDS Taken, Trace

vars == tvars

Some(f, P(_)) == \E i \in 1..Len(f.g) : P(i)
\* everything but names and vertical metrics is kept
Alike(f, g) ==
  IF f.fail # "" THEN {} ELSE IF g.fail # "" THEN {"panic in a query: " \o g.fail}
  ELSE IF f.n # g.n \/ f.k # g.k THEN {"glyph count"}
  ELSE Fail(Some(f, LAMBDA i : f.g[i].p # g.g[i].p), "paths")
    \cup Fail(Some(f, LAMBDA i : f.g[i].b # g.g[i].b), "bounds")
    \cup Fail(Some(f, LAMBDA i : f.g[i].a # g.g[i].a), "advances")
    \cup Fail(Some(f, LAMBDA i : f.g[i].l # g.g[i].l), "side bearings")
    \cup Fail(Some(f, LAMBDA i : f.g[i].i # g.g[i].i), "instructions")
    \cup Fail(f.cm # g.cm, "characters")
    \cup Fail(f.kern # g.kern, "kerning")
    \cup Fail(f.upem # g.upem, "units per em")
    \cup Fail(f.meta.name # g.meta.name /\ g.meta.name # "", "names")
    \cup Fail(f.meta.head # g.meta.head, "head values")

HasTable(b, tag) == LET O == Open(b, 0, TRUE) IN \E i \in 1..Len(O.dir) : O.dir[i].tag = tag /\ O.dir[i].len > 0

Freetype(e) ==
  IF Open(e.b, 0, TRUE).st = "bad" THEN {}
  ELSE TakenWrong(e.b, e.out)
       \cup (IF ~HasTable(e.b, T("name")) THEN {}
             ELSE IF e.err # "" THEN {"the font can't be read: " \o e.err}
             ELSE Alike(e.f, e.g))

\* the bytes of the file, perhaps without what follows the last table (but for padding)
GoSFNT(e) ==
  LET O == Open(e.b, 0, FALSE)
      n == Len(e.out)
      ends == {O.dir[i].off + O.dir[i].len : i \in 1..Len(O.dir)}
      Filled(k) == k > 0 /\ k \notin 1..(n - 4) /\ (\A x \in ends : x < k) /\ e.out[k] = 0
  IN Fail(\E k \in 1..n : (k > Len(e.b) \/ e.b[k] # e.out[k]) /\ ~Filled(k), "other bytes")
     \cup Fail(O.st # "bad" /\ \E i \in 1..Len(O.dir) : O.dir[i].off + O.dir[i].len > n, "missing bytes")
     \cup Fail(e.err0 = "" /\ e.err # "", "the font can't be read: " \o e.err)

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] OTHER -> Fail(~e.same, "the memory of the other font is changed")
                \cup Fail(~e.again, "a second time gives something else")
                \cup (IF e.op = "sfnt" THEN GoSFNT(e) ELSE Freetype(e))

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
