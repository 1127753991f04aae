------------------------------- MODULE FontCmp -------------------------------
(* Comparison of what the library made with what FontLib says it must be. A  *)
(* difference belongs to one or more properties, and is reported when the    *)
(* check is focused on one of them; C27 looks at all of them, in the fonts   *)
(* that the command line tool writes.                                        *)
EXTENDS FontLib, Trace

On(ps, cond, what) == IF (FocusOn = "C27" \/ \E p \in ps : Focus(p)) /\ cond THEN {what} ELSE {}

Some(f, P(_)) == \E i \in 1..Len(f.g) : P(i)

\* fields in which two observations of what should be the same font differ
Differ(f, g) ==
  IF f.fail # "" \/ g.fail # "" THEN Fail(f.fail # g.fail, "panic in a query: " \o f.fail \o g.fail)
  ELSE IF f.n # g.n \/ f.ids # g.ids THEN {"glyph count"}
  ELSE Fail(f.k # g.k, "kind")
    \cup Fail(Some(f, LAMBDA i : f.g[i].p # g.g[i].p), "paths")
    \cup Fail(Some(f, LAMBDA i : f.g[i].b # g.g[i].b), "bounds")
    \cup Fail(Some(f, LAMBDA i : f.g[i].a # g.g[i].a), "advances")
    \cup Fail(Some(f, LAMBDA i : f.g[i].l # g.g[i].l), "side bearings")
    \cup Fail(Some(f, LAMBDA i : f.g[i].v # g.g[i].v), "vertical advances")
    \cup Fail(Some(f, LAMBDA i : f.g[i].t # g.g[i].t), "top side bearings")
    \cup Fail(Some(f, LAMBDA i : f.g[i].m # g.g[i].m), "glyph names")
    \cup Fail(Some(f, LAMBDA i : f.g[i].i # g.g[i].i), "instructions")
    \cup Fail(Some(f, LAMBDA i : f.g[i].c # g.g[i].c), "components")
    \cup Fail(f.cm # g.cm, "characters")
    \cup Fail(f.uni # g.uni, "reverse characters")
    \cup Fail(f.kern # g.kern, "kerning")
    \cup Fail(f.vm # g.vm, "vertical metrics")
    \cup Fail(f.upem # g.upem, "units per em")
    \cup {"metadata " \o x : x \in {y \in DOMAIN f.meta : f.meta[y] # g.meta[y]}}

\* what must hold of every observed font
Sound(f) ==
  Fail(f.fail # "", "panic in a query: " \o f.fail)
  \cup On({"C17"}, f.fail = "" /\ ~FindOK(f), "name lookup")
  \cup On({"C12"}, f.fail = "" /\ f.kset /\ f.ktab # f.kern, "kerning in the kern table")

-----------------------------------------------------------------------------
\* in what a font got differs from the subset of f with the glyphs gids and the tables keep
SubsetWrong(f, gids, keep, got) ==
    LET M == Observed(f, gids, got)
        K == KeptTabs(f, keep)
        X == [i \in 1..got.n |-> SubGlyph(f, M[i], K)]
        Bad(P(_, _)) == \E i \in 1..got.n : P(X[i], got.g[i])
    IN IF At(f, 0).c # <<>> /\ \E i \in 1..Len(gids) : gids[i] # 0 /\ UsesZero(f, gids[i]) THEN {}   \* an emptied glyph that others use: anything goes
       ELSE IF ~got.dense \/ \E i \in 1..got.n : M[i] = -1 THEN On({"C13"}, TRUE, "glyphs without an origin")
       ELSE IF ~IsSelection(f, gids, M) THEN On({"C13"}, TRUE, "wrong selection of glyphs")
       ELSE On({"C13"} \cup (IF f.k = "cff" THEN {"C18"} ELSE {}), \E i \in 1..got.n : X[i].p # got.g[i].p /\ (M[i] = 0 \/ ~UsesZero(f, M[i])), "paths")
         \cup On({"C13"}, Bad(LAMBDA x, y : x.b # y.b), "bounds")
         \cup On({"C13", "C11"}, Bad(LAMBDA x, y : x.a # y.a), "advances")
         \cup On({"C13", "C11"}, Bad(LAMBDA x, y : x.l # y.l), "side bearings")
         \cup On({"C13", "C11"}, Bad(LAMBDA x, y : x.v # y.v), "vertical advances")
         \cup On({"C13", "C11"}, Bad(LAMBDA x, y : x.t # y.t), "top side bearings")
         \cup On({"C13"}, \E i \in 1..got.n : X[i].i # got.g[i].i /\ (M[i] = 0 \/ ~UsesZero(f, M[i])), "instructions")
         \cup On({"C17"}, Bad(LAMBDA x, y : x.m # y.m), "glyph names")
         \cup On({"C08"}, \/ {c[1] : c \in Img(got.cm)} # {c[1] : c \in SubChars(f, M, K)}
                          \/ \E c \in Img(got.cm) : M[c[2] + 1] # (CHOOSE d \in Img(f.cm) : d[1] = c[1])[2], "characters")
         \cup On({"C08"}, ~UniOK(got), "reverse characters")
         \cup On({"C12"}, {x \in Img(got.kern) : M[x[1] + 1] # 0 /\ M[x[2] + 1] # 0} # SubKern(f, M, K), "kerning")
         \cup On({"C12"}, f.kset /\ HasTab(got, "kern") /\ ~got.kset, "kinds of kerning")
         \cup On({"C13"}, ~(Img(got.tabs) \subseteq K) \/ ~((K \ {"kern"}) \subseteq Img(got.tabs)), "tables")
         \cup On({"C13"}, \E t \in K \ {"cmap", "CFF ", "glyf", "loca", "head", "hhea", "hmtx", "vhea", "vmtx", "maxp", "name", "OS/2", "post", "kern"} :
                            t \in Img(got.tabs) /\ got.tok[t] # f.tok[t], "contents of other tables")
         \cup On({"C24", "C11"}, {"hhea", "OS/2"} \subseteq K /\ f.vm # got.vm, "vertical metrics")
         \cup On({"C24"}, {"OS/2", "cmap"} \subseteq K /\ ~RangesOK(Img(got.meta.range), {c[1] : c \in SubChars(f, M, K)}), "Unicode ranges")
         \cup On({"C24"}, f.upem # got.upem, "units per em")
         \cup On({"C24"}, \E x \in {<<"head", "head">>, <<"hhea", "hhea">>, <<"vhea", "vhea">>, <<"maxp", "maxp">>, <<"post", "post">>, <<"post", "fixed">>, <<"post", "mem">>, <<"OS/2", "os2">>, <<"CFF ", "cff">>, <<"CFF ", "priv">>} :
                            x[1] \in K /\ got.meta[x[2]] # f.meta[x[2]], "metadata")

\* in what got, or the error, differs from merging b into a
MergeWrong(a, b, re, err, got) ==
  IF a.fail # "" \/ b.fail # "" THEN {}
  ELSE IF MergeFails(a, b, re) THEN
      On({"C14"}, err = "", "merge succeeds although the fonts don't fit together")
      \cup On({"C14"}, err # "" /\ Differ(a, got) # {}, "a refused merge changed the font")
      \cup On({"C14"}, err # "" /\ SubSeq(err, 1, 5) # "error", "merge: " \o err)
  ELSE IF err # "" THEN On({"C14"}, TRUE, "merge failed: " \o err)
  ELSE IF b.n < 2 THEN On({"C14"}, Differ(a, got) # {}, "merging an empty font changed the font")
  ELSE IF got.fail # "" THEN {}
  ELSE IF got.n # MergedN(a, b) THEN On({"C14"}, TRUE, "glyph count")
  ELSE
    LET Obs == Img(got.ids)
        Old == {i \in Obs : i < a.n /\ Has(a, i)}
        Neu == {i \in Obs : i >= a.n /\ Has(b, i - a.n + 1)}
        Bad(P(_, _)) == (\E i \in Old : P(At(a, i), At(got, i))) \/ (\E i \in Neu : P(MergedGlyph(a, b, i - a.n + 1), At(got, i)))
        \* glyphs of the second font that use its .notdef get the one of the first
        Drawn(P(_, _)) == (\E i \in Old : P(At(a, i), At(got, i))) \/ (\E i \in Neu : P(MergedGlyph(a, b, i - a.n + 1), At(got, i)) /\ ~UsesZero(b, i - a.n + 1))
        \* pairs and characters whose glyphs were observed on both sides
        InA(x) == x < a.n /\ x \in Obs
    IN On({"C14"} \cup (IF a.k = "cff" THEN {"C18"} ELSE {}), Drawn(LAMBDA x, y : x.p # y.p), "paths")
       \cup On({"C14"}, Bad(LAMBDA x, y : x.b # y.b), "bounds")
       \cup On({"C14", "C11"}, Bad(LAMBDA x, y : x.a # y.a), "advances")
       \cup On({"C14", "C11"}, Bad(LAMBDA x, y : x.l # y.l), "side bearings")
       \cup On({"C14", "C11"}, Vertical(a) /\ Bad(LAMBDA x, y : x.v # y.v), "vertical advances")
       \cup On({"C14", "C11"}, Vertical(a) /\ Bad(LAMBDA x, y : x.t # y.t), "top side bearings")
       \cup On({"C14"}, Drawn(LAMBDA x, y : x.i # y.i), "instructions")
       \cup On({"C14"}, Bad(LAMBDA x, y : x.c # y.c), "components")
       \cup On({"C17"}, (a.k = "cff" \/ HasTab(a, "post")) /\ Bad(LAMBDA x, y : x.m # y.m), "glyph names")
       \cup On({"C08"}, {c \in Img(got.cm) : c[2] \in Obs} # {c \in MergedChars(a, b, re, got.n) : c[2] \in Obs}, "characters")
       \cup On({"C08"}, HasTab(a, "cmap") /\ got.dense /\ ~UniOK(got), "reverse characters")
       \cup On({"C12"}, {x \in Img(got.kern) : x[1] # 0 /\ x[2] # 0 /\ (InA(x[1]) => Has(a, x[1])) /\ (InA(x[2]) => Has(a, x[2]))} #
                        {x \in MergedKern(a, b) : x[1] \in Obs /\ x[2] \in Obs}, "kerning")
       \cup On({"C12"}, (a.kset \/ ~HasTab(a, "kern")) /\ (b.kset \/ ~HasTab(b, "kern")) /\ HasTab(got, "kern") /\ ~got.kset, "kinds of kerning")
       \cup On({"C14"}, ~(Img(got.tabs) \subseteq (Img(a.tabs) \cup {"kern"})) \/ ~(Img(a.tabs) \subseteq (Img(got.tabs) \cup {"kern"})), "tables")
       \cup On({"C24"}, a.vm # got.vm, "vertical metrics")
       \cup On({"C24"}, HasTab(a, "OS/2") /\ HasTab(b, "OS/2") /\ Img(got.meta.range) # Img(a.meta.range) \cup Img(b.meta.range), "Unicode ranges")
       \cup On({"C24"}, a.upem # got.upem, "units per em")
       \cup On({"C24"}, (\E x \in {"head", "hhea", "vhea", "post", "os2", "cff", "priv", "name"} : got.meta[x] # a.meta[x]) \/ got.meta.maxp # MergedMaxp(a, b), "metadata")
       \cup On({"C24"}, HasTab(a, "post") /\ (got.meta.mem # MergedMem(a, b) \/ got.meta.fixed # MergedFixed(a, b)), "pitch and memory in post")
=============================================================================
