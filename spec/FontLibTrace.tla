---------------------------- MODULE FontLibTrace ----------------------------
(* Validates recorded histories of font operations against FontLib. The      *)
(* state is the heap of font objects as last observed, with a digest of      *)
(* everything each object answers and of every buffer handed out.            *)
EXTENDS FontCmp

VARIABLES heap, digs, bufs, base
vars == <<tvars, heap, digs, bufs, base>>

\* the file written from it
File(e) ==
  On({"C15"}, e.werr # "", "the written file does not parse: " \o e.werr)
  \cup (IF e.ws \/ e.werr # "" THEN {}
        ELSE LET d == Differ(e.f, e.wf)
             IN On({"C15"}, TRUE, "the written file differs")
                \cup On({"C15"}, e.f.tabs # e.wf.tabs, "the written file has other tables")
                \cup On({"C15"}, e.f.fail = "" /\ e.wf.fail = "" /\ e.f.lay # e.wf.lay, "formats and counts in the headers")
                \cup (IF Focus("C15") THEN {"file: " \o x : x \in d} ELSE {})
                \cup On({"C08"}, "characters" \in d, "characters of the written file")
                \cup On({"C12"}, "kerning" \in d, "kerning of the written file")
                \cup On({"C12"}, e.f.kset /\ ~e.wf.kset, "kinds of kerning in the written file")
                \cup On({"C17"}, "glyph names" \in d, "names of the written file")
                \cup On({"C18"}, e.f.k = "cff" /\ "paths" \in d, "paths of the written file"))
  \cup On({"C08", "C12", "C17", "C18"}, e.werr # "", "no readable file: " \o e.werr)

-----------------------------------------------------------------------------
Subset(e) ==
  LET f == heap[e.o]
  IN IF f.fail # "" THEN {}
  ELSE IF e.err # "" THEN On({"C13"}, TRUE, "subset failed: " \o e.err)
  ELSE IF e.f.fail # "" THEN {}
  ELSE SubsetWrong(f, e.gids, e.keep, e.f)

Merge(e) == MergeWrong(heap[e.o], heap[e.b], e.re, e.err, IF "f" \in DOMAIN e THEN e.f ELSE heap[e.o])

Rename(e) ==
  LET f == heap[e.o]
      got == e.f
      d == Differ(f, got) \ {"glyph names"}
      L == IF Len(e.names) < f.n THEN Len(e.names) ELSE f.n
  IN IF f.fail # "" THEN {}
  ELSE IF f.k = "tt" /\ ~HasTab(f, "post") THEN On({"C17"}, e.err = "" \/ Differ(f, got) # {}, "names set without a post table")
  ELSE IF f.k = "tt" /\ \E i \in 1..L : Len(e.names[i]) > 63 THEN   \* the limit for names in the post table
      On({"C17"}, e.err = "" \/ SubSeq(e.err, 1, 5) # "error" \/ Differ(f, got) # {}, "names that are too long")
  ELSE IF e.err # "" THEN On({"C17"}, TRUE, "renaming failed: " \o e.err)
  ELSE On({"C17"}, got.fail = "" /\ \E i \in 1..L : f.ids[i] # (i - 1) \/ (~(f.k = "cff" /\ i = 1) /\ got.g[i].m # e.names[i]), "names not set")
    \cup On({"C17"}, d # {}, "renaming changed something else")

Woff2(e) ==
  LET f == heap[e.o]
      got == e.f
      rebuilt == {"glyf", "loca", "head", "hmtx", "DSIG"}
  IN IF f.fail # "" THEN {}
  ELSE IF e.err # "" THEN On({"C05"}, TRUE, "WOFF2: " \o e.err)
  ELSE IF Focus("C05") THEN
     {"WOFF2: " \o x : x \in Differ(f, got)}
     \cup Fail((Img(f.tabs) \ {"DSIG"}) # (Img(got.tabs) \ {"DSIG"}), "WOFF2: tables")
     \cup Fail(\E t \in (Img(f.tabs) \cap Img(got.tabs)) \ rebuilt : f.tok[t] # got.tok[t], "WOFF2: contents of a table")
  ELSE {}

Load(e) ==
  IF e.err # "" THEN On({"C15", "C13", "C14"}, TRUE, "a sound font is rejected: " \o e.err)
  ELSE LET old == {x \in base : x[1] = e.b}
       IN On({"C16", "C23"}, \E x \in old : x[2] # e.f, "the same bytes give another font")

Touched(e) == IF e.op \in {"merge", "rename"} THEN e.o ELSE 0

Frame(e) ==
  On({"C16"}, \E j \in 1..Len(digs) : j # Touched(e) /\ e.dig[j] # digs[j], "another font object changed")
  \cup On({"C16"}, \E j \in 1..Len(bufs) : bufs[j] # "" /\ e.bufs[j] # bufs[j], "bytes of the caller changed")
  \cup On({"C16"}, ~e.args, "arguments of the caller changed")
  \cup On({"C23"}, e.op \notin {"merge", "rename"} /\ e.o \in 1..Len(digs) /\ e.o # 0 /\ e.dig[e.o] # digs[e.o], "a read-only operation changed its font")

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.op = "again" -> On({"C23"}, e.h1 # e.h2, "the same history gives other bytes")
    [] OTHER ->
       (CASE e.op = "load" -> Load(e)
          [] e.op = "subset" -> Subset(e)
          [] e.op = "merge" -> Merge(e)
          [] e.op = "rename" -> Rename(e)
          [] e.op = "reparse" -> IF heap[e.o].fail = "" /\ e.err # "" THEN On({"C15"}, TRUE, "the written file does not parse: " \o e.err)
                                 ELSE IF e.err # "" THEN {} ELSE (IF Focus("C15") THEN {"reparse: " \o x : x \in Differ(heap[e.o], e.f)} ELSE {})
          [] e.op = "woff2" -> Woff2(e)
          [] e.op = "query" -> On({"C15", "C16", "C23"}, heap[e.o].fail = "" /\ (e.err # "" \/ Differ(heap[e.o], e.f) # {}), "queries changed the font: " \o e.err))
       \cup (IF "f" \in DOMAIN e THEN Sound(e.f) \cup File(e) ELSE {})
       \cup Frame(e)

New(e) == e.op \in {"load", "subset", "reparse", "woff2"} /\ e.err = ""

Init == TraceInit /\ heap = <<>> /\ digs = <<>> /\ bufs = <<>> /\ base = {}

Next ==
  /\ More
  /\ LET e == Cur
         d == Check(e)
     IN /\ diff' = d
        /\ Report(d)
        /\ IF e.op \in {"crash", "again"} THEN UNCHANGED <<heap, digs, bufs, base>>
           ELSE /\ heap' = IF New(e) THEN Append(heap, e.f) ELSE IF Touched(e) # 0 THEN [heap EXCEPT ![e.o] = e.f] ELSE heap
                /\ digs' = e.dig
                /\ bufs' = e.bufs
                /\ base' = IF e.op = "load" /\ e.err = "" /\ ~\E x \in base : x[1] = e.b THEN base \cup {<<e.b, e.f>>} ELSE base
  /\ pos' = pos + 1
  /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars
=============================================================================
