---------------------------- MODULE TablesTrace ----------------------------
(* Compares what the library exposes of the fixed tables with module       *)
(* Tables.  Events: "font" with the bytes of the tables and all values,    *)
(* "metric" of a glyph, "vm" the vertical metrics, "gname" the name of a   *)
(* glyph, "find" the glyph of a name.                                      *)
EXTENDS Tables, Trace

VARIABLE font        \* [t, tt, names] of the last font, <<>> if it is refused
vars == <<tvars, font>>

Vals(t, tt) == [head |-> HeadVals(t.head), maxp |-> Maxp(t.maxp), hhea |-> Hhea(t.hhea), post |-> Post(t.post)]
Differ(want, have, skip) == Len(want) # Len(have) \/ \E i \in 1..Len(want) : i \notin skip /\ want[i] # have[i]

TextDiffers(n, h) == LET want == TextOf(n.r[1], n.r[2], n.v) IN n.r # h.r \/ n.v # h.v \/ (want # NoText /\ want # h.s)
NamesDiffer(b, e) ==
  LET want == Names(b)
  IN \/ Len(want) # Len(e.f.names) \/ \E i \in 1..Len(want) : TextDiffers(want[i], e.f.names[i])
LangDiffers(b, e) ==
  LET want == LangTags(b)
  IN Len(want) # Len(e.f.lang) \/ \E i \in 1..Len(want) : LET u == Utf16(want[i], 0, <<>>) IN u # NoText /\ u # e.f.lang[i]

Fields(e) ==
  LET t == e.t IN
  Fail(Differ(HeadVals(t.head), e.f.head, {}), "head")
  \cup Fail(Differ(Maxp(t.maxp), e.f.maxp, {}), "maxp")
  \cup Fail(Differ(Hhea(t.hhea), e.f.hhea, {}), "hhea")
  \cup Fail("vhea" \in DOMAIN t /\ Differ(Vhea(t.vhea), e.f.vhea, {}), "vhea")
  \cup Fail("OS/2" \in DOMAIN t /\ Differ(OS2(t["OS/2"]), e.f.os2, IF U16(t["OS/2"], 0) < 2 THEN HeightsAt ELSE {}), "OS/2")
  \cup Fail(Differ(Post(t.post), e.f.post, {}), "post")
  \cup Fail(NamesDiffer(t.name, e), "name records")
  \cup Fail(LangDiffers(t.name, e), "language tags")

\* the outlines have to fit: e.n glyphs, and the format of their locations
Verdict(e) ==
  LET ok == FontOK(e.t, e.tt)
  IN IF ok = "ok" /\ (NumGlyphs(e.t.maxp) # e.n \/ (e.tt /\ U16(e.t.head, 50) # e.loc)) THEN "unsettled" ELSE ok

Font(e) ==
  LET ok == Verdict(e)
  IN IF e.panic # "" THEN {"panic: " \o e.panic}
     ELSE CASE ok = "bad" -> IF Focus("C24") THEN Fail(e.err = "", "a malformed table is accepted") ELSE {}
            [] ok = "ok" -> IF e.err # "" THEN {"a sound font is refused: " \o e.err} ELSE IF Focus("C24") THEN Fields(e) ELSE {}
            [] OTHER -> {}

N == NumGlyphs(font.t.maxp)
Metric(e) ==
  LET t == font.t
      k == LongMetrics(t.hhea)
      v == IF "vmtx" \in DOMAIN t THEN LongMetrics(t.vhea) ELSE 0
  IN Fail(e.adv # Advance(t.hmtx, k, e.g), "advance")
     \cup Fail(e.lsb # Bearing(t.hmtx, N, k, e.g), "left side bearing")
     \cup Fail(e.vadv # (IF v = 0 THEN UnitsPerEm(t.head) ELSE Advance(t.vmtx, v, e.g)), "vertical advance")
     \cup Fail(v # 0 /\ e.tsb # Bearing(t.vmtx, N, v, e.g), "top side bearing")

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.op = "font" -> Font(e)
    [] font.st # "ok" -> {}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "metric" -> IF Focus("C11") THEN Metric(e) ELSE {}
    [] e.op = "vm" -> IF Focus("C11") THEN Fail(e.v # VertMetrics(font.t.hhea, IF "OS/2" \in DOMAIN font.t THEN font.t["OS/2"] ELSE <<>>), "ascender, descender, line gap") ELSE {}
    [] e.op = "gname" -> IF Focus("C17") THEN Fail(font.tt /\ e.nm # (IF e.g < N THEN font.names[e.g + 1] ELSE <<>>), "glyph name") ELSE {}
    [] e.op = "find" ->
         IF Focus("C17") /\ font.tt
         THEN LET have == {g \in 1..N : font.names[g] = e.nm}
              IN Fail(have = {} /\ e.g # 0, "a glyph for an unknown name")
                  \* the empty string is the name of a glyph or stands for none
                  \cup Fail(have # {} /\ (e.g + 1) \notin have /\ ~(e.nm = <<>> /\ e.g = 0), "glyph of a name")
         ELSE {}

Init == TraceInit /\ font = [st |-> "bad"]
Next == StepWith(Check) /\ font' = IF Cur.op = "font"
                                   THEN LET ok == Verdict(Cur)
                                        IN IF ok = "ok" /\ Cur.err = "" THEN [st |-> "ok", t |-> Cur.t, tt |-> Cur.tt, names |-> PostNames(Cur.t.post, NumGlyphs(Cur.t.maxp))] ELSE [st |-> "bad"]
                                   ELSE font
Spec == Init /\ [][Next]_vars
=============================================================================
