---------------------------- MODULE FontFileTrace ----------------------------
(* Compares files written by the library with the font objects they were    *)
(* written from.  Event "file": b the bytes; emb: without some of the tables *)
(* of a whole font; new: the tables that are not those of a source font;    *)
(* and what the font object answers: n, upem, cm (pairs of character and     *)
(* glyph), adv, lsb, vadv, tsb, names (bytes) per glyph, kern (triples of    *)
(* glyphs and value), gl: per glyph a path as in GlyfPath or CharStringPath. *)
EXTENDS FontFile, Trace

vars == tvars

Listed(subs) == UNION {{<<subs[i].pairs[j].l, subs[i].pairs[j].r>> : j \in 1..Len(subs[i].pairs)} : i \in 1..Len(subs)}
KernReads(e, b) ==
  LET Q == TLCEval(K!Kerns(b))
      obj == {<<e.kern[i][1], e.kern[i][2]>> : i \in 1..Len(e.kern)}
      prs == {p \in Listed(Q.subs) : p[1] < e.n /\ p[2] < e.n}
      Val(p) == IF p \in obj THEN e.kern[CHOOSE i \in 1..Len(e.kern) : e.kern[i][1] = p[1] /\ e.kern[i][2] = p[2]][3] ELSE 0
  IN IF Q.st # "ok" THEN {"kern is malformed"}
     ELSE Fail(~(obj \subseteq prs) \/ \E p \in prs : K!Settled(Q.subs, p[1], p[2]) /\ K!Kerning(Q.subs, p[1], p[2]) # Val(p), "kerning")

\* every Unicode subtable that is new says the same as the font object
AnyChoice(e, b) ==
  LET r == Recs(b)
  IN \A i \in 1..Len(r) : Unicode(r[i]) =>
       LET t == TLCEval(SubAt(b, r[i].off))
           Of(c) == LET g == M!LookupSub(t, c) IN IF g = M!NoGlyph THEN 0 ELSE g
       IN \A k \in 1..Len(e.cm) : (e.cm[k][1] < 65536 \/ Wide(r[i])) => Of(e.cm[k][1]) = e.cm[k][2]

Names(e, f) ==
  IF ~f.tt THEN (IF ~Has(f, "CFF ") THEN {} ELSE LET F == TLCEval(CffOf(f)) IN Fail(F.st = "ok" /\ F.n = e.n /\ \E g \in 1..e.n : F.names[g] # C!NoStr /\ F.names[g] # e.names[g], "glyph names"))
  ELSE IF ~Has(f, "post") THEN {}
  ELSE Fail(T!PostOK(f.t["post"], TRUE, f.n) # "bad" /\ T!PostNames(f.t["post"], f.n) # e.names, "glyph names")

Paths(e, f) ==
  IF f.tt THEN
    IF ~Has(f, "glyf") \/ ~Has(f, "loca") THEN {}
    ELSE LET o == TLCEval(Outlines(f))
             One(g) == LET D == TLCEval(G!Decode(o, g, 0))
                           p == e.gl[g + 1]
                       IN IF D.st # "ok" THEN {}
                          ELSE IF p.err THEN {"a glyph can't be drawn"}
                          ELSE (IF p.frac THEN {"coordinates"} ELSE G!PathOK(p, D)) \cup Fail(G!Box(o, g) # p.box, "bounds") \cup Fail(D.ins # p.ins, "instructions")
         IN UNION {One(g) : g \in 0..(f.n - 1)}
  ELSE IF ~Has(f, "CFF ") THEN {}
  ELSE LET F == TLCEval(CffOf(f))
           One(g) == LET X == TLCEval(P!Exec(F, g))
                         p == e.gl[g + 1]
                     IN IF X.st # "ok" THEN {} ELSE IF p.err THEN {"a glyph can't be drawn"} ELSE IF p.frac THEN {"coordinates"} ELSE P!PathOK(p, X.out)
       IN IF F.st # "ok" THEN {} ELSE UNION {One(g) : g \in 0..(f.n - 1)}

Reads(e, f) ==
  Fail(f.n # e.n, "number of glyphs")
  \cup (IF f.n # e.n THEN {} ELSE
        Fail(Has(f, "head") /\ W16(f.t["head"], 18) # e.upem, "units per em")
        \cup (IF ~Metrics(f, "hhea", "hmtx") THEN {}
              ELSE Fail(\E g \in 0..(e.n - 1) : AdvanceOf(f, "hhea", "hmtx", g) # e.adv[g + 1], "advances")
                   \cup Fail(\E g \in 0..(e.n - 1) : BearingOf(f, "hhea", "hmtx", g) # e.lsb[g + 1], "side bearings"))
        \cup (IF ~Metrics(f, "vhea", "vmtx") THEN {}
              ELSE Fail(\E g \in 0..(e.n - 1) : AdvanceOf(f, "vhea", "vmtx", g) # e.vadv[g + 1], "vertical advances")
                   \cup Fail(\E g \in 0..(e.n - 1) : BearingOf(f, "vhea", "vmtx", g) # e.tsb[g + 1], "top side bearings"))
        \cup (IF ~Has(f, "cmap") \/ ~CmapOK(f.t["cmap"]) THEN {}
              ELSE LET subs == TLCEval(Subs(f.t["cmap"])) IN Fail(\E k \in 1..Len(e.cm) : M!Lookup(subs, e.cm[k][1]) # e.cm[k][2], "characters"))
        \cup (IF Has(f, "kern") THEN KernReads(e, f.t["kern"]) ELSE Fail(e.kern # <<>>, "kerning without a table"))
        \cup Names(e, f)
        \cup Paths(e, f))

File(e) ==
  LET f == TLCEval(Read(e.b, e.emb))
      flaws == UNION {{"file: " \o x : x \in Flaws(f, s)} : s \in {e.new[i] : i \in 1..Len(e.new)} \cap DOMAIN f.t}
  IN IF e.fail # "" THEN {"panic: " \o e.fail}
     ELSE IF f.st # "ok" THEN {"the file is malformed"}
     ELSE IF flaws # {} THEN flaws
     ELSE {"the file says otherwise: " \o x : x \in Reads(e, f)}
          \cup Fail("cmap" \in {e.new[i] : i \in 1..Len(e.new)} /\ Has(f, "cmap") /\ ~AnyChoice(e, f.t["cmap"]), "the choice of a Unicode character map matters")

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.op = "file" -> File(e)

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
