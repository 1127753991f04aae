------------------------------ MODULE AfmTrace ------------------------------
(* An event is a text b and what it was read as: err, values by key, the    *)
(* characters, ligatures, kerning pairs, and answers to queries.            *)
EXTENDS Afm, Trace

vars == tvars

Numbers == {"CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness"}

Wrong(s, e) ==
  LET n == Len(s.c)
      ix == TLCEval([i \in 1..n |-> s.c[i].name])
      At(name) == (CHOOSE i \in 1..n : ix[i] = name) - 1
      pairs == TLCEval({<<At(s.k[i][1]), At(s.k[i][2]), s.k[i][3]>> : i \in 1..Len(s.k)})
      ligs == {<<i - 1, At(s.c[i].ligs[j][1]), At(s.c[i].ligs[j][2])>> : <<i, j>> \in {<<x, y>> \in (1..n) \X (1..5) : y <= Len(s.c[x].ligs)}}
      fixed == Get(s, "IsFixedPitch", FALSE)
      cw == Get(s, "CharWidth", <<>>)
      shared == \E i, j \in 1..n : i < j /\ RunesOf(ix[i]) # {} /\ RunesOf(ix[i]) = RunesOf(ix[j])
  IN UNION {IF HasKey(s, k) /\ ~Is16(e.num[k], Get(s, k, 0)) THEN {k} ELSE {} : k \in Numbers}
     \cup UNION {IF HasKey(s, k) /\ e.txt[k] # Get(s, k, <<>>) THEN {k} ELSE {} : k \in {"FontName", "FullName", "FamilyName", "Weight"}}
     \cup (IF HasKey(s, "ItalicAngle") /\ e.angle # Get(s, "ItalicAngle", 0) THEN {"ItalicAngle"} ELSE {})
     \cup (IF HasKey(s, "FontBBox") /\ \E i \in 1..4 : ~Is16(e.bbox[i], Get(s, "FontBBox", <<>>)[i]) THEN {"FontBBox"} ELSE {})
     \cup (IF HasKey(s, "IsFixedPitch") /\ e.fixed # fixed THEN {"IsFixedPitch"} ELSE {})
     \cup (IF HasKey(s, "CharWidth") /\ \E i \in 1..2 : ~Is16(e.cw[i], cw[i]) THEN {"CharWidth"} ELSE {})
     \cup (IF e.n # n \/ Len(e.c) # n THEN {"number of characters"}
           ELSE (IF \E i \in 1..n : e.c[i].code # s.c[i].code THEN {"code of a character"} ELSE {})
                \cup (IF \E i \in 1..n : e.c[i].name # s.c[i].name \/ e.c[i].q # s.c[i].name THEN {"name of a character"} ELSE {})
                \cup (IF \E i \in 1..n : e.c[i].find # i - 1 THEN {"character of a name"} ELSE {})
                \cup (IF \E i \in 1..n : s.c[i].wx # <<>> /\ ~Is16(e.c[i].wx, s.c[i].wx[1]) THEN {"width"} ELSE {})
                \cup (IF \E i \in 1..n : s.c[i].wx # <<>> /\ (~fixed \/ cw = <<>> \/ cw[1] = s.c[i].wx[1]) /\ ~Is16(e.c[i].adv, s.c[i].wx[1]) THEN {"advance"} ELSE {})
                \cup (IF \E i \in 1..n : s.c[i].bb # <<>> /\ \E k \in 1..4 : ~Is16(e.c[i].bb[k], s.c[i].bb[k]) \/ ~Is16(e.c[i].qb[k], s.c[i].bb[k]) THEN {"box of a character"} ELSE {})
                \cup (IF Len(e.kern) # Cardinality(pairs) \/ ~(\A i \in 1..Len(e.kern) : \E p \in pairs : p[1] = e.kern[i][1] /\ p[2] = e.kern[i][2] /\ Is16(e.kern[i][3], p[3]) /\ e.kern[i][4] = e.kern[i][3])
                        THEN {"kerning pairs"} ELSE {})
                \cup (IF {<<e.lig[i][1], e.lig[i][2], e.lig[i][3]>> : i \in 1..Len(e.lig)} # ligs THEN {"ligatures"} ELSE {})
                \cup (IF \E i \in 1..Len(e.q) : LET q == e.q[i]
                                                  S == {j \in 1..n : ix[j] \in NamesOf(q[1])}
                                              IN NamesOf(q[1]) # {} /\ ~shared /\ S # {} /\ q[2] + 1 \notin S THEN {"glyph of a rune"} ELSE {})
                \cup (IF (\A j \in 1..n : RunesOf(ix[j]) # {}) /\ \E i \in 1..Len(e.q) : e.q[i][2] # 0 /\ ~\E j \in 1..n : e.q[i][1] \in RunesOf(ix[j]) THEN {"glyph of a rune that is not there"} ELSE {}))
     \cup (IF e.far THEN {} ELSE {"values of a character that is not there"}) \cup (IF e.kept THEN {} ELSE {"the text is changed"})
     \cup (IF \E i \in 1..Len(e.nk) : e.nk[i][3] # 0 /\ ~\E p \in pairs : p[1] = e.nk[i][1] /\ p[2] = e.nk[i][2] THEN {"kerning of another pair"} ELSE {})

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] OTHER -> LET s == Read(e.b)
                IN CASE s.st = "bad" -> Fail(e.err = "", "a broken file is accepted")
                     [] s.st = "odd" -> {}
                     [] OTHER -> IF e.err # "" THEN {"a sound file is refused: " \o e.err} ELSE Wrong(s, e)

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
