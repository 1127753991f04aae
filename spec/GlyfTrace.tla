------------------------------ MODULE GlyfTrace ------------------------------
(* Compares what the library draws for TrueType glyphs with module Glyf.     *)
(* Events: "font" with the raw tables; "glyph" with the answers for one      *)
(* glyph, the path as in module GlyfPath.                                    *)
EXTENDS GlyfPath, Trace

VARIABLE font
vars == <<tvars, font>>

Glyph(e) ==
  LET G == Decode(font, e.g, 0)
  IN IF e.panic # "" THEN {"panic: " \o e.panic}
     ELSE IF G.st = "unsettled" THEN {}
     ELSE IF G.st = "bad" THEN
        IF Focus("C09") THEN Fail(~e.err, "a malformed glyph is drawn") ELSE {}
     ELSE IF e.err THEN {"a sound glyph is refused"}
     ELSE (IF e.frac THEN {"coordinates are not at a multiple of an eighth"} ELSE PathOK(e, G))
          \cup Fail(e.box # Box(font, e.g), "bounds")
          \cup Fail(e.ins # G.ins, "instructions")
          \cup Fail({e.deps[i] : i \in 1..Len(e.deps)} # {e.g} \cup G.deps, "components")
          \cup Fail(e.comp # (G.deps # {}), "composite or not")

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.op = "font" -> Fail(e.err # "", "the font is refused: " \o e.err)
    [] e.op = "glyph" -> Glyph(e)

Init == TraceInit /\ font = [n |-> 0]
Next == StepWith(Check) /\ font' = IF Cur.op = "font" THEN Cur ELSE font
Spec == Init /\ [][Next]_vars
=============================================================================
