----------------------------- MODULE KernTrace -----------------------------
(* Events: "kern" with the bytes of a kern table, the bytes it is written   *)
(* as, the error of reading it, "get" the kerning of a pair: of the font, and after the table has been  *)
(* written and read again.                                                 *)
EXTENDS Kern, Trace

VARIABLES k, w
vars == <<tvars, k, w>>

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "kern" -> Fail(Kerns(e.b).st = "ok" /\ e.err # "", "a sound kern table is refused: " \o e.err)
                        \cup Fail(Kerns(e.b).st = "ok" /\ e.err = "" /\ Kerns(e.w).st # "ok", "the kern table is written wrongly")
    [] e.op = "get" ->
         IF k.st # "ok" \/ ~Settled(k.subs, e.l, e.r) THEN {}
         ELSE LET v == Kerning(k.subs, e.l, e.r)
              IN IF v < -32768 \/ v > 32767 THEN {} ELSE Fail(e.v # v, "kerning") \cup Fail(e.w # v, "kerning after writing")
                                                                \cup Fail(w.st = "ok" /\ (~Settled(w.subs, e.l, e.r) \/ Kerning(w.subs, e.l, e.r) # v), "kerning in the written table")

Init == TraceInit /\ k = Bad /\ w = Bad
Next == StepWith(Check) /\ k' = (IF Cur.op = "kern" THEN (IF Cur.err = "" THEN Kerns(Cur.b) ELSE Bad) ELSE k)
        /\ w' = (IF Cur.op = "kern" THEN (IF Cur.err = "" THEN Kerns(Cur.w) ELSE Bad) ELSE w)
Spec == Init /\ [][Next]_vars
=============================================================================
