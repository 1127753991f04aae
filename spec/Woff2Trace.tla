----------------------------- MODULE Woff2Trace -----------------------------
(* Events: "woff2": a file b, what its compressed data is (d), and what it *)
(* was decoded to; "written": a file the package wrote for the font out.   *)
EXTENDS Woff2, Trace

vars == tvars

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "woff2" -> {IF x = "a sound WOFF2 file is refused" THEN x \o ": " \o e.err ELSE x : x \in Judge(e.b, e.d, e.err = "", e.out)}
                         \cup Fail(~e.kept, "the caller's bytes are changed")
    [] e.op = "written" -> IF e.err # "" THEN {"cannot be written: " \o e.err}
                           ELSE {"written: " \o x : x \in Judge(e.b, e.d, TRUE, e.out)} \cup Fail(Judge(e.b, e.d, FALSE, <<>>) = {}, "the written file is not sound")

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
