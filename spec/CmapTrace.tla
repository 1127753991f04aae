----------------------------- MODULE CmapTrace -----------------------------
(* Validates recorded sessions {op: "cmap"} of the font library: each       *)
(* carries the raw subtables of a font and the answers the library gave.    *)
EXTENDS Cmap, Trace

BadLookups(e) == {k \in 1..Len(e.q) : e.q[k][2] # Lookup(e.subs, e.q[k][1])}
BadReverse(e) == {k \in 1..Len(e.rev) : e.rev[k][2] # Codes(e.subs, e.rev[k][1])}

\* concurrent first calls: every goroutine must get the same, right answer
BadConc(e) == {k \in 1..Len(e.rev) : \E j \in 1..Len(e.rev[k][2]) : e.rev[k][2][j] # Codes(e.subs, e.rev[k][1])}

Check(e) ==
  CASE e.op = "cmap" ->
         Fail(e.err # "", "rejected: " \o e.err)
         \cup Fail(Focus("C06") /\ \E k \in BadLookups(e) : TRUE, "lookup")
         \cup Fail(Focus("C07") /\ BadReverse(e) # {}, "reverse")
    [] e.op = "conc" ->
         Fail(e.err # "", "rejected: " \o e.err)
         \cup Fail(BadConc(e) # {}, "concurrent reverse")
         \cup Fail(\E k \in 1..Len(e.q) : e.q[k][2] # Lookup(e.subs, e.q[k][1]), "concurrent lookup")
         \cup Fail(e.race, "data race")
    [] e.op = "crash" -> {"crash"}

Next == StepWith(Check)
Spec == TraceInit /\ [][Next]_tvars
=============================================================================
