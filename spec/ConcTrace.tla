----------------------------- MODULE ConcTrace -----------------------------
(* A run: solo gives, for every call, what it returns on a font nobody else *)
(* uses; th the calls of each goroutine and res their results.              *)
EXTENDS Conc, Trace

vars == tvars

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.err # "" -> {"cannot be run: " \o e.err}
    [] OTHER -> Fail(e.race, "data race")
                \cup Fail(\E t \in 1..Len(e.th) : e.panics[t] # "", "panic in a goroutine")
                \cup UNION {{"result of " \o e.kind[e.th[t][i]] : i \in {j \in 1..Len(e.res[t]) : e.res[t][j] # e.solo[e.th[t][j]]}} : t \in 1..Len(e.th)}
                \cup Fail((\A t \in 1..Len(e.th) : e.panics[t] = "") /\ \E t \in 1..Len(e.th) : Len(e.res[t]) # Len(e.th[t]), "a call did not return")
                \cup Fail(e.before # e.after, "the font has changed")

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
