----------------------------- MODULE DamageTrace -----------------------------
(* runs holds, for every damaged file, its size, what parsing it and each   *)
(* of the deeds did, the time and the memory.                               *)
EXTENDS Damage, Trace

vars == tvars

RunOf(x) == [size |-> x[1], parse |-> x[2], deeds |-> SubSeq(x, 3, Len(x) - 2), ms |-> x[Len(x) - 1], kb |-> x[Len(x)]]

CheckRun(e, x) ==
  LET run == RunOf(x) IN
  Fail(~Sound(run), "does not return")
  \cup Fail(run.ms > TimeBound(run.size), "takes too long")
  \cup Fail(run.kb > MemBound(e.part, run.size, e.limit), "takes too much memory")

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] OTHER -> Fail(e.f \notin Formats, "unknown format")
                \cup UNION {CheckRun(e, e.runs[i]) : i \in 1..Len(e.runs)}
                \cup {e.notes[i] : i \in 1..Len(e.notes)}

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
