-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Shared machinery of the trace specifications.  A trace file holds one   *)
(* session per line, each with a sequence of events.  Every session is an  *)
(* initial state; each step consumes one event, compares it with what the  *)
(* specification allows and records the differences.  A trace is accepted  *)
(* when all sessions are consumed without differences (the number of       *)
(* states is compared with the number of events outside).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
FocusOn  == IOEnv.FOCUS

VARIABLES sid, pos, diff
tvars == <<sid, pos, diff>>

Focus(p) == FocusOn = "all" \/ FocusOn = p

Fail(cond, what) == IF cond THEN {what} ELSE {}

TraceInit == sid \in 1..Len(Sessions) /\ pos = 0 /\ diff = {}

Cur == Sessions[sid].ev[pos + 1]

Report(d) == IF d = {} THEN TRUE ELSE PrintT("DIFF " \o ToJson([s |-> sid, e |-> pos + 1, d |-> d]))

More == diff = {} /\ pos < Len(Sessions[sid].ev)

\* for specifications without state between events
StepWith(Chk(_)) ==
  /\ More
  /\ LET d == Chk(Cur) IN diff' = d /\ Report(d)
  /\ pos' = pos + 1
  /\ UNCHANGED sid

Accepted == diff = {}
Short == [session |-> sid, event |-> pos, diff |-> diff]
=============================================================================
