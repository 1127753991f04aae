------------------------------ MODULE MC_Conc ------------------------------
(***************************************************************************)
(* Every interleaving of a few goroutines with a few calls, where a cell   *)
(* takes two steps to build.  With Once, the one that comes first builds   *)
(* and the others wait; without, they would read half a cell (run with     *)
(* Once = FALSE to see it).  The runs are exported and executed.           *)
(***************************************************************************)
EXTENDS Conc, Json

CONSTANTS Once, Rich, Export

VARIABLES th, cell, by, pc, res, cur, warm
vars == <<th, cell, by, pc, res, cur, warm>>

One == {<<k>> : k \in Kinds}
Two == {<<k, l>> : k, l \in Kinds}
Runs == {<<a, b>> : a, b \in One \cup Two} \cup {<<a, b, x>> : a, b, x \in IF Rich THEN One \cup {t \in Two : t[1] # t[2]} ELSE One}

Init == /\ th \in Runs
        /\ warm \in {{}, {"rev"}}
        /\ cell = [x \in Cells |-> IF x \in warm THEN "whole" ELSE "empty"]
        /\ by = [x \in Cells |-> 0]
        /\ pc = [t \in 1..Len(th) |-> [call |-> 1, need |-> 1, at |-> "enter"]]
        /\ res = [t \in 1..Len(th) |-> <<>>]
        /\ cur = [t \in 1..Len(th) |-> <<>>]

Busy(t) == pc[t].call <= Len(th[t])
NeedOf(t) == Needs(th[t][pc[t].call])
NextCall(t, got) == /\ res' = [res EXCEPT ![t] = Append(@, got)]
                    /\ cur' = [cur EXCEPT ![t] = <<>>]
                    /\ pc' = [pc EXCEPT ![t] = [call |-> @.call + 1, need |-> 1, at |-> "enter"]]
Step(t) ==
  /\ Busy(t) /\ UNCHANGED <<th, warm>>
  /\ IF pc[t].need > Len(NeedOf(t)) THEN NextCall(t, cur[t]) /\ UNCHANGED <<cell, by>>
     ELSE LET x == NeedOf(t)[pc[t].need]
          IN CASE pc[t].at = "enter" /\ cell[x] = "empty" ->
                    cell' = [cell EXCEPT ![x] = "half"] /\ by' = [by EXCEPT ![x] = t] /\ pc' = [pc EXCEPT ![t].at = "build"] /\ UNCHANGED <<res, cur>>
               [] pc[t].at = "build" ->
                    cell' = [cell EXCEPT ![x] = "whole"] /\ pc' = [pc EXCEPT ![t].at = "read"] /\ UNCHANGED <<by, res, cur>>
               [] pc[t].at = "enter" /\ cell[x] = "half" -> ~Once /\ pc' = [pc EXCEPT ![t].at = "read"] /\ UNCHANGED <<cell, by, res, cur>>
               [] pc[t].at = "enter" -> pc' = [pc EXCEPT ![t].at = "read"] /\ UNCHANGED <<cell, by, res, cur>>
               [] OTHER -> cur' = [cur EXCEPT ![t] = Append(@, cell[x])] /\ pc' = [pc EXCEPT ![t] = [call |-> @.call, need |-> @.need + 1, at |-> "enter"]] /\ UNCHANGED <<cell, by, res>>
Next == \E t \in 1..Len(th) : Step(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == \A t \in 1..Len(th) : ~Busy(t)
Exact == Finished => Agree(th, res, [k \in Kinds |-> Alone(k)])
\* nobody reads a cell that is being built, and a cell is built by one
Apart == \A t \in 1..Len(th) : (Busy(t) /\ pc[t].need <= Len(NeedOf(t)) /\ pc[t].at = "read") => cell[NeedOf(t)[pc[t].need]] = "whole"
Single == \A x \in Cells : Cardinality({t \in 1..Len(th) : Busy(t) /\ pc[t].need <= Len(NeedOf(t)) /\ pc[t].at = "build" /\ NeedOf(t)[pc[t].need] = x}) <= 1
Progress == Finished \/ ENABLED Next
Ends == <>Finished
Start == \A t \in 1..Len(th) : pc[t].call = 1 /\ pc[t].at = "enter" /\ pc[t].need = 1
Plans == (Export /\ Start /\ cell = [x \in Cells |-> IF x \in warm THEN "whole" ELSE "empty"]) => PrintT("PLAN " \o ToJson([th |-> th, warm |-> warm]))
=============================================================================
