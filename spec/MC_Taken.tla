------------------------------ MODULE MC_Taken ------------------------------
(***************************************************************************)
(* Taking over tables that are slices of one buffer, which may touch each   *)
(* other or overlap: tables 1..n are intervals of cells, one of them (head) *)
(* has a cell that is set to zero, each is filled up to a multiple of Unit. *)
(* Either every table is first copied, or zero and filling go where the     *)
(* table is (which is what appending to a slice does).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cells, MaxTables, Unit, Export

VARIABLES l,         \* the tables <<start, length>>
          h,         \* which of them is head
          copies,    \* whether tables are copied
          mem, out, k
vars == <<l, h, copies, mem, out, k>>

Intervals == {<<s, n>> \in (0..(Cells - 1)) \X (1..Cells) : s + n <= Cells}
Mem0 == [i \in 0..(Cells - 1) |-> i + 1]
Of(m, t) == [i \in 1..t[2] |-> m[t[1] + i - 1]]
Fill(n) == ((n + Unit - 1) \div Unit) * Unit - n
Blank(i, s) == IF i = h THEN [s EXCEPT ![1] = 0] ELSE s

Init ==
  /\ \E n \in 1..MaxTables : l \in [1..n -> Intervals]
  /\ h \in 1..Len(l)
  /\ copies \in BOOLEAN
  /\ mem = Mem0 /\ out = <<>> /\ k = 1

\* the tables are prepared one by one, then written
Prepare ==
  /\ k <= Len(l)
  /\ IF copies THEN out' = Append(out, Blank(k, Of(mem, l[k])) \o [i \in 1..Fill(l[k][2]) |-> 0]) /\ mem' = mem
     ELSE LET t == l[k]
              fills == {t[1] + t[2] + i - 1 : i \in 1..Fill(t[2])} \cap DOMAIN mem
          IN mem' = [i \in DOMAIN mem |-> IF i \in fills \/ (k = h /\ i = t[1]) THEN 0 ELSE mem[i]] /\ out' = out
  /\ k' = k + 1
  /\ UNCHANGED <<l, h, copies>>
Write ==
  /\ k = Len(l) + 1 /\ ~copies
  /\ out' = [i \in 1..Len(l) |-> Of(mem, l[i]) \o [j \in 1..Fill(l[i][2]) |-> 0]]
  /\ k' = k + 1
  /\ UNCHANGED <<l, h, copies, mem>>
Next == Prepare \/ Write
Spec == Init /\ [][Next]_vars

Done == k > Len(l) /\ (copies \/ k > Len(l) + 1)
Right == \A i \in 1..Len(l) : SubSeq(out[i], 1, l[i][2]) = Blank(i, Of(Mem0, l[i]))

\* by copying, the buffer stays and every table is what it was
Untouched == copies => mem = Mem0
Whole == (copies /\ Done) => Right
\* in place, the buffer is changed always, and a table is wrong only if it touches or overlaps another
Near == \E i, j \in 1..Len(l) : i # j /\ l[i][1] <= l[j][1] + l[j][2] + Fill(l[j][2]) - 1 /\ l[j][1] <= l[i][1] + l[i][2] - 1
InPlace == (~copies /\ Done) => (mem # Mem0 /\ (~Right => Near))

Plans == (Export /\ Done /\ ~copies) => PrintT("PLAN " \o ToJson([l |-> l, h |-> h, harm |-> ~Right]))
=============================================================================
