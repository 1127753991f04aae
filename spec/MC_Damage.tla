------------------------------ MODULE MC_Damage ------------------------------
(***************************************************************************)
(* A reader of linked data, the shape shared by directories, composite     *)
(* glyphs, subroutines, subtables and compressed tables: every document of *)
(* N words over 0..V is tried, so every corruption of every document of    *)
(* that size.  With all of its guards the reader always ends, in a value   *)
(* or an error, with bounded work, memory and depth; without any one of    *)
(* them there is a document that breaks it.                                *)
(*                                                                         *)
(* The word at a place says what is there:                                 *)
(*   0      nothing                                                        *)
(*   1, 2   as many links: the words after it are places                   *)
(*   3      an array: the next word is its length, its items follow        *)
(*   4      a packed array: the next word is its length when unpacked, the *)
(*          one after it how many items unpacking really gives (squared)   *)
(* The second part are the plans of damage for the real code.              *)
(***************************************************************************)
EXTENDS Damage, TLC, Json

CONSTANTS N, V, MaxDepth, MaxWork, Limit, Off, Export

VARIABLES doc, stack, status, work, mem, big
vars == <<doc, stack, status, work, mem, big>>

On(g) == g \notin Off
Done == status \in {"value", "error", "crash"}
\* beyond this something is certainly unbounded
Much == 40

Init == /\ doc \in [0..(N - 1) -> 0..V]
        /\ stack = <<[at |-> 0, i |-> 0]>>
        /\ status = "read" /\ work = 0 /\ mem = 0 /\ big = 0

Top == stack[Len(stack)]
End(x) == status' = x /\ UNCHANGED <<doc, stack, work, mem, big>>
Pop == stack' = SubSeq(stack, 1, Len(stack) - 1) /\ status' = (IF Len(stack) = 1 THEN "value" ELSE "read")
\* reading a word that is not there
Beyond(p) == p >= N
Out == End(IF On("bounds") THEN "error" ELSE "crash")

Takes(n) == mem' = mem + n /\ big' = (IF n > big THEN n ELSE big)
Alloc(n, left) == IF On("alloc") /\ left < n THEN End("error")
                  ELSE /\ Takes(n) /\ Pop /\ work' = work + 1 /\ UNCHANGED doc
Unpack(says, gives) ==
  IF On("limit") /\ Limit < says THEN End("error")
  ELSE LET real == IF On("stop") /\ says < gives * gives THEN says ELSE gives * gives IN
       IF real # says THEN status' = "error" /\ Takes(real) /\ UNCHANGED <<doc, stack, work>>
       ELSE Takes(real) /\ Pop /\ work' = work + 1 /\ UNCHANGED doc

Step ==
  /\ ~Done
  /\ IF work >= Much \/ mem >= Much \/ Len(stack) >= Much THEN End("crash")
     ELSE IF On("budget") /\ work >= MaxWork THEN End("error")
     ELSE IF On("depth") /\ Len(stack) > MaxDepth THEN End("error")
     ELSE LET p == Top.at IN
       IF Beyond(p) THEN Out
       ELSE CASE doc[p] = 0 -> Pop /\ work' = work + 1 /\ UNCHANGED <<doc, mem, big>>
              [] doc[p] \in {1, 2} ->
                   IF Top.i = doc[p] THEN Pop /\ work' = work + 1 /\ UNCHANGED <<doc, mem, big>>
                   ELSE IF Beyond(p + 1 + Top.i) THEN Out
                   ELSE stack' = Append([stack EXCEPT ![Len(stack)].i = @ + 1], [at |-> doc[p + 1 + Top.i], i |-> 0]) /\ work' = work + 1 /\ UNCHANGED <<doc, status, mem, big>>
              [] doc[p] = 3 -> IF Beyond(p + 1) THEN Out ELSE Alloc(doc[p + 1], N - (p + 2))
              [] doc[p] = 4 -> IF Beyond(p + 1) \/ Beyond(p + 2) THEN Out ELSE Unpack(doc[p + 1], doc[p + 2])
              [] OTHER -> End("error")

Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NeverCrash == status # "crash"
Depth == Len(stack) <= MaxDepth + 1
Work == work <= MaxWork
\* every node is visited at most MaxWork times, and allocates at most what is there or the limit
Memory == big <= (IF N > Limit THEN N ELSE Limit) /\ mem <= MaxWork * (IF N > Limit THEN N ELSE Limit)
Ends == <>Done

-----------------------------------------------------------------------------
\* all plans are printed once
Plans == {[f |-> f, part |-> p, how |-> h, first |-> d] : f \in Formats, p \in UNION {Parts[x] : x \in Formats}, h \in Hows, d \in Deeds}
Real == {x \in Plans : x.part \in Parts[x.f]}
Large == UNION {{[f |-> f, part |-> "bomb", how |-> b, first |-> d] : b \in Bombs[f], d \in Deeds} : f \in Formats}
ASSUME Export => \A x \in Real \cup Large : PrintT("PLAN " \o ToJson(x))
=============================================================================
