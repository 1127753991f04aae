--------------------------- MODULE MC_CharString ---------------------------
(***************************************************************************)
(* Charstrings built operator by operator.  Every operator with its        *)
(* possible numbers of operands, with and without width, hints and masks,  *)
(* and calls of nested local and global subroutines, is executed and       *)
(* checked against independent statements: the end point is the sum of all *)
(* deltas, the number of segments follows from the operand counts, a call  *)
(* draws what its body inlined draws.  Every program is exported.          *)
(***************************************************************************)
EXTENDS CharString, TLC, Json

CONSTANTS MaxOps, Wide, Export

VARIABLES prog, mode      \* prog: sequence of [op, n] with n operands; mode: how pieces are wrapped in subroutines
vars == <<prog, mode>>

\* operands: distinct values so that mixed-up deltas show
Val(i) == <<3, -17, 150, 40, -300, 7, 1000, -5, 21, 64, -80, 11, 33, 200, 2, 9, -41, 6, 1, 90>>[i]
Args(k, n) == [i \in 1..n |-> Val(((i + 3 * k) % 20) + 1)]

Counts(op) == CASE op \in {5} -> {2, 4, 3} [] op \in {6, 7} -> {1, 2, 3} [] op = 8 -> {6, 12, 5} [] op = 24 -> {8, 14} [] op = 25 -> {8, 10}
                [] op \in {26, 27, 30, 31} -> {4, 5, 8, 9, 12, 13, 6} [] op = 1035 -> {13} [] op = 1034 -> {7} [] op = 1036 -> {9} [] op = 1037 -> {11}
                [] op = 21 -> {2, 3} [] op \in {4, 22} -> {1, 2} [] op \in StemOps -> {2, 3, 4} [] op \in MaskOps -> {0, 2} [] op = 14 -> {0, 1}
Few(op) == IF Wide THEN Counts(op) ELSE {CHOOSE n \in Counts(op) : \A k \in Counts(op) : n <= k}

HasMove == \E i \in 1..Len(prog) : prog[i].op \in MoveOps
Ended == prog # <<>> /\ prog[Len(prog)].op = 14
Init == prog = <<>> /\ mode \in {"plain", "local", "global", "nested"}
Step(op, n) == prog' = Append(prog, [op |-> op, n |-> n])
Next == /\ ~Ended
        /\ UNCHANGED mode
        /\ \/ Len(prog) < MaxOps /\ ~HasMove /\ \E op \in StemOps \cup MaskOps : \E n \in Few(op) \cup {3} : n \in Counts(op) /\ Step(op, n)
           \/ Len(prog) < MaxOps /\ \E op \in MoveOps : \E n \in Few(op) : Step(op, n)
           \/ Len(prog) < MaxOps /\ HasMove /\ \E op \in DrawOps : \E n \in IF \E i \in 1..Len(prog) : prog[i].op \in DrawOps THEN Few(op) ELSE Counts(op) : Step(op, n)
           \/ \E n \in {0, 1} : (n = 1 => prog = <<>>) /\ Step(14, n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* hints so far, by the operand counts (an odd one is a width)
RECURSIVE HintsBefore(_)
HintsBefore(i) == IF i = 0 THEN 0 ELSE HintsBefore(i - 1) + (IF prog[i].op \in StemOps \cup MaskOps THEN prog[i].n \div 2 ELSE 0)
Mask(i) == IF prog[i].op \in MaskOps THEN [k \in 1..((HintsBefore(i) + 7) \div 8) |-> 14 + k] ELSE <<>>
Piece(i) == Nums(Args(i, prog[i].n)) \o OpBytes(prog[i].op) \o Mask(i)

\* pieces as they are stored: whole, in local or global subroutines, or the operands outside and the operator two calls deep
Call(k, op) == Num(k - 107) \o <<op>>
Bytes(i) == CASE mode = "plain" -> Piece(i)
              [] mode = "local" -> Call(i - 1, 10)
              [] mode = "global" -> Call(i - 1, 29)
              [] mode = "nested" -> Nums(Args(i, prog[i].n)) \o Call(i - 1, 29)
End(i) == IF prog[i].op = 14 THEN <<>> ELSE <<11>>
Font == LET N == Len(prog) IN
        [cs |-> << <<14>>, FlattenSeq([i \in 1..N |-> Bytes(i)]) >>, fd |-> <<1, 1>>,
         g |-> CASE mode = "global" -> [i \in 1..N |-> Piece(i) \o End(i)]
                 [] mode = "nested" -> [i \in 1..N |-> Call(i - 1, 10) \o <<11>>]
                 [] OTHER -> <<>>,
         l |-> << CASE mode = "local" -> [i \in 1..N |-> Piece(i) \o End(i)]
                    [] mode = "nested" -> [i \in 1..N |-> OpBytes(prog[i].op) \o Mask(i) \o End(i)]
                    [] OTHER -> <<>> >>]
Flat == [cs |-> << <<14>>, FlattenSeq([i \in 1..Len(prog) |-> Piece(i)]) >>, fd |-> <<1, 1>>, g |-> <<>>, l |-> << <<>> >>]

X == Exec(Font, 1)
Y == Exec(Flat, 1)

\* wrapping pieces in subroutines changes nothing
Inline == Ended => X = Y

\* operand counts that the format allows
Legal(i) == LET n == prog[i].n IN
  CASE prog[i].op = 5 -> n % 2 = 0 [] prog[i].op = 8 -> n % 6 = 0 [] prog[i].op \in {26, 27, 30, 31} -> n % 4 <= 1
    [] prog[i].op \in DrawOps -> TRUE
    [] prog[i].op = 21 -> n = 2 \/ i = 1 [] prog[i].op \in {4, 22} -> n = 1 \/ i = 1
    [] prog[i].op \in StemOps -> n % 2 = 0 \/ i = 1 [] prog[i].op \in MaskOps -> n % 2 = 0 [] OTHER -> TRUE
Order == \A i \in 1..Len(prog) : prog[i].op \in StemOps \cup MaskOps => \A j \in 1..(i - 1) : prog[j].op \notin MaskOps \cup MoveOps
NoEmptyMask == \A i \in 1..Len(prog) : prog[i].op \in MaskOps => HintsBefore(i) > 0
Verdict == (Ended /\ Order /\ NoEmptyMask /\ X.st # "unsettled") => (X.st = "ok") = (\A i \in 1..Len(prog) : Legal(i))

Settled == (Ended /\ Order /\ NoEmptyMask /\ \A i \in 1..Len(prog) : Legal(i)) => X.st = "ok"

\* segments by operand count
SegCount(i) == LET n == prog[i].n IN
  CASE prog[i].op = 5 -> n \div 2 [] prog[i].op \in {6, 7} -> n [] prog[i].op = 8 -> n \div 6 [] prog[i].op = 24 -> n \div 6 + 1
    [] prog[i].op = 25 -> (n - 6) \div 2 + 1 [] prog[i].op \in {26, 27, 30, 31} -> n \div 4 [] prog[i].op \in DrawOps -> 2 [] prog[i].op \in MoveOps -> 1 [] OTHER -> 0
RECURSIVE Segs(_)
Segs(i) == IF i = 0 THEN 0 ELSE SegCount(i) + Segs(i - 1)
Counted == (Ended /\ X.st = "ok") => Len(X.out) = Segs(Len(prog))

\* hflex and hflex1 come back to the height they start from; flex1 in one direction
Back == (Ended /\ X.st = "ok" /\ Len(prog) = 3 /\ prog[2].op \in {1034, 1036}) =>
          LET P == Points(X.out) IN P[Len(P)][2] = P[1][2]

\* no prefix of a program draws
Prefix == (Ended /\ mode = "plain" /\ X.st = "ok") => \A k \in 0..(Len(Font.cs[2]) - 1) : Exec([Font EXCEPT !.cs[2] = SubSeq(@, 1, k)], 1).st # "ok"

Plans == (Export /\ Ended) => PrintT("PLAN " \o ToJson(Font))
=============================================================================
