--------------------------------- MODULE Cff ---------------------------------
(***************************************************************************)
(* The CFF table: from its bytes to the names of the glyphs, the           *)
(* charstrings and subroutines, the font dictionary of each glyph and the  *)
(* values of the dictionaries.  Strings are sequences of bytes.            *)
(*                                                                         *)
(* Numbers of a dictionary are decimals <<neg, digits, exponent>> without  *)
(* leading and trailing zeros: 0.001 is <<0, <<1>>, -3>>, zero is          *)
(* <<0, <<>>, 0>>.  Operators of two bytes 12 k are given as 1000 + k.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, StdNames

CB(b, p)  == b[p + 1]                                  \* offsets from 0
CW(b, p) == b[p + 1] * 256 + b[p + 2]
Distant == 1000000000
RECURSIVE Big(_, _, _, _)
Big(b, p, n, acc) == IF n = 0 THEN acc ELSE Big(b, p + 1, n - 1, IF acc >= 4000000 THEN Distant ELSE acc * 256 + CB(b, p))

-----------------------------------------------------------------------------
(* INDEX: [st, it, z]: the items, and where it ends                         *)
NoIndex(st) == [st |-> st, it |-> <<>>, z |-> 0]
Index(b, p) ==
  IF p + 2 > Len(b) THEN NoIndex("bad")
  ELSE LET n == CW(b, p) IN
    IF n = 0 THEN [st |-> "ok", it |-> <<>>, z |-> p + 2]
    ELSE IF p + 3 > Len(b) \/ CB(b, p + 2) \notin 1..4 THEN NoIndex("bad")
    ELSE LET s == CB(b, p + 2) IN
      IF p + 3 + s * (n + 1) > Len(b) THEN NoIndex("bad")
      ELSE LET off == TLCEval([i \in 1..(n + 1) |-> Big(b, p + 3 + s * (i - 1), s, 0)])
               base == p + 2 + s * (n + 1)
           IN IF off[1] # 1 THEN NoIndex(IF off[1] = 0 THEN "bad" ELSE "unsettled")
              ELSE IF \E i \in 1..n : off[i + 1] < off[i] THEN NoIndex("bad")
              ELSE IF off[n + 1] > Len(b) - base THEN NoIndex("bad")
              ELSE [st |-> "ok", it |-> TLCEval([i \in 1..n |-> SubSeq(b, base + off[i] + 1, base + off[i + 1])]), z |-> base + off[n + 1]]

-----------------------------------------------------------------------------
(* Decimals                                                                 *)
Zero == <<0, <<>>, 0>>
RECURSIVE LeadZeros(_)
LeadZeros(d) == IF d = <<>> \/ Head(d) # 0 THEN 0 ELSE 1 + LeadZeros(Tail(d))
RECURSIVE NoTrail(_)
NoTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN NoTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
\* value 0.d1d2... times 10^e
Decimal(neg, d, e) ==
  LET k == LeadZeros(d)
      s == NoTrail(SubSeq(d, k + 1, Len(d)))
  IN IF s = <<>> THEN Zero ELSE <<neg, s, e - k - 1>>
RECURSIVE DigitsOf(_)
DigitsOf(v) == IF v = 0 THEN <<>> ELSE Append(DigitsOf(v \div 10), v % 10)
DecimalOf(v) == LET d == DigitsOf(IF v < 0 THEN -v ELSE v) IN Decimal(IF v < 0 THEN 1 ELSE 0, d, Len(d))

\* an operand: [int, v (if int), d the decimal, st]
IntOperand(v) == [int |-> TRUE, v |-> v, d |-> DecimalOf(v), st |-> "ok"]
AnyNumber == <<2, <<>>, 0>>                \* not compared
OpenOperand == [int |-> FALSE, v |-> 0, d |-> Zero, st |-> "unsettled"]
FirstAt(s, X) == LET I == {i \in 1..Len(s) : s[i] \in X} IN IF I = {} THEN Len(s) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
RealOperand(nibs) ==
  LET neg == nibs # <<>> /\ nibs[1] = 14
      r == IF neg THEN Tail(nibs) ELSE nibs
      ep == FirstAt(r, {11, 12})
      m == SubSeq(r, 1, ep - 1)
      x == SubSeq(r, ep + 1, Len(r))
      dp == FirstAt(m, {10})
      ip == SubSeq(m, 1, dp - 1)
      fp == SubSeq(m, dp + 1, Len(m))
      AllDigits(s) == \A i \in 1..Len(s) : s[i] \in 0..9
      sound == AllDigits(ip) /\ AllDigits(fp) /\ AllDigits(x) /\ Len(ip) + Len(fp) >= 1 /\ (ep <= Len(r) => Len(x) \in 1..3)
  IN IF ~sound THEN OpenOperand
     ELSE LET xv == FoldLeft(LAMBDA a, v : a * 10 + v, 0, x)
              e == IF ep <= Len(r) /\ r[ep] = 12 THEN -xv ELSE xv
              d == Decimal(IF neg THEN 1 ELSE 0, ip \o fp, Len(ip) + e)
          \* more digits than a number of 32 bits has, out of its range, or whole and rounded by it
          IN IF Len(d[2]) > 6 \/ d[3] \notin (-30..6) \cup (10..30) THEN [int |-> FALSE, v |-> 0, d |-> AnyNumber, st |-> "ok"] ELSE [int |-> FALSE, v |-> 0, d |-> d, st |-> "ok"]

-----------------------------------------------------------------------------
(* DICT: [st, ops] with the operators in order, [op, a]                     *)
RECURSIVE Nibbles(_, _, _)
Nibbles(b, p, acc) ==        \* [ok, n, p]
  IF p > Len(b) THEN [ok |-> FALSE, n |-> acc, p |-> p]
  ELSE LET h == b[p] \div 16
           l == b[p] % 16
       IN IF h = 15 THEN [ok |-> TRUE, n |-> acc, p |-> p + 1]
          ELSE IF l = 15 THEN [ok |-> TRUE, n |-> Append(acc, h), p |-> p + 1]
          ELSE Nibbles(b, p + 1, acc \o <<h, l>>)

NoDict(st) == [st |-> st, ops |-> <<>>]
RECURSIVE DictAt(_, _, _, _)
DictAt(b, p, args, acc) ==
  IF p > Len(b) THEN (IF args = <<>> THEN [st |-> "ok", ops |-> acc] ELSE NoDict("unsettled"))
  ELSE
    LET v == b[p] IN
    IF v <= 21 THEN
      IF v = 12 /\ p = Len(b) THEN NoDict("bad")
      ELSE IF Len(args) > 48 THEN NoDict("unsettled")
      ELSE DictAt(b, IF v = 12 THEN p + 2 ELSE p + 1, <<>>, Append(acc, [op |-> IF v = 12 THEN 1000 + b[p + 1] ELSE v, a |-> args]))
    ELSE IF v \in 22..27 \/ v \in {31, 255} THEN NoDict("unsettled")
    ELSE IF v = 28 THEN (IF p + 2 > Len(b) THEN NoDict("bad") ELSE LET u == CW(b, p) IN DictAt(b, p + 3, Append(args, IntOperand(IF u >= 32768 THEN u - 65536 ELSE u)), acc))
    ELSE IF v = 29 THEN
      IF p + 4 > Len(b) THEN NoDict("bad")
      ELSE LET h == b[p + 1]
               low == (b[p + 2] * 256 + b[p + 3]) * 256 + b[p + 4]
           IN IF h = 128 THEN NoDict("unsettled")
              ELSE DictAt(b, p + 5, Append(args, IntOperand((IF h >= 128 THEN h - 256 ELSE h) * 16777216 + low)), acc)
    ELSE IF v = 30 THEN LET N == Nibbles(b, p + 1, <<>>) IN IF ~N.ok THEN NoDict("unsettled") ELSE DictAt(b, N.p, Append(args, RealOperand(N.n)), acc)
    ELSE IF v <= 246 THEN DictAt(b, p + 1, Append(args, IntOperand(v - 139)), acc)
    ELSE IF p + 1 > Len(b) THEN NoDict("bad")
    ELSE DictAt(b, p + 2, Append(args, IntOperand(IF v <= 250 THEN (v - 247) * 256 + b[p + 1] + 108 ELSE -((v - 251) * 256) - b[p + 1] - 108)), acc)
Dict(b) == DictAt(b, 1, <<>>, <<>>)

Strs == {0, 1, 2, 3, 4, 1000, 1021, 1022, 1038}
Flags == {1001, 1014}
Ints == {1005, 1006, 13, 15, 16, 17, 1020, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1017, 1019, 19}
Nums == {1002, 1003, 1004, 1008, 1009, 1010, 1011, 10, 11, 1018, 20, 21}
IntLists == {14}
NumLists == {6, 7, 8, 9, 1012, 1013, 1023}
Positions == {15, 16, 17, 18, 19, 1036, 1037}           \* where things are in the file
TopOps == Strs \cup {1001, 1005, 1006, 13, 15, 16, 17, 18, 1020, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1002, 1003, 1004, 1008, 1007, 5, 14, 1023, 1030}
PrivOps == (NumLists \ {1023}) \cup {1009, 1010, 1011, 10, 11, 1014, 1017, 1018, 1019, 19, 20, 21}
Operands(op) == CASE op = 1007 -> 6 [] op = 5 -> 4 [] op = 18 -> 2 [] op = 1030 -> 3 [] op \in IntLists \cup NumLists -> -1 [] OTHER -> 1
IntsOnly(op) == op \notin Nums \cup NumLists \cup {5, 1007}

\* whether all operators are known and have the operands they need
DictSt(d, known) ==
  IF d.st # "ok" THEN d.st
  ELSE IF \E i \in 1..Len(d.ops) : LET x == d.ops[i] IN x.op \in known /\ Operands(x.op) > Len(x.a) THEN "bad"
  ELSE IF \E i \in 1..Len(d.ops) :
            LET x == d.ops[i] IN
            \/ x.op \notin known \/ (Operands(x.op) # -1 /\ Operands(x.op) # Len(x.a))
            \/ \E j \in 1..Len(x.a) : x.a[j].st # "ok" \/ (IntsOnly(x.op) /\ ~x.a[j].int)
                                     \/ (x.op = 1023 /\ ~x.a[j].int /\ Len(x.a[j].d[2]) > x.a[j].d[3] + 1)   \* taken as whole numbers
       THEN "unsettled" ELSE "ok"

Has(d, op) == \E i \in 1..Len(d.ops) : d.ops[i].op = op
ArgsOf(d, op) == d.ops[CHOOSE i \in 1..Len(d.ops) : d.ops[i].op = op /\ \A j \in (i + 1)..Len(d.ops) : d.ops[j].op # op].a
IntOf(d, op, def) == IF Has(d, op) THEN ArgsOf(d, op)[1].v ELSE def
IntsOf(d, op) == IF Has(d, op) THEN [i \in 1..Len(ArgsOf(d, op)) |-> ArgsOf(d, op)[i].v] ELSE <<>>
SameNums(u, w) == Len(u) = Len(w) /\ \A i \in 1..Len(u) : u[i] = w[i] \/ AnyNumber \in {u[i], w[i]}
NumsOf(d, op, def) == IF Has(d, op) THEN [i \in 1..Len(ArgsOf(d, op)) |-> ArgsOf(d, op)[i].d] ELSE def
IntDefault(op) == CASE op = 1006 -> 2 [] op = 1034 -> 8720 [] OTHER -> 0
Thousandth == <<0, <<1>>, -3>>
NumDefault(op) ==
  CASE op = 1003 -> <<DecimalOf(-100)>> [] op = 1004 -> <<DecimalOf(50)>>
    [] op = 1007 -> <<Thousandth, Zero, Zero, Thousandth, Zero, Zero>> [] op = 5 -> <<Zero, Zero, Zero, Zero>>
    [] op = 1009 -> <<<<0, <<3, 9, 6, 2, 5>>, -2>>>> [] op = 1010 -> <<DecimalOf(7)>> [] op = 1011 -> <<DecimalOf(1)>> [] op = 1018 -> <<<<0, <<6>>, -2>>>>
    [] op \in NumLists -> <<>> [] OTHER -> <<Zero>>

-----------------------------------------------------------------------------
NoStr == <<-1>>           \* no such string
Sid(strs, k) == IF k < 0 THEN NoStr ELSE IF k < 391 THEN CffStrings[k + 1] ELSE IF k - 391 < Len(strs) THEN strs[k - 390] ELSE NoStr

(* Charset: the identifiers of glyphs 1..n-1, [st, s]                       *)
RECURSIVE SidRanges(_, _, _, _, _)
SidRanges(b, p, size, n, acc) ==
  IF Len(acc) = n THEN [st |-> "ok", s |-> acc]
  ELSE IF p + 2 + size > Len(b) THEN [st |-> "bad", s |-> acc]
  ELSE LET first == CW(b, p)
           k == (IF size = 1 THEN CB(b, p + 2) ELSE CW(b, p + 2)) + 1
       IN IF Len(acc) + k > n THEN [st |-> "unsettled", s |-> acc]
          ELSE SidRanges(b, p + 2 + size, size, n, acc \o [i \in 1..k |-> first + i - 1])
Charset(b, at, n) ==
  IF at = 0 THEN (IF n <= 229 THEN [st |-> "ok", s |-> [i \in 1..(n - 1) |-> i]] ELSE [st |-> "unsettled", s |-> <<>>])
  ELSE IF at \in {1, 2} THEN [st |-> "unsettled", s |-> <<>>]
  ELSE IF n = 1 THEN [st |-> "ok", s |-> <<>>]
  ELSE IF at < 0 \/ at >= Len(b) THEN [st |-> "bad", s |-> <<>>]
  ELSE LET f == CB(b, at) IN
    IF f = 0 THEN (IF at + 1 + 2 * (n - 1) > Len(b) THEN [st |-> "bad", s |-> <<>>] ELSE [st |-> "ok", s |-> [i \in 1..(n - 1) |-> CW(b, at + 1 + 2 * (i - 1))]])
    ELSE IF f \in {1, 2} THEN SidRanges(b, at + 1, f, n - 1, <<>>)
    ELSE [st |-> "bad", s |-> <<>>]

(* FDSelect: the font dictionary (from 1) of each glyph, [st, s]            *)
Select(b, at, n, k) ==
  IF at < 0 \/ at >= Len(b) THEN [st |-> "bad", s |-> <<>>]
  ELSE LET f == CB(b, at) IN
    IF f = 0 THEN
      IF at + 1 + n > Len(b) THEN [st |-> "bad", s |-> <<>>]
      ELSE LET s == [i \in 1..n |-> CB(b, at + i) + 1] IN [st |-> IF \E i \in 1..n : s[i] > k THEN "bad" ELSE "ok", s |-> s]
    ELSE IF f = 3 THEN
      IF at + 3 > Len(b) THEN [st |-> "bad", s |-> <<>>]
      ELSE LET m == CW(b, at + 1) IN
        IF at + 3 + 3 * m + 2 > Len(b) THEN [st |-> "bad", s |-> <<>>]
        ELSE LET first == TLCEval([i \in 1..(m + 1) |-> CW(b, at + 3 + 3 * (i - 1))])
                 fd == [i \in 1..m |-> CB(b, at + 5 + 3 * (i - 1)) + 1]
             IN IF \E i \in 1..m : fd[i] > k THEN [st |-> "bad", s |-> <<>>]
                ELSE IF m = 0 \/ first[1] # 0 \/ first[m + 1] # n \/ \E i \in 1..m : first[i] >= first[i + 1] THEN [st |-> "unsettled", s |-> <<>>]
                ELSE [st |-> "ok", s |-> [g \in 1..n |-> fd[CHOOSE i \in 1..m : first[i] <= g - 1 /\ g - 1 < first[i + 1]]]]
    ELSE [st |-> "bad", s |-> <<>>]

\* a private dictionary and its subroutines: [st, d, l]
Private(b, size, at) ==
  IF size < 0 \/ at < 0 \/ at > Len(b) \/ size > Len(b) - at THEN [st |-> "bad", d |-> NoDict("bad"), l |-> <<>>]
  ELSE LET d == TLCEval(Dict(SubSeq(b, at + 1, at + size)))
           st == DictSt(d, PrivOps)
           sub == IF st = "ok" THEN IntOf(d, 19, 0) ELSE 0
       IN IF st # "ok" THEN [st |-> st, d |-> d, l |-> <<>>]
          ELSE IF sub = 0 THEN [st |-> IF Has(d, 19) THEN "unsettled" ELSE "ok", d |-> d, l |-> <<>>]
          ELSE IF sub < 0 \/ at + sub > Len(b) THEN [st |-> "bad", d |-> d, l |-> <<>>]
          ELSE LET X == Index(b, at + sub) IN [st |-> X.st, d |-> d, l |-> X.it]

Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "unsettled" \in S THEN "unsettled" ELSE "ok"
Img(s) == {s[i] : i \in 1..Len(s)}
NoFont(st) == [st |-> st]

\* the table: [st, cid, n, names, top, strs, cs, g, privs, l (local subroutines by dictionary), fd]
Cff(b) ==
  IF Len(b) < 4 \/ CB(b, 0) # 1 THEN NoFont("bad")
  ELSE IF CB(b, 1) # 0 \/ CB(b, 2) # 4 \/ CB(b, 3) \notin 1..4 THEN NoFont("unsettled")
  ELSE
    LET NI == Index(b, 4) IN
    IF NI.st # "ok" \/ Len(NI.it) # 1 THEN NoFont(IF NI.st # "ok" THEN NI.st ELSE "unsettled") ELSE
    LET TI == Index(b, NI.z) IN
    IF TI.st # "ok" \/ Len(TI.it) # 1 THEN NoFont(IF TI.st # "ok" THEN TI.st ELSE "unsettled") ELSE
    LET SI == Index(b, TI.z) IN
    IF SI.st # "ok" THEN NoFont(SI.st) ELSE
    LET GI == Index(b, SI.z)
        top == TLCEval(Dict(TI.it[1]))
        ts == DictSt(top, TopOps)
    IN IF GI.st # "ok" \/ ts # "ok" THEN NoFont(Worst({GI.st, ts}))
    ELSE IF IntOf(top, 1006, 2) # 2 THEN NoFont("unsettled")
    ELSE IF ~Has(top, 17) \/ IntOf(top, 17, 0) < 4 \/ IntOf(top, 17, 0) > Len(b) THEN NoFont(IF Has(top, 17) /\ IntOf(top, 17, 0) \in 0..3 THEN "unsettled" ELSE "bad") ELSE
    LET CI == Index(b, IntOf(top, 17, 0))
        cid == Has(top, 1030)
        n == Len(CI.it)
    IN IF CI.st # "ok" THEN NoFont(CI.st)
    ELSE IF n = 0 THEN NoFont("bad") ELSE
    LET CS == TLCEval(Charset(b, IntOf(top, 15, 0), n))
        DI == IF ~cid THEN [st |-> "ok", it |-> <<>>, z |-> 0]
              ELSE IF ~Has(top, 1036) \/ IntOf(top, 1036, 0) < 0 \/ IntOf(top, 1036, 0) > Len(b) THEN NoIndex("bad") ELSE Index(b, IntOf(top, 1036, 0))
        fds == TLCEval([i \in 1..Len(DI.it) |-> Dict(DI.it[i])])
        fst == {DictSt(fds[i], {18, 1007, 1038}) : i \in 1..Len(fds)} \cup {IF Has(fds[i], 18) THEN "ok" ELSE "unsettled" : i \in 1..Len(fds)}
        P(d) == Private(b, ArgsOf(d, 18)[1].v, ArgsOf(d, 18)[2].v)
    IN IF Worst({CS.st, DI.st} \cup fst) # "ok" THEN NoFont(Worst({CS.st, DI.st} \cup fst))
    ELSE IF ~cid /\ ~Has(top, 18) THEN NoFont("unsettled")
    ELSE IF cid /\ fds = <<>> THEN NoFont("unsettled") ELSE
    LET privs == TLCEval(IF cid THEN [i \in 1..Len(fds) |-> P(fds[i])] ELSE <<P(top)>>)
        FS == IF ~cid THEN [st |-> "ok", s |-> [i \in 1..n |-> 1]] ELSE Select(b, IntOf(top, 1037, -1), n, Len(fds))
        st == Worst({FS.st} \cup {privs[i].st : i \in 1..Len(privs)})
        names == TLCEval([i \in 1..n |-> IF i = 1 THEN Sid(<<>>, 0) ELSE Sid(SI.it, CS.s[i - 1])])
    IN [st |-> st, cid |-> cid, n |-> n, names |-> names, top |-> top, strs |-> SI.it,
        cs |-> CI.it, g |-> GI.it, privs |-> privs, l |-> [i \in 1..Len(privs) |-> privs[i].l], fd |-> FS.s]

-----------------------------------------------------------------------------
(* What is exposed: observed values o as [str, num, int] with <<op, value>> *)
StrOf(F, op) == IF Has(F.top, op) THEN Sid(F.strs, IntOf(F.top, op, 0)) ELSE <<>>
IntOK(d, x) ==
  IF x[1] \in IntLists THEN x[2] = IntsOf(d, x[1])
  ELSE IF x[1] = 18 THEN x[2] = (IF Has(d, 18) THEN IntsOf(d, 18) ELSE <<0, 0>>)
  ELSE IF x[1] \in Flags THEN x[2] = <<IF IntOf(d, x[1], 0) = 0 THEN 0 ELSE 1>>
  ELSE x[2] = <<IntOf(d, x[1], IntDefault(x[1]))>>
DictDiffers(d, o, skip) ==
  {x[1] : x \in {y \in Img(o.num) : y[1] \notin skip /\ ~SameNums(y[2], NumsOf(d, y[1], NumDefault(y[1])))}}
  \cup {x[1] : x \in {y \in Img(o.int) : y[1] \notin skip /\ ~IntOK(d, y)}}
StrsDiffer(F, o, skip) == {x[1] : x \in {y \in Img(o.str) : y[1] \notin skip /\ StrOf(F, y[1]) # NoStr /\ y[2] # StrOf(F, y[1])}}
=============================================================================
