------------------------------- MODULE MC_Cff -------------------------------
(***************************************************************************)
(* All small CFF tables: any charset format and identifiers, any size of   *)
(* offsets, no or some font dictionaries selected in either form; and any  *)
(* operator of a dictionary with operands of every form.  What is read     *)
(* from the bytes is what was meant, and a table that is cut off is not    *)
(* sound.                                                                  *)
(***************************************************************************)
EXTENDS Cff, Json

CONSTANTS MaxGlyphs, Rich, Export

VARIABLE x          \* [n, cf (-1: predefined), os, ids, k, ff, sel, top, priv: lists of [op, a (indices of Forms)]]
vars == x

-----------------------------------------------------------------------------
Byte2(v) == <<v \div 256, v % 256>>
BytesOf(v, s) == CASE s = 1 -> <<v>> [] s = 2 -> Byte2(v) [] s = 3 -> <<0>> \o Byte2(v) [] OTHER -> <<0, 0>> \o Byte2(v)
RECURSIVE Ends(_, _)
Ends(items, o) == IF items = <<>> THEN <<o>> ELSE <<o>> \o Ends(Tail(items), o + Len(Head(items)))
IndexOf(items, s) ==
  IF items = <<>> THEN <<0, 0>>
  ELSE Byte2(Len(items)) \o <<s>> \o FlattenSeq([i \in 1..(Len(items) + 1) |-> BytesOf(Ends(items, 1)[i], s)]) \o FlattenSeq(items)
Op(op) == IF op >= 1000 THEN <<12, op - 1000>> ELSE <<op>>
Int5(v) == <<29>> \o BytesOf(v, 4)
Entry(op, vs) == FlattenSeq([i \in 1..Len(vs) |-> Int5(vs[i])]) \o Op(op)

\* operands: their bytes and what they mean, from the CFF specification
F(b, d, i) == [b |-> b, d |-> d, i |-> i]
Forms == <<
  F(<<139>>, <<0, <<>>, 0>>, 0), F(<<32>>, <<1, <<1, 0, 7>>, 2>>, -107), F(<<246>>, <<0, <<1, 0, 7>>, 2>>, 107),
  F(<<247, 0>>, <<0, <<1, 0, 8>>, 2>>, 108), F(<<250, 255>>, <<0, <<1, 1, 3, 1>>, 3>>, 1131), F(<<251, 0>>, <<1, <<1, 0, 8>>, 2>>, -108),
  F(<<254, 255>>, <<1, <<1, 1, 3, 1>>, 3>>, -1131), F(<<28, 39, 16>>, <<0, <<1>>, 4>>, 10000), F(<<28, 216, 240>>, <<1, <<1>>, 4>>, -10000),
  F(<<28, 128, 0>>, <<1, <<3, 2, 7, 6, 8>>, 4>>, -32768), F(<<29, 0, 1, 134, 160>>, <<0, <<1>>, 5>>, 100000), F(<<29, 255, 254, 121, 96>>, <<1, <<1>>, 5>>, -100000),
  F(<<29, 127, 255, 255, 255>>, <<0, <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>, 9>>, 2147483647), F(<<28, 0, 1>>, <<0, <<1>>, 0>>, 1),
  F(<<30, 226, 162, 95>>, <<1, <<2, 2, 5>>, 0>>, 999), F(<<30, 10, 20, 5, 65, 195, 255>>, <<0, <<1, 4, 0, 5, 4, 1>>, -4>>, 999),
  F(<<30, 15>>, <<0, <<>>, 0>>, 999), F(<<30, 225, 10, 15>>, <<1, <<1>>, 1>>, 999), F(<<30, 91, 31>>, <<0, <<5>>, 1>>, 999), F(<<30, 112, 10, 5, 255>>, <<0, <<7, 0, 0, 0, 5>>, 2>>, 999)
>>
IntForms == {i \in 1..Len(Forms) : Forms[i].i # 999}

Strings == <<<<65>>, <<>>, <<67, 195, 169>>>>
Gsubrs == <<<<11>>>>
Lsubrs(i) == IF i = 1 THEN <<<<11>>, <<139, 11>>>> ELSE <<<<14>>>>

DictBytes(l) == FlattenSeq([i \in 1..Len(l) |-> FlattenSeq([j \in 1..Len(l[i].a) |-> Forms[l[i].a[j]].b]) \o Op(l[i].op)])
SidEntries(l) == FlattenSeq([i \in 1..Len(l) |-> IF l[i].sid THEN Entry(l[i].op, <<l[i].v>>) ELSE DictBytes(<<l[i]>>)])

CharsetBytes ==
  IF x.cf = -1 THEN <<>>
  ELSE IF x.cf = 0 THEN <<0>> \o FlattenSeq([i \in 1..Len(x.ids) |-> Byte2(x.ids[i])])
  ELSE LET starts == {i \in 1..Len(x.ids) : i = 1 \/ x.ids[i] # x.ids[i - 1] + 1}
           S == SetToSortSeq(starts, <)
           Left(j) == (IF j = Len(S) THEN Len(x.ids) + 1 ELSE S[j + 1]) - S[j] - 1
       IN <<x.cf>> \o FlattenSeq([j \in 1..Len(S) |-> Byte2(x.ids[S[j]]) \o BytesOf(Left(j), x.cf)])
SelectBytes ==
  IF x.k = 0 THEN <<>>
  ELSE IF x.ff = 0 THEN <<0>> \o [i \in 1..x.n |-> x.sel[i] - 1]
  ELSE LET S == SetToSortSeq({i \in 1..x.n : i = 1 \/ x.sel[i] # x.sel[i - 1]}, <)
       IN <<3>> \o Byte2(Len(S)) \o FlattenSeq([j \in 1..Len(S) |-> Byte2(S[j] - 1) \o <<x.sel[S[j]] - 1>>]) \o Byte2(x.n)

NFD == IF x.k = 0 THEN 1 ELSE x.k
PrivBytes(i) == LET d == DictBytes(x.priv) \o (IF i = 1 THEN <<>> ELSE Int5(i) \o Op(20)) IN d \o Int5(Len(d) + 6) \o Op(19)
CharStrings == [i \in 1..x.n |-> IF i % 2 = 0 THEN <<139, 14>> ELSE <<14>>]

Top(o) ==
  (IF x.k > 0 THEN Entry(1030, <<391, 392, 0>>) ELSE <<>>) \o SidEntries(x.top)
  \o (IF x.cf = -1 THEN <<>> ELSE Entry(15, <<o.cs>>)) \o Entry(17, <<o.ch>>)
  \o (IF x.k > 0 THEN Entry(1036, <<o.fda>>) \o Entry(1037, <<o.fds>>) ELSE Entry(18, <<Len(PrivBytes(1)), o.p[1]>>))
NoOffsets == [cs |-> 0, ch |-> 0, fda |-> 0, fds |-> 0, p |-> <<0, 0>>]
Before(o) == <<1, 0, 4, x.os>> \o IndexOf(<<<<70>>>>, 1) \o IndexOf(<<Top(o)>>, 2) \o IndexOf(Strings, x.os) \o IndexOf(Gsubrs, x.os)
PrivAll(i) == PrivBytes(i) \o IndexOf(Lsubrs(i), x.os)
Table ==
  LET z == Len(Before(NoOffsets))
      cs == z
      fds == cs + Len(CharsetBytes)
      ch == fds + Len(SelectBytes)
      p1 == ch + Len(IndexOf(CharStrings, x.os))
      p2 == p1 + Len(PrivAll(1))
      fda == IF NFD = 1 THEN p2 ELSE p2 + Len(PrivAll(2))
      p == <<p1, p2>>
      dicts == [i \in 1..NFD |-> Entry(18, <<Len(PrivBytes(i)), p[i]>>)]
  IN Before([cs |-> cs, ch |-> ch, fda |-> fda, fds |-> fds, p |-> p]) \o CharsetBytes \o SelectBytes \o IndexOf(CharStrings, x.os)
     \o FlattenSeq([i \in 1..NFD |-> PrivAll(i)]) \o (IF x.k > 0 THEN IndexOf(dicts, x.os) ELSE <<>>)

-----------------------------------------------------------------------------
Ids == IF Rich THEN {1, 2, 3, 390, 391, 392, 394} ELSE {1, 2, 390, 391, 394}
Shapes ==
  UNION {UNION {
    [n : {n}, cf : {-1}, os : {1, 2, 3, 4}, ids : {[i \in 1..(n - 1) |-> i]}, k : {0}, ff : {0}, sel : {<<>>}, top : {<<>>}, priv : {<<>>}],
    [n : {n}, cf : {0, 1, 2}, os : {1, 4}, ids : [1..(n - 1) -> Ids], k : {0}, ff : {0}, sel : {<<>>}, top : {<<>>}, priv : {<<>>}],
    [n : {n}, cf : {0, 1, 2}, os : IF Rich THEN {1, 2, 3, 4} ELSE {1, 2}, ids : {[i \in 1..(n - 1) |-> i], [i \in 1..(n - 1) |-> 2 * i]}, k : {1}, ff : {0, 3}, sel : {[i \in 1..n |-> 1]}, top : {<<>>}, priv : {<<>>}],
    [n : {n}, cf : {0, 1, 2}, os : IF Rich THEN {1, 2, 3, 4} ELSE {1, 2}, ids : {[i \in 1..(n - 1) |-> i], [i \in 1..(n - 1) |-> 2 * i]}, k : {2}, ff : {0, 3}, sel : [1..n -> {1, 2}], top : {<<>>}, priv : {<<>>}]
  } : n \in 1..MaxGlyphs}

Small(op) == IF op \in Strs \cup IntLists \cup (Ints \ {19}) \cup Flags THEN IntForms ELSE 1..Len(Forms)
Str(op, v) == [op |-> op, sid |-> TRUE, v |-> v, a |-> <<>>]
Num(op, a) == [op |-> op, sid |-> FALSE, v |-> 0, a |-> a]
Base == [n |-> 2, cf |-> 0, os |-> 1, ids |-> <<391>>, k |-> 0, ff |-> 0, sel |-> <<>>, top |-> <<>>, priv |-> <<>>]
ListsOf(op) == IF op \in Nums \cup Ints \cup Flags THEN {<<f>> : f \in Small(op)}
               ELSE IF op = 1007 THEN {<<f, 1, 2, f, 1, 3>> : f \in Small(op)} ELSE IF op = 5 THEN {<<1, f, 3, f>> : f \in Small(op)}
               ELSE {<<>>} \cup {<<f>> : f \in Small(op)} \cup {<<f, 8, 1>> : f \in Small(op)} \cup {[i \in 1..48 |-> IF i = f THEN 14 ELSE 1] : f \in {1, 48}}
TopPlain == (TopOps \ (Strs \cup Positions \cup {18, 1006, 1030, 1031, 1032, 1033, 1034, 1035})) \cup {1001}
Dicts ==
  {[Base EXCEPT !.top = <<Str(op, v)>>] : op \in Strs, v \in {0, 1, 5, 390, 391, 392, 393, 394, 5000}}
  \cup UNION {{[Base EXCEPT !.top = <<Num(op, a)>>] : a \in {y \in ListsOf(op) : op # 1023 \/ \A j \in 1..Len(y) : y[j] \in IntForms}} : op \in TopPlain}
  \cup UNION {{[Base EXCEPT !.priv = <<Num(op, a)>>] : a \in ListsOf(op)} : op \in PrivOps \ {19}}
  \cup {[Base EXCEPT !.top = <<Num(o1, <<4>>), Num(o2, <<5>>)>>] : o1 \in TopPlain \cap (Nums \cup Ints), o2 \in TopPlain \cap (Nums \cup Ints)}
  \cup {[Base EXCEPT !.top = <<Num(op, a)>>] : op \in {99, 1009, 19, 1099}, a \in {<<1>>}}     \* no such operator
  \cup {[Base EXCEPT !.top = <<Num(op, a)>>] : op \in {5, 1007, 18, 1002}, a \in {<<>>}}        \* too few operands

Init == x \in Shapes \cup Dicts
Next == UNCHANGED x
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Unknown == x.top # <<>> /\ x.top[1].op \in {99, 19, 1009, 1099}
TooFew == x.top # <<>> /\ ~x.top[1].sid /\ x.top[1].op \in {5, 1007, 18, 1002} /\ x.top[1].a = <<>>
NameOf(k) == IF k < 391 THEN CffStrings[k + 1] ELSE IF k < 394 THEN Strings[k - 390] ELSE NoStr

Means ==
  LET T == Cff(Table) IN
  IF Unknown THEN T.st = "unsettled" ELSE IF TooFew THEN T.st = "bad"
  ELSE /\ T.st = "ok" /\ T.n = x.n /\ T.cid = (x.k > 0)
       /\ T.cs = CharStrings /\ T.g = Gsubrs /\ T.l = [i \in 1..NFD |-> Lsubrs(i)]
       /\ T.names = [i \in 1..x.n |-> IF i = 1 THEN NameOf(0) ELSE NameOf(x.ids[i - 1])]
       /\ T.fd = (IF x.k = 0 THEN [i \in 1..x.n |-> 1] ELSE x.sel)
       /\ \A i \in 1..NFD : NumsOf(T.privs[i].d, 20, <<Zero>>) = (IF i = 1 THEN (IF \E j \in 1..Len(x.priv) : x.priv[j].op = 20 THEN <<Forms[x.priv[1].a[1]].d>> ELSE <<Zero>>) ELSE <<DecimalOf(i)>>)

\* the last entry of an operator is its value
LastOf(l, op) == LET I == {i \in 1..Len(l) : l[i].op = op} IN l[CHOOSE i \in I : \A j \in I : j <= i]
Values ==
  LET T == Cff(Table)
      Holds(d, l) == \A i \in 1..Len(l) : LET e == LastOf(l, l[i].op)
                                              v == [j \in 1..Len(e.a) |-> Forms[e.a[j]].d]
                                          IN IF e.sid THEN StrOf(T, e.op) = NameOf(e.v)
                                             ELSE /\ NumsOf(d, e.op, <<>>) = v
                                                  /\ \A j \in 1..Len(e.a) : e.op \in Ints => IntOf(d, e.op, 0) = Forms[e.a[j]].i
  IN Unknown \/ TooFew \/ (Holds(T.top, x.top) /\ Holds(T.privs[1].d, x.priv))

Cut == (x.os = 1 /\ x.n <= 2 /\ x.top = <<>> /\ x.priv = <<>>) => LET b == Table IN \A m \in 0..(Len(b) - 1) : Cff(SubSeq(b, 1, m)).st # "ok"

Plans == Export => PrintT("PLAN " \o ToJson([b |-> Table, n |-> x.n]))
=============================================================================
