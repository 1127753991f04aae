------------------------------ MODULE MC_Kern ------------------------------
(***************************************************************************)
(* All kern tables with a few subtables over a few glyphs: any pairs in    *)
(* any order, values and minimum values, both table versions, subtables    *)
(* that have to be skipped, spare bytes.                                   *)
(***************************************************************************)
EXTENDS Kern, TLC, Json

CONSTANTS MaxSubs, Rich, Export

VARIABLES ver, subs, extra
vars == <<ver, subs, extra>>

Byte2(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
Words(vs) == FlattenSeq([i \in 1..Len(vs) |-> Byte2(vs[i])])

P(l, r, v) == [l |-> l, r |-> r, v |-> v]
Lists == {<<>>, <<P(1, 2, 10)>>, <<P(1, 2, -30), P(2, 1, 5)>>, <<P(2, 1, 7), P(1, 2, -4)>>, <<P(1, 1, 1), P(1, 2, -32768), P(65535, 0, 3)>>, <<P(2, 2, 0), P(0, 1, 9), P(1, 2, 20), P(0, 2, -9)>>}
Kinds == IF Rich THEN {"value", "min", "skip", "other"} ELSE {"value", "min", "skip"}
Init == ver \in {0, 1} /\ subs = <<>> /\ extra \in {0, 2}
Next == /\ Len(subs) < MaxSubs
        /\ \E k \in Kinds, ps \in Lists : (k = "min" => ver = 0) /\ subs' = Append(subs, [kind |-> k, pairs |-> ps])
        /\ UNCHANGED <<ver, extra>>
Spec == Init /\ [][Next]_vars

Body(s) == Words(<<Len(s.pairs), 0, 0, 0>>) \o FlattenSeq([i \in 1..Len(s.pairs) |-> Words(<<s.pairs[i].l, s.pairs[i].r, s.pairs[i].v>>)]) \o [i \in 1..extra |-> 255]
SubBytes(s) ==
  LET body == Body(s)
  IN IF ver = 0 THEN Words(<<0, 6 + Len(body)>>) \o (CASE s.kind = "value" -> <<0, 1>> [] s.kind = "min" -> <<0, 3>> [] s.kind = "skip" -> <<2, 1>> [] OTHER -> <<0, 9>>) \o body
     ELSE Words(<<0, 8 + Len(body)>>) \o (CASE s.kind = "value" -> <<0, 0>> [] s.kind = "skip" -> <<0, 2>> [] OTHER -> <<64, 0>>) \o <<0, 0>> \o body
Bytes == (IF ver = 0 THEN Words(<<0, Len(subs)>>) ELSE Words(<<1, 0, 0, Len(subs)>>)) \o FlattenSeq([i \in 1..Len(subs) |-> SubBytes(subs[i])])

Read == SelectSeq(subs, LAMBDA s : s.kind # "skip")
K == Kerns(Bytes)
G == {0, 1, 2, 65535}
RECURSIVE SumOf(_, _, _)
SumOf(ss, l, r) == IF ss = <<>> THEN 0 ELSE LET V == {v \in ValuesOf(ss[1], l, r) : ss[1].kind = "value"} IN (IF V = {} THEN 0 ELSE CHOOSE v \in V : TRUE) + SumOf(Tail(ss), l, r)

Decodes == K.st = "ok" /\ K.subs = Read
\* without minimum values it is a plain sum; those never lower it; a pair that is nowhere listed has none
Values == LET k == K IN \A l \in G, r \in G :
  LET v == Kerning(k.subs, l, r) IN
  /\ (\A i \in 1..Len(subs) : subs[i].kind # "min") => v = SumOf(k.subs, l, r) \/ \E i \in 1..Len(subs) : subs[i].kind = "other"
  /\ (\A i \in 1..Len(k.subs) : Hits(k.subs[i], l, r) = {}) => v = 0
  /\ (k.subs # <<>> /\ k.subs[Len(k.subs)].kind = "min") => v >= Kerning(SubSeq(k.subs, 1, Len(k.subs) - 1), l, r)
\* a table that is cut off is refused, but for spare bytes at its end
Cut == Len(subs) <= 1 => \A n \in 0..(Len(Bytes) - 1 - extra) : Kerns(SubSeq(Bytes, 1, n)).st = "bad"

Plans == Export => PrintT("PLAN " \o ToJson([b |-> Bytes]))
=============================================================================
