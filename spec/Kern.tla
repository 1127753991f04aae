-------------------------------- MODULE Kern --------------------------------
(***************************************************************************)
(* The kern table: subtables with pairs of glyphs, and the kerning of a    *)
(* pair.  Subtables in a format other than 0 are skipped.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

KB(b, p)  == b[p + 1]
KW(b, p) == b[p + 1] * 256 + b[p + 2]
KS(b, p) == LET v == KW(b, p) IN IF v >= 32768 THEN v - 65536 ELSE v
KBit(v, k) == (v \div (2 ^ k)) % 2 = 1

PairsAt(b, p, n) == [i \in 1..n |-> LET q == p + 6 * (i - 1) IN [l |-> KW(b, q), r |-> KW(b, q + 2), v |-> KS(b, q + 4)]]

\* a subtable: kind "value", "min" or "other" (vertical, cross-stream, overriding: readers may differ)
Cov0(c) == IF ~KBit(c, 0) \/ KBit(c, 2) \/ KBit(c, 3) THEN "other" ELSE IF KBit(c, 1) THEN "min" ELSE "value"
Cov1(c) == IF c = 0 THEN "value" ELSE "other"

Bad == [st |-> "bad", subs |-> <<>>]
RECURSIVE SubsAt(_, _, _, _, _)
SubsAt(b, ver, p, left, acc) ==
  IF left = 0 THEN [st |-> "ok", subs |-> acc]
  ELSE
    LET hd == IF ver = 0 THEN 6 ELSE 8
    IN IF Len(b) - p < hd THEN Bad
       ELSE IF ver = 1 /\ KW(b, p) > 1000 THEN Bad
       ELSE
         LET len == IF ver = 0 THEN KW(b, p + 2) ELSE KW(b, p) * 65536 + KW(b, p + 2)
             fmt == IF ver = 0 THEN KB(b, p + 4) ELSE KB(b, p + 5)
             cov == IF ver = 0 THEN KB(b, p + 5) ELSE KB(b, p + 4)
             skip == fmt # 0 \/ (ver = 0 /\ KW(b, p) # 0) \/ (ver = 1 /\ KBit(cov, 5))
         IN IF skip THEN (IF len < hd \/ len > Len(b) - p THEN Bad ELSE SubsAt(b, ver, p + len, left - 1, acc))
            ELSE IF Len(b) - p < hd + 8 THEN Bad
            ELSE LET n == KW(b, p + hd)
                     need == hd + 8 + 6 * n
                     sub == [kind |-> IF ver = 0 THEN Cov0(cov) ELSE Cov1(cov), pairs |-> PairsAt(b, p + hd + 8, n)]
                 IN IF need <= len /\ len <= Len(b) - p THEN SubsAt(b, ver, p + len, left - 1, Append(acc, sub))
                    \* the length of the last subtable may not fit in 16 bits
                    ELSE IF ver = 0 /\ left = 1 /\ len = need % 65536 /\ need <= Len(b) - p THEN [st |-> "ok", subs |-> Append(acc, sub)]
                    ELSE Bad
Kerns(b) ==
  IF Len(b) < 4 THEN Bad
  ELSE IF KW(b, 0) = 0 THEN SubsAt(b, 0, 4, KW(b, 2), <<>>)
  ELSE IF KW(b, 0) = 1 /\ KW(b, 2) = 0 /\ Len(b) >= 8 /\ KW(b, 4) = 0 THEN SubsAt(b, 1, 8, KW(b, 6), <<>>)
  ELSE Bad

-----------------------------------------------------------------------------
Hits(s, l, r) == {i \in 1..Len(s.pairs) : s.pairs[i].l = l /\ s.pairs[i].r = r}
ValuesOf(s, l, r) == {s.pairs[i].v : i \in Hits(s, l, r)}
\* settled for a pair: listed at most once in each subtable, only in subtables of a known kind
Settled(subs, l, r) == \A i \in 1..Len(subs) : Hits(subs[i], l, r) # {} => subs[i].kind # "other" /\ Cardinality(ValuesOf(subs[i], l, r)) = 1
RECURSIVE KernSum(_, _, _, _)
KernSum(subs, l, r, k) ==
  IF subs = <<>> THEN k
  ELSE LET V == ValuesOf(subs[1], l, r)
           v == CHOOSE x \in V : TRUE
       IN KernSum(Tail(subs), l, r, IF V = {} THEN k ELSE IF subs[1].kind = "min" THEN (IF k < v THEN v ELSE k) ELSE k + v)
Kerning(subs, l, r) == KernSum(subs, l, r, 0)
=============================================================================
