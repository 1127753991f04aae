-------------------------------- MODULE Cmap --------------------------------
(***************************************************************************)
(* Character lookup and reverse lookup by the OpenType rules for cmap      *)
(* subtables of formats 0, 4, 6 and 12.  A subtable is a record with the   *)
(* raw fields of the file:                                                 *)
(*   f = 0 : a (256 glyph indices)                                         *)
(*   f = 4 : s, e, d, o (per segment start, end, idDelta as an unsigned    *)
(*           16-bit number, idRangeOffset) and a (glyph index array)       *)
(*   f = 6 : s (first code) and a                                          *)
(*   f = 12: g, a sequence of <<start, end, glyph>>                        *)
(* A character map is a sequence of subtables.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoGlyph == -1      \* "this subtable does not cover the character"

Min2(a, b) == IF a < b THEN a ELSE b

\* the first index at which a predicate holds, 0 if none
RECURSIVE FirstFrom(_, _, _)
FirstFrom(P(_), i, n) == IF i > n THEN 0 ELSE IF P(i) THEN i ELSE FirstFrom(P, i + 1, n)

Lookup0(t, c) == IF c \in 0..255 THEN t.a[c + 1] ELSE NoGlyph

(* Format 4: the first segment whose end is not below the character        *)
(* decides; the final segment 0xFFFF..0xFFFF stands for .notdef.           *)
Seg4(t, c) == LET P(i) == c <= t.e[i] IN FirstFrom(P, 1, Len(t.e))

Lookup4(t, c) ==
  IF c \notin 0..65535 THEN NoGlyph
  ELSE LET i == Seg4(t, c)
           n == Len(t.e)
       IN IF i = 0 \/ t.s[i] > c THEN NoGlyph
          ELSE IF i = n /\ t.s[i] = 65535 THEN 0
          ELSE IF t.o[i] = 0 THEN (c + t.d[i]) % 65536
          ELSE \* idRangeOffset counts bytes from its own position in the file
               LET k == (t.o[i] \div 2) + (c - t.s[i]) - (n - i + 1)   \* 0-based index in the glyph array
                   v == t.a[k + 1]
               IN IF v = 0 THEN 0 ELSE (v + t.d[i]) % 65536

Lookup6(t, c) == IF c \in t.s..(t.s + Len(t.a) - 1) THEN t.a[c - t.s + 1] ELSE NoGlyph

Lookup12(t, c) ==
  LET P(i) == t.g[i][1] <= c /\ c <= t.g[i][2]
      i == FirstFrom(P, 1, Len(t.g))
  IN IF i = 0 THEN NoGlyph ELSE t.g[i][3] + (c - t.g[i][1])

LookupSub(t, c) ==
  CASE t.f = 0  -> Lookup0(t, c)
    [] t.f = 4  -> Lookup4(t, c)
    [] t.f = 6  -> Lookup6(t, c)
    [] t.f = 12 -> Lookup12(t, c)

(* The first subtable, in order, that covers the character decides.        *)
RECURSIVE LookupFrom(_, _, _)
LookupFrom(subs, c, i) ==
  IF i > Len(subs) THEN 0
  ELSE LET g == LookupSub(subs[i], c)
       IN IF g # NoGlyph THEN g ELSE LookupFrom(subs, c, i + 1)
Lookup(subs, c) == LookupFrom(subs, c, 1)

-----------------------------------------------------------------------------
(* Reverse lookup: characters of a subtable in ascending order.            *)
Ranges(t) ==   \* ranges of covered characters, ascending
  CASE t.f = 0  -> << <<0, 255>> >>
    [] t.f = 4  -> [i \in 1..Len(t.s) |-> <<t.s[i], t.e[i]>>]
    [] t.f = 6  -> << <<t.s, t.s + Len(t.a) - 1>> >>
    [] t.f = 12 -> [i \in 1..Len(t.g) |-> <<t.g[i][1], t.g[i][2]>>]

CodesOfSub(t, g) ==
  LET rs == Ranges(t)
      Codes1(r) == SelectSeq([k \in 1..(r[2] - r[1] + 1) |-> r[1] + k - 1], LAMBDA c : LookupSub(t, c) = g)
  IN FlattenSeq([i \in 1..Len(rs) |-> Codes1(rs[i])])

\* in subtable order, each character once
RECURSIVE CodesFrom(_, _, _, _)
CodesFrom(subs, g, i, acc) ==
  IF i > Len(subs) THEN acc
  ELSE LET seen == {acc[k] : k \in 1..Len(acc)}
       IN CodesFrom(subs, g, i + 1, acc \o SelectSeq(CodesOfSub(subs[i], g), LAMBDA c : c \notin seen))
Codes(subs, g) == CodesFrom(subs, g, 1, <<>>)

-----------------------------------------------------------------------------
(* Laws of the design, checked by MC_Cmap over every small map.            *)
AllCodes(subs) == UNION {UNION {r[1]..r[2] : r \in {Ranges(subs[i])[j] : j \in 1..Len(Ranges(subs[i]))}} : i \in 1..Len(subs)}

\* with one subtable the reverse lookup inverts the lookup
Inverts(subs, N) ==
  Len(subs) = 1 =>
    \A g \in N : {Codes(subs, g)[i] : i \in 1..Len(Codes(subs, g))} = {c \in AllCodes(subs) : Lookup(subs, c) = g}

\* with several, what lookup finds is reported, each code once
Reported(subs, N) ==
  /\ \A c \in AllCodes(subs) : \E i \in 1..Len(Codes(subs, Lookup(subs, c))) : Codes(subs, Lookup(subs, c))[i] = c
  /\ \A g \in N : \A i, j \in 1..Len(Codes(subs, g)) : i # j => Codes(subs, g)[i] # Codes(subs, g)[j]

\* appending a subtable never changes a character that was covered
Stable(subs) ==
  \A c \in AllCodes(subs) :
     LET k == CHOOSE i \in 1..Len(subs) : LookupSub(subs[i], c) # NoGlyph /\ \A j \in 1..(i-1) : LookupSub(subs[j], c) = NoGlyph
     IN Lookup(subs, c) = LookupSub(subs[k], c)
=============================================================================
