------------------------------ MODULE MC_Cmap ------------------------------
(***************************************************************************)
(* Exhaustive model of small character maps: the state is a character map  *)
(* under construction, to which subtables are appended.  Every state is    *)
(* checked against the laws of module Cmap and is exported as a plan that  *)
(* is replayed into the library.                                           *)
(***************************************************************************)
EXTENDS Cmap, TLC, Json, IOUtils

CONSTANTS N, MaxCode, MaxSubs, Rich

Glyphs == 0..(N-1)
Gl == {0, 1, N-1}
Term(t) == [t EXCEPT !.s = Append(@, 65535), !.e = Append(@, 65535), !.d = Append(@, 1), !.o = Append(@, 0)]

\* one segment: delta form or array form
DeltaSegs == {[s |-> a, e |-> b, d |-> (g - a) % 65536] : <<a, b, g>> \in
                {x \in (1..MaxCode) \X (1..MaxCode) \X Glyphs : x[1] <= x[2] /\ x[3] + (x[2] - x[1]) < N}}
ArrSegs == {[s |-> a, e |-> a + 1, v |-> w] : <<a, w>> \in (1..(MaxCode-1)) \X {<<x, y>> : x \in Gl, y \in Gl}}

One4 == {Term([f |-> 4, s |-> <<x.s>>, e |-> <<x.e>>, d |-> <<x.d>>, o |-> <<0>>, a |-> <<>>]) : x \in DeltaSegs}
     \cup {Term([f |-> 4, s |-> <<x.s>>, e |-> <<x.e>>, d |-> <<0>>, o |-> <<4>>, a |-> x.v]) : x \in ArrSegs}
     \cup {Term([f |-> 4, s |-> <<x.s>>, e |-> <<x.e>>, d |-> <<65535>>, o |-> <<4>>, a |-> x.v]) :
              x \in {y \in ArrSegs : \A i \in 1..2 : y.v[i] < N}}
\* two segments, the second an array, the first a delta (or the other way round)
Two4 == {Term([f |-> 4, s |-> <<x.s, y.s>>, e |-> <<x.e, y.e>>, d |-> <<x.d, 0>>, o |-> <<0, 4>>, a |-> y.v]) :
           <<x, y>> \in {p \in DeltaSegs \X ArrSegs : p[1].e < p[2].s}}
     \cup {Term([f |-> 4, s |-> <<y.s, x.s>>, e |-> <<y.e, x.e>>, d |-> <<0, x.d>>, o |-> <<6, 0>>, a |-> y.v]) :
           <<x, y>> \in {p \in DeltaSegs \X ArrSegs : p[2].e < p[1].s}}
Six == {[f |-> 6, s |-> a, a |-> v] : a \in 0..2, v \in {<<>>} \cup {<<x>> : x \in Gl} \cup {<<x, y>> : x \in Gl, y \in Gl}}
Twelve == {[f |-> 12, g |-> << <<x.s, x.e, (x.d + x.s) % 65536>> >>] : x \in DeltaSegs}
       \cup {[f |-> 12, g |-> << <<1, 1, g>>, <<2, 2, h>> >>] : g \in Gl, h \in Gl}

Menu(k) == IF k = 0 THEN One4 \cup Two4 \cup Six \cup Twelve
           ELSE IF Rich THEN One4 \cup Six \cup Twelve ELSE Six \cup {t \in One4 : Len(t.a) > 0 /\ t.s[1] = 2}

VARIABLE subs
Init == subs = <<>>
Next == /\ Len(subs) < MaxSubs
        /\ \E t \in Menu(Len(subs)) : subs' = Append(subs, t)
Spec == Init /\ [][Next]_subs

Lookups == Inverts(subs, Glyphs) /\ Reported(subs, Glyphs) /\ Stable(subs)
InRange == \A c \in AllCodes(subs) : Lookup(subs, c) \in 0..65535

Export == subs = <<>> \/ PrintT("PLAN " \o ToJson([n |-> N, subs |-> subs]))
=============================================================================
