-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Goroutines calling one font.  A font is a value that never changes, and *)
(* some cells that the first call that needs them builds, once: the        *)
(* characters of every glyph ("rev"), the glyphs of every name ("post").   *)
(* A call reads the cells it needs one after the other and then returns    *)
(* what it has read; it has to return what it returns alone.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"plain", "rev", "find", "subset", "write"}
Cells == {"rev", "post"}
Needs(k) == CASE k = "rev" -> <<"rev">> [] k = "find" -> <<"post">> [] k = "subset" -> <<"rev", "post">> [] k = "write" -> <<"post">> [] OTHER -> <<>>
\* what a call returns when nobody else is there: every cell it needs, whole
Alone(k) == [i \in 1..Len(Needs(k)) |-> "whole"]

\* A run: th, by goroutine the calls it makes; the results by goroutine and call
Agree(th, res, solo) == \A t \in 1..Len(th) : Len(res[t]) = Len(th[t]) /\ \A i \in 1..Len(th[t]) : res[t][i] = solo[th[t][i]]
=============================================================================
