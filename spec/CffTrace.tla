------------------------------ MODULE CffTrace ------------------------------
(* Compares what the library exposes of a CFF table with module Cff.       *)
(* Events: "cff" with the bytes of the table, the names of the glyphs, the *)
(* values of the top dictionary and of the private dictionary of some      *)
(* glyphs; "written" with the bytes of the table of a subset that has all  *)
(* glyphs.                                                                 *)
EXTENDS Cff, Trace

VARIABLE font
vars == <<tvars, font>>

OfCid == {1030, 1031, 1032, 1033, 1034, 1035, 1038}

Read(e) ==
  LET F == Cff(e.b) IN
  CASE F.st = "bad" -> IF Focus("C24") \/ Focus("C17") THEN Fail(e.err = "", "a malformed CFF table is accepted") ELSE {}
    [] F.st = "unsettled" -> {}
    [] F.st = "ok" /\ F.n # e.n -> {}
    [] e.err # "" -> {"a sound CFF table is refused: " \o e.err}
    [] OTHER ->
       (IF ~Focus("C17") THEN {} ELSE
          Fail(~F.cid /\ (Len(e.names) # F.n \/ \E i \in 1..F.n : F.names[i] # NoStr /\ e.names[i] # F.names[i]), "glyph names")
          \cup Fail(~F.cid /\ \E i \in 1..Len(e.find) : LET nm == e.find[i][1]
                                                          H == {g \in 1..F.n : F.names[g] = nm}
                                                      IN nm # <<>> /\ (\A g \in 1..F.n : F.names[g] # NoStr) /\ (IF H = {} THEN e.find[i][2] # 0 ELSE (e.find[i][2] + 1) \notin H), "glyph of a name"))
       \cup (IF ~Focus("C24") THEN {} ELSE
          {"CFF dictionary: operator " \o ToString(x) : x \in StrsDiffer(F, e.top, {}) \cup DictDiffers(F.top, e.top, {})}
          \cup {"private dictionary: operator " \o ToString(x) : x \in UNION {DictDiffers(F.privs[F.fd[e.priv[i][1] + 1]].d, e.priv[i][2], {}) : i \in 1..Len(e.priv)}})

\* an entry of the second table as one would observe it
Seen(d) ==
  [num |-> SetToSeq({<<op, NumsOf(d, op, NumDefault(op))>> : op \in Nums \cup NumLists \cup {5, 1007}}),
   int |-> SetToSeq({<<op, IF op \in IntLists THEN IntsOf(d, op) ELSE <<IntOf(d, op, IntDefault(op))>> >> : op \in (Ints \cup IntLists) \ Positions})]

\* charstrings that are right in themselves
Plain(c) == c = <<14>> \/ (Len(c) = 2 /\ c[1] \in 32..246 /\ c[2] = 14) \/ (Len(c) = 3 /\ c[1] \in 247..254 /\ c[3] = 14)

Written(e) ==
  IF font.st # "ok" \/ Len(font.privs) # 1 THEN {}       \* several dictionaries cannot be written
  ELSE IF e.err # "" /\ \E i \in 1..font.n : ~Plain(font.cs[i]) THEN {}
  ELSE IF e.err # "" THEN {"no subset: " \o e.err}
  ELSE
    LET W == Cff(e.b) IN
    IF W.st # "ok" THEN {"the written CFF table is malformed"}
    ELSE IF W.n # font.n THEN {"number of glyphs of the written CFF table"}
    ELSE Fail(~font.cid /\ \E i \in 1..W.n : font.names[i] # NoStr /\ W.names[i] # font.names[i], "names in the written CFF table")
         \cup (IF ~Focus("C24") THEN {} ELSE
                 {"written CFF dictionary: operator " \o ToString(x) :
                    x \in {y \in Strs \ {1038} : StrOf(font, y) # NoStr /\ StrOf(W, y) # StrOf(font, y)} \cup DictDiffers(W.top, Seen(font.top), Positions \cup OfCid)}
                 \cup {"written private dictionary: operator " \o ToString(x) : x \in DictDiffers(W.privs[1].d, Seen(font.privs[1].d), {19})})

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "cff" -> Read(e)
    [] e.op = "written" -> Written(e)

Init == TraceInit /\ font = NoFont("bad")
Next == StepWith(Check) /\ font' = IF Cur.op = "cff" THEN (IF Cur.err = "" THEN LET F == Cff(Cur.b) IN IF F.st = "ok" /\ F.n # Cur.n THEN NoFont("unsettled") ELSE F ELSE NoFont("bad")) ELSE font
Spec == Init /\ [][Next]_vars
=============================================================================
