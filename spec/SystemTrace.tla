----------------------------- MODULE SystemTrace ---------------------------
(* Events: "style" a style name, "css" a CSS weight, "string" the name of a *)
(* style; "gen" sets the generic lists, "add" installs a font, "find" a     *)
(* search of directories, "load" a list saved and loaded; "match" a query;  *)
(* "where" the directories of an environment.                               *)
EXTENDS System, Trace

VARIABLES fonts, gen
vars == <<sid, pos, diff, fonts, gen>>

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "style" -> Fail(Focus("C20") /\ e.got \notin StyleName(e.s), "style of a name")
    [] e.op = "css" -> Fail(Focus("C20") /\ e.got \notin Css(e.w, e.it), "style of a CSS weight")
    [] e.op = "string" -> Fail(Focus("C20") /\ (e.st \in Styles) /\ ~(Readings(e.s) = {e.st} /\ e.weight = WeightOf(e.st) /\ e.it = (SlantOf(e.st) # 0)), "name of a style")
    [] e.op \in {"gen", "add"} -> {}
    [] e.op = "where" -> IF ~Focus("C25") THEN {}
                         ELSE LET want == FontDirs(e.home, e.dataHome, e.dataDirs)
                              IN Fail(want \ ToSet(e.got) # {}, "a directory is not searched") \cup Fail(ToSet(e.got) \ want # {}, "another directory is searched")
    [] e.op = "find" -> IF ~Focus("C25") THEN {} ELSE IF e.err # "" THEN {"the search fails: " \o e.err} ELSE FoundWrong(e.files, e.dirs, e.found)
    [] e.op = "load" -> Fail(Focus("C25") /\ (e.err # "" \/ ~e.same), "a saved list differs when loaded")
    [] e.op = "match" ->
         LET m == Matched(fonts, gen, e.name, e.st)
         IN IF e.st \notin Styles \/ Nested(gen) THEN {}
            ELSE Fail(e.found # (m # <<>>), "whether a font matches") \cup Fail(e.found /\ m # <<>> /\ (e.fam # m[1].fam \/ e.got # m[1].st \/ e.file # m[1].file), "matched font")

Init == TraceInit /\ fonts = <<>> /\ gen = <<>>
Next == /\ More
        /\ LET d == Check(Cur) IN diff' = d /\ Report(d)
        /\ pos' = pos + 1 /\ UNCHANGED sid
        /\ gen' = IF Cur.op = "gen" THEN Cur.gen ELSE gen
        /\ fonts' = CASE Cur.op = "add" -> Append(fonts, [fam |-> Cur.fam, st |-> Cur.st, file |-> Cur.file])
                      [] Cur.op = "find" -> Cur.found
                      [] OTHER -> fonts
Spec == Init /\ [][Next]_vars
=============================================================================
