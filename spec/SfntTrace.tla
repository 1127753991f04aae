----------------------------- MODULE SfntTrace -----------------------------
(* Events: "open" a file (b, index, emb; sound says that all tables are),  *)
(* with the exposed tables; "write" a font object with tables into b.      *)
EXTENDS Sfnt, Trace

vars == tvars

OpenDiff(e) ==
  LET o == Open(e.b, e.index, e.emb)
  IN CASE o.st = "bad" -> Fail(e.err = "", "a file with a bad directory is accepted")
       [] o.st = "ok" /\ e.sound /\ e.err # "" -> {"a sound file is refused: " \o e.err}
       [] o.st = "ok" /\ e.err = "" ->
            Fail({o.dir[i].tag : i \in 1..Len(o.dir)} # {e.tables[i].tag : i \in 1..Len(e.tables)} \/ Len(o.dir) # Len(e.tables), "tables")
            \cup Fail(\E i \in 1..Len(o.dir) : \A j \in 1..Len(e.tables) : e.tables[j].tag = o.dir[i].tag => e.tables[j].data # Content(e.b, o.dir[i]), "contents of a table")
            \cup Fail(e.tt # (o.ver \in TrueTypes) \/ e.cff # (o.ver = T("OTTO")), "kind of font")
       [] OTHER -> {}

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "open" -> IF Focus("C01") THEN OpenDiff(e) ELSE {}
    [] e.op = "write" -> IF Focus("C02") THEN Wrong(e.b, e.tables, e.tt) ELSE {}

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
