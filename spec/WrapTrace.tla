----------------------------- MODULE WrapTrace -----------------------------
(* Events: "woff" and "eot": a file b decoded to out; "media": what a file *)
(* is taken for; "conv": the conversion function and reader on b against   *)
(* the decoder of its format; "font": the tables of a wrapped font against *)
(* those of the bare font.                                                 *)
EXTENDS Wrap, Trace

vars == tvars

WoffDiff(e) ==
  LET w == Woff(e.b, e.z)
  IN CASE w.st = "bad" -> Fail(e.err = "", "a bad WOFF file is accepted")
       [] e.err # "" -> Fail(w.st = "ok", "a sound WOFF file is refused: " \o e.err)
       [] OTHER -> WoffWrong(w, e.out)
EotDiff(e) ==
  LET w == Eot(e.b)
  IN CASE w.st = "bad" -> Fail(e.err = "", "a bad EOT file is accepted")
       [] e.err # "" -> Fail(w.st = "ok", "a sound EOT file is refused: " \o e.err)
       [] OTHER -> Fail(e.out # w.data, "font in an EOT file")

Check(e) ==
  CASE e.op = "crash" -> {"crash"}
    [] e.panic # "" -> {"panic: " \o e.panic}
    [] e.op = "woff" -> WoffDiff(e) \cup Fail(~e.kept, "the caller's bytes are changed")
    [] e.op = "eot" -> EotDiff(e) \cup Fail(~e.kept, "the caller's bytes are changed")
    [] e.op = "media" -> Fail(e.media # Media(e.b) \/ (e.merr # "") # (Media(e.b) = ""), "media type") \cup Fail(e.ext # Ext(Media(e.b)), "extension")
    [] e.op = "conv" ->
         LET m == Media(e.b)
             bare == m \in {"font/truetype", "font/opentype"}
         IN Fail(m = "" /\ (e.err = "" \/ e.rerr = ""), "an unknown format is accepted")
            \cup Fail(bare /\ ~(e.err = "" /\ e.same), "a bare font is changed")
            \cup Fail(m # "" /\ ~bare /\ (e.err = "") # (e.derr = ""), "conversion and decoder disagree")
            \cup Fail(m # "" /\ ~bare /\ e.err = "" /\ ~e.dsame, "conversion and decoder differ")
            \cup Fail((e.err = "") # (e.rerr = "") \/ ~e.rsame, "conversion and reader differ")
    [] e.op = "font" -> Fail(e.err # "", "the wrapped font is refused: " \o e.err) \cup Fail(e.err = "" /\ ~SameTables(e.bare, e.wrapped), "tables of the wrapped font")

Init == TraceInit
Next == StepWith(Check)
Spec == Init /\ [][Next]_vars
=============================================================================
