---------------------------- MODULE MC_GlyfComp ----------------------------
(***************************************************************************)
(* Composite glyphs: fonts in which each glyph refers to earlier ones (or, *)
(* to provoke cycles, to itself or later ones), with offsets as bytes or   *)
(* words and all forms of transformation.                                  *)
(***************************************************************************)
EXTENDS Glyf, TLC, Json

CONSTANTS MaxGlyphs, Rich, Export

P(dx, dy, on) == [dx |-> dx, dy |-> dy, hx |-> "long", hy |-> "long", on |-> on]
Tri  == EncodeSimple(<<P(0, 0, TRUE), P(100, 0, TRUE), P(0, 64, FALSE)>>, <<2>>, <<0, 0, 100, 64>>, <<>>, FALSE)
Oval == EncodeSimple(<<P(-10, 3, FALSE), P(50, 0, FALSE), P(0, 41, FALSE), P(-50, 0, FALSE)>>, <<3>>, <<-10, 3, 40, 44>>, <<1>>, FALSE)

\* component records: flags without MORE_COMPONENTS, the glyph, the rest
Comp(fl, g, args) == [fl |-> fl, g |-> g, args |-> args]
Forms(g) == { Comp(3, g, Byte2(20) \o Byte2(-300)),                       \* words
              Comp(2, g, <<5, 251>>),                                     \* bytes
              Comp(10, g, <<3, 4>> \o Byte2(8192)),                       \* scale 0.5
              Comp(66, g, <<0, 0>> \o Byte2(16384) \o Byte2(-16384)),     \* flipped
              Comp(131, g, Byte2(7) \o Byte2(9) \o Byte2(0) \o Byte2(16384) \o Byte2(-16384) \o Byte2(0)) }   \* turned
         \cup (IF Rich THEN { Comp(130, g, <<1, 2>> \o Byte2(12345) \o Byte2(-3000) \o Byte2(777) \o Byte2(20000)), Comp(0, g, <<1, 0>>),
                              Comp(514, g, <<1, 1>>), Comp(1030, g, <<2, 2>>) } ELSE {})
Rec(c, more) == Byte2(c.fl + (IF more THEN 32 ELSE 0)) \o Byte2(c.g) \o c.args
Glyph(cs) == Byte2(-1) \o Byte2(-1) \o Byte2(-2) \o Byte2(300) \o Byte2(400) \o FlattenSeq([i \in 1..Len(cs) |-> Rec(cs[i], i < Len(cs))])

VARIABLE glyphs
Init == glyphs = <<<<>>, Tri, Oval>>
Refs == IF Rich THEN 0..(Len(glyphs) + 1) ELSE 1..(Len(glyphs))
Next == /\ Len(glyphs) < MaxGlyphs
        /\ \/ \E r \in Refs : \E c \in Forms(r) : glyphs' = Append(glyphs, Glyph(<<c>>))
           \/ \E r \in Refs : \E c \in Forms(1) : \E d \in Forms(r) : (Rich \/ d.fl \in {2, 131}) /\ glyphs' = Append(glyphs, Glyph(<<c, d>>))
Spec == Init /\ [][Next]_glyphs

RECURSIVE Offsets(_, _)
Offsets(gs, acc) == IF gs = <<>> THEN acc ELSE Offsets(Tail(gs), Append(acc, acc[Len(acc)] + Len(Head(gs))))
Font == [n |-> Len(glyphs), loca |-> Offsets(glyphs, <<0>>), glyf |-> FlattenSeq(glyphs)]

\* decoding ends on every font, and a glyph that can be drawn has the contours of its components
RECURSIVE Contours(_, _)
Contours(f, g) == LET b == GlyphData(f, g).b IN IF b = <<>> THEN 0 ELSE I16(b, 0)
Total == \A g \in 0..(Font.n - 1) :
           LET D == Decode(Font, g, 0)
           IN /\ D.st \in {"ok", "bad", "unsettled"}
              /\ (D.st = "ok" /\ g \notin D.deps) =>
                    Len(D.ends) >= (IF D.deps = {} THEN Contours(Font, g) ELSE 0)
              /\ D.st = "ok" => g \notin D.deps             \* a glyph that contains itself is never drawn
              /\ D.st = "ok" => \A d \in D.deps : Decode(Font, d, 0).st = "ok"
Plans == (Export /\ Len(glyphs) = MaxGlyphs) => PrintT("PLAN " \o ToJson([glyphs |-> glyphs]))
=============================================================================
