----------------------------- MODULE MC_FontLib -----------------------------
(***************************************************************************)
(* Histories of operations on small fonts.  The state is a heap of fonts   *)
(* as they are stored: glyphs with their own data and component indices,   *)
(* character and kerning tables holding glyph indices.  The actions are    *)
(* the algorithms (collect components breadth first and renumber them,     *)
(* append and shift), and the invariants say that what they store, drawn   *)
(* and looked up by following the indices, is what module FontLib requires *)
(* of the operations, and that every answer can be traced to the font that *)
(* was loaded.  Every history is exported as a plan.                       *)
(***************************************************************************)
EXTENDS FontLib, TLC, Json

CONSTANTS MaxHeap, MaxOps, Wide, Export

\* component structures of the two fonts: glyph 1.. of a font of four glyphs
Shapes == { << <<>>, <<>>, <<>>, <<>> >>,
            << <<>>, <<>>, <<1>>, <<2>> >>,
            << <<>>, <<3>>, <<>>, <<>> >>,
            << <<>>, <<>>, <<1, 1>>, <<2, 1>> >>,
            << <<>>, <<2, 3>>, <<>>, <<2>> >> }
Pools == IF Wide THEN Shapes \X {<< <<>>, <<>>, <<1>> >>, << <<>>, <<2>>, <<>> >>}
         ELSE {<< << <<>>, <<>>, <<1>>, <<2, 1>> >>, << <<>>, <<2>>, <<>> >> >>}

VARIABLES pool, heap, ops, last
vars == <<pool, heap, ops, last>>

N(b) == Len(pool[b])
\* the fonts that can be loaded: every glyph knows where it comes from
Stored(b) == [n |-> N(b),
              g |-> [i \in 1..N(b) |-> [o |-> <<b, i - 1>>, c |-> pool[b][i], e |-> FALSE]],
              cm |-> {<<10 * b + i, i>> : i \in 1..(N(b) - 1)},
              kn |-> {<<i, j, 100 * b + 10 * i + j>> : <<i, j>> \in {x \in (0..(N(b) - 1)) \X (0..(N(b) - 1)) : (x[1] + x[2]) % 2 = 1}},
              nm |-> [i \in 1..N(b) |-> <<b, i - 1>>],
              tabs |-> {"cmap", "glyf", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "post"}]

-----------------------------------------------------------------------------
(* What is drawn and answered by a stored font                              *)
RECURSIVE Draw(_, _, _)
Draw(f, i, d) == LET x == f.g[i + 1] IN IF x.e THEN <<>> ELSE <<x.o>> \o (IF d = 0 THEN <<>> ELSE FlattenSeq([k \in 1..Len(x.c) |-> Draw(f, x.c[k], d - 1)]))

\* the view of module FontLib
View(f) == [k |-> "tt", n |-> f.n, dense |-> TRUE, ids |-> [i \in 1..f.n |-> i - 1],
            g |-> [i \in 1..f.n |-> [p |-> Draw(f, i - 1, 5), c |-> IF f.g[i].e THEN <<>> ELSE f.g[i].c, m |-> f.nm[i]]],
            cm |-> SetToSeq(f.cm), kern |-> SetToSeq(f.kn), tabs |-> SetToSeq(f.tabs), meta |-> [maxp |-> <<>>]]

-----------------------------------------------------------------------------
(* The algorithms                                                           *)
RECURSIVE Collect(_, _, _)
Collect(f, list, i) ==
  IF i > Len(list) THEN list
  ELSE LET cs == IF list[i] = 0 THEN <<>> ELSE f.g[list[i] + 1].c
           add == SelectSeq(cs, LAMBDA c : c \notin Img(list))
           once == IF Len(add) = 2 /\ add[1] = add[2] THEN <<add[1]>> ELSE add
       IN Collect(f, list \o once, i + 1)

Pos(list, x) == (CHOOSE k \in 1..Len(list) : list[k] = x /\ \A j \in 1..(k - 1) : list[j] # x) - 1

DoSubset(f, gids, keep) ==
  LET M == Collect(f, gids, 1)
      K == KeptTabs(View(f), keep)
  IN [n |-> Len(M),
      g |-> [i \in 1..Len(M) |-> [o |-> f.g[M[i] + 1].o, e |-> M[i] = 0 \/ f.g[M[i] + 1].e,
                                  c |-> IF M[i] = 0 THEN <<>> ELSE [k \in 1..Len(f.g[M[i] + 1].c) |-> Pos(M, f.g[M[i] + 1].c[k])]]],
      cm |-> IF "cmap" \in K THEN {<<x[1], Pos(M, x[2])>> : x \in {y \in f.cm : y[2] # 0 /\ y[2] \in Img(M)}} ELSE {},
      kn |-> IF "kern" \in K THEN {<<Pos(M, x[1]), Pos(M, x[2]), x[3]>> : x \in {y \in f.kn : y[1] # 0 /\ y[2] # 0 /\ y[1] \in Img(M) /\ y[2] \in Img(M)}} ELSE {},
      nm |-> [i \in 1..Len(M) |-> f.g[M[i] + 1].o],     \* names are not kept for TrueType; the origin stands for "any"
      tabs |-> K]

DoMerge(a, b, re) ==
  [n |-> a.n + b.n - 1,
   g |-> a.g \o [i \in 1..(b.n - 1) |-> [b.g[i + 1] EXCEPT !.c = [k \in 1..Len(@) |-> IF @[k] = 0 THEN 0 ELSE a.n + @[k] - 1]]],
   cm |-> IF "cmap" \notin a.tabs THEN {}
          ELSE IF re THEN {<<g + 32, g>> : g \in 1..(a.n + b.n - 2)}
          ELSE a.cm \cup {<<x[1], a.n + x[2] - 1>> : x \in b.cm},
   kn |-> {x \in a.kn : x[1] # 0 /\ x[2] # 0} \cup {<<a.n + x[1] - 1, a.n + x[2] - 1, x[3]>> : x \in {y \in b.kn : y[1] # 0 /\ y[2] # 0}},
   nm |-> a.nm \o Tail(b.nm),
   tabs |-> a.tabs \cup (IF "kern" \in b.tabs THEN {"kern"} ELSE {})]

-----------------------------------------------------------------------------
Gids(f) == {<<0>>} \cup {<<0, x>> : x \in 1..(f.n - 1)} \cup {<<0, x[1], x[2]>> : x \in {y \in (1..(f.n - 1)) \X (1..(f.n - 1)) : y[1] # y[2] /\ (Wide \/ y[1] > y[2])}}
Keeps == {<<"all">>, <<"min">>} \cup (IF Wide THEN {<<"pdf">>} ELSE {})

Op(r) == ops' = Append(ops, r)
Set(o, f) == heap' = [heap EXCEPT ![o] = f]
New(f) == heap' = Append(heap, f)

Load == /\ Len(heap) < MaxHeap
        /\ \E b \in 1..Len(pool) :
             /\ \A k \in 1..Len(ops) : ops[k].op # "load" => b # 2       \* the second font is loaded at the start
             /\ New(Stored(b)) /\ Op([op |-> "load", b |-> b - 1]) /\ last' = [op |-> "load", o |-> Len(heap) + 1]
Subset == \E o \in 1..Len(heap) : \E gids \in Gids(heap[o]) : \E keep \in Keeps :
            /\ Len(heap) < MaxHeap
            /\ New(DoSubset(heap[o], gids, keep)) /\ Op([op |-> "subset", o |-> o, gids |-> gids, keep |-> keep])
            /\ last' = [op |-> "subset", o |-> o, gids |-> gids, keep |-> keep, was |-> heap[o]]
Merge == \E o, b \in 1..Len(heap) : \E re \in BOOLEAN :
            /\ o # b
            /\ Op([op |-> "merge", o |-> o, b |-> b, re |-> re])
            /\ LET fails == MergeFails(View(heap[o]), View(heap[b]), re)
                   got == IF fails \/ heap[b].n < 2 THEN heap[o] ELSE DoMerge(heap[o], heap[b], re)
               IN Set(o, got) /\ last' = [op |-> "merge", o |-> o, b |-> b, re |-> re, fails |-> fails, was |-> heap[o]]
Rename == \E o \in 1..Len(heap) :
            /\ "post" \in heap[o].tabs
            /\ Set(o, [heap[o] EXCEPT !.nm = [i \in 1..heap[o].n |-> <<9, i>>]])
            /\ Op([op |-> "rename", o |-> o, nm |-> 0]) /\ last' = [op |-> "rename", o |-> o]
Copy == \E o \in 1..Len(heap) : \E w \in {"reparse", "woff2"} :
            /\ Len(heap) < MaxHeap
            /\ New(heap[o]) /\ Op([op |-> w, o |-> o]) /\ last' = [op |-> w, o |-> o]
Query == \E o \in 1..Len(heap) : Op([op |-> "query", o |-> o]) /\ last' = [op |-> "query", o |-> o] /\ UNCHANGED heap

Init == /\ pool \in Pools
        /\ heap = <<Stored(1)>> /\ ops = <<[op |-> "load", b |-> 0]>> /\ last = [op |-> "load", o |-> 1]
Next == /\ Len(ops) < MaxOps
        /\ (Load \/ Subset \/ Merge \/ Rename \/ Copy \/ (Wide /\ Query))
        /\ UNCHANGED pool
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What is stored is what FontLib requires                                  *)
SubsetOK ==
  last.op = "subset" =>
    LET f == View(last.was)
        got == View(heap[Len(heap)])
        M == Observed(f, last.gids, got)
        K == KeptTabs(f, last.keep)
    IN /\ IsSelection(f, last.gids, M)
       /\ \A i \in 1..got.n : got.g[i].p = (IF M[i] = 0 THEN <<>> ELSE At(f, M[i]).p)
       /\ {c[1] : c \in Img(got.cm)} = {c[1] : c \in SubChars(f, M, K)}
       /\ \A c \in Img(got.cm) : \E d \in Img(f.cm) : d[1] = c[1] /\ d[2] = M[c[2] + 1]
       /\ Img(got.kern) = SubKern(f, M, K)
       /\ Img(got.tabs) = K

MergeOK ==
  last.op = "merge" =>
    LET a == View(last.was)
        b == View(heap[last.b])
        got == View(heap[last.o])
    IN IF last.fails THEN heap[last.o] = last.was
       ELSE /\ got.n = MergedN(a, b)
            /\ \A i \in 0..(a.n - 1) : At(got, i).p = At(a, i).p /\ At(got, i).c = At(a, i).c
            /\ b.n >= 2 => /\ \A i \in 1..(b.n - 1) : At(got, a.n + i - 1).p = At(b, i).p /\ At(got, a.n + i - 1).c = MergedGlyph(a, b, i).c
                           /\ Img(got.cm) = MergedChars(a, b, last.re, got.n)
                           /\ Img(got.kern) = MergedKern(a, b)

(* Every answer of every font on the heap comes from the fonts loaded       *)
RECURSIVE Origin(_, _)
Origin(b, i) == <<<<b, i>>>> \o FlattenSeq([k \in 1..Len(pool[b][i + 1]) |-> Origin(b, pool[b][i + 1][k])])
Traced ==
  \A o \in 1..Len(heap) :
    LET f == heap[o] IN
    /\ \A i \in 0..(f.n - 1) : Draw(f, i, 5) = (IF f.g[i + 1].e THEN <<>> ELSE Origin(f.g[i + 1].o[1], f.g[i + 1].o[2]))
    /\ \A i \in 1..f.n : \A k \in 1..Len(f.g[i].c) : f.g[i].c[k] \in 0..(f.n - 1)
    /\ \A c \in f.cm : c[2] \in 1..(f.n - 1)
    /\ \A c, d \in f.cm : c[1] = d[1] => c = d
    /\ (\A k \in 1..Len(ops) : ops[k].op # "merge" \/ ~ops[k].re) =>
         \A c \in f.cm : LET x == f.g[c[2] + 1].o IN c[1] = 10 * x[1] + x[2]
    /\ \A x \in f.kn : x[1] # 0 /\ x[2] # 0 =>
         LET l == f.g[x[1] + 1].o
             r == f.g[x[2] + 1].o
         IN l[1] = r[1] /\ x[3] = 100 * l[1] + 10 * l[2] + r[2]

\* plans are the histories that cannot be extended
Plans == (Export /\ Len(ops) = MaxOps) => PrintT("PLAN " \o ToJson([ops |-> ops, comps |-> pool]))
=============================================================================
