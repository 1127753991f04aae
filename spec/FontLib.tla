------------------------------ MODULE FontLib ------------------------------
(***************************************************************************)
(* Font objects and the operations on them, as their users observe them.   *)
(* A font is a record (what all queries answer):                           *)
(*   k "tt"/"cff"; n glyph count; ids the observed glyphs (dense: all);    *)
(*   g per observed glyph: p path, b bounds, a advance, l left side        *)
(*     bearing, v vertical advance, t top side bearing, m name,            *)
(*     i instructions, c direct components;                                *)
(*   cm: pairs <<character, glyph>> among the observed characters;         *)
(*   uni: per observed glyph the characters reported for it;               *)
(*   kern: triples <<left, right, value>> with value # 0;                  *)
(*   tabs: table tags; tok: per tag a digest of the table;                 *)
(*   vm: ascender, descender, line gap; upem; meta: font-wide values.      *)
(* Operations are functions from fonts to the font that must result;       *)
(* MC_FontLib explores their histories, FontLibTrace compares them with    *)
(* what the library did.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Img(s) == {s[i] : i \in 1..Len(s)}

At(f, id)    == IF f.dense THEN f.g[id + 1] ELSE f.g[CHOOSE k \in 1..Len(f.ids) : f.ids[k] = id]
UniOf(f, id) == IF f.dense THEN f.uni[id + 1] ELSE f.uni[CHOOSE k \in 1..Len(f.ids) : f.ids[k] = id]
Has(f, id)   == IF f.dense THEN id < f.n ELSE id \in Img(f.ids)
HasTab(f, t) == t \in Img(f.tabs)
Vertical(f)  == HasTab(f, "vhea") /\ HasTab(f, "vmtx")

MaxOf(a, b) == IF a < b THEN b ELSE a
MinOf(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Selection: which old glyph each glyph of a subset is.  The requested     *)
(* glyphs come first and in order; what follows are the components they     *)
(* need, each once, in any order.                                           *)
RECURSIVE Need(_, _, _)
Need(f, todo, done) ==   \* transitive components of a set of glyphs
  IF todo = {} THEN done
  ELSE LET next == UNION {Img(At(f, g).c) : g \in todo \ {0}}
       IN Need(f, next \ done, done \cup next)
Components(f, gids) == Need(f, Img(gids), Img(gids)) \ Img(gids)

IsSelection(f, gids, M) ==
  /\ Len(M) = Len(gids) + Cardinality(Components(f, gids))
  /\ \A i \in 1..Len(gids) : M[i] = gids[i]
  /\ {M[i] : i \in (Len(gids) + 1)..Len(M)} = Components(f, gids)

\* the selection a result shows, as a set of pairs <<new, old>>, found through the components
RECURSIVE Follow(_, _, _, _)
Follow(f, got, todo, done) ==
  IF todo = {} THEN done
  ELSE LET More(p) == LET cn == got.g[p[1] + 1].c
                          co == IF p[2] = 0 \/ ~Has(f, p[2]) THEN <<>> ELSE At(f, p[2]).c
                      IN {<<cn[k], co[k]>> : k \in 1..(IF Len(cn) < Len(co) THEN Len(cn) ELSE Len(co))}
           next == {p \in UNION {More(q) : q \in todo} : p[1] \in 0..(got.n - 1)}
       IN Follow(f, got, next \ done, done \cup next)
Observed(f, gids, got) ==
  LET S0 == {<<i - 1, gids[i]>> : i \in {j \in 1..Len(gids) : j <= got.n}}
      S == Follow(f, got, S0, S0)
  IN [i \in 1..got.n |-> LET os == {p[2] : p \in {q \in S : q[1] = i - 1}} IN IF Cardinality(os) = 1 THEN CHOOSE o \in os : TRUE ELSE -1]

Positions(M, o) == {i - 1 : i \in {j \in 1..Len(M) : M[j] = o}}

-----------------------------------------------------------------------------
(* Subset                                                                   *)
MinTabs == {"DSIG", "cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post"}
PdfTT   == {"DSIG", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "cvt ", "fpgm", "prep"}
PdfCFF  == {"DSIG", "cmap", "CFF ", "head", "hhea", "hmtx", "maxp"}
OutlineTabs(f) == IF f.k = "tt" THEN {"glyf", "loca"} ELSE {"CFF "}

Requested(f, keep) ==
  CASE keep = <<"all">> -> Img(f.tabs)
    [] keep = <<"min">> -> MinTabs \cup OutlineTabs(f)
    [] keep = <<"pdf">> -> IF f.k = "tt" THEN PdfTT ELSE PdfCFF
    [] OTHER -> Img(keep)

KeptTabs(f, keep) == Requested(f, keep) \cap Img(f.tabs)

EmptyPath == ""

\* glyph 0 is emptied, which shows in the glyphs that use it as a component
UsesZero(f, o) == 0 \in UNION {Img(At(f, g).c) : g \in Need(f, {o}, {o})}

\* glyph o of f as it appears in a subset with the tables K
SubGlyph(f, o, K) ==
  LET x == At(f, o)
      vert == {"vhea", "vmtx"} \subseteq K
  IN [p |-> IF o = 0 THEN EmptyPath ELSE x.p,
      b |-> IF o = 0 THEN <<0, 0, 0, 0>> ELSE x.b,
      a |-> x.a, l |-> x.l,
      v |-> IF vert THEN x.v ELSE f.upem,
      t |-> IF vert THEN x.t ELSE 0,
      m |-> IF f.k = "cff" THEN x.m ELSE "",
      i |-> IF o = 0 THEN "" ELSE x.i]

\* the characters of a subset: each with the positions it may map to (several if a glyph was asked for twice)
SubChars(f, M, K) == IF "cmap" \in K THEN {c \in Img(f.cm) : Positions(M, c[2]) \ {0} # {}} ELSE {}

\* Unicode ranges of OS/2: bit, first and last character of each block that the format numbers ...
Blocks == {
  <<0, 0, 127>>, <<1, 128, 255>>, <<2, 256, 383>>, <<3, 384, 591>>, <<4, 592, 687>>, <<5, 688, 767>>, <<6, 768, 879>>, <<7, 880, 1023>>,
  <<8, 11392, 11519>>, <<9, 1024, 1279>>, <<10, 1328, 1423>>, <<11, 1424, 1535>>, <<12, 42240, 42559>>, <<13, 1536, 1791>>, <<14, 1984, 2047>>,
  <<15, 2304, 2431>>, <<16, 2432, 2559>>, <<17, 2560, 2687>>, <<18, 2688, 2815>>, <<19, 2816, 2943>>, <<20, 2944, 3071>>, <<21, 3072, 3199>>,
  <<22, 3200, 3327>>, <<23, 3328, 3455>>, <<24, 3584, 3711>>, <<25, 3712, 3839>>, <<26, 4256, 4351>>, <<27, 6912, 7039>>, <<28, 4352, 4607>>,
  <<29, 7680, 7935>>, <<30, 7936, 8191>>, <<31, 8192, 8303>>, <<32, 8304, 8351>>, <<33, 8352, 8399>>, <<34, 8400, 8447>>, <<35, 8448, 8527>>,
  <<36, 8528, 8591>>, <<37, 8592, 8703>>, <<38, 8704, 8959>>, <<39, 8960, 9215>>, <<40, 9216, 9279>>, <<41, 9280, 9311>>, <<42, 9312, 9471>>,
  <<43, 9472, 9599>>, <<44, 9600, 9631>>, <<45, 9632, 9727>>, <<46, 9728, 9983>>, <<47, 9984, 10175>>, <<48, 12288, 12351>>, <<49, 12352, 12447>>,
  <<50, 12448, 12543>>, <<51, 12544, 12591>>, <<52, 12592, 12687>>, <<53, 43072, 43135>>, <<54, 12800, 13055>>, <<55, 13056, 13311>>,
  <<56, 44032, 55203>>, <<57, 65536, 1114111>>, <<59, 19968, 40959>>, <<60, 57344, 63743>>, <<61, 12736, 12783>>, <<62, 64256, 64335>>,
  <<63, 64336, 65023>>, <<64, 65056, 65071>>, <<65, 65040, 65055>>, <<66, 65104, 65135>>, <<67, 65136, 65279>>, <<68, 65280, 65519>>,
  <<69, 65520, 65535>>, <<70, 3840, 4095>>, <<71, 1792, 1871>>, <<72, 1920, 1983>>, <<73, 3456, 3583>>, <<74, 4096, 4255>>, <<75, 4608, 4991>>,
  <<76, 5024, 5119>>, <<77, 5120, 5759>>, <<78, 5760, 5791>>, <<79, 5792, 5887>>, <<80, 6016, 6143>>, <<81, 6144, 6319>>, <<82, 10240, 10495>>,
  <<83, 40960, 42127>>, <<84, 5888, 5919>>, <<85, 66304, 66351>>, <<86, 66352, 66383>>, <<87, 66560, 66639>>, <<88, 118784, 119039>>,
  <<89, 119808, 120831>>, <<90, 983040, 1048573>>, <<91, 65024, 65039>>, <<92, 917504, 917631>>, <<93, 6400, 6479>>, <<94, 6480, 6527>>,
  <<95, 6528, 6623>>, <<96, 6656, 6687>>, <<97, 11264, 11359>>, <<98, 11568, 11647>>, <<99, 19904, 19967>>, <<100, 43008, 43055>>, <<101, 65536, 65663>>,
  <<102, 65856, 65935>>, <<103, 66432, 66463>>, <<104, 66464, 66527>>, <<105, 66640, 66687>>, <<106, 66688, 66735>>, <<107, 67584, 67647>>,
  <<108, 68096, 68191>>, <<109, 119552, 119647>>, <<110, 73728, 74751>>, <<111, 119648, 119679>>, <<112, 7040, 7103>>, <<113, 7168, 7247>>,
  <<114, 7248, 7295>>, <<115, 43136, 43231>>, <<116, 43264, 43311>>, <<117, 43312, 43359>>, <<118, 43520, 43615>>, <<119, 65936, 65999>>,
  <<120, 66000, 66047>>, <<121, 66208, 66271>>, <<122, 127024, 127135>>}
\* ... and of the further blocks that share a number, which a writer may leave out
Others == {
  <<4, 7424, 7615>>, <<5, 42752, 42783>>, <<6, 7616, 7679>>, <<9, 1280, 1327>>, <<9, 11744, 11775>>, <<9, 42560, 42655>>, <<13, 1872, 1919>>,
  <<26, 11520, 11567>>, <<29, 11360, 11391>>, <<29, 42784, 43007>>, <<31, 11776, 11903>>, <<37, 10224, 10239>>, <<37, 10496, 10623>>,
  <<37, 11008, 11263>>, <<38, 10752, 11007>>, <<38, 10176, 10223>>, <<38, 10624, 10751>>, <<50, 12784, 12799>>, <<51, 12704, 12735>>,
  <<56, 55204, 55215>>, <<59, 11904, 12255>>, <<59, 12272, 12287>>, <<59, 13312, 19903>>, <<59, 131072, 173791>>, <<59, 12688, 12703>>,
  <<61, 63744, 64255>>, <<61, 194560, 195103>>, <<65, 65072, 65103>>, <<75, 4992, 5023>>, <<75, 11648, 11743>>, <<80, 6624, 6655>>, <<83, 42128, 42191>>,
  <<84, 5920, 6015>>, <<88, 119040, 119375>>, <<90, 1048576, 1114109>>, <<91, 917760, 917999>>, <<101, 65664, 65855>>, <<110, 74752, 74879>>,
  <<121, 66176, 66207>>, <<58, 67840, 67871>>, <<121, 67872, 67903>>, <<122, 126976, 127023>>}
RangesOK(bits, cs) ==
  /\ \A b \in Blocks : (\E c \in cs : b[2] <= c /\ c <= b[3]) => b[1] \in bits
  /\ \A x \in bits : \E b \in Blocks \cup Others : b[1] = x /\ \E c \in cs : b[2] <= c /\ c <= b[3]

SubKern(f, M, K) ==
  IF "kern" \notin K THEN {}
  ELSE UNION {{<<i, j, x[3]>> : i \in Positions(M, x[1]), j \in Positions(M, x[2])} : x \in {y \in Img(f.kern) : y[1] # 0 /\ y[2] # 0}}

-----------------------------------------------------------------------------
(* Merge                                                                    *)
\* the glyphs of the second font other than .notdef follow those of the first
Shifted(a, x) == IF x = 0 THEN 0 ELSE a.n + x - 1
MergedN(a, b) == IF b.n < 2 THEN a.n ELSE a.n + b.n - 1

TooMany(a, b) == a.n + b.n > 65535
Clash(a, b)   == HasTab(a, "cmap") /\ {x[1] : x \in Img(a.cm)} \cap {x[1] : x \in Img(b.cm)} # {}
MergeFails(a, b, re) == a.k # b.k \/ TooMany(a, b) \/ (b.n >= 2 /\ ~re /\ Clash(a, b))

MergedChars(a, b, re, N) ==
  IF ~HasTab(a, "cmap") THEN {}
  ELSE IF b.n < 2 THEN Img(a.cm)
  ELSE IF re THEN {<<g + 32, g>> : g \in 1..(N - 1)}
  ELSE Img(a.cm) \cup {<<x[1], Shifted(a, x[2])>> : x \in Img(b.cm)}

MergedKern(a, b) ==
  {x \in Img(a.kern) : x[1] # 0 /\ x[2] # 0}
  \cup {<<Shifted(a, x[1]), Shifted(a, x[2]), x[3]>> : x \in {y \in Img(b.kern) : y[1] # 0 /\ y[2] # 0}}

\* glyph o of b as it appears after merging b into a
MergedGlyph(a, b, o) ==
  LET x == At(b, o) IN [x EXCEPT !.c = [k \in 1..Len(x.c) |-> Shifted(a, x.c[k])]]

\* memory needs (32 bits in halves, the lower one first) add up; the result is fixed-pitch if both are
MergedMem(a, b) == IF b.meta.mem = <<>> THEN a.meta.mem
                   ELSE [i \in 1..Len(a.meta.mem) |->
                          IF i % 2 = 1 THEN (a.meta.mem[i] + b.meta.mem[i]) % 65536
                          ELSE (a.meta.mem[i] + b.meta.mem[i] + ((a.meta.mem[i - 1] + b.meta.mem[i - 1]) \div 65536)) % 65536]
MergedFixed(a, b) == IF HasTab(b, "post") THEN MinOf(a.meta.fixed, b.meta.fixed) ELSE a.meta.fixed
MergedMaxp(a, b) == IF a.k = "tt" /\ Len(a.meta.maxp) = Len(b.meta.maxp) THEN [i \in 1..Len(a.meta.maxp) |-> MaxOf(a.meta.maxp[i], b.meta.maxp[i])] ELSE a.meta.maxp

-----------------------------------------------------------------------------
(* Properties of a single font                                              *)
\* a name that is looked up gives a glyph with that name, or 0 if there is none
FindOK(f) ==
  \A k \in 1..Len(f.find) :
    LET nm == f.find[k][1]
        g == f.find[k][2]
    IN IF g # 0 THEN g < f.n /\ At(f, g).m = nm
       ELSE \A i \in 1..Len(f.g) : f.g[i].m = nm => (f.ids[i] = 0 \/ nm = "" \/ f.g[1].m = nm)

\* with one character map the reported characters invert the lookup
UniOK(f) == UNION {{<<c, f.ids[i]>> : c \in Img(f.uni[i])} : i \in {j \in 1..Len(f.ids) : f.ids[j] # 0}} = {p \in Img(f.cm) : p[2] \in Img(f.ids)}
=============================================================================
