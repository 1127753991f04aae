------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* Style names, the choice of an installed font for a list of families,    *)
(* and what a font file declares about its family and style.  Texts are    *)
(* sequences of code units.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
Letter(ch) == IF \E i \in 1..26 : SubSeq(Upper, i, i) = ch THEN 64 + (CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = ch)
              ELSE IF \E i \in 1..26 : SubSeq(Lower, i, i) = ch THEN 96 + (CHOOSE i \in 1..26 : SubSeq(Lower, i, i) = ch) ELSE IF ch = "-" THEN 45 ELSE 32
Txt(s) == TLCEval([i \in 1..Len(s) |-> Letter(SubSeq(s, i, i))])

-----------------------------------------------------------------------------
(* Styles: the weight 1 to 9, plus 256 for slanted                          *)
Unknown == -1
Slanted == 256
WeightOf(st) == st % 256
SlantOf(st) == (st \div 256) * 256
Styles == {w + s : w \in 1..9, s \in {0, Slanted}}

Slants == TLCEval({Txt(s) : s \in {"Italic", "Oblique", "Slanted", "Italique", "Cursiva", "Slant", "Ita", "Obl"}})
Names == << {"Thin", "Hairline"}, {"ExtraLight", "UltraLight", "Extra Light", "ExtraLt"}, {"Light", "Lt", "SemiLight"}, {"Regular", "Normal", "Reg", "Roman", "Text", "Book"}, {"Medium", "Med"},
            {"SemiBold", "Semibold", "Demi", "Semi Bold", "Semibd"}, {"Bold", "Negrita", "Gras", "Bol"}, {"ExtraBold", "Extra Bold"}, {"Black", "Heavy"} >>
WeightWords == TLCEval({[s |-> Txt(s), w |-> w] : <<s, w>> \in UNION {{<<s, w>> : s \in Names[w]} : w \in 1..9}} \cup {[s |-> <<78, 111, 114, 109, 225, 108>>, w |-> 4]})
Seps == {<<>>, <<32>>, <<45>>}

\* the styles a name can be read as
Readings(s) == {w.w : w \in {x \in WeightWords : x.s = s}}
               \cup (IF s \in Slants THEN {4 + Slanted} ELSE {})
               \cup {w.w + Slanted : w \in {x \in WeightWords : IsPrefix(x.s, s) /\ \E z \in Seps : SubSeq(s, Len(x.s) + 1, Len(s)) \in {z \o i : i \in Slants}}}
Blank(c) == c \in {32, 9, 10, 11, 12, 13, 160, 133}
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF Blank(s[1]) THEN Trim(Tail(s)) ELSE IF Blank(s[Len(s)]) THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* the answers that are right for a style name; blanks around a name, and a name that starts with a separator, are not settled
StyleName(s) ==
  LET t == Trim(s)
      r == Readings(t)
      u == IF t # <<>> /\ t[1] \in {32, 45} THEN {4 + Slanted, Unknown} ELSE {Unknown}
      one == IF r = {} THEN u ELSE r
  IN IF t = <<>> THEN {4, Unknown} ELSE IF t # s THEN one \cup {Unknown} ELSE one

\* the nearest hundred, halves upwards
Css(w, it) == LET h == IF w <= 100 THEN {1} ELSE IF w >= 900 THEN {9} ELSE {(w + 50) \div 100}
              IN {x + (IF it THEN Slanted ELSE 0) : x \in h}

-----------------------------------------------------------------------------
(* Matching: fonts is a sequence of [fam, st, file], the last of a style    *)
(* counts; gen a sequence of [name, list].                                  *)
Down(a) == [i \in 1..(a - 1) |-> a - i]
Up(a) == [i \in 1..(9 - a) |-> a + i]
Fallback(w) == CASE w = 4 -> <<5>> \o Down(4) \o Up(5)
                 [] w = 5 -> <<4>> \o Down(4) \o Up(5)
                 [] w < 4 -> Down(w) \o Up(w)
                 [] OTHER -> Up(w) \o Down(w)

RECURSIVE Split(_, _, _)
Split(s, cur, acc) == IF s = <<>> THEN Append(acc, Trim(cur)) ELSE IF s[1] = 44 THEN Split(Tail(s), <<>>, Append(acc, Trim(cur))) ELSE Split(Tail(s), Append(cur, s[1]), acc)
IsGeneric(gen, n) == \E i \in 1..Len(gen) : gen[i].name = n
ListOf(gen, n) == gen[CHOOSE i \in 1..Len(gen) : gen[i].name = n].list
Families(gen, name) == FoldLeft(LAMBDA acc, n : acc \o (IF IsGeneric(gen, n) THEN ListOf(gen, n) ELSE <<n>>), <<>>, Split(name, <<>>, <<>>))
\* a list that names another list
Nested(gen) == \E i \in 1..Len(gen) : \E k \in 1..Len(gen[i].list) : IsGeneric(gen, gen[i].list[k]) /\ gen[i].list[k] # gen[i].name

Installed(fonts, fam) == \E i \in 1..Len(fonts) : fonts[i].fam = fam
OfStyle(fonts, fam, st) == LET S == {i \in 1..Len(fonts) : fonts[i].fam = fam /\ fonts[i].st = st} IN IF S = {} THEN <<>> ELSE <<fonts[CHOOSE i \in S : \A j \in S : j <= i]>>
RECURSIVE FirstOf(_, _, _, _)
FirstOf(fonts, fam, slant, order) == IF order = <<>> THEN <<>> ELSE LET x == OfStyle(fonts, fam, slant + order[1]) IN IF x # <<>> THEN x ELSE FirstOf(fonts, fam, slant, Tail(order))

\* <<>> or <<font>>
Matched(fonts, gen, name, st) ==
  LET fams == Families(gen, name)
      k == {i \in 1..Len(fams) : Installed(fonts, fams[i])}
  IN IF k = {} THEN <<>> ELSE LET fam == fams[CHOOSE i \in k : \A j \in k : i <= j] IN FirstOf(fonts, fam, SlantOf(st), <<WeightOf(st)>> \o Fallback(WeightOf(st)))

-----------------------------------------------------------------------------
(* What a file declares: [st, fam, style]; st "none": to be skipped, "ok",  *)
(* "open": not settled.                                                     *)
None == [st |-> "none", fam |-> <<>>, style |-> 0]
Open == [st |-> "open", fam |-> <<>>, style |-> 0]
W(b, p) == b[p + 1] * 256 + b[p + 2]
D(b, p) == IF b[p + 1] >= 64 THEN 1000000000 ELSE W(b, p) * 65536 + W(b, p + 2)
NameTag == <<110, 97, 109, 101>>

Declares(b) ==
  IF Len(b) < 12 \/ Len(b) < 12 + 16 * W(b, 4) THEN None
  ELSE
    LET n == W(b, 4)
        recs == {i \in 0..(n - 1) : SubSeq(b, 13 + 16 * i, 16 + 16 * i) = NameTag}
    IN IF recs = {} THEN None
       ELSE IF Cardinality(recs) > 1 THEN Open
       ELSE
         LET i == CHOOSE i \in recs : TRUE
             off == D(b, 12 + 16 * i + 8)
             len == D(b, 12 + 16 * i + 12)
         IN IF off + 6 > Len(b) THEN None
            ELSE IF off + len > Len(b) \/ len < 6 \/ off = 0 THEN Open
            ELSE
              LET t == TLCEval(SubSeq(b, off + 1, off + len))
                  ver == W(t, 0)
                  k == W(t, 2)
                  at == W(t, 4)
                  R(j) == LET p == 6 + 12 * (j - 1) IN [pl |-> W(t, p), en |-> W(t, p + 2), la |-> W(t, p + 4), id |-> W(t, p + 6), len |-> W(t, p + 8), off |-> at + W(t, p + 10)]
              IN IF ver > 1 \/ 6 + 12 * k > Len(t) THEN Open
                 ELSE
                   LET rs == {R(j) : j \in 1..k}
                       named == {r \in rs : r.id \in {1, 2, 16, 17}}
                       english == {r \in named : r.pl = 3 /\ r.la % 256 = 9}
                       others == {r \in named : r.pl # 3 /\ (r.pl # 1 \/ r.la = 0)}        \* no language, or Macintosh English
                       Units(r) == [u \in 1..(r.len \div 2) |-> W(t, r.off + 2 * (u - 1))]
                       strange == {r \in named : r.pl = 3 /\ r.la >= 32768} \cup {r \in english : r.off + r.len > Len(t) \/ r.len % 2 = 1 \/ r.en \notin {0, 1, 10}
                                                     \/ \E u \in 1..(r.len \div 2) : LET x == W(t, r.off + 2 * (u - 1)) IN (x >= 55296 /\ x < 57344) \/ x = 65279 \/ x = 65534}
                       Of(ids) == {Units(r) : r \in {x \in english : x.id = ids}}
                       Pref(a, c) == IF Of(a) # {} THEN Of(a) ELSE Of(c)
                       fam == Pref(16, 1)
                       sub == Pref(17, 2)
                   IN IF strange # {} THEN Open
                      ELSE IF fam = {} THEN (IF others # {} THEN Open ELSE None)
                      ELSE IF Cardinality(fam) > 1 \/ Cardinality(sub) > 1 \/ sub = {} \/ <<>> \in fam \/ <<>> \in sub THEN Open
                      ELSE LET f == CHOOSE x \in fam : TRUE
                               s == CHOOSE x \in sub : TRUE
                               z == StyleName(s)
                           IN IF Cardinality(z) > 1 THEN Open ELSE IF z = {Unknown} THEN None ELSE [st |-> "ok", fam |-> f, style |-> CHOOSE y \in z : TRUE]

\* files: sequence of [dir (sequence of names), name, ext, b]; dirs: the directories searched, as sequences of names
Under(f, dirs) == \E i \in 1..Len(dirs) : IsPrefix(dirs[i], f.dir)
IsFont(f) == f.ext \in {".ttf", ".otf"}
\* what is wrong with the fonts found ([fam, st, file (a number)])
FoundWrong(files, dirs, found) ==
  LET n == Len(files)
      dec == TLCEval([i \in 1..n |-> IF IsFont(files[i]) /\ files[i].reg /\ Under(files[i], dirs) THEN Declares(files[i].b) ELSE None])
      Has(fam, st, who) == \E k \in 1..Len(found) : found[k].fam = fam /\ found[k].st = st /\ found[k].file \in who
  IN (IF \E i \in 1..n : dec[i].st = "ok" /\ ~Has(dec[i].fam, dec[i].style, {j \in 1..n : (dec[j].st = "ok" /\ dec[j].fam = dec[i].fam /\ dec[j].style = dec[i].style) \/ dec[j].st = "open"}) THEN {"a font is missing"} ELSE {})
     \cup (IF \E k \in 1..Len(found) : found[k].file \notin 1..n THEN {"a file that is not there"}
           ELSE IF \E k \in 1..Len(found) : dec[found[k].file].st = "none" THEN {"a file that is to be skipped"}
           ELSE IF \E k \in 1..Len(found) : LET x == dec[found[k].file] IN x.st = "ok" /\ (x.fam # found[k].fam \/ x.style # found[k].st) THEN {"family or style of a font"} ELSE {})
     \cup (IF \E k, l \in 1..Len(found) : k < l /\ found[k].fam = found[l].fam /\ found[k].st = found[l].st THEN {"a style twice"} ELSE {})

-----------------------------------------------------------------------------
(* Where fonts are looked for on Linux: home, dataHome and dataDirs (a list) *)
(* come from the environment, "" is not set                                  *)
FontDirs(home, dataHome, dataDirs) ==
  {"/usr/share/fonts", "/usr/local/share/fonts"}
  \cup (IF home = "" THEN {} ELSE {home \o "/.fonts", home \o "/.local/share/fonts"})
  \cup (IF dataHome = "" THEN {} ELSE {dataHome \o "/fonts"})
  \cup {dataDirs[i] \o "/fonts" : i \in {j \in 1..Len(dataDirs) : dataDirs[j] # ""}}
=============================================================================
