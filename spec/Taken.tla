------------------------------- MODULE Taken -------------------------------
(***************************************************************************)
(* Fonts taken over from other libraries.  golang/freetype keeps slices of  *)
(* the file for a number of tables; what is made from them is a file of its *)
(* own with those tables, and a post table that has no names.               *)
(***************************************************************************)
EXTENDS Sfnt

\* tables that golang/freetype keeps
Kept == {T("cmap"), <<99, 118, 116, 32>>, <<102, 112, 103, 109>>, T("glyf"), <<104, 100, 109, 120>>, T("head"), T("hhea"), T("hmtx"), <<107, 101, 114, 110>>,
         T("loca"), T("maxp"), T("name"), <<79, 83, 47, 50>>, <<112, 114, 101, 112>>, <<118, 109, 116, 120>>}
Vmtx == <<118, 109, 116, 120>>
Post3 == <<0, 3>> \o [i \in 1..30 |-> 0]

\* the tables [tag, data] to be written for the file b; vertical metrics can't be read without the vhea table, which is lost
Tables(b, vertical) ==
  LET O == Open(b, 0, TRUE)
      dir == SelectSeq(O.dir, LAMBDA r : r.tag \in Kept /\ r.len > 0 /\ (vertical \/ r.tag # Vmtx))
  IN [i \in 1..Len(dir) |-> [tag |-> dir[i].tag, data |-> Content(b, dir[i])]] \o <<[tag |-> T("post"), data |-> Post3]>>

DataOf(tables, tag) == LET s == {i \in 1..Len(tables) : tables[i].tag = tag} IN IF s = {} THEN <<>> ELSE tables[CHOOSE i \in s : TRUE].data

\* what is wrong with what was made from b
TakenWrong(b, out) ==
  LET O == Open(out, 0, TRUE)
      has == \E i \in 1..Len(O.dir) : O.dir[i].tag = Vmtx
      want == Tables(b, has)
      got == Tables(out, TRUE)
  IN IF O.st # "ok" THEN {"the directory is malformed"}
     ELSE Wrong(out, want, TRUE)
          \cup (IF Zeroed(DataOf(got, T("head")), 8, 4) # Zeroed(DataOf(want, T("head")), 8, 4) THEN {"head"} ELSE {})
=============================================================================
