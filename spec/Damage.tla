------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Damaged files.  A file is any sequence of bytes; whatever happened to   *)
(* it, every call on it and on what was made of it returns with a value or *)
(* an error, and the time and memory it took are bounded by the size of    *)
(* the file and the memory limit.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* what a call can do
None == 0   \* it was not made, as there was nothing to make it on
Value == 1
Error == 2
Crash == 3

\* kinds of files, and the parts of each that are damaged
Tables == {"head", "hhea", "vhea", "maxp", "OS/2", "post", "name", "cmap", "kern", "hmtx", "vmtx", "dir"}
TrueType == Tables \cup {"loca", "glyf", "simple", "composite"}
PostScript == Tables \cup {"CFF1", "CFF2", "CFF3", "CFF4", "CFF5", "CFF6", "charstring", "subrs"}
Parts == [sfnt |-> TrueType \cup {"file"}, cff |-> PostScript \cup {"file"}, emb |-> {"dir", "cmap", "CFF1", "CFF2", "CFF3", "CFF4", "CFF5", "CFF6", "maxp", "hmtx", "file"},
          ttc |-> {"dir", "file"}, woff |-> {"dir", "file", "body", "inner"}, woff2 |-> {"dir", "file", "stream", "glyfhead", "glyf", "hmtx"},
          eot |-> {"dir", "file", "inner"}, afm |-> {"text", "number", "word", "file"}]
Formats == DOMAIN Parts

\* ways to damage a part
Hows == {"edge1", "edge2", "edge4", "near", "flip", "trunc", "grow", "cut", "put", "swap", "same", "two"}

\* small files that ask for much: ranges of characters that are wide, components and subroutines that
\* use others over and over, counts that are large, data that unpacks to much more, shared data
Bombs == [sfnt |-> {"groups", "ranges", "doubling", "cycle", "glyphs", "names", "kerns", "posts", "subtables"}, cff |-> {"calls", "recursion", "indices", "glyphs"},
          emb |-> {"calls", "recursion", "indices"}, ttc |-> {"fonts"}, woff |-> {"unpack", "tables", "claims"}, woff2 |-> {"unpack", "tables", "claims", "glyphs", "points"}, eot |-> {}, afm |-> {"counts", "pairs"}]

\* what is done to what was parsed, in any order: all queries, take a subset, rename the glyphs,
\* write and read again, write WOFF2 and read again, merge with a sound font
Deeds == {"ask", "subset", "rename", "write", "pack", "merge"}

-----------------------------------------------------------------------------
(* What is allowed.  The time is in milliseconds and the memory in          *)
(* kilobytes; both bounds are linear in the size of the file (in bytes) and *)
(* the memory limit, with room for slow machines.                           *)
(* A map of all characters needs some memory whatever the size of the file. *)
\* The memory is all that was asked for over time, most of which was given back: more than what was in
\* use at any moment.  Bombs ask for as much as there is work allowed for the outlines of a glyph.
TimeBound(size) == 10000 + (size \div 4)
MemBound(part, size, limit) == (IF part = "bomb" THEN 2097152 ELSE 131072) + (24 * (limit \div 1024)) + (2 * size)

\* a run of calls on one file: parse, then the deeds if there is a font
Sound(run) ==
  /\ run.parse \in {Value, Error}
  /\ \A i \in 1..Len(run.deeds) : run.deeds[i] \in {None, Value, Error}
  /\ run.parse = Error => \A i \in 1..Len(run.deeds) : run.deeds[i] = None
  /\ run.parse = Value => \A i \in 1..Len(run.deeds) : run.deeds[i] # None
Bounded(run, part, size, limit) == run.ms <= TimeBound(size) /\ run.kb <= MemBound(part, size, limit)
=============================================================================
