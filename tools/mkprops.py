#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the list stays readable)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))

p("C01","Table directory and font collections are read exactly",
 "Parsing a TTF, OTF or TTC exposes exactly the tables the selected font's directory lists, each byte for byte at its recorded offset and length, and the collection index selects that font and no other. A file whose directory does not fit the file, lacks a required table, has an unknown version or an index out of range is rejected with an error.",
 ["inputs"],"every sfnt or collection file: any set of tables, order, offsets, lengths, padding, truncation, font index",
 "the tests parse three sound fonts and never a collection, a truncated directory or a bad index",
 ["sfnt.go","font.go"],[("directory and collection parsing","sfnt.go parseSFNT"),("format dispatch","font.go ToSFNT")],
 observe=["ParseSFNT","ParseEmbeddedSFNT","SFNT.Tables"])
p("C02","Written font files are well formed and complete",
 "For every font object the library can hold, serialising it gives a well-formed sfnt: a header matching the table count, records sorted by tag, tables on 4-byte boundaries inside the file without overlap and zero padded, correct table checksums and whole-file checksum adjustment. The file holds exactly the object's tables with unchanged contents, apart from the checksum adjustment and modification date in the head table.",
 ["inputs","histories"],"every font object reachable by parsing, subsetting, merging and renaming, any set of up to 4095 tables (the header cannot describe more)",
 "no test writes a font and looks at the bytes",
 ["sfnt.go","util.go"],[("writer","sfnt.go Write"),("checksum","util.go calcChecksum")],observe=["SFNT.Write"])
p("C03","WOFF and EOT wrappers decode to the font they contain",
 "A font wrapped in WOFF (each table stored or zlib-compressed) or EOT (plain or XOR-obfuscated) decodes to an sfnt with exactly the same tables as the font that was wrapped, so every query gives the same answer as on the bare font. Media type, file extension and the conversion function recognise every supported format and reject anything else with an error.",
 ["inputs"],"every font and every choice of per-table compression, table order, flags, name lengths, checksums",
 "the W3C samples are a fixed list and only check accept or reject; nothing compares decoded tables",
 ["woff.go","eot.go","font.go"],[("WOFF decoder","woff.go ParseWOFF"),("EOT decoder","eot.go ParseEOT"),("dispatch","font.go MediaType, Extension, ToSFNT")],
 observe=["ParseWOFF","ParseEOT","ToSFNT","MediaType","Extension","NewSFNTReader"])
p("C04","WOFF2 decoding reconstructs glyphs, metrics and tables",
 "Decoding a WOFF2 file yields the tables that were encoded: untransformed tables byte for byte, and transformed glyph, location and metrics tables with the same outlines, bounding boxes, instructions, components, advances and side bearings for every glyph. A file that is truncated, or whose directory, streams or counts contradict each other, is rejected with an error.",
 ["inputs"],"every font and every legal encoding choice (transforms on or off, explicit or implied boxes, triplet forms, number encodings, overlap bitmap, known or arbitrary tags)",
 "the tests compare one font's tables in one encoding; the W3C list only checks accept or reject",
 ["woff2.go"],[("table directory and streams","woff2.go ParseWOFF2"),("glyf/loca reconstruction","woff2.go reconstructGlyfLoca"),("hmtx reconstruction","woff2.go reconstructHmtx"),("variable-length numbers","woff2.go readUintBase128, read255Uint16")],
 observe=["ParseWOFF2"])
p("C05","Writing WOFF2 and decoding it again preserves the font",
 "Compressing any font object to WOFF2 and decoding the result gives a font with the same tables, and for every glyph the same outline, bounding box, instructions, components, advance and side bearing as the original.",
 ["inputs","histories"],"every font: simple, composite, empty, instructed, overlapping glyphs, any coordinates, any metrics layout, also after subsetting and merging",
 "one font is round-tripped by the tests; composite instructions, overlap flags and box mismatches are not in it",
 ["woff2.go"],[("writer","woff2.go WriteWOFF2"),("glyf transform","woff2.go transformGlyf"),("hmtx transform","woff2.go transformHmtx")],observe=["SFNT.WriteWOFF2","ParseWOFF2"])
p("C06","Character lookup follows the cmap subtables",
 "Looking up a character returns the glyph given by the first character-map subtable, in order, that covers it, according to the OpenType rules of formats 0, 4, 6 and 12 (including modulo-65536 deltas and the indirect glyph array), and 0 when none covers it. This holds for every code point, inside and outside the basic plane.",
 ["inputs"],"every character map built from any sequence of subtables of formats 0, 4, 6, 12 and every code point",
 "the tests look up a few Latin characters in one font",
 ["sfnt_cmap.go","sfnt.go"],[("subtable lookup","sfnt_cmap.go cmapFormat*.Get"),("parsing","sfnt_cmap.go parseCmap")],observe=["SFNT.GlyphIndex"])
p("C07","Reverse character lookup inverts the character map",
 "The characters reported for a glyph are exactly those that some subtable of the character map assigns to it, each once, in subtable order and ascending within a subtable; so with a single subtable a character is reported for a glyph exactly when looking the character up explicitly gives that glyph. Any number of goroutines may ask at the same time and all get that answer.",
 ["inputs","schedules"],"every character map, every glyph, every interleaving of first calls",
 "no test calls the reverse lookup, let alone concurrently",
 ["sfnt_cmap.go"],[("reverse maps built once","sfnt_cmap.go ToUnicode")],observe=["SFNT.GlyphToUnicode"])
p("C08","Subsetting and merging keep the character mapping",
 "After subsetting, and in the file written from the result, a character that mapped to a kept glyph maps to that glyph's new position, and every other character maps to nothing. After merging, each character maps to the glyph it had in the font it came from, or to the sequential code points when rearranging is requested.",
 ["inputs","histories"],"every set of characters and glyph order: runs, gaps, permutations, identity mappings, shared glyphs, supplementary planes, the code point 0xFFFF",
 "the tests subset one font to a few glyphs and do not read the written map back",
 ["sfnt_cmap.go","sfnt_subset.go","sfnt_merge.go"],[("map writer","sfnt_cmap.go cmapWrite, cmapWriteFormat4, cmapWriteFormat12"),("callers","sfnt_subset.go Subset; sfnt_merge.go Merge")],observe=["SFNT.Subset","SFNT.Merge","SFNT.Write","SFNT.GlyphIndex"])
p("C09","TrueType outlines are decoded and drawn per specification",
 "For every simple or composite TrueType glyph the drawn path is the one the TrueType rules define: points decoded from repeated and short-vector flags, implied on-curve points between consecutive off-curve points, contours that start off-curve, closed contours, nested components with offsets, scales and 2x2 matrices, placed at (x,y) and scaled. Point-matching or too deeply nested composites are errors.",
 ["inputs"],"every glyph description",
 "the tests draw one glyph of one font",
 ["sfnt_truetype.go"],[("glyph decoder","sfnt_truetype.go contour"),("path construction","sfnt_truetype.go ToPath"),("location lookup","sfnt_truetype.go locaTable.Get")],observe=["SFNT.GlyphPath","SFNT.GlyphBounds"])
p("C10","CFF charstrings are executed per the Type 2 specification",
 "For every CFF glyph the drawn path is the one the Type 2 charstring rules define: all line, curve and flex operators with their alternating and optional-argument forms, the width argument, hints and hint masks, local and global subroutines with bias by subroutine count, per-glyph font dictionaries, 16.16 numbers and the nesting limits. Malformed charstrings are errors.",
 ["inputs"],"every Type 2 charstring program, subroutine set and font dictionary selection",
 "the tests draw one glyph of one font; most operators are never executed",
 ["sfnt_cff.go"],[("charstring machine","sfnt_cff.go parseCharString, ToPath"),("subroutine selection","sfnt_cff.go getSubroutine, cffINDEX, cffFontINDEX")],observe=["SFNT.GlyphPath","SFNT.GlyphBounds"])
p("C11","Glyph metrics come from the metrics tables",
 "The advance and side bearing of every glyph, horizontal and vertical, are those of the metrics tables, the last long metric's advance repeating for later glyphs, and the vertical advance is the em size without vertical metrics. The ascender, descender and line gap follow the documented choice between the win, typo and hhea values, and a CFF glyph's bounds are whole units that enclose its outline and no more than its control points.",
 ["inputs"],"every glyph count, number of long metrics, metric value, flag and sign combination",
 "the tests read a couple of advances of one font",
 ["sfnt.go","sfnt_util.go"],[("metric lookup","sfnt.go hmtxTable, vmtxTable"),("vertical metrics","sfnt.go VerticalMetrics"),("bounds","sfnt.go GlyphBounds; sfnt_util.go")],observe=["SFNT.GlyphAdvance","SFNT.GlyphVerticalAdvance","SFNT.VerticalMetrics","SFNT.GlyphBounds"])
p("C12","Kerning lookup and preservation",
 "The kerning of a glyph pair is the sum over the font's kerning-value subtables, raised to the values of its minimum-value subtables, whether or not the file stores its pairs sorted, and 0 without an entry. A subset that keeps kerning, and a merged font, report the same kerning for each pair of non-.notdef glyphs from one source font as that source did, and 0 for pairs across fonts, in memory and after writing.",
 ["inputs","histories"],"every set of subtables and pairs, every glyph selection and order, either font lacking kerning",
 "no test reads, subsets, merges or writes kerning beyond one pair",
 ["sfnt_truetype.go","sfnt_subset.go","sfnt_merge.go"],[("lookup","sfnt_truetype.go kernTable.Get, kernFormat0.Get"),("parse and write","sfnt_truetype.go parseKern, Write"),("carried over","sfnt_subset.go Subset; sfnt_merge.go Merge")],observe=["SFNT.Kerning"])
p("C13","A subset keeps the requested glyphs unchanged and in order",
 "Subsetting yields a font whose glyph i is the i-th requested glyph, with the same outline, advances and side bearings (an emptied .notdef excepted), followed by just the components those glyphs need; composite glyphs keep drawing the same shape. The result has the tables asked for by the all, min, pdf or explicit selection and no others, and it is valid for further subsetting, merging and writing.",
 ["inputs","histories"],"every font kind, every list of glyphs (any order, any closure), every table selection, chains of subsets",
 "one test subsets one font and checks sizes",
 ["sfnt_subset.go","sfnt_truetype.go","sfnt_cff.go"],[("subsetting","sfnt_subset.go Subset"),("dependencies","sfnt_truetype.go Dependencies")],observe=["SFNT.Subset"])
p("C14","Merging keeps both fonts' glyphs",
 "After merging B into A, A's glyphs keep their positions and B's glyphs other than .notdef follow in order, each with the outline, advance and side bearing it had before, whatever the sizes, offset formats, components and subroutines of the two. Fonts of different kinds, a shared character or too many glyphs give an error, and an error leaves both fonts as they were.",
 ["inputs","histories"],"every pair of fonts of a kind, sequences of merges and subsets",
 "one test merges two small subsets of one font",
 ["sfnt_merge.go"],[("merging","sfnt_merge.go Merge")],observe=["SFNT.Merge"])
p("C15","A font in memory and its written file agree",
 "After any history of parsing, subsetting, merging and renaming glyphs, every query on the font object gives the same answer as on the font parsed back from its own written bytes, and those bytes always parse.",
 ["histories"],"every finite sequence of operations on every starting font",
 "the tests never query a font after changing it and never parse back what they write",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cff.go"],[("parallel update of tables and decoded form","sfnt_subset.go Subset; sfnt_merge.go Merge; SetGlyphNames")],
 state=[dict(name="Tables",meaning="raw tables that are written",where="sfnt.go SFNT.Tables"),dict(name="decoded tables",meaning="what queries read",where="sfnt.go SFNT.Cmap..Vmtx")],observe=["all queries","SFNT.Write","ParseSFNT"])
p("C16","Operations leave their inputs and other fonts untouched",
 "Parsing never changes the caller's bytes; subsetting, writing and querying never change the font they are applied to; merging changes only the receiving font. Fonts that came from the same bytes, from one another or through a merge stay independent: no later operation on one changes any answer of another.",
 ["histories"],"every sequence of operations on any number of fonts, including several fonts parsed from one byte slice",
 "the tests never look at an operand again after using it",
 ["sfnt.go","woff.go","eot.go","sfnt_subset.go","sfnt_merge.go","sfnt_cff.go"],[("copying of shared tables","sfnt_subset.go Subset; sfnt_merge.go Merge"),("in-place decoding","woff.go ParseWOFF; eot.go ParseEOT")],observe=["caller's byte slices","all queries on operands"])
p("C17","Glyph names are looked up, found and set consistently",
 "The name of each glyph is the one the post table or CFF charset gives it, and finding a name returns a glyph that has that name, or 0 when no glyph has it. After setting glyph names each listed glyph has its new name in memory and in the written file, whatever was looked up before; a merged font names every glyph as its source font did.",
 ["inputs","histories"],"every post version and charset format, repeated, standard, empty and long names, lookups before and after renaming",
 "no test sets names or looks one up after a change",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cff.go"],[("names","sfnt.go postTable.Get, Find"),("renaming","sfnt_subset.go SetGlyphNames"),("charset","sfnt_cff.go")],observe=["SFNT.GlyphName","SFNT.FindGlyphName","SFNT.SetGlyphNames"])
p("C18","Subroutine renumbering preserves every charstring",
 "When subsetting or merging CFF fonts drops, moves or adds subroutines, every kept glyph still draws the same path, for any nesting of local and global subroutines and any change of the subroutine-number bias, in memory and after the CFF table is written and read again. Subroutines no kept glyph uses are dropped by a subset.",
 ["inputs","histories"],"every subroutine graph and count around the bias thresholds 1240 and 33900, every kept glyph set, every merge order",
 "the one CFF font in the tests stays on one side of the bias thresholds",
 ["sfnt_cff.go","sfnt_subset.go","sfnt_merge.go"],[("renumbering","sfnt_cff.go ReindexSubrs, updateSubrs"),("CFF writer","sfnt_cff.go Write, cffINDEX.Write"),("merge","sfnt_merge.go Merge")],observe=["SFNT.GlyphPath","SFNT.Write"])
p("C19","Damaged fonts give errors, never crashes",
 "For every byte string in every supported format, parsing and all queries, subsetting and writing on whatever was parsed return normally, with a result or an error, within time and memory bounded by the size of the input and the documented memory limit; they never panic and never loop.",
 ["inputs","fault_sequences"],"every corruption, truncation or extension of any field of any supported file",
 "the fuzz corpora replay a fixed list of files through the three wrappers only",
 ["sfnt.go","sfnt_cmap.go","sfnt_truetype.go","sfnt_cff.go","sfnt_os2.go","woff.go","woff2.go","eot.go","afm.go"],[("bounds checks","every parse function"),("memory limit","util.go MaxMemory")],observe=["ParseSFNT","ParseWOFF","ParseWOFF2","ParseEOT","ParseAFM","all queries"])
p("C20","Style names and system font matching",
 "A style name made of a known weight word, a known slant word or the one followed by the other maps to that weight and slant, any other name is unknown, and a CSS weight maps to the nearest hundred, halves upwards, from 100 to 900. Matching a comma-separated list of families, generic names standing for their lists, returns a font of the first family that is installed: the exact style, else the nearest weight in CSS order with the same slant, else none. The answer depends only on the fonts and generic lists, never on earlier queries.",
 ["inputs","histories"],"every set of installed fonts, every family list, generic table and style, every query sequence",
 "no test covers matching",
 ["system.go"],[("style parsing","system.go ParseStyle, ParseStyleCSS"),("matching","system.go Match")],observe=["SystemFonts.Match","ParseStyle","ParseStyleCSS"])
p("C21","AFM metrics are read exactly",
 "Parsing an Adobe Font Metrics file exposes every font-wide value, glyph metric, bounding box, name, character and kerning pair as written in the file, whatever the line endings and the order of keys; a file that is cut short, miscounts its lines or refers to glyphs it does not have gives an error.",
 ["inputs"],"every AFM file",
 "one built-in file is parsed by the tests and one value compared",
 ["afm.go"],[("line parser","afm.go ParseAFM"),("queries","afm.go GlyphIndex, Kerning")],observe=["ParseAFM","AFM queries"])
p("C22","Concurrent queries on one font are safe and exact",
 "Any number of goroutines may query one parsed font at the same time, subset it and write it, and each call returns what it would return alone, without data races.",
 ["schedules"],"every interleaving of read-only calls, including the first use of each lazily built cache",
 "no test uses a font from more than one goroutine",
 ["sfnt_cmap.go","sfnt.go","sfnt_truetype.go","sfnt_cff.go"],[("once-only construction of reverse maps","sfnt_cmap.go ToUnicode; sfnt.go postTable.Find")],observe=["all queries"])
p("C23","Results do not depend on map order, time or history",
 "Two runs of the same operations on the same inputs give byte-identical fonts, up to the modification date and the checksums it affects, for subsetting, merging, writing and WOFF2 compression, and repeating a query or a read-only operation any number of times changes nothing.",
 ["histories","configurations"],"every operation sequence, any map iteration order, any wall-clock time",
 "no test runs an operation twice",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cff.go","woff2.go"],[("sorted iteration","sfnt.go Write; woff2.go WriteWOFF2; sfnt_cff.go")],observe=["SFNT.Write","SFNT.WriteWOFF2"])
p("C24","Font-wide metadata is decoded exactly",
 "The header, horizontal and vertical header, maximum profile, OS/2, post and name values, and those of the CFF dictionaries, that a parsed font exposes are those stored in the file, for every table version, with names decoded by platform and encoding; OS/2, maxp and post tables of an unknown version and tables of a wrong size are errors. Subsetting and merging keep them, in memory and in the written file, apart from the documented glyph counts, offsets, names and Unicode ranges; a merged font has the larger maxima, needs the memory of both, and is fixed-pitch only if both are.",
 ["inputs","histories"],"every value of every field and every table version",
 "the tests look at no metadata field",
 ["sfnt.go","sfnt_os2.go","sfnt_cff.go"],[("dictionaries","sfnt_cff.go parseTopDICT, parsePrivateDICT, cffTopDICT.Write, cffPrivateDICT.Write"),("table decoders","sfnt.go parseHead, parseHhea, parseVhea, parseMaxp, parseName, parsePost; sfnt_os2.go parseOS2")],observe=["SFNT.Head","SFNT.Hhea","SFNT.Vhea","SFNT.Maxp","SFNT.OS2","SFNT.Post","SFNT.Name","SFNT.CFF.TopDICT","SFNT.CFF.PrivateDICT"])
p("C25","System font discovery and its cache",
 "Searching directories, nested or listed more than once, finds every .ttf and .otf file whose name table declares an English family and a known style, under that family and style (typographic names taking precedence over legacy ones), and skips every other file without failing. A saved list loads back to one that answers every query identically. On Linux the default directories are those of the system and the font directories below the home directory and every data directory that the environment names.",
 ["inputs","histories"],"every directory tree, mix of font files and other files, every name table, every cache content",
 "no test builds a directory of fonts or a cache file",
 ["system.go"],[("discovery","system.go FindSystemFonts, getMetadata, getSFNTMetadata"),("cache","system.go Save, LoadSystemFonts")],observe=["FindSystemFonts","DefaultFontDirs","LoadSystemFonts","SystemFonts.Save","SystemFonts.Match"])
p("C26","Subset, merged and renamed fonts are valid for any conforming reader",
 "After any history of subsetting, merging and renaming glyphs, the file the library writes says to a reader that knows nothing but the OpenType rules what the font object itself answers: the same number of glyphs, units per em, characters, advances, side bearings, kerning, names, outlines, bounding boxes and instructions. Tables the operation had to make anew are moreover valid in the strict sense: lengths, counts and binary-search fields are right, records, segments, groups and kerning pairs are in the order and without the overlaps the format demands, no glyph beyond the glyph count is named, every glyph description can be decoded, and all Unicode character maps of the font agree.",
 ["inputs","histories"],"every sound font and every history of subsetting, merging and renaming",
 "the tests read back what they write, if at all, with the library's own lenient parsers, so that a mistake made on both sides, or a breach those overlook, goes unnoticed",
 ["sfnt.go","sfnt_subset.go","sfnt_merge.go","sfnt_cmap.go","sfnt_cff.go"],[("subset writers","sfnt_subset.go Subset, SetGlyphNames"),("merge writers","sfnt_merge.go Merge"),("character map writer","sfnt_cmap.go cmapWrite"),("CFF writer","sfnt_cff.go Write"),("file writer","sfnt.go Write")],
 observe=["SFNT.Subset","SFNT.Merge","SFNT.SetGlyphNames","SFNT.Write"])
p("C27","The command line tool does what its arguments ask for",
 "fontcmd subset keeps exactly the glyphs that the options name (glyph IDs and ranges, characters with escapes and ranges (a dash stands for itself at the end and right after a range), glyph names, code points and ranges, categories and scripts, whatever the combination and order) plus the missing glyph, and refuses malformed ones. fontcmd subset and merge write fonts that are the subset or merger the library defines, in the container that the type option, else the extension, else the input says, encoded as asked, with glyph names formed by the pattern; they overwrite a file only by force or consent, exit with an error when an output could not be written and with success otherwise. fontcmd info and draw show the facts of the font and of the glyph asked for, fontcmd css lists every character under its pattern. No argument makes it crash or hang.",
 ["inputs","configurations"],"every command line, every combination of options, every sound font, existing files and answers",
 "the command line tool has no tests",
 ["cmd/fontcmd/subset.go","cmd/fontcmd/merge.go","cmd/fontcmd/css.go","cmd/fontcmd/info.go","cmd/fontcmd/draw.go","cmd/fontcmd/util.go"],[("selection of glyphs","cmd/fontcmd/subset.go Subset.Run"),("names","cmd/fontcmd/subset.go glyph name pattern"),("outputs","cmd/fontcmd/subset.go, merge.go, util.go"),("information","cmd/fontcmd/info.go, draw.go, css.go")],
 observe=["fontcmd subset","fontcmd merge","fontcmd css","fontcmd info","fontcmd draw"])
p("C28","Fonts of other libraries are taken over whole",
 "What FromGoFreetype makes from a font of golang/freetype is a well-formed file that this library reads, with every table that the other library kept, byte for byte, so that glyphs, metrics, kerning, characters and names are those of the original file. What FromGoSFNT returns for a font of x/image, read from memory or from a reader, is the file it was read from. The memory of the other font is never changed, and doing it again gives the same bytes.",
 ["inputs"],"every file that the other library reads: any order, alignment, overlap and padding of its tables, any set of optional tables",
 "the tests take over two sound fonts and look at neither tables nor the source",
 ["font.go"],[("take over","font.go FromGoFreetype, FromGoSFNT")],
 observe=["FromGoFreetype","FromGoSFNT"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
