From 43f22f55adfe6def7beceeabfedf1fc35ce174d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 01/74] fix: cmap format 4: add idDelta to glyph indices read
 from the glyph index array

---
 sfnt_cmap.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..770248e 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -63,7 +63,11 @@ func (subtable *cmapFormat4) Get(r rune) (uint16, bool) {
 			// r-startCode  ->  difference of rune with startCode
 			// -(n-1)  ->  subtract offset from the current idRangeOffset item
 			index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-			return subtable.GlyphIdArray[index], true // index is always valid
+			glyphID := subtable.GlyphIdArray[index] // index is always valid
+			if glyphID != 0 {
+				glyphID += uint16(subtable.IdDelta[i]) // is modulo 65536
+			}
+			return glyphID, true
 		}
 	}
 	return 0, false
@@ -85,6 +89,9 @@ func (subtable *cmapFormat4) ToUnicode(glyphID uint16) []rune {
 					// -(n-1)  ->  subtract offset from the current idRangeOffset item
 					index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
 					id = subtable.GlyphIdArray[index]
+					if id != 0 {
+						id += uint16(subtable.IdDelta[i]) // is modulo 65536
+					}
 				}
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 			}
-- 
2.43.0


From 6e0982d88301eeb098a5af3d898cbe4e6471bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 02/74] fix: cmap format 4 writer: don't lose a run of
 contiguous glyphs that is followed by other glyphs

---
 sfnt_cmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 770248e..f937284 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -226,10 +226,10 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 					if 8 < j-jc && j0 != jc {
 						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
 						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
-						j0, jc = j, j
-					} else if j == len(glyphIDs) {
+					} else {
 						addSegment(rs[i0+j0], rs[i0+(j-1)], glyphIDs[j0:j], j0 == jc)
 					}
+					j0, jc = j, j
 					if j == len(glyphIDs) {
 						break
 					}
-- 
2.43.0


From 512057202d43bb9ea851e9ddef7b6e5e77277a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 03/74] fix: cmap format 4 writer: segments with a zero idDelta
 don't use the glyph index array

---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index f937284..77b83a7 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -185,9 +185,11 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
+	useDelta := []bool{}
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
+		useDelta = append(useDelta, contiguous)
 		if contiguous {
 			// use idDelta
 			firstGlyph := glyphIDs[0]
@@ -273,7 +275,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if useDelta[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-- 
2.43.0


From a50be2c643e4b5f5833cf5993fde799027791b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 04/74] fix: cmap writer: duplicate characters shift the glyphs
 of the characters after them

---
 sfnt_cmap.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 77b83a7..8d0db12 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"slices"
 	"sort"
 	"sync"
 
@@ -328,12 +329,20 @@ func cmapWriteFormat12(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16
 }
 
 func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
+	// sort and remove duplicates and characters that map to .notdef
+	rsOrig := rs
+	rs = make([]rune, 0, len(rsOrig))
+	for _, r := range rsOrig {
+		if runeMap[r] != 0 {
+			rs = append(rs, r)
+		}
+	}
+	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
+	rs = slices.Compact(rs)
 	if len(rs) == 0 {
 		return []byte{0x00, 0x00, 0x00, 0x00}
 	}
 
-	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
-
 	// TODO: it may be more efficient to have several tables of different formats
 	w := parse.NewBinaryWriter([]byte{})
 	w.WriteUint16(0) // version
-- 
2.43.0


From 615e8c0722395d0f8fe567b5eea035d13f92da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 05/74] fix: cmap writer: use format 12 for the character
 0xFFFF and for maps too large for format 4

---
 sfnt_cmap.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 8d0db12..eea54c0 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -287,7 +287,6 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteUint16(glyphID)
 	}
 
-	// TODO: subtable may exceed the range of the length field (16 bits, or 65536 bytes long)
 	binary.BigEndian.PutUint16(w.Bytes()[start+2:], uint16(w.Len()-start)) // set length
 }
 
@@ -354,14 +353,19 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 			maxRune = r
 		}
 	}
-	if maxRune <= 0xffff {
+	// format 4 cannot map 0xFFFF and is at most 65535 bytes long
+	format4 := parse.NewBinaryWriter([]byte{})
+	if maxRune < 0xffff {
+		cmapWriteFormat4(format4, rs, runeMap)
+	}
+	if maxRune < 0xffff && format4.Len() <= math.MaxUint16 {
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(3)  // encodingID
 		w.WriteUint32(20) // subtableOffset
 		w.WriteUint16(3)  // platformID
 		w.WriteUint16(1)  // encodingID
 		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat4(w, rs, runeMap)
+		w.WriteBytes(format4.Bytes())
 	} else {
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(4)  // encodingID
-- 
2.43.0


From 9f480df46c2f4d993bf431b4028c870d1163a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 06/74] fix: Subset writes to the glyph and table slices of the
 caller

---
 sfnt_subset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..32d5555 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// don't write to the slice of the caller when adding dependencies
+	glyphIDs = append([]uint16{}, glyphIDs...)
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
@@ -94,7 +97,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...) // don't sort the slice of the caller
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
-- 
2.43.0


From 67c2140b9688e150b73ce7e02de0c5ac162d4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 07/74] fix: Subset changes the OS/2 table of the original font

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 32d5555..1ebda16 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -446,7 +446,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From aeb48b88c50e8706c905c8b92299cfce8e0e4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 08/74] fix: minimum kerning applies only to the pairs that are
 listed, also in subsets

---
 sfnt_subset.go   |  2 +-
 sfnt_truetype.go | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1ebda16..79d47a7 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -392,7 +392,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						if rOrig == 0 {
 							continue
 						}
-						if value := subtable.Get(lOrig, rOrig); value != 0 {
+						if value, ok := subtable.Get(lOrig, rOrig); ok {
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
 								Value: value,
diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..d93caa0 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -515,7 +515,8 @@ type kernFormat0 struct {
 	Pairs    []kernPair
 }
 
-func (subtable *kernFormat0) Get(l, r uint16) int16 {
+// Get returns the value for a glyph pair and whether the pair is present.
+func (subtable *kernFormat0) Get(l, r uint16) (int16, bool) {
 	key := uint32(l)<<16 | uint32(r)
 	lo, hi := 0, len(subtable.Pairs)
 	for lo < hi {
@@ -526,10 +527,10 @@ func (subtable *kernFormat0) Get(l, r uint16) int16 {
 		} else if key < pair.Key {
 			hi = mid
 		} else {
-			return pair.Value
+			return pair.Value, true
 		}
 	}
-	return 0
+	return 0, false
 }
 
 type kernTable struct {
@@ -538,10 +539,11 @@ type kernTable struct {
 
 func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
+		value, ok := subtable.Get(l, r)
 		if !subtable.Coverage[1] { // kerning values
-			k += subtable.Get(l, r)
-		} else if min := subtable.Get(l, r); k < min { // minimum values (usually last subtable)
-			k = min // TODO: test minimal kerning
+			k += value
+		} else if ok && k < value { // minimum values (usually last subtable)
+			k = value // TODO: test minimal kerning
 		}
 	}
 	return
-- 
2.43.0


From b708e557090f8d3a85abe943b7a0b11c8cf0f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 09/74] fix: kern: skip unsupported subtables and accept the
 subtables before them

---
 sfnt_truetype.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index d93caa0..2b336ea 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -584,15 +584,15 @@ func (sfnt *SFNT) parseKern() error {
 		subtable := kernFormat0{}
 		startPos := r.Pos()
 		subtableVersion := r.ReadUint16()
-		if subtableVersion != 0 {
-			// TODO: supported other kern subtable versions
-			continue
-		}
 		length := r.ReadUint16()
 		format := r.ReadUint8()
 		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if format != 0 {
-			// TODO: supported other kern subtable formats
+		if subtableVersion != 0 || format != 0 {
+			// TODO: supported other kern subtable versions and formats
+			if length < 6 || r.Len() < int64(length)-6 {
+				return fmt.Errorf("kern: bad length for subtable %d", j)
+			}
+			_ = r.ReadBytes(int64(length) - 6)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
@@ -601,13 +601,12 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length) {
+		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length)-14 {
 			if j+1 == int(nTables) {
 				// for some fonts the subtable's length exceeds what can fit in a uint16
 				// we allow only the last subtable to exceed as long as it stays within the table
 				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
+				if length != uint16(14+pairsLength) || r.Len() < pairsLength {
 					return fmt.Errorf("kern: bad length for subtable %d", j)
 				}
 			} else {
@@ -632,7 +631,9 @@ func (sfnt *SFNT) parseKern() error {
 		}
 
 		// read unread bytes if length is bigger
-		_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
+		if unread := int64(length) - (r.Pos() - startPos); 0 < unread {
+			_ = r.ReadBytes(unread)
+		}
 		sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, subtable)
 	}
 	return nil
-- 
2.43.0


From 8a8b0ffeb28f0db1f7079d9128f973f1b64a1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 10/74] fix: kern writer: subtables with more than 10920 pairs
 overflow their length

---
 sfnt_truetype.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 2b336ea..14bfb53 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -640,18 +640,33 @@ func (sfnt *SFNT) parseKern() error {
 }
 
 func (kern *kernTable) Write() []byte {
-	w := parse.NewBinaryWriter([]byte{})
-	w.WriteUint16(0)                           // version
-	w.WriteUint16(uint16(len(kern.Subtables))) // nTables
+	// split subtables so that their lengths fit in a uint16
+	const maxPairs = (math.MaxUint16 - 14) / 6
+	subtables := make([]kernFormat0, 0, len(kern.Subtables))
 	for _, subtable := range kern.Subtables {
+		pairs := subtable.Pairs
+		for maxPairs < len(pairs) {
+			subtables = append(subtables, kernFormat0{Coverage: subtable.Coverage, Pairs: pairs[:maxPairs]})
+			pairs = pairs[maxPairs:]
+		}
+		subtables = append(subtables, kernFormat0{Coverage: subtable.Coverage, Pairs: pairs})
+	}
+
+	w := parse.NewBinaryWriter([]byte{})
+	w.WriteUint16(0)                      // version
+	w.WriteUint16(uint16(len(subtables))) // nTables
+	for _, subtable := range subtables {
 		w.WriteUint16(0)                                     // version
 		w.WriteUint16(6 + 8 + 6*uint16(len(subtable.Pairs))) // length
 		w.WriteUint8(0)                                      // format
 		w.WriteUint8(flagsToUint8(subtable.Coverage))        // coverage
 
 		nPairs := uint16(len(subtable.Pairs))
-		entrySelector := uint16(math.Log2(float64(nPairs)))
-		searchRange := uint16(1 << entrySelector * 6)
+		var entrySelector, searchRange uint16
+		if 0 < nPairs {
+			entrySelector = uint16(math.Log2(float64(nPairs)))
+			searchRange = uint16(1 << entrySelector * 6)
+		}
 		w.WriteUint16(nPairs)
 		w.WriteUint16(searchRange)
 		w.WriteUint16(entrySelector)
-- 
2.43.0


From b957f2b535565d3111782571740ec3b3ef18a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 11/74] fix: glyf: errors instead of panics, wrong data or
 endless work for malformed glyphs; midpoints of far-apart points overflow

---
 sfnt_truetype.go | 69 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 14bfb53..f5bcc81 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -72,7 +72,9 @@ type glyfTable struct {
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || glyphID == math.MaxUint16 {
+		return nil
+	} else if end < start || uint64(len(glyf.data)) < uint64(end) {
 		return nil
 	}
 	return glyf.data[start:end]
@@ -87,12 +89,17 @@ func (glyf *glyfTable) IsComposite(glyphID uint16) bool {
 	return b[0]&0x80 != 0 // sign bit is set on numberOfContours
 }
 
+// maxGlyfComponents is the maximum number of (nested) components of a composite glyph, it bounds the work for glyphs that
+// use the same components over and over.
+const maxGlyfComponents = math.MaxUint16
+
 // Dependencies returns all the glyph IDs that a composite glyph uses.
 func (glyf *glyfTable) Dependencies(glyphID uint16) ([]uint16, error) {
-	return glyf.dependencies(glyphID, 0)
+	components := 0
+	return glyf.dependencies(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error) {
+func (glyf *glyfTable) dependencies(glyphID uint16, level int, components *int) ([]uint16, error) {
 	deps := []uint16{glyphID}
 	b := glyf.Get(glyphID)
 	if b == nil {
@@ -119,7 +126,11 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 
 			flags := r.ReadUint16()
 			subGlyphID := r.ReadUint16()
-			subDeps, err := glyf.dependencies(subGlyphID, level+1)
+			*components++
+			if maxGlyfComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+			}
+			subDeps, err := glyf.dependencies(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
@@ -157,10 +168,11 @@ func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 // Contour returns the contours of a glyph. It unpacks composite glyphs into their final shape.
 func (glyf *glyfTable) Contour(glyphID uint16) (*glyfContour, error) {
 	// TODO: cache output
-	return glyf.contour(glyphID, 0)
+	components := 0
+	return glyf.contour(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error) {
+func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*glyfContour, error) {
 	b := glyf.Get(glyphID)
 	if b == nil {
 		return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
@@ -187,6 +199,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		contour.EndPoints = make([]uint16, numberOfContours)
 		for i := 0; i < int(numberOfContours); i++ {
 			contour.EndPoints[i] = r.ReadUint16()
+			if 0 < i && contour.EndPoints[i] <= contour.EndPoints[i-1] || contour.EndPoints[i] == math.MaxUint16 {
+				return nil, fmt.Errorf("glyf: bad contour end points for glyphID %v", glyphID)
+			}
 		}
 
 		instructionLength := r.ReadUint16()
@@ -195,7 +210,10 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		}
 		contour.Instructions = r.ReadBytes(int64(instructionLength))
 
-		numPoints := int(contour.EndPoints[numberOfContours-1]) + 1
+		numPoints := 0
+		if 0 < numberOfContours {
+			numPoints = int(contour.EndPoints[numberOfContours-1]) + 1
+		}
 		flags := make([]byte, numPoints)
 		contour.OnCurve = make([]bool, numPoints)
 		contour.OverlapSimple = make([]bool, numPoints)
@@ -208,7 +226,13 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OnCurve[i] = flags[i]&0x01 != 0
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
+				if r.Len() < 1 {
+					return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+				}
 				repeats := r.ReadUint8()
+				if numPoints <= i+int(repeats) {
+					return nil, fmt.Errorf("glyf: bad flags for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
@@ -320,14 +344,18 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				hasInstructions = true
 			}
 
-			subContour, err := glyf.contour(subGlyphID, level+1)
+			*components++
+			if maxGlyfComponents < *components {
+				return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+			}
+			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
 
-			var numPoints uint16
-			if 0 < len(contour.EndPoints) {
-				numPoints = contour.EndPoints[len(contour.EndPoints)-1] + 1
+			numPoints := uint16(len(contour.XCoordinates))
+			if math.MaxUint16 < len(contour.XCoordinates)+len(subContour.XCoordinates) {
+				return nil, fmt.Errorf("glyf: too many points for glyphID %v", glyphID)
 			}
 			for i := 0; i < len(subContour.EndPoints); i++ {
 				contour.EndPoints = append(contour.EndPoints, numPoints+subContour.EndPoints[i])
@@ -351,6 +379,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			}
 		}
 		if hasInstructions {
+			if r.Len() < 2 {
+				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+			}
 			instructionLength := r.ReadUint16()
 			if r.Len() < int64(instructionLength) {
 				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
@@ -387,8 +418,8 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					prevOff = true
 				} else {
 					// first and second point are off
-					startX = float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					startY = float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					startX = (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					startY = (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
 				}
@@ -403,16 +434,16 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*float64(contour.XCoordinates[i]), y+f*float64(contour.YCoordinates[i]))
 					prevOff = false
 				} else {
-					midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				}
 			}
 		}
 		if firstOff {
 			if prevOff {
-				midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[j]) / 2.0
-				midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[j]) / 2.0
+				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
+				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
 				p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				p.QuadTo(x+f*float64(contour.XCoordinates[j]), y+f*float64(contour.YCoordinates[j]), x+f*startX, y+f*startY)
 			} else {
@@ -455,9 +486,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+1 < len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+3 < len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From bd32bbb7ee2cd3bfeef2bec5dfa36d05e328390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 12/74] fix: glyf: contours that start with an off-curve point
 followed by an on-curve point

---
 sfnt_truetype.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index f5bcc81..62b476e 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -412,6 +412,7 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					startY = float64(contour.YCoordinates[i])
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
+					prevOff = false
 				} else if !prevOff {
 					// first point is off
 					firstOff = true
@@ -440,7 +441,10 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 				}
 			}
 		}
-		if firstOff {
+		if first {
+			// single point that is off the curve
+			continue
+		} else if firstOff {
 			if prevOff {
 				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
 				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
-- 
2.43.0


From d04ab5ea665ad245a605542bf9d8837eb1310bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 13/74] fix: CFF: ForceBold and real operands of Private and
 Top DICT operators are lost or rounded when writing

---
 sfnt_cff.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..9184bb1 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1670,7 +1670,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		writeDICTEntry(w, 256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		writeDICTEntry(w, 256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		writeDICTEntry(w, 256+17, t.LanguageGroup)
@@ -1854,7 +1854,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 }
 
 func cffDICTFloat(f float64) ([]byte, int) {
-	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', 6, 64)
+	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', -1, 32) // numbers are parsed as 32 bits floats
 	if 1 < len(floatNibbles) && floatNibbles[0] == '0' && floatNibbles[1] == '.' {
 		floatNibbles = floatNibbles[1:]
 	}
@@ -1886,7 +1886,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From a95b1d668d5af2ed218bcf14c4f32dede4e16f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 14/74] fix: CFF writer: offsets and counts of INDEX and DICT
 structures, indices of repeated strings

---
 sfnt_cff.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 9184bb1..7d95eaf 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1185,7 +1185,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
@@ -1263,7 +1263,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1272,7 +1272,7 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if t.Len() == 0 {
 		return []byte{0, 0}, nil // zero count
 	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
@@ -1294,7 +1294,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
@@ -2226,8 +2226,12 @@ func (cff *cffTable) Write() ([]byte, error) {
 			}
 
 			// write offset to Private DICT
-			localSubrsOffset = len(privateDICT) + 1                  // key
-			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
+			localSubrsOffset = len(privateDICT) + 1 // key
+			localSubrsOffsetSize := 0               // val
+			for localSubrsOffsetSize != cffDICTIntegerSize(localSubrsOffset+localSubrsOffsetSize) {
+				localSubrsOffsetSize = cffDICTIntegerSize(localSubrsOffset + localSubrsOffsetSize)
+			}
+			localSubrsOffset += localSubrsOffsetSize
 			wPrivate := parse.NewBinaryWriter(privateDICT)
 			writeDICTEntry(wPrivate, 19, localSubrsOffset)
 			privateDICT = wPrivate.Bytes()
@@ -2245,7 +2249,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2274,13 +2278,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+correct+1) - lenTopDICTINDEXOffSize) // offSize in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From 5d6f93d9b17c984733244b8d1464c57defd6317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 15/74] fix: CFF: errors instead of panics, endless loops or
 wrong data for malformed tables

---
 sfnt_cff.go | 95 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 72 insertions(+), 23 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 7d95eaf..53db9a2 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -96,6 +96,9 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: Global Subrs INDEX: %w", err)
 	}
 
+	if topDICT.CharStrings < 0 || len(b) < topDICT.CharStrings {
+		return fmt.Errorf("CFF: bad CharStrings INDEX offset")
+	}
 	r.Seek(int64(topDICT.CharStrings), 0)
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
@@ -111,6 +114,9 @@ func (sfnt *SFNT) parseCFF() error {
 		charset = make([]string, charStringsINDEX.Len())
 		copy(charset, cffStandardStrings)
 	} else if 1 < charStringsINDEX.Len() {
+		if len(b) <= topDICT.Charset {
+			return fmt.Errorf("CFF: bad Charset")
+		}
 		r.Seek(int64(topDICT.Charset), 0)
 		if r.Len() == 0 {
 			return fmt.Errorf("CFF: bad Charset")
@@ -166,7 +172,7 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		if topDICT.PrivateOffset < 0 || topDICT.PrivateLength < 0 || len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
@@ -176,7 +182,7 @@ func (sfnt *SFNT) parseCFF() error {
 
 		localSubrsINDEX := &cffINDEX{}
 		if privateDICT.Subrs != 0 {
-			if len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-topDICT.PrivateOffset < privateDICT.Subrs {
 				return fmt.Errorf("CFF: bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(topDICT.PrivateOffset+privateDICT.Subrs), 0)
@@ -340,6 +346,9 @@ const (
 	cff2Blend   int32 = 16
 )
 
+// maxCharStringOperators is the maximum number of operators for a glyph, including those of the subroutines it calls
+const maxCharStringOperators = 1000000
+
 func cffReadCharStringNumber(r *parse.BinaryReader, b0 int32) int32 {
 	var v int32
 	if b0 == 28 {
@@ -412,6 +421,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	r := parse.NewBinaryReaderBytes(charString)
 
 	hints := 0
+	operators := 0
 	stack := []int32{}
 	beforeMoveto := true
 	for {
@@ -436,6 +446,11 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				b0 = 256 + int32(r.ReadUint8())
 			}
 
+			// nested subroutines can expand to more operators than any realistic glyph has
+			if operators++; maxCharStringOperators < operators {
+				return fmt.Errorf("%v: too many operators", table)
+			}
+
 			if beforeMoveto && cff.version == 1 {
 				if b0 == cffHstem || b0 == cffVstem || b0 == cffVmoveto || b0 == cffEndchar || cffHstemhm <= b0 && b0 <= cffVstemhm {
 					// stack clearing operators, parse optional width
@@ -1155,7 +1170,9 @@ func (t *cffINDEX) Get(i uint16) []byte {
 
 func (t *cffINDEX) GetSID(sid int) string {
 	// only for String INDEX
-	if sid < len(cffStandardStrings) {
+	if sid < 0 {
+		return ""
+	} else if sid < len(cffStandardStrings) {
 		return cffStandardStrings[sid]
 	}
 	sid -= len(cffStandardStrings)
@@ -1251,9 +1268,14 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
-	if r.Len() < int64(t.offset[count]) {
+	if t.offset[0] != 0 || r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offsets")
+		}
+	}
 	t.data = r.ReadBytes(int64(t.offset[count]))
 	return t, nil
 }
@@ -1792,7 +1814,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 		return int(r.ReadInt32()), math.NaN()
 	} else if b0 == 30 {
 		num := []byte{}
-		for {
+		for 0 < r.Len() {
 			b := r.ReadUint8()
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
@@ -1818,6 +1840,7 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 				b = b << 4
 			}
 		}
+		return 0, math.NaN() // missing end
 	} else if b0 == 31 {
 		// reserved
 		return 0, math.NaN()
@@ -1989,7 +2012,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
+	if len(t.fd) <= i {
 		return 0, false
 	}
 	return t.fd[i], true
@@ -2014,7 +2037,7 @@ func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 }
 
 func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cffFontINDEX, error) {
-	if len(b) < fdArray {
+	if fdArray < 0 || len(b) < fdArray {
 		return nil, fmt.Errorf("bad Font INDEX offset")
 	}
 
@@ -2033,7 +2056,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		if fontDICT.PrivateOffset < 0 || fontDICT.PrivateLength < 0 || len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
@@ -2043,7 +2066,7 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		fonts.private[i] = privateDICT
 
 		if privateDICT.Subrs != 0 {
-			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
+			if privateDICT.Subrs < 0 || len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
 			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
@@ -2056,31 +2079,57 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		}
 	}
 
+	if fdSelect < 0 || len(b) <= fdSelect {
+		return nil, fmt.Errorf("bad FDSelect offset")
+	}
 	r.Seek(int64(fdSelect), 0)
 	format := r.ReadUint8()
 	if format == 0 {
+		if r.Len() < int64(nGlyphs) {
+			return nil, fmt.Errorf("FDSelect: bad data")
+		}
 		fonts.fds = make([]uint8, nGlyphs)
 		for i := 0; i < nGlyphs; i++ {
 			fonts.fds[i] = r.ReadUint8()
+			if fontINDEX.Len() <= int(fonts.fds[i]) {
+				return nil, fmt.Errorf("FDSelect: bad font index")
+			}
 		}
-	} else if format == 3 {
-		nRanges := r.ReadUint16()
-		fonts.first = make([]uint32, nRanges+1)
-		fonts.fd = make([]uint16, nRanges)
-		for i := 0; i < int(nRanges); i++ {
-			fonts.first[i] = uint32(r.ReadUint16())
-			fonts.fd[i] = uint16(r.ReadUint8())
+	} else if format == 3 || isCFF2 && format == 4 {
+		var nRanges uint32
+		if format == 3 {
+			nRanges = uint32(r.ReadUint16())
+			if r.Len() < 3*int64(nRanges)+2 {
+				return nil, fmt.Errorf("FDSelect: bad data")
+			}
+		} else {
+			nRanges = r.ReadUint32()
+			if r.Len() < 6*int64(nRanges)+4 {
+				return nil, fmt.Errorf("FDSelect: bad data")
+			}
 		}
-		fonts.first[nRanges] = uint32(r.ReadUint16())
-	} else if isCFF2 && format == 4 {
-		nRanges := r.ReadUint32()
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
-		for i := 0; i < int(nRanges); i++ {
-			fonts.first[i] = r.ReadUint32()
-			fonts.fd[i] = r.ReadUint16()
+		for i := 0; i <= int(nRanges); i++ {
+			if format == 3 {
+				fonts.first[i] = uint32(r.ReadUint16())
+			} else {
+				fonts.first[i] = r.ReadUint32()
+			}
+			if i == 0 && fonts.first[i] != 0 || 0 < i && fonts.first[i] <= fonts.first[i-1] {
+				return nil, fmt.Errorf("FDSelect: bad ranges")
+			} else if i == int(nRanges) {
+				break
+			}
+			if format == 3 {
+				fonts.fd[i] = uint16(r.ReadUint8())
+			} else {
+				fonts.fd[i] = r.ReadUint16()
+			}
+			if fontINDEX.Len() <= int(fonts.fd[i]) {
+				return nil, fmt.Errorf("FDSelect: bad font index")
+			}
 		}
-		fonts.first[nRanges] = r.ReadUint32()
 	} else {
 		return nil, fmt.Errorf("FDSelect: bad format")
 	}
-- 
2.43.0


From 94f80e0b1da512ff2f2e8b79cccbf9e15361726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 16/74] fix: CFF: implicit vertical stem hints before cntrmask
 count for the mask length

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 53db9a2..3d2c18b 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -497,7 +497,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:0]
 			case cffHintmask, cffCntrmask:
-				if b0 == cffHintmask && 0 < len(stack) {
+				if 0 < len(stack) {
 					// vstem or vstemhm
 					if len(stack)%2 != 0 {
 						return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
-- 
2.43.0


From d062845efc4f0a428f0f12644a6aea8a1d256865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 17/74] fix: CFF: renumbering of subroutine calls for other
 encodings of the number, changes of only the bias, and nested calls; fonts
 without local subroutines

---
 sfnt_cff.go | 77 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3d2c18b..e7ad69a 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -862,6 +862,30 @@ func cffNumberSize(i int) int {
 	return 5
 }
 
+// cffLastNumberSize returns the number of bytes with which the number at the end of a charstring is encoded, or zero if b doesn't end with the number.
+func cffLastNumberSize(b []byte, num int32) uint32 {
+	for _, n := range []int{1, 2, 3, 5} {
+		if len(b) < n {
+			break
+		}
+		b0 := int32(b[len(b)-n])
+		size := 1
+		if b0 == cffShortint {
+			size = 3
+		} else if b0 == 255 {
+			size = 5
+		} else if 247 <= b0 {
+			size = 2
+		} else if b0 < 32 {
+			continue
+		}
+		if size == n && cffReadCharStringNumber(parse.NewBinaryReaderBytes(b[len(b)-n+1:]), b0) == num {
+			return uint32(n)
+		}
+	}
+	return 0
+}
+
 type cffSubrIndexChange struct {
 	start, end uint32
 	index      int32
@@ -872,6 +896,8 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 	if 1 < len(cff.fonts.localSubrs) {
 		return fmt.Errorf("only single-font CFFs are supported")
 	} else if len(localSubrsMap) == 0 && len(globalSubrsMap) == 0 {
+		cff.globalSubrs = globalSubrs
+		cff.setLocalSubrs(localSubrs)
 		return nil
 	}
 
@@ -912,31 +938,32 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					return err
 				}
 
-				mapped := false
-				var oldBias int32
-				var newIndex, newBias int32
+				newIndex := oldIndex
+				var oldBias, newBias int32
 				if b0 == cffCallsubr {
 					if v, ok := localSubrsMap[oldIndex]; ok {
-						oldBias = oldLocalSubrsBias
 						newIndex = v
-						newBias = localSubrsBias
-						mapped = true
 					}
+					oldBias = oldLocalSubrsBias
+					newBias = localSubrsBias
 				} else {
 					if v, ok := globalSubrsMap[oldIndex]; ok {
-						oldBias = oldGlobalSubrsBias
 						newIndex = v
-						newBias = globalSubrsBias
-						mapped = true
 					}
+					oldBias = oldGlobalSubrsBias
+					newBias = globalSubrsBias
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
-					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
-					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
-
+				if skipDepth == 0 && oldIndex-oldBias != newIndex-newBias {
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
+
+					pos := uint32(r.Pos()) - 1 // -1 as we're past the operator
+					lenNumber := cffLastNumberSize(index.data[offset:offset+pos], num)
+					if lenNumber == 0 {
+						return fmt.Errorf("subroutine index must precede the operator")
+					}
+					posNumber := pos - lenNumber
 					indexChanges[index] = append(indexChanges[index], cffSubrIndexChange{
 						start: offset + posNumber,
 						end:   offset + posNumber + lenNumber,
@@ -1044,13 +1071,20 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 	// set new Subrs INDEX, charStrings already modified
 	cff.globalSubrs = globalSubrs
 
-	// copy pointers in fonts
-	fonts := *cff.fonts
-	cff.fonts = &fonts
-	cff.fonts.localSubrs = []*cffINDEX{localSubrs}
+	cff.setLocalSubrs(localSubrs)
 	return nil
 }
 
+// setLocalSubrs sets the local subroutines for all glyphs of a single-font CFF without modifying the fonts INDEX that may be shared with other tables
+func (cff *cffTable) setLocalSubrs(localSubrs *cffINDEX) {
+	cff.fonts = &cffFontINDEX{
+		private:    cff.fonts.private,
+		localSubrs: []*cffINDEX{localSubrs},
+		first:      []uint32{0, uint32(cff.charStrings.Len())},
+		fd:         []uint16{0},
+	}
+}
+
 // reindex subroutines in the order in which they appear and rearrange the global and local subroutines INDEX
 func (cff *cffTable) ReindexSubrs() error {
 	if 1 < len(cff.fonts.localSubrs) {
@@ -1213,8 +1247,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	if o == nil || len(o.offset) < 2 {
 		return
 	} else if len(t.offset) < 2 {
-		t.offset = o.offset
-		t.data = o.data
+		*t = *o.Copy()
 		return
 	}
 
@@ -1224,7 +1257,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 		offset[len(t.offset)+i] = uint32(len(t.data)) + o.offset[i+1]
 	}
 	t.offset = offset
-	t.data = append(t.data, o.data...)
+	t.data = append(t.data[:len(t.data):len(t.data)], o.data...)
 }
 
 func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
@@ -2074,7 +2107,9 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			if err != nil {
 				return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
 			}
-		} else if isCFF2 {
+		} else if !isCFF2 {
+			fonts.localSubrs[i] = &cffINDEX{}
+		} else {
 			return nil, fmt.Errorf("Private DICT must have Local Subrs INDEX offset")
 		}
 	}
-- 
2.43.0


From b438077e547fda2fc82e87beaa1cde57359ccdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 18/74] fix: Subset: vertical metrics, characters shadowed by
 another subtable, missing tables, bad glyph IDs, and repeated table names

---
 sfnt_subset.go | 73 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 79d47a7..7e55259 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -31,13 +31,23 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	// don't write to the slice of the caller when adding dependencies
 	glyphIDs = append([]uint16{}, glyphIDs...)
 
+	numGlyphs := int(sfnt.NumGlyphs())
+	if sfnt.Maxp == nil && sfnt.CFF != nil {
+		numGlyphs = sfnt.CFF.charStrings.Len()
+	}
+	for _, glyphID := range glyphIDs {
+		if numGlyphs <= int(glyphID) {
+			return nil, fmt.Errorf("bad glyphID %v", glyphID)
+		}
+	}
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
 		glyphMap[glyphID] = uint16(subsetGlyphID)
 	}
 
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		// add dependencies for composite glyphs add the end
 		origLen := len(glyphIDs)
 		for i := 0; i < origLen; i++ {
@@ -106,8 +116,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
 	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
-	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+	if sfnt.Hmtx != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		}
 	}
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
@@ -123,6 +135,20 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 	//}
 
+	heights := make([]uint16, len(glyphIDs)) // for vhea and vmtx
+	if sfnt.Vmtx != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			heights[subsetGlyphID] = sfnt.Vmtx.Advance(glyphID)
+		}
+	}
+	numberOfVMetrics := uint16(len(glyphIDs)) // for vhea and vmtx
+	for 1 < numberOfVMetrics {
+		if heights[numberOfVMetrics-1] != heights[numberOfVMetrics-2] {
+			break
+		}
+		numberOfVMetrics--
+	}
+
 	// copy to new SFNT
 	sfntOld := sfnt
 	sfnt = &SFNT{
@@ -136,7 +162,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 	// copy and rewrite tables
 	for _, tag := range tags {
-		if tag == "maxp" {
+		if tag == "maxp" && sfntOld.Maxp != nil {
 			maxp := *sfntOld.Maxp
 			sfnt.Maxp = &maxp
 			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
@@ -145,7 +171,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 	for _, tag := range tags {
 		table, ok := sfntOld.Tables[tag]
-		if !ok {
+		if _, done := sfnt.Tables[tag]; !ok || done {
 			continue
 		}
 
@@ -156,9 +182,11 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			rs := make([]rune, 0, len(glyphIDs))
 			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
 			for subsetGlyphID, glyphID := range glyphIDs {
-				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
+				for _, r := range sfntOld.Cmap.ToUnicode(glyphID) {
+					if sfntOld.Cmap.Get(r) != glyphID {
+						continue // mapped to another glyph by an earlier subtable
+					}
+					rs = append(rs, r)
 					runeMap[r] = uint16(subsetGlyphID)
 				}
 			}
@@ -412,6 +440,35 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			}
 			sfnt.Tables[tag] = kern.Write()
 			sfnt.Kern = &kern
+		case "vhea":
+			w := parse.NewBinaryWriter(make([]byte, 0, len(table)))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(numberOfVMetrics) // numberOfVMetrics
+			w.WriteBytes(table[36:])
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		case "vmtx":
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+			sfnt.Vmtx.TopSideBearings = make([]int16, len(glyphIDs)-int(numberOfVMetrics))
+
+			n := 4*int(numberOfVMetrics) + 2*(len(glyphIDs)-int(numberOfVMetrics))
+			w := parse.NewBinaryWriter(make([]byte, 0, n))
+			for subsetGlyphID, glyphID := range glyphIDs {
+				tsb := sfntOld.Vmtx.TopSideBearing(glyphID)
+				if subsetGlyphID < int(numberOfVMetrics) {
+					sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = heights[subsetGlyphID]
+					sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = tsb
+					w.WriteUint16(heights[subsetGlyphID])
+				} else {
+					sfnt.Vmtx.TopSideBearings[subsetGlyphID-int(numberOfVMetrics)] = tsb
+				}
+				w.WriteInt16(tsb)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		case "loca":
 			var w *parse.BinaryWriter
 			if indexToLocFormat == 0 {
-- 
2.43.0


From 1d12e58d2ef127d0f8ca47f79776052c4eb13b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:43 +0000
Subject: [PATCH 19/74] fix: embedded CFF fonts: parse the tables other than
 CFF and cmap; Write overwrites the version when there is no head table

---
 sfnt.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f187967..70f2558 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -398,20 +398,26 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 	}
 
-	if embedded && sfnt.IsCFF {
-		if err := sfnt.parseCFF(); err != nil {
-			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+	// required tables before parsing other tables, the head and maxp tables are optional for embedded CFF fonts
+	_, hasHead := tables["head"]
+	_, hasMaxp := tables["maxp"]
+	if hasHead || !embedded || !sfnt.IsCFF {
+		if err := sfnt.parseHead(); err != nil {
 			return nil, err
 		}
-		return sfnt, nil
 	}
-
-	// required tables before parsing other tables
-	if err := sfnt.parseHead(); err != nil {
-		return nil, err
-	} else if err := sfnt.parseMaxp(); err != nil {
-		return nil, err
+	if hasMaxp || !embedded || !sfnt.IsCFF {
+		if err := sfnt.parseMaxp(); err != nil {
+			return nil, err
+		}
+	} else {
+		if err := sfnt.parseCFF(); err != nil {
+			return nil, err
+		}
+		sfnt.Maxp = &maxpTable{
+			Version:   0x00005000,
+			NumGlyphs: uint16(sfnt.CFF.charStrings.Len()),
+		}
 	}
 	if sfnt.IsTrueType {
 		if err := sfnt.parseLoca(); err != nil {
@@ -493,7 +499,7 @@ func (sfnt *SFNT) Write() []byte {
 	w.WriteBytes(make([]byte, numTables<<4))
 
 	// write tables
-	var checksumAdjustmentPos uint32
+	var checksumAdjustmentPos uint32 // zero if there is no head table
 	offsets, lengths := make([]uint32, numTables), make([]uint32, numTables)
 	for i, tag := range tags {
 		offsets[i] = uint32(w.Len())
@@ -527,7 +533,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 {
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
-- 
2.43.0


From 4df7e469b9960f95d5a4fe538249d86e709ae537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 20/74] fix: queries on fonts that lack optional tables and for
 glyphs out of range; overflow of the external leading

---
 sfnt.go | 58 +++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 70f2558..c8a7d05 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -113,8 +113,13 @@ func (sfnt *SFNT) GlyphToUnicode(glyphID uint16) []rune {
 // GlyphName returns the name of the glyph. It returns an empty string when no name exists.
 func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return ""
+		}
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
+	} else if sfnt.Post == nil {
+		return ""
 	}
 	return sfnt.Post.Get(glyphID)
 }
@@ -122,12 +127,17 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 // FindGlyphName returns the glyphID for a given glyph name. When the name is not defined it returns 0.
 func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return 0
+		}
 		for glyphID, glyphName := range sfnt.CFF.charset {
 			if name == glyphName {
 				return uint16(glyphID)
 			}
 		}
 		return 0
+	} else if sfnt.Post == nil {
+		return 0
 	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
@@ -137,6 +147,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		return 0, 0, 0
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -147,7 +160,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
 
-	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
+	if sfnt.OS2 == nil {
+		return ascender, descender, lineGap
+	} else if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
 			ascender = uint16(sfnt.OS2.STypoAscender)
 			descender = uint16(-sfnt.OS2.STypoDescender)
@@ -160,8 +175,10 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	} else {
 		if sfnt.OS2.UsWinAscent != 0 && sfnt.OS2.UsWinDescent != 0 {
 			ascender, descender = sfnt.OS2.UsWinAscent, sfnt.OS2.UsWinDescent
-			externalLeading := int(sfnt.Hhea.Ascender-sfnt.Hhea.Descender+sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent+sfnt.OS2.UsWinDescent)
-			if 0 < externalLeading {
+			externalLeading := int(sfnt.Hhea.Ascender) - int(sfnt.Hhea.Descender) + int(sfnt.Hhea.LineGap) - (int(sfnt.OS2.UsWinAscent) + int(sfnt.OS2.UsWinDescent))
+			if math.MaxUint16 < externalLeading {
+				lineGap = math.MaxUint16
+			} else if 0 < externalLeading {
 				lineGap = uint16(externalLeading)
 			} else {
 				lineGap = 0
@@ -173,7 +190,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 
 // GlyphPath draws the glyph's contour as a path to the pather interface. It will use the specified ppem (pixels-per-EM) for hinting purposes. The path is draws to the (x,y) coordinate and scaled using the given scale factor.
 func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64, hinting Hinting) error {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf == nil || sfnt.IsCFF && sfnt.CFF == nil {
+		return fmt.Errorf("missing table with glyph outlines")
+	} else if sfnt.IsTrueType {
 		return sfnt.Glyf.ToPath(p, glyphID, ppem, x, y, scale, hinting)
 	} else if sfnt.IsCFF {
 		return sfnt.CFF.ToPath(p, glyphID, ppem, x, y, scale, hinting)
@@ -183,20 +202,25 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
 
 // GlyphBounds returns the bounding rectangle (xmin,ymin,xmax,ymax) of the glyph.
 func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf == nil || sfnt.IsCFF && sfnt.CFF == nil {
+		return 0, 0, 0, 0
+	} else if sfnt.IsTrueType {
 		contour, err := sfnt.Glyf.Contour(glyphID)
 		if err == nil {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
@@ -727,14 +751,19 @@ type hmtxTable struct {
 }
 
 func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
-	if uint16(len(hmtx.HMetrics)) <= glyphID {
-		return hmtx.LeftSideBearings[glyphID-uint16(len(hmtx.HMetrics))]
+	if len(hmtx.HMetrics) <= int(glyphID) {
+		if i := int(glyphID) - len(hmtx.HMetrics); i < len(hmtx.LeftSideBearings) {
+			return hmtx.LeftSideBearings[i]
+		}
+		return 0
 	}
 	return hmtx.HMetrics[glyphID].LeftSideBearing
 }
 
 func (hmtx *hmtxTable) Advance(glyphID uint16) uint16 {
-	if uint16(len(hmtx.HMetrics)) <= glyphID {
+	if len(hmtx.HMetrics) == 0 {
+		return 0
+	} else if len(hmtx.HMetrics) <= int(glyphID) {
 		glyphID = uint16(len(hmtx.HMetrics)) - 1
 	}
 	return hmtx.HMetrics[glyphID].AdvanceWidth
@@ -785,14 +814,19 @@ type vmtxTable struct {
 }
 
 func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
-	if uint16(len(vmtx.VMetrics)) <= glyphID {
-		return vmtx.TopSideBearings[glyphID-uint16(len(vmtx.VMetrics))]
+	if len(vmtx.VMetrics) <= int(glyphID) {
+		if i := int(glyphID) - len(vmtx.VMetrics); i < len(vmtx.TopSideBearings) {
+			return vmtx.TopSideBearings[i]
+		}
+		return 0
 	}
 	return vmtx.VMetrics[glyphID].TopSideBearing
 }
 
 func (vmtx *vmtxTable) Advance(glyphID uint16) uint16 {
-	if uint16(len(vmtx.VMetrics)) <= glyphID {
+	if len(vmtx.VMetrics) == 0 {
+		return 0
+	} else if len(vmtx.VMetrics) <= int(glyphID) {
 		glyphID = uint16(len(vmtx.VMetrics)) - 1
 	}
 	return vmtx.VMetrics[glyphID].AdvanceHeight
-- 
2.43.0


From a7b89ea61c9ccb103a5741e6c38381bad839bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:38 +0000
Subject: [PATCH 21/74] fix: CFF glyph bounds include the origin and round the
 minima up

---
 sfnt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index c8a7d05..1b4312c 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -226,9 +226,9 @@ func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
 		}
 	} else if sfnt.IsCFF {
-		p := &bboxPather{}
-		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
-			return int16(p.XMin), int16(p.YMin), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
+		p := &bboxPather{math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)}
+		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil && p.XMin <= p.XMax {
+			return int16(math.Floor(p.XMin)), int16(math.Floor(p.YMin)), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
 		}
 	}
 	return 0, 0, 0, 0
-- 
2.43.0


From 8528b0c934ef38a0312b43968a3135033b6c28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:18 +0000
Subject: [PATCH 22/74] fix: SetGlyphNames panics, loses or shares names; post
 version 1 for fonts with fewer glyphs; rounding of negative italic angles

---
 sfnt.go        | 54 ++++++++++++++++++++++++++++++++++++++++++++---
 sfnt_subset.go | 57 +++++++++++++++++++++++++-------------------------
 2 files changed, 80 insertions(+), 31 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 1b4312c..39256e8 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1095,6 +1095,54 @@ func (post *postTable) Find(name string) (uint16, bool) {
 	return glyphID, ok
 }
 
+// withNames returns a copy of the post table with the given names for the glyphs, where the empty string is used for glyphs without a name.
+func (post *postTable) withNames(names []string) (*postTable, error) {
+	t := &postTable{
+		ItalicAngle:        post.ItalicAngle,
+		UnderlinePosition:  post.UnderlinePosition,
+		UnderlineThickness: post.UnderlineThickness,
+		IsFixedPitch:       post.IsFixedPitch,
+		MinMemType42:       post.MinMemType42,
+		MaxMemType42:       post.MaxMemType42,
+		MinMemType1:        post.MinMemType1,
+		MaxMemType1:        post.MaxMemType1,
+	}
+
+	hasNames := false
+	for _, name := range names {
+		if name != "" {
+			hasNames = true
+			break
+		}
+	}
+	if !hasNames {
+		return t, nil
+	}
+
+	indices := make(map[string]uint16, 258)
+	for i, name := range macintoshGlyphNames {
+		if _, ok := indices[name]; !ok {
+			indices[name] = uint16(i)
+		}
+	}
+	t.NumGlyphs = uint16(len(names))
+	t.glyphNameIndex = make([]uint16, len(names))
+	t.stringData = [][]byte{}
+	for glyphID, name := range names {
+		index, ok := indices[name]
+		if !ok {
+			if math.MaxUint16 < len(t.stringData)+258 {
+				return nil, fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(len(t.stringData) + 258)
+			t.stringData = append(t.stringData, []byte(name))
+			indices[name] = index
+		}
+		t.glyphNameIndex[glyphID] = index
+	}
+	return t, nil
+}
+
 func (sfnt *SFNT) parsePost() error {
 	if sfnt.Maxp == nil {
 		return fmt.Errorf("post: missing maxp table")
@@ -1121,8 +1169,8 @@ func (sfnt *SFNT) parsePost() error {
 	sfnt.Post.MinMemType1 = r.ReadUint32()
 	sfnt.Post.MaxMemType1 = r.ReadUint32()
 	if version == 0x00010000 && sfnt.IsTrueType && len(b) == 32 {
-		sfnt.Post.glyphNameIndex = make([]uint16, 258)
-		for i := 0; i < 258; i++ {
+		sfnt.Post.glyphNameIndex = make([]uint16, min(258, int(sfnt.Maxp.NumGlyphs)))
+		for i := range sfnt.Post.glyphNameIndex {
 			sfnt.Post.glyphNameIndex[i] = uint16(i)
 		}
 		return nil
@@ -1170,7 +1218,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 7e55259..98471c9 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -544,13 +544,27 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	return sfnt, nil
 }
 
+// SetGlyphNames sets the names of the glyphs. Names for more glyphs than the font has are ignored, and glyphs for which there are no names are named .notdef.
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
+		if _, ok := sfnt.Tables["CFF "]; !ok || sfnt.CFF == nil {
+			return fmt.Errorf("CFF table doesn't exist")
+		}
+
+		// don't keep nor write to the slice of the caller, the first glyph is always .notdef
+		charset := make([]string, sfnt.CFF.charStrings.Len())
+		for i := copy(charset, names); i < len(charset); i++ {
+			charset[i] = ".notdef"
+		}
+		if 0 < len(charset) {
+			charset[0] = ".notdef"
+		}
+
 		same := false
-		if len(sfnt.CFF.charset) == len(names) {
+		if len(sfnt.CFF.charset) == len(charset) {
 			same = true
 			for i, name := range sfnt.CFF.charset {
-				if name != names[i] {
+				if name != charset[i] {
 					same = false
 					break
 				}
@@ -560,48 +574,35 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
-		b, err := sfnt.CFF.Write()
+		cff := *sfnt.CFF
+		cff.charset = charset
+		b, err := cff.Write()
 		if err != nil {
 			return err
 		}
+		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
 		return nil
 	}
 
-	if _, ok := sfnt.Tables["post"]; !ok {
+	if _, ok := sfnt.Tables["post"]; !ok || sfnt.Post == nil {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
-
-	lastIndex := uint16(258)
-	if int(sfnt.NumGlyphs()) < len(names) {
-		names = names[:sfnt.NumGlyphs()]
+	glyphNames := make([]string, sfnt.NumGlyphs())
+	for i := copy(glyphNames, names); i < len(glyphNames); i++ {
+		glyphNames[i] = ".notdef"
 	}
-	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
-		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+	post, err := sfnt.Post.withNames(glyphNames)
+	if err != nil {
+		return err
 	}
-
-	b, err := sfnt.Post.Write()
+	b, err := post.Write()
 	if err != nil {
 		return err
 	}
 
+	sfnt.Post = post
 	sfnt.Tables["post"] = b
 	return nil
 }
-- 
2.43.0


From bd0fdb44f00e021a532ae73a775b644e0ff4112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:58 +0000
Subject: [PATCH 23/74] fix: Merge: no changes when it returns an error nor to
 shared bytes; loca of the merged glyphs, kerning, vertical metrics, names,
 characters and subroutines

---
 sfnt_cff.go   |   8 +
 sfnt_merge.go | 559 +++++++++++++++++++++++++++-----------------------
 2 files changed, 312 insertions(+), 255 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e7ad69a..c19ca92 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1075,6 +1075,14 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 	return nil
 }
 
+// localSubrs returns the local subroutines of a single-font CFF
+func (cff *cffTable) localSubrs() *cffINDEX {
+	if len(cff.fonts.localSubrs) == 0 {
+		return &cffINDEX{}
+	}
+	return cff.fonts.localSubrs[0]
+}
+
 // setLocalSubrs sets the local subroutines for all glyphs of a single-font CFF without modifying the fonts INDEX that may be shared with other tables
 func (cff *cffTable) setLocalSubrs(localSubrs *cffINDEX) {
 	cff.fonts = &cffFontINDEX{
diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..c00dbf1 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -12,7 +12,7 @@ type MergeOptions struct {
 	RearrangeCmap bool // Rearrange glyph unicode mapping, assigning a sequential codepoint for each glyph in order starting at 33 (exclamation). May be useful when embedding into a PDF with a custom unicode mapping.
 }
 
-// Merge merges the glyphs of another font into the current one in-place by merging the glyf, loca, kern tables (or CFF table for CFF fonts), as well as the hmtx, cmap, and post tables. Also updates the maxp, head, and OS/2 tables. The other font remains untouched.
+// Merge merges the glyphs of another font into the current one in-place by merging the glyf, loca, kern tables (or CFF table for CFF fonts), as well as the hmtx, vmtx, cmap, and post tables. Also updates the maxp, head, and OS/2 tables. The other font remains untouched, as does the current font when an error is returned.
 func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	if sfnt.IsTrueType != sfnt2.IsTrueType || sfnt.IsCFF != sfnt2.IsCFF {
 		return fmt.Errorf("can only merge two TrueType or two CFF fonts")
@@ -22,247 +22,234 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return nil // sfnt2 only contains .notdef
 	}
 
+	// The new tables are put in merged and set on sfnt at the end, so that sfnt doesn't change in case of an error. The
+	// bytes of existing tables may be shared with other fonts and must not be written to.
+	merged := *sfnt
+	merged.Tables = make(map[string][]byte, len(sfnt.Tables))
+	for tag, table := range sfnt.Tables {
+		merged.Tables[tag] = table
+	}
+
 	// update maxp table
 	origNumGlyphs := sfnt.NumGlyphs()
 	numGlyphs := origNumGlyphs + sfnt2.NumGlyphs() - 1 // -1 to skip .notdef
+	maxp := *sfnt.Maxp
+	merged.Maxp = &maxp
+	merged.Maxp.NumGlyphs = numGlyphs
 	if _, ok := sfnt.Tables["maxp"]; ok {
-		sfnt.Maxp.NumGlyphs = numGlyphs
 		if !sfnt.IsCFF {
-			sfnt.Maxp.MaxPoints = max(sfnt.Maxp.MaxPoints, sfnt2.Maxp.MaxPoints)
-			sfnt.Maxp.MaxContours = max(sfnt.Maxp.MaxContours, sfnt2.Maxp.MaxContours)
-			sfnt.Maxp.MaxCompositePoints = max(sfnt.Maxp.MaxCompositePoints, sfnt2.Maxp.MaxCompositePoints)
-			sfnt.Maxp.MaxCompositeContours = max(sfnt.Maxp.MaxCompositeContours, sfnt2.Maxp.MaxCompositeContours)
-			sfnt.Maxp.MaxZones = max(sfnt.Maxp.MaxZones, sfnt2.Maxp.MaxZones)
-			sfnt.Maxp.MaxTwilightPoints = max(sfnt.Maxp.MaxTwilightPoints, sfnt2.Maxp.MaxTwilightPoints)
-			sfnt.Maxp.MaxStorage = max(sfnt.Maxp.MaxStorage, sfnt2.Maxp.MaxStorage)
-			sfnt.Maxp.MaxFunctionDefs = max(sfnt.Maxp.MaxFunctionDefs, sfnt2.Maxp.MaxFunctionDefs)
-			sfnt.Maxp.MaxInstructionDefs = max(sfnt.Maxp.MaxInstructionDefs, sfnt2.Maxp.MaxInstructionDefs)
-			sfnt.Maxp.MaxStackElements = max(sfnt.Maxp.MaxStackElements, sfnt2.Maxp.MaxStackElements)
-			sfnt.Maxp.MaxSizeOfInstructions = max(sfnt.Maxp.MaxSizeOfInstructions, sfnt2.Maxp.MaxSizeOfInstructions)
-			sfnt.Maxp.MaxComponentElements = max(sfnt.Maxp.MaxComponentElements, sfnt2.Maxp.MaxComponentElements)
-			sfnt.Maxp.MaxComponentDepth = max(sfnt.Maxp.MaxComponentDepth, sfnt2.Maxp.MaxComponentDepth)
-		}
-		sfnt.Tables["maxp"] = sfnt.Maxp.Write()
+			merged.Maxp.MaxPoints = max(sfnt.Maxp.MaxPoints, sfnt2.Maxp.MaxPoints)
+			merged.Maxp.MaxContours = max(sfnt.Maxp.MaxContours, sfnt2.Maxp.MaxContours)
+			merged.Maxp.MaxCompositePoints = max(sfnt.Maxp.MaxCompositePoints, sfnt2.Maxp.MaxCompositePoints)
+			merged.Maxp.MaxCompositeContours = max(sfnt.Maxp.MaxCompositeContours, sfnt2.Maxp.MaxCompositeContours)
+			merged.Maxp.MaxZones = max(sfnt.Maxp.MaxZones, sfnt2.Maxp.MaxZones)
+			merged.Maxp.MaxTwilightPoints = max(sfnt.Maxp.MaxTwilightPoints, sfnt2.Maxp.MaxTwilightPoints)
+			merged.Maxp.MaxStorage = max(sfnt.Maxp.MaxStorage, sfnt2.Maxp.MaxStorage)
+			merged.Maxp.MaxFunctionDefs = max(sfnt.Maxp.MaxFunctionDefs, sfnt2.Maxp.MaxFunctionDefs)
+			merged.Maxp.MaxInstructionDefs = max(sfnt.Maxp.MaxInstructionDefs, sfnt2.Maxp.MaxInstructionDefs)
+			merged.Maxp.MaxStackElements = max(sfnt.Maxp.MaxStackElements, sfnt2.Maxp.MaxStackElements)
+			merged.Maxp.MaxSizeOfInstructions = max(sfnt.Maxp.MaxSizeOfInstructions, sfnt2.Maxp.MaxSizeOfInstructions)
+			merged.Maxp.MaxComponentElements = max(sfnt.Maxp.MaxComponentElements, sfnt2.Maxp.MaxComponentElements)
+			merged.Maxp.MaxComponentDepth = max(sfnt.Maxp.MaxComponentDepth, sfnt2.Maxp.MaxComponentDepth)
+		}
+		merged.Tables["maxp"] = merged.Maxp.Write()
 	}
 
 	// update glyf/loca or CFF tables
 	if sfnt.IsTrueType {
-		glyf, ok1 := sfnt.Tables["glyf"]
-		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok1 := sfnt.Tables["glyf"]
+		_, ok2 := sfnt2.Tables["glyf"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
 		if !ok1 || !ok2 || !ok3 || !ok4 {
 			return fmt.Errorf("glyf of loca tables missing")
 		}
 
-		// skip .notdef
-		firstGlyf, _ := sfnt2.Loca.Get(1)
-		glyf2 = glyf2[firstGlyf:]
-
-		// update glyphIDs of composite glyphs and make sure not to write to glyf2
-		startGlyf := uint32(len(glyf))
-		glyf = append(glyf, glyf2...)
-		for glyphID := 1; glyphID < int(sfnt2.NumGlyphs()); glyphID++ {
-			// +1 to skip .notdef
-			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
-				start, _ := sfnt2.Loca.Get(uint16(glyphID))
-				start += startGlyf - firstGlyf
-
-				offset := uint32(10)
-				for {
-					flags := binary.BigEndian.Uint16(glyf[start+offset:])
-					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
-
-					length, more := glyfCompositeLength(flags)
-					if !more {
-						break
-					}
-					offset += length
+		glyf := parse.NewBinaryWriter(make([]byte, 0, len(sfnt.Tables["glyf"])+len(sfnt2.Tables["glyf"])))
+		offsets := make([]uint32, 1, int(numGlyphs)+1)
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				b := sfnt.Glyf.Get(uint16(glyphID))
+				if b == nil {
+					return fmt.Errorf("glyf: bad glyphID %v", glyphID)
 				}
-			}
-		}
-		sfnt.Tables["glyf"] = glyf
-		sfnt.Glyf.data = glyf
-
-		if _, ok := sfnt.Tables["loca"]; ok {
-			indexToLocFormat := int16(1) // long format
-			if len(glyf) <= math.MaxUint16 {
-				indexToLocFormat = 0 // short format
-			}
-			n := 2 * (numGlyphs + 1)
-			if indexToLocFormat == 1 {
-				n *= 2
-			}
-
-			// write current offsets
-			glyphID := 0
-			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
-				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
-				sfnt.Head.IndexToLocFormat = indexToLocFormat
-			}
-
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
-				var offset uint32
-				if glyphID < int(origNumGlyphs) {
-					offset, _ = sfnt.Loca.Get(uint16(glyphID))
-				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
-					offset += startGlyf - firstGlyf
+				glyf.WriteBytes(b)
+			} else {
+				glyphID2 := uint16(1+glyphID) - origNumGlyphs // +1 to skip .notdef
+				b := sfnt2.Glyf.Get(glyphID2)
+				if b == nil {
+					return fmt.Errorf("glyf: bad glyphID %v", glyphID2)
 				}
+				start := uint32(glyf.Len())
+				glyf.WriteBytes(b)
 
-				if indexToLocFormat == 0 {
-					// short format
-					w.WriteUint16(uint16(offset / 2))
-				} else {
-					// long format
-					w.WriteUint32(offset)
-				}
-			}
+				if sfnt2.Glyf.IsComposite(glyphID2) {
+					// update glyphIDs of composite glyphs
+					if _, err := sfnt2.Glyf.Dependencies(glyphID2); err != nil {
+						return err
+					}
 
-			sfnt.Tables["loca"] = w.Bytes()
-			sfnt.Loca.Format = indexToLocFormat
-			sfnt.Loca.data = w.Bytes()
-		}
+					offset := uint32(10)
+					for {
+						flags := binary.BigEndian.Uint16(b[offset:])
+						if subGlyphID := binary.BigEndian.Uint16(b[offset+2:]); subGlyphID != 0 {
+							binary.BigEndian.PutUint16(glyf.Bytes()[start+offset+2:], origNumGlyphs+subGlyphID-1)
+						}
 
-		if _, ok := sfnt.Tables["kern"]; ok {
-			// update glyph IDs in kern table
-			for _, subtable := range sfnt2.Kern.Subtables {
-				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
-						// skip .notdef
-						continue
-					}
-					pairs[i] = kernPair{
-						Key:   offset + pair.Key,
-						Value: pair.Value,
+						length, more := glyfCompositeLength(flags)
+						if !more {
+							break
+						}
+						offset += length
 					}
 				}
-				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
-					Coverage: subtable.Coverage,
-					Pairs:    pairs,
-				})
 			}
-			if 0 < len(sfnt.Kern.Subtables) {
-				sfnt.Tables["kern"] = sfnt.Kern.Write()
+
+			// padding to ensure glyph offsets are on even bytes for loca short format
+			if glyf.Len()%2 == 1 {
+				glyf.WriteByte(0)
 			}
-		}
-	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
-		// find new number of subroutines, which may change the index encoding / bias
-		localSubrsLen, globalSubrsLen := 0, 0 // new length
-		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
-		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
-		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
-		}
-		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
-			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
-		}
-		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
-			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
-		}
-		if 0 < sfnt2.CFF.globalSubrs.Len() {
-			globalSubrs2 = sfnt2.CFF.globalSubrs
-			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
-		}
-
-		// update index encoding (identity mapping) for the original glyphs
-		var localSubrsMap map[int32]int32  // old to new index
-		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
-				localSubrsMap[int32(i)] = int32(i)
+			if math.MaxUint32 < glyf.Len() {
+				return fmt.Errorf("glyf: table too large")
 			}
+			offsets = append(offsets, uint32(glyf.Len()))
 		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
-				globalSubrsMap[int32(i)] = int32(i)
+
+		indexToLocFormat := int16(1) // long format
+		if glyf.Len() <= math.MaxUint16 {
+			indexToLocFormat = 0 // short format
+		}
+		loca := parse.NewBinaryWriter(make([]byte, 0, 4*len(offsets)))
+		for _, offset := range offsets {
+			if indexToLocFormat == 0 {
+				loca.WriteUint16(uint16(offset / 2))
+			} else {
+				loca.WriteUint32(offset)
 			}
 		}
-		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
-			return err
+
+		merged.Tables["glyf"] = glyf.Bytes()
+		merged.Tables["loca"] = loca.Bytes()
+		merged.Loca = &locaTable{
+			Format: indexToLocFormat,
+			data:   loca.Bytes(),
+		}
+		merged.Glyf = &glyfTable{
+			data: glyf.Bytes(),
+			loca: merged.Loca,
+		}
+		if table, ok := sfnt.Tables["head"]; ok {
+			table = append([]byte{}, table...)
+			binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
+			merged.Tables["head"] = table
+
+			head := *sfnt.Head
+			merged.Head = &head
+			merged.Head.IndexToLocFormat = indexToLocFormat
+		}
+	} else if sfnt.IsCFF {
+		if _, ok := sfnt.Tables["CFF "]; !ok || sfnt2.CFF == nil {
+			return fmt.Errorf("CFF table missing")
+		} else if sfnt.CFF.charStrings.Len() != int(origNumGlyphs) || sfnt2.CFF.charStrings.Len() != int(sfnt2.NumGlyphs()) {
+			return fmt.Errorf("CFF: number of charstrings doesn't match maxp table numGlyphs")
+		} else if 1 < len(sfnt.CFF.fonts.localSubrs) || 1 < len(sfnt2.CFF.fonts.localSubrs) {
+			return fmt.Errorf("CFF: only single-font CFFs are supported")
 		}
 
-		// update indices and index encoding for the merging glyphs
-		var localSubrsMap2 map[int32]int32  // old to new index
-		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
-			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
-			for i := 0; i < localSubrs2.Len(); i++ {
-				localSubrsMap2[int32(i)] = int32(offset + i)
+		// merge subroutines and change the indices of the subroutines that the charStrings of both fonts call, either
+		// because their position or because the encoding / bias changes
+		mergeSubrs := func(subrs, subrs2 *cffINDEX) (*cffINDEX, map[int32]int32, map[int32]int32) {
+			index := &cffINDEX{}
+			index.Extend(subrs)
+			index.Extend(subrs2)
+
+			subrsMap := make(map[int32]int32, subrs.Len())   // old to new index
+			subrsMap2 := make(map[int32]int32, subrs2.Len()) // old to new index
+			for i := 0; i < subrs.Len(); i++ {
+				subrsMap[int32(i)] = int32(i)
 			}
-		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
-			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
-			for i := 0; i < globalSubrs2.Len(); i++ {
-				globalSubrsMap2[int32(i)] = int32(offset + i)
+			for i := 0; i < subrs2.Len(); i++ {
+				subrsMap2[int32(i)] = int32(subrs.Len() + i)
 			}
+			return index, subrsMap, subrsMap2
+		}
+		localSubrs, localSubrsMap, localSubrsMap2 := mergeSubrs(sfnt.CFF.localSubrs(), sfnt2.CFF.localSubrs())
+		globalSubrs, globalSubrsMap, globalSubrsMap2 := mergeSubrs(sfnt.CFF.globalSubrs, sfnt2.CFF.globalSubrs)
+		if math.MaxUint16 < localSubrs.Len() || math.MaxUint16 < globalSubrs.Len() {
+			return fmt.Errorf("CFF: too many subroutines for one font")
 		}
 
-		// copy to keep original untouched
-		cff2 := &cffTable{
-			version:     sfnt2.CFF.version,
-			charStrings: sfnt2.CFF.charStrings.Copy(),
-			globalSubrs: sfnt2.CFF.globalSubrs,
-			fonts:       sfnt2.CFF.fonts,
+		// copy to keep originals untouched
+		cff := *sfnt.CFF
+		cff.charStrings = sfnt.CFF.charStrings.Copy()
+		if err := cff.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
+			return err
+		}
+		cff2 := *sfnt2.CFF
+		cff2.charStrings = sfnt2.CFF.charStrings.Copy()
+		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
+			return err
 		}
 
-		// remove .notdef
+		// merge charStrings without .notdef
 		offset := cff2.charStrings.offset[1]
 		cff2.charStrings.offset = cff2.charStrings.offset[1:]
 		cff2.charStrings.data = cff2.charStrings.data[offset:]
 		for i := range cff2.charStrings.offset {
 			cff2.charStrings.offset[i] -= offset
 		}
+		cff.charStrings.Extend(cff2.charStrings)
+		cff.globalSubrs = globalSubrs
+		cff.setLocalSubrs(localSubrs)
 
-		// update subroutine indices for merging font
-		localSubrs.Extend(localSubrs2)
-		globalSubrs.Extend(globalSubrs2)
-		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
-			return err
+		// update charset
+		if sfnt.CFF.charset != nil || sfnt2.CFF.charset != nil {
+			cff.charset = make([]string, numGlyphs)
+			copy(cff.charset, sfnt.CFF.charset)
+			if 1 < len(sfnt2.CFF.charset) {
+				copy(cff.charset[origNumGlyphs:], sfnt2.CFF.charset[1:])
+			}
 		}
 
-		// merge charStrings
-		sfnt.CFF.charStrings.Extend(cff2.charStrings)
-		sfnt.CFF.globalSubrs = globalSubrs
-		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
+		b, err := cff.Write()
+		if err != nil {
+			return err
+		}
+		merged.Tables["CFF "] = b
+		merged.CFF = &cff
+	}
 
-		// update charset
-		if sfnt2.CFF.charset != nil {
-			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
-				for i := 0; i < numGlyphs; i++ {
-					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
+	if kern2 := sfnt2.Kern; kern2 != nil && 0 < len(kern2.Subtables) {
+		// update glyph IDs in kern table
+		kern := &kernTable{}
+		if sfnt.Kern != nil {
+			kern.Subtables = append(kern.Subtables, sfnt.Kern.Subtables...)
+		}
+		offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
+		for _, subtable := range kern2.Subtables {
+			pairs := make([]kernPair, 0, len(subtable.Pairs))
+			for _, pair := range subtable.Pairs {
+				l, r := uint16(pair.Key>>16), uint16(pair.Key)
+				if l == 0 || r == 0 || sfnt2.NumGlyphs() <= l || sfnt2.NumGlyphs() <= r {
+					// skip .notdef
+					continue
 				}
+				pairs = append(pairs, kernPair{
+					Key:   offset + pair.Key,
+					Value: pair.Value,
+				})
 			}
-			sfnt.CFF.charset = append(sfnt.CFF.charset, sfnt2.CFF.charset[1:]...)
-		} else if sfnt.CFF.charset != nil {
-			numGlyphs := sfnt2.CFF.charStrings.Len() - 1
-			for i := 0; i < numGlyphs; i++ {
-				sfnt.CFF.charset = append(sfnt.CFF.charset, "")
+			if 0 < len(pairs) {
+				kern.Subtables = append(kern.Subtables, kernFormat0{
+					Coverage: subtable.Coverage,
+					Pairs:    pairs,
+				})
 			}
 		}
-
-		b, err := sfnt.CFF.Write()
-		if err != nil {
-			return err
+		if 0 < len(kern.Subtables) {
+			merged.Kern = kern
+			merged.Tables["kern"] = kern.Write()
 		}
-		sfnt.Tables["CFF "] = b
 	}
 
 	if _, ok := sfnt.Tables["hmtx"]; ok {
@@ -273,9 +260,11 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				lsbs[glyphID] = sfnt.Hmtx.LeftSideBearing(uint16(glyphID))
 				advances[glyphID] = sfnt.Hmtx.Advance(uint16(glyphID))
 			} else {
-				// +1 to skip .notdef
-				lsbs[glyphID] = sfnt2.Hmtx.LeftSideBearing(uint16(1+glyphID) - origNumGlyphs)
-				advances[glyphID] = sfnt2.Hmtx.Advance(uint16(1+glyphID) - origNumGlyphs)
+				glyphID2 := uint16(1+glyphID) - origNumGlyphs // +1 to skip .notdef
+				if sfnt2.Hmtx != nil {
+					lsbs[glyphID] = sfnt2.Hmtx.LeftSideBearing(glyphID2)
+				}
+				advances[glyphID] = sfnt2.GlyphAdvance(glyphID2)
 			}
 		}
 		numberOfHMetrics := numGlyphs
@@ -286,25 +275,80 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			numberOfHMetrics--
 		}
 
-		sfnt.Hmtx = &hmtxTable{}
-		sfnt.Hmtx.HMetrics = make([]hmtxLongHorMetric, numberOfHMetrics)
-		sfnt.Hmtx.LeftSideBearings = lsbs[numberOfHMetrics:]
+		merged.Hmtx = &hmtxTable{}
+		merged.Hmtx.HMetrics = make([]hmtxLongHorMetric, numberOfHMetrics)
+		merged.Hmtx.LeftSideBearings = lsbs[numberOfHMetrics:]
 
 		n := 4*int(numberOfHMetrics) + 2*(int(numGlyphs)-int(numberOfHMetrics))
 		w := parse.NewBinaryWriter(make([]byte, 0, n))
 		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
 			if glyphID < int(numberOfHMetrics) {
-				sfnt.Hmtx.HMetrics[glyphID].AdvanceWidth = advances[glyphID]
-				sfnt.Hmtx.HMetrics[glyphID].LeftSideBearing = lsbs[glyphID]
+				merged.Hmtx.HMetrics[glyphID].AdvanceWidth = advances[glyphID]
+				merged.Hmtx.HMetrics[glyphID].LeftSideBearing = lsbs[glyphID]
 				w.WriteUint16(advances[glyphID])
 			}
 			w.WriteInt16(lsbs[glyphID])
 		}
-		sfnt.Tables["hmtx"] = w.Bytes()
+		merged.Tables["hmtx"] = w.Bytes()
 
 		if table, ok := sfnt.Tables["hhea"]; ok {
+			table = append([]byte{}, table...)
 			binary.BigEndian.PutUint16(table[34:], numberOfHMetrics) // numberOfHMetrics
-			sfnt.Hhea.NumberOfHMetrics = numberOfHMetrics
+			merged.Tables["hhea"] = table
+
+			hhea := *sfnt.Hhea
+			merged.Hhea = &hhea
+			merged.Hhea.NumberOfHMetrics = numberOfHMetrics
+		}
+	}
+
+	if _, ok := sfnt.Tables["vmtx"]; ok {
+		tsbs := make([]int16, numGlyphs)
+		advances := make([]uint16, numGlyphs)
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				tsbs[glyphID] = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+				advances[glyphID] = sfnt.Vmtx.Advance(uint16(glyphID))
+			} else {
+				glyphID2 := uint16(1+glyphID) - origNumGlyphs // +1 to skip .notdef
+				if sfnt2.Vmtx != nil {
+					tsbs[glyphID] = sfnt2.Vmtx.TopSideBearing(glyphID2)
+				}
+				advances[glyphID] = sfnt2.GlyphVerticalAdvance(glyphID2)
+			}
+		}
+		numberOfVMetrics := numGlyphs
+		for 1 < numberOfVMetrics {
+			if advances[numberOfVMetrics-1] != advances[numberOfVMetrics-2] {
+				break
+			}
+			numberOfVMetrics--
+		}
+
+		merged.Vmtx = &vmtxTable{}
+		merged.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+		merged.Vmtx.TopSideBearings = tsbs[numberOfVMetrics:]
+
+		n := 4*int(numberOfVMetrics) + 2*(int(numGlyphs)-int(numberOfVMetrics))
+		w := parse.NewBinaryWriter(make([]byte, 0, n))
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(numberOfVMetrics) {
+				merged.Vmtx.VMetrics[glyphID].AdvanceHeight = advances[glyphID]
+				merged.Vmtx.VMetrics[glyphID].TopSideBearing = tsbs[glyphID]
+				w.WriteUint16(advances[glyphID])
+			}
+			w.WriteInt16(tsbs[glyphID])
+		}
+		merged.Tables["vmtx"] = w.Bytes()
+
+		if table, ok := sfnt.Tables["vhea"]; ok {
+			table = append([]byte{}, table...)
+			binary.BigEndian.PutUint16(table[34:], numberOfVMetrics) // numberOfVMetrics
+			merged.Tables["vhea"] = table
+
+			vhea := *sfnt.Vhea
+			merged.Vhea = &vhea
+			merged.Vhea.NumberOfVMetrics = numberOfVMetrics
 		}
 	}
 
@@ -320,22 +364,18 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				runeMap[r] = uint16(glyphID)
 			}
 		} else {
-			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
-				var rsGlyph []rune
-				if glyphID < int(origNumGlyphs) {
-					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
-				} else {
-					rsGlyph = sfnt2.Cmap.ToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
+				orig, origGlyphID := sfnt, uint16(glyphID)
+				if int(origNumGlyphs) <= glyphID {
+					orig, origGlyphID = sfnt2, uint16(1+glyphID)-origNumGlyphs // +1 to skip .notdef
 				}
-				rs = append(rs, rsGlyph...)
-				for _, r := range rsGlyph {
-					if otherGlyphID, ok := runeMap[r]; ok {
-						glyphName, otherGlyphName := "", ""
-						if glyphID < int(origNumGlyphs) {
-							glyphName = sfnt.GlyphName(uint16(glyphID))
-						} else {
-							glyphName = sfnt2.GlyphName(uint16(1+glyphID) - origNumGlyphs)
-						}
+				for _, r := range orig.GlyphToUnicode(origGlyphID) {
+					if orig.GlyphIndex(r) != origGlyphID {
+						continue // mapped to another glyph by an earlier subtable
+					}
+					rs = append(rs, r)
+					if otherGlyphID, ok := runeMap[r]; ok && otherGlyphID != uint16(glyphID) {
+						glyphName, otherGlyphName := orig.GlyphName(origGlyphID), ""
 						if otherGlyphID < origNumGlyphs {
 							otherGlyphName = sfnt.GlyphName(otherGlyphID)
 						} else {
@@ -348,58 +388,67 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			}
 		}
 
-		sfnt.Tables["cmap"] = cmapWrite(rs, runeMap)
-		if err := sfnt.parseCmap(); err != nil {
+		merged.Tables["cmap"] = cmapWrite(rs, runeMap)
+		if err := merged.parseCmap(); err != nil {
 			return err
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
-		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
-		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
-		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
-		sfnt.OS2.UlUnicodeRange4 |= sfnt2.OS2.UlUnicodeRange4
-		binary.BigEndian.PutUint32(table[42:], sfnt.OS2.UlUnicodeRange1)
-		binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
-		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
-		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt2.OS2 != nil {
+		os2 := *sfnt.OS2
+		merged.OS2 = &os2
+		merged.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
+		merged.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
+		merged.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
+		merged.OS2.UlUnicodeRange4 |= sfnt2.OS2.UlUnicodeRange4
+
+		table = append([]byte{}, table...)
+		binary.BigEndian.PutUint32(table[42:], merged.OS2.UlUnicodeRange1)
+		binary.BigEndian.PutUint32(table[46:], merged.OS2.UlUnicodeRange2)
+		binary.BigEndian.PutUint32(table[50:], merged.OS2.UlUnicodeRange3)
+		binary.BigEndian.PutUint32(table[54:], merged.OS2.UlUnicodeRange4)
+		merged.Tables["OS/2"] = table
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-		if sfnt.Post.NumGlyphs == 0 {
-			// initialise the first font to zero
-			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
-		}
-		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
-			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
-				// reuse existing names
-				index = sfnt.Post.glyphNameIndex[glyphID]
-			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			} else {
-				index = uint16(len(sfnt.Post.stringData) + 258)
-				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
+	if _, ok := sfnt.Tables["post"]; ok {
+		names := make([]string, numGlyphs)
+		if sfnt.IsTrueType {
+			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+				if glyphID < int(origNumGlyphs) {
+					names[glyphID] = sfnt.GlyphName(uint16(glyphID))
+				} else {
+					names[glyphID] = sfnt2.GlyphName(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
+				}
 			}
-			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
 		}
 
-		if sfnt2.Post.IsFixedPitch == 0 {
-			sfnt.Post.IsFixedPitch = 0
+		post, err := sfnt.Post.withNames(names)
+		if err != nil {
+			return err
+		}
+		if sfnt2.Post != nil {
+			if sfnt2.Post.IsFixedPitch == 0 {
+				post.IsFixedPitch = 0
+			}
+			post.MinMemType42 += sfnt2.Post.MinMemType42
+			post.MaxMemType42 += sfnt2.Post.MaxMemType42
+			post.MinMemType1 += sfnt2.Post.MinMemType1
+			post.MaxMemType1 += sfnt2.Post.MaxMemType1
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
-		sfnt.Post.NumGlyphs = numGlyphs
 
-		b, err := sfnt.Post.Write()
+		b, err := post.Write()
 		if err != nil {
 			return fmt.Errorf("invalid post table: %v", err)
 		}
-		sfnt.Tables["post"] = b
+		merged.Tables["post"] = b
+		merged.Post = post
+	}
+
+	merged.Length = 12
+	for _, table := range merged.Tables {
+		merged.Length += uint32(16 + len(table))        // 16 for the table record
+		merged.Length += (4 - uint32(len(table))&3) & 3 // padding
 	}
+	*sfnt = merged
 	return nil
 }
-- 
2.43.0


From 5048d4899bf375a74307f823b038ccdf2abd23ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 24/74] fix: WOFF2 and EOT: data that is read to its end is
 refused, partial reads panic, the last bit of a bitmap is lost

---
 eot.go   |  4 +--
 util.go  | 90 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 woff2.go | 44 +++++++++++++--------------
 3 files changed, 113 insertions(+), 25 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..55925e2 100644
--- a/eot.go
+++ b/eot.go
@@ -4,13 +4,11 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-
-	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
 	fontDataSize := r.ReadUint32() // FontDataSize
diff --git a/util.go b/util.go
index d728225..17c067c 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,9 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
+
+	"github.com/tdewolff/parse/v2"
 )
 
 // MaxMemory is the maximum memory that can be allocated by a font.
@@ -14,6 +17,93 @@ var ErrExceedsMemory = fmt.Errorf("memory limit exceded")
 // ErrInvalidFontData is returned if the font is malformed.
 var ErrInvalidFontData = fmt.Errorf("invalid font data")
 
+// binaryReader is a parse.BinaryReader for which Err returns io.EOF only when reading beyond the end of the data, not when reading all of the data. Reads beyond the end return zero values.
+type binaryReader struct {
+	*parse.BinaryReader
+	eof bool
+}
+
+func newBinaryReader(b []byte) *binaryReader {
+	return &binaryReader{BinaryReader: parse.NewBinaryReaderBytes(b)}
+}
+
+func (r *binaryReader) has(n int64) bool {
+	if r.Len() < n {
+		r.eof = true
+	}
+	return !r.eof
+}
+
+// Err returns io.EOF if there was a read beyond the end of the data.
+func (r *binaryReader) Err() error {
+	if r.eof {
+		return io.EOF
+	}
+	return nil
+}
+
+// ReadBytes reads n bytes.
+func (r *binaryReader) ReadBytes(n int64) []byte {
+	if !r.has(n) || n == 0 {
+		return nil
+	}
+	return r.BinaryReader.ReadBytes(n)
+}
+
+// ReadString reads a string of length n.
+func (r *binaryReader) ReadString(n int64) string {
+	return string(r.ReadBytes(n))
+}
+
+// ReadUint8 reads a uint8.
+func (r *binaryReader) ReadUint8() uint8 {
+	if !r.has(1) {
+		return 0
+	}
+	return r.BinaryReader.ReadUint8()
+}
+
+// ReadUint16 reads a uint16.
+func (r *binaryReader) ReadUint16() uint16 {
+	if !r.has(2) {
+		return 0
+	}
+	return r.BinaryReader.ReadUint16()
+}
+
+// ReadUint32 reads a uint32.
+func (r *binaryReader) ReadUint32() uint32 {
+	if !r.has(4) {
+		return 0
+	}
+	return r.BinaryReader.ReadUint32()
+}
+
+// ReadInt16 reads an int16.
+func (r *binaryReader) ReadInt16() int16 {
+	return int16(r.ReadUint16())
+}
+
+// bitmapReader reads bits from most to least significant.
+type bitmapReader struct {
+	buf []byte
+	pos int
+}
+
+func newBitmapReader(buf []byte) *bitmapReader {
+	return &bitmapReader{buf, 0}
+}
+
+// Read reads the next bit, which is false beyond the end of the data.
+func (r *bitmapReader) Read() bool {
+	if len(r.buf) <= r.pos>>3 {
+		return false
+	}
+	bit := r.buf[r.pos>>3]&(0x80>>(r.pos&7)) != 0
+	r.pos++
+	return bit
+}
+
 func calcChecksum(b []byte) uint32 {
 	if len(b)%4 != 0 {
 		panic("data not multiple of four bytes")
diff --git a/woff2.go b/woff2.go
index 2bf4e17..ac4f8d4 100644
--- a/woff2.go
+++ b/woff2.go
@@ -57,7 +57,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOF2" {
 		return nil, fmt.Errorf("bad signature")
@@ -209,7 +209,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
 		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
+			rGlyf := newBinaryReader(tables[iGlyf].data)
 			_ = rGlyf.ReadUint32() // version
 			numGlyphs := uint32(rGlyf.ReadUint16())
 			indexFormat := rGlyf.ReadUint16()
@@ -338,7 +338,7 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
 	numGlyphs := r.ReadUint16()
@@ -355,17 +355,17 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
-	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
-	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
-	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
-	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
-	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
-	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
-	var overlapSimpleBitmap *parse.BitmapReader
+	nContourStream := newBinaryReader(r.ReadBytes(int64(nContourStreamSize)))
+	nPointsStream := newBinaryReader(r.ReadBytes(int64(nPointsStreamSize)))
+	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
+	glyphStream := newBinaryReader(r.ReadBytes(int64(glyphStreamSize)))
+	compositeStream := newBinaryReader(r.ReadBytes(int64(compositeStreamSize)))
+	bboxBitmap := newBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
+	instructionStream := newBinaryReader(r.ReadBytes(int64(instructionStreamSize)))
+	var overlapSimpleBitmap *bitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmap = newBitmapReader(r.ReadBytes(int64(bitmapSize)))
 	}
 	if r.Err() == io.EOF {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
@@ -619,7 +619,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
-	rHead := parse.NewBinaryReaderBytes(head)
+	rHead := newBinaryReader(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
 	if rHead.Err() == io.EOF {
@@ -627,7 +627,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numGlyphs
-	rMaxp := parse.NewBinaryReaderBytes(maxp)
+	rMaxp := newBinaryReader(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
 	if rMaxp.Err() == io.EOF {
@@ -635,7 +635,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numHMetrics
-	rHhea := parse.NewBinaryReaderBytes(hhea)
+	rHhea := newBinaryReader(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
 	if rHhea.Err() == io.EOF {
@@ -654,9 +654,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	if locaLength != uint32(len(loca)) {
 		return nil, ErrInvalidFontData
 	}
-	rLoca := parse.NewBinaryReaderBytes(loca)
+	rLoca := newBinaryReader(loca)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	flags := r.ReadUint8() // flags
 	reconstructProportional := flags&0x01 != 0
 	reconstructMonospaced := flags&0x02 != 0
@@ -693,7 +693,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// extract xMin values from glyf table using loca indices
-	rGlyf := parse.NewBinaryReaderBytes(glyf)
+	rGlyf := newBinaryReader(glyf)
 	iGlyphMin := uint16(0)
 	iGlyphMax := numGlyphs
 	if !reconstructProportional {
@@ -744,7 +744,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	return w.Bytes(), nil
 }
 
-func readUintBase128(r *parse.BinaryReader) (uint32, error) {
+func readUintBase128(r *binaryReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
@@ -766,7 +766,7 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *binaryReader) uint16 {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	code := r.ReadUint8()
 	if code == 253 {
@@ -1034,7 +1034,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			instructionStream.WriteBytes(contour.Instructions)
 		} else {
 			// composite glyph
-			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			r := newBinaryReader(glyf.Get(uint16(glyphID)))
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
-- 
2.43.0


From 0e192e55ededcd8b27ae6458db571d498b8cca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 25/74] fix: EOT and WOFF: decoding changes the data of the
 caller; lengths beyond the file and unbounded decompression in WOFF

---
 eot.go  | 3 ++-
 woff.go | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/eot.go b/eot.go
index 55925e2..83caf8c 100644
--- a/eot.go
+++ b/eot.go
@@ -71,7 +71,8 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
-		for i := 0; i < len(fontData); i++ {
+		fontData = append([]byte{}, fontData...) // don't change the data of the caller
+		for i := range fontData {
 			fontData[i] ^= 0x50
 		}
 	}
diff --git a/woff.go b/woff.go
index 865f3a8..3668bf5 100644
--- a/woff.go
+++ b/woff.go
@@ -96,7 +96,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		compLength := r.ReadUint32()
 		origLength := r.ReadUint32()
 		origChecksum := r.ReadUint32()
-		if length-compLength < offset {
+		if length < compLength || length-compLength < offset {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
@@ -171,7 +171,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			if err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if _, err = io.Copy(&buf, r); err != nil {
+			if _, err = io.Copy(&buf, io.LimitReader(r, int64(table.origLength)+1)); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
 			if err = r.Close(); err != nil {
@@ -198,6 +198,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte{}, data...) // don't change the data of the caller
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From baacb21bce415ec412ce675d1ad361af0393b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:03 +0000
Subject: [PATCH 26/74] fix: WOFF2: untransformed glyf, composite instructions
 and bearings, overlap flags, declared bounds, transformed hmtx length, large
 deltas, short loca offsets, unbounded decompression

---
 woff2.go | 143 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 84 insertions(+), 59 deletions(-)

diff --git a/woff2.go b/woff2.go
index ac4f8d4..3632e7d 100644
--- a/woff2.go
+++ b/woff2.go
@@ -171,7 +171,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
-	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
+	if _, err := io.Copy(dataBuf, io.LimitReader(rBrotli, int64(uncompressedSize)+1)); err != nil {
 		return nil, err
 	}
 	data := dataBuf.Bytes()
@@ -208,17 +208,6 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
-		} else {
-			rGlyf := newBinaryReader(tables[iGlyf].data)
-			_ = rGlyf.ReadUint32() // version
-			numGlyphs := uint32(rGlyf.ReadUint16())
-			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
-				return nil, ErrInvalidFontData
-			}
-			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
-			}
 		}
 	}
 
@@ -350,11 +339,11 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	compositeStreamSize := r.ReadUint32()
 	bboxStreamSize := r.ReadUint32()
 	instructionStreamSize := r.ReadUint32()
-	if r.Err() == io.EOF || nContourStreamSize != 2*uint32(numGlyphs) {
+	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
+	if r.Err() == io.EOF || nContourStreamSize != 2*uint32(numGlyphs) || bboxStreamSize < bitmapSize {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
 	}
 
-	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
 	nContourStream := newBinaryReader(r.ReadBytes(int64(nContourStreamSize)))
 	nPointsStream := newBinaryReader(r.ReadBytes(int64(nPointsStreamSize)))
 	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
@@ -382,13 +371,16 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	w := parse.NewBinaryWriter([]byte{}) // size unknown
 	loca := parse.NewBinaryWriter(make([]byte, 0, locaLength))
 	for iGlyph := uint16(0); iGlyph < numGlyphs; iGlyph++ {
-		if indexFormat == 0 {
+		if indexFormat == 0 && 2*math.MaxUint16 < w.Len() {
+			return nil, nil, fmt.Errorf("loca: offsets exceed the short format")
+		} else if indexFormat == 0 {
 			loca.WriteUint16(uint16(w.Len() >> 1))
 		} else {
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
-		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
+		explicitBbox := bboxBitmap.Read() // EOF cannot occur
+		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap.Read()
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
 			if explicitBbox {
@@ -465,17 +457,14 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				xCoordinates = append(xCoordinates, dx)
 				yCoordinates = append(yCoordinates, dy)
 
-				// keep bit 1-5 zero, that means x and y are two bytes long, this flag is not
-				// repeated, and all coordinates are in the coordinate array even if they are the
-				// same as the previous.
 				var outlineFlag byte
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if overlapSimple && iPoint == 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
-				outlineFlags = append(outlineFlags, outlineFlag)
+				outlineFlags = append(outlineFlags, outlineFlag|glyfCoordinateFlag(dx, 0x02, 0x10)|glyfCoordinateFlag(dy, 0x04, 0x20))
 
 				// calculate bbox
 				if !explicitBbox {
@@ -524,16 +513,22 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			w.WriteUint16(instructionLength)
 			w.WriteBytes(instructions)
 
-			// we could write this more compactly, but is that really necessary?
-			for _, outlineFlag := range outlineFlags {
-				w.WriteByte(outlineFlag) // flag
-			}
-			for _, xCoordinate := range xCoordinates {
-				w.WriteInt16(xCoordinate)
-			}
-			for _, yCoordinate := range yCoordinates {
-				w.WriteInt16(yCoordinate)
+			// write compactly so that the offsets fit in the same loca format as the original table
+			for i := 0; i < len(outlineFlags); {
+				n := 1
+				for i+n < len(outlineFlags) && n < 256 && outlineFlags[i+n] == outlineFlags[i] {
+					n++
+				}
+				if 1 < n {
+					w.WriteByte(outlineFlags[i] | 0x08) // REPEAT_FLAG
+					w.WriteByte(byte(n - 1))
+				} else {
+					w.WriteByte(outlineFlags[i])
+				}
+				i += n
 			}
+			writeGlyfCoordinates(w, xCoordinates)
+			writeGlyfCoordinates(w, yCoordinates)
 		} else { // composite glyph
 			if !explicitBbox {
 				return nil, nil, fmt.Errorf("glyf: composite glyph must have bbox definition")
@@ -609,7 +604,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	// last entry in loca table
-	if indexFormat == 0 {
+	if indexFormat == 0 && 2*math.MaxUint16 < w.Len() {
+		return nil, nil, fmt.Errorf("loca: offsets exceed the short format")
+	} else if indexFormat == 0 {
 		loca.WriteUint16(uint16(w.Len() >> 1))
 	} else {
 		loca.WriteUint32(uint32(w.Len()))
@@ -617,6 +614,31 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	return w.Bytes(), loca.Bytes(), nil
 }
 
+// glyfCoordinateFlag returns the flags of a simple glyph for a change in coordinate.
+func glyfCoordinateFlag(d int16, short, same byte) byte {
+	if d == 0 {
+		return same
+	} else if 0 < d && d < 256 {
+		return short | same
+	} else if -256 < d && d < 0 {
+		return short
+	}
+	return 0
+}
+
+// writeGlyfCoordinates writes the changes in coordinate in the size that glyfCoordinateFlag tells.
+func writeGlyfCoordinates(w *parse.BinaryWriter, ds []int16) {
+	for _, d := range ds {
+		if 0 < d && d < 256 {
+			w.WriteByte(byte(d))
+		} else if -256 < d && d < 0 {
+			w.WriteByte(byte(-d))
+		} else if d != 0 {
+			w.WriteInt16(d)
+		}
+	}
+}
+
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
 	rHead := newBinaryReader(head)
@@ -669,7 +691,8 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	n := 1 + uint32(numHMetrics)*2
 	if !reconstructProportional {
 		n += uint32(numHMetrics) * 2
-	} else if !reconstructMonospaced {
+	}
+	if !reconstructMonospaced {
 		n += (uint32(numGlyphs) - uint32(numHMetrics)) * 2
 	}
 	if n != uint32(len(b)) {
@@ -722,7 +745,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 		if offsetNext == offset {
 			lsbs[iGlyph] = 0
 		} else {
-			rGlyf.Seek(int64(offset), 0)
+			if _, err := rGlyf.Seek(int64(offset), 0); err != nil {
+				return nil, ErrInvalidFontData
+			}
 			_ = rGlyf.ReadInt16() // numContours
 			xMin := rGlyf.ReadInt16()
 			if rGlyf.Err() == io.EOF {
@@ -837,7 +862,16 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 		if tagIndex == -1 {
 			w.WriteString(tag) // tag
 		}
-		writeUintBase128(w, uint32(len(sfnt.Tables[tag])))
+		if glyf != nil && tag == "loca" {
+			// only the entries can be reconstructed
+			entrySize := uint32(2)
+			if sfnt.Loca.Format != 0 {
+				entrySize = 4
+			}
+			writeUintBase128(w, (uint32(sfnt.NumGlyphs())+1)*entrySize)
+		} else {
+			writeUintBase128(w, uint32(len(sfnt.Tables[tag])))
+		}
 		if glyf != nil && tag == "glyf" {
 			writeUintBase128(w, uint32(len(glyf)))
 		} else if glyf != nil && tag == "loca" {
@@ -921,6 +955,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				// empty glyph
 				nContourStream.WriteInt16(0)
 				bboxBitmapStream.Write(false)
+				overlapSimpleStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
@@ -938,10 +973,10 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 
 			// glyph, flag, and overlapSimple streams
 			for i := range contour.XCoordinates {
-				dx, dy := contour.XCoordinates[i], contour.YCoordinates[i]
+				dx, dy := int(contour.XCoordinates[i]), int(contour.YCoordinates[i])
 				if 0 < i {
-					dx -= contour.XCoordinates[i-1]
-					dy -= contour.YCoordinates[i-1]
+					dx -= int(contour.XCoordinates[i-1])
+					dy -= int(contour.YCoordinates[i-1])
 				}
 				dxSign, dySign := byte(1), byte(1)
 				if dx < 0 {
@@ -981,14 +1016,8 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					glyphStream.WriteByte(byte(dy & 0x00FF))
 				} else {
 					flag = 124 + (dySign << 1) + dxSign
-					glyphStream.WriteInt16(dx)
-					glyphStream.WriteInt16(dy)
-				}
-				if dxSign == 0 {
-					dx = -dx
-				}
-				if dySign == 0 {
-					dy = -dy
+					glyphStream.WriteUint16(uint16(dx))
+					glyphStream.WriteUint16(uint16(dy))
 				}
 
 				if !contour.OnCurve[i] {
@@ -1012,22 +1041,17 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 					xMax = x
 				}
 			}
-			if xMin == contour.XMin && xMax == contour.XMax {
-				for _, y := range contour.YCoordinates[1:] {
-					if y < yMin {
-						yMin = y
-					}
-					if yMax < y {
-						yMax = y
-					}
+			for _, y := range contour.YCoordinates[1:] {
+				if y < yMin {
+					yMin = y
 				}
-				if yMin == contour.YMin && yMax == contour.YMax {
-					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
+				if yMax < y {
+					yMax = y
 				}
 			}
+			bboxEqual = xMin == contour.XMin && xMax == contour.XMax && yMin == contour.YMin && yMax == contour.YMax
+			xMin, xMax = contour.XMin, contour.XMax
+			yMin, yMax = contour.YMin, contour.YMax
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
@@ -1040,6 +1064,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
@@ -1060,7 +1085,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			if hasInstructions {
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From 5b6243cd90647288e7eed3da10aac29755598041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 27/74] fix: CFF: name of the only glyph of a font, charset
 format 2 at the end of the data

---
 sfnt_cff.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c19ca92..311a3c3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -113,6 +113,8 @@ func (sfnt *SFNT) parseCFF() error {
 		}
 		charset = make([]string, charStringsINDEX.Len())
 		copy(charset, cffStandardStrings)
+	} else if charStringsINDEX.Len() == 1 {
+		charset = []string{".notdef"}
 	} else if 1 < charStringsINDEX.Len() {
 		if len(b) <= topDICT.Charset {
 			return fmt.Errorf("CFF: bad Charset")
@@ -138,7 +140,7 @@ func (sfnt *SFNT) parseCFF() error {
 			}
 		case 1, 2:
 			for i := 1; i < numGlyphs; i++ {
-				if r.Len() < 3 {
+				if r.Len() < 2+int64(format) {
 					return fmt.Errorf("CFF: bad Charset format %d", format)
 				}
 				first := int(r.ReadUint16())
-- 
2.43.0


From 25e33f4fbbb4549e4f3ea04aae06907ebc769a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 28/74] fix: Unicode ranges of a subset are always empty; bits
 of the ranges

---
 sfnt_os2.go    |  4 ++--
 sfnt_subset.go | 33 +++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..4cb2f2c 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -166,10 +166,10 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 98471c9..70d586d 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -114,7 +114,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
-	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
 	if sfnt.Hmtx != nil {
 		for subsetGlyphID, glyphID := range glyphIDs {
@@ -160,6 +159,25 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		Loca:       &locaTable{}, // for glyf
 	}
 
+	// characters of the subset for cmap and OS/2, which comes before cmap
+	rs := make([]rune, 0, len(glyphIDs))
+	runeMap := make(map[rune]uint16, len(glyphIDs))
+	if sfntOld.Cmap != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			if subsetGlyphID == 0 || glyphID == 0 {
+				continue // .notdef
+			}
+			for _, r := range sfntOld.Cmap.ToUnicode(glyphID) {
+				if sfntOld.Cmap.Get(r) != glyphID {
+					continue // mapped to another glyph by an earlier subtable
+				}
+				rs = append(rs, r)
+				runeMap[r] = uint16(subsetGlyphID)
+			}
+		}
+	}
+	ulUnicodeRange := os2UlUnicodeRange(rs)
+
 	// copy and rewrite tables
 	for _, tag := range tags {
 		if tag == "maxp" && sfntOld.Maxp != nil {
@@ -179,19 +197,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		// TODO: GDEF, GPOS, GSUB
 		// TODO; cvt, fpgm, prep
 		case "cmap":
-			rs := make([]rune, 0, len(glyphIDs))
-			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
-			for subsetGlyphID, glyphID := range glyphIDs {
-				for _, r := range sfntOld.Cmap.ToUnicode(glyphID) {
-					if sfntOld.Cmap.Get(r) != glyphID {
-						continue // mapped to another glyph by an earlier subtable
-					}
-					rs = append(rs, r)
-					runeMap[r] = uint16(subsetGlyphID)
-				}
-			}
-			ulUnicodeRange = os2UlUnicodeRange(rs)
-
 			sfnt.Tables[tag] = cmapWrite(rs, runeMap)
 			if err := sfnt.parseCmap(); err != nil {
 				return nil, err
-- 
2.43.0


From f5bf08c0ee60bb8614794f7ae9bcae00e3143ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 29/74] fix: WOFF2: bitmaps of fonts with a multiple of 32
 glyphs are a byte too long

---
 woff2.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/woff2.go b/woff2.go
index 3632e7d..15338b1 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1100,12 +1100,16 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 		overlapSimpleStream.Write(hasOverlap)
 	}
 
+	// a full bitmap has a spare byte at its end
+	bboxBitmap := bboxBitmapStream.Bytes()[:bitmapSize]
+	overlapSimpleBitmap := overlapSimpleStream.Bytes()[:bitmapSize]
+
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(bitmapSize) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(bitmapSize)
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1117,18 +1121,18 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(bitmapSize + uint32(bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From 2304144e909ed3684657d9debbd200d87948e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:55 +0000
Subject: [PATCH 30/74] fix: CFF: charstrings that end in the middle of a
 number, operator, or hint mask panic

---
 sfnt_cff.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 311a3c3..98ba980 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -351,6 +351,18 @@ const (
 // maxCharStringOperators is the maximum number of operators for a glyph, including those of the subroutines it calls
 const maxCharStringOperators = 1000000
 
+// cffCharStringNumberLen returns the number of bytes that follow the first byte of a number
+func cffCharStringNumberLen(b0 int32) int64 {
+	if b0 == cffShortint {
+		return 2
+	} else if b0 < 247 {
+		return 0
+	} else if b0 < 255 {
+		return 1
+	}
+	return 4
+}
+
 func cffReadCharStringNumber(r *parse.BinaryReader, b0 int32) int32 {
 	var v int32
 	if b0 == 28 {
@@ -438,6 +450,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 		b0 := int32(r.ReadUint8())
 		if 32 <= b0 || b0 == cffShortint {
+			if r.Len() < cffCharStringNumberLen(b0) {
+				return fmt.Errorf("%v: charstring ends in the middle of a number", table)
+			}
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -445,6 +460,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 			stack = append(stack, v)
 		} else {
 			if b0 == cffEscape {
+				if r.Len() == 0 {
+					return fmt.Errorf("%v: charstring ends in the middle of an operator", table)
+				}
 				b0 = 256 + int32(r.ReadUint8())
 			}
 
@@ -510,6 +528,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 					}
 					stack = stack[:0]
 				}
+				if r.Len() < int64((hints+7)/8) {
+					return fmt.Errorf("%v: charstring ends in the middle of a hint mask", table)
+				}
 				r.ReadBytes(int64((hints + 7) / 8))
 				stack = stack[:0]
 			case cffCallsubr, cffCallgsubr:
-- 
2.43.0


From dad50ff90e018e7d7f8c6eea15c7ac814f38286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 31/74] fix: CFF: hmoveto and vmoveto without operands panic

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 98ba980..f32cc15 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -476,7 +476,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 					// stack clearing operators, parse optional width
 					hasWidth := len(stack)%2 == 1
 					if b0 == cffHmoveto || b0 == cffVmoveto {
-						hasWidth = !hasWidth
+						hasWidth = !hasWidth && 0 < len(stack)
 					}
 					if hasWidth {
 						stack = stack[1:]
-- 
2.43.0


From 477908208a8ea6479650f4a828f03885b540ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:31 +0000
Subject: [PATCH 32/74] fix: names of Macintosh encodings other than Roman and
 of other platforms panic; name tables of 64 kB or more

---
 sfnt.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 39256e8..b0bc049 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -953,6 +953,8 @@ func (record nameRecord) String() string {
 		decoder = unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
 	} else if record.Platform == PlatformMacintosh && record.Encoding == EncodingMacintoshRoman {
 		decoder = charmap.Macintosh.NewDecoder()
+	} else {
+		return string(record.Value)
 	}
 	s, _, err := transform.String(decoder, string(record.Value))
 	if err == nil {
@@ -1005,8 +1007,8 @@ func (sfnt *SFNT) parseName() error {
 		return fmt.Errorf("name: bad version")
 	}
 	count := r.ReadUint16()
-	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	storageOffset := uint32(r.ReadUint16())
+	if uint32(len(b)) < 6+12*uint32(count) || uint32(len(b)) < storageOffset {
 		return fmt.Errorf("name: bad table")
 	}
 	sfnt.Name.NameRecord = make([]nameRecord, count)
@@ -1016,9 +1018,9 @@ func (sfnt *SFNT) parseName() error {
 		sfnt.Name.NameRecord[i].Language = r.ReadUint16()
 		sfnt.Name.NameRecord[i].Name = NameID(r.ReadUint16())
 
-		length := r.ReadUint16()
-		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		length := uint32(r.ReadUint16())
+		offset := uint32(r.ReadUint16())
+		if uint32(len(b))-storageOffset < offset || uint32(len(b))-storageOffset-offset < length {
 			return fmt.Errorf("name: bad table")
 		}
 		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
@@ -1033,9 +1035,9 @@ func (sfnt *SFNT) parseName() error {
 		}
 		sfnt.Name.LangTag = make([]nameLangTagRecord, langTagCount)
 		for i := 0; i < int(langTagCount); i++ {
-			length := r.ReadUint16()
-			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			length := uint32(r.ReadUint16())
+			offset := uint32(r.ReadUint16())
+			if uint32(len(b))-storageOffset < offset || uint32(len(b))-storageOffset-offset < length {
 				return fmt.Errorf("name: bad table")
 			}
 			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
-- 
2.43.0


From a59117bacf13976d218ba932ee945588cbe2252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:31 +0000
Subject: [PATCH 33/74] fix: maxp tables of less than six bytes panic

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index b0bc049..8ca5c13 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -888,6 +888,8 @@ func (sfnt *SFNT) parseMaxp() error {
 	b, ok := sfnt.Tables["maxp"]
 	if !ok {
 		return fmt.Errorf("maxp: missing table")
+	} else if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
 	}
 
 	sfnt.Maxp = &maxpTable{}
-- 
2.43.0


From e30a1aca80396eab42f8f60ed7868c3fd4c2c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:31 +0000
Subject: [PATCH 34/74] fix: dates after 2196 in the head table overflow

---
 sfnt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 8ca5c13..41f286f 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -605,8 +605,9 @@ func (sfnt *SFNT) parseHead() error {
 	if math.MaxInt64 < created || math.MaxInt64 < modified {
 		return fmt.Errorf("head: created and/or modified dates too large")
 	}
-	sfnt.Head.Created = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(created))
-	sfnt.Head.Modified = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(modified))
+	epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix() // a time.Duration is too small for dates after 2196
+	sfnt.Head.Created = time.Unix(epoch+int64(created), 0).UTC()
+	sfnt.Head.Modified = time.Unix(epoch+int64(modified), 0).UTC()
 	sfnt.Head.XMin = r.ReadInt16()
 	sfnt.Head.YMin = r.ReadInt16()
 	sfnt.Head.XMax = r.ReadInt16()
-- 
2.43.0


From e55610821eb3afc8bd00edccc7eff7c4c7606726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:34 +0000
Subject: [PATCH 35/74] fix: kern: subtables of version 1 tables have another
 header

---
 sfnt_truetype.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 62b476e..2b6b43b 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -618,16 +618,33 @@ func (sfnt *SFNT) parseKern() error {
 
 		subtable := kernFormat0{}
 		startPos := r.Pos()
-		subtableVersion := r.ReadUint16()
-		length := r.ReadUint16()
-		format := r.ReadUint8()
-		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if subtableVersion != 0 || format != 0 {
+		var length uint32
+		var supported bool
+		if majorVersion == 0 {
+			subtableVersion := r.ReadUint16()
+			length = uint32(r.ReadUint16())
+			format := r.ReadUint8()
+			subtable.Coverage = Uint8ToFlags(r.ReadUint8())
+			supported = subtableVersion == 0 && format == 0
+		} else {
+			if r.Len() < 8 {
+				return fmt.Errorf("kern: bad subtable %d", j)
+			}
+			length = r.ReadUint32()
+			coverage := r.ReadUint8()
+			format := r.ReadUint8()
+			_ = r.ReadUint16()                            // tupleIndex
+			subtable.Coverage[0] = coverage&0x80 == 0     // horizontal
+			subtable.Coverage[2] = coverage&0x40 != 0     // cross-stream
+			supported = coverage&0x20 == 0 && format == 0 // no variations
+		}
+		headerLen := r.Pos() - startPos
+		if !supported {
 			// TODO: supported other kern subtable versions and formats
-			if length < 6 || r.Len() < int64(length)-6 {
+			if int64(length) < headerLen || r.Len() < int64(length)-headerLen {
 				return fmt.Errorf("kern: bad length for subtable %d", j)
 			}
-			_ = r.ReadBytes(int64(length) - 6)
+			_ = r.ReadBytes(int64(length) - headerLen)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
@@ -636,12 +653,13 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length)-14 {
+		headerLen += 8
+		if int64(length) < headerLen+6*int64(nPairs) || r.Len() < int64(length)-headerLen {
 			if j+1 == int(nTables) {
 				// for some fonts the subtable's length exceeds what can fit in a uint16
 				// we allow only the last subtable to exceed as long as it stays within the table
 				pairsLength := 6 * int64(nPairs)
-				if length != uint16(14+pairsLength) || r.Len() < pairsLength {
+				if majorVersion != 0 || uint16(length) != uint16(headerLen+pairsLength) || r.Len() < pairsLength {
 					return fmt.Errorf("kern: bad length for subtable %d", j)
 				}
 			} else {
-- 
2.43.0


From c5bcb609b4b2702098c20a9592ed0d3790bb0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 36/74] fix: open every font of a collection, whatever the
 order of its fonts

---
 sfnt.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 41f286f..2d4b33b 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -316,22 +316,16 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 
 		numFonts := r.ReadUint32()
-		if index < 0 || numFonts <= uint32(index) {
+		if index < 0 || uint64(numFonts) <= uint64(index) {
 			return nil, fmt.Errorf("bad font index %d", index)
 		}
 		if r.Len() < 4*int64(numFonts) {
 			return nil, ErrInvalidFontData
 		}
 
-		_ = r.ReadBytes(int64(4 * index))
+		_ = r.ReadBytes(4 * int64(index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-12 < offset { // fonts may be in any order and share tables
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 76a4ddfa98533d948b055638631e8b9a2be32194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 37/74] fix: WOFF: empty tables overlap with the table that
 starts at the same place

---
 woff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/woff.go b/woff.go
index 3668bf5..3ddda52 100644
--- a/woff.go
+++ b/woff.go
@@ -24,6 +24,9 @@ type tablePositions struct {
 }
 
 func (table *tablePositions) Add(offset, length uint32) {
+	if length == 0 {
+		return // empty tables do not overlap with any other
+	}
 	i := 0
 	for i < len(table.offsets) && table.offsets[i] < offset {
 		i++
-- 
2.43.0


From 33372f23a4dcecf76f9b50752d2861f7db527c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 38/74] fix: endless loop in WOFF and WOFF2 and panic in Write
 for thousands of tables

---
 sfnt.go  | 2 +-
 woff.go  | 2 +-
 woff2.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 2d4b33b..9873e93 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -514,7 +514,7 @@ func (sfnt *SFNT) Write() []byte {
 	w.WriteUint16(numTables<<4 - searchRange) // rangeShift
 
 	// we'll write the table records at the end
-	w.WriteBytes(make([]byte, numTables<<4))
+	w.WriteBytes(make([]byte, int(numTables)<<4))
 
 	// write tables
 	var checksumAdjustmentPos uint32 // zero if there is no head table
diff --git a/woff.go b/woff.go
index 3ddda52..8bc05c6 100644
--- a/woff.go
+++ b/woff.go
@@ -134,7 +134,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if 2*uint32(searchRange) > uint32(numTables) {
 			break
 		}
 		searchRange *= 2
diff --git a/woff2.go b/woff2.go
index 15338b1..b6f2e89 100644
--- a/woff2.go
+++ b/woff2.go
@@ -257,7 +257,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if 2*uint32(searchRange) > uint32(numTables) {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From ea6fa362f56be2976da8a9af819315beb67e0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 39/74] fix: matching a system font overwrites the list of a
 generic family

---
 system.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/system.go b/system.go
index e329acf..82d5452 100644
--- a/system.go
+++ b/system.go
@@ -321,12 +321,13 @@ func (s *SystemFonts) Add(metadata FontMetadata) {
 
 func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	// expand generic font names
-	families := strings.Split(name, ",")
-	for i := 0; i < len(families); i++ {
-		families[i] = strings.TrimSpace(families[i])
-		if names, ok := s.Generics[families[i]]; ok {
-			families = append(families[:i], append(names, families[i+1:]...)...)
-			i += len(names) - 1
+	families := []string{}
+	for _, family := range strings.Split(name, ",") {
+		family = strings.TrimSpace(family)
+		if names, ok := s.Generics[family]; ok {
+			families = append(families, names...)
+		} else {
+			families = append(families, family)
 		}
 	}
 
-- 
2.43.0


From 1159522f386ee8d8508c2ee803bf0a6e19b1b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:52 +0000
Subject: [PATCH 40/74] fix: system fonts were listed under names of another
 language or under legacy names, and without name for version 1 name tables

---
 system.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/system.go b/system.go
index 82d5452..77ef863 100644
--- a/system.go
+++ b/system.go
@@ -544,21 +544,21 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 	metadata := FontMetadata{}
 	decodeUTF16 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
-	if version == 0 {
+	if version == 0 || version == 1 {
 		records, err := read(r, 12*int(count))
 		if err != nil {
 			return FontMetadata{}, err
 		}
 
-		found := 0
 		var family, subfamily string
+		var preferredFamily, preferredSubfamily string
 		for i := 0; i < 12*int(count); i += 12 {
 			// TODO: check platform and encoding?
 			platform := PlatformID(u16(records[i:]))
 			//encoding := EncodingID(u16(records[i+2:]))
 			language := u16(records[i+4:])
-			if platform != PlatformWindows && (language&0x00FF) != 0x0009 {
-				continue // not English or not Windows
+			if platform != PlatformWindows || (language&0x80FF) != 0x0009 {
+				continue // not Windows, or not English
 			}
 
 			name := NameID(u16(records[i+6:]))
@@ -576,19 +576,24 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 				if err != nil {
 					return FontMetadata{}, err
 				}
-				if name == NameFontFamily || name == NamePreferredFamily {
+				switch name {
+				case NameFontFamily:
 					family = string(val)
-				} else if name == NameFontSubfamily || name == NamePreferredSubfamily {
+				case NameFontSubfamily:
 					subfamily = string(val)
-				}
-				if name == NamePreferredFamily || name == NamePreferredSubfamily {
-					found++
-					//if found == 2 {
-					//	break // break early
-					//}
+				case NamePreferredFamily:
+					preferredFamily = string(val)
+				case NamePreferredSubfamily:
+					preferredSubfamily = string(val)
 				}
 			}
 		}
+		if preferredFamily != "" {
+			family = preferredFamily
+		}
+		if preferredSubfamily != "" {
+			subfamily = preferredSubfamily
+		}
 		if family == "" {
 			return FontMetadata{}, fmt.Errorf("font family not found")
 		}
@@ -600,8 +605,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 		metadata.Family = family
 		metadata.Style = style
-	} else if version == 1 {
-		// TODO
+	} else {
+		return FontMetadata{}, fmt.Errorf("bad name table version: %d", version)
 	}
 	return metadata, nil
 }
-- 
2.43.0


From 9f9c1acaf10cdb4a002aa86fa5233cc0a9647a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 41/74] fix: negative values in AFM files are off by one

---
 afm.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/afm.go b/afm.go
index e6dff80..2456839 100644
--- a/afm.go
+++ b/afm.go
@@ -181,13 +181,13 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
 			case "WX", "WY":
 				f, pos = afmParseNumber(line, pos)
-				charMetrics.Width = uint16(f + 0.5)
+				charMetrics.Width = uint16(int(math.Round(f)))
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
 				for k := 0; k < 4; k++ {
 					f, pos = afmParseNumber(line, pos)
-					charMetrics.BBox[k] = int16(f + 0.5)
+					charMetrics.BBox[k] = int16(math.Round(f))
 				}
 			case "L":
 				var successor, ligature string
@@ -339,22 +339,22 @@ Scanner:
 			}
 		case "CapHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.CapHeight = uint16(f + 0.5)
+			afm.CapHeight = uint16(int(math.Round(f)))
 		case "XHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.XHeight = uint16(f + 0.5)
+			afm.XHeight = uint16(int(math.Round(f)))
 		case "Ascender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Ascender = uint16(f + 0.5)
+			afm.Ascender = uint16(int(math.Round(f)))
 		case "Descender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Descender = uint16(f + 0.5)
+			afm.Descender = uint16(int(math.Round(f)))
 		case "UnderlinePosition":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlinePosition = uint16(f + 0.5)
+			afm.UnderlinePosition = uint16(int(math.Round(f)))
 		case "UnderlineThickness":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlineThickness = uint16(f + 0.5)
+			afm.UnderlineThickness = uint16(int(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
 		case "StartCharMetrics":
-- 
2.43.0


From c48a6a0faa166dcbf3b5d807aee20b4e8a72a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:37 +0000
Subject: [PATCH 42/74] fix: font names in AFM files are cut at the first space

---
 afm.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/afm.go b/afm.go
index 2456839..ff0c2dc 100644
--- a/afm.go
+++ b/afm.go
@@ -115,6 +115,16 @@ func afmParseString(b []byte, i int) (string, int) {
 	return string(v), i
 }
 
+// afmParseText parses a string that extends to the end of the line
+func afmParseText(b []byte, i int) string {
+	i = afmSkipWhitespace(b, i)
+	end := len(b)
+	for i < end && afmIsWhitespace(b[end-1]) {
+		end--
+	}
+	return string(b[i:end])
+}
+
 func afmParseInteger(b []byte, i int) (int, int) {
 	i = afmSkipWhitespace(b, i)
 	v, n := strconv.ParseInt(b[i:])
@@ -325,13 +335,13 @@ Scanner:
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
 		case "FontName":
-			afm.FontName, _ = afmParseString(line, pos)
+			afm.FontName = afmParseText(line, pos)
 		case "FullName":
-			afm.FullName, _ = afmParseString(line, pos)
+			afm.FullName = afmParseText(line, pos)
 		case "FamilyName":
-			afm.FamilyName, _ = afmParseString(line, pos)
+			afm.FamilyName = afmParseText(line, pos)
 		case "Weight":
-			afm.Weight, _ = afmParseString(line, pos)
+			afm.Weight = afmParseText(line, pos)
 		case "FontBBox":
 			for k := 0; k < 4; k++ {
 				f, pos = afmParseNumber(line, pos)
-- 
2.43.0


From f4d2f504e3a584f7651287700280a8f67eb2510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 43/74] fix: glyph names of AFM files are not kept

---
 afm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/afm.go b/afm.go
index ff0c2dc..251cebc 100644
--- a/afm.go
+++ b/afm.go
@@ -213,6 +213,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		} else if r, ok := glyphList[name]; !ok {
 			return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, name)
 		} else {
+			charMetrics.Name = name
 			afm.names[name] = uint16(i)
 			afm.unicode[r] = uint16(i)
 		}
-- 
2.43.0


From 097d047fc7385baa9e60f5a834f605396694a884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:41 +0000
Subject: [PATCH 44/74] fix: errors in the kerning data of AFM files are
 ignored

---
 afm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index 251cebc..401b79c 100644
--- a/afm.go
+++ b/afm.go
@@ -246,13 +246,19 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 		switch string(key) {
 		case "StartTrackKern":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseTrackKern(scanner, j, n)
+			if err := afm.parseTrackKern(scanner, j, n); err != nil {
+				return err
+			}
 		case "StartKernPairs", "StartKernPairs0":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 0)
+			if err := afm.parseKernPairs(scanner, j, n, 0); err != nil {
+				return err
+			}
 		case "StartKernPairs1":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 1)
+			if err := afm.parseKernPairs(scanner, j, n, 1); err != nil {
+				return err
+			}
 		case "EndKernData":
 			return nil
 		}
-- 
2.43.0


From 9b60d9855409694d2eefb020da0d18c5ebc18dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:44 +0000
Subject: [PATCH 45/74] fix: panic for bad counts in AFM files

---
 afm.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/afm.go b/afm.go
index 401b79c..9333d76 100644
--- a/afm.go
+++ b/afm.go
@@ -144,6 +144,9 @@ type afmLigature struct {
 }
 
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
+	if n < 0 || math.MaxUint16 < n {
+		return fmt.Errorf("afm: invalid char metrics at line %v: bad count %v", *j, n)
+	}
 	var ligatures []afmLigature
 	afm.CharMetrics = make([]AFMCharMetrics, n)
 	afm.names = make(map[string]uint16, n)
@@ -267,6 +270,9 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 }
 
 func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
+	if n < 0 {
+		return fmt.Errorf("afm: invalid track kern at line %v: bad count %v", *j, n)
+	}
 	for i := 0; i < n; i++ {
 		*j++
 		if !scanner.Scan() {
@@ -284,8 +290,10 @@ func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 }
 
 func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirection int) error {
-	if afm.KernPairs == nil {
-		afm.KernPairs = make(map[[2]uint16]int16, n)
+	if n < 0 {
+		return fmt.Errorf("afm: invalid kern pairs at line %v: bad count %v", *j, n)
+	} else if afm.KernPairs == nil {
+		afm.KernPairs = make(map[[2]uint16]int16)
 	}
 	for i := 0; i < n; i++ {
 		*j++
-- 
2.43.0


From 16a34cd67a016bf6961d6a89fac644151d1b761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:46 +0000
Subject: [PATCH 46/74] fix: lines of AFM files that end in CR are not split

---
 afm.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/afm.go b/afm.go
index 9333d76..ffe9060 100644
--- a/afm.go
+++ b/afm.go
@@ -137,6 +137,22 @@ func afmParseNumber(b []byte, i int) (float64, int) {
 	return v, i + n
 }
 
+// afmScanLines splits lines that end in LF, CR, or CRLF
+func afmScanLines(b []byte, atEOF bool) (int, []byte, error) {
+	i := bytes.IndexAny(b, "\r\n")
+	if i == -1 {
+		if atEOF && 0 < len(b) {
+			return len(b), b, nil
+		}
+		return 0, nil, nil
+	} else if b[i] == '\n' || i+1 < len(b) && b[i+1] != '\n' || i+1 == len(b) && atEOF {
+		return i + 1, b[:i], nil
+	} else if i+1 < len(b) {
+		return i + 2, b[:i], nil
+	}
+	return 0, nil, nil // need to know what follows CR
+}
+
 type afmLigature struct {
 	base      uint16
 	successor string
@@ -334,6 +350,7 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 
 func ParseAFM(b []byte) (*AFM, error) {
 	scanner := bufio.NewScanner(bytes.NewReader(b))
+	scanner.Split(afmScanLines)
 	if !scanner.Scan() {
 		return nil, fmt.Errorf("invalid AFM file")
 	} else if key, _ := afmNextValue(scanner.Bytes(), 0); string(key) != "StartFontMetrics" {
-- 
2.43.0


From 27e75387769082420693106a1f79863814f6c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:48 +0000
Subject: [PATCH 47/74] fix: fixed pitch and character width of AFM files are
 ignored

---
 afm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index ffe9060..ca9046f 100644
--- a/afm.go
+++ b/afm.go
@@ -67,7 +67,7 @@ func (afm *AFM) FindGlyphName(name string) uint16 {
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (afm *AFM) GlyphAdvance(glyphID uint16) uint16 {
-	if afm.IsFixedPitch {
+	if afm.IsFixedPitch && afm.CharWidth[0] != 0 {
 		return afm.CharWidth[0]
 	} else if len(afm.CharMetrics) <= int(glyphID) {
 		return 0
@@ -399,6 +399,14 @@ Scanner:
 			afm.UnderlineThickness = uint16(int(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
+		case "IsFixedPitch":
+			val, _ := afmParseString(line, pos)
+			afm.IsFixedPitch = val == "true"
+		case "CharWidth":
+			for k := 0; k < 2; k++ {
+				f, pos = afmParseNumber(line, pos)
+				afm.CharWidth[k] = uint16(int(math.Round(f)))
+			}
 		case "StartCharMetrics":
 			n, _ := afmParseInteger(line, pos)
 			if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
-- 
2.43.0


From cce5cf7653283c64de46293fdd053db006186264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:50 +0000
Subject: [PATCH 48/74] fix: vertical widths in AFM files replace the advance
 width

---
 afm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index ca9046f..70f4ee3 100644
--- a/afm.go
+++ b/afm.go
@@ -208,7 +208,9 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			val, pos = afmNextValue(line, pos)
 			switch string(val) {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
-			case "WX", "WY":
+			case "WY":
+				_, pos = afmParseNumber(line, pos)
+			case "WX":
 				f, pos = afmParseNumber(line, pos)
 				charMetrics.Width = uint16(int(math.Round(f)))
 			case "N":
-- 
2.43.0


From 7cac831e1c4edc10779e2c90bbfa1dc899234aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 49/74] fix: AFM files with glyph names that stand for no
 character are refused

---
 afm.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/afm.go b/afm.go
index 70f4ee3..fc972c0 100644
--- a/afm.go
+++ b/afm.go
@@ -231,11 +231,10 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		}
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
-		} else if r, ok := glyphList[name]; !ok {
-			return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, name)
-		} else {
-			charMetrics.Name = name
-			afm.names[name] = uint16(i)
+		}
+		charMetrics.Name = name
+		afm.names[name] = uint16(i)
+		if r, ok := glyphList[name]; ok {
 			afm.unicode[r] = uint16(i)
 		}
 	}
-- 
2.43.0


From 5a405c196f5b18c083f6c3d80a1d477313abec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:06 +0000
Subject: [PATCH 50/74] fix: cmap subtables that exceed the table panic

---
 sfnt_cmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index eea54c0..d09ce07 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -475,7 +475,7 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-- 
2.43.0


From 4574f80bd8aa759e642a822a75d4955dd0175fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 51/74] fix: cmap format 4 segments that point before the glyph
 array panic

---
 sfnt_cmap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index d09ce07..bbc2a5d 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -570,8 +570,9 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						first := int(idRangeOffset/2) - (int(segCount) - i)
+						last := first + int(subtable.EndCode[i]-subtable.StartCode[i])
+						if first < 0 || glyphIdArrayLength <= last {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
-- 
2.43.0


From 8641175d4caf9e4b9b419f00dde882bffc40b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 52/74] fix: cmap format 12 group that ends at 0xFFFFFFFF loops
 endlessly

---
 sfnt_cmap.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index bbc2a5d..71f4fd0 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -152,8 +152,13 @@ func (subtable *cmapFormat12) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
 		subtable.unicodeMap = map[uint16][]rune{}
 		for i := 0; i < len(subtable.StartCharCode); i++ {
-			for r := subtable.StartCharCode[i]; r <= subtable.EndCharCode[i]; r++ {
-				id := uint16((r - subtable.StartCharCode[i]) + subtable.StartGlyphID[i])
+			n := subtable.EndCharCode[i] - subtable.StartCharCode[i]
+			for j := uint32(0); j <= n; j++ {
+				r := subtable.StartCharCode[i] + j
+				if math.MaxInt32 < r {
+					break // not a character
+				}
+				id := uint16(j + subtable.StartGlyphID[i])
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], rune(r))
 			}
 		}
-- 
2.43.0


From 2a2e3a93c3f4902f990baa70b07ece28eea5a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:16 +0000
Subject: [PATCH 53/74] fix: cmap subtables that map very many characters
 exhaust memory

---
 sfnt_cmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 71f4fd0..c1d78e2 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -450,6 +450,7 @@ func (sfnt *SFNT) parseCmap() error {
 	}
 
 	// find and extract subtables and make sure they don't overlap each other
+	numChars := uint32(0) // number of mapped characters, subtable lengths don't bound the size of the inverse mapping
 	offsets, lengths := []uint32{0}, []uint32{4 + 8*uint32(numTables)}
 	for j := 0; j < int(numTables); j++ {
 		platformID := r.ReadUint16()
@@ -551,6 +552,7 @@ func (sfnt *SFNT) parseCmap() error {
 						return fmt.Errorf("cmap: bad startCode in subtable %d", j)
 					}
 					subtable.StartCode[i] = startCode
+					numChars += uint32(subtable.EndCode[i]-startCode) + 1
 				}
 				if subtable.StartCode[segCount-1] != 0xFFFF || subtable.EndCode[segCount-1] != 0xFFFF {
 					return fmt.Errorf("cmap: bad last startCode or endCode in subtable %d", j)
@@ -640,6 +642,10 @@ func (sfnt *SFNT) parseCmap() error {
 					subtable.StartCharCode[i] = startCharCode
 					subtable.EndCharCode[i] = endCharCode
 					subtable.StartGlyphID[i] = startGlyphID
+					numChars += endCharCode - startCharCode + 1
+					if MaxMemory/4 < numChars {
+						return ErrExceedsMemory
+					}
 				}
 				sfnt.Cmap.Subtables = append(sfnt.Cmap.Subtables, subtable)
 			case 14:
@@ -676,6 +682,9 @@ func (sfnt *SFNT) parseCmap() error {
 				return fmt.Errorf("cmap: unsupported subtable format %d", format)
 			}
 		}
+		if MaxMemory/4 < numChars {
+			return ErrExceedsMemory
+		}
 		sfnt.Cmap.EncodingRecords = append(sfnt.Cmap.EncodingRecords, cmapEncodingRecord{
 			PlatformID: platformID,
 			EncodingID: encodingID,
-- 
2.43.0


From fc3d4e873bcf5ddc946475c0787ede3c1318ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:38 +0000
Subject: [PATCH 54/74] fix: CFF DICT that ends within an operator or operand
 panics

---
 sfnt_cff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f32cc15..1ae7306 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1826,6 +1826,9 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 		if b0 < 22 {
 			// operator
 			if b0 == 12 {
+				if r.Len() < 1 {
+					return fmt.Errorf("bad operator")
+				}
 				b0 = 256 + int(r.ReadUint8())
 			}
 
@@ -1855,6 +1858,9 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 			if !isCFF2 && 48 <= len(ints) || isCFF2 && 513 <= len(ints) {
 				return fmt.Errorf("too many operands for operator")
 			}
+			if b0 == 28 && r.Len() < 2 || b0 == 29 && r.Len() < 4 || 247 <= b0 && r.Len() < 1 {
+				return fmt.Errorf("bad operand")
+			}
 			i, f := parseDICTNumber(b0, r)
 			if math.IsNaN(f) {
 				f = float64(i)
-- 
2.43.0


From 7263e0d83a6f34d346933beeecbb6e4ad98fd75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:41 +0000
Subject: [PATCH 55/74] fix: CFF INDEX that ends within its header panics

---
 sfnt_cff.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1ae7306..39fa8d5 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1294,7 +1294,9 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
 	var count uint32
-	if !isCFF2 {
+	if !isCFF2 && r.Len() < 2 || isCFF2 && r.Len() < 4 {
+		return nil, fmt.Errorf("bad data")
+	} else if !isCFF2 {
 		count = uint32(r.ReadUint16())
 	} else {
 		count = r.ReadUint32()
@@ -1306,6 +1308,9 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 		return nil, fmt.Errorf("too big")
 	}
 
+	if r.Len() < 1 {
+		return nil, fmt.Errorf("bad data")
+	}
 	offSize := r.ReadUint8()
 	if offSize == 0 || 4 < offSize {
 		return nil, fmt.Errorf("bad offSize")
-- 
2.43.0


From 36ac4b943e7df23b28377ab60433baef620ad378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:45 +0000
Subject: [PATCH 56/74] fix: kern table version 1 shorter than its header
 panics

---
 sfnt_truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 2b6b43b..3cd55f7 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -603,6 +603,9 @@ func (sfnt *SFNT) parseKern() error {
 	if majorVersion == 0 {
 		nTables = uint32(r.ReadUint16())
 	} else if majorVersion == 1 {
+		if len(b) < 8 {
+			return fmt.Errorf("kern: bad table")
+		}
 		minorVersion := r.ReadUint16()
 		if minorVersion != 0 {
 			return fmt.Errorf("kern: bad minor version %d", minorVersion)
-- 
2.43.0


From 6f5ef3e5ff3b93ff727140813ba5318fa11556a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:04 +0000
Subject: [PATCH 57/74] fix: CFF without glyphs panics when subsetting

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 39fa8d5..4e7ef60 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -103,6 +103,8 @@ func (sfnt *SFNT) parseCFF() error {
 	charStringsINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return fmt.Errorf("CFF: CharStrings INDEX: %w", err)
+	} else if charStringsINDEX.Len() == 0 {
+		return fmt.Errorf("CFF: CharStrings INDEX: no glyphs")
 	}
 
 	var charset []string
-- 
2.43.0


From 188bce1a3dce147125177ffecbad4b4a1fa17f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:57 +0000
Subject: [PATCH 58/74] fix: time to write CFF glyph names is quadratic in the
 number of glyphs

---
 sfnt_cff.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4e7ef60..1bf380b 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1,7 +1,6 @@
 package font
 
 import (
-	"bytes"
 	"fmt"
 	"math"
 	"sort"
@@ -1208,6 +1207,7 @@ func (cff *cffTable) ReindexSubrs() error {
 type cffINDEX struct {
 	offset []uint32
 	data   []byte
+	sids   map[string]int // cache for AddSID
 }
 
 func (t *cffINDEX) Len() int {
@@ -1262,18 +1262,22 @@ func (t *cffINDEX) Add(data []byte) int {
 }
 
 func (t *cffINDEX) AddSID(data []byte) int {
-	for i, s := range cffStandardStrings {
-		if bytes.Equal(data, []byte(s)) {
-			return i
+	if t.sids == nil {
+		t.sids = make(map[string]int, len(cffStandardStrings)+t.Len())
+		for i := t.Len() - 1; 0 <= i; i-- {
+			t.sids[string(t.data[t.offset[i]:t.offset[i+1]])] = i + len(cffStandardStrings)
 		}
-	}
-	for i := 0; i+1 < len(t.offset); i++ {
-		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i + len(cffStandardStrings)
+		for i := len(cffStandardStrings) - 1; 0 <= i; i-- {
+			t.sids[cffStandardStrings[i]] = i
 		}
 	}
-	// warning: this may become 65000 or larger which is not strictly allowed
-	return t.Add(data) + len(cffStandardStrings)
+	sid, ok := t.sids[string(data)]
+	if !ok {
+		// warning: this may become 65000 or larger which is not strictly allowed
+		sid = t.Add(data) + len(cffStandardStrings)
+		t.sids[string(data)] = sid
+	}
+	return sid
 }
 
 func (t *cffINDEX) Extend(o *cffINDEX) {
-- 
2.43.0


From 65e3665e863ac78b51d71d87f596a534746a4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:01 +0000
Subject: [PATCH 59/74] fix: CFF glyph names beyond the highest string ID are
 written as other names

---
 sfnt_cff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1bf380b..93af2a6 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2262,6 +2262,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 		sids := make([]int, numGlyphs-1)
 		for i, name := range cff.charset[1:numGlyphs] {
 			sids[i] = strings.AddSID([]byte(name))
+			if math.MaxUint16 < sids[i] {
+				return nil, fmt.Errorf("too many glyph names")
+			}
 		}
 
 		// count number of ranges and max values of nLeft
-- 
2.43.0


From 4cd2ec39823a6ad416a1c57f6e179c5554c1a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:03 +0000
Subject: [PATCH 60/74] fix: time to find the characters of a glyph is
 quadratic in the number of characters

---
 sfnt_cmap.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index c1d78e2..9aaca19 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -413,15 +413,13 @@ func (cmap *cmapTable) Get(r rune) uint16 {
 // ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none.
 func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 	var rs []rune
+	seen := map[rune]bool{}
 	for _, subtable := range cmap.Subtables {
-	AppendLoop:
 		for _, r := range subtable.ToUnicode(glyphID) {
-			for _, r2 := range rs {
-				if r2 == r {
-					continue AppendLoop
-				}
+			if !seen[r] {
+				seen[r] = true
+				rs = append(rs, r)
 			}
-			rs = append(rs, r)
 		}
 	}
 	return rs
-- 
2.43.0


From 93162cfef7fdbfa0f5dac206b9a79268c5606393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:38 +0000
Subject: [PATCH 61/74] fix: CFF subroutine number whose last bytes are a
 number of its own is renumbered wrongly

---
 sfnt_cff.go | 48 +++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 93af2a6..7352192 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -419,7 +419,8 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32) error) error {
+// parseCharString calls cb for every operator with the operands. The reader is past the operator, and the position is that of the number right before the operator, or -1 if there is none.
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int64, int32, []int32) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -438,12 +439,14 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	hints := 0
 	operators := 0
 	stack := []int32{}
+	posNumber := int64(-1)
 	beforeMoveto := true
 	for {
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
 			r = callStack[len(callStack)-1]
 			callStack = callStack[:len(callStack)-1]
+			posNumber = -1
 			continue
 		} else if r.Len() == 0 {
 			break
@@ -454,6 +457,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 			if r.Len() < cffCharStringNumberLen(b0) {
 				return fmt.Errorf("%v: charstring ends in the middle of a number", table)
 			}
+			posNumber = r.Pos() - 1
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -493,9 +497,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				return fmt.Errorf("%v: unexpected operator %d after moveto", table, b0)
 			}
 
-			if err := cb(r, b0, stack); err != nil {
+			if err := cb(r, posNumber, b0, stack); err != nil {
 				return fmt.Errorf("%v: %v", table, err)
 			}
+			posNumber = -1
 
 			// handle hint and subroutine operators, clear stack for most operators
 			switch b0 {
@@ -594,7 +599,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, _ int64, b0 int32, stack []int32) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -886,30 +891,6 @@ func cffNumberSize(i int) int {
 	return 5
 }
 
-// cffLastNumberSize returns the number of bytes with which the number at the end of a charstring is encoded, or zero if b doesn't end with the number.
-func cffLastNumberSize(b []byte, num int32) uint32 {
-	for _, n := range []int{1, 2, 3, 5} {
-		if len(b) < n {
-			break
-		}
-		b0 := int32(b[len(b)-n])
-		size := 1
-		if b0 == cffShortint {
-			size = 3
-		} else if b0 == 255 {
-			size = 5
-		} else if 247 <= b0 {
-			size = 2
-		} else if b0 < 32 {
-			continue
-		}
-		if size == n && cffReadCharStringNumber(parse.NewBinaryReaderBytes(b[len(b)-n+1:]), b0) == num {
-			return uint32(n)
-		}
-	}
-	return 0
-}
-
 type cffSubrIndexChange struct {
 	start, end uint32
 	index      int32
@@ -950,7 +931,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, posNumber int64, b0 int32, stack []int32) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -982,15 +963,12 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
 
-					pos := uint32(r.Pos()) - 1 // -1 as we're past the operator
-					lenNumber := cffLastNumberSize(index.data[offset:offset+pos], num)
-					if lenNumber == 0 {
+					if posNumber < 0 {
 						return fmt.Errorf("subroutine index must precede the operator")
 					}
-					posNumber := pos - lenNumber
 					indexChanges[index] = append(indexChanges[index], cffSubrIndexChange{
-						start: offset + posNumber,
-						end:   offset + posNumber + lenNumber,
+						start: offset + uint32(posNumber),
+						end:   offset + uint32(r.Pos()) - 1, // -1 as we're past the operator
 						index: newIndex - newBias,
 					})
 				}
@@ -1133,7 +1111,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, _ int64, b0 int32, stack []int32) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
-- 
2.43.0


From 5bf7d7b4963a8e80ddc204982cf9be53e9d98e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:11 +0000
Subject: [PATCH 62/74] fix: CFF DICT integers beyond 32 bits are truncated,
 and large integers lose digits when written as a real

---
 sfnt_cff.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 7352192..4435985 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1983,7 +1983,8 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 		}
 
 		floatNibbles, nFloat := cffDICTFloat(f)
-		if allowFloat && (isFrac || nFloat < cffDICTIntegerSize(i)) {
+		isShorter := nFloat < cffDICTIntegerSize(i) && float64(float32(f)) == f // exact as 32 bits float
+		if allowFloat && (isFrac || i < math.MinInt32 || math.MaxInt32 < i || isShorter) {
 			n := 0
 			var b uint8
 			w.WriteUint8(30)
-- 
2.43.0


From 22fc779b0e14cb09850d91068f4d37a7e232075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 63/74] fix: fontcmd: a character range up to U+FFFF, as of
 category Cn, never ends

---
 cmd/fontcmd/subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ec2022c..e8eb2dd 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -258,7 +258,7 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R16 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
+			for r := uint32(ran.Lo); r <= uint32(ran.Hi); r += uint32(ran.Stride) {
 				glyphID := sfnt.GlyphIndex(rune(r))
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
-- 
2.43.0


From e627522d32f9a89e1323dff63798c7a4993fb6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 64/74] fix: fontcmd: incomplete \x, \u and \U escapes panic,
 and \U above 10FFFF never ends

---
 cmd/fontcmd/subset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index e8eb2dd..5fd862a 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -138,7 +138,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'u':
 					if i+5 < len(runes) {
@@ -149,18 +149,18 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'U':
 					if i+9 < len(runes) {
-						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok {
+						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok && h <= unicode.MaxRune {
 							r = rune(h)
 							i += 9
 						} else {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				default:
 					Warning.Println("invalid escape sequence:", string(runes[i:i+2]))
-- 
2.43.0


From 6c62d3ae237942a12fbbeed1afdb719bfee6d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 65/74] fix: fontcmd: glyph IDs from 32768 on are refused

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 5fd862a..40d63e1 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -55,11 +55,11 @@ func (cmd *Subset) Run() error {
 	// append glyphs
 	for _, glyph := range cmd.Glyphs {
 		if dash := strings.IndexByte(glyph, '-'); dash != -1 {
-			first, err := strconv.ParseInt(glyph[:dash], 10, 16)
+			first, err := strconv.ParseInt(glyph[:dash], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			last, err := strconv.ParseInt(glyph[dash+1:], 10, 16)
+			last, err := strconv.ParseInt(glyph[dash+1:], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
@@ -71,7 +71,7 @@ func (cmd *Subset) Run() error {
 				first++
 			}
 		} else {
-			glyphID, err := strconv.ParseInt(glyph, 10, 16)
+			glyphID, err := strconv.ParseInt(glyph, 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-- 
2.43.0


From fc0c74f97b6d8c1defc5f29f7a2aed82b241bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 66/74] fix: fontcmd: an unknown encoding is ignored without an
 output

---
 cmd/fontcmd/subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 40d63e1..0de6b8a 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -36,7 +36,8 @@ func (cmd *Subset) Run() error {
 
 	if len(cmd.Outputs) == 0 {
 		cmd.Outputs = []string{cmd.Input}
-	} else if cmd.Encoding != "" && cmd.Encoding != "base64" {
+	}
+	if cmd.Encoding != "" && cmd.Encoding != "base64" {
 		return fmt.Errorf("unsupported encoding: %v", cmd.Encoding)
 	}
 
-- 
2.43.0


From 9853bdac6dd347af3f5294bbda2977406ffa5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 67/74] fix: fontcmd: an escaped dash is taken for the range
 operator

---
 cmd/fontcmd/subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 0de6b8a..6407b7b 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -133,6 +133,7 @@ func (cmd *Subset) Run() error {
 				case 'x':
 					if i+3 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+4]); ok {
+							escaped = true
 							r = rune(h)
 							i += 3
 						} else {
@@ -144,6 +145,7 @@ func (cmd *Subset) Run() error {
 				case 'u':
 					if i+5 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+6]); ok {
+							escaped = true
 							r = rune(h)
 							i += 5
 						} else {
@@ -155,6 +157,7 @@ func (cmd *Subset) Run() error {
 				case 'U':
 					if i+9 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok && h <= unicode.MaxRune {
+							escaped = true
 							r = rune(h)
 							i += 9
 						} else {
-- 
2.43.0


From 9e5e47a2dcb971240628cae0d823aca6b6d63fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 68/74] fix: fontcmd: draw panics for a glyph or font without
 height

---
 cmd/fontcmd/draw.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/draw.go b/cmd/fontcmd/draw.go
index 14e07f9..96f2107 100644
--- a/cmd/fontcmd/draw.go
+++ b/cmd/fontcmd/draw.go
@@ -107,9 +107,11 @@ func (cmd *Show) Run() error {
 	img := image.NewRGBA(rect)
 	draw.Draw(img, rect, image.NewUniform(canvas.White), image.ZP, draw.Over)
 
-	ras := vector.NewRasterizer(width, height)
-	p.ToVectorRasterizer(ras, canvas.DPMM(f))
-	ras.Draw(img, glyphRect, image.NewUniform(canvas.Black), image.ZP)
+	if 0 < width && 0 < height {
+		ras := vector.NewRasterizer(width, height)
+		p.ToVectorRasterizer(ras, canvas.DPMM(f))
+		ras.Draw(img, glyphRect, image.NewUniform(canvas.Black), image.ZP)
+	}
 
 	if cmd.Ratio == 0.0 {
 		if terminal {
-- 
2.43.0


From e7d5ab745cdf0aa16f4a815b6ba5fd4ef449c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 69/74] fix: fontcmd: Unicode ranges beyond 10FFFF are accepted
 and may never end

---
 cmd/fontcmd/subset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 6407b7b..5b2a1e4 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -224,7 +224,7 @@ func (cmd *Subset) Run() error {
 			if err != nil {
 				return fmt.Errorf("invalid unicode codepoint: %v", err)
 			}
-			if last < first || first < 0 {
+			if last < first || first < 0 || unicode.MaxRune < last {
 				return fmt.Errorf("invalid unicode range: U+%4X-U+%4X\n", first, last)
 			}
 			for first != last+1 {
@@ -240,7 +240,7 @@ func (cmd *Subset) Run() error {
 			codepoint, err := strconv.ParseInt(code, 16, 32)
 			if err != nil {
 				return fmt.Errorf("invalid unicode codepoint: %v", err)
-			} else if codepoint < 0 {
+			} else if codepoint < 0 || unicode.MaxRune < codepoint {
 				return fmt.Errorf("invalid unicode codepoint: U+%4X\n", codepoint)
 			}
 			glyphID := sfnt.GlyphIndex(rune(codepoint))
-- 
2.43.0


From 2b06121282c624f319e189ab733405d98bdab91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 70/74] fix: FromGoFreetype writes into the memory of the
 source font

---
 font.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/font.go b/font.go
index 8d5bd1f..a8029e6 100644
--- a/font.go
+++ b/font.go
@@ -166,9 +166,9 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	for _, tag := range tags {
 		length := uint32(len(tables[tag]))
 		padding := (4 - length&3) & 3
-		for j := 0; j < int(padding); j++ {
-			tables[tag] = append(tables[tag], 0x00)
-		}
+		table := make([]byte, length+padding) // the data of the font must not be changed
+		copy(table, tables[tag])
+		tables[tag] = table
 		if tag == "head" {
 			checksumAdjustmentPos = offset + 8
 			binary.BigEndian.PutUint32(tables[tag][8:], 0x00000000)
-- 
2.43.0


From dcb020abfe253f78e8c96eeb925e5d4c5523ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 71/74] fix: FromGoFreetype keeps vmtx without vhea, which
 cannot be read back

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index a8029e6..69e34ce 100644
--- a/font.go
+++ b/font.go
@@ -125,7 +125,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	tables["name"] = v.FieldByName("name").Bytes()
 	tables["OS/2"] = v.FieldByName("os2").Bytes()
 	tables["prep"] = v.FieldByName("prep").Bytes()
-	tables["vmtx"] = v.FieldByName("vmtx").Bytes()
+	// vmtx is useless (and invalid) without the vhea table, which is not kept by truetype.Font
 
 	// reconstruct missing post table
 	post := parse.NewBinaryWriter([]byte{})
-- 
2.43.0


From 3f0d0197ea065021152d0b5829375601c6a2b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:31 +0000
Subject: [PATCH 72/74] fix: FromGoSFNT is empty for fonts parsed from an
 io.ReaderAt

---
 font.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/font.go b/font.go
index 69e34ce..bb73ff4 100644
--- a/font.go
+++ b/font.go
@@ -196,5 +196,15 @@ func FromGoFreetype(font *truetype.Font) []byte {
 func FromGoSFNT(font *sfnt.Font) []byte {
 	v := reflect.ValueOf(*font)
 	buf := v.FieldByName("src").FieldByName("b").Bytes()
+	if buf == nil { // parsed from an io.ReaderAt
+		w := &bytes.Buffer{}
+		if _, err := font.WriteSourceTo(nil, w); err != nil {
+			return nil
+		}
+		for w.Len()%4 != 0 {
+			w.WriteByte(0) // the last table is written without padding
+		}
+		buf = w.Bytes()
+	}
 	return buf
 }
-- 
2.43.0


From 4b8d7eb0661ae1bebdacd4d47be7d9d6b54bbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:38 +0000
Subject: [PATCH 73/74] fix: XDG_DATA_DIRS is a list of directories

---
 system.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/system.go b/system.go
index 77ef863..dc87bef 100644
--- a/system.go
+++ b/system.go
@@ -31,8 +31,10 @@ func DefaultFontDirs() []string {
 		if xdgDataHome := os.Getenv("XDG_DATA_HOME"); xdgDataHome != "" {
 			dirs = append(dirs, filepath.Join(xdgDataHome, "fonts"))
 		}
-		if xdgDataDirs := os.Getenv("XDG_DATA_DIRS"); xdgDataDirs != "" {
-			dirs = append(dirs, filepath.Join(xdgDataDirs, "fonts"))
+		for _, xdgDataDir := range filepath.SplitList(os.Getenv("XDG_DATA_DIRS")) {
+			if xdgDataDir != "" {
+				dirs = append(dirs, filepath.Join(xdgDataDir, "fonts"))
+			}
 		}
 	case "android":
 		dirs = []string{
-- 
2.43.0


From f97b76bc47a1be5d79d4cb7eeaeca76c65394bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:38 +0000
Subject: [PATCH 74/74] fix: Unicode ranges of CJK strokes and Hangul Jamo
 Extended-B in OS/2

---
 sfnt_os2.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index 4cb2f2c..467b6e0 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -356,16 +356,16 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31C0 {
+		return -1
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
 		return -1
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
 		return -1
 	} else if r < 0x4E00 {
@@ -402,7 +402,7 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return -1
 	} else if r < 0xD7AF {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
-- 
2.43.0

