From 8e41b47eef61c0547d110fedc97f7d28036c398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 001/120] fix: TrueType contours that start off-curve and
 continue with an on-curve point

---
 sfnt_truetype.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index bb0999c..01748e3 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -381,6 +381,7 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					startY = float64(contour.YCoordinates[i])
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
+					prevOff = false // first point may be off
 				} else if !prevOff {
 					// first point is off
 					firstOff = true
-- 
2.43.0


From 8e30058e8f6df9a27ff4398ba95691f867eeec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 002/120] fix: overflow of implied on-curve points for large
 TrueType coordinates

---
 sfnt_truetype.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 01748e3..05d3188 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -388,8 +388,8 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					prevOff = true
 				} else {
 					// first and second point are off
-					startX = float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					startY = float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					startX = (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					startY = (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.MoveTo(x+f*startX, y+f*startY)
 					first = false
 				}
@@ -404,16 +404,16 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*float64(contour.XCoordinates[i]), y+f*float64(contour.YCoordinates[i]))
 					prevOff = false
 				} else {
-					midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[i]) / 2.0
-					midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[i]) / 2.0
+					midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[i])) / 2.0
+					midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[i])) / 2.0
 					p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				}
 			}
 		}
 		if firstOff {
 			if prevOff {
-				midX := float64(contour.XCoordinates[i-1]+contour.XCoordinates[j]) / 2.0
-				midY := float64(contour.YCoordinates[i-1]+contour.YCoordinates[j]) / 2.0
+				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
+				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
 				p.QuadTo(x+f*float64(contour.XCoordinates[i-1]), y+f*float64(contour.YCoordinates[i-1]), x+f*midX, y+f*midY)
 				p.QuadTo(x+f*float64(contour.XCoordinates[j]), y+f*float64(contour.YCoordinates[j]), x+f*startX, y+f*startY)
 			} else {
-- 
2.43.0


From 320a1335d1511fe4a64287fa9ddc7db4f2327c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 003/120] fix: TrueType contours of a single off-curve point
 draw outside a contour

---
 sfnt_truetype.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 05d3188..1438878 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -410,7 +410,9 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 				}
 			}
 		}
-		if firstOff {
+		if first {
+			continue // no points or a single off-curve point, nothing to draw
+		} else if firstOff {
 			if prevOff {
 				midX := (float64(contour.XCoordinates[i-1]) + float64(contour.XCoordinates[j])) / 2.0
 				midY := (float64(contour.YCoordinates[i-1]) + float64(contour.YCoordinates[j])) / 2.0
-- 
2.43.0


From 02597e9fa08ab96ca5e14e278012e62cc085342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 004/120] fix: out of range accesses for TrueType glyphs
 without contours, with unordered end points or too many flag repeats

---
 sfnt_truetype.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 1438878..40c22bc 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -195,7 +195,13 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 		}
 		contour.Instructions = r.ReadBytes(int64(instructionLength))
 
-		numPoints := int(contour.EndPoints[numberOfContours-1]) + 1
+		numPoints := 0
+		for _, endPoint := range contour.EndPoints {
+			if int(endPoint)+1 < numPoints {
+				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+			}
+			numPoints = int(endPoint) + 1
+		}
 		flags := make([]byte, numPoints)
 		contour.OnCurve = make([]bool, numPoints)
 		contour.OverlapSimple = make([]bool, numPoints)
@@ -209,6 +215,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			contour.OverlapSimple[i] = flags[i]&0x40 != 0
 			if flags[i]&0x08 != 0 { // REPEAT_FLAG
 				repeats := r.ReadUint8()
+				if numPoints <= i+int(repeats) {
+					return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+				}
 				for j := 1; j <= int(repeats); j++ {
 					flags[i+j] = flags[i]
 					contour.OnCurve[i+j] = contour.OnCurve[i]
@@ -367,14 +376,14 @@ func (glyf *glyfTable) ToPath(p Pather, glyphID, ppem uint16, x, y, f float64, h
 		return err
 	}
 
-	var i uint16
+	i := 0
 	for _, endPoint := range contour.EndPoints {
 		j := i
 		first := true
 		firstOff := false
 		prevOff := false
 		startX, startY := 0.0, 0.0
-		for ; i <= endPoint; i++ {
+		for ; i <= int(endPoint); i++ {
 			if first {
 				if contour.OnCurve[i] {
 					startX = float64(contour.XCoordinates[i])
-- 
2.43.0


From cd829a1e02672d815aa0ba702a2cab1b700e560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 005/120] fix: fonts with an empty table at the end of the file
 are rejected, although written as such

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index f187967..06cc43f 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -335,7 +335,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		length := r.ReadUint32()
 
 		padding := (4 - length&3) & 3
-		if uint32(len(b)) <= offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
+		if uint32(len(b)) < offset || uint32(len(b))-offset < length || uint32(len(b))-offset-length < padding {
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 9b7691a0a9f378e70a662280b5d2f34489460bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 006/120] fix: CFF vstem hints implied by a cntrmask operator
 are not counted

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 378b11f..3b7b05f 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -482,7 +482,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				}
 				stack = stack[:0]
 			case cffHintmask, cffCntrmask:
-				if b0 == cffHintmask && 0 < len(stack) {
+				if 0 < len(stack) {
 					// vstem or vstemhm
 					if len(stack)%2 != 0 {
 						return fmt.Errorf("%v: %v", table, ErrBadNumOperands)
-- 
2.43.0


From 02f0c236fb4cc77ab0cb5c589492e4a86dc0f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 007/120] fix: CFF flex1 picks the wrong direction for
 displacements over 32767 units

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3b7b05f..f90785e 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -800,7 +800,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 			x += stack[8]
 			y += stack[9]
 			cpx2, cpy2 = x, y
-			dx, dy := x-x1, y-y1
+			dx, dy := int64(x)-int64(x1), int64(y)-int64(y1)
 			if dx < 0 {
 				dx = -dx
 			}
-- 
2.43.0


From 7a998a28c1d1a86b0b0311eb8e2ea04a1047da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 008/120] fix: glyph to runes lookup lists runes that an
 earlier cmap subtable maps to another glyph

---
 sfnt_cmap.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 265d942..9b82b61 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -383,12 +383,15 @@ func (cmap *cmapTable) Get(r rune) uint16 {
 	return 0
 }
 
-// ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none.
+// ToUnicode returns all runes for the corresponding glyph ID. It looks for each subtable in the order in which they appear and returns referenced runes for the glyph ID, or nil if none. Runes for which Get returns another glyph ID are left out.
 func (cmap *cmapTable) ToUnicode(glyphID uint16) []rune {
 	var rs []rune
 	for _, subtable := range cmap.Subtables {
 	AppendLoop:
 		for _, r := range subtable.ToUnicode(glyphID) {
+			if cmap.Get(r) != glyphID {
+				continue // mapped to another glyph by an earlier subtable
+			}
 			for _, r2 := range rs {
 				if r2 == r {
 					continue AppendLoop
-- 
2.43.0


From 98da0ac6649dbc1621d3b8d805d4b6bc69d25db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 009/120] fix: cmap format 4 idDelta is ignored for segments
 with a glyph index array, and ranges before that array panic

---
 sfnt_cmap.go | 57 ++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 9b82b61..7d44c58 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -55,37 +55,36 @@ func (subtable *cmapFormat4) Get(r rune) (uint16, bool) {
 	n := len(subtable.StartCode)
 	for i := 0; i < n; i++ {
 		if subtable.StartCode[i] <= uint16(r) && uint16(r) <= subtable.EndCode[i] {
-			if subtable.IdRangeOffset[i] == 0 {
-				// is modulo 65536 with the idDelta cast and addition overflow
-				return uint16(subtable.IdDelta[i]) + uint16(r), true
-			}
-			// idRangeOffset/2  ->  offset value to index of words
-			// r-startCode  ->  difference of rune with startCode
-			// -(n-1)  ->  subtract offset from the current idRangeOffset item
-			index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-			return subtable.GlyphIdArray[index], true // index is always valid
+			return subtable.glyphID(i, uint16(r)), true
 		}
 	}
 	return 0, false
 }
 
+// glyphID returns the glyph ID for a character code within segment i.
+func (subtable *cmapFormat4) glyphID(i int, code uint16) uint16 {
+	if subtable.IdRangeOffset[i] == 0 {
+		// is modulo 65536 with the idDelta cast and addition overflow
+		return uint16(subtable.IdDelta[i]) + code
+	}
+	// idRangeOffset/2  ->  offset value to index of words
+	// code-startCode  ->  difference of character code with startCode
+	// -(n-i)  ->  subtract offset from the current idRangeOffset item
+	index := int(subtable.IdRangeOffset[i]/2) + int(code-subtable.StartCode[i]) - (len(subtable.StartCode) - i)
+	glyphID := subtable.GlyphIdArray[index] // index is always valid
+	if glyphID != 0 {
+		glyphID += uint16(subtable.IdDelta[i]) // is modulo 65536
+	}
+	return glyphID
+}
+
 func (subtable *cmapFormat4) ToUnicode(glyphID uint16) []rune {
 	subtable.once.Do(func() {
 		subtable.unicodeMap = map[uint16][]rune{}
 		n := len(subtable.StartCode)
 		for i := 0; i < n; i++ {
 			for r := rune(subtable.StartCode[i]); r <= rune(subtable.EndCode[i]); r++ {
-				var id uint16
-				if subtable.IdRangeOffset[i] == 0 {
-					// is modulo 65536 with the idDelta cast and addition overflow
-					id = uint16(subtable.IdDelta[i]) + uint16(r)
-				} else {
-					// idRangeOffset/2  ->  offset value to index of words
-					// r-startCode  ->  difference of rune with startCode
-					// -(n-1)  ->  subtract offset from the current idRangeOffset item
-					index := int(subtable.IdRangeOffset[i]/2) + int(uint16(r)-subtable.StartCode[i]) - (n - i)
-					id = subtable.GlyphIdArray[index]
-				}
+				id := subtable.glyphID(i, uint16(r))
 				subtable.unicodeMap[id] = append(subtable.unicodeMap[id], r)
 			}
 		}
@@ -551,8 +550,8 @@ func (sfnt *SFNT) parseCmap() error {
 					if idRangeOffset%2 != 0 {
 						return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 					} else if idRangeOffset != 0 {
-						index := int(idRangeOffset/2) + int(subtable.EndCode[i]-subtable.StartCode[i]) - (int(segCount) - i)
-						if index < 0 || glyphIdArrayLength <= index {
+						index := int(idRangeOffset/2) - (int(segCount) - i)
+						if index < 0 || glyphIdArrayLength <= index+int(subtable.EndCode[i]-subtable.StartCode[i]) {
 							return fmt.Errorf("cmap: bad idRangeOffset in subtable %d", j)
 						}
 					}
@@ -563,11 +562,17 @@ func (sfnt *SFNT) parseCmap() error {
 
 				subtable.GlyphIdArray = make([]uint16, glyphIdArrayLength)
 				for i := 0; i < int(glyphIdArrayLength); i++ {
-					glyphID := rs.ReadUint16()
-					if sfnt.Maxp.NumGlyphs <= glyphID {
-						return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
+					subtable.GlyphIdArray[i] = rs.ReadUint16()
+				}
+				for i := 0; i < int(segCount-1); i++ {
+					if subtable.IdRangeOffset[i] == 0 {
+						continue
+					}
+					for code := int(subtable.StartCode[i]); code <= int(subtable.EndCode[i]); code++ {
+						if sfnt.Maxp.NumGlyphs <= subtable.glyphID(i, uint16(code)) {
+							return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
+						}
 					}
-					subtable.GlyphIdArray[i] = glyphID
 				}
 				sfnt.Cmap.Subtables = append(sfnt.Cmap.Subtables, subtable)
 			case 6:
-- 
2.43.0


From 0d31e1fead476609c4c8de0af0b08eb53bac790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 010/120] fix: bounds of CFF glyphs always include the origin
 and are truncated towards it

---
 sfnt.go      |  2 +-
 sfnt_util.go | 38 +++++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 06cc43f..8686407 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -204,7 +204,7 @@ func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
 	} else if sfnt.IsCFF {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
-			return int16(p.XMin), int16(p.YMin), int16(math.Ceil(p.XMax)), int16(math.Ceil(p.YMax))
+			return p.Bounds()
 		}
 	}
 	return 0, 0, 0, 0
diff --git a/sfnt_util.go b/sfnt_util.go
index fd2ef90..bdc19b1 100644
--- a/sfnt_util.go
+++ b/sfnt_util.go
@@ -4,35 +4,47 @@ import "math"
 
 type bboxPather struct {
 	XMin, XMax, YMin, YMax float64
+	hasPoint               bool
 }
 
-func (p *bboxPather) MoveTo(x float64, y float64) {
+func (p *bboxPather) add(x, y float64) {
+	if !p.hasPoint {
+		p.XMin, p.XMax, p.YMin, p.YMax = x, x, y, y
+		p.hasPoint = true
+		return
+	}
 	p.XMin = math.Min(p.XMin, x)
 	p.XMax = math.Max(p.XMax, x)
 	p.YMin = math.Min(p.YMin, y)
 	p.YMax = math.Max(p.YMax, y)
 }
 
+func (p *bboxPather) MoveTo(x float64, y float64) {
+	p.add(x, y)
+}
+
 func (p *bboxPather) LineTo(x float64, y float64) {
-	p.XMin = math.Min(p.XMin, x)
-	p.XMax = math.Max(p.XMax, x)
-	p.YMin = math.Min(p.YMin, y)
-	p.YMax = math.Max(p.YMax, y)
+	p.add(x, y)
 }
 
 func (p *bboxPather) QuadTo(cpx float64, cpy float64, x float64, y float64) {
-	p.XMin = math.Min(math.Min(p.XMin, cpx), x)
-	p.XMax = math.Max(math.Max(p.XMax, cpx), x)
-	p.YMin = math.Min(math.Min(p.YMin, cpy), y)
-	p.YMax = math.Max(math.Max(p.YMax, cpy), y)
+	p.add(cpx, cpy)
+	p.add(x, y)
 }
 
 func (p *bboxPather) CubeTo(cpx1 float64, cpy1 float64, cpx2 float64, cpy2 float64, x float64, y float64) {
-	p.XMin = math.Min(math.Min(math.Min(p.XMin, cpx1), cpx2), x)
-	p.XMax = math.Max(math.Max(math.Max(p.XMax, cpx1), cpx2), x)
-	p.YMin = math.Min(math.Min(math.Min(p.YMin, cpy1), cpy2), y)
-	p.YMax = math.Max(math.Max(math.Max(p.YMax, cpy1), cpy2), y)
+	p.add(cpx1, cpy1)
+	p.add(cpx2, cpy2)
+	p.add(x, y)
 }
 
 func (p *bboxPather) Close() {
 }
+
+// Bounds returns the integer rectangle (xmin,ymin,xmax,ymax) that encloses all points.
+func (p *bboxPather) Bounds() (int16, int16, int16, int16) {
+	clamp := func(v float64) int16 {
+		return int16(math.Max(math.MinInt16, math.Min(math.MaxInt16, v)))
+	}
+	return clamp(math.Floor(p.XMin)), clamp(math.Floor(p.YMin)), clamp(math.Ceil(p.XMax)), clamp(math.Ceil(p.YMax))
+}
-- 
2.43.0


From 1ba3e95435b3f2a27cff696ad1895516e9630834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 011/120] fix: line metrics panic for fonts without OS/2 table,
 and the line gap overflows for large ascents

---
 sfnt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 8686407..dd41d23 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -147,6 +147,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 		lineGap = uint16(sfnt.Hhea.LineGap)
 	}
 
+	if sfnt.OS2 == nil {
+		return ascender, descender, lineGap
+	}
 	if (sfnt.OS2.FsSelection & 0x0080) != 0 { // USE_TYPO_METRICS
 		if 0 < sfnt.OS2.STypoAscender && sfnt.OS2.STypoDescender < 0 {
 			ascender = uint16(sfnt.OS2.STypoAscender)
@@ -160,9 +163,9 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	} else {
 		if sfnt.OS2.UsWinAscent != 0 && sfnt.OS2.UsWinDescent != 0 {
 			ascender, descender = sfnt.OS2.UsWinAscent, sfnt.OS2.UsWinDescent
-			externalLeading := int(sfnt.Hhea.Ascender-sfnt.Hhea.Descender+sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent+sfnt.OS2.UsWinDescent)
+			externalLeading := int(sfnt.Hhea.Ascender) - int(sfnt.Hhea.Descender) + int(sfnt.Hhea.LineGap) - int(sfnt.OS2.UsWinAscent) - int(sfnt.OS2.UsWinDescent)
 			if 0 < externalLeading {
-				lineGap = uint16(externalLeading)
+				lineGap = uint16(min(externalLeading, math.MaxUint16))
 			} else {
 				lineGap = 0
 			}
-- 
2.43.0


From b286cc9c0aaa65aa34f93d28bc0cbc417482a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:32 +0000
Subject: [PATCH 012/120] fix: text of name records for other platforms than
 Unicode, Windows and Macintosh panics

---
 sfnt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index dd41d23..c7bb1af 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -914,6 +914,8 @@ func (record nameRecord) String() string {
 		decoder = unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
 	} else if record.Platform == PlatformMacintosh && record.Encoding == EncodingMacintoshRoman {
 		decoder = charmap.Macintosh.NewDecoder()
+	} else {
+		return string(record.Value)
 	}
 	s, _, err := transform.String(decoder, string(record.Value))
 	if err == nil {
-- 
2.43.0


From b4095da0653167d63304fb1815c5bc95d3e5e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 013/120] fix: name tables with more than 65535 bytes are
 rejected or panic

---
 sfnt.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index c7bb1af..c7896d8 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -969,9 +969,10 @@ func (sfnt *SFNT) parseName() error {
 	}
 	count := r.ReadUint16()
 	storageOffset := r.ReadUint16()
-	if uint32(len(b)) < 6+12*uint32(count) || uint16(len(b)) < storageOffset {
+	if uint32(len(b)) < 6+12*uint32(count) || uint32(len(b)) < uint32(storageOffset) {
 		return fmt.Errorf("name: bad table")
 	}
+	storage := b[storageOffset:]
 	sfnt.Name.NameRecord = make([]nameRecord, count)
 	for i := 0; i < int(count); i++ {
 		sfnt.Name.NameRecord[i].Platform = PlatformID(r.ReadUint16())
@@ -981,10 +982,10 @@ func (sfnt *SFNT) parseName() error {
 
 		length := r.ReadUint16()
 		offset := r.ReadUint16()
-		if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+		if uint32(len(storage)) < uint32(offset)+uint32(length) {
 			return fmt.Errorf("name: bad table")
 		}
-		sfnt.Name.NameRecord[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+		sfnt.Name.NameRecord[i].Value = storage[offset : uint32(offset)+uint32(length)]
 	}
 	if version == 1 {
 		if uint32(len(b)) < 6+12*uint32(count)+2 {
@@ -998,10 +999,10 @@ func (sfnt *SFNT) parseName() error {
 		for i := 0; i < int(langTagCount); i++ {
 			length := r.ReadUint16()
 			offset := r.ReadUint16()
-			if uint16(len(b))-storageOffset < offset || uint16(len(b))-storageOffset-offset < length {
+			if uint32(len(storage)) < uint32(offset)+uint32(length) {
 				return fmt.Errorf("name: bad table")
 			}
-			sfnt.Name.LangTag[i].Value = b[storageOffset+offset : storageOffset+offset+length]
+			sfnt.Name.LangTag[i].Value = storage[offset : uint32(offset)+uint32(length)]
 		}
 	}
 	if r.Pos() != int64(storageOffset) {
-- 
2.43.0


From b34406665af8a00f066cbe275766724ba8409aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:10 +0000
Subject: [PATCH 014/120] fix: creation and modification dates overflow after
 the year 2196

---
 sfnt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index c7896d8..a65e780 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -576,8 +576,9 @@ func (sfnt *SFNT) parseHead() error {
 	if math.MaxInt64 < created || math.MaxInt64 < modified {
 		return fmt.Errorf("head: created and/or modified dates too large")
 	}
-	sfnt.Head.Created = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(created))
-	sfnt.Head.Modified = time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Second * time.Duration(modified))
+	epoch := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix() // dates may lie farther away than what fits in time.Duration
+	sfnt.Head.Created = time.Unix(epoch+int64(created), 0).UTC()
+	sfnt.Head.Modified = time.Unix(epoch+int64(modified), 0).UTC()
 	sfnt.Head.XMin = r.ReadInt16()
 	sfnt.Head.YMin = r.ReadInt16()
 	sfnt.Head.XMax = r.ReadInt16()
-- 
2.43.0


From 7a473377daf7756bf37514b8d36be6b7922afa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 015/120] fix: CFF fonts with a single glyph and a custom
 charset lose the name of that glyph

---
 sfnt_cff.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index f90785e..750a93d 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -153,6 +153,8 @@ func (sfnt *SFNT) parseCFF() error {
 		default:
 			return fmt.Errorf("CFF: unknown Charset format %d", format)
 		}
+	} else if charStringsINDEX.Len() == 1 {
+		charset = []string{".notdef"} // always omitted from the charset data
 	}
 
 	sfnt.CFF = &cffTable{
-- 
2.43.0


From 051f4071c4da55c43582b62f494070b59d13446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:18 +0000
Subject: [PATCH 016/120] fix: kerning ignores the direction, cross-stream and
 override flags, misreads version 1 and unsupported subtables, and rejects
 oversized last subtables

---
 sfnt_truetype.go | 88 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 40c22bc..2a0a268 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -528,6 +528,11 @@ type kernFormat0 struct {
 }
 
 func (subtable *kernFormat0) Get(l, r uint16) int16 {
+	value, _ := subtable.find(l, r)
+	return value
+}
+
+func (subtable *kernFormat0) find(l, r uint16) (int16, bool) {
 	key := uint32(l)<<16 | uint32(r)
 	lo, hi := 0, len(subtable.Pairs)
 	for lo < hi {
@@ -538,10 +543,10 @@ func (subtable *kernFormat0) Get(l, r uint16) int16 {
 		} else if key < pair.Key {
 			hi = mid
 		} else {
-			return pair.Value
+			return pair.Value, true
 		}
 	}
-	return 0
+	return 0, false
 }
 
 type kernTable struct {
@@ -550,10 +555,18 @@ type kernTable struct {
 
 func (kern *kernTable) Get(l, r uint16) (k int16) {
 	for _, subtable := range kern.Subtables {
-		if !subtable.Coverage[1] { // kerning values
-			k += subtable.Get(l, r)
-		} else if min := subtable.Get(l, r); k < min { // minimum values (usually last subtable)
-			k = min // TODO: test minimal kerning
+		if !subtable.Coverage[0] || subtable.Coverage[2] {
+			continue // vertical or cross-stream
+		}
+		value, ok := subtable.find(l, r)
+		if !ok {
+			continue
+		} else if subtable.Coverage[1] { // minimum values (usually last subtable)
+			k = max(k, value)
+		} else if subtable.Coverage[3] { // override
+			k = value
+		} else { // kerning values
+			k += value
 		}
 	}
 	return
@@ -586,23 +599,43 @@ func (sfnt *SFNT) parseKern() error {
 	}
 
 	sfnt.Kern = &kernTable{}
-	for j := 0; j < int(nTables); j++ {
-		if r.Len() < 6 {
-			return fmt.Errorf("kern: bad subtable %d", j)
-		}
-
+	for j := uint32(0); j < nTables; j++ {
 		subtable := kernFormat0{}
 		startPos := r.Pos()
-		subtableVersion := r.ReadUint16()
-		if subtableVersion != 0 {
+		supported := true
+		var length int64
+		var format uint8
+		if majorVersion == 0 {
+			if r.Len() < 6 {
+				return fmt.Errorf("kern: bad subtable %d", j)
+			}
 			// TODO: supported other kern subtable versions
-			continue
+			supported = r.ReadUint16() == 0
+			length = int64(r.ReadUint16())
+			format = r.ReadUint8()
+			subtable.Coverage = Uint8ToFlags(r.ReadUint8())
+		} else {
+			if r.Len() < 8 {
+				return fmt.Errorf("kern: bad subtable %d", j)
+			}
+			length = int64(r.ReadUint32())
+			coverage := r.ReadUint8()
+			format = r.ReadUint8()
+			_ = r.ReadUint16()                          // tupleIndex
+			subtable.Coverage[0] = coverage&0x80 == 0   // horizontal
+			subtable.Coverage[2] = coverage&0x40 != 0   // cross-stream
+			supported = supported && coverage&0x20 == 0 // variation
 		}
-		length := r.ReadUint16()
-		format := r.ReadUint8()
-		subtable.Coverage = Uint8ToFlags(r.ReadUint8())
-		if format != 0 {
+		headerLength := r.Pos() - startPos
+		if !supported || format != 0 {
 			// TODO: supported other kern subtable formats
+			if length < headerLength || r.Len() < length-headerLength {
+				if j+1 == nTables {
+					break
+				}
+				return fmt.Errorf("kern: bad length for subtable %d", j)
+			}
+			_ = r.ReadBytes(length - headerLength)
 			continue
 		} else if r.Len() < 8 {
 			return fmt.Errorf("kern: bad subtable %d", j)
@@ -611,18 +644,15 @@ func (sfnt *SFNT) parseKern() error {
 		_ = r.ReadUint16() // searchRange
 		_ = r.ReadUint16() // entrySelector
 		_ = r.ReadUint16() // rangeShift
-		if int64(length) < 14+6*int64(nPairs) || r.Len() < int64(length) {
-			if j+1 == int(nTables) {
-				// for some fonts the subtable's length exceeds what can fit in a uint16
-				// we allow only the last subtable to exceed as long as it stays within the table
-				pairsLength := 6 * int64(nPairs)
-				pairsLength &= 0xFFFF
-				if int64(length) != 14+pairsLength || r.Len() < pairsLength {
-					return fmt.Errorf("kern: bad length for subtable %d", j)
-				}
-			} else {
+		headerLength += 8
+		pairsLength := 6 * int64(nPairs)
+		if length < headerLength+pairsLength || r.Len() < length-headerLength {
+			// for some fonts the subtable's length exceeds what can fit in a uint16
+			// we allow only the last subtable to exceed as long as it stays within the table
+			if j+1 != nTables || majorVersion != 0 || length != (headerLength+pairsLength)&0xFFFF || r.Len() < pairsLength {
 				return fmt.Errorf("kern: bad length for subtable %d", j)
 			}
+			length = headerLength + pairsLength
 		}
 
 		sorted := true
@@ -642,7 +672,7 @@ func (sfnt *SFNT) parseKern() error {
 		}
 
 		// read unread bytes if length is bigger
-		_ = r.ReadBytes(int64(length) - (r.Pos() - startPos))
+		_ = r.ReadBytes(length - headerLength - pairsLength)
 		sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, subtable)
 	}
 	return nil
-- 
2.43.0


From b15fc7dd9ff9ec16cac0aba8677bf6445ce9c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 017/120] fix: fonts in collections that are not in file order,
 or near the end of the file, are rejected or panic, and a font index over 32
 bits wraps around

---
 sfnt.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index a65e780..26579c6 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -295,22 +295,16 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 		}
 
 		numFonts := r.ReadUint32()
-		if index < 0 || numFonts <= uint32(index) {
+		if index < 0 || int64(numFonts) <= int64(index) {
 			return nil, fmt.Errorf("bad font index %d", index)
 		}
 		if r.Len() < 4*int64(numFonts) {
 			return nil, ErrInvalidFontData
 		}
 
-		_ = r.ReadBytes(int64(4 * index))
+		_ = r.ReadBytes(4 * int64(index))
 		offset := r.ReadUint32()
-		var length uint32
-		if uint32(index)+1 == numFonts {
-			length = uint32(len(b)) - offset
-		} else {
-			length = r.ReadUint32() - offset
-		}
-		if uint32(len(b))-8 < offset || uint32(len(b))-8-offset < length {
+		if uint32(len(b))-12 < offset { // fonts can be in any order and can be anywhere in the file
 			return nil, ErrInvalidFontData
 		}
 
-- 
2.43.0


From 304bbcbb77511a009448e146a359926338ef3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 018/120] fix: embedded CFF fonts are always rejected for a
 missing maxp table, which is not required

---
 sfnt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 26579c6..1dd706a 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -398,7 +398,10 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 	if embedded && sfnt.IsCFF {
 		if err := sfnt.parseCFF(); err != nil {
 			return nil, err
-		} else if err := sfnt.parseCmap(); err != nil {
+		}
+		// maxp is not required and may be missing, it is needed by the cmap table
+		sfnt.Maxp = &maxpTable{NumGlyphs: uint16(sfnt.CFF.charStrings.Len())}
+		if err := sfnt.parseCmap(); err != nil {
 			return nil, err
 		}
 		return sfnt, nil
-- 
2.43.0


From 18798fcc8d5a05ea9c9684f35040335ec48bf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 019/120] fix: writing fonts without head table overwrites the
 version, and fonts with more than 4095 tables are corrupt

---
 sfnt.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 1dd706a..290a5e6 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -482,15 +482,18 @@ func (sfnt *SFNT) Write() []byte {
 		w.WriteString("OTTO") // sfntVersion
 	}
 	numTables := uint16(len(tags))
-	entrySelector := uint16(math.Log2(float64(numTables)))
-	searchRange := uint16(1 << (entrySelector + 4))
+	var entrySelector, searchRange uint16
+	if 0 < numTables {
+		entrySelector = uint16(math.Log2(float64(numTables)))
+		searchRange = uint16(1 << (entrySelector + 4))
+	}
 	w.WriteUint16(numTables)                  // numTables
 	w.WriteUint16(searchRange)                // searchRange
 	w.WriteUint16(entrySelector)              // entrySelector
 	w.WriteUint16(numTables<<4 - searchRange) // rangeShift
 
 	// we'll write the table records at the end
-	w.WriteBytes(make([]byte, numTables<<4))
+	w.WriteBytes(make([]byte, 16*int(numTables)))
 
 	// write tables
 	var checksumAdjustmentPos uint32
@@ -498,7 +501,7 @@ func (sfnt *SFNT) Write() []byte {
 	for i, tag := range tags {
 		offsets[i] = uint32(w.Len())
 		table := sfnt.Tables[tag]
-		if tag == "head" {
+		if tag == "head" && 36 <= len(table) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 			w.WriteBytes(table[:8])
 			w.WriteUint32(0)
@@ -527,7 +530,9 @@ func (sfnt *SFNT) Write() []byte {
 		binary.BigEndian.PutUint32(buf[pos+8:], offsets[i])
 		binary.BigEndian.PutUint32(buf[pos+12:], lengths[i])
 	}
-	binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	if checksumAdjustmentPos != 0 { // the head table may be missing for embedded fonts
+		binary.BigEndian.PutUint32(buf[checksumAdjustmentPos:], 0xB1B0AFBA-calcChecksum(buf))
+	}
 	return buf
 }
 
-- 
2.43.0


From 0c40a59a32dc0bd1b48b65436e61ce26fd4cb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 020/120] fix: EOT files that end with their font data are
 rejected, and truncated EOT files panic

---
 eot.go | 58 ++++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/eot.go b/eot.go
index 0b4e65f..520d808 100644
--- a/eot.go
+++ b/eot.go
@@ -3,13 +3,16 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
-	"io"
 
 	"github.com/tdewolff/parse/v2"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
+	if len(b) < 84 {
+		return nil, ErrInvalidFontData
+	}
+
 	r := parse.NewBinaryReaderBytes(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
@@ -33,41 +36,68 @@ func ParseEOT(b []byte) ([]byte, error) {
 	_ = r.ReadBytes(16) // Reserved
 	_ = r.ReadUint16()  // Padding1
 
-	familyNameSize := r.ReadUint16()       // FamilyNameSize
+	familyNameSize := r.ReadUint16() // FamilyNameSize
+	if r.Len() < int64(familyNameSize)+4 {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(familyNameSize)) // FamilyName
 	_ = r.ReadUint16()                     // Padding2
 
-	styleNameSize := r.ReadUint16()       // StyleNameSize
+	styleNameSize := r.ReadUint16() // StyleNameSize
+	if r.Len() < int64(styleNameSize)+4 {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(styleNameSize)) // Stylename
 	_ = r.ReadUint16()                    // Padding3
 
-	versionNameSize := r.ReadUint16()       // VersionNameSize
+	versionNameSize := r.ReadUint16() // VersionNameSize
+	if r.Len() < int64(versionNameSize)+4 {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(versionNameSize)) // VersionName
 	_ = r.ReadUint16()                      // Padding4
 
-	fullNameSize := r.ReadUint16()       // FullNameSize
+	fullNameSize := r.ReadUint16() // FullNameSize
+	if r.Len() < int64(fullNameSize) {
+		return nil, ErrInvalidFontData
+	}
 	_ = r.ReadBytes(int64(fullNameSize)) // FullName
 
 	if version == 0x00020001 || version == 0x00020002 {
-		_ = r.ReadUint16()                     // Padding5
-		rootStringSize := r.ReadUint16()       // RootStringSize
+		if r.Len() < 4 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint16()               // Padding5
+		rootStringSize := r.ReadUint16() // RootStringSize
+		if r.Len() < int64(rootStringSize) {
+			return nil, ErrInvalidFontData
+		}
 		_ = r.ReadBytes(int64(rootStringSize)) // RootString
 	}
 	if version == 0x00020002 {
-		_ = r.ReadUint32()                    // RootStringCheckSum
-		_ = r.ReadUint32()                    // EUDCCodePage
-		_ = r.ReadUint16()                    // Padding6
-		signatureSize := r.ReadUint16()       // SignatureSize
+		if r.Len() < 12 {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadUint32()              // RootStringCheckSum
+		_ = r.ReadUint32()              // EUDCCodePage
+		_ = r.ReadUint16()              // Padding6
+		signatureSize := r.ReadUint16() // SignatureSize
+		if r.Len() < int64(signatureSize)+8 {
+			return nil, ErrInvalidFontData
+		}
 		_ = r.ReadBytes(int64(signatureSize)) // Signature
 		_ = r.ReadUint32()                    // EUDCFlags
 		eudcFontSize := r.ReadUint32()        // EUDCFontSize
-		_ = r.ReadBytes(int64(eudcFontSize))  // EUDCFontData
+		if r.Len() < int64(eudcFontSize) {
+			return nil, ErrInvalidFontData
+		}
+		_ = r.ReadBytes(int64(eudcFontSize)) // EUDCFontData
 	}
 
-	fontData := r.ReadBytes(int64(fontDataSize))
-	if r.Err() == io.EOF {
+	if r.Len() < int64(fontDataSize) {
 		return nil, ErrInvalidFontData
 	}
+	fontData := r.ReadBytes(int64(fontDataSize))
 
 	isCompressed := (flags & 0x00000004) != 0
 	isXORed := (flags & 0x10000000) != 0
-- 
2.43.0


From f00f61c1b1074131f6215cd36ccff1fb79375558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:53 +0000
Subject: [PATCH 021/120] fix: decoding an obfuscated EOT file modifies the
 bytes of the caller, the second time it yields a broken font

---
 eot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eot.go b/eot.go
index 520d808..4b92ae1 100644
--- a/eot.go
+++ b/eot.go
@@ -103,6 +103,7 @@ func ParseEOT(b []byte) ([]byte, error) {
 	isXORed := (flags & 0x10000000) != 0
 
 	if isXORed {
+		fontData = append([]byte{}, fontData...) // keep the input as is
 		for i := 0; i < len(fontData); i++ {
 			fontData[i] ^= 0x50
 		}
-- 
2.43.0


From 613b16159fbdae5940b84639948a62d54473cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 022/120] fix: valid WOFF2 and EOT files are rejected when any
 of their streams is read up to its end, and truncated ones panic

---
 eot.go   | 62 +++++++++++---------------------------------
 util.go  | 78 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 woff2.go | 38 +++++++++++++--------------
 3 files changed, 112 insertions(+), 66 deletions(-)

diff --git a/eot.go b/eot.go
index 4b92ae1..8367dee 100644
--- a/eot.go
+++ b/eot.go
@@ -3,17 +3,12 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
-
-	"github.com/tdewolff/parse/v2"
+	"io"
 )
 
 // ParseEOT parses the EOT font format and returns its contained SFNT font format (TTF or OTF). See https://www.w3.org/Submission/EOT/
 func ParseEOT(b []byte) ([]byte, error) {
-	if len(b) < 84 {
-		return nil, ErrInvalidFontData
-	}
-
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	r.ByteOrder = binary.LittleEndian
 	_ = r.ReadUint32()             // EOTSize
 	fontDataSize := r.ReadUint32() // FontDataSize
@@ -36,68 +31,41 @@ func ParseEOT(b []byte) ([]byte, error) {
 	_ = r.ReadBytes(16) // Reserved
 	_ = r.ReadUint16()  // Padding1
 
-	familyNameSize := r.ReadUint16() // FamilyNameSize
-	if r.Len() < int64(familyNameSize)+4 {
-		return nil, ErrInvalidFontData
-	}
+	familyNameSize := r.ReadUint16()       // FamilyNameSize
 	_ = r.ReadBytes(int64(familyNameSize)) // FamilyName
 	_ = r.ReadUint16()                     // Padding2
 
-	styleNameSize := r.ReadUint16() // StyleNameSize
-	if r.Len() < int64(styleNameSize)+4 {
-		return nil, ErrInvalidFontData
-	}
+	styleNameSize := r.ReadUint16()       // StyleNameSize
 	_ = r.ReadBytes(int64(styleNameSize)) // Stylename
 	_ = r.ReadUint16()                    // Padding3
 
-	versionNameSize := r.ReadUint16() // VersionNameSize
-	if r.Len() < int64(versionNameSize)+4 {
-		return nil, ErrInvalidFontData
-	}
+	versionNameSize := r.ReadUint16()       // VersionNameSize
 	_ = r.ReadBytes(int64(versionNameSize)) // VersionName
 	_ = r.ReadUint16()                      // Padding4
 
-	fullNameSize := r.ReadUint16() // FullNameSize
-	if r.Len() < int64(fullNameSize) {
-		return nil, ErrInvalidFontData
-	}
+	fullNameSize := r.ReadUint16()       // FullNameSize
 	_ = r.ReadBytes(int64(fullNameSize)) // FullName
 
 	if version == 0x00020001 || version == 0x00020002 {
-		if r.Len() < 4 {
-			return nil, ErrInvalidFontData
-		}
-		_ = r.ReadUint16()               // Padding5
-		rootStringSize := r.ReadUint16() // RootStringSize
-		if r.Len() < int64(rootStringSize) {
-			return nil, ErrInvalidFontData
-		}
+		_ = r.ReadUint16()                     // Padding5
+		rootStringSize := r.ReadUint16()       // RootStringSize
 		_ = r.ReadBytes(int64(rootStringSize)) // RootString
 	}
 	if version == 0x00020002 {
-		if r.Len() < 12 {
-			return nil, ErrInvalidFontData
-		}
-		_ = r.ReadUint32()              // RootStringCheckSum
-		_ = r.ReadUint32()              // EUDCCodePage
-		_ = r.ReadUint16()              // Padding6
-		signatureSize := r.ReadUint16() // SignatureSize
-		if r.Len() < int64(signatureSize)+8 {
-			return nil, ErrInvalidFontData
-		}
+		_ = r.ReadUint32()                    // RootStringCheckSum
+		_ = r.ReadUint32()                    // EUDCCodePage
+		_ = r.ReadUint16()                    // Padding6
+		signatureSize := r.ReadUint16()       // SignatureSize
 		_ = r.ReadBytes(int64(signatureSize)) // Signature
 		_ = r.ReadUint32()                    // EUDCFlags
 		eudcFontSize := r.ReadUint32()        // EUDCFontSize
-		if r.Len() < int64(eudcFontSize) {
-			return nil, ErrInvalidFontData
-		}
-		_ = r.ReadBytes(int64(eudcFontSize)) // EUDCFontData
+		_ = r.ReadBytes(int64(eudcFontSize))  // EUDCFontData
 	}
 
-	if r.Len() < int64(fontDataSize) {
+	fontData := r.ReadBytes(int64(fontDataSize))
+	if r.Err() == io.EOF {
 		return nil, ErrInvalidFontData
 	}
-	fontData := r.ReadBytes(int64(fontDataSize))
 
 	isCompressed := (flags & 0x00000004) != 0
 	isXORed := (flags & 0x10000000) != 0
diff --git a/util.go b/util.go
index d728225..d8f6790 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,9 @@ package font
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
+
+	"github.com/tdewolff/parse/v2"
 )
 
 // MaxMemory is the maximum memory that can be allocated by a font.
@@ -55,3 +58,78 @@ func uint32ToString(v uint32) string {
 	binary.BigEndian.PutUint32(b, v)
 	return string(b)
 }
+
+// binaryReader is a parse.BinaryReader for which Err only returns io.EOF when any read or seek went beyond the end of the data, and not when reading up to the end. Reading beyond the end moves to the end and returns zero values.
+type binaryReader struct {
+	*parse.BinaryReader
+	err error
+}
+
+func newBinaryReader(b []byte) *binaryReader {
+	return &binaryReader{parse.NewBinaryReaderBytes(b), nil}
+}
+
+func (r *binaryReader) has(n int64) bool {
+	if n < 0 || r.BinaryReader.Len() < n {
+		r.BinaryReader.Seek(r.BinaryReader.Len(), 1)
+		r.err = io.EOF
+		return false
+	}
+	return true
+}
+
+// Err returns io.EOF if there was any read or seek beyond the end of the data.
+func (r *binaryReader) Err() error {
+	return r.err
+}
+
+// Seek complies with io.Seeker.
+func (r *binaryReader) Seek(off int64, whence int) (int64, error) {
+	pos, err := r.BinaryReader.Seek(off, whence)
+	if err != nil {
+		r.err = io.EOF
+	}
+	return pos, err
+}
+
+// ReadBytes reads n bytes.
+func (r *binaryReader) ReadBytes(n int64) []byte {
+	if !r.has(n) {
+		return nil
+	}
+	return r.BinaryReader.ReadBytes(n)
+}
+
+// ReadString reads a string of length n.
+func (r *binaryReader) ReadString(n int64) string {
+	return string(r.ReadBytes(n))
+}
+
+// ReadUint8 reads a uint8.
+func (r *binaryReader) ReadUint8() uint8 {
+	if !r.has(1) {
+		return 0
+	}
+	return r.BinaryReader.ReadUint8()
+}
+
+// ReadUint16 reads a uint16.
+func (r *binaryReader) ReadUint16() uint16 {
+	if !r.has(2) {
+		return 0
+	}
+	return r.BinaryReader.ReadUint16()
+}
+
+// ReadUint32 reads a uint32.
+func (r *binaryReader) ReadUint32() uint32 {
+	if !r.has(4) {
+		return 0
+	}
+	return r.BinaryReader.ReadUint32()
+}
+
+// ReadInt16 reads an int16.
+func (r *binaryReader) ReadInt16() int16 {
+	return int16(r.ReadUint16())
+}
diff --git a/woff2.go b/woff2.go
index 2bf4e17..cf51258 100644
--- a/woff2.go
+++ b/woff2.go
@@ -57,7 +57,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 		return nil, ErrInvalidFontData
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	signature := r.ReadString(4)
 	if signature != "wOF2" {
 		return nil, fmt.Errorf("bad signature")
@@ -209,7 +209,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
 		} else {
-			rGlyf := parse.NewBinaryReaderBytes(tables[iGlyf].data)
+			rGlyf := newBinaryReader(tables[iGlyf].data)
 			_ = rGlyf.ReadUint32() // version
 			numGlyphs := uint32(rGlyf.ReadUint16())
 			indexFormat := rGlyf.ReadUint16()
@@ -338,7 +338,7 @@ func signInt16(flag byte, pos uint) int16 {
 // Remarkable! This code was written on a Sunday evening, and after fixing the compiler errors it worked flawlessly!
 // Edit: oops, there was actually a subtle bug fixed in dx of flag < 120 of simple glyphs.
 func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error) {
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	_ = r.ReadUint16() // version
 	optionFlags := r.ReadUint16()
 	numGlyphs := r.ReadUint16()
@@ -355,14 +355,14 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
-	nContourStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nContourStreamSize)))
-	nPointsStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(nPointsStreamSize)))
-	flagStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(flagStreamSize)))
-	glyphStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(glyphStreamSize)))
-	compositeStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(compositeStreamSize)))
+	nContourStream := newBinaryReader(r.ReadBytes(int64(nContourStreamSize)))
+	nPointsStream := newBinaryReader(r.ReadBytes(int64(nPointsStreamSize)))
+	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
+	glyphStream := newBinaryReader(r.ReadBytes(int64(glyphStreamSize)))
+	compositeStream := newBinaryReader(r.ReadBytes(int64(compositeStreamSize)))
 	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
-	bboxStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
-	instructionStream := parse.NewBinaryReaderBytes(r.ReadBytes(int64(instructionStreamSize)))
+	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
+	instructionStream := newBinaryReader(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
 		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
@@ -619,7 +619,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
-	rHead := parse.NewBinaryReaderBytes(head)
+	rHead := newBinaryReader(head)
 	_ = rHead.ReadBytes(50) // skip
 	indexFormat := rHead.ReadInt16()
 	if rHead.Err() == io.EOF {
@@ -627,7 +627,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numGlyphs
-	rMaxp := parse.NewBinaryReaderBytes(maxp)
+	rMaxp := newBinaryReader(maxp)
 	_ = rMaxp.ReadUint32() // version
 	numGlyphs := rMaxp.ReadUint16()
 	if rMaxp.Err() == io.EOF {
@@ -635,7 +635,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// get numHMetrics
-	rHhea := parse.NewBinaryReaderBytes(hhea)
+	rHhea := newBinaryReader(hhea)
 	_ = rHhea.ReadBytes(34) // skip all but the last header field
 	numHMetrics := rHhea.ReadUint16()
 	if rHhea.Err() == io.EOF {
@@ -654,9 +654,9 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	if locaLength != uint32(len(loca)) {
 		return nil, ErrInvalidFontData
 	}
-	rLoca := parse.NewBinaryReaderBytes(loca)
+	rLoca := newBinaryReader(loca)
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	flags := r.ReadUint8() // flags
 	reconstructProportional := flags&0x01 != 0
 	reconstructMonospaced := flags&0x02 != 0
@@ -693,7 +693,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	}
 
 	// extract xMin values from glyf table using loca indices
-	rGlyf := parse.NewBinaryReaderBytes(glyf)
+	rGlyf := newBinaryReader(glyf)
 	iGlyphMin := uint16(0)
 	iGlyphMax := numGlyphs
 	if !reconstructProportional {
@@ -744,7 +744,7 @@ func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	return w.Bytes(), nil
 }
 
-func readUintBase128(r *parse.BinaryReader) (uint32, error) {
+func readUintBase128(r *binaryReader) (uint32, error) {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	var accum uint32
 	for i := 0; i < 5; i++ {
@@ -766,7 +766,7 @@ func readUintBase128(r *parse.BinaryReader) (uint32, error) {
 	return 0, fmt.Errorf("readUintBase128: exceeds 5 bytes")
 }
 
-func read255Uint16(r *parse.BinaryReader) uint16 {
+func read255Uint16(r *binaryReader) uint16 {
 	// see https://www.w3.org/TR/WOFF2/#DataTypes
 	code := r.ReadUint8()
 	if code == 253 {
@@ -1034,7 +1034,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			instructionStream.WriteBytes(contour.Instructions)
 		} else {
 			// composite glyph
-			r := parse.NewBinaryReaderBytes(glyf.Get(uint16(glyphID)))
+			r := newBinaryReader(glyf.Get(uint16(glyphID)))
 			_ = r.ReadInt16() // numberOfContours
 			xMin = r.ReadInt16()
 			yMin = r.ReadInt16()
-- 
2.43.0


From 8e547ba830673899a493eafffe44e3fb066d00a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 023/120] fix: WOFF tables with a length larger than the file
 panic

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 865f3a8..308ff25 100644
--- a/woff.go
+++ b/woff.go
@@ -96,7 +96,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 		compLength := r.ReadUint32()
 		origLength := r.ReadUint32()
 		origChecksum := r.ReadUint32()
-		if length-compLength < offset {
+		if length < compLength || length-compLength < offset {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
-- 
2.43.0


From 9aee64a1932572df506b2a208f5e9244b5579b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 024/120] fix: WOFF and WOFF2 data that decompresses to more
 than declared is fully decompressed before being rejected, using unlimited
 memory

---
 woff.go  | 2 +-
 woff2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index 308ff25..1a13c3e 100644
--- a/woff.go
+++ b/woff.go
@@ -171,7 +171,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			if err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
-			if _, err = io.Copy(&buf, r); err != nil {
+			if _, err = io.Copy(&buf, io.LimitReader(r, int64(table.origLength)+1)); err != nil {
 				return nil, fmt.Errorf("%s: %v", table.tag, err)
 			}
 			if err = r.Close(); err != nil {
diff --git a/woff2.go b/woff2.go
index cf51258..9a6ba92 100644
--- a/woff2.go
+++ b/woff2.go
@@ -171,7 +171,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	}
 	rBrotli := brotli.NewReader(bytes.NewReader(compData)) // err is always nil
 	dataBuf := bytes.NewBuffer(make([]byte, 0, uncompressedSize))
-	if _, err := io.Copy(dataBuf, rBrotli); err != nil {
+	if _, err := io.Copy(dataBuf, io.LimitReader(rBrotli, int64(uncompressedSize)+1)); err != nil {
 		return nil, err
 	}
 	data := dataBuf.Bytes()
-- 
2.43.0


From 62779c4ead60d1cc2e6cbebce04ffd787b6a18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 025/120] fix: WOFF files that list a table twice are accepted

---
 woff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 1a13c3e..81cf687 100644
--- a/woff.go
+++ b/woff.go
@@ -100,7 +100,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			return nil, fmt.Errorf("table extends beyond file size")
 		} else if origLength < compLength {
 			return nil, fmt.Errorf("compressed table size is larger than decompressed size")
-		} else if 0 < i && tag < tables[i-1].tag {
+		} else if 0 < i && tag <= tables[i-1].tag {
 			return nil, fmt.Errorf("tables are not sorted alphabetically")
 		}
 		padding := (4 - origLength&3) & 3
-- 
2.43.0


From eac2bcac95a793e5b1e908fbad77a83825e0bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 026/120] fix: WOFF files with an empty table at the position
 of another table are rejected as overlapping

---
 woff.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/woff.go b/woff.go
index 81cf687..2625787 100644
--- a/woff.go
+++ b/woff.go
@@ -117,7 +117,9 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			origLength:   origLength,
 			origChecksum: origChecksum,
 		})
-		tablePos.Add(offset, compLength)
+		if compLength != 0 { // empty tables never overlap
+			tablePos.Add(offset, compLength)
+		}
 	}
 
 	if totalSfntSize != sfntOffset {
-- 
2.43.0


From 25369d84f0a6498f4616e601f99b5db48397fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 027/120] fix: decoding a WOFF file with an uncompressed head
 table can modify the bytes of the caller

---
 woff.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff.go b/woff.go
index 2625787..ef6faae 100644
--- a/woff.go
+++ b/woff.go
@@ -200,6 +200,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 
 			// to check checksum for head table, replace the overal checksum with zero and reset it at the end
+			data = append([]byte{}, data...) // keep the input as is
 			binary.BigEndian.PutUint32(data[8:], 0x00000000)
 		}
 		if calcChecksum(data) != table.origChecksum {
-- 
2.43.0


From f8fede4c9cf2fcda8efda22e277a39d98c9b214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 028/120] fix: WOFF and WOFF2 files with 32768 or more tables
 never finish decoding

---
 woff.go  | 2 +-
 woff2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/woff.go b/woff.go
index ef6faae..8883676 100644
--- a/woff.go
+++ b/woff.go
@@ -133,7 +133,7 @@ func ParseWOFF(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if searchRange > numTables/2 {
 			break
 		}
 		searchRange *= 2
diff --git a/woff2.go b/woff2.go
index 9a6ba92..3267bd6 100644
--- a/woff2.go
+++ b/woff2.go
@@ -268,7 +268,7 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 	var entrySelector uint16
 	var rangeShift uint16
 	for {
-		if searchRange*2 > numTables {
+		if searchRange > numTables/2 {
 			break
 		}
 		searchRange *= 2
-- 
2.43.0


From 7bc8244a7aa30becf01b4229016bba086239ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 029/120] fix: WOFF2 files lose the bounding box bit of the
 last glyph when the number of glyphs is a multiple of 32, both reading and
 writing

---
 woff2.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/woff2.go b/woff2.go
index 3267bd6..207874a 100644
--- a/woff2.go
+++ b/woff2.go
@@ -360,12 +360,12 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
 	glyphStream := newBinaryReader(r.ReadBytes(int64(glyphStreamSize)))
 	compositeStream := newBinaryReader(r.ReadBytes(int64(compositeStreamSize)))
-	bboxBitmap := parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+	bboxBitmap := newWOFF2BitmapReader(r.ReadBytes(int64(bitmapSize)))
 	bboxStream := newBinaryReader(r.ReadBytes(int64(bboxStreamSize - bitmapSize)))
 	instructionStream := newBinaryReader(r.ReadBytes(int64(instructionStreamSize)))
 	var overlapSimpleBitmap *parse.BitmapReader
 	if optionFlags&0x0001 != 0 { // overlapSimpleBitmap present
-		overlapSimpleBitmap = parse.NewBitmapReader(r.ReadBytes(int64(bitmapSize)))
+		overlapSimpleBitmap = newWOFF2BitmapReader(r.ReadBytes(int64(bitmapSize)))
 	}
 	if r.Err() == io.EOF {
 		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
@@ -617,6 +617,11 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	return w.Bytes(), loca.Bytes(), nil
 }
 
+// newWOFF2BitmapReader returns a bitmap reader that also reads the last bit of the data, which parse.BitmapReader does not.
+func newWOFF2BitmapReader(b []byte) *parse.BitmapReader {
+	return parse.NewBitmapReader(append(b[:len(b):len(b)], 0x00))
+}
+
 func reconstructHmtx(b, head, glyf, loca, maxp, hhea []byte) ([]byte, error) {
 	// get indexFormat
 	rHead := newBinaryReader(head)
@@ -1075,12 +1080,15 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 		overlapSimpleStream.Write(hasOverlap)
 	}
 
+	// the bitmap writer adds another byte after writing the last bit
+	bboxBitmap, overlapSimpleBitmap := bboxBitmapStream.Bytes()[:bitmapSize], overlapSimpleStream.Bytes()[:bitmapSize]
+
 	n := int64(36)
 	n += nContourStream.Len() + nPointsStream.Len()
 	n += flagStream.Len() + glyphStream.Len() + compositeStream.Len()
-	n += bboxBitmapStream.Len() + bboxStream.Len() + instructionStream.Len()
+	n += int64(bitmapSize) + bboxStream.Len() + instructionStream.Len()
 	if optionFlags&0x01 != 0 {
-		n += overlapSimpleStream.Len()
+		n += int64(bitmapSize)
 	}
 	w := parse.NewBinaryWriter(make([]byte, 0, n))
 	w.WriteUint16(0) // reserved
@@ -1092,18 +1100,18 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 	w.WriteUint32(uint32(flagStream.Len()))
 	w.WriteUint32(uint32(glyphStream.Len()))
 	w.WriteUint32(uint32(compositeStream.Len()))
-	w.WriteUint32(uint32(bboxBitmapStream.Len() + bboxStream.Len()))
+	w.WriteUint32(bitmapSize + uint32(bboxStream.Len()))
 	w.WriteUint32(uint32(instructionStream.Len()))
 	w.WriteBytes(nContourStream.Bytes())
 	w.WriteBytes(nPointsStream.Bytes())
 	w.WriteBytes(flagStream.Bytes())
 	w.WriteBytes(glyphStream.Bytes())
 	w.WriteBytes(compositeStream.Bytes())
-	w.WriteBytes(bboxBitmapStream.Bytes())
+	w.WriteBytes(bboxBitmap)
 	w.WriteBytes(bboxStream.Bytes())
 	w.WriteBytes(instructionStream.Bytes())
 	if optionFlags&0x01 != 0 {
-		w.WriteBytes(overlapSimpleStream.Bytes())
+		w.WriteBytes(overlapSimpleBitmap)
 	}
 	return w.Bytes(), xMins
 }
-- 
2.43.0


From 46ef3e69da5af18318ad00b4510c94e24f330892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 030/120] fix: the overlap bitmap of WOFF2 files is read per
 point instead of per glyph

---
 woff2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index 207874a..d9a9e8e 100644
--- a/woff2.go
+++ b/woff2.go
@@ -388,6 +388,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			loca.WriteUint32(uint32(w.Len()))
 		}
 
+		overlapSimple := overlapSimpleBitmap != nil && overlapSimpleBitmap.Read()
 		explicitBbox := bboxBitmap.Read()       // EOF cannot occur
 		nContours := nContourStream.ReadInt16() // EOF cannot occur
 		if nContours == 0 {                     // empty glyph
@@ -472,7 +473,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
 				}
-				if overlapSimpleBitmap != nil && overlapSimpleBitmap.Read() {
+				if overlapSimple && iPoint == 0 {
 					outlineFlag |= 0x40 // OVERLAP_SIMPLE
 				}
 				outlineFlags = append(outlineFlags, outlineFlag)
-- 
2.43.0


From 6187a34467927e7e6cd39629167d235c3481cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:50 +0000
Subject: [PATCH 031/120] fix: WOFF2 files with a bounding box stream smaller
 than its bitmap panic

---
 woff2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/woff2.go b/woff2.go
index d9a9e8e..c9d6dbd 100644
--- a/woff2.go
+++ b/woff2.go
@@ -355,6 +355,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	}
 
 	bitmapSize := ((uint32(numGlyphs) + 31) >> 5) << 2
+	if bboxStreamSize < bitmapSize {
+		return nil, nil, fmt.Errorf("glyf: %w", ErrInvalidFontData)
+	}
 	nContourStream := newBinaryReader(r.ReadBytes(int64(nContourStreamSize)))
 	nPointsStream := newBinaryReader(r.ReadBytes(int64(nPointsStreamSize)))
 	flagStream := newBinaryReader(r.ReadBytes(int64(flagStreamSize)))
-- 
2.43.0


From c94db708de4d4d4834166cada4e2bd3a3a22bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 032/120] fix: WOFF2 files with untransformed glyphs are
 rejected depending on the data of the first glyph

---
 woff2.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/woff2.go b/woff2.go
index c9d6dbd..4e71d9a 100644
--- a/woff2.go
+++ b/woff2.go
@@ -208,17 +208,6 @@ func ParseWOFF2(b []byte) ([]byte, error) {
 			if tables[iLoca].origLength != uint32(len(tables[iLoca].data)) {
 				return nil, fmt.Errorf("loca: invalid value for origLength")
 			}
-		} else {
-			rGlyf := newBinaryReader(tables[iGlyf].data)
-			_ = rGlyf.ReadUint32() // version
-			numGlyphs := uint32(rGlyf.ReadUint16())
-			indexFormat := rGlyf.ReadUint16()
-			if rGlyf.Err() == io.EOF {
-				return nil, ErrInvalidFontData
-			}
-			if indexFormat == 0 && tables[iLoca].origLength != (numGlyphs+1)*2 || indexFormat == 1 && tables[iLoca].origLength != (numGlyphs+1)*4 {
-				return nil, fmt.Errorf("loca: invalid value for origLength")
-			}
 		}
 	}
 
-- 
2.43.0


From 7a92d737ac4e85edb86a05af77bcbfe523211e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 033/120] fix: writing WOFF2 assigns overlap bits to the wrong
 glyphs for fonts with empty glyphs

---
 woff2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff2.go b/woff2.go
index 4e71d9a..20befe8 100644
--- a/woff2.go
+++ b/woff2.go
@@ -919,6 +919,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				// empty glyph
 				nContourStream.WriteInt16(0)
 				bboxBitmapStream.Write(false)
+				overlapSimpleStream.Write(false)
 				continue
 			}
 			xMins[glyphID] = contour.XMin
-- 
2.43.0


From a209c7684f5649a5736ab78d4a363a5e5084edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 034/120] fix: writing WOFF2 changes explicit bounding boxes of
 simple glyphs that differ horizontally from those of their points

---
 woff2.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/woff2.go b/woff2.go
index 20befe8..cdff6a2 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1022,11 +1022,10 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 				if yMin == contour.YMin && yMax == contour.YMax {
 					bboxEqual = true
-				} else {
-					xMin, xMax = contour.XMin, contour.XMax
-					yMin, yMax = contour.YMin, contour.YMax
 				}
 			}
+			xMin, xMax = contour.XMin, contour.XMax
+			yMin, yMax = contour.YMin, contour.YMax
 
 			// instruction stream
 			write255Uint16(glyphStream, uint16(len(contour.Instructions)))
-- 
2.43.0


From 42951cc5f34cef1fe12a10d8ddac3ddf126415f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 035/120] fix: writing WOFF2 puts the instructions of composite
 glyphs in the wrong stream

---
 woff2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index cdff6a2..4b84ad5 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1058,7 +1058,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			if hasInstructions {
 				instructionLength := r.ReadUint16()
 				write255Uint16(glyphStream, instructionLength)
-				glyphStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
+				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
 		}
 
-- 
2.43.0


From c1d9e3795cbda1942b126f55330c3c4f7a94f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 036/120] fix: writing WOFF2 loses the side bearings of
 composite glyphs when they are zero

---
 woff2.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/woff2.go b/woff2.go
index 4b84ad5..dd1c4df 100644
--- a/woff2.go
+++ b/woff2.go
@@ -1038,6 +1038,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 			yMin = r.ReadInt16()
 			xMax = r.ReadInt16()
 			yMax = r.ReadInt16()
+			xMins[glyphID] = xMin
 
 			nContourStream.WriteInt16(-1)
 
-- 
2.43.0


From fd7150037e16c4cb73ca46f67e90cba5fa313f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:27 +0000
Subject: [PATCH 037/120] fix: writing WOFF2 corrupts glyphs with coordinate
 deltas of -32768

---
 woff2.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/woff2.go b/woff2.go
index dd1c4df..0e9b0c7 100644
--- a/woff2.go
+++ b/woff2.go
@@ -953,7 +953,11 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				}
 
 				var flag byte
-				if dx == 0 && dy < 1280 {
+				if dx == math.MinInt16 || dy == math.MinInt16 { // negation overflows
+					flag = 124 + (dySign << 1) + dxSign
+					glyphStream.WriteInt16(dx)
+					glyphStream.WriteInt16(dy)
+				} else if dx == 0 && dy < 1280 {
 					// also dx==0 and dy==0
 					delta := dy >> 8
 					flag = byte(delta<<1) + dySign
-- 
2.43.0


From 27e949fe8a66bdd54961285948bd43a1b05053d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:59 +0000
Subject: [PATCH 038/120] fix: decoding WOFF2 fonts with short glyph locations
 overflows these as glyphs become larger

---
 woff2.go | 55 +++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/woff2.go b/woff2.go
index 0e9b0c7..a34a312 100644
--- a/woff2.go
+++ b/woff2.go
@@ -458,9 +458,7 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 				xCoordinates = append(xCoordinates, dx)
 				yCoordinates = append(yCoordinates, dy)
 
-				// keep bit 1-5 zero, that means x and y are two bytes long, this flag is not
-				// repeated, and all coordinates are in the coordinate array even if they are the
-				// same as the previous.
+				// bits 1-5 are set when writing the glyph
 				var outlineFlag byte
 				if onCurve {
 					outlineFlag |= 0x01 // ON_CURVE_POINT
@@ -517,15 +515,37 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 			w.WriteUint16(instructionLength)
 			w.WriteBytes(instructions)
 
-			// we could write this more compactly, but is that really necessary?
-			for _, outlineFlag := range outlineFlags {
-				w.WriteByte(outlineFlag) // flag
+			// write compactly so that the glyphs keep fitting in the short loca format
+			for i := range outlineFlags {
+				outlineFlags[i] |= glyfCoordinateFlags(xCoordinates[i], 0x02, 0x10) // X_SHORT_VECTOR, X_IS_SAME_OR_POSITIVE_X_SHORT_VECTOR
+				outlineFlags[i] |= glyfCoordinateFlags(yCoordinates[i], 0x04, 0x20) // Y_SHORT_VECTOR, Y_IS_SAME_OR_POSITIVE_Y_SHORT_VECTOR
 			}
-			for _, xCoordinate := range xCoordinates {
-				w.WriteInt16(xCoordinate)
+			for i := 0; i < len(outlineFlags); {
+				repeat := 0
+				for i+repeat+1 < len(outlineFlags) && repeat < 255 && outlineFlags[i+repeat+1] == outlineFlags[i] {
+					repeat++
+				}
+				if repeat == 0 {
+					w.WriteByte(outlineFlags[i])
+				} else {
+					w.WriteByte(outlineFlags[i] | 0x08) // REPEAT_FLAG
+					w.WriteByte(byte(repeat))
+				}
+				i += 1 + repeat
+			}
+			for i, xCoordinate := range xCoordinates {
+				if outlineFlags[i]&0x02 != 0 {
+					w.WriteByte(byte(max(xCoordinate, -xCoordinate)))
+				} else if outlineFlags[i]&0x10 == 0 {
+					w.WriteInt16(xCoordinate)
+				}
 			}
-			for _, yCoordinate := range yCoordinates {
-				w.WriteInt16(yCoordinate)
+			for i, yCoordinate := range yCoordinates {
+				if outlineFlags[i]&0x04 != 0 {
+					w.WriteByte(byte(max(yCoordinate, -yCoordinate)))
+				} else if outlineFlags[i]&0x20 == 0 {
+					w.WriteInt16(yCoordinate)
+				}
 			}
 		} else { // composite glyph
 			if !explicitBbox {
@@ -603,6 +623,9 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 
 	// last entry in loca table
 	if indexFormat == 0 {
+		if math.MaxUint16 < w.Len()>>1 {
+			return nil, nil, fmt.Errorf("loca: glyphs exceed the short format")
+		}
 		loca.WriteUint16(uint16(w.Len() >> 1))
 	} else {
 		loca.WriteUint32(uint32(w.Len()))
@@ -610,6 +633,18 @@ func reconstructGlyfLoca(b []byte, origLocaLength uint32) ([]byte, []byte, error
 	return w.Bytes(), loca.Bytes(), nil
 }
 
+// glyfCoordinateFlags returns the flags for the shortest encoding of a coordinate delta.
+func glyfCoordinateFlags(d int16, short, same byte) byte {
+	if d == 0 {
+		return same
+	} else if 0 < d && d < 256 {
+		return short | same
+	} else if -256 < d && d < 0 {
+		return short
+	}
+	return 0
+}
+
 // newWOFF2BitmapReader returns a bitmap reader that also reads the last bit of the data, which parse.BitmapReader does not.
 func newWOFF2BitmapReader(b []byte) *parse.BitmapReader {
 	return parse.NewBitmapReader(append(b[:len(b):len(b)], 0x00))
-- 
2.43.0


From 131553354baa16fd64a5e481bd758f30eaaad1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 039/120] fix: subsetting writes to the lists of glyphs and
 tables of the caller

---
 sfnt_subset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 58f76e4..80ed8ac 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -28,6 +28,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	// don't write to the slice of the caller when adding dependencies
+	glyphIDs = glyphIDs[:len(glyphIDs):len(glyphIDs)]
+
 	// set up glyph mapping from original to subset
 	glyphMap := make(map[uint16]uint16, len(glyphIDs))
 	for subsetGlyphID, glyphID := range glyphIDs {
@@ -94,7 +97,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			tags = append(tags, tag)
 		}
 	} else {
-		tags = options.Tables
+		tags = append(tags, options.Tables...)
 	}
 	sort.Strings(tags) // so that glyf is before loca
 
-- 
2.43.0


From 5cc2b5982023d929a34288fb5aaf2fb30e3cbce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 040/120] fix: subsets with vertical metrics keep those of the
 source glyphs in the source's order and are rejected when parsed

---
 sfnt_subset.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 80ed8ac..6c5282a 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -123,6 +123,21 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 	//}
 
+	// for vhea and vmtx
+	verticalAdvances := make([]uint16, len(glyphIDs))
+	numberOfVMetrics := uint16(len(glyphIDs))
+	if sfnt.Vmtx != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			verticalAdvances[subsetGlyphID] = sfnt.Vmtx.Advance(glyphID)
+		}
+		for 1 < numberOfVMetrics {
+			if verticalAdvances[numberOfVMetrics-1] != verticalAdvances[numberOfVMetrics-2] {
+				break
+			}
+			numberOfVMetrics--
+		}
+	}
+
 	// copy to new SFNT
 	sfntOld := sfnt
 	sfnt = &SFNT{
@@ -476,6 +491,43 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MinMemType1:        sfntOld.Post.MinMemType1,
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
+		case "vhea":
+			if sfntOld.Vhea == nil || sfntOld.Vmtx == nil {
+				sfnt.Tables[tag] = table
+				break
+			}
+			w := parse.NewBinaryWriter(make([]byte, 0, len(table)))
+			w.WriteBytes(table[:34])
+			w.WriteUint16(numberOfVMetrics) // numberOfVMetrics
+			w.WriteBytes(table[36:])
+			sfnt.Tables[tag] = w.Bytes()
+
+			vhea := *sfntOld.Vhea
+			sfnt.Vhea = &vhea
+			sfnt.Vhea.NumberOfVMetrics = numberOfVMetrics
+		case "vmtx":
+			if sfntOld.Vmtx == nil {
+				sfnt.Tables[tag] = table
+				break
+			}
+			sfnt.Vmtx = &vmtxTable{}
+			sfnt.Vmtx.VMetrics = make([]vmtxLongVerMetric, numberOfVMetrics)
+			sfnt.Vmtx.TopSideBearings = make([]int16, len(glyphIDs)-int(numberOfVMetrics))
+
+			n := 4*int(numberOfVMetrics) + 2*(len(glyphIDs)-int(numberOfVMetrics))
+			w := parse.NewBinaryWriter(make([]byte, 0, n))
+			for subsetGlyphID, glyphID := range glyphIDs {
+				tsb := sfntOld.Vmtx.TopSideBearing(glyphID)
+				if subsetGlyphID < int(numberOfVMetrics) {
+					sfnt.Vmtx.VMetrics[subsetGlyphID].AdvanceHeight = verticalAdvances[subsetGlyphID]
+					sfnt.Vmtx.VMetrics[subsetGlyphID].TopSideBearing = tsb
+					w.WriteUint16(verticalAdvances[subsetGlyphID])
+				} else {
+					sfnt.Vmtx.TopSideBearings[subsetGlyphID-int(numberOfVMetrics)] = tsb
+				}
+				w.WriteInt16(tsb)
+			}
+			sfnt.Tables[tag] = w.Bytes()
 		default:
 			sfnt.Tables[tag] = table
 		}
-- 
2.43.0


From 89986aaa3e4cfabfd70f8558377d1269dd7eb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 041/120] fix: cmap format 4 maps runes to wrong glyphs when a
 range starts with contiguous glyphs or has runes listed twice

---
 sfnt_cmap.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 7d44c58..651a5f1 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -214,20 +214,19 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 			// of non-contiguous glyph IDs followed by contiguous, one may be empty.
 			j0, jc := 0, 0
 			for j := 1; j <= len(glyphIDs); j++ {
-				if j == len(glyphIDs) || glyphIDs[j-1]+1 != glyphIDs[j] && 8 < j-jc {
-					if 8 < j-jc && j0 != jc {
-						addSegment(rs[i0+j0], rs[i0+(jc-1)], glyphIDs[j0:jc], false)
-						addSegment(rs[i0+jc], rs[i0+(j-1)], glyphIDs[jc:j], true)
-						j0, jc = j, j
-					} else if j == len(glyphIDs) {
-						addSegment(rs[i0+j0], rs[i0+(j-1)], glyphIDs[j0:j], j0 == jc)
-					}
-					if j == len(glyphIDs) {
-						break
+				if j < len(glyphIDs) && glyphIDs[j-1]+1 == glyphIDs[j] {
+					continue
+				}
+				if 8 < j-jc {
+					if j0 != jc {
+						addSegment(rs[i0]+rune(j0), rs[i0]+rune(jc-1), glyphIDs[j0:jc], false)
 					}
-				} else if glyphIDs[j-1]+1 != glyphIDs[j] {
-					jc = j
+					addSegment(rs[i0]+rune(jc), rs[i0]+rune(j-1), glyphIDs[jc:j], true)
+					j0 = j
+				} else if j == len(glyphIDs) {
+					addSegment(rs[i0]+rune(j0), rs[i0]+rune(j-1), glyphIDs[j0:j], j0 == jc)
 				}
+				jc = j
 			}
 			if i == len(rs) {
 				break
-- 
2.43.0


From cdb0ac099ca7a21907b1158c8614ea1029104f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 042/120] fix: cmap format 4 segments where glyph IDs equal
 their runes are written with a bad range offset

---
 sfnt_cmap.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index 651a5f1..bf12a1c 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -177,9 +177,11 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
 	// rs is sorted
 	data := cmapFormat4{}
+	var useIdDelta []bool
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
 		data.EndCode = append(data.EndCode, uint16(lastCode))
 		data.StartCode = append(data.StartCode, uint16(firstCode))
+		useIdDelta = append(useIdDelta, contiguous)
 		if contiguous {
 			// use idDelta
 			firstGlyph := glyphIDs[0]
@@ -264,7 +266,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteInt16(idDelta)
 	}
 	for i, idRangeOffset := range data.IdRangeOffset {
-		if data.IdDelta[i] != 0 {
+		if useIdDelta[i] {
 			w.WriteUint16(0)
 		} else {
 			glyphIdArrayStart := uint16(len(data.IdRangeOffset) - i)
-- 
2.43.0


From 2811b4c946d89ad956de81e24c43e403f62757de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 043/120] fix: cmap format 4 is written for maps that exceed
 its length field or contain U+FFFF, and rearranging the cmap adds a mapping
 to the missing glyph

---
 sfnt_cmap.go  | 16 +++++++++-------
 sfnt_merge.go |  2 --
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index bf12a1c..af3dba5 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -175,7 +175,7 @@ func (subtable *cmapFormat14) ToUnicode(glyphID uint16) []rune {
 }
 
 func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16) {
-	// rs is sorted
+	// rs is sorted and doesn't contain 0xFFFF
 	data := cmapFormat4{}
 	var useIdDelta []bool
 	addSegment := func(firstCode, lastCode rune, glyphIDs []uint16, contiguous bool) {
@@ -238,9 +238,7 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		}
 		glyphIDs = append(glyphIDs, runeMap[rs[i]])
 	}
-	if rs[len(rs)-1] != 0xFFFF {
-		addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
-	}
+	addSegment(0xFFFF, 0xFFFF, []uint16{0}, true) // map to .notdef
 
 	start := w.Len()
 	w.WriteUint16(4) // format
@@ -277,7 +275,6 @@ func cmapWriteFormat4(w *parse.BinaryWriter, rs []rune, runeMap map[rune]uint16)
 		w.WriteUint16(glyphID)
 	}
 
-	// TODO: subtable may exceed the range of the length field (16 bits, or 65536 bytes long)
 	binary.BigEndian.PutUint16(w.Bytes()[start+2:], uint16(w.Len()-start)) // set length
 }
 
@@ -336,15 +333,20 @@ func cmapWrite(rs []rune, runeMap map[rune]uint16) []byte {
 			maxRune = r
 		}
 	}
-	if maxRune <= 0xffff {
+	wFormat4 := parse.NewBinaryWriter([]byte{})
+	if maxRune < 0xffff {
+		cmapWriteFormat4(wFormat4, rs, runeMap)
+	}
+	if maxRune < 0xffff && wFormat4.Len() <= math.MaxUint16 {
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(3)  // encodingID
 		w.WriteUint32(20) // subtableOffset
 		w.WriteUint16(3)  // platformID
 		w.WriteUint16(1)  // encodingID
 		w.WriteUint32(20) // subtableOffset
-		cmapWriteFormat4(w, rs, runeMap)
+		w.WriteBytes(wFormat4.Bytes())
 	} else {
+		// format 4 can't map 0xFFFF and can't be longer than its 16-bit length field
 		w.WriteUint16(0)  // platformID
 		w.WriteUint16(4)  // encodingID
 		w.WriteUint32(20) // subtableOffset
diff --git a/sfnt_merge.go b/sfnt_merge.go
index c92614b..96d3207 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -312,8 +312,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
 		if options.RearrangeCmap {
-			rs = append(rs, 65535) // .notdef
-			runeMap[65535] = 0
 			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ {
 				r := rune(glyphID + 32) // unicode codepoints below 33 don't display in firefox
 				rs = append(rs, r)
-- 
2.43.0


From a2af3e19d5857cef9210f9c3e01a1dfafdf18a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:36 +0000
Subject: [PATCH 044/120] fix: subsets lose kerning pairs of value zero that
 override the value of earlier subtables

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 6c5282a..72277f8 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -407,7 +407,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 						if rOrig == 0 {
 							continue
 						}
-						if value := subtable.Get(lOrig, rOrig); value != 0 {
+						if value, ok := subtable.find(lOrig, rOrig); ok { // keep zeros, these may override
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
 								Value: value,
-- 
2.43.0


From 082e6a85e0b8c0938f7deabc19647e875e8716c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 045/120] fix: kern subtables that are empty or have more than
 10920 pairs are written with bad lengths or search fields

---
 sfnt_truetype.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 2a0a268..4ba3e88 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -679,18 +679,34 @@ func (sfnt *SFNT) parseKern() error {
 }
 
 func (kern *kernTable) Write() []byte {
-	w := parse.NewBinaryWriter([]byte{})
-	w.WriteUint16(0)                           // version
-	w.WriteUint16(uint16(len(kern.Subtables))) // nTables
+	const maxPairs = (math.MaxUint16 - 14) / 6 // so that the length fits
+	subtables := make([]kernFormat0, 0, len(kern.Subtables))
 	for _, subtable := range kern.Subtables {
+		for maxPairs < len(subtable.Pairs) {
+			subtables = append(subtables, kernFormat0{
+				Coverage: subtable.Coverage,
+				Pairs:    subtable.Pairs[:maxPairs],
+			})
+			subtable.Pairs = subtable.Pairs[maxPairs:]
+		}
+		subtables = append(subtables, subtable)
+	}
+
+	w := parse.NewBinaryWriter([]byte{})
+	w.WriteUint16(0)                      // version
+	w.WriteUint16(uint16(len(subtables))) // nTables
+	for _, subtable := range subtables {
 		w.WriteUint16(0)                                     // version
 		w.WriteUint16(6 + 8 + 6*uint16(len(subtable.Pairs))) // length
 		w.WriteUint8(0)                                      // format
 		w.WriteUint8(flagsToUint8(subtable.Coverage))        // coverage
 
 		nPairs := uint16(len(subtable.Pairs))
-		entrySelector := uint16(math.Log2(float64(nPairs)))
-		searchRange := uint16(1 << entrySelector * 6)
+		entrySelector, searchRange := uint16(0), uint16(0)
+		if 0 < nPairs {
+			entrySelector = uint16(math.Log2(float64(nPairs)))
+			searchRange = uint16(1 << entrySelector * 6)
+		}
 		w.WriteUint16(nPairs)
 		w.WriteUint16(searchRange)
 		w.WriteUint16(entrySelector)
-- 
2.43.0


From 9c66dfe693ecb2c5858531b49e1583dae793dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:48 +0000
Subject: [PATCH 046/120] fix: subsetting many glyphs of a font with a kern
 table takes very long as every pair of glyphs is looked up

---
 sfnt_subset.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 72277f8..56c7aab 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -397,24 +397,28 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			kern := kernTable{
 				Subtables: []kernFormat0{},
 			}
+			subsetGlyphIDs := map[uint16][]uint16{}
+			for subsetGlyphID, glyphID := range glyphIDs {
+				subsetGlyphIDs[glyphID] = append(subsetGlyphIDs[glyphID], uint16(subsetGlyphID))
+			}
 			for _, subtable := range sfntOld.Kern.Subtables {
 				pairs := []kernPair{}
-				for l, lOrig := range glyphIDs {
-					if lOrig == 0 {
+				for i, pair := range subtable.Pairs {
+					lOrig, rOrig := uint16(pair.Key>>16), uint16(pair.Key)
+					if lOrig == 0 || rOrig == 0 || 0 < i && pair.Key == subtable.Pairs[i-1].Key {
 						continue
 					}
-					for r, rOrig := range glyphIDs {
-						if rOrig == 0 {
-							continue
-						}
-						if value, ok := subtable.find(lOrig, rOrig); ok { // keep zeros, these may override
+					for _, l := range subsetGlyphIDs[lOrig] {
+						for _, r := range subsetGlyphIDs[rOrig] {
+							// keep zeros, these may override
 							pairs = append(pairs, kernPair{
 								Key:   uint32(l)<<16 + uint32(r),
-								Value: value,
+								Value: subtable.Get(lOrig, rOrig),
 							})
 						}
 					}
 				}
+				sort.Slice(pairs, func(i, j int) bool { return pairs[i].Key < pairs[j].Key })
 				if 0 < len(pairs) {
 					kern.Subtables = append(kern.Subtables, kernFormat0{
 						Coverage: subtable.Coverage,
-- 
2.43.0


From 1fae8fb5704c3417310f3e81b35071298be4efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:51 +0000
Subject: [PATCH 047/120] fix: runes mapped to the missing glyph, such as
 U+FFFF, are mapped to another glyph or force another cmap format in subset
 and merged fonts

---
 sfnt_merge.go  | 2 +-
 sfnt_subset.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 96d3207..ec965fd 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -318,7 +318,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				runeMap[r] = uint16(glyphID)
 			}
 		} else {
-			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			for glyphID := 1; glyphID < int(numGlyphs); glyphID++ { // runes mapped to .notdef have no glyph
 				var rsGlyph []rune
 				if glyphID < int(origNumGlyphs) {
 					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 56c7aab..c0f01ce 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -171,6 +171,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			rs := make([]rune, 0, len(glyphIDs))
 			runeMap := make(map[rune]uint16, len(glyphIDs)) // for OS/2
 			for subsetGlyphID, glyphID := range glyphIDs {
+				if glyphID == 0 {
+					continue // runes mapped to .notdef have no glyph
+				}
 				rsGlyph := sfntOld.Cmap.ToUnicode(glyphID)
 				rs = append(rs, rsGlyph...)
 				for _, r := range rsGlyph {
-- 
2.43.0


From e96df0d661155c319784f05f3dca89416b3b88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:13 +0000
Subject: [PATCH 048/120] fix: CFF INDEX structures of 64 kB or larger are
 written with corrupt offsets

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 750a93d..42aa8a0 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1265,7 +1265,7 @@ func cffINDEXOffSize(n int) int {
 		return 1
 	} else if n <= math.MaxUint16 {
 		return 2
-	} else if n <= (2<<24 - 1) {
+	} else if n <= (1<<24 - 1) {
 		return 3
 	}
 	return 4
@@ -1296,7 +1296,7 @@ func (t *cffINDEX) Write() ([]byte, error) {
 	} else if offSize == 3 {
 		for _, offset := range t.offset {
 			w.WriteUint8(uint8((offset + 1) >> 16))
-			w.WriteUint16(uint16((offset + 1) & 0x00FF))
+			w.WriteUint16(uint16((offset + 1) & 0xFFFF))
 		}
 	} else if offSize == 4 {
 		for _, offset := range t.offset {
-- 
2.43.0


From cc3ac0a29bc40b98fdd2373ae4a0f0926f5e3107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 049/120] fix: strings that are used several times in CFF fonts
 are written as unrelated standard strings

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 42aa8a0..df7932b 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1187,7 +1187,7 @@ func (t *cffINDEX) AddSID(data []byte) int {
 	}
 	for i := 0; i+1 < len(t.offset); i++ {
 		if bytes.Equal(data, t.data[t.offset[i]:t.offset[i+1]]) {
-			return i
+			return i + len(cffStandardStrings)
 		}
 	}
 	// warning: this may become 65000 or larger which is not strictly allowed
-- 
2.43.0


From 09b08e8c9bbed4b22f520ba3336541d94fbc04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:26 +0000
Subject: [PATCH 050/120] fix: CFF INDEX structures whose entries are all empty
 are written without entries

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index df7932b..17166fa 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1274,9 +1274,9 @@ func cffINDEXOffSize(n int) int {
 func (t *cffINDEX) Write() ([]byte, error) {
 	if math.MaxUint16 < len(t.offset)-1 {
 		return nil, fmt.Errorf("too many indices")
-	} else if len(t.data) == 0 {
+	} else if len(t.offset) < 2 {
 		return []byte{0, 0}, nil // zero count
-	} else if len(t.offset) == 0 || t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
+	} else if t.offset[0] != 0 || int(t.offset[len(t.offset)-1]) != len(t.data) {
 		return nil, fmt.Errorf("bad offsets")
 	}
 
-- 
2.43.0


From 8dba95b5e3731ade3ea5bf96f1fee8b6b478e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:33 +0000
Subject: [PATCH 051/120] fix: CFF underline thickness, vertical stem snaps,
 and expansion factors that are fractional are not written

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 17166fa..e14d7c3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1888,7 +1888,7 @@ func writeDICTEntry(w *parse.BinaryWriter, op int, vals ...any) error {
 	}
 
 	allowFloat := false
-	if 5 <= op && op <= 11 || op == 20 || op == 21 || 255+2 <= op && op <= 255+4 || 255+7 <= op && op <= 255+13 || op == 255+18 || op == 255+23 {
+	if 5 <= op && op <= 11 || op == 20 || op == 21 || 256+2 <= op && op <= 256+4 || 256+7 <= op && op <= 256+13 || op == 256+18 || op == 256+23 {
 		// strictly most operators allow a number and thus an integer or real operand but in
 		// practice these are offsets (and thus integers) and some parsers expect them to be
 		// integers (even though a float may be shorter for e.g. 32790 (3 bytes) instead of
-- 
2.43.0


From d4ef64817415279a54705d2ff8c1c26d6eddef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:17 +0000
Subject: [PATCH 052/120] fix: CFF fonts with the ForceBold operator are
 written without it

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e14d7c3..402f239 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1672,7 +1672,7 @@ func (t *cffPrivateDICT) Write() ([]byte, error) {
 		writeDICTEntry(w, 256+13, t.StemSnapV)
 	}
 	if t.ForceBold {
-		writeDICTEntry(w, 256+14, t.ForceBold)
+		writeDICTEntry(w, 256+14, 1)
 	}
 	if t.LanguageGroup != 0 {
 		writeDICTEntry(w, 256+17, t.LanguageGroup)
-- 
2.43.0


From 1bae4ababcbf33b32afeb57f894ed9b1a5479f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 053/120] fix: real numbers in CFF fonts are rounded to six
 digits when written

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 402f239..1a84a15 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1856,7 +1856,7 @@ func cffDICTNumber(val any) (int, float64, bool, bool) {
 }
 
 func cffDICTFloat(f float64) ([]byte, int) {
-	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', 6, 64)
+	floatNibbles := strconv.AppendFloat([]byte{}, f, 'G', -1, 32) // values are read in single precision
 	if 1 < len(floatNibbles) && floatNibbles[0] == '0' && floatNibbles[1] == '.' {
 		floatNibbles = floatNibbles[1:]
 	}
-- 
2.43.0


From 47fecce989fa0406932e89f09d87d1e638ac12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:28 +0000
Subject: [PATCH 054/120] fix: offsets in written CFF fonts are wrong when
 these grow the Top DICT or Private DICT itself

---
 sfnt_cff.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 1a84a15..d9136ed 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -2228,8 +2228,11 @@ func (cff *cffTable) Write() ([]byte, error) {
 			}
 
 			// write offset to Private DICT
-			localSubrsOffset = len(privateDICT) + 1                  // key
-			localSubrsOffset += cffDICTIntegerSize(localSubrsOffset) // val
+			lenPrivateDICT := len(privateDICT) + 1 // key
+			localSubrsOffset = lenPrivateDICT
+			for localSubrsOffset != lenPrivateDICT+cffDICTIntegerSize(localSubrsOffset) {
+				localSubrsOffset = lenPrivateDICT + cffDICTIntegerSize(localSubrsOffset) // val
+			}
 			wPrivate := parse.NewBinaryWriter(privateDICT)
 			writeDICTEntry(wPrivate, 19, localSubrsOffset)
 			privateDICT = wPrivate.Bytes()
@@ -2247,7 +2250,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 	if privateDICT != nil {
 		lenTopDICT += 1 + cffDICTIntegerSize(len(privateDICT)) // key and size
 	}
-	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT)
+	lenTopDICTINDEXOffSize := cffINDEXOffSize(lenTopDICT + 1)
 	lenTopDICTINDEX := 3 + 2*lenTopDICTINDEXOffSize + lenTopDICT
 
 	offset := int(w.Len()) + lenTopDICTINDEX + len(stringINDEX) // no overflow
@@ -2276,13 +2279,13 @@ func (cff *cffTable) Write() ([]byte, error) {
 		prevCorrect = correct
 		correct = 0
 		if charset != nil {
-			correct += cffDICTIntegerSize(charsetOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(charsetOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffDICTIntegerSize(charStringsOffset + correct) // integer length in DICT
+		correct += cffDICTIntegerSize(charStringsOffset + prevCorrect) // integer length in DICT
 		if privateDICT != nil {
-			correct += cffDICTIntegerSize(privateOffset + correct) // integer length in DICT
+			correct += cffDICTIntegerSize(privateOffset + prevCorrect) // integer length in DICT
 		}
-		correct += cffINDEXOffSize(lenTopDICT+correct) - lenTopDICTINDEXOffSize // offSize in INDEX
+		correct += 2 * (cffINDEXOffSize(lenTopDICT+prevCorrect+1) - lenTopDICTINDEXOffSize) // two offsets in INDEX
 	}
 	charsetOffset += correct
 	charStringsOffset += correct
-- 
2.43.0


From fba7cc07f0c7f62bd121d92775a75b4c7a7225bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 055/120] fix: subsetting CID-keyed CFF fonts without local
 subroutines panics

---
 sfnt_cff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index d9136ed..4d52d2f 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1131,7 +1131,7 @@ type cffINDEX struct {
 }
 
 func (t *cffINDEX) Len() int {
-	if len(t.offset) == 0 {
+	if t == nil || len(t.offset) == 0 {
 		return 0
 	}
 	return len(t.offset) - 1
@@ -2221,7 +2221,7 @@ func (cff *cffTable) Write() ([]byte, error) {
 			return nil, fmt.Errorf("Private DICT: %v", err)
 		}
 
-		if len(cff.fonts.localSubrs) != 0 {
+		if len(cff.fonts.localSubrs) != 0 && cff.fonts.localSubrs[0] != nil {
 			localSubrsINDEX, err = cff.fonts.localSubrs[0].Write()
 			if err != nil {
 				return nil, fmt.Errorf("Local Subrs INDEX: %v", err)
-- 
2.43.0


From 052de0ed86509c000d8af6d408048ef75f51d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 056/120] fix: glyphs of subset and merged CFF fonts call wrong
 subroutines when the number of subroutines changes the bias or an index is
 not encoded in its shortest form, and merging changes the other font

---
 sfnt_cff.go   | 45 +++++++++++++++++++++++++--------------------
 sfnt_merge.go | 51 +++++++++++++++++----------------------------------
 2 files changed, 42 insertions(+), 54 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4d52d2f..3a1e8f3 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -397,7 +397,9 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32) error) error {
+// parseCharString calls back for each operator, with the reader positioned after the operator, the operands, and the position
+// in the reader of the last operand (or -1 if it doesn't directly precede the operator).
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32, int64) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -416,6 +418,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 	hints := 0
 	stack := []int32{}
 	beforeMoveto := true
+	lastOperand := int64(-1)
 	for {
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
@@ -428,6 +431,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 
 		b0 := int32(r.ReadUint8())
 		if 32 <= b0 || b0 == cffShortint {
+			lastOperand = r.Pos() - 1
 			v := cffReadCharStringNumber(r, b0)
 			if cff.version == 1 && 48 <= len(stack) || cff.version == 2 && 513 <= len(stack) {
 				return fmt.Errorf("%v: too many operands for operator", table)
@@ -459,9 +463,10 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				return fmt.Errorf("%v: unexpected operator %d after moveto", table, b0)
 			}
 
-			if err := cb(r, b0, stack); err != nil {
+			if err := cb(r, b0, stack, lastOperand); err != nil {
 				return fmt.Errorf("%v: %v", table, err)
 			}
+			lastOperand = -1
 
 			// handle hint and subroutine operators, clear stack for most operators
 			switch b0 {
@@ -557,7 +562,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -858,8 +863,6 @@ type cffSubrIndexChange struct {
 func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32, localSubrs, globalSubrs *cffINDEX) error {
 	if 1 < len(cff.fonts.localSubrs) {
 		return fmt.Errorf("only single-font CFFs are supported")
-	} else if len(localSubrsMap) == 0 && len(globalSubrsMap) == 0 {
-		return nil
 	}
 
 	oldLocalSubrsLen := 0
@@ -875,11 +878,15 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 	localSubrsBias := int32(cffCharStringSubrsBias(localSubrs.Len()))
 	globalSubrsBias := int32(cffCharStringSubrsBias(globalSubrs.Len()))
 
+	numGlyphs := uint16(cff.charStrings.Len())
+	if len(localSubrsMap) == 0 && len(globalSubrsMap) == 0 && localSubrsBias == oldLocalSubrsBias && globalSubrsBias == oldGlobalSubrsBias {
+		numGlyphs = 0 // no changes
+	}
+
 	indexChanges := map[*cffINDEX][]cffSubrIndexChange{}
 	var indexStack []*cffINDEX
 	var offsetStack []uint32
 
-	numGlyphs := uint16(cff.charStrings.Len())
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
 		// Change subroutine indices in the BinaryReader, this will make parseCharString use the
 		// new index to pick the right subroutine. localSubrs and globalSubrs must thus already
@@ -887,7 +894,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32, lastOperand int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -899,28 +906,26 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 					return err
 				}
 
-				mapped := false
-				var oldBias int32
-				var newIndex, newBias int32
+				var oldBias, newBias int32
+				newIndex := oldIndex
 				if b0 == cffCallsubr {
+					oldBias, newBias = oldLocalSubrsBias, localSubrsBias
 					if v, ok := localSubrsMap[oldIndex]; ok {
-						oldBias = oldLocalSubrsBias
 						newIndex = v
-						newBias = localSubrsBias
-						mapped = true
 					}
 				} else {
+					oldBias, newBias = oldGlobalSubrsBias, globalSubrsBias
 					if v, ok := globalSubrsMap[oldIndex]; ok {
-						oldBias = oldGlobalSubrsBias
 						newIndex = v
-						newBias = globalSubrsBias
-						mapped = true
 					}
 				}
 
-				if skipDepth == 0 && mapped && oldIndex != newIndex {
-					lenNumber := uint32(cffNumberSize(int(oldIndex - oldBias)))
-					posNumber := uint32(r.Pos()) - 1 - lenNumber // -1 as we're past the operator
+				if skipDepth == 0 && oldIndex-oldBias != newIndex-newBias {
+					if lastOperand < 0 {
+						return fmt.Errorf("subroutine index doesn't directly precede the operator")
+					}
+					posNumber := uint32(lastOperand)
+					lenNumber := uint32(r.Pos()) - 1 - posNumber // -1 as we're past the operator
 
 					index := indexStack[len(indexStack)-1]
 					offset := offsetStack[len(offsetStack)-1]
@@ -1054,7 +1059,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32) error {
+		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
diff --git a/sfnt_merge.go b/sfnt_merge.go
index ec965fd..bc3ebdd 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -156,61 +156,46 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			}
 		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
-		// find new number of subroutines, which may change the index encoding / bias
-		localSubrsLen, globalSubrsLen := 0, 0 // new length
+		// merge subroutines, copy to keep the originals untouched
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
 		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
 		if 0 < len(sfnt.CFF.fonts.localSubrs) && 0 < sfnt.CFF.fonts.localSubrs[0].Len() {
-			localSubrs = sfnt.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt.CFF.fonts.localSubrs[0].Len()
+			localSubrs = sfnt.CFF.fonts.localSubrs[0].Copy()
 		}
 		if 0 < len(sfnt2.CFF.fonts.localSubrs) && 0 < sfnt2.CFF.fonts.localSubrs[0].Len() {
-			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0]
-			localSubrsLen += sfnt2.CFF.fonts.localSubrs[0].Len()
+			localSubrs2 = sfnt2.CFF.fonts.localSubrs[0].Copy()
 		}
 		if 0 < sfnt.CFF.globalSubrs.Len() {
-			globalSubrs = sfnt.CFF.globalSubrs
-			globalSubrsLen += sfnt.CFF.globalSubrs.Len()
+			globalSubrs = sfnt.CFF.globalSubrs.Copy()
 		}
 		if 0 < sfnt2.CFF.globalSubrs.Len() {
-			globalSubrs2 = sfnt2.CFF.globalSubrs
-			globalSubrsLen += sfnt2.CFF.globalSubrs.Len()
+			globalSubrs2 = sfnt2.CFF.globalSubrs.Copy()
 		}
-
-		// update index encoding (identity mapping) for the original glyphs
-		var localSubrsMap map[int32]int32  // old to new index
-		var globalSubrsMap map[int32]int32 // old to new index
-		if cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs.Len()) {
-			localSubrsMap = make(map[int32]int32, localSubrs.Len())
-			for i := 0; i < localSubrs.Len(); i++ {
-				localSubrsMap[int32(i)] = int32(i)
-			}
-		}
-		if cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs.Len()) {
-			globalSubrsMap = make(map[int32]int32, globalSubrs.Len())
-			for i := 0; i < globalSubrs.Len(); i++ {
-				globalSubrsMap[int32(i)] = int32(i)
-			}
+		localSubrsLen, globalSubrsLen := localSubrs.Len(), globalSubrs.Len() // original lengths
+		localSubrs.Extend(localSubrs2)
+		globalSubrs.Extend(globalSubrs2)
+		if math.MaxUint16 < localSubrs.Len() || math.MaxUint16 < globalSubrs.Len() {
+			return fmt.Errorf("too many subroutines for one font")
 		}
-		if err := sfnt.CFF.updateSubrs(localSubrsMap, globalSubrsMap, localSubrs, globalSubrs); err != nil {
+
+		// update index encoding / bias for the original glyphs, as the number of subroutines changed
+		if err := sfnt.CFF.updateSubrs(nil, nil, localSubrs, globalSubrs); err != nil {
 			return err
 		}
 
 		// update indices and index encoding for the merging glyphs
 		var localSubrsMap2 map[int32]int32  // old to new index
 		var globalSubrsMap2 map[int32]int32 // old to new index
-		if 0 < localSubrs.Len() || cffNumberSize(localSubrsLen) != cffNumberSize(localSubrs2.Len()) {
-			offset := localSubrs.Len()
+		if 0 < localSubrsLen {
 			localSubrsMap2 = make(map[int32]int32, localSubrs2.Len())
 			for i := 0; i < localSubrs2.Len(); i++ {
-				localSubrsMap2[int32(i)] = int32(offset + i)
+				localSubrsMap2[int32(i)] = int32(localSubrsLen + i)
 			}
 		}
-		if 0 < globalSubrs.Len() || cffNumberSize(globalSubrsLen) != cffNumberSize(globalSubrs2.Len()) {
-			offset := globalSubrs.Len()
+		if 0 < globalSubrsLen {
 			globalSubrsMap2 = make(map[int32]int32, globalSubrs2.Len())
 			for i := 0; i < globalSubrs2.Len(); i++ {
-				globalSubrsMap2[int32(i)] = int32(offset + i)
+				globalSubrsMap2[int32(i)] = int32(globalSubrsLen + i)
 			}
 		}
 
@@ -231,8 +216,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 
 		// update subroutine indices for merging font
-		localSubrs.Extend(localSubrs2)
-		globalSubrs.Extend(globalSubrs2)
 		if err := cff2.updateSubrs(localSubrsMap2, globalSubrsMap2, localSubrs, globalSubrs); err != nil {
 			return err
 		}
-- 
2.43.0


From 055b46cd4d913f27b07b42fb669767d56254fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 057/120] fix: glyphs that call local subroutines of merged CFF
 fonts fail until written and parsed again

---
 sfnt_cff.go   | 3 +++
 sfnt_merge.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 3a1e8f3..674a4c9 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1040,6 +1040,9 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 	fonts := *cff.fonts
 	cff.fonts = &fonts
 	cff.fonts.localSubrs = []*cffINDEX{localSubrs}
+	cff.fonts.fds = nil
+	cff.fonts.first = []uint32{0, uint32(cff.charStrings.Len())}
+	cff.fonts.fd = []uint16{0}
 	return nil
 }
 
diff --git a/sfnt_merge.go b/sfnt_merge.go
index bc3ebdd..8ef1e55 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -223,7 +223,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// merge charStrings
 		sfnt.CFF.charStrings.Extend(cff2.charStrings)
 		sfnt.CFF.globalSubrs = globalSubrs
-		sfnt.CFF.fonts.localSubrs = []*cffINDEX{localSubrs}
+		sfnt.CFF.fonts.first = []uint32{0, uint32(sfnt.CFF.charStrings.Len())}
 
 		// update charset
 		if sfnt2.CFF.charset != nil {
-- 
2.43.0


From 46accca45e789fe10aea4ec8a3c3c4d5133f7bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 058/120] fix: merging a CFF font with glyph names into one
 without fails for a charset of the wrong length

---
 sfnt_merge.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 8ef1e55..7171aec 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -228,8 +228,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		// update charset
 		if sfnt2.CFF.charset != nil {
 			if sfnt.CFF.charset == nil {
-				numGlyphs := sfnt.CFF.charStrings.Len()
-				for i := 0; i < numGlyphs; i++ {
+				for i := 0; i < int(origNumGlyphs); i++ {
 					sfnt.CFF.charset = append(sfnt.CFF.charset, "")
 				}
 			}
-- 
2.43.0


From 9d26afe8d7a3805d69386130485bfa72add8a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 059/120] fix: CFF fonts with too many glyph names are written
 with wrong names

---
 sfnt_cff.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 674a4c9..fb6f860 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -1217,7 +1217,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 		offset[len(t.offset)+i] = uint32(len(t.data)) + o.offset[i+1]
 	}
 	t.offset = offset
-	t.data = append(t.data, o.data...)
+	t.data = append(t.data[:len(t.data):len(t.data)], o.data...)
 }
 
 func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
@@ -2140,6 +2140,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 		sids := make([]int, numGlyphs-1)
 		for i, name := range cff.charset[1:numGlyphs] {
 			sids[i] = strings.AddSID([]byte(name))
+			if math.MaxUint16 < sids[i] {
+				return nil, fmt.Errorf("too many glyph names")
+			}
 		}
 
 		// count number of ranges and max values of nLeft
-- 
2.43.0


From 10eb12ce6bf523766f3e46bf2b632fa36b2a9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 060/120] fix: setting glyph names of CFF fonts keeps the list
 of the caller, and keeps names that cannot be written

---
 sfnt_cff.go    | 2 +-
 sfnt_subset.go | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index fb6f860..c0d97e2 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -284,7 +284,7 @@ func (cff *cffTable) SetGlyphName(glyphID uint16, name string) {
 }
 
 func (cff *cffTable) SetGlyphNames(names []string) {
-	cff.charset = names
+	cff.charset = append([]string(nil), names...)
 }
 
 const (
diff --git a/sfnt_subset.go b/sfnt_subset.go
index c0f01ce..1b9c317 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -561,11 +561,13 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 			return nil
 		}
 
-		sfnt.CFF.charset = names
-		b, err := sfnt.CFF.Write()
+		cff := *sfnt.CFF
+		cff.SetGlyphNames(names)
+		b, err := cff.Write()
 		if err != nil {
 			return err
 		}
+		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
 		return nil
 	}
-- 
2.43.0


From 69454b3db83cb057db13eeb5ec098985532fbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:13 +0000
Subject: [PATCH 061/120] fix: setting glyph names panics after a name was
 looked up, keeps finding glyphs by their old names, and leaves names that
 cannot be written

---
 sfnt_subset.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 1b9c317..72b646e 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -572,39 +572,47 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		return nil
 	}
 
-	if _, ok := sfnt.Tables["post"]; !ok {
+	if _, ok := sfnt.Tables["post"]; !ok || sfnt.Post == nil {
 		return fmt.Errorf("post table doesn't exist")
 	}
 
-	sfnt.Post.NumGlyphs = sfnt.NumGlyphs()
-	sfnt.Post.glyphNameIndex = make([]uint16, sfnt.NumGlyphs())
-	sfnt.Post.stringData = [][]byte{}
-	sfnt.Post.nameMap = nil
+	post := &postTable{
+		ItalicAngle:        sfnt.Post.ItalicAngle,
+		UnderlinePosition:  sfnt.Post.UnderlinePosition,
+		UnderlineThickness: sfnt.Post.UnderlineThickness,
+		IsFixedPitch:       sfnt.Post.IsFixedPitch,
+		MinMemType42:       sfnt.Post.MinMemType42,
+		MaxMemType42:       sfnt.Post.MaxMemType42,
+		MinMemType1:        sfnt.Post.MinMemType1,
+		MaxMemType1:        sfnt.Post.MaxMemType1,
+		NumGlyphs:          sfnt.NumGlyphs(),
+		glyphNameIndex:     make([]uint16, sfnt.NumGlyphs()),
+		stringData:         [][]byte{},
+	}
 
-	lastIndex := uint16(258)
 	if int(sfnt.NumGlyphs()) < len(names) {
 		names = names[:sfnt.NumGlyphs()]
 	}
+	nameIndex := map[string]uint16{macintoshGlyphNames[0]: 0} // for .notdef
 	for glyphID, name := range names {
-		var index uint16
-		if glyphID2, ok := sfnt.Post.Find(name); ok {
-			index = sfnt.Post.glyphNameIndex[glyphID2]
-		} else if math.MaxUint16 < len(sfnt.Post.stringData)-258 {
-			return fmt.Errorf("invalid post table: stringData has too many entries")
-		} else {
-			sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-			sfnt.Post.nameMap[name] = uint16(glyphID)
-			index = lastIndex
-			lastIndex++
+		index, ok := nameIndex[name]
+		if !ok {
+			if math.MaxUint16 < len(post.stringData)+258 {
+				return fmt.Errorf("invalid post table: stringData has too many entries")
+			}
+			index = uint16(len(post.stringData) + 258)
+			post.stringData = append(post.stringData, []byte(name))
+			nameIndex[name] = index
 		}
-		sfnt.Post.glyphNameIndex[uint16(glyphID)] = index
+		post.glyphNameIndex[glyphID] = index
 	}
 
-	b, err := sfnt.Post.Write()
+	b, err := post.Write()
 	if err != nil {
 		return err
 	}
 
+	sfnt.Post = post
 	sfnt.Tables["post"] = b
 	return nil
 }
-- 
2.43.0


From fc08c2b00a074a92ec9d3d51c291d90e783f3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:19 +0000
Subject: [PATCH 062/120] fix: negative italic angles are rounded and converted
 in undefined ways when writing the post table

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 290a5e6..f2c1eeb 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1137,7 +1137,7 @@ func (post *postTable) Write() ([]byte, error) {
 
 	w := parse.NewBinaryWriter(make([]byte, 0, 32))
 	w.WriteUint32(uint32(version))
-	w.WriteUint32(uint32(post.ItalicAngle*(1<<16) + 0.5))
+	w.WriteInt32(int32(math.Round(post.ItalicAngle * (1 << 16))))
 	w.WriteInt16(post.UnderlinePosition)
 	w.WriteInt16(post.UnderlineThickness)
 	w.WriteUint32(post.IsFixedPitch)
-- 
2.43.0


From e5593d1c6131cd4c0975d8642eb3a01425f0f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:35 +0000
Subject: [PATCH 063/120] fix: an empty glyph name at the end of the post table
 is not read, writing the table fails

---
 sfnt.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index f2c1eeb..4a271ad 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -1109,16 +1109,15 @@ func (sfnt *SFNT) parsePost() error {
 
 		// get string data first
 		sfnt.Post.stringData = [][]byte{}
-		for 2 <= r.Len() {
+		for 0 < r.Len() {
 			length := r.ReadUint8()
-			if r.Len() < int64(length) || 63 < length {
+			if r.Len() == 0 && length != 0 {
+				break // extra byte at the end
+			} else if r.Len() < int64(length) || 63 < length {
 				return fmt.Errorf("post: bad stringData")
 			}
 			sfnt.Post.stringData = append(sfnt.Post.stringData, r.ReadBytes(int64(length)))
 		}
-		if 1 < r.Len() {
-			return fmt.Errorf("post: bad stringData")
-		}
 		return nil
 	} else if version == 0x00025000 && sfnt.IsTrueType && len(b) == 32 {
 		return fmt.Errorf("post: version 2.5 not supported")
-- 
2.43.0


From d596b7e9031f4c8caf8f9dfc88d4ddd87906a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 064/120] fix: subsetting clears the Unicode ranges of the
 source font

---
 sfnt_subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 72b646e..55dbd57 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -468,7 +468,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 			sfnt.Name = &nameTable{}
 		case "OS/2":
-			sfnt.OS2 = sfntOld.OS2
+			os2 := *sfntOld.OS2
+			sfnt.OS2 = &os2
 			sfnt.OS2.UlUnicodeRange1 = ulUnicodeRange[0]
 			sfnt.OS2.UlUnicodeRange2 = ulUnicodeRange[1]
 			sfnt.OS2.UlUnicodeRange3 = ulUnicodeRange[2]
-- 
2.43.0


From 7a73395b5dc615e74d9be99625f00cec84c54306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 065/120] fix: the Unicode ranges of subset fonts are always
 zero, and would have been set to other ranges

---
 sfnt_os2.go    | 4 ++--
 sfnt_subset.go | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index ee3c9c1..4cb2f2c 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -166,10 +166,10 @@ func os2UlUnicodeRange(rs []rune) [4]uint32 {
 	for _, r := range rs {
 		if bit := os2UlUnicodeRangeBit(r); bit != -1 {
 			i := int(bit / 32)
-			v[3-i] |= 2 << (bit - i*32)
+			v[i] |= 1 << (bit - i*32)
 		}
 		if 0x10000 <= r && r < 0x110000 {
-			v[2] |= 2 << 25 // bit 57 (Non-Plane 0)
+			v[1] |= 1 << 25 // bit 57 (Non-Plane 0)
 		}
 	}
 	return v
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 55dbd57..9f364b2 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strings"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -99,7 +100,10 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	} else {
 		tags = append(tags, options.Tables...)
 	}
-	sort.Strings(tags) // so that glyf is before loca
+	sort.Slice(tags, func(i, j int) bool {
+		// so that glyf is before head and loca, and cmap is before OS/2
+		return strings.ToLower(tags[i]) < strings.ToLower(tags[j])
+	})
 
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
-- 
2.43.0


From c96db8542099e6c9e0694d654362e27c5451a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 066/120] fix: subset fonts with CJK strokes or the end of the
 Hangul syllables set the wrong Unicode range

---
 sfnt_os2.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfnt_os2.go b/sfnt_os2.go
index 4cb2f2c..d03ee25 100644
--- a/sfnt_os2.go
+++ b/sfnt_os2.go
@@ -356,16 +356,16 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 51
 	} else if r < 0x3190 {
 		return 52
+	} else if r < 0x31C0 {
+		return -1
+	} else if r < 0x31F0 {
+		return 61
 	} else if r < 0x3200 {
 		return -1
 	} else if r < 0x3300 {
 		return 54
 	} else if r < 0x3400 {
 		return 55
-	} else if r < 0x31C0 {
-		return -1
-	} else if r < 0x31F0 {
-		return 61
 	} else if r < 0x4DC0 {
 		return -1
 	} else if r < 0x4E00 {
@@ -400,9 +400,9 @@ func os2UlUnicodeRangeBit(r rune) int {
 		return 118
 	} else if r < 0xAC00 {
 		return -1
-	} else if r < 0xD7AF {
+	} else if r < 0xD7B0 {
 		return 56
-	} else if r < 0xE00 {
+	} else if r < 0xE000 {
 		return -1
 	} else if r < 0xF900 {
 		return 60
-- 
2.43.0


From 7feac8dd53496acb3af407a278d544be9a932a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:03 +0000
Subject: [PATCH 067/120] fix: glyph locations of merged TrueType fonts are
 wrong, and merging overwrites the bytes the font was parsed from

---
 sfnt_merge.go | 127 ++++++++++++++++++++++++--------------------------
 1 file changed, 61 insertions(+), 66 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 7171aec..75f52f7 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -49,86 +49,81 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 	if sfnt.IsTrueType {
 		glyf, ok1 := sfnt.Tables["glyf"]
 		glyf2, ok2 := sfnt2.Tables["glyf"]
-		loca, ok3 := sfnt.Tables["loca"]
+		_, ok3 := sfnt.Tables["loca"]
 		_, ok4 := sfnt2.Tables["loca"]
 		if !ok1 || !ok2 || !ok3 || !ok4 {
 			return fmt.Errorf("glyf of loca tables missing")
 		}
 
-		// skip .notdef
-		firstGlyf, _ := sfnt2.Loca.Get(1)
-		glyf2 = glyf2[firstGlyf:]
-
-		// update glyphIDs of composite glyphs and make sure not to write to glyf2
-		startGlyf := uint32(len(glyf))
-		glyf = append(glyf, glyf2...)
-		for glyphID := 1; glyphID < int(sfnt2.NumGlyphs()); glyphID++ {
-			// +1 to skip .notdef
-			if sfnt2.Glyf.IsComposite(uint16(glyphID)) {
-				start, _ := sfnt2.Loca.Get(uint16(glyphID))
-				start += startGlyf - firstGlyf
-
-				offset := uint32(10)
-				for {
-					flags := binary.BigEndian.Uint16(glyf[start+offset:])
-					subGlyphID := binary.BigEndian.Uint16(glyf[start+offset+2:])
-					binary.BigEndian.PutUint16(glyf[start+offset+2:], origNumGlyphs+subGlyphID-1)
+		// write glyphs of both fonts, skip .notdef of second font
+		offsets := make([]uint32, int(numGlyphs)+1)
+		w := parse.NewBinaryWriter(make([]byte, 0, len(glyf)+len(glyf2)))
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			if glyphID < int(origNumGlyphs) {
+				w.WriteBytes(sfnt.Glyf.Get(uint16(glyphID)))
+			} else {
+				// update glyphIDs of composite glyphs and make sure not to write to glyf2
+				start := uint32(w.Len())
+				b := sfnt2.Glyf.Get(uint16(1+glyphID) - origNumGlyphs)
+				w.WriteBytes(b)
+				if sfnt2.Glyf.IsComposite(uint16(1+glyphID) - origNumGlyphs) {
+					offset := uint32(10)
+					for {
+						if uint32(len(b)) < offset+4 {
+							return fmt.Errorf("glyf: bad composite glyph %v", 1+glyphID-int(origNumGlyphs))
+						}
+						flags := binary.BigEndian.Uint16(b[offset:])
+						if subGlyphID := binary.BigEndian.Uint16(b[offset+2:]); subGlyphID != 0 {
+							binary.BigEndian.PutUint16(w.Bytes()[start+offset+2:], origNumGlyphs+subGlyphID-1)
+						}
 
-					length, more := glyfCompositeLength(flags)
-					if !more {
-						break
+						length, more := glyfCompositeLength(flags)
+						if !more {
+							break
+						}
+						offset += length
 					}
-					offset += length
 				}
 			}
-		}
-		sfnt.Tables["glyf"] = glyf
-		sfnt.Glyf.data = glyf
-
-		if _, ok := sfnt.Tables["loca"]; ok {
-			indexToLocFormat := int16(1) // long format
-			if len(glyf) <= math.MaxUint16 {
-				indexToLocFormat = 0 // short format
-			}
-			n := 2 * (numGlyphs + 1)
-			if indexToLocFormat == 1 {
-				n *= 2
-			}
 
-			// write current offsets
-			glyphID := 0
-			w := parse.NewBinaryWriter(make([]byte, 0, n))
-			if indexToLocFormat == sfnt.Loca.Format {
-				w.WriteBytes(loca)
-				glyphID = int(origNumGlyphs)
-			} else if table, ok := sfnt.Tables["head"]; ok {
-				binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
-				sfnt.Head.IndexToLocFormat = indexToLocFormat
+			// padding to ensure glyph offsets are on even bytes for loca short format
+			if w.Len()%2 == 1 {
+				w.WriteByte(0)
 			}
+			offsets[glyphID+1] = uint32(w.Len())
+		}
+		glyf = w.Bytes()
+		sfnt.Tables["glyf"] = glyf
 
-			// write offsets (+1 since we do iterate over .notdef, but skip it below)
-			for ; glyphID < int(numGlyphs); glyphID++ {
-				var offset uint32
-				if glyphID < int(origNumGlyphs) {
-					offset, _ = sfnt.Loca.Get(uint16(glyphID))
-				} else {
-					// +1 to skip .notdef, +1 to get the end of the glyph
-					offset, _ = sfnt2.Loca.Get(uint16(1 + glyphID - int(origNumGlyphs) + 1))
-					offset += startGlyf - firstGlyf
-				}
+		indexToLocFormat := int16(1) // long format
+		if len(glyf) <= math.MaxUint16 {
+			indexToLocFormat = 0 // short format
+		}
+		if table, ok := sfnt.Tables["head"]; ok && sfnt.Head != nil && indexToLocFormat != sfnt.Head.IndexToLocFormat {
+			table = append([]byte{}, table...) // make sure not to write to the table of the original
+			binary.BigEndian.PutUint16(table[50:], uint16(indexToLocFormat))
+			sfnt.Tables["head"] = table
+			sfnt.Head.IndexToLocFormat = indexToLocFormat
+		}
 
-				if indexToLocFormat == 0 {
-					// short format
-					w.WriteUint16(uint16(offset / 2))
-				} else {
-					// long format
-					w.WriteUint32(offset)
-				}
+		w = parse.NewBinaryWriter(make([]byte, 0, 4*len(offsets)))
+		for _, offset := range offsets {
+			if indexToLocFormat == 0 {
+				// short format
+				w.WriteUint16(uint16(offset / 2))
+			} else {
+				// long format
+				w.WriteUint32(offset)
 			}
-
-			sfnt.Tables["loca"] = w.Bytes()
-			sfnt.Loca.Format = indexToLocFormat
-			sfnt.Loca.data = w.Bytes()
+		}
+		sfnt.Tables["loca"] = w.Bytes()
+		sfnt.Loca = &locaTable{
+			Format: indexToLocFormat,
+			data:   w.Bytes(),
+		}
+		sfnt.Glyf = &glyfTable{
+			data: glyf,
+			loca: sfnt.Loca,
 		}
 
 		if _, ok := sfnt.Tables["kern"]; ok {
-- 
2.43.0


From bff74205ee19c60442913840a8c58835d5a4d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:09 +0000
Subject: [PATCH 068/120] fix: merging fonts with a kern table panics if only
 one has it, drops pairs of many glyphs or all pairs of CFF fonts, and adds
 bogus pairs

---
 sfnt_merge.go | 57 +++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 75f52f7..bd95d6d 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -125,31 +125,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			data: glyf,
 			loca: sfnt.Loca,
 		}
-
-		if _, ok := sfnt.Tables["kern"]; ok {
-			// update glyph IDs in kern table
-			for _, subtable := range sfnt2.Kern.Subtables {
-				offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
-				pairs := make([]kernPair, len(subtable.Pairs))
-				for i, pair := range subtable.Pairs {
-					if pair.Key&0x0F == 0 || pair.Key&0xF0 == 0 {
-						// skip .notdef
-						continue
-					}
-					pairs[i] = kernPair{
-						Key:   offset + pair.Key,
-						Value: pair.Value,
-					}
-				}
-				sfnt.Kern.Subtables = append(sfnt.Kern.Subtables, kernFormat0{
-					Coverage: subtable.Coverage,
-					Pairs:    pairs,
-				})
-			}
-			if 0 < len(sfnt.Kern.Subtables) {
-				sfnt.Tables["kern"] = sfnt.Kern.Write()
-			}
-		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
 		// merge subroutines, copy to keep the originals untouched
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
@@ -242,6 +217,38 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["CFF "] = b
 	}
 
+	if sfnt2.Kern != nil && 0 < len(sfnt2.Kern.Subtables) {
+		// update glyph IDs in kern table
+		kern := &kernTable{}
+		if sfnt.Kern != nil {
+			kern.Subtables = append(kern.Subtables, sfnt.Kern.Subtables...)
+		}
+		for _, subtable := range sfnt2.Kern.Subtables {
+			offset := uint32(origNumGlyphs-1)<<16 + uint32(origNumGlyphs-1) // -1 to skip .notdef
+			pairs := make([]kernPair, 0, len(subtable.Pairs))
+			for _, pair := range subtable.Pairs {
+				l, r := uint16(pair.Key>>16), uint16(pair.Key)
+				if l == 0 || r == 0 || sfnt2.NumGlyphs() <= l || sfnt2.NumGlyphs() <= r {
+					continue // skip .notdef
+				}
+				pairs = append(pairs, kernPair{
+					Key:   offset + pair.Key,
+					Value: pair.Value,
+				})
+			}
+			if 0 < len(pairs) {
+				kern.Subtables = append(kern.Subtables, kernFormat0{
+					Coverage: subtable.Coverage,
+					Pairs:    pairs,
+				})
+			}
+		}
+		if 0 < len(kern.Subtables) {
+			sfnt.Kern = kern
+			sfnt.Tables["kern"] = kern.Write()
+		}
+	}
+
 	if _, ok := sfnt.Tables["hmtx"]; ok {
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
-- 
2.43.0


From c066f0669805a1d5eca9d8b2b04d2b7baf09eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 069/120] fix: merging overwrites the hhea and OS/2 tables in
 the bytes the font was parsed from, and panics if the other font has no OS/2
 table

---
 sfnt_merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index bd95d6d..ae22822 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -287,7 +287,9 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["hmtx"] = w.Bytes()
 
 		if table, ok := sfnt.Tables["hhea"]; ok {
+			table = append([]byte{}, table...)                       // make sure not to write to the table of the original
 			binary.BigEndian.PutUint16(table[34:], numberOfHMetrics) // numberOfHMetrics
+			sfnt.Tables["hhea"] = table
 			sfnt.Hhea.NumberOfHMetrics = numberOfHMetrics
 		}
 	}
@@ -336,7 +338,8 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if table, ok := sfnt.Tables["OS/2"]; ok {
+	if table, ok := sfnt.Tables["OS/2"]; ok && sfnt.OS2 != nil && sfnt2.OS2 != nil {
+		table = append([]byte{}, table...) // make sure not to write to the table of the original
 		sfnt.OS2.UlUnicodeRange1 |= sfnt2.OS2.UlUnicodeRange1
 		sfnt.OS2.UlUnicodeRange2 |= sfnt2.OS2.UlUnicodeRange2
 		sfnt.OS2.UlUnicodeRange3 |= sfnt2.OS2.UlUnicodeRange3
@@ -345,6 +348,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		binary.BigEndian.PutUint32(table[46:], sfnt.OS2.UlUnicodeRange2)
 		binary.BigEndian.PutUint32(table[50:], sfnt.OS2.UlUnicodeRange3)
 		binary.BigEndian.PutUint32(table[54:], sfnt.OS2.UlUnicodeRange4)
+		sfnt.Tables["OS/2"] = table
 	}
 
 	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-- 
2.43.0


From bcefa8318eebb739de7616b6f6d56b0a569a918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:39 +0000
Subject: [PATCH 070/120] fix: merging fonts or getting glyph names panics for
 fonts without some optional tables

---
 sfnt.go       | 6 ++++++
 sfnt_merge.go | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 4a271ad..9267c99 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -116,6 +116,9 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
 	}
+	if sfnt.Post == nil {
+		return ""
+	}
 	return sfnt.Post.Get(glyphID)
 }
 
@@ -129,6 +132,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 		}
 		return 0
 	}
+	if sfnt.Post == nil {
+		return 0
+	}
 	glyphID, _ := sfnt.Post.Find(name)
 	return glyphID
 }
diff --git a/sfnt_merge.go b/sfnt_merge.go
index ae22822..40ceb0f 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -249,7 +249,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if _, ok := sfnt.Tables["hmtx"]; ok {
+	if _, ok := sfnt.Tables["hmtx"]; ok && sfnt.Hmtx != nil && sfnt2.Hmtx != nil {
 		lsbs := make([]int16, numGlyphs)
 		advances := make([]uint16, numGlyphs)
 		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
@@ -294,7 +294,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
-	if _, ok := sfnt.Tables["cmap"]; ok {
+	if _, ok := sfnt.Tables["cmap"]; ok && sfnt.Cmap != nil {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
 		if options.RearrangeCmap {
@@ -308,7 +308,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				var rsGlyph []rune
 				if glyphID < int(origNumGlyphs) {
 					rsGlyph = sfnt.Cmap.ToUnicode(uint16(glyphID))
-				} else {
+				} else if sfnt2.Cmap != nil {
 					rsGlyph = sfnt2.Cmap.ToUnicode(uint16(1+glyphID) - origNumGlyphs) // +1 to skip .notdef
 				}
 				rs = append(rs, rsGlyph...)
-- 
2.43.0


From 72577719e05fede5540011be25b5571eca5e014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:02 +0000
Subject: [PATCH 071/120] fix: merging fonts of which only one has glyph names
 gives invalid post tables, and names of merged glyphs are found at the wrong
 glyph

---
 sfnt_merge.go  | 46 ++++++++++++++++++++--------------------------
 sfnt_subset.go |  5 ++++-
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 40ceb0f..ef9f6b1 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -351,27 +351,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["OS/2"] = table
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post.NumGlyphs != 0 && sfnt2.Post.NumGlyphs != 0 {
-		if sfnt.Post.NumGlyphs == 0 {
-			// initialise the first font to zero
-			sfnt.Post.glyphNameIndex = make([]uint16, origNumGlyphs, numGlyphs)
-		}
-		for glyphID2 := 1; glyphID2 < int(sfnt2.NumGlyphs()); glyphID2++ {
-			var index uint16
-			name := sfnt2.Post.Get(uint16(glyphID2))
-			if glyphID, ok := sfnt.Post.Find(name); ok {
-				// reuse existing names
-				index = sfnt.Post.glyphNameIndex[glyphID]
-			} else if math.MaxUint16 < len(sfnt.Post.stringData)+258 {
-				return fmt.Errorf("invalid post table: stringData has too many entries")
-			} else {
-				index = uint16(len(sfnt.Post.stringData) + 258)
-				sfnt.Post.stringData = append(sfnt.Post.stringData, []byte(name))
-				sfnt.Post.nameMap[name] = uint16(glyphID2)
-			}
-			sfnt.Post.glyphNameIndex = append(sfnt.Post.glyphNameIndex, index)
-		}
-
+	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post != nil && sfnt2.Post != nil {
 		if sfnt2.Post.IsFixedPitch == 0 {
 			sfnt.Post.IsFixedPitch = 0
 		}
@@ -379,13 +359,27 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
 		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
 		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
-		sfnt.Post.NumGlyphs = numGlyphs
 
-		b, err := sfnt.Post.Write()
-		if err != nil {
-			return fmt.Errorf("invalid post table: %v", err)
+		if 0 < len(sfnt.Post.glyphNameIndex) || 0 < len(sfnt2.Post.glyphNameIndex) {
+			// glyphs have no name in case only one of the fonts has glyph names
+			names := make([]string, numGlyphs)
+			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+				if glyphID < int(origNumGlyphs) {
+					names[glyphID] = sfnt.Post.Get(uint16(glyphID))
+				} else {
+					names[glyphID] = sfnt2.Post.Get(uint16(1+glyphID) - origNumGlyphs)
+				}
+			}
+			if err := sfnt.SetGlyphNames(names); err != nil {
+				return err
+			}
+		} else {
+			b, err := sfnt.Post.Write()
+			if err != nil {
+				return fmt.Errorf("invalid post table: %v", err)
+			}
+			sfnt.Tables["post"] = b
 		}
-		sfnt.Tables["post"] = b
 	}
 	return nil
 }
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 9f364b2..71fde8c 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -598,7 +598,10 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if int(sfnt.NumGlyphs()) < len(names) {
 		names = names[:sfnt.NumGlyphs()]
 	}
-	nameIndex := map[string]uint16{macintoshGlyphNames[0]: 0} // for .notdef
+	nameIndex := make(map[string]uint16, len(macintoshGlyphNames)+len(names))
+	for index, name := range macintoshGlyphNames {
+		nameIndex[name] = uint16(index)
+	}
 	for glyphID, name := range names {
 		index, ok := nameIndex[name]
 		if !ok {
-- 
2.43.0


From a3e1f9d999acd8416fd1678c1b3045252ea5b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 072/120] fix: fonts with vertical metrics cannot be parsed
 after merging

---
 sfnt_merge.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index ef9f6b1..a22c745 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -294,6 +294,35 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		}
 	}
 
+	if _, ok := sfnt.Tables["vmtx"]; ok && sfnt.Vmtx != nil {
+		w := parse.NewBinaryWriter(make([]byte, 0, 4*int(numGlyphs)))
+		vmtx := &vmtxTable{VMetrics: make([]vmtxLongVerMetric, numGlyphs)}
+		for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
+			metric := &vmtx.VMetrics[glyphID]
+			if glyphID < int(origNumGlyphs) {
+				metric.AdvanceHeight = sfnt.Vmtx.Advance(uint16(glyphID))
+				metric.TopSideBearing = sfnt.Vmtx.TopSideBearing(uint16(glyphID))
+			} else if sfnt2.Vmtx != nil {
+				// +1 to skip .notdef
+				metric.AdvanceHeight = sfnt2.Vmtx.Advance(uint16(1+glyphID) - origNumGlyphs)
+				metric.TopSideBearing = sfnt2.Vmtx.TopSideBearing(uint16(1+glyphID) - origNumGlyphs)
+			} else {
+				metric.AdvanceHeight = sfnt2.GlyphVerticalAdvance(uint16(1+glyphID) - origNumGlyphs)
+			}
+			w.WriteUint16(metric.AdvanceHeight)
+			w.WriteInt16(metric.TopSideBearing)
+		}
+		sfnt.Vmtx = vmtx
+		sfnt.Tables["vmtx"] = w.Bytes()
+
+		if table, ok := sfnt.Tables["vhea"]; ok && sfnt.Vhea != nil {
+			table = append([]byte{}, table...)                // make sure not to write to the table of the original
+			binary.BigEndian.PutUint16(table[34:], numGlyphs) // numberOfVMetrics
+			sfnt.Tables["vhea"] = table
+			sfnt.Vhea.NumberOfVMetrics = numGlyphs
+		}
+	}
+
 	if _, ok := sfnt.Tables["cmap"]; ok && sfnt.Cmap != nil {
 		rs := make([]rune, 0, numGlyphs)
 		runeMap := make(map[rune]uint16, numGlyphs) // for OS/2
@@ -313,7 +342,7 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 				}
 				rs = append(rs, rsGlyph...)
 				for _, r := range rsGlyph {
-					if otherGlyphID, ok := runeMap[r]; ok {
+					if otherGlyphID, ok := runeMap[r]; ok && otherGlyphID != uint16(glyphID) {
 						glyphName, otherGlyphName := "", ""
 						if glyphID < int(origNumGlyphs) {
 							glyphName = sfnt.GlyphName(uint16(glyphID))
-- 
2.43.0


From 7ee2149a5921c0bef7111d36d017e4e23045f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:28 +0000
Subject: [PATCH 073/120] fix: merging with a rearranged cmap does nothing if
 the other font has no other glyphs than the missing glyph

---
 sfnt_merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index a22c745..90c5d29 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -18,8 +18,10 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		return fmt.Errorf("can only merge two TrueType or two CFF fonts")
 	} else if math.MaxUint16-sfnt.NumGlyphs() < sfnt2.NumGlyphs() {
 		return fmt.Errorf("too many glyphs for one font")
-	} else if sfnt2.NumGlyphs() < 2 {
+	} else if sfnt2.NumGlyphs() == 0 || sfnt2.NumGlyphs() == 1 && !options.RearrangeCmap {
 		return nil // sfnt2 only contains .notdef
+	} else if sfnt.NumGlyphs() == 0 {
+		return fmt.Errorf("font has no glyphs")
 	}
 
 	// update maxp table
-- 
2.43.0


From c77b85e303003c7acc59eea0225345fdf76498a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:34 +0000
Subject: [PATCH 074/120] fix: glyphs with locations outside the glyf table or
 in reverse order panic, as does a truncated loca table

---
 sfnt_truetype.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 4ba3e88..157cc3f 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -72,10 +72,12 @@ type glyfTable struct {
 func (glyf *glyfTable) Get(glyphID uint16) []byte {
 	start, ok1 := glyf.loca.Get(glyphID)
 	end, ok2 := glyf.loca.Get(glyphID + 1)
-	if !ok1 || !ok2 {
+	if !ok1 || !ok2 || glyphID == math.MaxUint16 || end < start || uint32(len(glyf.data)) < end {
 		return nil
+	} else if start == end {
+		return []byte{}
 	}
-	return glyf.data[start:end]
+	return glyf.data[start:end:end]
 }
 
 // IsComposite returns true if the glyph is a composite glyph
@@ -467,9 +469,9 @@ type locaTable struct {
 }
 
 func (loca *locaTable) Get(glyphID uint16) (uint32, bool) {
-	if loca.Format == 0 && int(glyphID)*2 < len(loca.data) {
+	if loca.Format == 0 && int(glyphID)*2+2 <= len(loca.data) {
 		return 2 * uint32(binary.BigEndian.Uint16(loca.data[int(glyphID)*2:])), true
-	} else if loca.Format == 1 && int(glyphID)*4 < len(loca.data) {
+	} else if loca.Format == 1 && int(glyphID)*4+4 <= len(loca.data) {
 		return binary.BigEndian.Uint32(loca.data[int(glyphID)*4:]), true
 	}
 	return 0, false
-- 
2.43.0


From 8fb88816db7367fa5f7873246f920975b2d9b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 075/120] fix: merging embedded CFF fonts writes an invalid
 maxp table

---
 sfnt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt.go b/sfnt.go
index 9267c99..a9d4023 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -406,7 +406,7 @@ func parseSFNT(b []byte, index int, embedded bool) (*SFNT, error) {
 			return nil, err
 		}
 		// maxp is not required and may be missing, it is needed by the cmap table
-		sfnt.Maxp = &maxpTable{NumGlyphs: uint16(sfnt.CFF.charStrings.Len())}
+		sfnt.Maxp = &maxpTable{Version: 0x00005000, NumGlyphs: uint16(sfnt.CFF.charStrings.Len())}
 		if err := sfnt.parseCmap(); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f814b517640f5fd8dca003246f8010a3b76b9ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 076/120] fix: subsets to a list of tables with cmap but
 without maxp fail, and those without maxp panic when asked for their number
 of glyphs

---
 sfnt_subset.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 71fde8c..377eb4f 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -154,14 +154,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	}
 
 	// copy and rewrite tables
-	for _, tag := range tags {
-		if tag == "maxp" {
-			maxp := *sfntOld.Maxp
-			sfnt.Maxp = &maxp
-			sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
-			break
-		}
-	}
+	maxp := *sfntOld.Maxp
+	sfnt.Maxp = &maxp
+	sfnt.Maxp.NumGlyphs = uint16(len(glyphIDs))
 	for _, tag := range tags {
 		table, ok := sfntOld.Tables[tag]
 		if !ok {
-- 
2.43.0


From 0ba85af34896c0fd6aa82a5706ed64d37ab77a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:54 +0000
Subject: [PATCH 077/120] fix: the length of a font is not updated when merging
 or setting glyph names, and counts tables that are listed twice twice

---
 sfnt_merge.go  |  1 +
 sfnt_subset.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 90c5d29..15ef6a0 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -412,5 +412,6 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			sfnt.Tables["post"] = b
 		}
 	}
+	sfnt.updateLength()
 	return nil
 }
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 377eb4f..044fe11 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -146,7 +146,6 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 	sfntOld := sfnt
 	sfnt = &SFNT{
 		Version:    sfntOld.Version,
-		Length:     12, // increased below
 		IsCFF:      sfntOld.IsCFF,
 		IsTrueType: sfntOld.IsTrueType,
 		Tables:     map[string][]byte{},
@@ -538,10 +537,8 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		default:
 			sfnt.Tables[tag] = table
 		}
-
-		sfnt.Length += uint32(16 + len(sfnt.Tables[tag]))        // 16 for the table record
-		sfnt.Length += (4 - uint32(len(sfnt.Tables[tag]))&3) & 3 // padding
 	}
+	sfnt.updateLength()
 	return sfnt, nil
 }
 
@@ -569,6 +566,7 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 		}
 		sfnt.CFF = &cff
 		sfnt.Tables["CFF "] = b
+		sfnt.updateLength()
 		return nil
 	}
 
@@ -617,5 +615,15 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 
 	sfnt.Post = post
 	sfnt.Tables["post"] = b
+	sfnt.updateLength()
 	return nil
 }
+
+// updateLength sets the length of the font as written after its tables have changed.
+func (sfnt *SFNT) updateLength() {
+	sfnt.Length = 12
+	for _, table := range sfnt.Tables {
+		sfnt.Length += uint32(16 + len(table))        // 16 for the table record
+		sfnt.Length += (4 - uint32(len(table))&3) & 3 // padding
+	}
+}
-- 
2.43.0


From 2eb2fe52f2e6d6481a84c0d02d1f6f0ef117bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 078/120] fix: setting or getting glyph names panics for
 subsets without CFF table

---
 sfnt.go        | 6 ++++++
 sfnt_subset.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/sfnt.go b/sfnt.go
index a9d4023..d8736b5 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -113,6 +113,9 @@ func (sfnt *SFNT) GlyphToUnicode(glyphID uint16) []rune {
 // GlyphName returns the name of the glyph. It returns an empty string when no name exists.
 func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return ""
+		}
 		name, _ := sfnt.CFF.GlyphName(glyphID)
 		return name
 	}
@@ -125,6 +128,9 @@ func (sfnt *SFNT) GlyphName(glyphID uint16) string {
 // FindGlyphName returns the glyphID for a given glyph name. When the name is not defined it returns 0.
 func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return 0
+		}
 		for glyphID, glyphName := range sfnt.CFF.charset {
 			if name == glyphName {
 				return uint16(glyphID)
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 044fe11..e4a779b 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -544,6 +544,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 
 func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	if sfnt.IsCFF {
+		if sfnt.CFF == nil {
+			return fmt.Errorf("CFF table doesn't exist")
+		}
 		same := false
 		if len(sfnt.CFF.charset) == len(names) {
 			same = true
-- 
2.43.0


From d49101a0f86baad45fa19b906b3b2be004a89ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:35 +0000
Subject: [PATCH 079/120] fix: subsets of CFF fonts that list glyphs more than
 once fail when there are more than in the source font

---
 sfnt_subset.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index e4a779b..3eb3871 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -209,6 +209,15 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				cff.charset = charset
 			}
 
+			// all glyphs belong to the same font, fonts with more than one font are not supported
+			if len(cff.fonts.private) == 1 {
+				fonts := *cff.fonts
+				fonts.fds = nil
+				fonts.first = []uint32{0, uint32(len(glyphIDs))}
+				fonts.fd = []uint16{0}
+				cff.fonts = &fonts
+			}
+
 			// trim globalSubrs and localSubrs INDEX
 			if err := cff.ReindexSubrs(); err != nil {
 				return nil, err
-- 
2.43.0


From 77616ffb24acd20d01f9cba6f00555072734c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:13 +0000
Subject: [PATCH 080/120] fix: subset of a font with vhea but no vmtx keeps a
 too large number of vertical metrics

---
 sfnt_subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 3eb3871..2e28ece 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -507,7 +507,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 				MaxMemType1:        sfntOld.Post.MaxMemType1,
 			}
 		case "vhea":
-			if sfntOld.Vhea == nil || sfntOld.Vmtx == nil {
+			if sfntOld.Vhea == nil {
 				sfnt.Tables[tag] = table
 				break
 			}
-- 
2.43.0


From d46ed5a6bf249f9e3f4726b5811cff94aad4a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 081/120] fix: merging a font without post table leaves the
 number of glyphs of the post table too small

---
 sfnt_merge.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sfnt_merge.go b/sfnt_merge.go
index 15ef6a0..f6741a5 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -382,23 +382,27 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 		sfnt.Tables["OS/2"] = table
 	}
 
-	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post != nil && sfnt2.Post != nil {
-		if sfnt2.Post.IsFixedPitch == 0 {
+	if _, ok := sfnt.Tables["post"]; ok && sfnt.Post != nil {
+		post2 := sfnt2.Post
+		if post2 == nil {
+			post2 = &postTable{IsFixedPitch: sfnt.Post.IsFixedPitch} // no glyph names
+		}
+		if post2.IsFixedPitch == 0 {
 			sfnt.Post.IsFixedPitch = 0
 		}
-		sfnt.Post.MinMemType42 += sfnt2.Post.MinMemType42
-		sfnt.Post.MaxMemType42 += sfnt2.Post.MaxMemType42
-		sfnt.Post.MinMemType1 += sfnt2.Post.MinMemType1
-		sfnt.Post.MaxMemType1 += sfnt2.Post.MaxMemType1
+		sfnt.Post.MinMemType42 += post2.MinMemType42
+		sfnt.Post.MaxMemType42 += post2.MaxMemType42
+		sfnt.Post.MinMemType1 += post2.MinMemType1
+		sfnt.Post.MaxMemType1 += post2.MaxMemType1
 
-		if 0 < len(sfnt.Post.glyphNameIndex) || 0 < len(sfnt2.Post.glyphNameIndex) {
+		if 0 < len(sfnt.Post.glyphNameIndex) || 0 < len(post2.glyphNameIndex) {
 			// glyphs have no name in case only one of the fonts has glyph names
 			names := make([]string, numGlyphs)
 			for glyphID := 0; glyphID < int(numGlyphs); glyphID++ {
 				if glyphID < int(origNumGlyphs) {
 					names[glyphID] = sfnt.Post.Get(uint16(glyphID))
 				} else {
-					names[glyphID] = sfnt2.Post.Get(uint16(1+glyphID) - origNumGlyphs)
+					names[glyphID] = post2.Get(uint16(1+glyphID) - origNumGlyphs)
 				}
 			}
 			if err := sfnt.SetGlyphNames(names); err != nil {
-- 
2.43.0


From d38fca6241c60b2a7588245ae16ce8ca86efcb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:00 +0000
Subject: [PATCH 082/120] fix: ParseStyleCSS overflows for very large weights
 and gives the thinnest style

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index e329acf..cbabaed 100644
--- a/system.go
+++ b/system.go
@@ -162,12 +162,12 @@ const (
 )
 
 func ParseStyleCSS(weight int, italic bool) Style {
-	weight = int(float64(weight)/100.0+0.5) * 100
 	if weight < 100 {
 		weight = 100
 	} else if 900 < weight {
 		weight = 900
 	}
+	weight = int(float64(weight)/100.0+0.5) * 100
 
 	var style Style
 	if italic {
-- 
2.43.0


From de0ec0b34fbbb73bafed7d580a741e88c2d8b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:06 +0000
Subject: [PATCH 083/120] fix: SystemFonts.Add panics for an empty collection,
 such as one that was saved and loaded

---
 system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/system.go b/system.go
index cbabaed..13e826f 100644
--- a/system.go
+++ b/system.go
@@ -313,6 +313,9 @@ func (s *SystemFonts) Save(filename string) error {
 }
 
 func (s *SystemFonts) Add(metadata FontMetadata) {
+	if s.Fonts == nil {
+		s.Fonts = map[string]map[Style]FontMetadata{}
+	}
 	if _, ok := s.Fonts[metadata.Family]; !ok {
 		s.Fonts[metadata.Family] = map[Style]FontMetadata{}
 	}
-- 
2.43.0


From 4a806cf2adaef839d32775a3a68018234a353b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 084/120] fix: SystemFonts.Match overwrites generic font names
 that share memory

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 13e826f..7a100f2 100644
--- a/system.go
+++ b/system.go
@@ -328,7 +328,7 @@ func (s *SystemFonts) Match(name string, style Style) (FontMetadata, bool) {
 	for i := 0; i < len(families); i++ {
 		families[i] = strings.TrimSpace(families[i])
 		if names, ok := s.Generics[families[i]]; ok {
-			families = append(families[:i], append(names, families[i+1:]...)...)
+			families = append(families[:i], append(append([]string{}, names...), families[i+1:]...)...)
 			i += len(names) - 1
 		}
 	}
-- 
2.43.0


From 0ee1a2960621b05a32f9e2468329f36c06ff5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:17 +0000
Subject: [PATCH 085/120] fix: FindSystemFonts panics for a directory that
 exists but cannot be accessed

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 7a100f2..73cf74c 100644
--- a/system.go
+++ b/system.go
@@ -474,7 +474,7 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 
 	var Err error
 	for _, dir := range dirs {
-		if info, err := os.Stat(dir); os.IsNotExist(err) {
+		if info, err := os.Stat(dir); err != nil {
 			continue
 		} else if !info.IsDir() {
 			continue
-- 
2.43.0


From 8cc1513f2b24ce3d3deb21afa258c9fe1f0b9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:23 +0000
Subject: [PATCH 086/120] fix: FindSystemFonts fails when any subdirectory is
 not readable

---
 system.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 73cf74c..11bd347 100644
--- a/system.go
+++ b/system.go
@@ -436,7 +436,10 @@ func FindSystemFonts(dirs []string) (*SystemFonts, error) {
 		return fs.WalkDir(os.DirFS(dir), ".", func(path string, d fs.DirEntry, err error) error {
 			path = filepath.Join(dir, path)
 			if err != nil {
-				return err
+				if d != nil && d.IsDir() {
+					return fs.SkipDir // directory is not readable
+				}
+				return nil
 			} else if d.IsDir() {
 				if walkedDirs[path] {
 					return filepath.SkipDir
-- 
2.43.0


From 6f61cb2a48e34f332ed01681ac311e6cad0b5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 087/120] fix: font metadata is taken from names in other
 languages and of other platforms

---
 system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/system.go b/system.go
index 11bd347..3db6861 100644
--- a/system.go
+++ b/system.go
@@ -562,7 +562,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 			platform := PlatformID(u16(records[i:]))
 			//encoding := EncodingID(u16(records[i+2:]))
 			language := u16(records[i+4:])
-			if platform != PlatformWindows && (language&0x00FF) != 0x0009 {
+			if platform != PlatformWindows || (language&0x00FF) != 0x0009 {
 				continue // not English or not Windows
 			}
 
-- 
2.43.0


From 7e204296c4ba9000ef2ad89d9983aae577505a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:51 +0000
Subject: [PATCH 088/120] fix: fonts with a version 1 name table get no family
 and style

---
 system.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/system.go b/system.go
index 3db6861..b4807af 100644
--- a/system.go
+++ b/system.go
@@ -549,7 +549,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 	metadata := FontMetadata{}
 	decodeUTF16 := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM).NewDecoder()
-	if version == 0 {
+	if version == 0 || version == 1 {
 		records, err := read(r, 12*int(count))
 		if err != nil {
 			return FontMetadata{}, err
@@ -562,7 +562,7 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 			platform := PlatformID(u16(records[i:]))
 			//encoding := EncodingID(u16(records[i+2:]))
 			language := u16(records[i+4:])
-			if platform != PlatformWindows || (language&0x00FF) != 0x0009 {
+			if platform != PlatformWindows || (language&0x80FF) != 0x0009 {
 				continue // not English or not Windows
 			}
 
@@ -605,8 +605,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 
 		metadata.Family = family
 		metadata.Style = style
-	} else if version == 1 {
-		// TODO
+	} else {
+		return FontMetadata{}, fmt.Errorf("unsupported name table version: %v", version)
 	}
 	return metadata, nil
 }
-- 
2.43.0


From 0a506694380f85494c7d555d8fa1ea70bf2a9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 089/120] fix: preferred family and style names are overridden
 by later plain names

---
 system.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/system.go b/system.go
index b4807af..ecaa3f4 100644
--- a/system.go
+++ b/system.go
@@ -555,8 +555,8 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 			return FontMetadata{}, err
 		}
 
-		found := 0
 		var family, subfamily string
+		var preferredFamily, preferredSubfamily bool
 		for i := 0; i < 12*int(count); i += 12 {
 			// TODO: check platform and encoding?
 			platform := PlatformID(u16(records[i:]))
@@ -581,16 +581,12 @@ func getSFNTMetadata(r io.ReadSeeker) (FontMetadata, error) {
 				if err != nil {
 					return FontMetadata{}, err
 				}
-				if name == NameFontFamily || name == NamePreferredFamily {
+				if name == NamePreferredFamily || name == NameFontFamily && !preferredFamily {
 					family = string(val)
-				} else if name == NameFontSubfamily || name == NamePreferredSubfamily {
+					preferredFamily = name == NamePreferredFamily
+				} else if name == NamePreferredSubfamily || name == NameFontSubfamily && !preferredSubfamily {
 					subfamily = string(val)
-				}
-				if name == NamePreferredFamily || name == NamePreferredSubfamily {
-					found++
-					//if found == 2 {
-					//	break // break early
-					//}
+					preferredSubfamily = name == NamePreferredSubfamily
 				}
 			}
 		}
-- 
2.43.0


From 9fa7224102b4d486ec0273a6f8d5d2795d0c92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:41 +0000
Subject: [PATCH 090/120] fix: AFM values that are negative or fractional are
 not rounded to the nearest integer

---
 afm.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/afm.go b/afm.go
index e6dff80..320f756 100644
--- a/afm.go
+++ b/afm.go
@@ -181,13 +181,13 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
 			case "WX", "WY":
 				f, pos = afmParseNumber(line, pos)
-				charMetrics.Width = uint16(f + 0.5)
+				charMetrics.Width = uint16(int32(math.Round(f)))
 			case "N":
 				name, pos = afmParseString(line, pos)
 			case "B":
 				for k := 0; k < 4; k++ {
 					f, pos = afmParseNumber(line, pos)
-					charMetrics.BBox[k] = int16(f + 0.5)
+					charMetrics.BBox[k] = int16(math.Round(f))
 				}
 			case "L":
 				var successor, ligature string
@@ -339,22 +339,22 @@ Scanner:
 			}
 		case "CapHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.CapHeight = uint16(f + 0.5)
+			afm.CapHeight = uint16(int32(math.Round(f)))
 		case "XHeight":
 			f, _ = afmParseNumber(line, pos)
-			afm.XHeight = uint16(f + 0.5)
+			afm.XHeight = uint16(int32(math.Round(f)))
 		case "Ascender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Ascender = uint16(f + 0.5)
+			afm.Ascender = uint16(int32(math.Round(f)))
 		case "Descender":
 			f, _ = afmParseNumber(line, pos)
-			afm.Descender = uint16(f + 0.5)
+			afm.Descender = uint16(int32(math.Round(f)))
 		case "UnderlinePosition":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlinePosition = uint16(f + 0.5)
+			afm.UnderlinePosition = uint16(int32(math.Round(f)))
 		case "UnderlineThickness":
 			f, _ = afmParseNumber(line, pos)
-			afm.UnderlineThickness = uint16(f + 0.5)
+			afm.UnderlineThickness = uint16(int32(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
 		case "StartCharMetrics":
-- 
2.43.0


From 448cdf7a5322e724c22396197627c08b6f380da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 091/120] fix: the AFM full name, family name and weight lose
 all but their first word

---
 afm.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index 320f756..7889728 100644
--- a/afm.go
+++ b/afm.go
@@ -115,6 +115,10 @@ func afmParseString(b []byte, i int) (string, int) {
 	return string(v), i
 }
 
+func afmParseLine(b []byte, i int) string {
+	return string(bytes.TrimSpace(b[i:]))
+}
+
 func afmParseInteger(b []byte, i int) (int, int) {
 	i = afmSkipWhitespace(b, i)
 	v, n := strconv.ParseInt(b[i:])
@@ -327,11 +331,11 @@ Scanner:
 		case "FontName":
 			afm.FontName, _ = afmParseString(line, pos)
 		case "FullName":
-			afm.FullName, _ = afmParseString(line, pos)
+			afm.FullName = afmParseLine(line, pos)
 		case "FamilyName":
-			afm.FamilyName, _ = afmParseString(line, pos)
+			afm.FamilyName = afmParseLine(line, pos)
 		case "Weight":
-			afm.Weight, _ = afmParseString(line, pos)
+			afm.Weight = afmParseLine(line, pos)
 		case "FontBBox":
 			for k := 0; k < 4; k++ {
 				f, pos = afmParseNumber(line, pos)
-- 
2.43.0


From 3014252472201194206a0d4cd03ae71866dfb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 092/120] fix: AFM files with glyph names outside the Adobe
 glyph list, such as ZapfDingbats, are refused

---
 afm.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/afm.go b/afm.go
index 7889728..7858ca9 100644
--- a/afm.go
+++ b/afm.go
@@ -204,10 +204,9 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		}
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
-		} else if r, ok := glyphList[name]; !ok {
-			return fmt.Errorf("afm: invalid char metrics at line %v: unknown character name: %v", *j, name)
-		} else {
-			afm.names[name] = uint16(i)
+		}
+		afm.names[name] = uint16(i)
+		if r, ok := glyphList[name]; ok {
 			afm.unicode[r] = uint16(i)
 		}
 	}
-- 
2.43.0


From f3cec84f976033341ed79e74394facce8234e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 093/120] fix: the vertical width WY in an AFM file overwrites
 the horizontal advance

---
 afm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index 7858ca9..12de8c2 100644
--- a/afm.go
+++ b/afm.go
@@ -183,7 +183,9 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 			val, pos = afmNextValue(line, pos)
 			switch string(val) {
 			// TODO: W0X, W1X, W0Y, W1Y, W, W0, W1, VV, L
-			case "WX", "WY":
+			case "WY":
+				_, pos = afmParseNumber(line, pos)
+			case "WX":
 				f, pos = afmParseNumber(line, pos)
 				charMetrics.Width = uint16(int32(math.Round(f)))
 			case "N":
-- 
2.43.0


From 74def089de252853ed75420f3953ad3c8876d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:10 +0000
Subject: [PATCH 094/120] fix: the fixed pitch flag and width of AFM files are
 not read

---
 afm.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index 12de8c2..ea92636 100644
--- a/afm.go
+++ b/afm.go
@@ -67,7 +67,7 @@ func (afm *AFM) FindGlyphName(name string) uint16 {
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (afm *AFM) GlyphAdvance(glyphID uint16) uint16 {
-	if afm.IsFixedPitch {
+	if afm.IsFixedPitch && afm.CharWidth[0] != 0 {
 		return afm.CharWidth[0]
 	} else if len(afm.CharMetrics) <= int(glyphID) {
 		return 0
@@ -362,6 +362,15 @@ Scanner:
 			afm.UnderlineThickness = uint16(int32(math.Round(f)))
 		case "ItalicAngle":
 			afm.ItalicAngle, _ = afmParseNumber(line, pos)
+		case "CharWidth":
+			for k := 0; k < 2; k++ {
+				f, pos = afmParseNumber(line, pos)
+				afm.CharWidth[k] = uint16(int32(math.Round(f)))
+			}
+		case "IsFixedPitch":
+			var val string
+			val, _ = afmParseString(line, pos)
+			afm.IsFixedPitch = val == "true"
 		case "StartCharMetrics":
 			n, _ := afmParseInteger(line, pos)
 			if err := afm.parseCharMetrics(scanner, &j, n); err != nil {
-- 
2.43.0


From 99d87c7d03be1aaaa9a2eda9db815282dccde302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:17 +0000
Subject: [PATCH 095/120] fix: errors in the AFM kerning data are ignored and
 the remaining pairs are lost

---
 afm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/afm.go b/afm.go
index ea92636..24cd65b 100644
--- a/afm.go
+++ b/afm.go
@@ -240,13 +240,19 @@ func (afm *AFM) parseKernData(scanner *bufio.Scanner, j *int) error {
 		switch string(key) {
 		case "StartTrackKern":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseTrackKern(scanner, j, n)
+			if err := afm.parseTrackKern(scanner, j, n); err != nil {
+				return err
+			}
 		case "StartKernPairs", "StartKernPairs0":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 0)
+			if err := afm.parseKernPairs(scanner, j, n, 0); err != nil {
+				return err
+			}
 		case "StartKernPairs1":
 			n, _ := afmParseInteger(line, pos)
-			afm.parseKernPairs(scanner, j, n, 1)
+			if err := afm.parseKernPairs(scanner, j, n, 1); err != nil {
+				return err
+			}
 		case "EndKernData":
 			return nil
 		}
-- 
2.43.0


From f1655bd27d8c05fea1a26496cb7ed9ce6ec25d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 096/120] fix: AFM kerning pairs given with both components
 (KP) are dropped

---
 afm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/afm.go b/afm.go
index 24cd65b..b2076d9 100644
--- a/afm.go
+++ b/afm.go
@@ -293,8 +293,8 @@ func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirecti
 
 		key, pos := afmNextValue(line, 0)
 		switch string(key) {
-		// TODO: KP, KPH, KPY
-		case "KPX":
+		// TODO: KPH, KPY
+		case "KPX", "KP":
 			var left, right string
 			var kern float64
 			left, pos = afmParseString(line, pos)
-- 
2.43.0


From 115e79285832925ea01e6231ed3ea70670da214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:33 +0000
Subject: [PATCH 097/120] fix: AFM files with a negative or huge character or
 pair count make parsing panic or exhaust memory

---
 afm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/afm.go b/afm.go
index b2076d9..656ecb5 100644
--- a/afm.go
+++ b/afm.go
@@ -139,6 +139,9 @@ type afmLigature struct {
 
 func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 	var ligatures []afmLigature
+	if n < 0 || math.MaxUint16 < n {
+		return fmt.Errorf("afm: invalid char metrics at line %v: invalid number of characters: %v", *j, n)
+	}
 	afm.CharMetrics = make([]AFMCharMetrics, n)
 	afm.names = make(map[string]uint16, n)
 	afm.unicode = make(map[rune]uint16, n)
@@ -279,7 +282,7 @@ func (afm *AFM) parseTrackKern(scanner *bufio.Scanner, j *int, n int) error {
 
 func (afm *AFM) parseKernPairs(scanner *bufio.Scanner, j *int, n, writingDirection int) error {
 	if afm.KernPairs == nil {
-		afm.KernPairs = make(map[[2]uint16]int16, n)
+		afm.KernPairs = make(map[[2]uint16]int16)
 	}
 	for i := 0; i < n; i++ {
 		*j++
-- 
2.43.0


From b04c7039cfa82d891f2057e5cec604e9794adbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:15 +0000
Subject: [PATCH 098/120] fix: the names of AFM glyphs are not kept, so that
 GlyphName is always empty

---
 afm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/afm.go b/afm.go
index 656ecb5..10d387f 100644
--- a/afm.go
+++ b/afm.go
@@ -210,6 +210,7 @@ func (afm *AFM) parseCharMetrics(scanner *bufio.Scanner, j *int, n int) error {
 		if name == "" {
 			return fmt.Errorf("afm: invalid char metrics at line %v: character name not specified", *j)
 		}
+		charMetrics.Name = name
 		afm.names[name] = uint16(i)
 		if r, ok := glyphList[name]; ok {
 			afm.unicode[r] = uint16(i)
-- 
2.43.0


From f535df3728896af7fedb8ac698e20584be0a649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:47 +0000
Subject: [PATCH 099/120] fix: FromGoFreetype writes padding and a zero
 checksum into the bytes of the source font

---
 font.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/font.go b/font.go
index 8d5bd1f..2b80993 100644
--- a/font.go
+++ b/font.go
@@ -166,6 +166,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	for _, tag := range tags {
 		length := uint32(len(tables[tag]))
 		padding := (4 - length&3) & 3
+		tables[tag] = append([]byte{}, tables[tag]...) // do not modify the source font
 		for j := 0; j < int(padding); j++ {
 			tables[tag] = append(tables[tag], 0x00)
 		}
-- 
2.43.0


From eb5958623a2b164687aa30c3c083cc406b612771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:53 +0000
Subject: [PATCH 100/120] fix: FromGoFreetype keeps vmtx without the vhea table
 it needs, so that the result cannot be parsed

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 2b80993..f360c36 100644
--- a/font.go
+++ b/font.go
@@ -125,7 +125,7 @@ func FromGoFreetype(font *truetype.Font) []byte {
 	tables["name"] = v.FieldByName("name").Bytes()
 	tables["OS/2"] = v.FieldByName("os2").Bytes()
 	tables["prep"] = v.FieldByName("prep").Bytes()
-	tables["vmtx"] = v.FieldByName("vmtx").Bytes()
+	// vmtx is of no use as freetype doesn't keep the vhea table
 
 	// reconstruct missing post table
 	post := parse.NewBinaryWriter([]byte{})
-- 
2.43.0


From f7f3b2550dd45bc72986b9c3e35465cf12b82e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 101/120] fix: FromGoSFNT returns nothing for fonts that were
 opened from a reader

---
 font.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index f360c36..da2c9e5 100644
--- a/font.go
+++ b/font.go
@@ -196,6 +196,17 @@ func FromGoFreetype(font *truetype.Font) []byte {
 // FromGoSFNT parses a structure from sfnt.Font to a valid SFNT byte slice.
 func FromGoSFNT(font *sfnt.Font) []byte {
 	v := reflect.ValueOf(*font)
-	buf := v.FieldByName("src").FieldByName("b").Bytes()
-	return buf
+	if buf := v.FieldByName("src").FieldByName("b").Bytes(); buf != nil {
+		return buf
+	}
+
+	// parsed from an io.ReaderAt, the source is written up to the end of the last table
+	w := &bytes.Buffer{}
+	if _, err := font.WriteSourceTo(nil, w); err != nil {
+		return nil
+	}
+	for w.Len()&3 != 0 {
+		w.WriteByte(0x00)
+	}
+	return w.Bytes()
 }
-- 
2.43.0


From 1a50fd6d5036c37d8b77c3115b4e4d3ed8e25d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:27 +0000
Subject: [PATCH 102/120] fix: fontcmd subset refuses glyph IDs above 32767

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ec2022c..c748931 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -55,11 +55,11 @@ func (cmd *Subset) Run() error {
 	// append glyphs
 	for _, glyph := range cmd.Glyphs {
 		if dash := strings.IndexByte(glyph, '-'); dash != -1 {
-			first, err := strconv.ParseInt(glyph[:dash], 10, 16)
+			first, err := strconv.ParseInt(glyph[:dash], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-			last, err := strconv.ParseInt(glyph[dash+1:], 10, 16)
+			last, err := strconv.ParseInt(glyph[dash+1:], 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
@@ -71,7 +71,7 @@ func (cmd *Subset) Run() error {
 				first++
 			}
 		} else {
-			glyphID, err := strconv.ParseInt(glyph, 10, 16)
+			glyphID, err := strconv.ParseInt(glyph, 10, 32)
 			if err != nil {
 				return fmt.Errorf("invalid glyph ID: %v", err)
 			}
-- 
2.43.0


From 7683faab8c0d3cf17778bb6f8d6e19619d76b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:30 +0000
Subject: [PATCH 103/120] fix: fontcmd subset crashes on a truncated escape
 sequence

---
 cmd/fontcmd/subset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index c748931..ea9cb7b 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -138,7 +138,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+4]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'u':
 					if i+5 < len(runes) {
@@ -149,7 +149,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+6]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				case 'U':
 					if i+9 < len(runes) {
@@ -160,7 +160,7 @@ func (cmd *Subset) Run() error {
 							Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
 						}
 					} else {
-						Warning.Println("invalid escape sequence:", string(runes[i:i+10]))
+						Warning.Println("invalid escape sequence:", string(runes[i:]))
 					}
 				default:
 					Warning.Println("invalid escape sequence:", string(runes[i:i+2]))
-- 
2.43.0


From 0624133937475cea0fabac90c82595d20bc7d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 104/120] fix: fontcmd subset accepts Unicode ranges far beyond
 the last code point and takes forever

---
 cmd/fontcmd/subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index ea9cb7b..332c27e 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -220,7 +220,7 @@ func (cmd *Subset) Run() error {
 			if err != nil {
 				return fmt.Errorf("invalid unicode codepoint: %v", err)
 			}
-			if last < first || first < 0 {
+			if last < first || first < 0 || unicode.MaxRune < last {
 				return fmt.Errorf("invalid unicode range: U+%4X-U+%4X\n", first, last)
 			}
 			for first != last+1 {
-- 
2.43.0


From d57aee0a894637c2b3eb8869aefed2a16a732405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 105/120] fix: fontcmd subset never ends for Unicode ranges
 that contain U+FFFF

---
 cmd/fontcmd/subset.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 332c27e..a789b32 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -258,8 +258,8 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R16 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
-				glyphID := sfnt.GlyphIndex(rune(r))
+			for r := rune(ran.Lo); r <= rune(ran.Hi); r += rune(ran.Stride) {
+				glyphID := sfnt.GlyphIndex(r)
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
 				}
@@ -267,8 +267,8 @@ func (cmd *Subset) Run() error {
 			}
 		}
 		for _, ran := range table.R32 {
-			for r := ran.Lo; r <= ran.Hi; r += ran.Stride {
-				glyphID := sfnt.GlyphIndex(rune(r))
+			for r := rune(ran.Lo); r <= rune(ran.Hi); r += rune(ran.Stride) {
+				glyphID := sfnt.GlyphIndex(r)
 				if glyphID != 0 {
 					glyphMap[glyphID] = true
 				}
-- 
2.43.0


From b674cef67946168de673af1ae1ae18ae44f800b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:38 +0000
Subject: [PATCH 106/120] fix: fontcmd subset ignores an unsupported encoding
 when no output is given

---
 cmd/fontcmd/subset.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index a789b32..b18495e 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -36,7 +36,8 @@ func (cmd *Subset) Run() error {
 
 	if len(cmd.Outputs) == 0 {
 		cmd.Outputs = []string{cmd.Input}
-	} else if cmd.Encoding != "" && cmd.Encoding != "base64" {
+	}
+	if cmd.Encoding != "" && cmd.Encoding != "base64" {
 		return fmt.Errorf("unsupported encoding: %v", cmd.Encoding)
 	}
 
-- 
2.43.0


From b642d5555a597c368859a9e7daddc411a24849c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:41 +0000
Subject: [PATCH 107/120] fix: fontcmd subset cannot keep more than 229 glyphs
 of a CFF font

---
 cmd/fontcmd/subset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index b18495e..9d77608 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -285,7 +285,7 @@ func (cmd *Subset) Run() error {
 	sort.Slice(glyphIDs, func(i, j int) bool { return glyphIDs[i] < glyphIDs[j] })
 
 	// set glyph names
-	if sfnt.IsCFF && cmd.GlyphName == "" {
+	if sfnt.IsCFF && cmd.GlyphName == "" && len(glyphIDs) <= 229 {
 		sfnt.CFF.SetGlyphNames(nil)
 	}
 
-- 
2.43.0


From 450460c1d9fd437042f3a771864aabb7954a5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:44 +0000
Subject: [PATCH 108/120] fix: fontcmd info crashes or prints nonsense for a
 truncated table directory

---
 cmd/fontcmd/info.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/fontcmd/info.go b/cmd/fontcmd/info.go
index fb55e61..718d515 100644
--- a/cmd/fontcmd/info.go
+++ b/cmd/fontcmd/info.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io/ioutil"
 	"math"
@@ -21,6 +22,9 @@ func (cmd *Info) Run() error {
 		return err
 	}
 
+	if len(b) < 12 || string(b[:4]) != "ttcf" && len(b) < 12+16*int(binary.BigEndian.Uint16(b[4:])) {
+		return fmt.Errorf("invalid table directory")
+	}
 	r := parse.NewBinaryReaderBytes(b)
 	sfntVersion := r.ReadString(4)
 	if sfntVersion == "ttcf" {
-- 
2.43.0


From d291e88f916abf6304aea6e37b847c0a59c9e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:50 +0000
Subject: [PATCH 109/120] fix: Subset panics for glyphs that the font does not
 have

---
 sfnt_subset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfnt_subset.go b/sfnt_subset.go
index 2e28ece..4289f78 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -29,6 +29,12 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	for _, glyphID := range glyphIDs {
+		if sfnt.NumGlyphs() <= glyphID {
+			return nil, fmt.Errorf("invalid glyph ID: %v", glyphID)
+		}
+	}
+
 	// don't write to the slice of the caller when adding dependencies
 	glyphIDs = glyphIDs[:len(glyphIDs):len(glyphIDs)]
 
-- 
2.43.0


From 44c9c04b366f93d172779aa7d8b66039119cadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:12 +0000
Subject: [PATCH 110/120] fix: fontcmd subset takes an escaped hyphen such as
 \x2d for a range

---
 cmd/fontcmd/subset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/fontcmd/subset.go b/cmd/fontcmd/subset.go
index 9d77608..74239fb 100644
--- a/cmd/fontcmd/subset.go
+++ b/cmd/fontcmd/subset.go
@@ -133,6 +133,7 @@ func (cmd *Subset) Run() error {
 				case 'x':
 					if i+3 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+4]); ok {
+							escaped = true
 							r = rune(h)
 							i += 3
 						} else {
@@ -144,6 +145,7 @@ func (cmd *Subset) Run() error {
 				case 'u':
 					if i+5 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+6]); ok {
+							escaped = true
 							r = rune(h)
 							i += 5
 						} else {
@@ -155,6 +157,7 @@ func (cmd *Subset) Run() error {
 				case 'U':
 					if i+9 < len(runes) {
 						if h, ok := parseHexRunes(runes[i+2 : i+10]); ok {
+							escaped = true
 							r = rune(h)
 							i += 9
 						} else {
-- 
2.43.0


From f70d6ab56e6fd0c0647d9f7d4549ad351ac7c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:44 +0000
Subject: [PATCH 111/120] fix: parsing panics for a truncated cmap, a cmap
 subtable that runs past the table or a maxp table of a few bytes, and hangs
 for a format 12 subtable ending at 0xFFFFFFFF

---
 sfnt.go      | 4 ++++
 sfnt_cmap.go | 9 +++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index d8736b5..5e47921 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -866,6 +866,10 @@ func (sfnt *SFNT) parseMaxp() error {
 		return fmt.Errorf("maxp: missing table")
 	}
 
+	if len(b) < 6 {
+		return fmt.Errorf("maxp: bad table")
+	}
+
 	sfnt.Maxp = &maxpTable{}
 	r := parse.NewBinaryReaderBytes(b)
 	sfnt.Maxp.Version = binary.BigEndian.Uint32(r.ReadBytes(4))
diff --git a/sfnt_cmap.go b/sfnt_cmap.go
index af3dba5..1d2526e 100644
--- a/sfnt_cmap.go
+++ b/sfnt_cmap.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"sort"
 	"sync"
+	"unicode"
 
 	"github.com/tdewolff/parse/v2"
 )
@@ -435,11 +436,11 @@ func (sfnt *SFNT) parseCmap() error {
 		subtableID := -1
 
 		offset := r.ReadUint32()
-		if uint32(len(b))-8 < offset { // to extract the subtable format and length
+		if len(b) < 8 || uint32(len(b))-8 < offset { // to extract the subtable format and length
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
-			if offsets[i] < offset && offset < lengths[i] {
+			if offsets[i] < offset && offset < offsets[i]+lengths[i] {
 				return fmt.Errorf("cmap: bad subtable %d", j)
 			}
 		}
@@ -458,7 +459,7 @@ func (sfnt *SFNT) parseCmap() error {
 		} else {
 			return fmt.Errorf("cmap: bad format %d for subtable %d", format, j)
 		}
-		if length < 8 || math.MaxUint32-offset < length {
+		if length < 8 || uint32(len(b))-offset < length {
 			return fmt.Errorf("cmap: bad subtable %d", j)
 		}
 		for i := 0; i < len(offsets); i++ {
@@ -615,7 +616,7 @@ func (sfnt *SFNT) parseCmap() error {
 					startCharCode := rs.ReadUint32()
 					endCharCode := rs.ReadUint32()
 					startGlyphID := rs.ReadUint32()
-					if endCharCode < startCharCode || 0 < i && startCharCode <= subtable.EndCharCode[i-1] {
+					if unicode.MaxRune < endCharCode || endCharCode < startCharCode || 0 < i && startCharCode <= subtable.EndCharCode[i-1] {
 						return fmt.Errorf("cmap: bad character code range in subtable %d", j)
 					} else if uint32(sfnt.Maxp.NumGlyphs) <= endCharCode-startCharCode || uint32(sfnt.Maxp.NumGlyphs)-(endCharCode-startCharCode) <= startGlyphID {
 						return fmt.Errorf("cmap: bad glyphID in subtable %d", j)
-- 
2.43.0


From 005ce398f2bc603bb1e9f393fc850d0943a51861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:17 +0000
Subject: [PATCH 112/120] fix: drawing or subsetting nested composite glyphs
 takes exponential time and memory, and panics for more than 65536 points or
 truncated instructions

---
 sfnt_truetype.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 157cc3f..33b1731 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -63,6 +63,9 @@ func (contour *glyfContour) String() string {
 	return b.String()
 }
 
+// maxGlyphComponents is the maximum number of components of a glyph, counting those of nested composite glyphs.
+const maxGlyphComponents = 65535
+
 type glyfTable struct {
 	data []byte
 	loca *locaTable
@@ -91,10 +94,14 @@ func (glyf *glyfTable) IsComposite(glyphID uint16) bool {
 
 // Dependencies returns all the glyph IDs that a composite glyph uses.
 func (glyf *glyfTable) Dependencies(glyphID uint16) ([]uint16, error) {
-	return glyf.dependencies(glyphID, 0)
+	components := 0
+	return glyf.dependencies(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error) {
+func (glyf *glyfTable) dependencies(glyphID uint16, level int, components *int) ([]uint16, error) {
+	if *components++; maxGlyphComponents < *components {
+		return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+	}
 	deps := []uint16{glyphID}
 	b := glyf.Get(glyphID)
 	if b == nil {
@@ -121,7 +128,7 @@ func (glyf *glyfTable) dependencies(glyphID uint16, level int) ([]uint16, error)
 
 			flags := r.ReadUint16()
 			subGlyphID := r.ReadUint16()
-			subDeps, err := glyf.dependencies(subGlyphID, level+1)
+			subDeps, err := glyf.dependencies(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
 			}
@@ -159,10 +166,14 @@ func glyfCompositeLength(flags uint16) (length uint32, more bool) {
 // Contour returns the contours of a glyph. It unpacks composite glyphs into their final shape.
 func (glyf *glyfTable) Contour(glyphID uint16) (*glyfContour, error) {
 	// TODO: cache output
-	return glyf.contour(glyphID, 0)
+	components := 0
+	return glyf.contour(glyphID, 0, &components)
 }
 
-func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error) {
+func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*glyfContour, error) {
+	if *components++; maxGlyphComponents < *components {
+		return nil, fmt.Errorf("glyf: too many components for glyphID %v", glyphID)
+	}
 	b := glyf.Get(glyphID)
 	if b == nil {
 		return nil, fmt.Errorf("glyf: bad glyphID %v", glyphID)
@@ -331,9 +342,11 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 				hasInstructions = true
 			}
 
-			subContour, err := glyf.contour(subGlyphID, level+1)
+			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
+			} else if math.MaxUint16 < len(contour.XCoordinates)+len(subContour.XCoordinates) {
+				return nil, fmt.Errorf("glyf: too many points for glyphID %v", glyphID)
 			}
 
 			var numPoints uint16
@@ -362,6 +375,9 @@ func (glyf *glyfTable) contour(glyphID uint16, level int) (*glyfContour, error)
 			}
 		}
 		if hasInstructions {
+			if r.Len() < 2 {
+				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
+			}
 			instructionLength := r.ReadUint16()
 			if r.Len() < int64(instructionLength) {
 				return nil, fmt.Errorf("glyf: bad table for glyphID %v", glyphID)
-- 
2.43.0


From 24cdcad409a247a10cc90e79d981f5194de42aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:41 +0000
Subject: [PATCH 113/120] fix: drawing nested composite glyphs with many empty
 contours takes exponential memory

---
 sfnt_truetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_truetype.go b/sfnt_truetype.go
index 33b1731..611d6af 100644
--- a/sfnt_truetype.go
+++ b/sfnt_truetype.go
@@ -345,7 +345,7 @@ func (glyf *glyfTable) contour(glyphID uint16, level int, components *int) (*gly
 			subContour, err := glyf.contour(subGlyphID, level+1, components)
 			if err != nil {
 				return nil, err
-			} else if math.MaxUint16 < len(contour.XCoordinates)+len(subContour.XCoordinates) {
+			} else if math.MaxUint16 < len(contour.XCoordinates)+len(subContour.XCoordinates) || math.MaxUint16 < len(contour.EndPoints)+len(subContour.EndPoints) {
 				return nil, fmt.Errorf("glyf: too many points for glyphID %v", glyphID)
 			}
 
-- 
2.43.0


From 7ad8199f23e93c2d188ea07ffb82803d91354a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:19 +0000
Subject: [PATCH 114/120] fix: parsing and drawing CFF fonts panics, hangs or
 takes exponential time or memory for truncated data, bad INDEX or DICT
 offsets, nested subroutines and shared strings or subroutines

---
 sfnt_cff.go | 101 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 31 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index c0d97e2..e3e59e5 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -33,7 +33,7 @@ func (sfnt *SFNT) parseCFF() error {
 		return fmt.Errorf("CFF: missing table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	major := r.ReadUint8()
 	minor := r.ReadUint8()
 	if major != 1 || minor != 0 {
@@ -112,10 +112,20 @@ func (sfnt *SFNT) parseCFF() error {
 		copy(charset, cffStandardStrings)
 	} else if 1 < charStringsINDEX.Len() {
 		r.Seek(int64(topDICT.Charset), 0)
-		if r.Len() == 0 {
+		if r.Err() != nil || r.Len() == 0 {
 			return fmt.Errorf("CFF: bad Charset")
 		}
 
+		names := map[int]string{}
+		getSID := func(sid int) string {
+			name, ok := names[sid]
+			if !ok {
+				name = stringINDEX.GetSID(sid)
+				names[sid] = name
+			}
+			return name
+		}
+
 		numGlyphs := charStringsINDEX.Len()
 		charset = make([]string, numGlyphs)
 		charset[0] = ".notdef"
@@ -128,7 +138,7 @@ func (sfnt *SFNT) parseCFF() error {
 			}
 			for i := 1; i < numGlyphs; i++ {
 				sid := r.ReadUint16()
-				charset[i] = stringINDEX.GetSID(int(sid))
+				charset[i] = getSID(int(sid))
 			}
 		case 1, 2:
 			for i := 1; i < numGlyphs; i++ {
@@ -146,7 +156,7 @@ func (sfnt *SFNT) parseCFF() error {
 					return fmt.Errorf("CFF: bad Charset format %d", format)
 				}
 				for j := 0; j < nLeft+1; j++ {
-					charset[i+j] = stringINDEX.GetSID(first + j)
+					charset[i+j] = getSID(first + j)
 				}
 				i += nLeft
 			}
@@ -168,7 +178,7 @@ func (sfnt *SFNT) parseCFF() error {
 	}
 
 	if !topDICT.IsCID {
-		if len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
+		if topDICT.PrivateOffset < 0 || topDICT.PrivateLength < 0 || len(b) < topDICT.PrivateOffset || len(b)-topDICT.PrivateOffset < topDICT.PrivateLength {
 			return fmt.Errorf("CFF: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[topDICT.PrivateOffset:topDICT.PrivateOffset+topDICT.PrivateLength], false)
@@ -212,7 +222,7 @@ func (sfnt *SFNT) parseCFF2() error {
 		return fmt.Errorf("CFF2: missing table")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	major := r.ReadUint8()
 	minor := r.ReadUint8()
 	if major != 2 || minor != 0 {
@@ -342,7 +352,7 @@ const (
 	cff2Blend   int32 = 16
 )
 
-func cffReadCharStringNumber(r *parse.BinaryReader, b0 int32) int32 {
+func cffReadCharStringNumber(r *binaryReader, b0 int32) int32 {
 	var v int32
 	if b0 == 28 {
 		v = int32(r.ReadInt16()) << 16
@@ -397,9 +407,12 @@ func (cff *cffTable) getSubroutine(glyphID uint16, b0 int32, stack int32) (int32
 	return index, subr, nil
 }
 
+// maxCharStringOperators is the maximum number of operators of a glyph, counting those of called subroutines.
+const maxCharStringOperators = 1 << 18
+
 // parseCharString calls back for each operator, with the reader positioned after the operator, the operands, and the position
 // in the reader of the last operand (or -1 if it doesn't directly precede the operator).
-func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader, int32, []int32, int64) error) error {
+func (cff *cffTable) parseCharString(glyphID uint16, cb func(*binaryReader, int32, []int32, int64) error) error {
 	table := "CFF"
 	if cff.version == 2 {
 		table = "CFF2"
@@ -412,13 +425,14 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 		return fmt.Errorf("%v: charstring too long", table)
 	}
 
-	callStack := []*parse.BinaryReader{}
-	r := parse.NewBinaryReaderBytes(charString)
+	callStack := []*binaryReader{}
+	r := newBinaryReader(charString)
 
 	hints := 0
 	stack := []int32{}
 	beforeMoveto := true
 	lastOperand := int64(-1)
+	operators := 0
 	for {
 		if cff.version == 2 && r.Len() == 0 && 0 < len(callStack) {
 			// end of subroutine
@@ -438,6 +452,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 			}
 			stack = append(stack, v)
 		} else {
+			if operators++; maxCharStringOperators < operators {
+				return fmt.Errorf("%v: too many operators", table)
+			}
 			if b0 == cffEscape {
 				b0 = 256 + int32(r.ReadUint8())
 			}
@@ -517,7 +534,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*parse.BinaryReader
 				stack = stack[:len(stack)-1]
 
 				callStack = append(callStack, r)
-				r = parse.NewBinaryReaderBytes(subr)
+				r = newBinaryReader(subr)
 			case cffReturn:
 				if cff.version == 2 {
 					return fmt.Errorf("%v: unsupported operator %d", table, b0)
@@ -562,7 +579,7 @@ func (cff *cffTable) ToPath(p Pather, glyphID, ppem uint16, x0, y0, f float64, h
 	var x, y int32
 	f /= float64(1 << 16) // correct back
 
-	err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
+	err := cff.parseCharString(glyphID, func(_ *binaryReader, b0 int32, stack []int32, _ int64) error {
 		switch b0 {
 		case cffRmoveto:
 			if len(stack) != 2 {
@@ -894,7 +911,7 @@ func (cff *cffTable) updateSubrs(localSubrsMap, globalSubrsMap map[int32]int32,
 		skipDepth := 0
 		indexStack = append(indexStack[:0], cff.charStrings)
 		offsetStack = append(offsetStack[:0], cff.charStrings.offset[glyphID])
-		err := cff.parseCharString(glyphID, func(r *parse.BinaryReader, b0 int32, stack []int32, lastOperand int64) error {
+		err := cff.parseCharString(glyphID, func(r *binaryReader, b0 int32, stack []int32, lastOperand int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if len(stack) == 0 {
 					return ErrBadNumOperands
@@ -1062,7 +1079,7 @@ func (cff *cffTable) ReindexSubrs() error {
 	globalSubrsData := map[int32][]byte{}
 	globalSubrsCount := map[int32]int{}
 	for glyphID := uint16(0); glyphID < numGlyphs; glyphID++ {
-		err := cff.parseCharString(glyphID, func(_ *parse.BinaryReader, b0 int32, stack []int32, _ int64) error {
+		err := cff.parseCharString(glyphID, func(_ *binaryReader, b0 int32, stack []int32, _ int64) error {
 			if b0 == cffCallsubr || b0 == cffCallgsubr {
 				if 0 < skipDepth {
 					// don't process subroutines twice
@@ -1165,7 +1182,9 @@ func (t *cffINDEX) Get(i uint16) []byte {
 
 func (t *cffINDEX) GetSID(sid int) string {
 	// only for String INDEX
-	if sid < len(cffStandardStrings) {
+	if sid < 0 {
+		return ""
+	} else if sid < len(cffStandardStrings) {
 		return cffStandardStrings[sid]
 	}
 	sid -= len(cffStandardStrings)
@@ -1220,7 +1239,7 @@ func (t *cffINDEX) Extend(o *cffINDEX) {
 	t.data = append(t.data[:len(t.data):len(t.data)], o.data...)
 }
 
-func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
+func parseINDEX(r *binaryReader, isCFF2 bool) (*cffINDEX, error) {
 	t := &cffINDEX{}
 	var count uint32
 	if !isCFF2 {
@@ -1228,7 +1247,9 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 	} else {
 		count = r.ReadUint32()
 	}
-	if count == 0 {
+	if r.Err() != nil {
+		return nil, fmt.Errorf("bad data")
+	} else if count == 0 {
 		// empty
 		return t, nil
 	} else if 1e6 < count {
@@ -1261,6 +1282,11 @@ func parseINDEX(r *parse.BinaryReader, isCFF2 bool) (*cffINDEX, error) {
 			t.offset[i] = r.ReadUint32() - 1
 		}
 	}
+	for i := uint32(0); i < count; i++ {
+		if t.offset[i+1] < t.offset[i] {
+			return nil, fmt.Errorf("bad offsets")
+		}
+	}
 	if r.Len() < int64(t.offset[count]) {
 		return nil, fmt.Errorf("bad data")
 	}
@@ -1742,7 +1768,7 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 		256 + 13: -1,
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	ints := []int{}
 	reals := []float64{}
 	for 0 < r.Len() {
@@ -1792,7 +1818,7 @@ func parseDICT(b []byte, isCFF2 bool, callback func(b0 int, is []int, fs []float
 	return nil
 }
 
-func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
+func parseDICTNumber(b0 int, r *binaryReader) (int, float64) {
 	if b0 < 28 {
 		// operator
 		return 0, math.NaN()
@@ -1804,6 +1830,9 @@ func parseDICTNumber(b0 int, r *parse.BinaryReader) (int, float64) {
 		num := []byte{}
 		for {
 			b := r.ReadUint8()
+			if r.Err() != nil {
+				return 0, math.NaN()
+			}
 			for i := 0; i < 2; i++ {
 				switch b >> 4 {
 				case 0x0A:
@@ -1991,7 +2020,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 			return 0, false
 		}
 		return uint16(t.fds[glyphID]), true
-	} else if len(t.first) == 0 || t.first[len(t.first)-1] <= glyphID {
+	} else if len(t.first) < 2 || t.first[len(t.first)-1] <= glyphID {
 		return 0, false
 	}
 
@@ -1999,7 +2028,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 	for t.first[i+1] <= glyphID {
 		i++
 	}
-	if len(t.fd) < i {
+	if len(t.fd) <= i {
 		return 0, false
 	}
 	return t.fd[i], true
@@ -2008,7 +2037,7 @@ func (t *cffFontINDEX) Index(glyphID uint32) (uint16, bool) {
 // GetPrivate returns the Private DICT for the glyph's font, or nil if the font has none.
 func (t *cffFontINDEX) GetPrivate(glyphID uint16) *cffPrivateDICT {
 	i, ok := t.Index(uint32(glyphID))
-	if !ok {
+	if !ok || len(t.private) <= int(i) {
 		return nil
 	}
 	return t.private[i]
@@ -2017,7 +2046,7 @@ func (t *cffFontINDEX) GetPrivate(glyphID uint16) *cffPrivateDICT {
 // GetLocalSubrs returns the LocalSubrs INDEX for the glyph's font, or nil if the font has none.
 func (t *cffFontINDEX) GetLocalSubrs(glyphID uint16) *cffINDEX {
 	i, ok := t.Index(uint32(glyphID))
-	if !ok {
+	if !ok || len(t.localSubrs) <= int(i) {
 		return nil
 	}
 	return t.localSubrs[i]
@@ -2028,22 +2057,25 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 		return nil, fmt.Errorf("bad Font INDEX offset")
 	}
 
-	r := parse.NewBinaryReaderBytes(b)
+	r := newBinaryReader(b)
 	r.Seek(int64(fdArray), 0)
 	fontINDEX, err := parseINDEX(r, false)
 	if err != nil {
 		return nil, fmt.Errorf("Font INDEX: %w", err)
+	} else if !isCFF2 && 256 < fontINDEX.Len() {
+		return nil, fmt.Errorf("Font INDEX: too many fonts")
 	}
 
 	fonts := &cffFontINDEX{}
 	fonts.private = make([]*cffPrivateDICT, fontINDEX.Len())
 	fonts.localSubrs = make([]*cffINDEX, fontINDEX.Len())
+	localSubrs := map[int]*cffINDEX{} // fonts may share their subroutines
 	for i := 0; i < fontINDEX.Len(); i++ {
 		fontDICT, err := parseFontDICT(fontINDEX.Get(uint16(i)), isCFF2)
 		if err != nil {
 			return nil, fmt.Errorf("Font DICT: %w", err)
 		}
-		if len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
+		if fontDICT.PrivateOffset < 0 || fontDICT.PrivateLength < 0 || len(b) < fontDICT.PrivateOffset || len(b)-fontDICT.PrivateOffset < fontDICT.PrivateLength {
 			return nil, fmt.Errorf("Font DICT: bad Private DICT offset")
 		}
 		privateDICT, err := parsePrivateDICT(b[fontDICT.PrivateOffset:fontDICT.PrivateOffset+fontDICT.PrivateLength], isCFF2)
@@ -2056,11 +2088,15 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			if len(b)-fontDICT.PrivateOffset < privateDICT.Subrs {
 				return nil, fmt.Errorf("bad Local Subrs INDEX offset")
 			}
-			r.Seek(int64(fontDICT.PrivateOffset+privateDICT.Subrs), 0)
-			fonts.localSubrs[i], err = parseINDEX(r, isCFF2)
-			if err != nil {
-				return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
+			offset := fontDICT.PrivateOffset + privateDICT.Subrs
+			if _, ok := localSubrs[offset]; !ok {
+				r.Seek(int64(offset), 0)
+				localSubrs[offset], err = parseINDEX(r, isCFF2)
+				if err != nil {
+					return nil, fmt.Errorf("Local Subrs INDEX: %w", err)
+				}
 			}
+			fonts.localSubrs[i] = localSubrs[offset]
 		} else if isCFF2 {
 			return nil, fmt.Errorf("Private DICT must have Local Subrs INDEX offset")
 		}
@@ -2074,10 +2110,10 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 			fonts.fds[i] = r.ReadUint8()
 		}
 	} else if format == 3 {
-		nRanges := r.ReadUint16()
+		nRanges := int(r.ReadUint16())
 		fonts.first = make([]uint32, nRanges+1)
 		fonts.fd = make([]uint16, nRanges)
-		for i := 0; i < int(nRanges); i++ {
+		for i := 0; i < nRanges; i++ {
 			fonts.first[i] = uint32(r.ReadUint16())
 			fonts.fd[i] = uint16(r.ReadUint8())
 		}
@@ -2094,6 +2130,9 @@ func parseFontINDEX(b []byte, fdArray, fdSelect, nGlyphs int, isCFF2 bool) (*cff
 	} else {
 		return nil, fmt.Errorf("FDSelect: bad format")
 	}
+	if r.Err() != nil {
+		return nil, fmt.Errorf("FDSelect: bad data")
+	}
 	return fonts, nil
 }
 
-- 
2.43.0


From adfdcf38885b61bb097e509ab41adb4301311a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:39 +0000
Subject: [PATCH 115/120] fix: parsing or drawing CFF fonts panics for a
 truncated 32-bit number

---
 util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util.go b/util.go
index d8f6790..3f4d82a 100644
--- a/util.go
+++ b/util.go
@@ -133,3 +133,8 @@ func (r *binaryReader) ReadUint32() uint32 {
 func (r *binaryReader) ReadInt16() int16 {
 	return int16(r.ReadUint16())
 }
+
+// ReadInt32 reads a int32.
+func (r *binaryReader) ReadInt32() int32 {
+	return int32(r.ReadUint32())
+}
-- 
2.43.0


From 365bd8218d1c09092577810bb12c6879e3287a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:47 +0000
Subject: [PATCH 116/120] fix: bearings of glyphs that the font does not have
 and metrics of embedded CFF fonts panic

---
 sfnt.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 5e47921..62b131e 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -149,6 +149,9 @@ func (sfnt *SFNT) FindGlyphName(name string) uint16 {
 func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 	// see https://learn.microsoft.com/en-us/typography/opentype/spec/recom#baseline-to-baseline-distances
 	var ascender, descender, lineGap uint16
+	if sfnt.Hhea == nil {
+		return 0, 0, 0
+	}
 	if 0 < sfnt.Hhea.Ascender {
 		ascender = uint16(sfnt.Hhea.Ascender)
 	}
@@ -198,13 +201,16 @@ func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64,
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
 func (sfnt *SFNT) GlyphAdvance(glyphID uint16) uint16 {
+	if sfnt.Hmtx == nil {
+		return 0
+	}
 	return sfnt.Hmtx.Advance(glyphID)
 }
 
 // GlyphVerticalAdvance returns the vertical advance width of the glyph.
 func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 	if sfnt.Vmtx == nil {
-		return sfnt.Head.UnitsPerEm
+		return sfnt.UnitsPerEm()
 	}
 	return sfnt.Vmtx.Advance(glyphID)
 }
@@ -738,7 +744,10 @@ type hmtxTable struct {
 
 func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
 	if uint16(len(hmtx.HMetrics)) <= glyphID {
-		return hmtx.LeftSideBearings[glyphID-uint16(len(hmtx.HMetrics))]
+		if i := int(glyphID) - len(hmtx.HMetrics); i < len(hmtx.LeftSideBearings) {
+			return hmtx.LeftSideBearings[i]
+		}
+		return 0
 	}
 	return hmtx.HMetrics[glyphID].LeftSideBearing
 }
@@ -796,7 +805,10 @@ type vmtxTable struct {
 
 func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
 	if uint16(len(vmtx.VMetrics)) <= glyphID {
-		return vmtx.TopSideBearings[glyphID-uint16(len(vmtx.VMetrics))]
+		if i := int(glyphID) - len(vmtx.VMetrics); i < len(vmtx.TopSideBearings) {
+			return vmtx.TopSideBearings[i]
+		}
+		return 0
 	}
 	return vmtx.VMetrics[glyphID].TopSideBearing
 }
-- 
2.43.0


From c14a8a93c46c4610ecee95be4f2c34fcb99eefea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:35 +0000
Subject: [PATCH 117/120] fix: drawing panics for a CFF glyph starting with
 hmoveto or vmoveto without operands

---
 sfnt_cff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index e3e59e5..4d01426 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -466,7 +466,7 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*binaryReader, int3
 					if b0 == cffHmoveto || b0 == cffVmoveto {
 						hasWidth = !hasWidth
 					}
-					if hasWidth {
+					if hasWidth && 0 < len(stack) {
 						stack = stack[1:]
 					}
 					if b0 == cffRmoveto || b0 == cffHmoveto || b0 == cffVmoveto {
-- 
2.43.0


From 781c65665cbca46fd53ae02a0cd32689ee21b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 118/120] fix: subsetting or merging embedded CFF fonts, fonts
 without glyphs, or fonts with bad charstrings panics

---
 sfnt_cff.go    |  9 ++++++---
 sfnt_merge.go  |  6 ++++++
 sfnt_subset.go | 48 +++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/sfnt_cff.go b/sfnt_cff.go
index 4d01426..aa76154 100644
--- a/sfnt_cff.go
+++ b/sfnt_cff.go
@@ -480,6 +480,9 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*binaryReader, int3
 				return fmt.Errorf("%v: unexpected operator %d after moveto", table, b0)
 			}
 
+			if b0 == cffReturn && len(callStack) == 0 {
+				return fmt.Errorf("%v: bad return", table)
+			}
 			if err := cb(r, b0, stack, lastOperand); err != nil {
 				return fmt.Errorf("%v: %v", table, err)
 			}
@@ -538,8 +541,6 @@ func (cff *cffTable) parseCharString(glyphID uint16, cb func(*binaryReader, int3
 			case cffReturn:
 				if cff.version == 2 {
 					return fmt.Errorf("%v: unsupported operator %d", table, b0)
-				} else if len(callStack) == 0 {
-					return fmt.Errorf("%v: bad return", table)
 				}
 				r = callStack[len(callStack)-1]
 				callStack = callStack[:len(callStack)-1]
@@ -2170,7 +2171,9 @@ func (cff *cffTable) Write() ([]byte, error) {
 
 	var charset *parse.BinaryWriter
 	numGlyphs := cff.charStrings.Len()
-	if cff.charset != nil {
+	if numGlyphs == 0 {
+		return nil, fmt.Errorf("must contain at least one glyph")
+	} else if cff.charset != nil {
 		// TODO: reorder entries in charString sequentially to make this smaller
 		if len(cff.charset) != numGlyphs {
 			return nil, fmt.Errorf("charset length must match number of glyphs")
diff --git a/sfnt_merge.go b/sfnt_merge.go
index f6741a5..ec3ff73 100644
--- a/sfnt_merge.go
+++ b/sfnt_merge.go
@@ -128,6 +128,12 @@ func (sfnt *SFNT) Merge(sfnt2 *SFNT, options MergeOptions) error {
 			loca: sfnt.Loca,
 		}
 	} else if _, ok := sfnt.Tables["CFF "]; ok && sfnt.IsCFF {
+		if sfnt.CFF == nil || sfnt2.CFF == nil {
+			return fmt.Errorf("CFF table missing")
+		} else if sfnt.CFF.charStrings.Len() != int(origNumGlyphs) || sfnt2.CFF.charStrings.Len() != int(sfnt2.NumGlyphs()) {
+			return fmt.Errorf("CFF: number of glyphs doesn't match the maxp table")
+		}
+
 		// merge subroutines, copy to keep the originals untouched
 		localSubrs, localSubrs2 := &cffINDEX{}, &cffINDEX{}
 		globalSubrs, globalSubrs2 := &cffINDEX{}, &cffINDEX{}
diff --git a/sfnt_subset.go b/sfnt_subset.go
index 4289f78..43143a0 100644
--- a/sfnt_subset.go
+++ b/sfnt_subset.go
@@ -29,6 +29,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		}
 	}
 
+	if sfnt.Maxp == nil {
+		return nil, fmt.Errorf("maxp: missing table")
+	}
 	for _, glyphID := range glyphIDs {
 		if sfnt.NumGlyphs() <= glyphID {
 			return nil, fmt.Errorf("invalid glyph ID: %v", glyphID)
@@ -44,7 +47,7 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		glyphMap[glyphID] = uint16(subsetGlyphID)
 	}
 
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		// add dependencies for composite glyphs add the end
 		origLen := len(glyphIDs)
 		for i := 0; i < origLen; i++ {
@@ -111,13 +114,22 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 		return strings.ToLower(tags[i]) < strings.ToLower(tags[j])
 	})
 
+	// tables that are rewritten must have been parsed, which is not the case for all tables of embedded fonts
+	for _, tag := range tags {
+		if _, ok := sfnt.Tables[tag]; ok && !sfnt.isParsed(tag) {
+			return nil, fmt.Errorf("%s: table is not parsed", tag)
+		}
+	}
+
 	// preliminary calculations
 	indexToLocFormat := int16(1)                   // for head and loca
 	glyfOffsets := make([]uint32, len(glyphIDs)+1) // for loca
 	ulUnicodeRange := [4]uint32{0, 0, 0, 0}        // for OS/2
 	advances := make([]uint16, len(glyphIDs))      // for hhea and hmtx
-	for subsetGlyphID, glyphID := range glyphIDs {
-		advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+	if sfnt.Hmtx != nil {
+		for subsetGlyphID, glyphID := range glyphIDs {
+			advances[subsetGlyphID] = sfnt.Hmtx.Advance(glyphID)
+		}
 	}
 
 	// https://learn.microsoft.com/en-us/typography/opentype/spec/recom#hmtx-table
@@ -210,6 +222,9 @@ func (sfnt *SFNT) Subset(glyphIDs []uint16, options SubsetOptions) (*SFNT, error
 			if cff.charset != nil {
 				charset := make([]string, len(glyphIDs))
 				for i, glyphID := range glyphIDs {
+					if len(cff.charset) <= int(glyphID) {
+						return nil, fmt.Errorf("CFF: missing name for glyph %v", glyphID)
+					}
 					charset[i] = cff.charset[glyphID]
 				}
 				cff.charset = charset
@@ -637,6 +652,33 @@ func (sfnt *SFNT) SetGlyphNames(names []string) error {
 	return nil
 }
 
+// isParsed returns false if the table needs to be parsed in order to subset it, but has not been parsed.
+func (sfnt *SFNT) isParsed(tag string) bool {
+	switch tag {
+	case "cmap":
+		return sfnt.Cmap != nil
+	case "CFF ":
+		return sfnt.CFF != nil
+	case "glyf":
+		return sfnt.Glyf != nil
+	case "head":
+		return sfnt.Head != nil
+	case "hhea":
+		return sfnt.Hhea != nil
+	case "hmtx":
+		return sfnt.Hmtx != nil
+	case "kern":
+		return sfnt.Kern != nil
+	case "maxp":
+		return 6 <= len(sfnt.Tables[tag])
+	case "OS/2":
+		return sfnt.OS2 != nil
+	case "post":
+		return sfnt.Post != nil
+	}
+	return true
+}
+
 // updateLength sets the length of the font as written after its tables have changed.
 func (sfnt *SFNT) updateLength() {
 	sfnt.Length = 12
-- 
2.43.0


From f31a7b2277e502d53a970632e237cce19ab99a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 119/120] fix: drawing or measuring glyphs of a subset without
 glyph or metrics tables panics, checksum of fonts with a truncated head table
 is wrong

---
 sfnt.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sfnt.go b/sfnt.go
index 62b131e..72cd2ab 100644
--- a/sfnt.go
+++ b/sfnt.go
@@ -191,12 +191,12 @@ func (sfnt *SFNT) VerticalMetrics() (uint16, uint16, uint16) {
 
 // GlyphPath draws the glyph's contour as a path to the pather interface. It will use the specified ppem (pixels-per-EM) for hinting purposes. The path is draws to the (x,y) coordinate and scaled using the given scale factor.
 func (sfnt *SFNT) GlyphPath(p Pather, glyphID, ppem uint16, x, y, scale float64, hinting Hinting) error {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		return sfnt.Glyf.ToPath(p, glyphID, ppem, x, y, scale, hinting)
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		return sfnt.CFF.ToPath(p, glyphID, ppem, x, y, scale, hinting)
 	}
-	return fmt.Errorf("only TrueType and CFF are supported")
+	return fmt.Errorf("only TrueType and CFF are supported, or glyf or CFF table is missing")
 }
 
 // GlyphAdvance returns the (horizontal) advance width of the glyph.
@@ -217,12 +217,12 @@ func (sfnt *SFNT) GlyphVerticalAdvance(glyphID uint16) uint16 {
 
 // GlyphBounds returns the bounding rectangle (xmin,ymin,xmax,ymax) of the glyph.
 func (sfnt *SFNT) GlyphBounds(glyphID uint16) (int16, int16, int16, int16) {
-	if sfnt.IsTrueType {
+	if sfnt.IsTrueType && sfnt.Glyf != nil {
 		contour, err := sfnt.Glyf.Contour(glyphID)
 		if err == nil {
 			return contour.XMin, contour.YMin, contour.XMax, contour.YMax
 		}
-	} else if sfnt.IsCFF {
+	} else if sfnt.IsCFF && sfnt.CFF != nil {
 		p := &bboxPather{}
 		if err := sfnt.CFF.ToPath(p, glyphID, 0, 0, 0, 1.0, NoHinting); err == nil {
 			return p.Bounds()
@@ -519,13 +519,17 @@ func (sfnt *SFNT) Write() []byte {
 	for i, tag := range tags {
 		offsets[i] = uint32(w.Len())
 		table := sfnt.Tables[tag]
-		if tag == "head" && 36 <= len(table) {
+		if tag == "head" && 12 <= len(table) {
 			checksumAdjustmentPos = uint32(w.Len()) + 8
 			w.WriteBytes(table[:8])
 			w.WriteUint32(0)
-			w.WriteBytes(table[12:28])
-			w.WriteInt64(int64(time.Now().UTC().Sub(time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)) / 1e9)) // modified
-			w.WriteBytes(table[36:])
+			if 36 <= len(table) { // may be truncated for embedded CFF fonts
+				w.WriteBytes(table[12:28])
+				w.WriteInt64(int64(time.Now().UTC().Sub(time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC)) / 1e9)) // modified
+				w.WriteBytes(table[36:])
+			} else {
+				w.WriteBytes(table[12:])
+			}
 		} else {
 			w.WriteBytes(table)
 		}
@@ -753,7 +757,9 @@ func (hmtx *hmtxTable) LeftSideBearing(glyphID uint16) int16 {
 }
 
 func (hmtx *hmtxTable) Advance(glyphID uint16) uint16 {
-	if uint16(len(hmtx.HMetrics)) <= glyphID {
+	if len(hmtx.HMetrics) == 0 {
+		return 0
+	} else if uint16(len(hmtx.HMetrics)) <= glyphID {
 		glyphID = uint16(len(hmtx.HMetrics)) - 1
 	}
 	return hmtx.HMetrics[glyphID].AdvanceWidth
@@ -814,7 +820,9 @@ func (vmtx *vmtxTable) TopSideBearing(glyphID uint16) int16 {
 }
 
 func (vmtx *vmtxTable) Advance(glyphID uint16) uint16 {
-	if uint16(len(vmtx.VMetrics)) <= glyphID {
+	if len(vmtx.VMetrics) == 0 {
+		return 0
+	} else if uint16(len(vmtx.VMetrics)) <= glyphID {
 		glyphID = uint16(len(vmtx.VMetrics)) - 1
 	}
 	return vmtx.VMetrics[glyphID].AdvanceHeight
-- 
2.43.0


From f488a7e3ef396039c502ddedd94148ab99c4ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 120/120] fix: writing WOFF2 panics for a truncated head table
 or is wrong for bad composite glyphs

---
 woff2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/woff2.go b/woff2.go
index a34a312..92fafd5 100644
--- a/woff2.go
+++ b/woff2.go
@@ -890,7 +890,7 @@ func (sfnt *SFNT) WriteWOFF2() ([]byte, error) {
 	wBrotli := brotli.NewWriter(w)
 	for _, tag := range tags {
 		table := sfnt.Tables[tag]
-		if tag == "head" {
+		if tag == "head" && 18 <= len(table) { // may be truncated for embedded CFF fonts
 			head := make([]byte, len(table))
 			copy(head, table)
 			flags := binary.BigEndian.Uint16(head[16:])
@@ -948,7 +948,7 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 		if !glyf.IsComposite(uint16(glyphID)) {
 			// simple glyph
 			contour, err := glyf.Contour(uint16(glyphID))
-			if err != nil {
+			if err != nil || math.MaxInt16 < len(contour.EndPoints) {
 				return nil, nil
 			} else if len(contour.EndPoints) == 0 {
 				// empty glyph
@@ -1100,6 +1100,9 @@ func transformGlyf(numGlyphs uint16, glyf *glyfTable, loca *locaTable) ([]byte,
 				write255Uint16(glyphStream, instructionLength)
 				instructionStream.WriteBytes(r.ReadBytes(int64(instructionLength)))
 			}
+			if r.Err() != nil {
+				return nil, nil
+			}
 		}
 
 		bboxBitmapStream.Write(!bboxEqual)
-- 
2.43.0

