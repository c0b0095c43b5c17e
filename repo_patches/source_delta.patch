From ac57373e32da5fab524bbb8cb3dbdd2bdbf76cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 01/29] fix: raster: floor negative coordinates to their pixel

Truncating division maps coordinates in (-64, 0) to pixel column and row 0,
so that what a path draws just outside the image changes the coverage of
pixels inside it (visibly so under the even-odd rule).
---
 raster/raster.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 7e6cd4e..16f774c 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -120,9 +120,9 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // and from y0f to y1f fractional vertical units within that scanline.
 func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
-	x0i := int(x0) / 64
+	x0i := int(x0) >> 6
 	x0f := x0 - fixed.Int26_6(64*x0i)
-	x1i := int(x1) / 64
+	x1i := int(x1) >> 6
 	x1f := x1 - fixed.Int26_6(64*x1i)
 
 	// A perfectly horizontal scan.
@@ -192,7 +192,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 
 // Start starts a new curve at the given point.
 func (r *Rasterizer) Start(a fixed.Point26_6) {
-	r.setCell(int(a.X/64), int(a.Y/64))
+	r.setCell(int(a.X)>>6, int(a.Y)>>6)
 	r.a = a
 }
 
@@ -203,9 +203,9 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
-	y0i := int(y0) / 64
+	y0i := int(y0) >> 6
 	y0f := y0 - fixed.Int26_6(64*y0i)
-	y1i := int(y1) / 64
+	y1i := int(y1) >> 6
 	y1f := y1 - fixed.Int26_6(64*y1i)
 
 	if y0i == y1i {
@@ -224,7 +224,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		} else {
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		x0i, yi := int(x0)/64, y0i
+		x0i, yi := int(x0)>>6, y0i
 		x0fTimes2 := (int(x0) - (64 * x0i)) * 2
 		// Do the first pixel.
 		dcover := int(edge1 - y0f)
@@ -272,7 +272,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		x, yi := x0, y0i
 		r.scan(yi, x, y0f, x+xDelta, edge1)
 		x, yi = x+xDelta, yi+yiDelta
-		r.setCell(int(x)/64, yi)
+		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
 			p = 64 * dx
@@ -291,7 +291,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 				}
 				r.scan(yi, x, edge0, x+xDelta, edge1)
 				x, yi = x+xDelta, yi+yiDelta
-				r.setCell(int(x)/64, yi)
+				r.setCell(int(x)>>6, yi)
 			}
 		}
 		// Do the last scanline.
-- 
2.43.0


From 51e41b74322944eefe4e0f5a0d7b92c1dd897c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 02/29] fix: truetype: reject a font with zero units per em

Every scaled metric of such a font divides by zero.
---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..b7707bf 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -273,6 +273,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
-- 
2.43.0


From 5e0590917a6660c8279dd3728c1ede447467676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 03/29] fix: truetype: reject a font with glyphs but no
 horizontal metrics

unscaledHMetric indexed before the start of the hmtx table.
---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index b7707bf..fd922de 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -298,6 +298,9 @@ func (f *Font) parseHhea() error {
 	f.ascent = int32(int16(u16(f.hhea, 4)))
 	f.descent = int32(int16(u16(f.hhea, 6)))
 	f.nHMetric = int(u16(f.hhea, 34))
+	if f.nHMetric == 0 && f.nGlyph != 0 {
+		return FormatError("bad number of hmetrics: 0")
+	}
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
-- 
2.43.0


From 740719571a144da400e359587bb9781c82ac0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 04/29] fix: truetype: check that the kern table holds all its
 pairs

Kern indexed past the end of a truncated table.
---
 truetype/truetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index fd922de..65e934d 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -351,7 +351,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 {
+	if 6*f.nKern != length-14 || len(f.kern) < offset+6*f.nKern {
 		return FormatError("bad kern table length")
 	}
 	return nil
-- 
2.43.0


From cee95a3ea9ab78689b03c16bca27c74e9f7b5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 05/29] fix: truetype: check that a name lies inside the name
 table

The 16-bit sum of the offsets overflowed, and an offset or length past
the end of the table panicked.
---
 truetype/truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 65e934d..e99498e 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -423,7 +423,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if offset+length > len(f.name) {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From be93c3f358e71ee5cfada4a37336b9bea26c815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 06/29] fix: truetype: check that a glyph array entry lies
 inside the cmap table

Index panicked when a segment's idRangeOffset pointed outside it.
---
 truetype/truetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index e99498e..6e9c07e 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -408,6 +408,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
-- 
2.43.0


From bcfd6d37d0c6ce7f3f4c6ec8542ba600b75c1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 07/29] fix: truetype: add idDelta to non-zero glyph array
 entries

The cmap format 4 specification applies idDelta to a glyph index that is
read from the glyph index array, unless that index is 0.
---
 truetype/truetype.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 6e9c07e..b86e036 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -411,7 +411,11 @@ func (f *Font) Index(x rune) Index {
 			if offset < 0 || offset+2 > len(f.cmapIndexes) {
 				return 0
 			}
-			return Index(u16(f.cmapIndexes, offset))
+			i := Index(u16(f.cmapIndexes, offset))
+			if i != 0 {
+				i += Index(cm.delta)
+			}
+			return i
 		}
 	}
 	return 0
-- 
2.43.0


From 613dc70f99a09a9b9c182977f422e9af289d6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 08/29] fix: truetype: check the bounds of the cmap subtable

Parsing a font whose cmap subtable is truncated panicked, or tried to
allocate a segment for each of up to 4G groups.
---
 truetype/truetype.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index b86e036..b6344e1 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -204,7 +204,7 @@ func (f *Font) parseCmap() error {
 		return err
 	}
 	offset = int(u32(f.cmap, offset+4))
-	if offset <= 0 || offset > len(f.cmap) {
+	if offset <= 0 || offset+16 > len(f.cmap) {
 		return FormatError("bad cmap offset")
 	}
 
@@ -221,6 +221,9 @@ func (f *Font) parseCmap() error {
 		}
 		segCount := segCountX2 / 2
 		offset += 14
+		if offset+2+8*segCount > len(f.cmap) {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
 			f.cm[i].end = uint32(u16(f.cmap, offset))
@@ -256,6 +259,9 @@ func (f *Font) parseCmap() error {
 			return FormatError("inconsistent cmap length")
 		}
 		offset += 16
+		if uint64(nGroups) > uint64(len(f.cmap)-offset)/12 {
+			return FormatError("cmap too short")
+		}
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
 			f.cm[i].start = u32(f.cmap, offset+0)
-- 
2.43.0


From c851d8ec361b8643f682298e760767b65f71c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 09/29] fix: truetype: check the zone given to SZP0, SZP1, SZP2
 and SZPS

A later instruction that used the zone indexed out of range.
---
 truetype/hint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..6af6f44 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -331,10 +331,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if h.stack[top] < 0 || numZone <= h.stack[top] {
+				return errors.New("truetype: hinting: zone out of range")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if h.stack[top] < 0 || numZone <= h.stack[top] {
+				return errors.New("truetype: hinting: zone out of range")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
-- 
2.43.0


From 8ab7593208ed4fcc4b82b5d1f3ef404fe4e171d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 10/29] fix: truetype: check the points used by the IP, MIAP
 and GC instructions

They dereferenced a nil pointer when a point was out of range.
---
 truetype/hint.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 6af6f44..0e845a3 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -648,17 +648,29 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
 			curP := h.point(0, current, h.gs.rp[1])
+			if p == nil || curP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			curRange := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 			for ; h.gs.loop != 0; h.gs.loop-- {
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 				newDist := fixed.Int26_6(0)
 				if oldDist != 0 {
@@ -726,11 +738,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -777,9 +795,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
-- 
2.43.0


From 87222117293a02b317650d8db393589d736f8976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 11/29] fix: truetype: do not overflow the delta instructions'
 argument count

Twice a count of 1<<30 or more wrapped around to a negative number, so
that the instruction popped elements below the bottom of the stack.
---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 0e845a3..5bc255a 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1383,7 +1383,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if int64(top) < 2*int64(n) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
-- 
2.43.0


From d318b27e0d930ca4d86c43e7b50a98b3819bbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 12/29] fix: truetype: check the delta shift given to SDS

A later delta instruction divided by zero if it was negative, or 32 or
more.
---
 truetype/hint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 5bc255a..54e041d 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -924,6 +924,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			// As per C Freetype, the delta shift is between 0 and 6.
+			if h.stack[top] < 0 || 6 < h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
-- 
2.43.0


From c7805926c3c913b201808f9d7fa534fc74590b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 13/29] fix: truetype: do not divide by zero if the vectors are
 perpendicular

Moving a point panicked if the freedom vector was perpendicular to the
projection vector. Use the same fallback as C Freetype does.
---
 truetype/hint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 54e041d..23e0bc7 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1498,6 +1498,10 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	// As per C Freetype, do not divide by a dot product that is zero or small.
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
-- 
2.43.0


From 4bdc86c873de84e28ce3fca8ec32e8eebcbe9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:51 +0000
Subject: [PATCH 14/29] fix: truetype: do not leak hinting state between fonts
 and scales

When a glyph buffer was used with another font, the storage area, a
larger stack, the control values and the default graphics state that the
fpgm program sees were still those of the previous font. When it was used
with another scale, so were the storage area and any functions that the
prep program or a glyph program had defined.
---
 truetype/hint.go | 87 ++++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 44 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 23e0bc7..686ce5c 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -46,8 +46,7 @@ type hinter struct {
 	functions map[int32][]byte
 
 	// font and scale are the font and scale last used for this hinter.
-	// Changing the font will require running the new font's fpgm bytecode.
-	// Changing either will require running the font's prep bytecode.
+	// Changing either will require running the font's fpgm and prep bytecode.
 	font  *Font
 	scale fixed.Int26_6
 
@@ -120,54 +119,54 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
 	h.points[twilightZone][2] = resetTwilightPoints(f, h.points[twilightZone][2])
 
-	rescale := h.scale != scale
-	if h.font != f {
-		h.font, rescale = f, true
-		if h.functions == nil {
-			h.functions = make(map[int32][]byte)
-		} else {
-			for k := range h.functions {
-				delete(h.functions, k)
-			}
-		}
+	if h.font == f && h.scale == scale {
+		return nil
+	}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
-			h.stack = make([]int32, x)
-		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
-			h.store = make([]int32, x)
+	// Forget the state that belongs to the previous font or scale.
+	h.font = f
+	h.scale = scale
+	h.scaledCVTInitialized = false
+	h.defaultGS = globalDefaultGS
+	if h.functions == nil {
+		h.functions = make(map[int32][]byte)
+	} else {
+		for k := range h.functions {
+			delete(h.functions, k)
 		}
-		if len(f.fpgm) != 0 {
-			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
-				return err
-			}
+	}
+	if x := (int(f.maxStackElements) + 255) &^ 255; x <= cap(h.stack) {
+		h.stack = h.stack[:x]
+	} else {
+		h.stack = make([]int32, x)
+	}
+	if x := (int(f.maxStorage) + 15) &^ 15; x <= cap(h.store) {
+		h.store = h.store[:x]
+		for i := range h.store {
+			h.store[i] = 0
 		}
+	} else {
+		h.store = make([]int32, x)
 	}
 
-	if rescale {
-		h.scale = scale
-		h.scaledCVTInitialized = false
-
-		h.defaultGS = globalDefaultGS
-
-		if len(f.prep) != 0 {
-			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-				return err
-			}
-			h.defaultGS = h.gs
-			// The MS rasterizer doesn't allow the following graphics state
-			// variables to be modified by the CVT program.
-			h.defaultGS.pv = globalDefaultGS.pv
-			h.defaultGS.fv = globalDefaultGS.fv
-			h.defaultGS.dv = globalDefaultGS.dv
-			h.defaultGS.rp = globalDefaultGS.rp
-			h.defaultGS.zp = globalDefaultGS.zp
-			h.defaultGS.loop = globalDefaultGS.loop
+	if len(f.fpgm) != 0 {
+		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			return err
+		}
+	}
+	if len(f.prep) != 0 {
+		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			return err
 		}
+		h.defaultGS = h.gs
+		// The MS rasterizer doesn't allow the following graphics state
+		// variables to be modified by the CVT program.
+		h.defaultGS.pv = globalDefaultGS.pv
+		h.defaultGS.fv = globalDefaultGS.fv
+		h.defaultGS.dv = globalDefaultGS.dv
+		h.defaultGS.rp = globalDefaultGS.rp
+		h.defaultGS.zp = globalDefaultGS.zp
+		h.defaultGS.loop = globalDefaultGS.loop
 	}
 	return nil
 }
-- 
2.43.0


From 8a3f3dc7ead24be15c07be03ecdf864b6b99d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 15/29] fix: truetype: report a failing fpgm or prep program
 every time

Only the first load that used the font and scale returned the error.
Later loads went on with a partial set of functions and a default graphics
state from an earlier font or scale.
---
 truetype/hint.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/truetype/hint.go b/truetype/hint.go
index 686ce5c..9255238 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -151,11 +151,13 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 
 	if len(f.fpgm) != 0 {
 		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			h.font = nil
 			return err
 		}
 	}
 	if len(f.prep) != 0 {
 		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			h.font = nil
 			return err
 		}
 		h.defaultGS = h.gs
-- 
2.43.0


From 3b1211c4c22b8f51548163dca06a7f5c4fb1eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 16/29] fix: truetype: check that a glyph lies inside the loca
 and glyf tables

Loading a glyph panicked if its index or its offsets were out of range.
---
 truetype/glyph.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..c913532 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -178,9 +178,15 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if 2*int(i)+4 > len(g.font.loca) {
+			return FormatError("glyph index out of range")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if 4*int(i)+8 > len(g.font.loca) {
+			return FormatError("glyph index out of range")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +195,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if uint64(g0)+10 <= uint64(g1) {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyph data out of range")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
-- 
2.43.0


From 880cad6d062639be06ad2c4bf976c59659c95a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 17/29] fix: truetype: check that a simple glyph's data is not
 too short

Loading a truncated glyph panicked.
---
 truetype/glyph.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index c913532..ec0b555 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -235,7 +235,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -279,8 +282,12 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
+	errTooShort := FormatError("glyph data too short")
 	offset := loadOffset
+	if offset+2*ne+2 > len(glyf) {
+		return nil, errTooShort
+	}
 	for i := 0; i < ne; i++ {
 		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
 		offset += 2
@@ -289,11 +296,14 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if offset+instrLen > len(glyf) {
+		return nil, errTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
@@ -301,11 +311,17 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if offset >= len(glyf) {
+			return nil, errTooShort
+		}
 		c := uint32(glyf[offset])
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
+			if offset >= len(glyf) {
+				return nil, errTooShort
+			}
 			count := glyf[offset]
 			offset++
 			for ; count > 0; count-- {
@@ -320,6 +336,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagXShortVector != 0 {
+			if offset >= len(glyf) {
+				return nil, errTooShort
+			}
 			dx := int16(glyf[offset])
 			offset++
 			if f&flagPositiveXShortVector == 0 {
@@ -328,6 +347,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				x += dx
 			}
 		} else if f&flagThisXIsSame == 0 {
+			if offset+2 > len(glyf) {
+				return nil, errTooShort
+			}
 			x += int16(u16(glyf, offset))
 			offset += 2
 		}
@@ -337,6 +359,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 	for i := np0; i < np1; i++ {
 		f := g.Points[i].Flags
 		if f&flagYShortVector != 0 {
+			if offset >= len(glyf) {
+				return nil, errTooShort
+			}
 			dy := int16(glyf[offset])
 			offset++
 			if f&flagPositiveYShortVector == 0 {
@@ -345,13 +370,16 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 				y += dy
 			}
 		} else if f&flagThisYIsSame == 0 {
+			if offset+2 > len(glyf) {
+				return nil, errTooShort
+			}
 			y += int16(u16(glyf, offset))
 			offset += 2
 		}
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
-- 
2.43.0


From b76a83627fe274c8e6009b643e2b5568c50dc9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 18/29] fix: truetype: reject glyphs whose contours are out of
 order

Slicing the points by such contour ends panicked in users of a GlyphBuf,
and so did the hinter's IUP instruction.
---
 truetype/glyph.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index ec0b555..b57152c 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -289,7 +289,11 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 		return nil, errTooShort
 	}
 	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+		end := 1 + int(u16(glyf, offset))
+		if n := len(g.Ends); i > 0 && end < g.Ends[n-1] {
+			return nil, FormatError("contours out of order")
+		}
+		g.Ends = append(g.Ends, end)
 		offset += 2
 	}
 
-- 
2.43.0


From 2289b938d167d9ca6c3813f16f54728ca025c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:31 +0000
Subject: [PATCH 19/29] fix: truetype: reject glyphs with more flags than
 points

A repeat count that ran past the last point added spurious points.
---
 truetype/glyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index b57152c..c80fa2d 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -328,6 +328,9 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 			}
 			count := glyf[offset]
 			offset++
+			if int(count) > np1-i {
+				return nil, FormatError("too many glyph flags")
+			}
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
 				i++
-- 
2.43.0


From 16f6a2b0a9e523c454f2ff307951c2445af65e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 20/29] fix: truetype: check that a compound glyph's data is
 not too short

Loading a truncated compound glyph panicked.
---
 truetype/glyph.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index c80fa2d..ebc5bf0 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -410,7 +410,27 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		// A component is the flags, glyph index, two arguments and up to
+		// four transformation values.
+		if offset+4 > len(glyf) {
+			return FormatError("glyph data too short")
+		}
 		flags := u16(glyf, offset)
+		size := 6
+		if flags&flagArg1And2AreWords != 0 {
+			size = 8
+		}
+		switch {
+		case flags&flagWeHaveAScale != 0:
+			size += 2
+		case flags&flagWeHaveAnXAndYScale != 0:
+			size += 4
+		case flags&flagWeHaveATwoByTwo != 0:
+			size += 8
+		}
+		if offset+size > len(glyf) {
+			return FormatError("glyph data too short")
+		}
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
@@ -503,6 +523,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	// Hint the compound glyph.
+	if offset+instrLen > len(glyf) {
+		return FormatError("glyph data too short")
+	}
 	program := glyf[offset : offset+instrLen]
 	// Temporarily adjust the ends to be relative to this compound glyph.
 	if np0 != 0 {
-- 
2.43.0


From bed048780fafb618beb2d4aaaa9c66b51f8d5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 21/29] fix: truetype: do not overflow the glyph index into the
 hdmx table

The last two of 65536 glyphs got the pixel size and the maximum width as
their advance width.
---
 truetype/glyph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index ebc5bf0..82c62b2 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -121,7 +121,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 			if n := u32(f.hdmx, 4); n > 3+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
-						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
+						advanceWidth = fixed.Int26_6(hdmx[2+int(i)]) << 6
 						break
 					}
 				}
-- 
2.43.0


From b0c29a9d28030b088d22f13ae6bb6c9acd3cb214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 22/29] fix: freetype: align the mask if the clip cuts off a
 glyph's left side

DrawString drew the glyph's leftmost columns at the left edge of the clip
rectangle, instead of the columns that belong there.
---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 9603586..c534d8e 100644
--- a/freetype.go
+++ b/freetype.go
@@ -249,7 +249,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
+			mp := dr.Min.Sub(glyphRect.Min)
 			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
-- 
2.43.0


From 078f454ae74b212d91e78cf1ac39fdfeed741e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 23/29] fix: truetype: honor Options.SubPixelsY

The vertical number of sub-pixel locations was taken from SubPixelsX.
---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From 016a2f381712ac56f8fd4f08f3335f4f4697c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 24/29] fix: truetype: a negative number of cache entries is
 not a power of 2

NewFace panicked if GlyphCacheEntries was the smallest integer.
---
 truetype/face.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..b4c5a2b 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -15,7 +15,7 @@ import (
 )
 
 func powerOf2(i int) bool {
-	return i != 0 && (i&(i-1)) == 0
+	return i > 0 && (i&(i-1)) == 0
 }
 
 // Options are optional arguments to NewFace.
-- 
2.43.0


From 8a0a791187b243fdc6877df18a31d318274e53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 25/29] fix: truetype: do not panic if a font's bounding box is
 inside out

Rasterizing any glyph indexed the mask image out of range.
---
 truetype/face.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/truetype/face.go b/truetype/face.go
index b4c5a2b..e899d28 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -203,6 +203,13 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymax := -int(b.Min.Y-63) >> 6
 	a.maxw = xmax - xmin
 	a.maxh = ymax - ymin
+	// A malformed font's bounding box can have its minimum and maximum swapped.
+	if a.maxw < 0 {
+		a.maxw = 0
+	}
+	if a.maxh < 0 {
+		a.maxh = 0
+	}
 	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
 	a.r.SetBounds(a.maxw, a.maxh)
 	a.p = facePainter{a}
-- 
2.43.0


From 0bf403b59a7f92edf1635ec90a3b0fe4af896950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:49 +0000
Subject: [PATCH 26/29] fix: truetype: keep a glyph's mask inside its cache
 entry

A glyph of the size of the font's bounding box, at a sub-pixel offset, was
up to one pixel too large for its part of the mask image: it was cut off,
and the returned mask included pixels of another glyph.
---
 truetype/face.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index e899d28..11f17ba 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -201,8 +201,9 @@ func NewFace(f *Font, opts *Options) font.Face {
 	ymin := -int(b.Max.Y) >> 6
 	xmax := +int(b.Max.X+63) >> 6
 	ymax := -int(b.Min.Y-63) >> 6
-	a.maxw = xmax - xmin
-	a.maxh = ymax - ymin
+	// Allow for one more pixel, as a glyph can be at a sub-pixel offset.
+	a.maxw = xmax - xmin + 1
+	a.maxh = ymax - ymin + 1
 	// A malformed font's bounding box can have its minimum and maximum swapped.
 	if a.maxw < 0 {
 		a.maxw = 0
@@ -388,11 +389,20 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 		e0 = e1
 	}
 	a.r.Rasterize(a.p)
+	// Do not let a glyph that is larger than the font's bounding box use the
+	// part of the mask image that belongs to another glyph.
+	gw, gh := xmax-xmin, ymax-ymin
+	if gw > a.maxw {
+		gw = a.maxw
+	}
+	if gh > a.maxh {
+		gh = a.maxh
+	}
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		gw,
+		gh,
 	}, true
 }
 
-- 
2.43.0


From 168a81fc090ed00c7ed151dd0000979c78062141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 27/29] fix: freetype: do not cut off a glyph at a sub-pixel
 offset

The rasterizer was up to one pixel too small for a glyph of the size of
the font's bounding box, at a sub-pixel offset.
---
 freetype.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index c534d8e..88d68ff 100644
--- a/freetype.go
+++ b/freetype.go
@@ -270,7 +270,8 @@ func (c *Context) recalc() {
 		ymin := -int(b.Max.Y) >> 6
 		xmax := +int(b.Max.X+63) >> 6
 		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
+		// Allow for one more pixel, as a glyph can be at a sub-pixel offset.
+		c.r.SetBounds(xmax-xmin+1, ymax-ymin+1)
 	}
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
-- 
2.43.0


From c7bbcd77d36f9d6cb823ca320dfc213cbec8ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 28/29] fix: truetype: count the kern subtable's whole header

The pairs start at 18, not where the number of pairs ends, so that Kern
could still index past the end of a truncated table.
---
 truetype/truetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index b6344e1..9304a77 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -357,7 +357,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 || len(f.kern) < offset+6*f.nKern {
+	if 6*f.nKern != length-14 || len(f.kern) < 18+6*f.nKern {
 		return FormatError("bad kern table length")
 	}
 	return nil
-- 
2.43.0


From c007be5291f637b835389d3fe73b884d30823b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 29/29] fix: limit the number of sub-glyphs and points of a
 compound glyph

---
 truetype/glyph.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 82c62b2..387e3c1 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -53,6 +53,8 @@ type GlyphBuf struct {
 	// metricsSet is whether the glyph's metrics have been set yet. For a
 	// compound glyph, a sub-glyph may override the outer glyph's metrics.
 	metricsSet bool
+	// numLoads is the number of glyphs and sub-glyphs loaded so far.
+	numLoads int
 	// tmp is a scratch buffer.
 	tmp []Point
 }
@@ -93,6 +95,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	g.pp1x = 0
 	g.phantomPoints = [4]Point{}
 	g.metricsSet = false
+	g.numLoads = 0
 
 	if h != font.HintingNone {
 		if err := g.hinter.init(f, scale); err != nil {
@@ -170,11 +173,25 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	return nil
 }
 
+// maxLoads and maxPoints limit the size of a compound glyph: the number of
+// glyphs and sub-glyphs loaded, and the number of points that the components
+// so far may have before another one is loaded.
+const (
+	maxLoads  = 1 << 12
+	maxPoints = 1 << 16
+)
+
 func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error) {
 	// The recursion limit here is arbitrary, but defends against malformed glyphs.
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	// Likewise, a few nested levels of repeated components can otherwise add
+	// up to a practically unlimited number of sub-glyphs and points.
+	g.numLoads++
+	if g.numLoads > maxLoads || len(g.Points) > maxPoints {
+		return UnsupportedError("excessive compound glyph size")
+	}
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
-- 
2.43.0

