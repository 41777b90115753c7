From bcea3cbb6cdd9bfca077f029367bed602cc5ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 01/36] fix: rasterize paths left of or above the image
 correctly

The cell of a co-ordinate was found by truncating division, so that
-64 < x < 0 landed in cell 0. Use an arithmetic shift, which rounds down.
---
 raster/raster.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 7e6cd4e..f6244d2 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -120,9 +120,9 @@ func (r *Rasterizer) setCell(xi, yi int) {
 // and from y0f to y1f fractional vertical units within that scanline.
 func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 	// Break the 26.6 fixed point X co-ordinates into integral and fractional parts.
-	x0i := int(x0) / 64
+	x0i := int(x0) >> 6
 	x0f := x0 - fixed.Int26_6(64*x0i)
-	x1i := int(x1) / 64
+	x1i := int(x1) >> 6
 	x1f := x1 - fixed.Int26_6(64*x1i)
 
 	// A perfectly horizontal scan.
@@ -192,7 +192,7 @@ func (r *Rasterizer) scan(yi int, x0, y0f, x1, y1f fixed.Int26_6) {
 
 // Start starts a new curve at the given point.
 func (r *Rasterizer) Start(a fixed.Point26_6) {
-	r.setCell(int(a.X/64), int(a.Y/64))
+	r.setCell(int(a.X>>6), int(a.Y>>6))
 	r.a = a
 }
 
@@ -203,9 +203,9 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 	dx, dy := x1-x0, y1-y0
 	// Break the 26.6 fixed point Y co-ordinates into integral and fractional
 	// parts.
-	y0i := int(y0) / 64
+	y0i := int(y0) >> 6
 	y0f := y0 - fixed.Int26_6(64*y0i)
-	y1i := int(y1) / 64
+	y1i := int(y1) >> 6
 	y1f := y1 - fixed.Int26_6(64*y1i)
 
 	if y0i == y1i {
@@ -224,7 +224,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		} else {
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		x0i, yi := int(x0)/64, y0i
+		x0i, yi := int(x0)>>6, y0i
 		x0fTimes2 := (int(x0) - (64 * x0i)) * 2
 		// Do the first pixel.
 		dcover := int(edge1 - y0f)
@@ -272,7 +272,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		x, yi := x0, y0i
 		r.scan(yi, x, y0f, x+xDelta, edge1)
 		x, yi = x+xDelta, yi+yiDelta
-		r.setCell(int(x)/64, yi)
+		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
 			p = 64 * dx
@@ -291,7 +291,7 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 				}
 				r.scan(yi, x, edge0, x+xDelta, edge1)
 				x, yi = x+xDelta, yi+yiDelta
-				r.setCell(int(x)/64, yi)
+				r.setCell(int(x)>>6, yi)
 			}
 		}
 		// Do the last scanline.
-- 
2.43.0


From 000e3bf65ee27068ebbff0c62698bd645cfd4096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 02/36] fix: subdivide cubic segments by their real deviation

The measure of curviness was neither independent of the position of the
curve nor a bound on its deviation from the chord, so that some cubics
were flattened too coarsely, by several pixels.
---
 raster/raster.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index f6244d2..0ff7e9c 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -364,12 +364,13 @@ func (r *Rasterizer) Add2(b, c fixed.Point26_6) {
 // Add3 adds a cubic segment to the current curve.
 func (r *Rasterizer) Add3(b, c, d fixed.Point26_6) {
 	// Calculate nSplit (the number of recursive decompositions) based on how
-	// 'curvy' it is.
-	dev2 := maxAbs(r.a.X-3*(b.X+c.X)+d.X, r.a.Y-3*(b.Y+c.Y)+d.Y) / fixed.Int26_6(r.splitScale2)
-	dev3 := maxAbs(r.a.X-2*b.X+d.X, r.a.Y-2*b.Y+d.Y) / fixed.Int26_6(r.splitScale3)
+	// 'curvy' it is. Specifically, how much each of the middle points b and c
+	// deviates from the mean of its two neighbors.
+	dev2 := maxAbs(r.a.X-2*b.X+c.X, r.a.Y-2*b.Y+c.Y) / fixed.Int26_6(r.splitScale3)
+	dev3 := maxAbs(b.X-2*c.X+d.X, b.Y-2*c.Y+d.Y) / fixed.Int26_6(r.splitScale3)
 	nsplit := 0
 	for dev2 > 0 || dev3 > 0 {
-		dev2 /= 8
+		dev2 /= 4
 		dev3 /= 4
 		nsplit++
 	}
-- 
2.43.0


From a2bc8a41627bb005c80c5a0fdaec4aa937b5dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 03/36] fix: MonochromePainter does not emit empty spans

The empty span at row 0 that it used to emit first broke the row order, so
that a painter of an image above row 0 stopped painting at it.
---
 raster/paint.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/raster/paint.go b/raster/paint.go
index 652256c..3e7a071 100644
--- a/raster/paint.go
+++ b/raster/paint.go
@@ -197,8 +197,11 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 			if m.y == s.Y && m.x1 == s.X0 {
 				m.x1 = s.X1
 			} else {
-				ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
-				j++
+				// There is nothing to emit before the first opaque Span.
+				if m.x0 < m.x1 {
+					ss[j] = Span{m.y, m.x0, m.x1, 1<<16 - 1}
+					j++
+				}
 				m.y, m.x0, m.x1 = s.Y, s.X0, s.X1
 			}
 		}
@@ -206,7 +209,9 @@ func (m *MonochromePainter) Paint(ss []Span, done bool) {
 	if done {
 		// Flush the accumulated Span.
 		finalSpan := Span{m.y, m.x0, m.x1, 1<<16 - 1}
-		if j < len(ss) {
+		if m.x0 == m.x1 {
+			m.Painter.Paint(ss[:j], true)
+		} else if j < len(ss) {
 			ss[j] = finalSpan
 			j++
 			m.Painter.Paint(ss[:j], true)
-- 
2.43.0


From 8b603bda3eb0aaa080ca13afa2636ef59301ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 04/36] fix: normals of short stroke segments have the right
 length

The length of a vector was truncated to 1/64 pixel, so that the normal of
a very short segment could be up to 41% too long.
---
 raster/geom.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/raster/geom.go b/raster/geom.go
index f3696ea..1dac5b2 100644
--- a/raster/geom.go
+++ b/raster/geom.go
@@ -38,25 +38,17 @@ func pDot(p fixed.Point26_6, q fixed.Point26_6) fixed.Int52_12 {
 	return fixed.Int52_12(px*qx + py*qy)
 }
 
-// pLen returns the length of the vector p.
-func pLen(p fixed.Point26_6) fixed.Int26_6 {
-	// TODO(nigeltao): use fixed point math.
-	x := float64(p.X)
-	y := float64(p.Y)
-	return fixed.Int26_6(math.Sqrt(x*x + y*y))
-}
-
 // pNorm returns the vector p normalized to the given length, or zero if p is
 // degenerate.
 func pNorm(p fixed.Point26_6, length fixed.Int26_6) fixed.Point26_6 {
-	d := pLen(p)
+	// TODO(nigeltao): use fixed point math.
+	x, y := float64(p.X), float64(p.Y)
+	d := math.Sqrt(x*x + y*y)
 	if d == 0 {
 		return fixed.Point26_6{}
 	}
-	s, t := int64(length), int64(d)
-	x := int64(p.X) * s / t
-	y := int64(p.Y) * s / t
-	return fixed.Point26_6{fixed.Int26_6(x), fixed.Int26_6(y)}
+	s := float64(length)
+	return fixed.Point26_6{fixed.Int26_6(x * s / d), fixed.Int26_6(y * s / d)}
 }
 
 // pRot45CW returns the vector p rotated clockwise by 45 degrees.
-- 
2.43.0


From 4eb2e83efb5eb938b7867ac2baf544d11ff676c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 05/36] fix: stroke the start of a quadratic from its own
 normal

Add2 left anorm at the normal of the segment before, which addNonCurvy2
then used for the first piece of the quadratic.
---
 raster/stroke.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index bcc66b2..0e9f7ec 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -338,6 +338,7 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	} else {
 		k.jr.Join(k.p, &k.r, k.u, k.a, k.anorm, abnorm)
 	}
+	k.anorm = abnorm
 
 	// Approximate nearly-degenerate quadratics by linear segments.
 	abIsSmall := pDot(ab, ab) < epsilon
-- 
2.43.0


From 19cc9f314a17c6c4ef4009393e476f0a4e4d0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 06/36] fix: do not split stroked quadratics next to an end
 point

The direction of the tiny part was that of a rounding error, and the cap
or join there was turned by up to 45 degrees.
---
 raster/stroke.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index 0e9f7ec..dd47368 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -365,6 +365,15 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	mbc := interpolate(b, c, t)
 	mabc := interpolate(mab, mbc, t)
 
+	// If that point is practically one of the end points, then one of the two
+	// parts is too short to have a meaningful direction.
+	amab := mab.Sub(k.a)
+	mbcc := c.Sub(mbc)
+	if pDot(amab, amab) < epsilon || pDot(mbcc, mbcc) < epsilon {
+		k.addNonCurvy2(b, c)
+		return
+	}
+
 	// If the vectors ab and bc are close to being in opposite directions,
 	// then the decomposition can become unstable, so we approximate the
 	// quadratic segment by two linear segments joined by an arc.
-- 
2.43.0


From c55d467b3b67248ebe35947d3208b90085896fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 07/36] fix: recognize hairpin bends in thin strokes

The normals are rounded to 1/64 pixel, so that their dot product came
close enough to minus the square of the half width only by chance.
---
 raster/stroke.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index dd47368..0049afb 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -6,6 +6,8 @@
 package raster
 
 import (
+	"math"
+
 	"golang.org/x/image/math/fixed"
 )
 
@@ -377,8 +379,12 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	// If the vectors ab and bc are close to being in opposite directions,
 	// then the decomposition can become unstable, so we approximate the
 	// quadratic segment by two linear segments joined by an arc.
+	//
+	// The cosine of their angle is calculated from ab and bc themselves, as
+	// the normals are rounded to 26.6 fixed point co-ordinates.
 	bcnorm := pRot90CCW(pNorm(bc, k.u))
-	if pDot(abnorm, bcnorm) < -fixed.Int52_12(k.u)*fixed.Int52_12(k.u)*2047/2048 {
+	cosine := float64(pDot(ab, bc)) / math.Sqrt(float64(pDot(ab, ab))*float64(pDot(bc, bc)))
+	if cosine < -2047.0/2048 {
 		pArc := pDot(abnorm, bc) < 0
 
 		k.p.Add1(mabc.Add(abnorm))
-- 
2.43.0


From 948b2940f0c6664239ef3a64915b7775dc7856c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 08/36] fix: round the original distance that MD measures

---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 13f785b..76da240 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -818,7 +818,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			d := int32(dotProduct(p.X-q.X, p.Y-q.Y, v))
 			if scale {
-				d = int32(int64(d*int32(h.scale)) / int64(h.font.fUnitsPerEm))
+				d = int32(h.font.scale(h.scale * fixed.Int26_6(d)))
 			}
 			h.stack[top-1] = d
 
-- 
2.43.0


From 7e3df8c800ecfdcb07c50ddb422dd9efa9149514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 09/36] fix: MPPEM rounds a fractional size like the DELTA
 instructions do

---
 truetype/hint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 76da240..15ad22c 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -827,7 +827,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				return errors.New("truetype: hinting: stack overflow")
 			}
 			// For MPS, point size should be irrelevant; we return the PPEM.
-			h.stack[top] = int32(h.scale) >> 6
+			h.stack[top] = (int32(h.scale) + 1<<5) >> 6
 			top++
 
 		case opFLIPON, opFLIPOFF:
-- 
2.43.0


From cbad58201f74e4738eaf93cc05303c2fcd83bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 10/36] fix: start every glyph program from the state that fpgm
 and prep left

What one glyph's program wrote to storage, control values or functions
leaked into later glyphs, the prep program's twilight points did not reach
them, storage and functions survived a change of size, and a failed fpgm or
prep program was taken for a successful one by the next Load.
---
 truetype/hint.go | 155 +++++++++++++++++++++++++++++++----------------
 1 file changed, 103 insertions(+), 52 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 15ad22c..4d6b5ac 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -42,15 +42,24 @@ type callStackEntry struct {
 type hinter struct {
 	stack, store []int32
 
-	// functions is a map from function number to bytecode.
-	functions map[int32][]byte
+	// functions is a map from function number to bytecode. glyphFunctions
+	// holds those that were defined by the current glyph's program.
+	functions, glyphFunctions map[int32][]byte
 
 	// font and scale are the font and scale last used for this hinter.
-	// Changing the font will require running the new font's fpgm bytecode.
-	// Changing either will require running the font's prep bytecode.
+	// Changing either will require running the font's fpgm and prep bytecode.
 	font  *Font
 	scale fixed.Int26_6
 
+	// prepared is whether the fpgm and prep programs have been run, and saved
+	// is the state that they have left.
+	prepared bool
+	saved    struct {
+		store     []int32
+		scaledCVT []fixed.Int26_6
+		twilight  [numPointType][]Point
+	}
+
 	// gs and defaultGS are the current and default graphics state. The
 	// default graphics state is the global default graphics state after
 	// the font's fpgm and prep programs have been run.
@@ -115,63 +124,95 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 	return p
 }
 
+// init prepares the hinter to run a glyph's bytecode, starting from the state
+// that the font's fpgm and prep programs have set up.
 func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
-	h.points[twilightZone][0] = resetTwilightPoints(f, h.points[twilightZone][0])
-	h.points[twilightZone][1] = resetTwilightPoints(f, h.points[twilightZone][1])
-	h.points[twilightZone][2] = resetTwilightPoints(f, h.points[twilightZone][2])
-
-	rescale := h.scale != scale
-	if h.font != f {
-		h.font, rescale = f, true
-		if h.functions == nil {
-			h.functions = make(map[int32][]byte)
-		} else {
-			for k := range h.functions {
-				delete(h.functions, k)
-			}
+	if h.font != f || h.scale != scale {
+		if err := h.prepare(f, scale); err != nil {
+			// Do not mistake a half prepared hinter for a prepared one.
+			h.font = nil
+			return err
 		}
+	}
+	// What an earlier glyph's program has written must not be seen by the next.
+	copy(h.store, h.saved.store)
+	copy(h.scaledCVT, h.saved.scaledCVT)
+	for i := range h.points[twilightZone] {
+		copy(h.points[twilightZone][i], h.saved.twilight[i])
+	}
+	h.glyphFunctions = nil
+	return nil
+}
 
-		if x := int(f.maxStackElements); x > len(h.stack) {
-			x += 255
-			x &^= 255
-			h.stack = make([]int32, x)
-		}
-		if x := int(f.maxStorage); x > len(h.store) {
-			x += 15
-			x &^= 15
-			h.store = make([]int32, x)
-		}
-		if len(f.fpgm) != 0 {
-			if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
-				return err
-			}
+// prepare runs the font's fpgm and prep programs, and saves the state that
+// each glyph's program starts from.
+func (h *hinter) prepare(f *Font, scale fixed.Int26_6) error {
+	h.font, h.scale, h.prepared = f, scale, false
+	h.defaultGS = globalDefaultGS
+	h.functions, h.glyphFunctions = make(map[int32][]byte), nil
+
+	x := int(f.maxStackElements)
+	x += 255
+	x &^= 255
+	if x > cap(h.stack) {
+		h.stack = make([]int32, x)
+	}
+	h.stack = h.stack[:x]
+
+	h.reset()
+	if len(f.fpgm) != 0 {
+		if err := h.run(f.fpgm, nil, nil, nil, nil); err != nil {
+			return err
 		}
 	}
 
-	if rescale {
-		h.scale = scale
-		h.scaledCVTInitialized = false
-
-		h.defaultGS = globalDefaultGS
-
-		if len(f.prep) != 0 {
-			if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
-				return err
-			}
-			h.defaultGS = h.gs
-			// The MS rasterizer doesn't allow the following graphics state
-			// variables to be modified by the CVT program.
-			h.defaultGS.pv = globalDefaultGS.pv
-			h.defaultGS.fv = globalDefaultGS.fv
-			h.defaultGS.dv = globalDefaultGS.dv
-			h.defaultGS.rp = globalDefaultGS.rp
-			h.defaultGS.zp = globalDefaultGS.zp
-			h.defaultGS.loop = globalDefaultGS.loop
+	h.reset()
+	if len(f.prep) != 0 {
+		if err := h.run(f.prep, nil, nil, nil, nil); err != nil {
+			return err
 		}
+		h.defaultGS = h.gs
+		// The MS rasterizer doesn't allow the following graphics state
+		// variables to be modified by the CVT program.
+		h.defaultGS.pv = globalDefaultGS.pv
+		h.defaultGS.fv = globalDefaultGS.fv
+		h.defaultGS.dv = globalDefaultGS.dv
+		h.defaultGS.rp = globalDefaultGS.rp
+		h.defaultGS.zp = globalDefaultGS.zp
+		h.defaultGS.loop = globalDefaultGS.loop
+	}
+
+	if !h.scaledCVTInitialized {
+		h.initializeScaledCVT()
+	}
+	h.saved.store = append(h.saved.store[:0], h.store...)
+	h.saved.scaledCVT = append(h.saved.scaledCVT[:0], h.scaledCVT...)
+	for i, p := range h.points[twilightZone] {
+		h.saved.twilight[i] = append(h.saved.twilight[i][:0], p...)
 	}
+	h.prepared = true
 	return nil
 }
 
+// reset sets the storage area, the control values and the twilight points to
+// their initial values.
+func (h *hinter) reset() {
+	x := int(h.font.maxStorage)
+	x += 15
+	x &^= 15
+	if x > cap(h.store) {
+		h.store = make([]int32, x)
+	}
+	h.store = h.store[:x]
+	for i := range h.store {
+		h.store[i] = 0
+	}
+	h.scaledCVTInitialized = false
+	for i, p := range h.points[twilightZone] {
+		h.points[twilightZone][i] = resetTwilightPoints(h.font, p)
+	}
+}
+
 func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point, ends []int) error {
 	h.gs = h.defaultGS
 	h.points[glyphZone][current] = pCurrent
@@ -448,7 +489,10 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				return errors.New("truetype: hinting: call stack overflow")
 			}
 			top--
-			f, ok := h.functions[h.stack[top]]
+			f, ok := h.glyphFunctions[h.stack[top]]
+			if !ok {
+				f, ok = h.functions[h.stack[top]]
+			}
 			if !ok {
 				return errors.New("truetype: hinting: undefined function")
 			}
@@ -478,7 +522,14 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					return errors.New("truetype: hinting: nested FDEF")
 				case opENDF:
 					top--
-					h.functions[h.stack[top]] = program[startPC : pc+1]
+					if !h.prepared {
+						h.functions[h.stack[top]] = program[startPC : pc+1]
+					} else {
+						if h.glyphFunctions == nil {
+							h.glyphFunctions = make(map[int32][]byte)
+						}
+						h.glyphFunctions[h.stack[top]] = program[startPC : pc+1]
+					}
 					break fdefloop
 				default:
 					var ok bool
-- 
2.43.0


From 641eef5e40e2031f7eca1b699a3bc9c150b6a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 11/36] fix: malformed bytecode is an error, not a panic

Zone numbers, points and delta arguments out of range, and perpendicular
projection and freedom vectors, made the interpreter panic.
---
 truetype/hint.go | 55 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 4d6b5ac..c24f472 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -291,12 +291,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVFS:
 			top -= 2
-			h.gs.pv = normalize(f2dot14(h.stack[top]), f2dot14(h.stack[top+1]))
+			// As per C Freetype, a zero vector has no effect.
+			if x, y := f2dot14(h.stack[top]), f2dot14(h.stack[top+1]); x != 0 || y != 0 {
+				h.gs.pv = normalize(x, y)
+			}
 			h.gs.dv = h.gs.pv
 
 		case opSFVFS:
 			top -= 2
-			h.gs.fv = normalize(f2dot14(h.stack[top]), f2dot14(h.stack[top+1]))
+			if x, y := f2dot14(h.stack[top]), f2dot14(h.stack[top+1]); x != 0 || y != 0 {
+				h.gs.fv = normalize(x, y)
+			}
 
 		case opGPV:
 			if top+1 >= len(h.stack) {
@@ -372,10 +377,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSZP0, opSZP1, opSZP2:
 			top--
+			if h.stack[top] != twilightZone && h.stack[top] != glyphZone {
+				return errors.New("truetype: hinting: invalid zone")
+			}
 			h.gs.zp[opcode-opSZP0] = h.stack[top]
 
 		case opSZPS:
 			top--
+			if h.stack[top] != twilightZone && h.stack[top] != glyphZone {
+				return errors.New("truetype: hinting: invalid zone")
+			}
 			h.gs.zp[0] = h.stack[top]
 			h.gs.zp[1] = h.stack[top]
 			h.gs.zp[2] = h.stack[top]
@@ -693,17 +704,29 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			p := h.point(1, pointType, h.gs.rp[2])
 			oldP := h.point(0, pointType, h.gs.rp[1])
+			if p == nil || oldP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldRange := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 
 			p = h.point(1, current, h.gs.rp[2])
 			curP := h.point(0, current, h.gs.rp[1])
+			if p == nil || curP == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			curRange := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 			for ; h.gs.loop != 0; h.gs.loop-- {
 				top--
 				i := h.stack[top]
 				p = h.point(2, pointType, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				oldDist := dotProduct(p.X-oldP.X, p.Y-oldP.Y, h.gs.dv)
 				p = h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				curDist := dotProduct(p.X-curP.X, p.Y-curP.Y, h.gs.pv)
 				newDist := fixed.Int26_6(0)
 				if oldDist != 0 {
@@ -771,11 +794,17 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if h.gs.zp[0] == 0 {
 				p := h.point(0, unhinted, i)
 				q := h.point(0, current, i)
+				if p == nil || q == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				p.X = fixed.Int26_6((int64(distance) * int64(h.gs.fv[0])) >> 14)
 				p.Y = fixed.Int26_6((int64(distance) * int64(h.gs.fv[1])) >> 14)
 				*q = *p
 			}
 			p := h.point(0, current, i)
+			if p == nil {
+				return errors.New("truetype: hinting: point out of range")
+			}
 			oldDist := dotProduct(p.X, p.Y, h.gs.pv)
 			if opcode == opMIAP1 {
 				if fabs(distance-oldDist) > h.gs.controlValueCutIn {
@@ -822,9 +851,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top-1]
 			if opcode == opGC0 {
 				p := h.point(2, current, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.pv))
 			} else {
 				p := h.point(2, unhinted, i)
+				if p == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
 				// Using dv as per C Freetype.
 				h.stack[top-1] = int32(dotProduct(p.X, p.Y, h.gs.dv))
 			}
@@ -945,6 +980,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSDS:
 			top--
+			if h.stack[top] < 0 || 6 < h.stack[top] {
+				return errors.New("truetype: hinting: invalid data")
+			}
 			h.gs.deltaShift = h.stack[top]
 
 		case opADD:
@@ -1199,10 +1237,16 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if h.gs.zp[0] == 0 || h.gs.zp[1] == 0 {
 					p0 := h.point(1, unhinted, i)
 					p1 := h.point(0, unhinted, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 				} else {
 					p0 := h.point(1, inFontUnits, i)
 					p1 := h.point(0, inFontUnits, h.gs.rp[0])
+					if p0 == nil || p1 == nil {
+						return errors.New("truetype: hinting: point out of range")
+					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
 					oldDist = h.font.scale(h.scale * oldDist)
 				}
@@ -1404,7 +1448,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			}
 			top--
 			n := h.stack[top]
-			if int32(top) < 2*n {
+			if n < 0 || top/2 < int(n) {
 				return errors.New("truetype: hinting: stack underflow")
 			}
 			for ; n > 0; n-- {
@@ -1515,6 +1559,11 @@ func (h *hinter) move(p *Point, distance fixed.Int26_6, touch bool) {
 	}
 
 	fvDotPv := (fvx*pvx + fvy*pvy) >> 14
+	// If the vectors are (almost) at right angles then no sensible distance
+	// along fv has the given projection. As per C Freetype, ignore pv.
+	if -0x400 < fvDotPv && fvDotPv < 0x400 {
+		fvDotPv = 0x4000
+	}
 
 	if fvx != 0 {
 		p.X += fixed.Int26_6(mulDiv(fvx, int64(distance), fvDotPv))
-- 
2.43.0


From 97c37d469749a4f4447a2d030976100c27469f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 12/36] fix: MSIRP leaves rp1 at the old rp0 and creates
 twilight points

---
 truetype/hint.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index c24f472..54e4f35 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -745,20 +745,31 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			i := h.stack[top]
 			distance := fixed.Int26_6(h.stack[top+1])
 
-			// TODO: special case h.gs.zp[1] == 0 in C Freetype.
 			ref := h.point(0, current, h.gs.rp[0])
 			p := h.point(1, current, i)
 			if ref == nil || p == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
+			if h.gs.zp[1] == 0 {
+				// As per C Freetype, a twilight point is created at that distance
+				// from the reference point's original position.
+				q := h.point(0, unhinted, h.gs.rp[0])
+				r := h.point(1, unhinted, i)
+				if q == nil || r == nil {
+					return errors.New("truetype: hinting: point out of range")
+				}
+				r.X, r.Y = q.X, q.Y
+				h.move(r, distance, false)
+				p.X, p.Y = r.X, r.Y
+			}
 			curDist := dotProduct(p.X-ref.X, p.Y-ref.Y, h.gs.pv)
 
 			// Set-RP0 bit.
+			h.gs.rp[1] = h.gs.rp[0]
+			h.gs.rp[2] = i
 			if opcode == opMSIRP1 {
 				h.gs.rp[0] = i
 			}
-			h.gs.rp[1] = h.gs.rp[0]
-			h.gs.rp[2] = i
 
 			// Move the point.
 			h.move(p, distance-curDist, true)
-- 
2.43.0


From 752e5760117a0a98ad9e3d48ea10d40b7e5c24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 13/36] fix: SPVTL and SFVTL take their points from zones zp1
 and zp2

---
 truetype/hint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 54e4f35..7d71264 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -268,8 +268,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 		case opSPVTL0, opSPVTL1, opSFVTL0, opSFVTL1:
 			top -= 2
-			p1 := h.point(0, current, h.stack[top+0])
-			p2 := h.point(0, current, h.stack[top+1])
+			p1 := h.point(1, current, h.stack[top+0])
+			p2 := h.point(2, current, h.stack[top+1])
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-- 
2.43.0


From a1d9103b0a937306c40061d6b7a072506eca5cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 14/36] fix: vectors between points that are more than 512
 pixels apart

---
 truetype/hint.go | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 7d71264..4f29c8b 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -273,15 +273,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p1 == nil || p2 == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			dx := f2dot14(p1.X - p2.X)
-			dy := f2dot14(p1.Y - p2.Y)
-			if dx == 0 && dy == 0 {
-				dx = 0x4000
-			} else if opcode&1 != 0 {
-				// Counter-clockwise rotation.
-				dx, dy = -dy, dx
-			}
-			v := normalize(dx, dy)
+			v := direction(p1, p2, opcode&1 != 0)
 			if opcode < opSFVTL0 {
 				h.gs.pv = v
 				h.gs.dv = v
@@ -1154,18 +1146,11 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil || q == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				dx := f2dot14(p.X - q.X)
-				dy := f2dot14(p.Y - q.Y)
-				if dx == 0 && dy == 0 {
-					dx = 0x4000
-				} else if opcode&1 != 0 {
-					// Counter-clockwise rotation.
-					dx, dy = -dy, dx
-				}
+				v := direction(p, q, opcode&1 != 0)
 				if i == 0 {
-					h.gs.dv = normalize(dx, dy)
+					h.gs.dv = v
 				} else {
-					h.gs.pv = normalize(dx, dy)
+					h.gs.pv = v
 				}
 			}
 
@@ -1752,7 +1737,23 @@ func skipInstructionPayload(program []byte, pc int) (newPC int, ok bool) {
 type f2dot14 int16
 
 func normalize(x, y f2dot14) [2]f2dot14 {
-	fx, fy := float64(x), float64(y)
+	return unitVector(float64(x), float64(y))
+}
+
+// direction returns the unit vector from q to p, rotated counter-clockwise by
+// 90 degrees if perpendicular is set.
+func direction(p, q *Point, perpendicular bool) [2]f2dot14 {
+	dx := float64(p.X) - float64(q.X)
+	dy := float64(p.Y) - float64(q.Y)
+	if dx == 0 && dy == 0 {
+		dx = 0x4000
+	} else if perpendicular {
+		dx, dy = -dy, dx
+	}
+	return unitVector(dx, dy)
+}
+
+func unitVector(fx, fy float64) [2]f2dot14 {
 	l := 0x4000 / math.Hypot(fx, fy)
 	fx *= l
 	if fx >= 0 {
-- 
2.43.0


From d49382b371e778ba88deb797960af359fd125c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 15/36] fix: SHPIX moves points along the freedom vector by the
 given amount

---
 truetype/hint.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 4f29c8b..72929c0 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -681,7 +681,15 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 				if p == nil {
 					return errors.New("truetype: hinting: point out of range")
 				}
-				h.move(p, d, true)
+				// The distance is along the freedom vector, not the projection vector.
+				if h.gs.fv[0] != 0 {
+					p.X += dotProduct(d, 0, h.gs.fv)
+					p.Flags |= flagTouchedX
+				}
+				if h.gs.fv[1] != 0 {
+					p.Y += dotProduct(0, d, h.gs.fv)
+					p.Flags |= flagTouchedY
+				}
 			}
 			h.gs.loop = 1
 
-- 
2.43.0


From 1aae5c34a4c2970d6150371a7d3a6bd280b271f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 16/36] fix: UTP untouches points in the freedom vector's
 directions only

---
 truetype/hint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 72929c0..c3d412d 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -485,7 +485,12 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if p == nil {
 				return errors.New("truetype: hinting: point out of range")
 			}
-			p.Flags &^= flagTouchedX | flagTouchedY
+			if h.gs.fv[0] != 0 {
+				p.Flags &^= flagTouchedX
+			}
+			if h.gs.fv[1] != 0 {
+				p.Flags &^= flagTouchedY
+			}
 
 		case opLOOPCALL, opCALL:
 			if callStackTop >= len(callStack) {
-- 
2.43.0


From cc2355b6073bed144c40f6c976ba1e615fb4e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 17/36] fix: do not scale original distances twice in compound
 glyph programs

---
 truetype/glyph.go |  5 ++++-
 truetype/hint.go  | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 6157ad8..d976409 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -469,7 +469,10 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	// Hinting instructions of a composite glyph completely refer to the
 	// (already) hinted subglyphs.
 	g.tmp = append(g.tmp[:0], points...)
-	if err := g.hinter.run(program, points, g.tmp, g.tmp, ends); err != nil {
+	g.hinter.composite = true
+	err := g.hinter.run(program, points, g.tmp, g.tmp, ends)
+	g.hinter.composite = false
+	if err != nil {
 		return err
 	}
 	if np0 != 0 {
diff --git a/truetype/hint.go b/truetype/hint.go
index c3d412d..7d9fa57 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -70,6 +70,10 @@ type hinter struct {
 	points [numZone][numPointType][]Point
 	ends   []int
 
+	// composite is whether the program is that of a compound glyph, whose
+	// inFontUnits points are already scaled.
+	composite bool
+
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
@@ -911,7 +915,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			} else {
 				pt = inFontUnits
 				v = h.gs.dv
-				scale = true
+				scale = !h.composite
 			}
 			p := h.point(0, pt, h.stack[top-1])
 			q := h.point(1, pt, h.stack[top])
@@ -1257,7 +1261,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 						return errors.New("truetype: hinting: point out of range")
 					}
 					oldDist = dotProduct(p0.X-p1.X, p0.Y-p1.Y, h.gs.dv)
-					oldDist = h.font.scale(h.scale * oldDist)
+					if !h.composite {
+						oldDist = h.font.scale(h.scale * oldDist)
+					}
 				}
 
 				// Single-width cut-in test.
-- 
2.43.0


From da8445546f2a6902a2cca0a11b975d929dd76c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 18/36] fix: a simple glyph's overlap flag does not mark points
 as touched

---
 truetype/glyph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index d976409..888117a 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -292,7 +292,8 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 
 	// Decode the flags.
 	for i := np0; i < np1; {
-		c := uint32(glyf[offset])
+		// The high bits, one of which is the overlap flag, have no meaning here.
+		c := uint32(glyf[offset]) &^ (flagTouchedX | flagTouchedY)
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
-- 
2.43.0


From 207171315e86b986c468a20c50931e55d5157293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 19/36] fix: malformed glyph data is an error, not a panic

Glyph indices outside the font, a short loca or glyf table, truncated
glyphs, contour ends that decrease and repeated flags that overshoot the
number of points made Load panic or yield a malformed outline, and a
compound glyph could be exponentially large.
---
 truetype/glyph.go | 155 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 132 insertions(+), 23 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 888117a..5e82d01 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -53,6 +53,9 @@ type GlyphBuf struct {
 	// metricsSet is whether the glyph's metrics have been set yet. For a
 	// compound glyph, a sub-glyph may override the outer glyph's metrics.
 	metricsSet bool
+	// nLoads is the number of glyphs, including sub-glyphs of compound glyphs,
+	// that the current Load call has loaded.
+	nLoads int
 	// tmp is a scratch buffer.
 	tmp []Point
 }
@@ -93,6 +96,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	g.pp1x = 0
 	g.phantomPoints = [4]Point{}
 	g.metricsSet = false
+	g.nLoads = 0
 
 	if h != font.HintingNone {
 		if err := g.hinter.init(f, scale); err != nil {
@@ -175,12 +179,26 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	if recursion >= 32 {
 		return UnsupportedError("excessive compound glyph recursion")
 	}
+	// The limit on the number of glyphs here is also arbitrary: a compound
+	// glyph that is not deep can still be exponentially large.
+	if g.nLoads++; g.nLoads > maxComponents {
+		return UnsupportedError("excessive compound glyph size")
+	}
+	if int(i) >= g.font.nGlyph {
+		return FormatError("glyph index out of range")
+	}
 	// Find the relevant slice of g.font.glyf.
 	var g0, g1 uint32
 	if g.font.locaOffsetFormat == locaOffsetFormatShort {
+		if len(g.font.loca) < 2*int(i)+4 {
+			return FormatError("loca too short")
+		}
 		g0 = 2 * uint32(u16(g.font.loca, 2*int(i)))
 		g1 = 2 * uint32(u16(g.font.loca, 2*int(i)+2))
 	} else {
+		if len(g.font.loca) < 4*int(i)+8 {
+			return FormatError("loca too short")
+		}
 		g0 = u32(g.font.loca, 4*int(i))
 		g1 = u32(g.font.loca, 4*int(i)+4)
 	}
@@ -189,7 +207,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 	// 10 bytes of the glyf data. boundsYMin and boundsXMax, at offsets 4
 	// and 6, are unused.
 	glyf, ne, boundsXMin, boundsYMax := []byte(nil), 0, fixed.Int26_6(0), fixed.Int26_6(0)
-	if g0+10 <= g1 {
+	if g0 < g1 && g1-g0 >= loadOffset {
+		if uint64(g1) > uint64(len(g.font.glyf)) {
+			return FormatError("glyf too short")
+		}
 		glyf = g.font.glyf[g0:g1]
 		ne = int(int16(u16(glyf, 0)))
 		boundsXMin = fixed.Int26_6(int16(u16(glyf, 2)))
@@ -226,7 +247,10 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program := g.loadSimple(glyf, ne)
+		program, err := g.loadSimple(glyf, ne)
+		if err != nil {
+			return err
+		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
 		if g.hinting != font.HintingNone {
@@ -270,36 +294,74 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 // 10 bytes are the number of contours and the bounding box.
 const loadOffset = 10
 
-func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
+// maxComponents and maxPoints limit the size of a compound glyph. They are
+// arbitrary, but far larger than what any well-formed font needs.
+const (
+	maxComponents = 1 << 12
+	maxPoints     = 1 << 18
+)
+
+var errGlyfTooShort = FormatError("glyph data too short")
+
+func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte, err error) {
 	offset := loadOffset
-	for i := 0; i < ne; i++ {
-		g.Ends = append(g.Ends, 1+int(u16(glyf, offset)))
+	if len(glyf) < offset+2*ne+2 {
+		if ne == 0 {
+			// There are no contours and, although the number of instructions
+			// is missing, there are no instructions.
+			return nil, nil
+		}
+		return nil, errGlyfTooShort
+	}
+	for i, prev := 0, 0; i < ne; i++ {
+		end := 1 + int(u16(glyf, offset))
+		if end < prev {
+			return nil, FormatError("contour ends out of order")
+		}
+		g.Ends = append(g.Ends, end)
+		prev = end
 		offset += 2
 	}
 
 	// Note the TrueType hinting instructions.
 	instrLen := int(u16(glyf, offset))
 	offset += 2
+	if len(glyf) < offset+instrLen {
+		return nil, errGlyfTooShort
+	}
 	program = glyf[offset : offset+instrLen]
 	offset += instrLen
 
 	if ne == 0 {
-		return program
+		return program, nil
 	}
 
 	np0 := len(g.Points)
 	np1 := np0 + int(g.Ends[len(g.Ends)-1])
 
+	if np1 > maxPoints {
+		return nil, UnsupportedError("excessive number of points")
+	}
+
 	// Decode the flags.
 	for i := np0; i < np1; {
+		if len(glyf) < offset+1 {
+			return nil, errGlyfTooShort
+		}
 		// The high bits, one of which is the overlap flag, have no meaning here.
 		c := uint32(glyf[offset]) &^ (flagTouchedX | flagTouchedY)
 		offset++
 		g.Points = append(g.Points, Point{Flags: c})
 		i++
 		if c&flagRepeat != 0 {
-			count := glyf[offset]
+			if len(glyf) < offset+1 {
+				return nil, errGlyfTooShort
+			}
+			count := int(glyf[offset])
 			offset++
+			if count > np1-i {
+				return nil, FormatError("too many flags")
+			}
 			for ; count > 0; count-- {
 				g.Points = append(g.Points, Point{Flags: c})
 				i++
@@ -307,6 +369,25 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 		}
 	}
 
+	// Check that there is enough data for the co-ordinates.
+	n := 0
+	for _, p := range g.Points[np0:] {
+		f := p.Flags
+		if f&flagXShortVector != 0 {
+			n++
+		} else if f&flagThisXIsSame == 0 {
+			n += 2
+		}
+		if f&flagYShortVector != 0 {
+			n++
+		} else if f&flagThisYIsSame == 0 {
+			n += 2
+		}
+	}
+	if len(glyf) < offset+n {
+		return nil, errGlyfTooShort
+	}
+
 	// Decode the co-ordinates.
 	var x int16
 	for i := np0; i < np1; i++ {
@@ -343,31 +424,56 @@ func (g *GlyphBuf) loadSimple(glyf []byte, ne int) (program []byte) {
 		g.Points[i].Y = fixed.Int26_6(y)
 	}
 
-	return program
+	return program, nil
+}
+
+// Flags for decoding a compound glyph. These flags are documented at
+// http://developer.apple.com/fonts/TTRefMan/RM06/Chap6glyf.html.
+const (
+	flagArg1And2AreWords = 1 << iota
+	flagArgsAreXYValues
+	flagRoundXYToGrid
+	flagWeHaveAScale
+	flagUnused
+	flagMoreComponents
+	flagWeHaveAnXAndYScale
+	flagWeHaveATwoByTwo
+	flagWeHaveInstructions
+	flagUseMyMetrics
+	flagOverlapCompound
+)
+
+// componentSize returns the size, in bytes, of a compound glyph's component
+// that has the given flags.
+func componentSize(flags uint16) int {
+	n := 6
+	if flags&flagArg1And2AreWords != 0 {
+		n += 2
+	}
+	switch {
+	case flags&flagWeHaveAScale != 0:
+		n += 2
+	case flags&flagWeHaveAnXAndYScale != 0:
+		n += 4
+	case flags&flagWeHaveATwoByTwo != 0:
+		n += 8
+	}
+	return n
 }
 
 func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	glyf []byte, useMyMetrics bool) error {
 
-	// Flags for decoding a compound glyph. These flags are documented at
-	// http://developer.apple.com/fonts/TTRefMan/RM06/Chap6glyf.html.
-	const (
-		flagArg1And2AreWords = 1 << iota
-		flagArgsAreXYValues
-		flagRoundXYToGrid
-		flagWeHaveAScale
-		flagUnused
-		flagMoreComponents
-		flagWeHaveAnXAndYScale
-		flagWeHaveATwoByTwo
-		flagWeHaveInstructions
-		flagUseMyMetrics
-		flagOverlapCompound
-	)
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
 	for {
+		if len(glyf) < offset+4 {
+			return errGlyfTooShort
+		}
 		flags := u16(glyf, offset)
+		if len(glyf) < offset+componentSize(flags) {
+			return errGlyfTooShort
+		}
 		component := Index(u16(glyf, offset+2))
 		dx, dy, transform, hasTransform := fixed.Int26_6(0), fixed.Int26_6(0), [4]int16{}, false
 		if flags&flagArg1And2AreWords != 0 {
@@ -460,6 +566,9 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	// Hint the compound glyph.
+	if len(glyf) < offset+instrLen {
+		return errGlyfTooShort
+	}
 	program := glyf[offset : offset+instrLen]
 	// Temporarily adjust the ends to be relative to this compound glyph.
 	if np0 != 0 {
-- 
2.43.0


From cf1929221ae7ff297172be8b4a6e1b7d7c448025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 20/36] fix: limit the work that glyph programs do

A single instruction can look at every point, or skip all of a program, and
a compound glyph can run thousands of programs, so that limiting the steps
of each program does not keep a small font from taking hours to load.
---
 truetype/hint.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 7d9fa57..533b01d 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -74,6 +74,11 @@ type hinter struct {
 	// inFontUnits points are already scaled.
 	composite bool
 
+	// work is how much the current Load call's programs have done so far. A
+	// step of a program counts as 1, and one that looks at many points or
+	// skips many instructions counts as more.
+	work int
+
 	// scaledCVT is the lazily initialized scaled Control Value Table.
 	scaledCVTInitialized bool
 	scaledCVT            []fixed.Int26_6
@@ -116,6 +121,13 @@ var globalDefaultGS = graphicsState{
 	autoFlip:          true,
 }
 
+// maxSteps limits the steps of a single program, and maxWork what all the
+// programs of a compound glyph and its components may do.
+const (
+	maxSteps = 100000
+	maxWork  = 1 << 20
+)
+
 func resetTwilightPoints(f *Font, p []Point) []Point {
 	if n := int(f.maxTwilightPoints) + 4; n <= cap(p) {
 		p = p[:n]
@@ -132,6 +144,7 @@ func resetTwilightPoints(f *Font, p []Point) []Point {
 // that the font's fpgm and prep programs have set up.
 func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 	if h.font != f || h.scale != scale {
+		h.work = 0
 		if err := h.prepare(f, scale); err != nil {
 			// Do not mistake a half prepared hinter for a prepared one.
 			h.font = nil
@@ -145,6 +158,7 @@ func (h *hinter) init(f *Font, scale fixed.Int26_6) error {
 		copy(h.points[twilightZone][i], h.saved.twilight[i])
 	}
 	h.glyphFunctions = nil
+	h.work = 0
 	return nil
 }
 
@@ -237,7 +251,8 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 
 	for 0 <= pc && pc < len(program) {
 		steps++
-		if steps == 100000 {
+		h.work++
+		if steps == maxSteps || h.work > maxWork {
 			return errors.New("truetype: hinting: too many steps")
 		}
 		opcode = program[pc]
@@ -542,6 +557,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 						}
 						h.glyphFunctions[h.stack[top]] = program[startPC : pc+1]
 					}
+					h.work += (pc - startPC) / 64
 					break fdefloop
 				default:
 					var ok bool
@@ -587,6 +603,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if iupY {
 				mask = flagTouchedY
 			}
+			h.work += len(h.points[glyphZone][current]) / 16
 			prevEnd := 0
 			for _, end := range h.ends {
 				for i := prevEnd; i < end; i++ {
@@ -652,6 +669,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if contour > 0 {
 				j0 = int32(h.ends[contour-1])
 			}
+			h.work += int(j1-j0) / 16
 			move := h.gs.zp[zonePointer] != h.gs.zp[2]
 			for j := j0; j < j1; j++ {
 				if move || j != i {
@@ -669,6 +687,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			// As per C Freetype, SHZ doesn't move the phantom points, or mark
 			// the points as touched.
 			limit := int32(len(h.points[h.gs.zp[2]][current]))
+			h.work += int(limit) / 16
 			if h.gs.zp[2] == glyphZone {
 				limit -= 4
 			}
@@ -1139,6 +1158,9 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 			if i < 0 || len(points) <= int(i) || j < 0 || len(points) <= int(j) {
 				return errors.New("truetype: hinting: point out of range")
 			}
+			if i < j {
+				h.work += int(j-i) / 16
+			}
 			for ; i <= j; i++ {
 				if opcode == opFLIPRGON {
 					points[i].Flags |= flagOnCurve
@@ -1389,6 +1411,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 		// next EIF (for all opcodes). Opcode == 0 means that we have come
 		// from an IF. Opcode == 1 means that we have come from an ELSE.
 		{
+			startPC := pc
 		ifelseloop:
 			for depth := 0; ; {
 				pc++
@@ -1415,6 +1438,7 @@ func (h *hinter) run(program []byte, pCurrent, pUnhinted, pInFontUnits []Point,
 					}
 				}
 			}
+			h.work += (pc - startPC) / 64
 			pc++
 			continue
 		}
-- 
2.43.0


From d34bc70c1a7661fcd083d0c39fda5ee3bb09d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 21/36] fix: treat an empty component of a compound glyph like
 any other

It left its phantom points among the compound glyph's unhinted points, and
its metrics, if they are those of the compound glyph, were scaled twice.
---
 truetype/glyph.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 5e82d01..b7d13e6 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -226,14 +226,6 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		{X: uhm.AdvanceWidth / 2, Y: boundsYMax + uvm.TopSideBearing},
 		{X: uhm.AdvanceWidth / 2, Y: boundsYMax + uvm.TopSideBearing - uvm.AdvanceHeight},
 	}
-	if len(glyf) == 0 {
-		g.addPhantomsAndScale(len(g.Points), len(g.Points), true, true)
-		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
-		g.Points = g.Points[:len(g.Points)-4]
-		// TODO: also trim g.InFontUnits and g.Unhinted?
-		return nil
-	}
-
 	// Load and hint the contours.
 	if ne < 0 {
 		if ne != -1 {
@@ -247,9 +239,12 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 		}
 	} else {
 		np0, ne0 := len(g.Points), len(g.Ends)
-		program, err := g.loadSimple(glyf, ne)
-		if err != nil {
-			return err
+		var program []byte
+		if len(glyf) != 0 {
+			program, err = g.loadSimple(glyf, ne)
+			if err != nil {
+				return err
+			}
 		}
 		g.addPhantomsAndScale(np0, np0, true, true)
 		pp1x = g.Points[len(g.Points)-4].X
-- 
2.43.0


From 023cf927fdcd5a11612d18741d5ba43df960683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 22/36] fix: a compound glyph has instructions only if it says
 so

---
 truetype/glyph.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index b7d13e6..460e1bb 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -461,6 +461,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
+	hasInstructions := false
 	for {
 		if len(glyf) < offset+4 {
 			return errGlyfTooShort
@@ -536,12 +537,13 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		}
 		// TODO: also adjust g.InFontUnits and g.Unhinted?
 		if flags&flagMoreComponents == 0 {
+			hasInstructions = flags&flagWeHaveInstructions != 0
 			break
 		}
 	}
 
 	instrLen := 0
-	if g.hinting != font.HintingNone && offset+2 <= len(glyf) {
+	if hasInstructions && g.hinting != font.HintingNone && offset+2 <= len(glyf) {
 		instrLen = int(u16(glyf, offset))
 		offset += 2
 	}
-- 
2.43.0


From 99e54256c1521e0864bd316bec7563976bd2cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 23/36] fix: the last glyph of an unpadded hdmx record has
 device metrics too

---
 truetype/glyph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 460e1bb..31d0129 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -122,7 +122,7 @@ func (g *GlyphBuf) Load(f *Font, scale fixed.Int26_6, i Index, h font.Hinting) e
 	advanceWidth := g.phantomPoints[1].X - g.phantomPoints[0].X
 	if h != font.HintingNone {
 		if len(f.hdmx) >= 8 {
-			if n := u32(f.hdmx, 4); n > 3+uint32(i) {
+			if n := u32(f.hdmx, 4); n > 2+uint32(i) {
 				for hdmx := f.hdmx[8:]; uint32(len(hdmx)) >= n; hdmx = hdmx[n:] {
 					if fixed.Int26_6(hdmx[0]) == scale>>6 {
 						advanceWidth = fixed.Int26_6(hdmx[2+i]) << 6
-- 
2.43.0


From f05150a1cf5475ce869787299c608ea18d995341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 24/36] fix: do not scale the metrics of a component twice

The program of a compound glyph that takes its metrics from a component saw
that component's phantom points scaled a second time.
---
 truetype/glyph.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/truetype/glyph.go b/truetype/glyph.go
index 31d0129..89de5ba 100644
--- a/truetype/glyph.go
+++ b/truetype/glyph.go
@@ -265,9 +265,7 @@ func (g *GlyphBuf) load(recursion uint32, i Index, useMyMetrics bool) (err error
 			g.InFontUnits = g.InFontUnits[:len(g.InFontUnits)-4]
 			g.Unhinted = g.Unhinted[:len(g.Unhinted)-4]
 		}
-		if useMyMetrics {
-			copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
-		}
+		copy(g.phantomPoints[:], g.Points[len(g.Points)-4:])
 		g.Points = g.Points[:len(g.Points)-4]
 		if np0 != 0 {
 			// The hinting program expects the []Ends values to be indexed
@@ -461,7 +459,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 
 	np0, ne0 := len(g.Points), len(g.Ends)
 	offset := loadOffset
-	hasInstructions := false
+	hasInstructions, scaledMetrics := false, false
 	for {
 		if len(glyf) < offset+4 {
 			return errGlyfTooShort
@@ -511,6 +509,8 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		}
 		if flags&flagUseMyMetrics == 0 {
 			g.phantomPoints = savedPP
+		} else {
+			scaledMetrics = true
 		}
 		if hasTransform {
 			for j := np0; j < len(g.Points); j++ {
@@ -548,7 +548,12 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 		offset += 2
 	}
 
-	g.addPhantomsAndScale(np0, len(g.Points), false, instrLen > 0)
+	np1 := len(g.Points)
+	if scaledMetrics {
+		// The phantom points are those of a component, and already scaled.
+		np1 += len(g.phantomPoints)
+	}
+	g.addPhantomsAndScale(np0, np1, false, instrLen > 0)
 	points, ends := g.Points[np0:], g.Ends[ne0:]
 	g.Points = g.Points[:len(g.Points)-4]
 	for j := range points {
@@ -556,7 +561,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 	}
 
 	if instrLen == 0 {
-		if !g.metricsSet {
+		if !scaledMetrics {
 			copy(g.phantomPoints[:], points[len(points)-4:])
 		}
 		return nil
@@ -587,7 +592,7 @@ func (g *GlyphBuf) loadCompound(recursion uint32, uhm HMetric, i Index,
 			ends[i] += np0
 		}
 	}
-	if !g.metricsSet {
+	if !scaledMetrics {
 		copy(g.phantomPoints[:], points[len(points)-4:])
 	}
 	return nil
-- 
2.43.0


From cac5f4a3aa2831cbc5671ee2916a9434d0245dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 25/36] fix: malformed tables are errors, not panics

A short cmap or kern table, a cmap that claims more groups than it has (and
had room allocated for all of them), 0 units per em and 0 horizontal metrics
made Parse panic, or accept a font whose queries panic. So did names that
lie outside the name table.
---
 truetype/truetype.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index 7270bbf..c15ece4 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -192,6 +192,8 @@ type Font struct {
 	maxTwilightPoints, maxStorage, maxFunctionDefs, maxStackElements uint16
 }
 
+var errCmapTooShort = FormatError("cmap too short")
+
 func (f *Font) parseCmap() error {
 	const (
 		cmapFormat4         = 4
@@ -207,10 +209,16 @@ func (f *Font) parseCmap() error {
 	if offset <= 0 || offset > len(f.cmap) {
 		return FormatError("bad cmap offset")
 	}
+	if len(f.cmap) < offset+2 {
+		return errCmapTooShort
+	}
 
 	cmapFormat := u16(f.cmap, offset)
 	switch cmapFormat {
 	case cmapFormat4:
+		if len(f.cmap) < offset+14 {
+			return errCmapTooShort
+		}
 		language := u16(f.cmap, offset+4)
 		if language != languageIndependent {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
@@ -221,6 +229,9 @@ func (f *Font) parseCmap() error {
 		}
 		segCount := segCountX2 / 2
 		offset += 14
+		if len(f.cmap) < offset+8*segCount+2 {
+			return errCmapTooShort
+		}
 		f.cm = make([]cm, segCount)
 		for i := 0; i < segCount; i++ {
 			f.cm[i].end = uint32(u16(f.cmap, offset))
@@ -243,6 +254,9 @@ func (f *Font) parseCmap() error {
 		return nil
 
 	case cmapFormat12:
+		if len(f.cmap) < offset+16 {
+			return errCmapTooShort
+		}
 		if u16(f.cmap, offset+2) != 0 {
 			return FormatError(fmt.Sprintf("cmap format: % x", f.cmap[offset:offset+4]))
 		}
@@ -252,9 +266,12 @@ func (f *Font) parseCmap() error {
 			return UnsupportedError(fmt.Sprintf("language: %d", language))
 		}
 		nGroups := u32(f.cmap, offset+12)
-		if length != 12*nGroups+16 {
+		if uint64(length) != 12*uint64(nGroups)+16 {
 			return FormatError("inconsistent cmap length")
 		}
+		if uint64(len(f.cmap)-offset) < uint64(length) {
+			return errCmapTooShort
+		}
 		offset += 16
 		f.cm = make([]cm, nGroups)
 		for i := uint32(0); i < nGroups; i++ {
@@ -273,6 +290,9 @@ func (f *Font) parseHead() error {
 		return FormatError(fmt.Sprintf("bad head length: %d", len(f.head)))
 	}
 	f.fUnitsPerEm = int32(u16(f.head, 18))
+	if f.fUnitsPerEm == 0 {
+		return FormatError("bad unitsPerEm: 0")
+	}
 	f.bounds.Min.X = fixed.Int26_6(int16(u16(f.head, 36)))
 	f.bounds.Min.Y = fixed.Int26_6(int16(u16(f.head, 38)))
 	f.bounds.Max.X = fixed.Int26_6(int16(u16(f.head, 40)))
@@ -295,6 +315,9 @@ func (f *Font) parseHhea() error {
 	f.ascent = int32(int16(u16(f.hhea, 4)))
 	f.descent = int32(int16(u16(f.hhea, 6)))
 	f.nHMetric = int(u16(f.hhea, 34))
+	if f.nHMetric == 0 {
+		return FormatError("bad number of horizontal metrics: 0")
+	}
 	if 4*f.nHMetric+2*(f.nGlyph-f.nHMetric) != len(f.hmtx) {
 		return FormatError(fmt.Sprintf("bad hmtx length: %d", len(f.hmtx)))
 	}
@@ -345,7 +368,7 @@ func (f *Font) parseKern() error {
 		return UnsupportedError(fmt.Sprintf("kern coverage: 0x%04x", coverage))
 	}
 	f.nKern, offset = int(u16(f.kern, offset)), offset+2
-	if 6*f.nKern != length-14 {
+	if 6*f.nKern != length-14 || len(f.kern) < 18+6*f.nKern {
 		return FormatError("bad kern table length")
 	}
 	return nil
@@ -402,6 +425,9 @@ func (f *Font) Index(x rune) Index {
 			return Index(c + cm.delta)
 		} else {
 			offset := int(cm.offset) + 2*(h-len(f.cm)+int(c-cm.start))
+			if offset < 0 || offset+2 > len(f.cmapIndexes) {
+				return 0
+			}
 			return Index(u16(f.cmapIndexes, offset))
 		}
 	}
@@ -417,7 +443,10 @@ func (f *Font) Name(id NameID) string {
 	if err != nil {
 		return ""
 	}
-	offset, length := u16(f.name, 4)+u16(f.name, x+10), u16(f.name, x+8)
+	offset, length := int(u16(f.name, 4))+int(u16(f.name, x+10)), int(u16(f.name, x+8))
+	if len(f.name) < offset+length {
+		return ""
+	}
 	// Return the ASCII value of the encoded string.
 	// The string is encoded as UTF-16 on non-Apple platformIDs; Apple is platformID 1.
 	src := f.name[offset : offset+length]
-- 
2.43.0


From 6629c124795938c65894a34edd241218002594f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 26/36] fix: add a cmap segment's delta to glyphs from the
 glyph index array

---
 truetype/truetype.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/truetype/truetype.go b/truetype/truetype.go
index c15ece4..44e9061 100644
--- a/truetype/truetype.go
+++ b/truetype/truetype.go
@@ -428,7 +428,10 @@ func (f *Font) Index(x rune) Index {
 			if offset < 0 || offset+2 > len(f.cmapIndexes) {
 				return 0
 			}
-			return Index(u16(f.cmapIndexes, offset))
+			if i := u16(f.cmapIndexes, offset); i != 0 {
+				return Index(uint32(i) + cm.delta)
+			}
+			return 0
 		}
 	}
 	return 0
-- 
2.43.0


From 1e88902ca40537987b8195fe3742750b93aed301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:07 +0000
Subject: [PATCH 27/36] fix: keep a glyph in place when the clip cuts its left
 side

---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 9603586..c534d8e 100644
--- a/freetype.go
+++ b/freetype.go
@@ -249,7 +249,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		glyphRect := mask.Bounds().Add(offset)
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
-			mp := image.Point{0, dr.Min.Y - glyphRect.Min.Y}
+			mp := dr.Min.Sub(glyphRect.Min)
 			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
-- 
2.43.0


From 61352206bc72792fd1308bfae26620d3b6326d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:07 +0000
Subject: [PATCH 28/36] fix: quantize the vertical position by
 Options.SubPixelsY

---
 truetype/face.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/truetype/face.go b/truetype/face.go
index 099006f..ae9a9cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -117,9 +117,9 @@ func (o *Options) subPixelsX() (value uint32, halfQuantum, mask fixed.Int26_6) {
 
 func (o *Options) subPixelsY() (value uint32, halfQuantum, mask fixed.Int26_6) {
 	if o != nil {
-		switch o.SubPixelsX {
+		switch o.SubPixelsY {
 		case 1, 2, 4, 8, 16, 32, 64:
-			return subPixels(o.SubPixelsX)
+			return subPixels(o.SubPixelsY)
 		}
 	}
 	// This default value of 1 isn't based on anything scientific, merely that
-- 
2.43.0


From fbd07f1725e0cf6edf7d3259593e87924a060af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 29/36] fix: make a glyph's mask as big as the glyph

---
 freetype.go      | 28 +++++++-------
 truetype/face.go | 98 +++++++++---------------------------------------
 2 files changed, 31 insertions(+), 95 deletions(-)

diff --git a/freetype.go b/freetype.go
index c534d8e..8deddaa 100644
--- a/freetype.go
+++ b/freetype.go
@@ -155,6 +155,10 @@ func (c *Context) drawContour(ps []truetype.Point, dx, dy fixed.Int26_6) {
 	}
 }
 
+// maxMaskSize is the maximum width and height, in pixels, of a glyph's mask.
+// It is arbitrary, but defends against malformed glyphs.
+const maxMaskSize = 1 << 14
+
 // rasterize returns the advance width, glyph mask and integer-pixel offset
 // to render the given glyph at the given sub-pixel offsets.
 // The 26.6 fixed point arguments fx and fy must be in the range [0, 1).
@@ -172,6 +176,9 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	if xmin > xmax || ymin > ymax {
 		return 0, nil, image.Point{}, errors.New("freetype: negative sized glyph")
 	}
+	if xmax-xmin > maxMaskSize || ymax-ymin > maxMaskSize {
+		return 0, nil, image.Point{}, errors.New("freetype: glyph is too large")
+	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
@@ -179,8 +186,10 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	// space. xmin and ymin are typically <= 0.
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
-	// Rasterize the glyph's vectors.
-	c.r.Clear()
+	// Rasterize the glyph's vectors. The bounds are the glyph's and not the
+	// font's, as sub-pixel offsets and hinting can make a glyph bigger than
+	// the font's bounding box.
+	c.r.SetBounds(xmax-xmin, ymax-ymin)
 	e0 := 0
 	for _, e1 := range c.glyphBuf.Ends {
 		c.drawContour(c.glyphBuf.Points[e0:e1], fx, fy)
@@ -257,21 +266,10 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 	return p, nil
 }
 
-// recalc recalculates scale and bounds values from the font size, screen
-// resolution and font metrics, and invalidates the glyph cache.
+// recalc recalculates the scale from the font size and screen resolution, and
+// invalidates the glyph cache.
 func (c *Context) recalc() {
 	c.scale = fixed.Int26_6(c.fontSize * c.dpi * (64.0 / 72.0))
-	if c.f == nil {
-		c.r.SetBounds(0, 0)
-	} else {
-		// Set the rasterizer's bounds to be big enough to handle the largest glyph.
-		b := c.f.Bounds(c.scale)
-		xmin := +int(b.Min.X) >> 6
-		ymin := -int(b.Max.Y) >> 6
-		xmax := +int(b.Max.X+63) >> 6
-		ymax := -int(b.Min.Y-63) >> 6
-		c.r.SetBounds(xmax-xmin, ymax-ymin)
-	}
 	for i := range c.cache {
 		c.cache[i] = cacheEntry{}
 	}
diff --git a/truetype/face.go b/truetype/face.go
index ae9a9cb..35aa39d 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -166,8 +166,7 @@ type glyphCacheKey struct {
 type glyphCacheVal struct {
 	advanceWidth fixed.Int26_6
 	offset       image.Point
-	gw           int
-	gh           int
+	mask         *image.Alpha
 }
 
 type indexCacheEntry struct {
@@ -195,18 +194,6 @@ func NewFace(f *Font, opts *Options) font.Face {
 		a.indexCache[i].rune = -1
 	}
 
-	// Set the rasterizer's bounds to be big enough to handle the largest glyph.
-	b := f.Bounds(a.scale)
-	xmin := +int(b.Min.X) >> 6
-	ymin := -int(b.Max.Y) >> 6
-	xmax := +int(b.Max.X+63) >> 6
-	ymax := -int(b.Min.Y-63) >> 6
-	a.maxw = xmax - xmin
-	a.maxh = ymax - ymin
-	a.masks = image.NewAlpha(image.Rect(0, 0, a.maxw, a.maxh*len(a.glyphCache)))
-	a.r.SetBounds(a.maxw, a.maxh)
-	a.p = facePainter{a}
-
 	return a
 }
 
@@ -220,13 +207,8 @@ type face struct {
 	subPixelY     uint32
 	subPixelBiasY fixed.Int26_6
 	subPixelMaskY fixed.Int26_6
-	masks         *image.Alpha
 	glyphCache    []glyphCacheEntry
 	r             raster.Rasterizer
-	p             raster.Painter
-	paintOffset   int
-	maxw          int
-	maxh          int
 	glyphBuf      GlyphBuf
 	indexCache    [indexCacheLen]indexCacheEntry
 
@@ -289,7 +271,6 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 	cIndex = cIndex*a.subPixelX - uint32(fx/a.subPixelMaskX)
 	cIndex = cIndex*a.subPixelY - uint32(fy/a.subPixelMaskY)
 	cIndex &= uint32(len(a.glyphCache) - 1)
-	a.paintOffset = a.maxh * int(cIndex)
 	k := glyphCacheKey{
 		index: index,
 		fx:    uint8(fx),
@@ -307,15 +288,8 @@ func (a *face) Glyph(dot fixed.Point26_6, r rune) (
 		v = a.glyphCache[cIndex].val
 	}
 
-	dr.Min = image.Point{
-		X: ix + v.offset.X,
-		Y: iy + v.offset.Y,
-	}
-	dr.Max = image.Point{
-		X: dr.Min.X + v.gw,
-		Y: dr.Min.Y + v.gh,
-	}
-	return dr, a.masks, image.Point{Y: a.paintOffset}, v.advanceWidth, true
+	dr = v.mask.Bounds().Add(v.offset).Add(image.Point{ix, iy})
+	return dr, v.mask, image.Point{}, v.advanceWidth, true
 }
 
 func (a *face) GlyphBounds(r rune) (bounds fixed.Rectangle26_6, advance fixed.Int26_6, ok bool) {
@@ -348,8 +322,12 @@ func (a *face) GlyphAdvance(r rune) (advance fixed.Int26_6, ok bool) {
 	return a.glyphBuf.AdvanceWidth, true
 }
 
+// maxMaskSize is the maximum width and height, in pixels, of a glyph's mask.
+// It is arbitrary, but defends against malformed glyphs.
+const maxMaskSize = 1 << 14
+
 // rasterize returns the advance width, integer-pixel offset to render at, and
-// the width and height of the given glyph at the given sub-pixel offsets.
+// the mask of the given glyph at the given sub-pixel offsets.
 //
 // The 26.6 fixed point arguments fx and fy must be in the range [0, 1).
 func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok bool) {
@@ -364,6 +342,9 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	if xmin > xmax || ymin > ymax {
 		return glyphCacheVal{}, false
 	}
+	if xmax-xmin > maxMaskSize || ymax-ymin > maxMaskSize {
+		return glyphCacheVal{}, false
+	}
 	// A TrueType's glyph's nodes can have negative co-ordinates, but the
 	// rasterizer clips anything left of x=0 or above y=0. xmin and ymin are
 	// the pixel offsets, based on the font's FUnit metrics, that let a
@@ -371,30 +352,24 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	// space. xmin and ymin are typically <= 0.
 	fx -= fixed.Int26_6(xmin << 6)
 	fy -= fixed.Int26_6(ymin << 6)
-	// Rasterize the glyph's vectors.
-	a.r.Clear()
-	pixOffset := a.paintOffset * a.maxw
-	clear(a.masks.Pix[pixOffset : pixOffset+a.maxw*a.maxh])
+	// Rasterize the glyph's vectors. The bounds are the glyph's and not the
+	// font's, as sub-pixel offsets and hinting can make a glyph bigger than
+	// the font's bounding box.
+	a.r.SetBounds(xmax-xmin, ymax-ymin)
 	e0 := 0
 	for _, e1 := range a.glyphBuf.Ends {
 		a.drawContour(a.glyphBuf.Points[e0:e1], fx, fy)
 		e0 = e1
 	}
-	a.r.Rasterize(a.p)
+	mask := image.NewAlpha(image.Rect(0, 0, xmax-xmin, ymax-ymin))
+	a.r.Rasterize(raster.NewAlphaSrcPainter(mask))
 	return glyphCacheVal{
 		a.glyphBuf.AdvanceWidth,
 		image.Point{xmin, ymin},
-		xmax - xmin,
-		ymax - ymin,
+		mask,
 	}, true
 }
 
-func clear(pix []byte) {
-	for i := range pix {
-		pix[i] = 0
-	}
-}
-
 // drawContour draws the given closed contour with the given offset.
 func (a *face) drawContour(ps []Point, dx, dy fixed.Int26_6) {
 	if len(ps) == 0 {
@@ -468,40 +443,3 @@ func (a *face) drawContour(ps []Point, dx, dy fixed.Int26_6) {
 		a.r.Add2(q0, start)
 	}
 }
-
-// facePainter is like a raster.AlphaSrcPainter, with an additional Y offset
-// (face.paintOffset) to the painted spans.
-type facePainter struct {
-	a *face
-}
-
-func (p facePainter) Paint(ss []raster.Span, done bool) {
-	m := p.a.masks
-	b := m.Bounds()
-	b.Min.Y = p.a.paintOffset
-	b.Max.Y = p.a.paintOffset + p.a.maxh
-	for _, s := range ss {
-		s.Y += p.a.paintOffset
-		if s.Y < b.Min.Y {
-			continue
-		}
-		if s.Y >= b.Max.Y {
-			return
-		}
-		if s.X0 < b.Min.X {
-			s.X0 = b.Min.X
-		}
-		if s.X1 > b.Max.X {
-			s.X1 = b.Max.X
-		}
-		if s.X0 >= s.X1 {
-			continue
-		}
-		base := (s.Y-m.Rect.Min.Y)*m.Stride - m.Rect.Min.X
-		p := m.Pix[base+s.X0 : base+s.X1]
-		color := uint8(s.Alpha >> 8)
-		for i := range p {
-			p[i] = color
-		}
-	}
-}
-- 
2.43.0


From ff89516cb595c6f0fbdb26e8146ae4c496390f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 30/36] fix: clipping a glyph does not move the source image

---
 freetype.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 8deddaa..19c9688 100644
--- a/freetype.go
+++ b/freetype.go
@@ -259,7 +259,7 @@ func (c *Context) DrawString(s string, p fixed.Point26_6) (fixed.Point26_6, erro
 		dr := c.clip.Intersect(glyphRect)
 		if !dr.Empty() {
 			mp := dr.Min.Sub(glyphRect.Min)
-			draw.DrawMask(c.dst, dr, c.src, image.ZP, mask, mp, draw.Over)
+			draw.DrawMask(c.dst, dr, c.src, mp, mask, mp, draw.Over)
 		}
 		prev, hasPrev = index, true
 	}
-- 
2.43.0


From c8fc1fc23493fdf3f738e6188eef9a5e38c8329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 31/36] fix: fill glyphs by the non-zero winding rule

---
 freetype.go      | 6 +++++-
 truetype/face.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/freetype.go b/freetype.go
index 19c9688..00f7f19 100644
--- a/freetype.go
+++ b/freetype.go
@@ -330,8 +330,12 @@ func (c *Context) SetClip(clip image.Rectangle) {
 
 // NewContext creates a new Context.
 func NewContext() *Context {
+	r := raster.NewRasterizer(0, 0)
+	// Overlapping contours, such as those of a compound glyph's components,
+	// do not leave holes in a TrueType glyph.
+	r.UseNonZeroWinding = true
 	return &Context{
-		r:        raster.NewRasterizer(0, 0),
+		r:        r,
 		fontSize: 12,
 		dpi:      72,
 		scale:    12 << 6,
diff --git a/truetype/face.go b/truetype/face.go
index 35aa39d..1b033cb 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -184,6 +184,9 @@ func NewFace(f *Font, opts *Options) font.Face {
 	}
 	a.subPixelX, a.subPixelBiasX, a.subPixelMaskX = opts.subPixelsX()
 	a.subPixelY, a.subPixelBiasY, a.subPixelMaskY = opts.subPixelsY()
+	// Overlapping contours, such as those of a compound glyph's components,
+	// do not leave holes in a TrueType glyph.
+	a.r.UseNonZeroWinding = true
 
 	// Fill the cache with invalid entries. Valid glyph cache entries have fx
 	// and fy in the range [0, 64). Valid index cache entries have rune >= 0.
-- 
2.43.0


From d73e5bbc213516e15fde304d17f7faf792926494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 32/36] fix: refuse to draw glyphs that are too far away to
 calculate their size

---
 freetype.go      | 8 ++++++++
 truetype/face.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/freetype.go b/freetype.go
index 00f7f19..4ff032f 100644
--- a/freetype.go
+++ b/freetype.go
@@ -159,6 +159,11 @@ func (c *Context) drawContour(ps []truetype.Point, dx, dy fixed.Int26_6) {
 // It is arbitrary, but defends against malformed glyphs.
 const maxMaskSize = 1 << 14
 
+// maxCoord is the maximum absolute value of a glyph's 26.6 fixed point
+// co-ordinates. Calculating the size of a malformed glyph that is further
+// away could overflow.
+const maxCoord = 1 << 30
+
 // rasterize returns the advance width, glyph mask and integer-pixel offset
 // to render the given glyph at the given sub-pixel offsets.
 // The 26.6 fixed point arguments fx and fy must be in the range [0, 1).
@@ -168,6 +173,9 @@ func (c *Context) rasterize(glyph truetype.Index, fx, fy fixed.Int26_6) (
 	if err := c.glyphBuf.Load(c.f, c.scale, glyph, c.hinting); err != nil {
 		return 0, nil, image.Point{}, err
 	}
+	if b := c.glyphBuf.Bounds; b.Min.X < -maxCoord || b.Min.Y < -maxCoord || b.Max.X > maxCoord || b.Max.Y > maxCoord {
+		return 0, nil, image.Point{}, errors.New("freetype: glyph is too far away")
+	}
 	// Calculate the integer-pixel bounds for the glyph.
 	xmin := int(fx+c.glyphBuf.Bounds.Min.X) >> 6
 	ymin := int(fy-c.glyphBuf.Bounds.Max.Y) >> 6
diff --git a/truetype/face.go b/truetype/face.go
index 1b033cb..049f9d6 100644
--- a/truetype/face.go
+++ b/truetype/face.go
@@ -329,6 +329,11 @@ func (a *face) GlyphAdvance(r rune) (advance fixed.Int26_6, ok bool) {
 // It is arbitrary, but defends against malformed glyphs.
 const maxMaskSize = 1 << 14
 
+// maxCoord is the maximum absolute value of a glyph's 26.6 fixed point
+// co-ordinates. Calculating the size of a malformed glyph that is further
+// away could overflow.
+const maxCoord = 1 << 30
+
 // rasterize returns the advance width, integer-pixel offset to render at, and
 // the mask of the given glyph at the given sub-pixel offsets.
 //
@@ -337,6 +342,9 @@ func (a *face) rasterize(index Index, fx, fy fixed.Int26_6) (v glyphCacheVal, ok
 	if err := a.glyphBuf.Load(a.f, a.scale, index, a.hinting); err != nil {
 		return glyphCacheVal{}, false
 	}
+	if b := a.glyphBuf.Bounds; b.Min.X < -maxCoord || b.Min.Y < -maxCoord || b.Max.X > maxCoord || b.Max.Y > maxCoord {
+		return glyphCacheVal{}, false
+	}
 	// Calculate the integer-pixel bounds for the glyph.
 	xmin := int(fx+a.glyphBuf.Bounds.Min.X) >> 6
 	ymin := int(fy-a.glyphBuf.Bounds.Max.Y) >> 6
-- 
2.43.0


From 01132faba185208aab5cf4a3abfc2f803d7e2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:54 +0000
Subject: [PATCH 33/36] fix: stroke a quadratic whose control point is at an
 end in its own direction

The normal of the line from the end to the control point was used, which is
zero (or arbitrary) when they coincide: the stroke started as a wedge.
---
 raster/stroke.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/raster/stroke.go b/raster/stroke.go
index 0049afb..28dcafd 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -333,6 +333,15 @@ func (k *stroker) Add1(b fixed.Point26_6) {
 func (k *stroker) Add2(b, c fixed.Point26_6) {
 	ab := b.Sub(k.a)
 	bc := c.Sub(b)
+
+	// Approximate nearly-degenerate quadratics by linear segments.
+	abIsSmall := pDot(ab, ab) < epsilon
+	bcIsSmall := pDot(bc, bc) < epsilon
+	if abIsSmall || bcIsSmall {
+		k.Add1(c)
+		return
+	}
+
 	abnorm := pRot90CCW(pNorm(ab, k.u))
 	if len(k.r) == 0 {
 		k.p.Start(k.a.Add(abnorm))
@@ -342,17 +351,6 @@ func (k *stroker) Add2(b, c fixed.Point26_6) {
 	}
 	k.anorm = abnorm
 
-	// Approximate nearly-degenerate quadratics by linear segments.
-	abIsSmall := pDot(ab, ab) < epsilon
-	bcIsSmall := pDot(bc, bc) < epsilon
-	if abIsSmall || bcIsSmall {
-		acnorm := pRot90CCW(pNorm(c.Sub(k.a), k.u))
-		k.p.Add1(c.Add(acnorm))
-		k.r.Add1(c.Sub(acnorm))
-		k.a, k.anorm = c, acnorm
-		return
-	}
-
 	// The quadratic segment (k.a, b, c) has a point of maximum curvature.
 	// If this occurs at an end point, we process the segment as a whole.
 	t := curviest2(k.a, b, c)
-- 
2.43.0


From 5f7db405b7c157818002c8e6cb22382ad5ae8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 34/36] fix: a repeated point in a stroked path has no effect

A segment of no length has no direction: its normal is zero, so that the stroke
lost its cap or join there.
---
 raster/stroke.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raster/stroke.go b/raster/stroke.go
index 28dcafd..4134ce2 100644
--- a/raster/stroke.go
+++ b/raster/stroke.go
@@ -317,6 +317,10 @@ func (k *stroker) addNonCurvy2(b, c fixed.Point26_6) {
 
 // Add1 adds a linear segment to the stroker.
 func (k *stroker) Add1(b fixed.Point26_6) {
+	if b == k.a {
+		// A segment of no length has no direction.
+		return
+	}
 	bnorm := pRot90CCW(pNorm(b.Sub(k.a), k.u))
 	if len(k.r) == 0 {
 		k.p.Start(k.a.Add(bnorm))
-- 
2.43.0


From 6ea001bf2976ae7aaf41dafaa46a4d02603df090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:01 +0000
Subject: [PATCH 35/36] fix: step lines of more than 2^19 pixels without
 overflow

---
 raster/raster.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/raster/raster.go b/raster/raster.go
index 0ff7e9c..97309be 100644
--- a/raster/raster.go
+++ b/raster/raster.go
@@ -253,17 +253,18 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		// scanlines, all intermediate scanlines go through the full height of
 		// the row, or 64 units in 26.6 fixed point format.
 		var (
-			p, q, edge0, edge1 fixed.Int26_6
-			yiDelta            int
+			p               int64
+			q, edge0, edge1 fixed.Int26_6
+			yiDelta         int
 		)
 		if dy > 0 {
-			p, q = (64-y0f)*dx, dy
+			p, q = int64(64-y0f)*int64(dx), dy
 			edge0, edge1, yiDelta = 0, 64, 1
 		} else {
-			p, q = y0f*dx, -dy
+			p, q = int64(y0f)*int64(dx), -dy
 			edge0, edge1, yiDelta = 64, 0, -1
 		}
-		xDelta, xRem := p/q, p%q
+		xDelta, xRem := fixed.Int26_6(p/int64(q)), fixed.Int26_6(p%int64(q))
 		if xRem < 0 {
 			xDelta -= 1
 			xRem += q
@@ -275,8 +276,8 @@ func (r *Rasterizer) Add1(b fixed.Point26_6) {
 		r.setCell(int(x)>>6, yi)
 		if yi != y1i {
 			// Do all the intermediate scanlines.
-			p = 64 * dx
-			fullDelta, fullRem := p/q, p%q
+			p = 64 * int64(dx)
+			fullDelta, fullRem := fixed.Int26_6(p/int64(q)), fixed.Int26_6(p%int64(q))
 			if fullRem < 0 {
 				fullDelta -= 1
 				fullRem += q
-- 
2.43.0


From 1bbad1baa3422dc1d1962537a47647e9fecb3dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 36/36] fix: round the least value of a hinting program
 correctly

---
 truetype/hint.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/truetype/hint.go b/truetype/hint.go
index 533b01d..06afae8 100644
--- a/truetype/hint.go
+++ b/truetype/hint.go
@@ -1904,17 +1904,18 @@ func (h *hinter) round(x fixed.Int26_6) fixed.Int26_6 {
 		}
 		return ret + h.gs.roundPhase
 	}
-	ret := -x - h.gs.roundPhase + h.gs.roundThreshold
+	// The opposite of the least value does not fit in 32 bits.
+	ret := -int64(x) - int64(h.gs.roundPhase) + int64(h.gs.roundThreshold)
 	if h.gs.roundSuper45 {
-		ret /= h.gs.roundPeriod
-		ret *= h.gs.roundPeriod
+		ret /= int64(h.gs.roundPeriod)
+		ret *= int64(h.gs.roundPeriod)
 	} else {
-		ret &= -h.gs.roundPeriod
+		ret &= -int64(h.gs.roundPeriod)
 	}
 	if ret < 0 {
 		ret = 0
 	}
-	return -ret - h.gs.roundPhase
+	return fixed.Int26_6(-ret - int64(h.gs.roundPhase))
 }
 
 func bool2int32(b bool) int32 {
-- 
2.43.0

