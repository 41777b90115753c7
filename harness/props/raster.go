package props

import (
	"fmt"
	"image"
	"math"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type pt = fixed.Point26_6

func fp(x, y int) pt { return pt{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)} }

func toRef(p pt) ref.Pt { return ref.Pt{X: float64(p.X) / 64, Y: float64(p.Y) / 64} }

// seg is a segment of a path: 1, 2 or 3 points.
type seg []pt

type curve struct {
	start pt
	segs  []seg
}

func (c curve) String() string {
	s := fmt.Sprintf("S%d,%d", c.start.X, c.start.Y)
	for _, g := range c.segs {
		s += fmt.Sprintf(" A%d", len(g))
		for _, p := range g {
			s += fmt.Sprintf(",%d,%d", p.X, p.Y)
		}
	}
	return s
}

func curvesString(cs []curve) string {
	s := ""
	for _, c := range cs {
		s += c.String() + " "
	}
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

func (c curve) addTo(a raster.Adder) {
	a.Start(c.start)
	for _, g := range c.segs {
		switch len(g) {
		case 1:
			a.Add1(g[0])
		case 2:
			a.Add2(g[0], g[1])
		case 3:
			a.Add3(g[0], g[1], g[2])
		}
	}
}

func (c curve) end() pt {
	if len(c.segs) == 0 {
		return c.start
	}
	g := c.segs[len(c.segs)-1]
	return g[len(g)-1]
}

func (c curve) contour() ref.Contour {
	k := ref.Contour{toRef(c.start)}
	p := c.start
	for _, g := range c.segs {
		switch len(g) {
		case 1:
			k = append(k, toRef(g[0]))
		case 2:
			k.Quad(toRef(p), toRef(g[0]), toRef(g[1]))
		case 3:
			k.Cubic(toRef(p), toRef(g[0]), toRef(g[1]), toRef(g[2]))
		}
		p = g[len(g)-1]
	}
	return k
}

// collector checks the span contract while it records the picture.
type collector struct {
	t       *pbt.T
	w, h    int
	dx, dy  int
	desc    func() string
	spans   []raster.Span
	pix     []uint32
	dones   int
	batches int
}

func (c *collector) Paint(ss []raster.Span, done bool) {
	if c.dones > 0 {
		c.t.Failf("painted after the last batch: %s", c.desc())
	}
	c.batches++
	for _, s := range ss {
		if s.X0 >= s.X1 {
			if s.X0 == 0 && s.X1 == 0 && s.Y == 0 && s.Alpha == 0 && done {
				continue // the final zero span the documentation speaks of
			}
			c.t.Failf("empty span %v: %s", s, c.desc())
		}
		if s.Alpha == 0 || s.Alpha > 0xffff {
			c.t.Failf("span %v has alpha %#x: %s", s, s.Alpha, c.desc())
		}
		if s.X0-c.dx < 0 || s.X1-c.dx > c.w || s.Y-c.dy < 0 || s.Y-c.dy >= c.h {
			c.t.Failf("span %v lies outside %dx%d+%d+%d: %s", s, c.w, c.h, c.dx, c.dy, c.desc())
		}
		if n := len(c.spans); n > 0 {
			l := c.spans[n-1]
			if s.Y < l.Y || s.Y == l.Y && s.X0 < l.X1 {
				c.t.Failf("span %v follows %v: %s", s, l, c.desc())
			}
		}
		c.spans = append(c.spans, s)
		for x := s.X0; x < s.X1; x++ {
			c.pix[(s.Y-c.dy)*c.w+x-c.dx] = s.Alpha
		}
	}
	if done {
		c.dones++
	}
	// The painter may use all of ss as scratch space.
	for i := range ss {
		ss[i] = raster.Span{Y: -7, X0: 12345, X1: -12345, Alpha: 0xdeadbeef}
	}
}

// rasterize runs r into a collector.
func rasterize(t *pbt.T, r *raster.Rasterizer, w, h int, desc func() string) *collector {
	if w < 0 {
		w = 0
	}
	if h < 0 {
		h = 0
	}
	c := &collector{t: t, w: w, h: h, dx: r.Dx, dy: r.Dy, desc: desc, pix: make([]uint32, w*h)}
	r.Rasterize(c)
	if c.dones != 1 {
		t.Failf("the last batch was signalled %d times: %s", c.dones, desc())
	}
	return c
}

func genDim(t *pbt.T) int {
	switch t.Weighted(6, 3, 2, 1) {
	case 0:
		return t.Int(1, 12)
	case 1:
		return t.Int(1, 40)
	case 2:
		return t.Int(50, 90)
	}
	return t.Int(110, 180)
}

// genDims makes the width and height of an image, which may be long or tall.
func genDims(t *pbt.T) (w, h int) {
	if t.Chance(1, 50) {
		w, h = t.Int(180, 2500), t.Int(1, 30)
		if t.Chance(1, 10) {
			// Beyond 16-bit co-ordinates.
			t.Class("a side over 4096")
			w, h = t.Int(4096, 70000), t.Int(1, 3)
		}
		if t.Bool() {
			w, h = h, w
		}
		return w, h
	}
	return genDim(t), genDim(t)
}

// genCoord makes a co-ordinate (26.6) around an extent of n pixels.
func genCoord(t *pbt.T, n int) int {
	switch t.Weighted(6, 4, 2, 2, 1) {
	case 0: // inside, on the pixel grid
		return 64 * t.Int(0, n)
	case 1: // inside
		return t.Int(0, 64*n)
	case 2: // a little outside
		return t.Int(-200, 64*n+200)
	case 3: // near a grid line
		return 64*t.Int(-2, n+2) + pbt.Pick(t, 0, 1, -1, 32, 2)
	}
	// far outside
	if t.Chance(1, 12) {
		t.Class("co-ordinates of thousands of pixels")
		if t.Chance(1, 10) {
			return t.Sym(1 << t.Int(23, 27))
		}
		return t.Sym(1 << t.Int(18, 22))
	}
	switch t.Int(0, 2) {
	case 0:
		return t.Sym(64 * 300)
	case 1:
		return 64*n + t.Int(0, 64*500)
	}
	return t.Sym(64 * 3000)
}

func genPt(t *pbt.T, w, h int) pt { return fp(genCoord(t, w), genCoord(t, h)) }

// genPolygon makes a closed polygon.
func genPolygon(t *pbt.T, w, h int) curve {
	var c curve
	switch t.Weighted(4, 3, 2, 2, 1, 1) {
	case 0: // random vertices
		n := t.Int(2, 7)
		c.start = genPt(t, w, h)
		for i := 0; i < n; i++ {
			c.segs = append(c.segs, seg{genPt(t, w, h)})
		}
	case 1: // rectangle
		a, b := genPt(t, w, h), genPt(t, w, h)
		c.start = a
		c.segs = []seg{{pt{X: b.X, Y: a.Y}}, {b}, {pt{X: a.X, Y: b.Y}}}
	case 2: // sliver
		a, b := genPt(t, w, h), genPt(t, w, h)
		c.start = a
		c.segs = []seg{{b}, {b.Add(fp(t.Sym(70), t.Sym(70)))}, {a.Add(fp(t.Sym(70), t.Sym(70)))}}
	case 3: // a small polygon
		o := genPt(t, w, h)
		c.start = o
		for i, n := 0, t.Int(2, 6); i < n; i++ {
			c.segs = append(c.segs, seg{o.Add(fp(t.Sym(150), t.Sym(150)))})
		}
	case 4: // comb: many cells in a row and many spans
		y0, y1 := genCoord(t, h), genCoord(t, h)
		x, step := t.Sym(100), t.Int(20, 130)
		c.start = fp(x, y0)
		for i, n := 0, t.Int(5, 60); i < n; i++ {
			x += step
			c.segs = append(c.segs, seg{fp(x, y1)})
			if t.Chance(1, 3) {
				x += t.Int(0, 40)
			}
			c.segs = append(c.segs, seg{fp(x, y0)})
		}
	case 5: // zigzag by height: many rows
		x0, x1 := genCoord(t, w), genCoord(t, w)
		y, step := t.Sym(100), t.Int(20, 130)
		c.start = fp(x0, y)
		for i, n := 0, t.Int(5, 40); i < n; i++ {
			y += step
			c.segs = append(c.segs, seg{fp(x1, y)}, seg{fp(x0, y+t.Int(0, 30))})
		}
	}
	c.segs = append(c.segs, seg{c.start})
	return c
}

func genPolygons(t *pbt.T, w, h int) []curve {
	var cs []curve
	for i, n := 0, t.Size(1, 5); i < n; i++ {
		if i > 0 && t.Chance(1, 6) {
			// The same again: winding number 2, or 0 when reversed.
			c := cs[t.Int(0, i-1)]
			if t.Bool() {
				c = c.reversed()
			}
			cs = append(cs, c)
			continue
		}
		cs = append(cs, genPolygon(t, w, h))
	}
	return cs
}

func (c curve) reversed() curve {
	ps := []pt{c.start}
	var ns []int
	for _, g := range c.segs {
		ps = append(ps, g...)
		ns = append(ns, len(g))
	}
	r := curve{start: ps[len(ps)-1]}
	k := len(ps) - 1
	for i := len(ns) - 1; i >= 0; i-- {
		var g seg
		for j := 0; j < ns[i]; j++ {
			k--
			g = append(g, ps[k])
		}
		r.segs = append(r.segs, g)
	}
	return r
}

func (c curve) translated(d pt) curve {
	r := curve{start: c.start.Add(d)}
	for _, g := range c.segs {
		var n seg
		for _, p := range g {
			n = append(n, p.Add(d))
		}
		r.segs = append(r.segs, n)
	}
	return r
}

// genCurve makes a closed curve with any segments.
func genCurve(t *pbt.T, w, h int) curve {
	var c curve
	local := t.Chance(1, 3)
	o := genPt(t, w, h)
	p := func() pt {
		if local {
			return o.Add(fp(t.Sym(400), t.Sym(400)))
		}
		return genPt(t, w, h)
	}
	c.start = p()
	for i, n := 0, t.Int(1, 5); i < n; i++ {
		k := t.Int(1, 3)
		var g seg
		for j := 0; j < k; j++ {
			if j > 0 && t.Chance(1, 10) {
				g = append(g, g[j-1])
				continue
			}
			g = append(g, p())
		}
		c.segs = append(c.segs, g)
	}
	if t.Chance(1, 2) || c.end() == c.start {
		c.segs = append(c.segs, seg{c.start})
	} else {
		c.segs = append(c.segs, seg{p(), c.start})
	}
	return c
}

func genCurves(t *pbt.T, w, h int) []curve {
	var cs []curve
	for i, n := 0, t.Size(1, 3); i < n; i++ {
		cs = append(cs, genCurve(t, w, h))
	}
	return cs
}

// genPath makes any path, closed or not.
func genPath(t *pbt.T, w, h int) []curve {
	var cs []curve
	for i, n := 0, t.Size(0, 4); i < n; i++ {
		switch t.Int(0, 2) {
		case 0:
			cs = append(cs, genPolygon(t, w, h))
		case 1:
			cs = append(cs, genCurve(t, w, h))
		case 2:
			c := genCurve(t, w, h)
			c.segs = c.segs[:t.Int(0, len(c.segs))]
			cs = append(cs, c)
		}
	}
	return cs
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "R01",
		Rule:  "random path (closed or open, lines, quadratics, cubics; inside, around and far outside the image), random size (0 to 180) and paint offset; non-trivial: at least 8 spans were painted",
		Quick: 800000, Thorough: 12000000,
		Run: runR01,
	})
	pbt.Register(&pbt.Prop{
		ID:    "R02",
		Rule:  "1-5 random closed polygons (random, rectangles, slivers, tiny, combs, repeated for winding 2) inside, across and outside the image borders, both fill rules; non-trivial: the picture has at least one partially covered pixel",
		Quick: 800000, Thorough: 6000000,
		Run: runR02,
	})
	pbt.Register(&pbt.Prop{
		ID:    "R03",
		Rule:  "1-3 random closed curves of lines, quadratics and cubics; plus reversed, split and straight-line-as-curve variants; non-trivial: at least one curved segment with control point off the chord by more than a pixel, and at least one partially covered pixel",
		Quick: 800000, Thorough: 6000000,
		Run: runR03,
	})
	pbt.Register(&pbt.Prop{
		ID:    "R04",
		Rule:  "a rasterizer with a random history (paths, sizes, fill rules, offsets, painting or not, cleared or resized), then a random path; compared with a new rasterizer; non-trivial: the history drew something and the final picture has at least 4 spans",
		Quick: 800000, Thorough: 6000000,
		Run: runR04,
	})
}

func runR01(t *pbt.T) {
	w, h := genDims(t)
	if t.Chance(1, 20) {
		w = 0
	}
	if t.Chance(1, 20) {
		h = 0
	}
	cs := genPath(t, w, h)
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = t.Bool()
	if t.Bool() {
		r.Dx, r.Dy = t.Sym(200), t.Sym(200)
		if t.Chance(1, 20) {
			r.Dx, r.Dy = t.Sym(1<<28), t.Sym(1<<28)
		}
	}
	desc := func() string {
		return fmt.Sprintf("%dx%d nonzero=%v D=%d,%d %s", w, h, r.UseNonZeroWinding, r.Dx, r.Dy, curvesString(cs))
	}
	for _, c := range cs {
		c.addTo(r)
	}
	c := rasterize(t, r, w, h, desc)
	t.Sample("%s -> %d spans in %d batches", desc(), len(c.spans), c.batches)
	t.Checks(len(c.spans))
	if len(c.spans) >= 8 {
		t.NonTrivial()
	}
	if c.batches > 1 {
		t.Class("several batches")
	}
}

func runR02(t *pbt.T) {
	w, h := genDims(t)
	cs := genPolygons(t, w, h)
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = t.Bool()
	desc := func() string {
		return fmt.Sprintf("%dx%d nonzero=%v %s", w, h, r.UseNonZeroWinding, curvesString(cs))
	}
	cov := ref.NewCoverage(w, h, 1.0/32)
	for _, c := range cs {
		c.addTo(r)
		cov.Add(c.contour())
	}
	cov.Finish()
	got := rasterize(t, r, w, h, desc)
	partial := checkCoverage(t, got.pix, cov, r.UseNonZeroWinding, 1.0/32, math.Inf(1), desc)
	t.Sample("%s -> %d spans, %d partial pixels", desc(), len(got.spans), partial)
	if partial > 0 {
		t.NonTrivial()
	}
	t.Class("nonzero=%v", r.UseNonZeroWinding)
}

// checkCoverage compares a picture with the reference. perEdge is the
// tolerance per touching edge, max the most that is tolerated in all.
func checkCoverage(t *pbt.T, pix []uint32, cov *ref.Coverage, nonZero bool, perEdge, max float64, desc func() string) (partial int) {
	for y := 0; y < cov.H; y++ {
		for x := 0; x < cov.W; x++ {
			i := y*cov.W + x
			a := cov.Area[i]
			want := ref.Fold(a, nonZero)
			if n := cov.Touch[i]; n == 0 {
				full := uint32(0)
				if math.Round(want) == 1 {
					full = 0xffff
				}
				if pix[i] != full {
					t.Failf("pixel %d,%d: alpha %#x, but no edge is near and the winding number is %v: %s", x, y, pix[i], math.Round(a), desc())
				}
			} else {
				partial++
				tol := math.Min(float64(n)*perEdge, max) + 1.0/2048
				if tol < 1 && math.Abs(float64(pix[i])/0xffff-want) > tol {
					t.Failf("pixel %d,%d: alpha %#x = %.4f, want %.4f (area %.4f) within %.4f, %d edges near: %s", x, y, pix[i], float64(pix[i])/0xffff, want, a, tol, n, desc())
				}
			}
		}
	}
	t.Checks(cov.W * cov.H)
	return partial
}

func runR03(t *pbt.T) {
	w, h := genDims(t)
	cs := genCurves(t, w, h)
	variant := t.Int(0, 3)
	draw := cs
	switch variant {
	case 1:
		draw = nil
		for _, c := range cs {
			draw = append(draw, c.reversed())
		}
	case 2:
		// Replace lines by evenly spaced curves.
		draw = nil
		for _, c := range cs {
			n := curve{start: c.start}
			p := c.start
			for _, g := range c.segs {
				if len(g) == 1 {
					d := g[0].Sub(p)
					switch {
					case d.X%2 == 0 && d.Y%2 == 0 && t.Bool():
						g = seg{p.Add(fp(int(d.X/2), int(d.Y/2))), g[0]}
					case d.X%3 == 0 && d.Y%3 == 0:
						g = seg{p.Add(fp(int(d.X/3), int(d.Y/3))), p.Add(fp(int(2*d.X/3), int(2*d.Y/3))), g[0]}
					}
				}
				n.segs = append(n.segs, g)
				p = g[len(g)-1]
			}
			draw = append(draw, n)
		}
	case 3:
		// Split some curves in the middle.
		draw = nil
		for _, c := range cs {
			n := curve{start: c.start}
			p := c.start
			for _, g := range c.segs {
				switch {
				case len(g) == 2 && t.Bool():
					m01, m12 := mid(p, g[0]), mid(g[0], g[1])
					n.segs = append(n.segs, seg{m01, mid(m01, m12)}, seg{m12, g[1]})
				case len(g) == 3 && t.Bool():
					m01, m12, m23 := mid(p, g[0]), mid(g[0], g[1]), mid(g[1], g[2])
					ma, mb := mid(m01, m12), mid(m12, m23)
					n.segs = append(n.segs, seg{m01, ma, mid(ma, mb)}, seg{mb, m23, g[2]})
				default:
					n.segs = append(n.segs, g)
				}
				p = g[len(g)-1]
			}
			draw = append(draw, n)
		}
	}
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = t.Bool()
	desc := func() string {
		return fmt.Sprintf("%dx%d nonzero=%v variant=%d %s", w, h, r.UseNonZeroWinding, variant, curvesString(draw))
	}
	margin, tol := curveTol(w, h)
	cov := ref.NewCoverage(w, h, margin)
	curved := false
	for _, c := range cs {
		p := c.start
		for _, g := range c.segs {
			cov.Strands(curve{start: p, segs: []seg{g}}.contour())
			if len(g) > 1 {
				q := g[len(g)-1]
				d0, d1 := q.Sub(p), g[0].Sub(p)
				cr := math.Abs(float64(d0.X)*float64(d1.Y) - float64(d0.Y)*float64(d1.X))
				if l := math.Hypot(float64(d0.X), float64(d0.Y)); l > 0 && cr/l > 64 || l == 0 {
					curved = true
				}
			}
			p = g[len(g)-1]
		}
	}
	cov.Finish()
	for _, c := range draw {
		c.addTo(r)
	}
	got := rasterize(t, r, w, h, desc)
	partial := checkCoverage(t, got.pix, cov, r.UseNonZeroWinding, tol, 1, desc)
	t.Sample("%s -> %d spans, %d pixels near the boundary", desc(), len(got.spans), partial)
	if partial > 0 && curved {
		t.NonTrivial()
	}
	t.Class("variant=%d", variant)
}

// curveTol is the tolerance for curves, in pixels and in alpha per segment:
// the flattening is finer for small images. A segment is flattened until its
// second difference is below 16, 32 or 64 units (of 1/64 pixel) in either
// co-ordinate, which leaves a deviation of 3, 6 or 12 units in each, and the
// roundings add up to 5 units.
func curveTol(w, h int) (margin, alpha float64) {
	switch m := max(w, h); {
	case m <= 24:
		return 0.15, 0.2
	case m <= 120:
		return 0.2, 0.3
	}
	return 0.3, 0.5
}

func mid(a, b pt) pt { return fp(int(a.X+b.X)>>1, int(a.Y+b.Y)>>1) }

func spansEqual(a, b []raster.Span) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return n
	}
	return -1
}

func runR04(t *pbt.T) {
	w, h := genDims(t)
	r := raster.NewRasterizer(w, h)
	history := ""
	drew := false
	for i, k := 0, manySteps(t, t.Weighted(1, 4), 4); i < k; i++ {
		switch t.Weighted(8, 2, 2, 2, 2) {
		case 0:
			cs := genPath(t, w, h)
			for _, c := range cs {
				c.addTo(r)
			}
			history += fmt.Sprintf("add(%s); ", curvesString(cs))
			drew = drew || len(cs) > 0
		case 1:
			r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {}))
			history += "rasterize; "
		case 2:
			r.Clear()
			history += "clear; "
		case 3:
			w, h = genDims(t)
			r.SetBounds(w, h)
			history += fmt.Sprintf("bounds(%d,%d); ", w, h)
		case 4:
			r.Dx, r.Dy = t.Sym(50), t.Sym(50)
			if t.Chance(1, 20) {
				r.Dx, r.Dy = t.Sym(1<<28), t.Sym(1<<28)
			}
			r.UseNonZeroWinding = t.Bool()
		}
	}
	if t.Bool() {
		w, h = genDims(t)
		if t.Chance(1, 12) {
			w = -w
		}
		r.SetBounds(w, h)
		history += fmt.Sprintf("bounds(%d,%d)", w, h)
	} else {
		r.Clear()
		history += "clear"
	}
	pw := w
	if pw < 0 {
		pw = 3
	}
	poly := t.Bool()
	var cs []curve
	if poly {
		cs = genPolygons(t, pw, h)
	} else {
		cs = genPath(t, pw, h)
	}
	desc := func() string {
		return fmt.Sprintf("%dx%d nonzero=%v D=%d,%d after %s: %s", w, h, r.UseNonZeroWinding, r.Dx, r.Dy, history, curvesString(cs))
	}
	n := raster.NewRasterizer(w, h)
	n.UseNonZeroWinding = r.UseNonZeroWinding
	if w < 0 {
		w = 0
	}
	var path raster.Path
	for _, c := range cs {
		c.addTo(r)
		c.addTo(&path)
	}
	n.AddPath(path)
	got := rasterize(t, r, w, h, desc)
	want := rasterize(t, n, w, h, desc)
	for i := range want.spans {
		want.spans[i].Y += r.Dy
		want.spans[i].X0 += r.Dx
		want.spans[i].X1 += r.Dx
	}
	if i := spansEqual(got.spans, want.spans); i >= 0 {
		t.Failf("%s: span %d is %v with a used rasterizer, %v with a new one", desc(), i, at(got.spans, i), at(want.spans, i))
	}
	again := rasterize(t, r, w, h, desc)
	if i := spansEqual(got.spans, again.spans); i >= 0 {
		t.Failf("%s: span %d is %v, but %v when rasterized again", desc(), i, at(got.spans, i), at(again.spans, i))
	}
	if poly {
		// Whole-pixel translation, with bounds large enough on both sides.
		d := image.Pt(t.Sym(40), t.Sym(40))
		m := raster.NewRasterizer(w, h)
		m.UseNonZeroWinding = r.UseNonZeroWinding
		for _, c := range cs {
			c.translated(fp(64*d.X, 64*d.Y)).addTo(m)
		}
		moved := rasterize(t, m, w, h, desc)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				u, v := x+d.X, y+d.Y
				if u < 0 || v < 0 || u >= w || v >= h {
					continue
				}
				if a, b := want.pix[y*w+x], moved.pix[v*w+u]; a != b {
					t.Failf("%s: pixel %d,%d has alpha %#x, but %#x when the polygon is moved by %v", desc(), x, y, a, b, d)
				}
			}
		}
	}
	t.Sample("%s -> %d spans", desc(), len(got.spans))
	t.Checks(len(got.spans))
	if drew && len(got.spans) >= 4 {
		t.NonTrivial()
	}
	t.Class("poly=%v", poly)
}

func at(ss []raster.Span, i int) any {
	if i < len(ss) {
		return ss[i]
	}
	return "missing"
}
