package props

import (
	"fmt"
	"math"
	"slices"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "R05",
		Rule:  "1-3 open polylines of 1-5 segments longer than the width (any angles, reversals, straight continuations, repeated points), width 0.5 to 40 pixels, every cap and join style; the stroked path's winding is compared with the ideal region at sample points in and around it, and one case in three is rasterized; non-trivial: at least one join and 20 decided sample points on both sides",
		Quick: 80000, Thorough: 1500000,
		Run: runR05,
	})
	pbt.Register(&pbt.Prop{
		ID:    "R06",
		Rule:  "1-2 paths of quadratics mixed with lines, width 0.5 to 30 pixels, round caps and joins, incl. hairpins, near-straight curves, control points at an end, repeated points and smooth chains of short curves; winding of the stroked path compared with the distance to the curve at sample points; reversed path compared too; non-trivial: a curve bending by more than 10 degrees and 20 decided points on both sides",
		Quick: 40000, Thorough: 800000,
		Run: runR06,
	})
	pbt.Register(&pbt.Prop{
		ID:    "R07",
		Rule:  "random call sequences into a Path and a recording Adder; replay, append, String, Clear, strokes into Path / recorder / rasterizer, caller-supplied caps and joins; non-trivial: at least 4 calls, or at least one join",
		Quick: 1000000, Thorough: 8000000,
		Run: runR07,
	})
}

// winding of a set of closed polygons around p.
func winding(cs []ref.Contour, p ref.Pt) int {
	w := 0
	for _, c := range cs {
		n := len(c)
		a := c[n-1]
		for i := 0; i < n; i++ {
			b := c[i]
			if (a.Y <= p.Y) != (b.Y <= p.Y) {
				x := a.X + (p.Y-a.Y)/(b.Y-a.Y)*(b.X-a.X)
				if x > p.X {
					if b.Y > a.Y {
						w++
					} else {
						w--
					}
				}
			}
			a = b
		}
	}
	return w
}

// adderRec records calls.
type adderRec struct {
	cs []curve
}

func (r *adderRec) Start(a pt) { r.cs = append(r.cs, curve{start: a}) }
func (r *adderRec) add(g seg) {
	c := &r.cs[len(r.cs)-1]
	c.segs = append(c.segs, g)
}
func (r *adderRec) Add1(b pt)       { r.add(seg{b}) }
func (r *adderRec) Add2(b, c pt)    { r.add(seg{b, c}) }
func (r *adderRec) Add3(b, c, d pt) { r.add(seg{b, c, d}) }

func (r *adderRec) contours() (ks []ref.Contour) {
	for _, c := range r.cs {
		ks = append(ks, c.contour())
	}
	return
}

type vec = ref.Pt

func sub(a, b vec) vec         { return vec{X: a.X - b.X, Y: a.Y - b.Y} }
func addv(a, b vec) vec        { return vec{X: a.X + b.X, Y: a.Y + b.Y} }
func mul(a vec, s float64) vec { return vec{X: a.X * s, Y: a.Y * s} }
func dot(a, b vec) float64     { return a.X*b.X + a.Y*b.Y }
func cross(a, b vec) float64   { return a.X*b.Y - a.Y*b.X }
func norm(a vec) float64       { return math.Hypot(a.X, a.Y) }
func unit(a vec) vec           { return mul(a, 1/norm(a)) }
func segDist(p, a, b vec) float64 { // distance from a segment
	d := sub(b, a)
	l := dot(d, d)
	if l == 0 {
		return norm(sub(p, a))
	}
	t := math.Max(0, math.Min(1, dot(sub(p, a), d)/l))
	return norm(sub(p, addv(a, mul(d, t))))
}

// convexDist is the signed distance of p to a convex polygon (negative inside,
// where it is minus the distance to the nearest side).
func convexDist(p vec, k []vec) float64 {
	area := 0.0
	for i := range k {
		area += cross(sub(k[i], k[0]), sub(k[(i+1)%len(k)], k[0]))
	}
	s := 1.0
	if area < 0 {
		s = -1
	}
	inside := math.Abs(area) > 1e-5
	best := math.Inf(1)
	for i := range k {
		a, b := k[i], k[(i+1)%len(k)]
		if norm(sub(b, a)) < 1e-9 {
			continue
		}
		if s*cross(sub(b, a), sub(p, a)) < 0 {
			inside = false
		}
		best = math.Min(best, segDist(p, a, b))
	}
	if inside {
		return -best
	}
	return best
}

const (
	capNil = iota
	capRound
	capButt
	capSquare
)

var capNames = []string{"nil", "round", "butt", "square"}
var joinNames = []string{"nil", "round", "bevel"}

func capper(k int) raster.Capper {
	return []raster.Capper{nil, raster.RoundCapper, raster.ButtCapper, raster.SquareCapper}[k]
}

func joiner(k int) raster.Joiner {
	return []raster.Joiner{nil, raster.RoundJoiner, raster.BevelJoiner}[k]
}

// polyline stroke region as a list of shapes' signed distance functions.
type shape func(p vec) float64

func polylineShapes(ps []vec, u float64, capk, joink int) (out []shape) {
	for i := 0; i+1 < len(ps); i++ {
		a, b := ps[i], ps[i+1]
		d := unit(sub(b, a))
		n := vec{X: d.Y * u, Y: -d.X * u}
		q := []vec{addv(a, n), addv(b, n), sub(b, n), sub(a, n)}
		if capk == capSquare {
			if i == 0 {
				q[0], q[3] = sub(q[0], mul(d, u)), sub(q[3], mul(d, u))
			}
			if i+2 == len(ps) {
				q[1], q[2] = addv(q[1], mul(d, u)), addv(q[2], mul(d, u))
			}
		}
		out = append(out, func(p vec) float64 { return convexDist(p, q) })
		if i > 0 {
			if joink == 2 {
				e := unit(sub(a, ps[i-1]))
				n0, n1 := vec{X: e.Y * u, Y: -e.X * u}, n
				k := []vec{a, addv(a, n0), addv(a, n1)}
				if dot(vec{X: -n0.Y, Y: n0.X}, n1) < 0 {
					k = []vec{a, sub(a, n0), sub(a, n1)}
				}
				out = append(out, func(p vec) float64 { return convexDist(p, k) })
			} else {
				out = append(out, func(p vec) float64 { return norm(sub(p, a)) - u })
			}
		}
	}
	if capk == capNil || capk == capRound {
		for _, a := range []vec{ps[0], ps[len(ps)-1]} {
			out = append(out, func(p vec) float64 { return norm(sub(p, a)) - u })
		}
	}
	return out
}

func genWidth(t *pbt.T, max int) int {
	if t.Chance(1, 50) {
		// The products of such vectors take more than 32 bits.
		t.Class("width over 1000 pixels")
		return t.Int(64*1000, 64*5000)
	}
	switch t.Weighted(3, 3, 1) {
	case 0:
		return 64 * t.Int(1, max)
	case 1:
		return t.Int(32, 64*max)
	}
	return t.Int(32, 200)
}

// genDir makes a direction.
func genDir(t *pbt.T) float64 {
	switch t.Weighted(2, 3, 1) {
	case 0:
		return float64(t.Int(0, 7)) * math.Pi / 4
	case 1:
		return float64(t.Int(0, 3599)) * math.Pi / 1800
	}
	return float64(t.Int(0, 7))*math.Pi/4 + float64(t.Sym(30))/1000
}

// checkRepeats compares the stroke of the curves with that of the same curves
// with some of their points repeated.
func checkRepeats(t *pbt.T, cs []curve, width, capk, joink int, want []curve, desc func() string) {
	var path raster.Path
	var rs []curve
	for _, c := range cs {
		r := curve{start: c.start}
		p := c.start
		repeat := func() {
			for t.Chance(1, 3) {
				if t.Chance(1, 3) {
					r.segs = append(r.segs, seg{p, p})
				} else {
					r.segs = append(r.segs, seg{p})
				}
			}
		}
		repeat()
		for _, g := range c.segs {
			r.segs = append(r.segs, g)
			p = g[len(g)-1]
			repeat()
		}
		r.addTo(&path)
		rs = append(rs, r)
	}
	var rec adderRec
	raster.Stroke(&rec, path, fixed.Int26_6(width), capper(capk), joiner(joink))
	if d := sameCalls(rec.cs, want); d != "" {
		t.Failf("%s: the stroke differs when points are repeated, %s: %s", desc(), curvesString(rs), d)
	}
}

func genPolyline(t *pbt.T, width int) curve {
	p := fp(t.Sym(64*60), t.Sym(64*60))
	if t.Chance(1, 10) {
		p = fp(t.Sym(64*5000), t.Sym(64*5000))
	}
	c := curve{start: p}
	dir := genDir(t)
	for i, n := 0, t.Int(1, 5); i < n; i++ {
		if i > 0 {
			switch t.Weighted(5, 1, 1, 1, 2) {
			case 0:
				dir = genDir(t)
			case 1: // reversal
				dir += math.Pi
			case 2: // straight on
			case 3: // nearly reversed
				dir += math.Pi + float64(t.Sym(100))/1000
			case 4: // a gentle bend
				dir += float64(t.Sym(800)) / 1000
			}
		}
		l := float64(width)*(1.05+float64(t.Int(0, 200))/100) + 130
		if t.Chance(1, 8) {
			l *= 4
		} else if t.Chance(1, 60) {
			l += 64 * 3000
		}
		q := p.Add(fp(int(l*math.Cos(dir)), int(l*math.Sin(dir))))
		c.segs = append(c.segs, seg{q})
		p = q
	}
	return c
}

func runR05(t *pbt.T) {
	width := genWidth(t, 40)
	u := float64(width/2) / 64
	capk, joink := t.Int(0, 3), t.Int(0, 2)
	var path raster.Path
	var cs []curve
	var shapes, inner []shape
	joins := 0
	for i, n := 0, t.Size(1, 3); i < n; i++ {
		c := genPolyline(t, width)
		cs = append(cs, c)
		c.addTo(&path)
		shapes = append(shapes, polylineShapes(c.contour(), u, capk, joink)...)
		if width < 80 && joink != 2 {
			// Arcs of half a pixel are straight lines: such a join is at least a bevel.
			inner = append(inner, polylineShapes(c.contour(), u, capk, 2)...)
		}
		joins += len(c.segs) - 1
	}
	desc := func() string {
		return fmt.Sprintf("width=%d/64 cap=%s join=%s %s", width, capNames[capk], joinNames[joink], curvesString(cs))
	}
	var rec adderRec
	raster.Stroke(&rec, path, fixed.Int26_6(width), capper(capk), joiner(joink))
	ks := rec.contours()
	if inner == nil {
		inner = shapes
	}
	if t.Chance(1, 2) {
		checkRepeats(t, cs, width, capk, joink, rec.cs, desc)
	}
	margin := 0.02*2*u + 1.0/16
	in, out := 0, 0
	check := func(p vec) {
		inside, outside := false, true
		for _, s := range inner {
			if s(p) < -margin {
				inside = true
				break
			}
		}
		for _, s := range shapes {
			if s(p) <= margin {
				outside = false
				break
			}
		}
		switch {
		case inside:
			in++
			if winding(ks, p) == 0 {
				t.Failf("%s: the point (%.4f, %.4f) is inside the stroke but not covered", desc(), p.X, p.Y)
			}
		case outside:
			out++
			if w := winding(ks, p); w != 0 {
				t.Failf("%s: the point (%.4f, %.4f) is outside the stroke but has winding number %d", desc(), p.X, p.Y, w)
			}
		}
	}
	sampleAround(t, cs, u, margin, check)
	t.Sample("%s -> %d points inside, %d outside", desc(), in, out)
	t.Checks(in + out)
	if joins > 0 && in >= 20 && out >= 20 {
		t.NonTrivial()
	}
	t.Class("cap=%s", capNames[capk])
	t.Class("join=%s", joinNames[joink])
	if t.Chance(1, 3) {
		rasterizeStroke(t, path, cs, width, capk, joink, margin, desc, func(p vec) (d float64) {
			d = math.Inf(1)
			for _, s := range inner {
				d = math.Min(d, s(p))
			}
			if d >= 0 {
				d = math.Inf(1)
				for _, s := range shapes {
					d = math.Min(d, s(p))
				}
				d = math.Max(0, d)
			}
			return d
		})
	}
}

// sampleAround checks points near the ends, nodes and sides of the curves.
func sampleAround(t *pbt.T, cs []curve, u, margin float64, check func(p vec)) {
	for _, c := range cs {
		k := c.contour()
		nodes := []vec{toRef(c.start)}
		for _, g := range c.segs {
			nodes = append(nodes, toRef(g[len(g)-1]))
		}
		for _, a := range nodes {
			for i := 0; i < 40; i++ {
				s, co := math.Sincos(float64(i) * math.Pi / 20)
				for _, r := range []float64{u - margin - 0.01, u + margin + 0.01, 1.41421*u + margin + 0.02, 1.41421*u - margin - 0.02, 0.7 * u, 0.3 * u} {
					check(vec{X: a.X + r*co, Y: a.Y + r*s})
				}
			}
		}
		step := 1
		if len(k) > 40 {
			step = len(k) / 40
		}
		for i := 0; i+1 < len(k); i += step {
			a, b := k[i], k[i+1]
			d := sub(b, a)
			l := norm(d)
			if l < 1e-9 {
				continue
			}
			n := vec{X: d.Y / l, Y: -d.X / l}
			m := 1
			if len(k) < 10 {
				m = 5
			}
			for j := 0; j < m; j++ {
				p := addv(a, mul(d, (float64(j)+0.5)/float64(m)))
				for _, r := range []float64{u - margin - 0.01, u + margin + 0.01, u / 2, 0} {
					check(addv(p, mul(n, r)))
					check(addv(p, mul(n, -r)))
				}
			}
		}
	}
	for i, n := 0, 20; i < n; i++ {
		c := cs[i%len(cs)]
		g := c.segs[i/len(cs)%len(c.segs)]
		o := toRef(g[len(g)-1])
		x, y := float64(t.Sym(2000))/1000, float64(t.Sym(2000))/1000
		check(vec{X: o.X + x*3*u, Y: o.Y + y*3*u})
	}
}

// rasterizeStroke fills the stroke and checks pixels by their distance.
func rasterizeStroke(t *pbt.T, path raster.Path, cs []curve, width, capk, joink int, margin float64, desc func() string, dist func(p vec) float64) {
	// A window of the plane near some node.
	c := cs[t.Int(0, len(cs)-1)]
	o := c.end()
	if t.Bool() {
		o = c.start
	}
	w, h := t.Int(8, 60), t.Int(8, 60)
	ox, oy := int(o.X>>6)-t.Int(0, w), int(o.Y>>6)-t.Int(0, h)
	var moved raster.Path
	d := fp(-64*ox, -64*oy)
	for _, c := range cs {
		c.translated(d).addTo(&moved)
	}
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = true
	r.AddStroke(moved, fixed.Int26_6(width), capper(capk), joiner(joink))
	got := rasterize(t, r, w, h, desc)
	m, _ := curveTol(w, h)
	m = margin + m*1.42 + 0.7072
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := vec{X: float64(x+ox) + 0.5, Y: float64(y+oy) + 0.5}
			e := dist(p)
			a := got.pix[y*w+x]
			if e < -m && a != 0xffff || e > m && a != 0 {
				t.Failf("%s: pixel %d,%d, whose middle is %.3f from the edge of the stroke (negative: inside), has alpha %#x", desc(), x+ox, y+oy, e, a)
			}
		}
	}
	t.Checks(w * h)
}

func runR06(t *pbt.T) {
	width := max(80, genWidth(t, 30))
	u := float64(width/2) / 64
	var cs []curve
	var path raster.Path
	bend := false
	for i, n := 0, t.Size(1, 2); i < n; i++ {
		c, b := genQuadPath(t, width, true)
		bend = bend || b
		cs = append(cs, c)
		c.addTo(&path)
	}
	desc := func() string { return fmt.Sprintf("width=%d/64 %s", width, curvesString(cs)) }
	var rec adderRec
	raster.Stroke(&rec, path, fixed.Int26_6(width), nil, nil)
	if t.Chance(1, 2) {
		checkRepeats(t, cs, width, 0, 0, rec.cs, desc)
	}
	ks := rec.contours()
	var fine []ref.Contour
	for _, c := range cs {
		fine = append(fine, c.contour())
	}
	margin := r06k*2*u + r06c
	tight := tightPieces(cs, u)
	hairpin := false
	if len(cs) == 1 && len(cs[0].segs) == 1 && len(cs[0].segs[0]) == 2 {
		g := cs[0].segs[0]
		ab, bc := sub(toRef(g[0]), toRef(cs[0].start)), sub(toRef(g[1]), toRef(g[0]))
		hairpin = dot(ab, bc)/norm(ab)/norm(bc) < -0.9999
		if hairpin {
			t.Class("hairpin")
		}
	}
	// dist is the distance from the curve. clear means that only one gently
	// bending stretch of it is near, and corner that this has a kink.
	dist := func(p vec) (best float64, clear, corner bool) {
		best = math.Inf(1)
		intervals, sharp := 0, false
		for j, k := range fine {
			in := false
			var d0 vec
			for i := 0; i+1 < len(k); i++ {
				d := segDist(p, k[i], k[i+1])
				best = math.Min(best, d)
				if d > 1.1*u+margin {
					in = false
					continue
				}
				if tight[j][i] {
					sharp = true
				}
				e := sub(k[i+1], k[i])
				if !in {
					in, d0 = true, e
					intervals++
				} else {
					b := sub(k[i], k[i-1])
					if dot(d0, e) < 0 {
						sharp = true
					}
					if dot(b, e) < 0.95*norm(b)*norm(e) {
						corner = true
					}
				}
			}
		}
		return best, intervals <= 1 && !sharp || hairpin, corner && !hairpin
	}
	in, out := 0, 0
	check := func(p vec) {
		d, clear, corner := dist(p)
		d -= u
		switch {
		case d < -margin:
			if !clear || corner && d > -margin-r06kink {
				return
			}
			in++
			if winding(ks, p) == 0 {
				t.Failf("%s: the point (%.4f, %.4f) is %.4f from the curve, half width %.4f, but not covered", desc(), p.X, p.Y, d+u, u)
			}
		case d > margin:
			out++
			if w := winding(ks, p); w != 0 {
				t.Failf("%s: the point (%.4f, %.4f) is %.4f from the curve, half width %.4f, but has winding number %d", desc(), p.X, p.Y, d+u, u, w)
			}
		}
	}
	sampleAround(t, cs, u, margin, check)
	// The reversed path.
	var rpath raster.Path
	for _, c := range cs {
		c.reversed().addTo(&rpath)
	}
	rec = adderRec{}
	raster.Stroke(&rec, rpath, fixed.Int26_6(width), nil, nil)
	ks = rec.contours()
	sampleAround(t, cs, u, margin, check)
	t.Sample("%s -> %d points inside, %d outside", desc(), in, out)
	t.Checks(in + out)
	if bend && in >= 20 && out >= 20 {
		t.NonTrivial()
	}
	if t.Chance(1, 3) {
		rasterizeStroke(t, path, cs, width, 0, 0, margin, desc, func(p vec) float64 {
			d, clear, corner := dist(p)
			if !clear && d < u {
				return 0
			}
			if corner && d < u {
				return math.Min(0, d-u+r06kink)
			}
			return d - u
		})
	}
}

const r06k, r06c = 0.05, 0.5

// r06kink is how much more can be missing on the inner side of a kink: a piece
// of a quadratic with two legs of at most a pixel is drawn as an arc about the
// middle of the piece, which stops up to a pixel before its end.
const r06kink = 1.0

// minRadius is the smallest radius of curvature of a quadratic.
func minRadius(a, b, c vec) float64 {
	d, e := sub(b, a), addv(sub(c, mul(b, 2)), a)
	t := 0.5
	if l := dot(e, e); l > 0 {
		t = math.Max(0, math.Min(1, -dot(d, e)/l))
	}
	v := norm(addv(d, mul(e, t)))
	x := math.Abs(cross(d, e))
	if x == 0 {
		if dot(d, sub(c, b)) < 0 {
			return 0
		}
		return math.Inf(1)
	}
	return 2 * v * v * v / x
}

// tightPieces tells for each piece of the flattened curves whether it bends
// too tightly for the half width u.
func tightPieces(cs []curve, u float64) (out [][]bool) {
	for _, c := range cs {
		k := ref.Contour{toRef(c.start)}
		var tight []bool
		p := c.start
		for _, g := range c.segs {
			r := math.Inf(1)
			if len(g) == 1 {
				k = append(k, toRef(g[0]))
			} else {
				k.Quad(toRef(p), toRef(g[0]), toRef(g[1]))
				r = minRadius(toRef(p), toRef(g[0]), toRef(g[1]))
			}
			for len(tight) < len(k)-1 {
				tight = append(tight, r < 1.2*u)
			}
			p = g[len(g)-1]
		}
		out = append(out, tight)
	}
	return out
}

// genSmoothChain makes a curve of short quadratics without kinks, which bends
// gently for its width.
func genSmoothChain(t *pbt.T, width int, start pt) (c curve) {
	t.Class("smooth chain")
	c.start = start
	dir := genDir(t)
	x, y := float64(start.X), float64(start.Y)
	at := func() pt { return fp(int(math.Round(x)), int(math.Round(y))) }
	left := 2.8
	for i, n := 0, t.Int(2, 10); i < n; i++ {
		l := 20 + float64(t.Size(0, 2*width))
		radius := float64(width) * (0.8 + float64(t.Int(0, 300))/100)
		turn := math.Min(1, 1.2*l/radius)
		if left -= turn; left < 0 {
			break
		}
		if t.Bool() {
			turn = -turn
		}
		x, y = x+l*math.Cos(dir), y+l*math.Sin(dir)
		b := at()
		dir += turn
		x, y = x+l*math.Cos(dir), y+l*math.Sin(dir)
		c.segs = append(c.segs, seg{b, at()})
	}
	if len(c.segs) == 0 {
		c.segs = append(c.segs, seg{start.Add(fp(width, 0)), start.Add(fp(2*width+64, 64))})
	}
	return
}

func genQuadPath(t *pbt.T, width int, small bool) (c curve, bend bool) {
	p := fp(t.Sym(64*40), t.Sym(64*40))
	c.start = p
	dir := genDir(t)
	step := func(dir, l float64) pt { return fp(int(l*math.Cos(dir)), int(l*math.Sin(dir))) }
	length := func() float64 {
		if t.Chance(1, 10) {
			return float64(width)*1.05 + 130 + float64(t.Size(0, 64*150))
		}
		return float64(width)*(1.05+float64(t.Int(0, 200))/100) + 130
	}
	if small && t.Chance(1, 6) {
		return genSmoothChain(t, width, c.start), true
	}
	for i, n := 0, t.Int(1, 3); i < n; i++ {
		if i > 0 && t.Chance(2, 3) {
			dir = genDir(t)
		}
		if t.Chance(1, 4) {
			p = p.Add(step(dir, length()))
			c.segs = append(c.segs, seg{p})
			continue
		}
		if small && t.Chance(1, 10) {
			// A control point at, or next to, an end: hardly a curve.
			t.Class("degenerate")
			q := p.Add(step(dir, length()))
			b := pbt.Pick(t, p, q)
			if t.Bool() {
				b = b.Add(pt{X: fixed.Int26_6(t.Sym(10)), Y: fixed.Int26_6(t.Sym(10))})
			}
			c.segs = append(c.segs, seg{b, q})
			p = q
			continue
		}
		turn := 0.0
		switch t.Weighted(4, 3, 1, 1) {
		case 0:
			turn = float64(t.Sym(1500)) / 1000
		case 1:
			turn = float64(t.Sym(3000)) / 1000
		case 2: // hairpin
			turn = math.Pi + float64(t.Sym(20))/1000
		case 3: // nearly straight
			turn = float64(t.Sym(20)) / 1000
		}
		b := p.Add(step(dir, length()))
		dir += turn
		q := b.Add(step(dir, length()))
		c.segs = append(c.segs, seg{b, q})
		if math.Abs(turn) > 0.18 {
			bend = true
		}
		p = q
	}
	return
}

func pathString(cs []curve) string {
	s := ""
	num := func(v fixed.Int26_6) string {
		neg := v < 0
		n := int64(v)
		if neg {
			n = -n
		}
		r := fmt.Sprintf("%d:%02d", n>>6, n&63)
		if neg {
			r = "-" + r
		}
		return r
	}
	pts := func(k string, g ...pt) {
		if s != "" {
			s += " "
		}
		s += k + "["
		for i, p := range g {
			if i > 0 {
				s += " "
			}
			s += num(p.X) + " " + num(p.Y)
		}
		s += "]"
	}
	for _, c := range cs {
		pts("S0", c.start)
		for _, g := range c.segs {
			pts([]string{"", "A1", "A2", "A3"}[len(g)], g...)
		}
	}
	return s
}

type call struct {
	kind byte
	pts  [3]pt
}

// flat lists the calls that build the curves.
func flat(cs []curve) (out []call) {
	for _, c := range cs {
		out = append(out, call{'S', [3]pt{c.start}})
		for _, g := range c.segs {
			k := call{kind: byte('0' + len(g))}
			copy(k.pts[:], g)
			out = append(out, k)
		}
	}
	return
}

func sameCalls(a, b []curve) string {
	x, y := flat(a), flat(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		switch {
		case i >= len(x):
			return fmt.Sprintf("call %d is missing, want %c%v", i, y[i].kind, y[i].pts)
		case i >= len(y):
			return fmt.Sprintf("extra call %d: %c%v", i, x[i].kind, x[i].pts)
		case x[i] != y[i]:
			return fmt.Sprintf("call %d is %c%v, want %c%v", i, x[i].kind, x[i].pts, y[i].kind, y[i].pts)
		}
	}
	return ""
}

// decode lists the calls recorded in a Path, from its documented layout as
// seen through String.
func replayPath(p raster.Path, w, h int, t *pbt.T) []raster.Span {
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = true
	r.AddPath(p)
	return rasterize(t, r, w, h, func() string { return p.String() }).spans
}

func genAnyCurve(t *pbt.T, maxKind int) curve {
	p := func() pt { return fp(t.Sym(64*30), t.Sym(64*30)) }
	c := curve{start: p()}
	for i, n := 0, t.Size(0, 6); i < n; i++ {
		var g seg
		for j, k := 0, t.Int(1, maxKind); j < k; j++ {
			g = append(g, p())
		}
		c.segs = append(c.segs, g)
	}
	return c
}

func runR07(t *pbt.T) {
	switch t.Weighted(3, 3, 1) {
	case 0:
		runR07record(t)
	case 1:
		runR07stroke(t)
	case 2:
		runR07own(t)
	}
}

// runR07own strokes with caps and joins that add anything: what they add to
// the left-hand side comes as it is, and what they add to the other backwards.
func runR07own(t *pbt.T) {
	width := max(16, genWidth(t, 20))
	var c curve
	curved := t.Bool()
	if curved {
		c, _ = genQuadPath(t, width, false)
	} else {
		c = genPolyline(t, width)
	}
	const onRight = "a join on the right"
	var path raster.Path
	c.addTo(&path)
	type added struct {
		from  pt
		calls []seg
		what  string
	}
	var fwd, rev []added
	own := func(p raster.Adder, from, to pt) added {
		a := added{from: from}
		for k := t.Int(0, 3); k > 0; k-- {
			var g seg
			for j := t.Int(1, 3); j > 0; j-- {
				// Far from the path and all different.
				g = append(g, fp(1<<20+t.Int(0, 1<<19), -(1<<20)-t.Int(0, 1<<19)))
			}
			a.calls = append(a.calls, g)
		}
		a.calls = append(a.calls, seg{to})
		cc := curve{segs: a.calls}
		for _, g := range cc.segs {
			switch len(g) {
			case 1:
				p.Add1(g[0])
			case 2:
				p.Add2(g[0], g[1])
			default:
				p.Add3(g[0], g[1], g[2])
			}
		}
		return a
	}
	var rec adderRec
	raster.Stroke(&rec, path, fixed.Int26_6(width), raster.CapperFunc(func(p raster.Adder, hw fixed.Int26_6, pivot, n1 pt) {
		a := own(p, pivot.Sub(n1), pivot.Add(n1))
		a.what = "a cap"
		fwd = append(fwd, a)
	}), raster.JoinerFunc(func(l, r raster.Adder, hw fixed.Int26_6, pivot, n0, n1 pt) {
		a := own(l, pivot.Add(n0), pivot.Add(n1))
		a.what = "a join on the left"
		fwd = append(fwd, a)
		a = own(r, pivot.Sub(n0), pivot.Sub(n1))
		a.what = onRight
		rev = append(rev, a)
	}))
	desc := func() string { return fmt.Sprintf("width=%d/64 %s", width, c) }
	if len(fwd) == 0 {
		if len(rec.cs) != 0 {
			t.Failf("%s: a stroke without caps", desc())
		}
		return
	}
	if len(rec.cs) != 1 {
		t.Failf("%s: a stroke of %d outlines", desc(), len(rec.cs))
	}
	out := rec.cs[0].segs
	find := func(from int, g []seg, what string) int {
		for i := from; i+len(g) <= len(out); i++ {
			ok := true
			for k := range g {
				x, y := out[i+k], g[k]
				if ok = ok && len(x) == len(y); ok && curved && what == onRight && k == len(g)-1 {
					// The outline of a curve need not end at the normal.
					x, y = x[:len(x)-1], y[:len(y)-1]
				}
				ok = ok && slices.Equal(x, y)
			}
			if ok {
				return i + len(g)
			}
		}
		t.Failf("%s: %v, added by %s, is not in the stroke, or not in its place: %v", desc(), g, what, out)
		return 0
	}
	n := 0
	// The joins on the left, the cap at the end, the joins on the right
	// backwards from the last, the cap at the start.
	at := 0
	for _, a := range fwd[:len(fwd)-1] {
		at = find(at, a.calls, a.what)
		n += len(a.calls)
	}
	slices.Reverse(rev)
	for _, a := range rev {
		var g []seg
		// From the end to the start.
		pts := []pt{a.from}
		for _, s := range a.calls {
			b := seg{}
			for k := len(s) - 2; k >= 0; k-- {
				b = append(b, s[k])
			}
			b = append(b, pts[len(pts)-1])
			pts = append(pts, s[len(s)-1])
			g = append(g, b)
		}
		slices.Reverse(g)
		at = find(at, g, a.what)
		n += len(g)
	}
	at = find(at, fwd[len(fwd)-1].calls, "the cap at the start")
	if at != len(out) {
		t.Failf("%s: the stroke goes on behind its last cap: %v", desc(), out[at:])
	}
	t.Checks(n)
	t.NonTrivial()
	t.Class("caps and joins of other kinds")
}

func runR07record(t *pbt.T) {
	var p raster.Path
	var cs []curve
	calls := 0
	var appended raster.Path
	for i, n := 0, t.Int(1, 4); i < n; i++ {
		switch t.Weighted(6, 2, 1) {
		case 0:
			c := genAnyCurve(t, 3)
			c.addTo(&p)
			cs = append(cs, c)
			calls += 1 + len(c.segs)
		case 1:
			var q raster.Path
			var qs []curve
			for j, m := 0, t.Int(0, 2); j < m; j++ {
				c := genAnyCurve(t, 3)
				c.addTo(&q)
				qs = append(qs, c)
				calls += 1 + len(c.segs)
			}
			before := q.String()
			p.AddPath(q)
			cs = append(cs, qs...)
			if q.String() != before {
				t.Failf("appending changed the appended path from %s to %s", before, q.String())
			}
			appended = append(appended[:0], q...)
			// What is done to q afterwards does not matter.
			q.Clear()
			q.Start(fp(12345, 54321))
		case 2:
			p.Clear()
			cs = nil
			if p.String() != "" || len(p) != 0 {
				t.Failf("a cleared path prints as %q", p.String())
			}
		}
	}
	want := pathString(cs)
	t.Sample("path %s", want)
	if got := p.String(); got != want {
		t.Failf("the path prints as %s, want %s", got, want)
	}
	// Replay into a rasterizer.
	w, h := t.Int(1, 40), t.Int(1, 40)
	r := raster.NewRasterizer(w, h)
	r.UseNonZeroWinding = true
	for _, c := range cs {
		c.addTo(r)
	}
	direct := rasterize(t, r, w, h, func() string { return want }).spans
	if i := spansEqual(replayPath(p, w, h, t), direct); i >= 0 {
		t.Failf("replaying %s gives another picture than the calls themselves (span %d)", want, i)
	}
	t.Checks(calls)
	if calls >= 4 {
		t.NonTrivial()
	}
	t.Class("record")
}

type capCall struct {
	hw        fixed.Int26_6
	pivot, n1 pt
}

type joinCall struct {
	hw            fixed.Int26_6
	pivot, n0, n1 pt
}

func runR07stroke(t *pbt.T) {
	width := max(16, genWidth(t, 20))
	var cs []curve
	var path raster.Path
	lines := t.Bool()
	for i, n := 0, t.Int(1, 3); i < n; i++ {
		var c curve
		if lines {
			c = genPolyline(t, width)
		} else {
			c, _ = genQuadPath(t, width, false)
		}
		if t.Chance(1, 10) {
			c.segs = nil // a lone point has no stroke
		}
		cs = append(cs, c)
		c.addTo(&path)
	}
	capk, joink := t.Int(0, 3), t.Int(0, 2)
	desc := func() string {
		return fmt.Sprintf("width=%d/64 cap=%s join=%s %s", width, capNames[capk], joinNames[joink], curvesString(cs))
	}
	w := fixed.Int26_6(width)
	before := path.String()
	var direct adderRec
	raster.Stroke(&direct, path, w, capper(capk), joiner(joink))
	// Into a path.
	var sp raster.Path
	var pre curve
	if t.Bool() {
		pre = genAnyCurve(t, 3)
		pre.addTo(&sp)
	}
	sp.AddStroke(path, w, capper(capk), joiner(joink))
	want := pathString(direct.cs)
	if len(pre.segs) > 0 || len(sp) > 0 && sp.String() != want {
		want = pathString(append([]curve{pre}, direct.cs...))
	}
	if got := sp.String(); got != want && got != pathString(append([]curve{pre}, direct.cs...)) {
		t.Failf("%s: stroked into a path: %s, want %s", desc(), got, want)
	}
	if path.String() != before {
		t.Failf("%s: stroking changed the path to %s", desc(), path.String())
	}
	// Into a rasterizer.
	iw, ih := t.Int(1, 50), t.Int(1, 50)
	r := raster.NewRasterizer(iw, ih)
	r.UseNonZeroWinding = true
	r.AddStroke(path, w, capper(capk), joiner(joink))
	var only raster.Path
	for _, c := range direct.cs {
		c.addTo(&only)
	}
	if i := spansEqual(rasterize(t, r, iw, ih, desc).spans, replayPath(only, iw, ih, t)); i >= 0 {
		t.Failf("%s: AddStroke and the replay of the stroke differ at span %d", desc(), i)
	}
	// One curve after the other.
	var seq adderRec
	for _, c := range cs {
		var p raster.Path
		c.addTo(&p)
		raster.Stroke(&seq, p, w, capper(capk), joiner(joink))
	}
	if d := sameCalls(direct.cs, seq.cs); d != "" {
		t.Failf("%s: the strokes of the curves one by one differ from the stroke of the path: %s", desc(), d)
	}
	// Caller-supplied caps and joins.
	var caps []capCall
	var joins []joinCall
	inner := func(k int) raster.Capper {
		if c := capper(k); c != nil {
			return c
		}
		return raster.RoundCapper
	}
	innerJ := func(k int) raster.Joiner {
		if c := joiner(k); c != nil {
			return c
		}
		return raster.RoundJoiner
	}
	var own adderRec
	raster.Stroke(&own, path, w, raster.CapperFunc(func(p raster.Adder, hw fixed.Int26_6, pivot, n1 pt) {
		caps = append(caps, capCall{hw, pivot, n1})
		inner(capk).Cap(p, hw, pivot, n1)
	}), raster.JoinerFunc(func(l, r raster.Adder, hw fixed.Int26_6, pivot, n0, n1 pt) {
		joins = append(joins, joinCall{hw, pivot, n0, n1})
		innerJ(joink).Join(l, r, hw, pivot, n0, n1)
	}))
	if d := sameCalls(own.cs, direct.cs); d != "" {
		t.Failf("%s: the stroke with delegating cap and join differs: %s", desc(), d)
	}
	hw := w / 2
	nn := func(n pt, what string) {
		l := math.Hypot(float64(n.X), float64(n.Y))
		// Each co-ordinate is truncated to 1/64 pixel.
		if math.Abs(l-float64(hw)) > 1.5 {
			t.Failf("%s: the normal %d,%d of a %s has length %.2f, want %d", desc(), n.X, n.Y, what, l, hw)
		}
	}
	ci, ji := 0, 0
	njoin := 0
	for _, c := range cs {
		if len(c.segs) == 0 {
			continue
		}
		p := c.start
		var prev vec
		for i, g := range c.segs {
			d0 := sub(toRef(g[0]), toRef(p))
			if i > 0 {
				if ji >= len(joins) {
					t.Failf("%s: no join at %v", desc(), p)
				}
				j := joins[ji]
				ji++
				njoin++
				if j.pivot != p || j.hw != hw {
					t.Failf("%s: join %d at %d,%d with half width %d; want %d,%d and %d", desc(), ji-1, j.pivot.X, j.pivot.Y, j.hw, p.X, p.Y, hw)
				}
				nn(j.n0, "join")
				nn(j.n1, "join")
				checkNormal(t, desc, j.n0, prev, hw)
				checkNormal(t, desc, j.n1, d0, hw)
			}
			prev = d0
			if len(g) == 2 {
				prev = sub(toRef(g[1]), toRef(g[0]))
			}
			p = g[len(g)-1]
		}
		// The cap at the end, then the one at the start.
		for k, e := range []pt{c.end(), c.start} {
			if ci >= len(caps) {
				t.Failf("%s: no cap at %v", desc(), e)
			}
			q := caps[ci]
			ci++
			if q.pivot != e || q.hw != hw {
				t.Failf("%s: cap %d at %d,%d with half width %d; want %d,%d and %d", desc(), ci-1, q.pivot.X, q.pivot.Y, q.hw, e.X, e.Y, hw)
			}
			nn(q.n1, "cap")
			// The cap is drawn from pivot-n1 to pivot+n1.
			d := mul(prev, -1)
			if k == 1 {
				d = sub(toRef(c.segs[0][0]), toRef(c.start))
			}
			checkNormal(t, desc, q.n1, d, hw)
		}
	}
	if ci != len(caps) || ji != len(joins) {
		t.Failf("%s: %d caps and %d joins, want %d and %d", desc(), len(caps), len(joins), ci, ji)
	}
	t.Sample("%s -> %d caps, %d joins", desc(), ci, ji)
	t.Checks(ci + ji)
	if njoin > 0 {
		t.NonTrivial()
	}
	t.Class("stroke lines=%v", lines)
}

// checkNormal checks that n is the direction d turned counter-clockwise.
func checkNormal(t *pbt.T, desc func() string, n pt, d vec, hw fixed.Int26_6) {
	if l := norm(d); l > 0 {
		w := mul(vec{X: d.Y, Y: -d.X}, float64(hw)/l)
		// A last piece of half a pixel is exact to some degrees only.
		if norm(sub(w, vec{X: float64(n.X), Y: float64(n.Y)})) > 2+0.05*float64(hw) {
			t.Failf("%s: normal %d,%d at a place where the direction is %.3f,%.3f; want %.1f,%.1f", desc(), n.X, n.Y, d.X, d.Y, w.X, w.Y)
		}
	}
}
