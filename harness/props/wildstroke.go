package props

import (
	"fmt"
	"math"

	"golang.org/x/image/math/fixed"

	"github.com/golang/freetype/raster"
	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "R08",
		Rule:  "a path of up to four curves of lines and quadratics, with points from everywhere to on top of one another, stroked at a width between nothing and 4096 pixels; non-trivial if a stroke of at least two segments came out",
		Quick: 1500000, Thorough: 20000000, Run: runR08})
}

// genWildCurve makes a curve whose points are far apart, close together, in
// line, or the same.
func genWildCurve(t *pbt.T) curve {
	var span int
	switch t.Weighted(3, 3, 2, 2, 1) {
	case 0:
		span = t.Int(1, 6)
	case 1:
		span = t.Int(6, 200)
	case 2:
		span = 64 * 30
	case 3:
		span = 1 << t.Int(12, 20)
	case 4:
		span = 1 << 26
	}
	o := fp(0, 0)
	if t.Chance(1, 2) {
		o = fp(t.Sym(1<<t.Int(3, 26)), t.Sym(1<<t.Int(3, 26)))
	}
	used := []pt{o}
	p := func() pt {
		q := fp(int(o.X)+t.Sym(span), int(o.Y)+t.Sym(span))
		switch t.Weighted(8, 2, 2, 2, 1) {
		case 1: // again
			q = pbt.PickS(t, used)
		case 2: // next to another
			a := pbt.PickS(t, used)
			q = fp(int(a.X)+t.Sym(40), int(a.Y)+t.Sym(40))
		case 3: // in line with two others
			a, b := pbt.PickS(t, used), pbt.PickS(t, used)
			k := t.Sym(64)
			q = fp(int(a.X)+int(b.X-a.X)*k/32, int(a.Y)+int(b.Y-a.Y)*k/32)
			if t.Chance(1, 4) {
				q.X += fixed.Int26_6(t.Sym(1))
				q.Y += fixed.Int26_6(t.Sym(1))
			}
		case 4: // level with another
			if a := pbt.PickS(t, used); t.Bool() {
				q.X = a.X
			} else {
				q.Y = a.Y
			}
		}
		// Keep within what the package can add up.
		const lim = 1 << 27
		q.X, q.Y = max(-lim, min(q.X, lim)), max(-lim, min(q.Y, lim))
		used = append(used, q)
		return q
	}
	c := curve{start: p()}
	for i, n := 0, t.Size(0, 8); i < n; i++ {
		g := seg{p()}
		if t.Bool() {
			g = append(g, p())
		}
		c.segs = append(c.segs, g)
	}
	return c
}

// hullDist is the distance of v to the nearest of the curve's segments, each
// taken as the triangle of its control points.
func (c curve) hullDist(v vec) float64 {
	best := math.Inf(1)
	fv := func(p pt) vec { return vec{X: float64(p.X), Y: float64(p.Y)} }
	a := fv(c.start)
	for _, g := range c.segs {
		b := fv(g[0])
		best = min(best, segDist(v, a, b))
		if len(g) == 2 {
			e := fv(g[1])
			best = min(best, segDist(v, b, e), segDist(v, a, e))
			x, y, z := cross(sub(b, a), sub(v, a)), cross(sub(e, b), sub(v, b)), cross(sub(a, e), sub(v, e))
			if x > 0 && y > 0 && z > 0 || x < 0 && y < 0 && z < 0 {
				return 0
			}
			b = e
		}
		a = b
	}
	return best
}

func runR08(t *pbt.T) {
	var cs []curve
	var path raster.Path
	for i, n := 0, t.Int(1, 4); i < n; i++ {
		c := genWildCurve(t)
		cs = append(cs, c)
		c.addTo(&path)
	}
	width := t.Int(0, 300)
	switch t.Weighted(6, 1, 2, 1) {
	case 1:
		width = t.Int(0, 3)
	case 2:
		width = t.Int(0, 64*100)
	case 3:
		width = t.Int(0, 64*4096)
	}
	capk, joink := t.Int(0, 3), t.Int(0, 2)
	desc := func() string {
		return fmt.Sprintf("width=%d/64 cap=%s join=%s %s", width, capNames[capk], joinNames[joink], curvesString(cs))
	}
	t.Logf("%s", desc())
	t.Sample("%s", desc())
	w := fixed.Int26_6(width)
	var all adderRec
	n := 0
	// The half width, times the square root of two for square caps and that
	// of the control points of other caps and arcs, and rounding.
	f := 1.15
	if capNames[capk] == "square" {
		f = 1.4143
	}
	m := int(math.Ceil(float64(width)/2*f)) + 4
	for _, c := range cs {
		var p raster.Path
		c.addTo(&p)
		var rec adderRec
		raster.Stroke(&rec, p, w, capper(capk), joiner(joink))
		all.cs = append(all.cs, rec.cs...)
		t.Checks(1)
		a, moves, still := c.start, false, true
		for _, g := range c.segs {
			for _, q := range g {
				still = still && q == c.start
			}
			if e := g[len(g)-1]; e != a {
				a, moves = e, true
			}
		}
		switch {
		case len(rec.cs) > 1:
			t.Failf("%s: the stroke of one curve is %d curves", desc(), len(rec.cs))
		case moves && len(rec.cs) == 0:
			t.Failf("%s: no stroke of %v", desc(), c)
		case still && len(rec.cs) != 0:
			t.Failf("%s: a stroke of %v, which goes nowhere: %v", desc(), c, rec.cs[0])
		case len(rec.cs) == 0:
			t.Class("no stroke")
			continue
		}
		k := rec.cs[0]
		if len(k.segs) == 0 {
			t.Failf("%s: an empty stroke of %v", desc(), c)
		}
		n = max(n, len(c.segs))
		last := k.segs[len(k.segs)-1]
		if e := last[len(last)-1]; e != k.start {
			t.Failf("%s: the stroke of %v starts at %v and ends at %v", desc(), c, k.start, e)
		}
		in := func(q pt) {
			v := vec{X: float64(q.X), Y: float64(q.Y)}
			if d := c.hullDist(v); d > float64(m) {
				t.Failf("%s: the stroke of %v has the point %v, %.1f units from the control polygon, at a half width of %.1f", desc(), c, q, d, float64(width)/2)
			}
		}
		in(k.start)
		for _, g := range k.segs {
			for _, q := range g {
				in(q)
			}
		}
	}
	var rec adderRec
	raster.Stroke(&rec, path, w, capper(capk), joiner(joink))
	if d := sameCalls(rec.cs, all.cs); d != "" {
		t.Failf("%s: the strokes of the curves one by one differ from the stroke of the path: %s", desc(), d)
	}
	lines := true
	for _, c := range cs {
		for _, g := range c.segs {
			lines = lines && len(g) == 1
		}
	}
	t.Class("lines only %v", lines)
	if lines {
		// A stroke of lines moves with them.
		dx, dy := t.Sym(1<<t.Int(1, 26)), t.Sym(1<<t.Int(1, 26))
		mv := func(p pt) pt { return fp(int(p.X)+dx, int(p.Y)+dy) }
		move := func(c curve) curve {
			d := curve{start: mv(c.start)}
			for _, g := range c.segs {
				h := seg{}
				for _, q := range g {
					h = append(h, mv(q))
				}
				d.segs = append(d.segs, h)
			}
			return d
		}
		var p raster.Path
		for _, c := range cs {
			move(c).addTo(&p)
		}
		var got adderRec
		raster.Stroke(&got, p, w, capper(capk), joiner(joink))
		var want []curve
		for _, c := range all.cs {
			want = append(want, move(c))
		}
		if d := sameCalls(got.cs, want); d != "" {
			t.Failf("%s: moved by %d,%d the stroke is not the same, moved: %s", desc(), dx, dy, d)
		}
	}
	if n >= 2 {
		t.NonTrivial()
	}
}
