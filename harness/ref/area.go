// Package ref holds reference models that share no code with golang/freetype.
package ref

import "math"

// Pt is a point in pixels.
type Pt struct{ X, Y float64 }

// Coverage holds, for each pixel of a w x h image, the signed area of the
// pixel to the right of the edges (the integral of the winding number over the
// pixel), and the number of edges that come within Margin of the pixel.
type Coverage struct {
	W, H   int
	Area   []float64
	Touch  []int32
	Margin float64
	diff   []float64 // per row: change of the full cover at a column
	group  int32
	stamp  []int32
}

// Group starts a new group of edges: Touch counts groups, not edges.
func (c *Coverage) Group() {
	if c.stamp == nil {
		c.stamp = make([]int32, c.W*c.H)
	}
	c.group++
}

func NewCoverage(w, h int, margin float64) *Coverage {
	return &Coverage{W: w, H: h, Area: make([]float64, w*h), Touch: make([]int32, w*h), Margin: margin, diff: make([]float64, (w+1)*h)}
}

// Edge adds a directed edge.
func (c *Coverage) Edge(a, b Pt) {
	c.touch(a, b)
	if a.Y == b.Y {
		return
	}
	sign := 1.0
	if a.Y > b.Y {
		a, b, sign = b, a, -1
	}
	dxdy := (b.X - a.X) / (b.Y - a.Y)
	r0 := int(math.Max(0, math.Floor(a.Y)))
	r1 := int(math.Min(float64(c.H-1), math.Floor(b.Y)))
	for r := r0; r <= r1; r++ {
		ya, yb := math.Max(a.Y, float64(r)), math.Min(b.Y, float64(r+1))
		if yb <= ya {
			continue
		}
		xa, xb := a.X+(ya-a.Y)*dxdy, a.X+(yb-a.Y)*dxdy
		if ya == a.Y {
			xa = a.X
		}
		if yb == b.Y {
			xb = b.X
		}
		lo, hi := math.Min(xa, xb), math.Max(xa, xb)
		dy := (yb - ya) * sign
		p0 := math.Floor(lo)
		p1 := math.Floor(hi)
		// Pixels beyond hi are fully to the right.
		full := p1 + 1
		if full < 0 {
			full = 0
		}
		if full <= float64(c.W) {
			c.diff[r*(c.W+1)+int(full)] += dy
		}
		if p0 < 0 {
			p0 = 0
		}
		if p1 > float64(c.W-1) {
			p1 = float64(c.W - 1)
		}
		for p := p0; p <= p1; p++ {
			// The mean of clamp(p+1-x, 0, 1) for x from lo to hi.
			var mean float64
			if hi == lo {
				mean = clamp01(p + 1 - lo)
			} else {
				l1 := math.Min(hi, p) - lo // part left of the pixel
				if l1 < 0 {
					l1 = 0
				}
				s0, s1 := math.Max(lo, p), math.Min(hi, p+1)
				l2 := 0.0
				if s1 > s0 {
					l2 = (s1 - s0) * (p + 1 - (s0+s1)/2)
				}
				mean = (l1 + l2) / (hi - lo)
			}
			c.Area[r*c.W+int(p)] += dy * mean
		}
	}
}

func clamp01(x float64) float64 { return math.Max(0, math.Min(1, x)) }

func (c *Coverage) touch(a, b Pt) {
	if a.Y > b.Y {
		a, b = b, a
	}
	m := c.Margin
	r0 := int(math.Max(0, math.Floor(a.Y-m)))
	r1 := int(math.Min(float64(c.H-1), math.Floor(b.Y+m)))
	for r := r0; r <= r1; r++ {
		ya, yb := math.Max(a.Y, float64(r)-m), math.Min(b.Y, float64(r+1)+m)
		if yb < ya {
			continue
		}
		xa, xb := a.X, b.X
		if a.Y != b.Y {
			s := (b.X - a.X) / (b.Y - a.Y)
			xa, xb = a.X+(ya-a.Y)*s, a.X+(yb-a.Y)*s
		}
		lo, hi := math.Min(xa, xb)-m, math.Max(xa, xb)+m
		p0, p1 := int(math.Max(0, math.Ceil(lo)-1)), int(math.Min(float64(c.W-1), math.Floor(hi)))
		for p := p0; p <= p1; p++ {
			if c.stamp != nil {
				if c.stamp[r*c.W+p] == c.group {
					continue
				}
				c.stamp[r*c.W+p] = c.group
			}
			c.Touch[r*c.W+p]++
		}
	}
}

// Finish completes Area.
func (c *Coverage) Finish() {
	for r := 0; r < c.H; r++ {
		acc := 0.0
		for x := 0; x < c.W; x++ {
			acc += c.diff[r*(c.W+1)+x]
			c.Area[r*c.W+x] += acc
		}
	}
}

// Fold turns an accumulated area into a coverage between 0 and 1.
func Fold(area float64, nonZero bool) float64 {
	a := math.Abs(area)
	if nonZero {
		return math.Min(1, a)
	}
	a = math.Mod(a, 2)
	if a > 1 {
		a = 2 - a
	}
	return a
}

// Contour is a closed polygon.
type Contour []Pt

func (c *Coverage) Add(k Contour) {
	for i := range k {
		c.Edge(k[i], k[(i+1)%len(k)])
	}
}

// Quad appends points on the quadratic a, b, c (without a) to k.
func (k *Contour) Quad(a, b, c Pt) {
	dev := math.Max(math.Abs(a.X-2*b.X+c.X), math.Abs(a.Y-2*b.Y+c.Y))
	n := int(math.Ceil(math.Sqrt(dev*16))) + 1
	if n > 4000 {
		n = 4000
	}
	for i := 1; i <= n; i++ {
		t := float64(i) / float64(n)
		s := 1 - t
		*k = append(*k, Pt{s*s*a.X + 2*s*t*b.X + t*t*c.X, s*s*a.Y + 2*s*t*b.Y + t*t*c.Y})
	}
}

// Cubic appends points on the cubic a, b, c, d (without a) to k.
func (k *Contour) Cubic(a, b, c, d Pt) {
	dev := math.Max(math.Max(math.Abs(a.X-2*b.X+c.X), math.Abs(a.Y-2*b.Y+c.Y)), math.Max(math.Abs(b.X-2*c.X+d.X), math.Abs(b.Y-2*c.Y+d.Y)))
	n := int(math.Ceil(math.Sqrt(dev*48))) + 1
	if n > 4000 {
		n = 4000
	}
	for i := 1; i <= n; i++ {
		t := float64(i) / float64(n)
		s := 1 - t
		*k = append(*k, Pt{s*s*s*a.X + 3*s*s*t*b.X + 3*s*t*t*c.X + t*t*t*d.X, s*s*s*a.Y + 3*s*s*t*b.Y + 3*s*t*t*c.Y + t*t*t*d.Y})
	}
}

// Strands adds an open polyline that approximates a curve. Each monotone piece is a group.
func (c *Coverage) Strands(k Contour) {
	sgn := func(x float64) int {
		switch {
		case x > 0:
			return 1
		case x < 0:
			return -1
		}
		return 0
	}
	c.Group()
	sx, sy := 0, 0
	for i := 1; i < len(k); i++ {
		dx, dy := sgn(k[i].X-k[i-1].X), sgn(k[i].Y-k[i-1].Y)
		if dx*sx < 0 || dy*sy < 0 {
			c.Group()
			sx, sy = 0, 0
		}
		if dx != 0 {
			sx = dx
		}
		if dy != 0 {
			sy = dy
		}
		c.Edge(k[i-1], k[i])
	}
}
