ID="r08-far-curve"; PROP="R08"; FILE="raster/stroke.go"
EDITS=[("""	s := 1<<12 - t
	x := s*fixed.Int52_12(a.X) + t*fixed.Int52_12(b.X)
	y := s*fixed.Int52_12(a.Y) + t*fixed.Int52_12(b.Y)
	return fixed.Point26_6{fixed.Int26_6(x >> 12), fixed.Int26_6(y >> 12)}
""","""	s, u := fixed.Int26_6(1<<12-t), fixed.Int26_6(t)
	return fixed.Point26_6{
		(s*a.X + u*b.X) >> 12,
		(s*a.Y + u*b.Y) >> 12,
	}
""")]
NEEDS="a curve that is split at an inner point and lies more than 8192 pixels from the origin"
BREAKS="the point at which the curve is split overflows, so that the stroke shoots off far away from the curve"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

// near is an Adder that looks at the points it is given.
type near int

func (n near) see(ps ...fixed.Point26_6) {
	for _, p := range ps {
		x, y := p.X.Round(), p.Y.Round()
		if x < int(n)-20 || x > int(n)+120 || y < -20 || y > 120 {
			fmt.Println("the stroke of a curve at", int(n), "goes through", x, y)
			os.Exit(1)
		}
	}
}

func (n near) Start(a fixed.Point26_6)      { n.see(a) }
func (n near) Add1(b fixed.Point26_6)       { n.see(b) }
func (n near) Add2(b, c fixed.Point26_6)    { n.see(b, c) }
func (n near) Add3(b, c, d fixed.Point26_6) { n.see(b, c, d) }

func main() {
	for _, x := range []int{0, 1000, 10000, 20000} {
		var q raster.Path
		q.Start(fixed.P(x, 0))
		q.Add2(fixed.P(x+50, 100), fixed.P(x+100, 0))
		raster.Stroke(near(x), q, 10*64, nil, nil)
	}
}
'''
