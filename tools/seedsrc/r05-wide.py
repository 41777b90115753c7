ID="r05-wide"; PROP="R05"; FILE="raster/geom.go"
EDITS=[("	px, py := int64(p.X), int64(p.Y)\n	qx, qy := int64(q.X), int64(q.Y)\n	return fixed.Int52_12(px*qx + py*qy)\n","	return fixed.Int52_12(p.X*q.X + p.Y*q.Y)\n")]
NEEDS="a stroke more than about 1450 pixels wide: the products of its normals take more than 32 bits"
BREAKS="its round caps and joins turn the wrong way"
MAIN='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

// covered tells whether the stroke covers the pixel at x, y.
func covered(width int, side, x, y int) bool {
	var q raster.Path
	q.Start(fixed.P(-3*width-x, -y))
	q.Add1(fixed.P(-x, -y))
	q.Add1(fixed.P(-x, 3*side*width-y))
	r := raster.NewRasterizer(1, 1)
	r.UseNonZeroWinding = true
	r.AddStroke(q, fixed.I(width), raster.RoundCapper, raster.RoundJoiner)
	ok := false
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
		for _, s := range ss {
			ok = ok || s.Alpha == 0xffff
		}
	}))
	return ok
}

func main() {
	for _, width := range []int{200, 1400, 1500, 2000, 3000} {
		for _, side := range []int{1, -1} {
			// The outer side of the corner.
			for deg := 5.0; deg < 90; deg += 12.5 {
				s, c := math.Sincos(deg * math.Pi / 180)
				for _, k := range []float64{0.2, 0.5, 0.8, 0.9, 1.1, 1.3} {
					l := k * float64(width) / 2
					x, y := int(math.Round(l*c)), -side*int(math.Round(l*s))
					if covered(width, side, x, y) != (k < 1) {
						fmt.Println("width", width, "the point", x, y, "from the corner is covered:", k >= 1)
						os.Exit(1)
					}
				}
			}
		}
	}
}
'''
