ID="r05-sharp-join"; PROP="R05"; FILE="raster/stroke.go"
EDITS=[("				p.Add2(pm1.Sub(n0t), pivot.Sub(m0))\n				s = pNeg(m0)\n","				p.Add2(pm1.Add(n0t), pivot.Sub(m0))\n				s = pNeg(m0)\n")]
NEEDS="a round join at a turn of more than 135 degrees to one side"
BREAKS="the join has a dent"
MAIN='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func main() {
	for _, side := range []float64{1, -1} {
		for deg := 10.0; deg < 180; deg += 10 {
			var q raster.Path
			q.Start(fixed.P(40, 100))
			q.Add1(fixed.P(140, 100))
			a := side * deg * math.Pi / 180
			q.Add1(fixed.P(140+int(90*math.Cos(a)), 100+int(90*math.Sin(a))))
			r := raster.NewRasterizer(300, 220)
			r.UseNonZeroWinding = true
			r.AddStroke(q, fixed.I(40), raster.ButtCapper, raster.RoundJoiner)
			var img [220][300]bool
			r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
				for _, s := range ss {
					for x := s.X0; x < s.X1; x++ {
						img[s.Y][x] = s.Alpha == 0xffff
					}
				}
			}))
			// All within 18 pixels of the corner is covered.
			for y := 82; y < 118; y++ {
				for x := 122; x < 158; x++ {
					if dx, dy := x-140, y-100; dx*dx+dy*dy < 17*17 && !img[y][x] {
						fmt.Println("turn of", side*deg, "degrees: pixel", x, y, "is not covered")
						os.Exit(1)
					}
				}
			}
		}
	}
}
'''
