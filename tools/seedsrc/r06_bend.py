ID="r06-right-bend"; PROP="R06"; FILE="raster/stroke.go"
EDITS=[("		} else if depth < maxDepth && angleGreaterThan45(ab, bc) {","		} else if depth < maxDepth && pDot(ab, bc) < 0 {")]
NEEDS="a wide stroke of a quadratic, a stretch of which without a curvature maximum bends by between 45 and 90 degrees"
BREAKS="the stroke of the bend is too thin outside"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func main() {
	// A symmetrical right-angled bend, sharpest in the middle, is split there: use an asymmetrical one
	// whose sharpest point is its start.
	var q raster.Path
	q.Start(fixed.P(100, 100))
	q.Add2(fixed.P(140, 100), fixed.P(180, 220))
	w := 80
	r := raster.NewRasterizer(300, 300)
	r.UseNonZeroWinding = true
	r.AddStroke(q, fixed.I(w), raster.ButtCapper, nil)
	var img [300][300]bool
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
		for _, s := range ss {
			for x := s.X0; x < s.X1; x++ {
				img[s.Y][x] = s.Alpha == 0xffff
			}
		}
	}))
	// Points at 0.97 of the half width outside the curve.
	bad := 0
	for i := 5; i <= 95; i++ {
		t := float64(i) / 100
		x := (1-t)*(1-t)*100 + 2*t*(1-t)*140 + t*t*180
		y := (1-t)*(1-t)*100 + 2*t*(1-t)*100 + t*t*220
		dx := 2 * ((1-t)*40 + t*40)
		dy := 2 * (t * 120)
		l := sqrt(dx*dx + dy*dy)
		x += dy / l * float64(w) * 0.46
		y -= dx / l * float64(w) * 0.46
		if !img[int(y)][int(x)] {
			bad++
		}
	}
	if bad > 0 {
		fmt.Println(bad, "of 91 points are missing")
		os.Exit(1)
	}
}

func sqrt(x float64) float64 {
	z := x
	for i := 0; i < 60; i++ {
		z = (z + x/z) / 2
	}
	return z
}
'''
