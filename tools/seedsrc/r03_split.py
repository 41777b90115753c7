ID="r03-split-cap"; PROP="R03"; FILE="raster/raster.go"
EDITS=[("""	const maxNsplit = 16
	if nsplit > maxNsplit {
		panic("freetype/raster: Add2 nsplit too large: " + strconv.Itoa(nsplit))
	}
""","""	const maxNsplit = 4
	if nsplit > maxNsplit {
		// This is enough for any curve that fits on a screen.
		nsplit = maxNsplit
	}
""")]
NEEDS="a very large quadratic curve"
BREAKS="large curves are drawn with visible corners"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func main() {
	// y = (x-1000)^2/500 for x in 0..2000, closed at the top, in a 2000x2000 image.
	r := raster.NewRasterizer(2000, 2000)
	r.Start(fixed.P(0, 2000))
	r.Add2(fixed.P(1000, -2000), fixed.P(2000, 2000))
	r.Add1(fixed.P(0, 2000))
	area := 0.0
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
		for _, s := range ss {
			area += float64(s.X1-s.X0) * float64(s.Alpha) / 0xffff
		}
	}))
	want := 2.0 / 3 * 2000 * 2000
	if d := area - want; d < -700 || d > 700 {
		fmt.Println("area", area, "want", want)
		os.Exit(1)
	}
}
'''
