ID="p04-gamma-sticky"; PROP="P04"; FILE="raster/paint.go"
EDITS=[("""	g.gammaIsOne = gamma == 1
	if g.gammaIsOne {
		return
	}
""","""	if gamma == 1 {
		// There is no need for a table.
		g.gammaIsOne = true
		return
	}
""")]
NEEDS="a painter whose gamma is set to 1 and later to something else"
BREAKS="the later gamma has no effect"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
)

func main() {
	var a uint32
	p := raster.PainterFunc(func(ss []raster.Span, done bool) { a = ss[0].Alpha })
	g := raster.NewGammaCorrectionPainter(p, 1)
	g.SetGamma(2)
	g.Paint([]raster.Span{{Y: 0, X0: 0, X1: 1, Alpha: 0x8080}}, true)
	if a > 0x5000 {
		fmt.Printf("%#x\\n", a)
		os.Exit(1)
	}
}
'''
