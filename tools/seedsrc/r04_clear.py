ID="r04-clear-pending"; PROP="R04"; FILE="raster/raster.go"
EDITS=[("""	r.area = 0
	r.cover = 0
	r.cell = r.cell[:0]
""","""	r.cell = r.cell[:0]
""")]
NEEDS="Clear (or SetBounds) called while a cell is still being accumulated, i.e. after adding a path that was never rasterized, and then another path"
BREAKS="coverage of the discarded path's last cell leaks into the picture drawn next"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func square(r *raster.Rasterizer) {
	p := func(x, y int) fixed.Point26_6 { return fixed.P(x, y) }
	r.Start(p(2, 2))
	r.Add1(p(6, 2))
	r.Add1(p(6, 6))
	r.Add1(p(2, 6))
	r.Add1(p(2, 2))
}

func spans(r *raster.Rasterizer) string {
	s := ""
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) { s += fmt.Sprint(ss) }))
	return s
}

func main() {
	a := raster.NewRasterizer(10, 10)
	square(a)
	b := raster.NewRasterizer(10, 10)
	b.Start(fixed.Point26_6{X: 20, Y: 10})
	b.Add1(fixed.Point26_6{X: 30, Y: 50})
	b.Clear()
	square(b)
	if x, y := spans(a), spans(b); x != y {
		fmt.Println(x)
		fmt.Println(y)
		os.Exit(1)
	}
}
'''
