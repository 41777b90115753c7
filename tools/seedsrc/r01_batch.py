ID="r01-full-batch"; PROP="R01"; FILE="raster/raster.go"
EDITS=[("			if s > len(r.spanBuf)-2 {","			if s > len(r.spanBuf)-1 {")]
NEEDS="a picture with more than 64 spans in which an odd number of them fills the span buffer but for one entry just before a cell that makes two spans"
BREAKS="the span buffer overflows: Rasterize panics"
MAIN='''
package main

import (
	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func main() {
	// One cell that makes one span, then cells that make two each.
	r := raster.NewRasterizer(600, 4)
	bar := func(x0, x1 int) {
		p := func(x, y int) fixed.Point26_6 { return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)} }
		r.Start(p(x0, 0))
		r.Add1(p(x0, 64))
		r.Add1(p(x1, 64))
		r.Add1(p(x1, 0))
		r.Add1(p(x0, 0))
	}
	bar(16, 48)
	for i := 1; i < 100; i++ {
		bar(64*5*i+20, 64*5*i+64*3+20)
	}
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {}))
}
'''
