ID="p01-stride"; PROP="P01"; FILE="raster/paint.go"
EDITS=[("""		base := (s.Y-r.Image.Rect.Min.Y)*r.Image.Stride - r.Image.Rect.Min.X
		p := r.Image.Pix[base+s.X0 : base+s.X1]
		a := int(s.Alpha >> 8)
""","""		base := (s.Y-b.Min.Y)*b.Dx() - b.Min.X
		p := r.Image.Pix[base+s.X0 : base+s.X1]
		a := int(s.Alpha >> 8)
""")]
NEEDS="an alpha image that is a part of a wider one, and the Over operator"
BREAKS="spans are painted to other rows of the parent image"
MAIN='''
package main

import (
	"fmt"
	"image"
	"os"

	"github.com/golang/freetype/raster"
)

func main() {
	parent := image.NewAlpha(image.Rect(0, 0, 10, 10))
	m := parent.SubImage(image.Rect(2, 3, 7, 9)).(*image.Alpha)
	raster.NewAlphaOverPainter(m).Paint([]raster.Span{{Y: 5, X0: 3, X1: 6, Alpha: 0xffff}}, true)
	for y := 0; y < 10; y++ {
		for x := 0; x < 10; x++ {
			if in := y == 5 && 3 <= x && x < 6; in != (parent.AlphaAt(x, y).A == 255) {
				fmt.Println("pixel", x, y, "is", parent.AlphaAt(x, y).A)
				os.Exit(1)
			}
		}
	}
}
'''
