ID="p02-transparent"; PROP="P02"; FILE="raster/paint.go"
EDITS=[("		if r.Op == draw.Over {\n","		if r.Op == draw.Over && r.ca != 0 {\n")]
NEEDS="painting with a fully transparent colour under Over"
BREAKS="it erases what was there"
MAIN='''
package main

import (
	"fmt"
	"image"
	"image/color"
	"os"

	"github.com/golang/freetype/raster"
)

func main() {
	m := image.NewRGBA(image.Rect(0, 0, 10, 10))
	m.SetRGBA(4, 5, color.RGBA{10, 20, 30, 200})
	p := raster.NewRGBAPainter(m)
	p.SetColor(color.RGBA{})
	p.Paint([]raster.Span{{Y: 5, X0: 3, X1: 6, Alpha: 0xffff}}, true)
	if c := m.RGBAAt(4, 5); c != (color.RGBA{10, 20, 30, 200}) {
		fmt.Println("the pixel is now", c)
		os.Exit(1)
	}
}
'''
