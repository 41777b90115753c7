ID="r02-even-odd-three"; PROP="R02"; FILE="raster/raster.go"
EDITS=[("		alpha &= 0x1fff\n","		if alpha == 0x2000 {\n			alpha = 0\n		}\n")]
NEEDS="an even-odd fill of a path that winds three or more times around a pixel"
BREAKS="areas of winding number three and above are not folded"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func main() {
	r := raster.NewRasterizer(20, 20)
	for i := 0; i < 5; i++ {
		r.Start(fixed.P(1+i, 1+i))
		r.Add1(fixed.P(19-i, 1+i))
		r.Add1(fixed.P(19-i, 19-i))
		r.Add1(fixed.P(1+i, 19-i))
		r.Add1(fixed.P(1+i, 1+i))
	}
	bad := false
	r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
		for _, s := range ss {
			if s.Alpha != 0xffff {
				fmt.Println(s)
				bad = true
			}
		}
	}))
	if bad {
		os.Exit(1)
	}
}
'''
