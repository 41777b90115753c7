ID="p03-end-of-stream"; PROP="P03"; FILE="raster/paint.go"
EDITS=[("		m.y, m.x0, m.x1 = 0, 0, 0\n","		m.y, m.x1 = 0, 0\n")]
NEEDS="one MonochromePainter used for two streams, the second of which has no opaque span before its end"
BREAKS="the second stream ends with a bogus span"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
)

func main() {
	n := 0
	m := raster.NewMonochromePainter(raster.PainterFunc(func(ss []raster.Span, done bool) { n += len(ss) }))
	m.Paint([]raster.Span{{Y: 3, X0: 5, X1: 9, Alpha: 0xffff}, {Y: 4, X0: 5, X1: 9, Alpha: 0xffff}}, true)
	n = 0
	m.Paint([]raster.Span{{Y: 3, X0: 5, X1: 9, Alpha: 0x10}}, true)
	if n != 0 {
		fmt.Println(n, "spans painted for a stream with none")
		os.Exit(1)
	}
}
'''
