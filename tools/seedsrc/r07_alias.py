ID="r07-shared-path"; PROP="R07"; FILE="raster/geom.go"
EDITS=[("	*p = append(*p, q...)\n","	if len(*p) == 0 {\n		*p = q\n		return\n	}\n	*p = append(*p, q...)\n")]
NEEDS="a path appended to an empty path, both of which are then extended"
BREAKS="the two paths share storage: extending one overwrites the other"
MAIN='''
package main

import (
	"fmt"
	"os"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func main() {
	var q raster.Path
	q.Start(fixed.P(1, 2))
	q.Add1(fixed.P(3, 4))
	q.Add1(fixed.P(5, 6))
	var p raster.Path
	p.AddPath(q)
	p.Add1(fixed.P(7, 8))
	want := p.String()
	q.Add1(fixed.P(9, 9))
	if got := p.String(); got != want {
		fmt.Println(got, "want", want)
		os.Exit(1)
	}
}
'''
