HEAD = r'''
package main

import (
	"fmt"
	"image"
	"os"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

var _ = freetype.Pt
var _ image.Point
var _ font.Face
var _ fixed.Int26_6

func luxi(name string) *truetype.Font {
	b, err := os.ReadFile("/repo/testdata/" + name + ".ttf")
	if err != nil {
		panic(err)
	}
	f, err := truetype.Parse(b)
	if err != nil {
		panic(err)
	}
	return f
}

func expect(ok bool, format string, a ...any) {
	if !ok {
		fmt.Printf(format+"\n", a...)
		os.Exit(1)
	}
}

func pic(f font.Face, x, y fixed.Int26_6, r rune) string {
	dr, m, mp, adv, ok := f.Glyph(fixed.Point26_6{X: x, Y: y}, r)
	s := fmt.Sprint(dr, adv, ok)
	for y := 0; ok && y < dr.Dy(); y++ {
		for x := 0; x < dr.Dx(); x++ {
			_, _, _, a := m.At(mp.X+x, mp.Y+y).RGBA()
			s += fmt.Sprintf(" %x", a>>8)
		}
	}
	return s
}

func context(f *truetype.Font, size float64, dst *image.Alpha) *freetype.Context {
	c := freetype.NewContext()
	c.SetFont(f)
	c.SetFontSize(size)
	c.SetSrc(image.Opaque)
	c.SetDst(dst)
	c.SetClip(dst.Bounds())
	return c
}
'''
