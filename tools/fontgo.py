# Go helpers for the demonstrations of planted bugs: they change tables of a
# font of the repository.
FONT = r'''
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

var _ = fmt.Sprint
var _ = font.HintingFull
var _ fixed.Int26_6

func read(name string) map[string][]byte {
	b, err := os.ReadFile("/repo/testdata/" + name + ".ttf")
	if err != nil {
		panic(err)
	}
	ts := map[string][]byte{}
	for i := 0; i < int(binary.BigEndian.Uint16(b[4:])); i++ {
		e := b[12+16*i:]
		o, n := binary.BigEndian.Uint32(e[8:]), binary.BigEndian.Uint32(e[12:])
		ts[string(e[:4])] = append([]byte(nil), b[o:o+n]...)
	}
	return ts
}

func build(ts map[string][]byte) []byte {
	var tags []string
	for t := range ts {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	out := []byte{0, 1, 0, 0, byte(len(tags) >> 8), byte(len(tags)), 0, 0, 0, 0, 0, 0}
	at := 12 + 16*len(tags)
	var data []byte
	for _, t := range tags {
		out = append(out, t...)
		out = binary.BigEndian.AppendUint32(out, 0)
		out = binary.BigEndian.AppendUint32(out, uint32(at+len(data)))
		out = binary.BigEndian.AppendUint32(out, uint32(len(ts[t])))
		data = append(data, ts[t]...)
		for len(data)%4 != 0 {
			data = append(data, 0)
		}
	}
	return append(out, data...)
}

func parse(ts map[string][]byte) *truetype.Font {
	f, err := truetype.Parse(build(ts))
	if err != nil {
		panic(err)
	}
	return f
}

func w(vs ...int) (b []byte) {
	for _, v := range vs {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}

// setGlyph replaces the data of a glyph.
func setGlyph(ts map[string][]byte, gid int, data []byte) {
	loca, glyf := ts["loca"], ts["glyf"]
	long := ts["head"][51] == 1
	off := func(i int) int {
		if long {
			return int(binary.BigEndian.Uint32(loca[4*i:]))
		}
		return 2 * int(binary.BigEndian.Uint16(loca[2*i:]))
	}
	n := int(binary.BigEndian.Uint16(ts["maxp"][4:]))
	var nl, ng []byte
	for i := 0; i < n; i++ {
		nl = binary.BigEndian.AppendUint32(nl, uint32(len(ng)))
		d := glyf[off(i):off(i+1)]
		if i == gid {
			d = data
		}
		ng = append(ng, d...)
		for len(ng)%4 != 0 {
			ng = append(ng, 0)
		}
	}
	nl = binary.BigEndian.AppendUint32(nl, uint32(len(ng)))
	ts["loca"], ts["glyf"] = nl, ng
	ts["head"][51] = 1
}

// simple is a simple glyph of contours of points {x, y, on}.
func simple(program []byte, contours ...[][3]int) []byte {
	x0, y0, x1, y1 := 1<<15-1, 1<<15-1, -1<<15, -1<<15
	var ends, flags, xs, ys []byte
	n, px, py := 0, 0, 0
	for _, c := range contours {
		n += len(c)
		ends = append(ends, w(n-1)...)
		for _, p := range c {
			x0, y0, x1, y1 = min(x0, p[0]), min(y0, p[1]), max(x1, p[0]), max(y1, p[1])
			flags = append(flags, byte(p[2]))
			xs = append(xs, w(p[0]-px)...)
			ys = append(ys, w(p[1]-py)...)
			px, py = p[0], p[1]
		}
	}
	out := w(len(contours), x0, y0, x1, y1)
	out = append(out, ends...)
	out = append(out, w(len(program))...)
	out = append(out, program...)
	out = append(out, flags...)
	out = append(out, xs...)
	return append(out, ys...)
}

var box = [][3]int{{0, 0, 1}, {0, 1000, 1}, {800, 1000, 1}, {800, 0, 1}}

func load(f *truetype.Font, scale int, gid int, h font.Hinting) *truetype.GlyphBuf {
	g := &truetype.GlyphBuf{}
	if err := g.Load(f, fixed.Int26_6(scale), truetype.Index(gid), h); err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	return g
}

func expect(ok bool, format string, a ...any) {
	if !ok {
		fmt.Printf(format+"\n", a...)
		os.Exit(1)
	}
}
'''
