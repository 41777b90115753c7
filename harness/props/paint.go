package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"

	"github.com/golang/freetype/raster"
	"verif/harness/pbt"
)

// genSpans makes a row-sorted list of spans, overlapping or not. The area
// is around r, with some spans outside of it or cut by it.
func genSpans(t *pbt.T, r image.Rectangle, max int, overlap bool, alpha func() uint32) []raster.Span {
	n := t.Int(0, max)
	var ss []raster.Span
	y := r.Min.Y - t.Int(0, 2)
	x := r.Min.X - 3
	for i := 0; i < n; i++ {
		switch t.Weighted(5, 3, 1) {
		case 1:
			y++
			x = r.Min.X - t.Int(0, 5)
		case 2:
			y += t.Int(1, 3)
			x = r.Min.X - t.Int(0, 5)
		}
		if overlap && t.Chance(1, 4) {
			x -= t.Int(1, 6)
		} else if t.Chance(1, 2) {
			x += t.Int(1, 4)
		}
		w := t.Size(1, 12)
		if t.Chance(1, 10) {
			w += r.Dx()
		}
		ss = append(ss, raster.Span{Y: y, X0: x, X1: x + w, Alpha: alpha()})
		x += w
	}
	return ss
}

func genAlpha(t *pbt.T) uint32 {
	switch t.Weighted(3, 2, 2, 2, 3) {
	case 0:
		return 0xffff
	case 1:
		return uint32(t.Int(1, 0xffff))
	case 2:
		return uint32(pbt.Pick(t, 1, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfeff, 0xfffe, 0x7f80, 0x7f7f, 0x8080))
	case 3:
		return uint32(t.Int(0, 255) * 0x101)
	}
	a := uint32(t.Int(0, 0xfff))
	return a<<4 | a>>8
}

// genRect makes a rectangle with any origin.
func genRect(t *pbt.T, max int) image.Rectangle {
	x, y := t.Sym(20), t.Sym(20)
	if t.Chance(1, 40) {
		x, y = t.Sym(1<<20), t.Sym(1<<20)
	}
	w, h := t.Int(1, max), t.Int(1, max)
	if t.Chance(1, 200) {
		w = t.Int(200, 2000)
	} else if t.Chance(1, 200) {
		h = t.Int(200, 2000)
	}
	return image.Rect(x, y, x+w, y+h)
}

func spansString(ss []raster.Span) string {
	s := fmt.Sprint(ss)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// subRect picks a sub-rectangle of r, often r itself, sometimes empty.
func subRect(t *pbt.T, r image.Rectangle) image.Rectangle {
	if t.Chance(1, 2) {
		return r
	}
	x0, y0 := r.Min.X+t.Int(0, r.Dx()), r.Min.Y+t.Int(0, r.Dy())
	x1, y1 := r.Max.X-t.Int(0, r.Dx()), r.Max.Y-t.Int(0, r.Dy())
	if x1 < x0 {
		x0, x1 = x1, x0
	}
	if y1 < y0 {
		y0, y1 = y1, y0
	}
	return image.Rect(x0, y0, x1, y1)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "P01",
		Rule:  "random alpha image (any origin, sub-image of a larger parent, random content), 1-3 batches of row-sorted, possibly overlapping spans, Over or Src; non-trivial: at least two spans change a pixel of the image",
		Quick: 3000000, Thorough: 40000000,
		Run: runP01,
	})
	pbt.Register(&pbt.Prop{
		ID:    "P02",
		Rule:  "random RGBA image (any origin, sub-image), valid premultiplied colour of any colour model, Over or Src, 1-3 batches of row-sorted spans; non-trivial: at least two spans hit the image",
		Quick: 2000000, Thorough: 30000000,
		Run: runP02,
	})
	pbt.Register(&pbt.Prop{
		ID:    "P03",
		Rule:  "1-3 consecutive streams of row-sorted non-overlapping spans, each cut into batches at random (empty batches and empty streams included), painter re-used; non-trivial: a stream in which at least two spans merge or one is dropped, with at least two batches",
		Quick: 3000000, Thorough: 40000000,
		Run: runP03,
	})
	pbt.Register(&pbt.Prop{
		ID:    "P04",
		Rule:  "random gamma (including 1) set 1-3 times on one painter, each time a span stream in batches, plus a sweep of alphas per gamma; non-trivial: gamma other than 1 and at least three spans",
		Quick: 600000, Thorough: 8000000,
		Run: runP04,
	})
}

func runP01(t *pbt.T) {
	over := t.Bool()
	pr := genRect(t, 12)
	parent := image.NewAlpha(pr)
	mode := t.Int(0, 2)
	for i := range parent.Pix {
		switch mode {
		case 1:
			parent.Pix[i] = uint8(t.Draw(256))
		case 2:
			parent.Pix[i] = uint8(i * 37)
		}
	}
	ir := subRect(t, pr)
	img := parent.SubImage(ir).(*image.Alpha)
	ib := img.Bounds()
	// Some images are not views made by SubImage: Pix starts inside a bigger buffer with a larger stride.
	var p raster.Painter
	if over {
		p = raster.NewAlphaOverPainter(img)
	} else {
		p = raster.NewAlphaSrcPainter(img)
	}
	want := append([]uint8(nil), parent.Pix...)
	at := func(x, y int) int { return (y-pr.Min.Y)*parent.Stride + x - pr.Min.X }
	nb := t.Int(1, 3)
	changed := 0
	var all []raster.Span
	for b := 0; b < nb; b++ {
		ss := genSpans(t, ib, 8, true, func() uint32 { return genAlpha(t) })
		all = append(all, ss...)
		for _, s := range ss {
			hit := false
			for x := s.X0; x < s.X1; x++ {
				if !(image.Point{x, s.Y}).In(ib) {
					continue
				}
				hit = true
				a := int(s.Alpha) >> 8
				if over {
					v := int(want[at(x, s.Y)])
					want[at(x, s.Y)] = uint8((255*v + a*(255-v)) / 255)
				} else {
					want[at(x, s.Y)] = uint8(a)
				}
			}
			if hit {
				changed++
			}
		}
		p.Paint(append([]raster.Span(nil), ss...), b == nb-1)
	}
	t.Sample("over=%v parent=%v image=%v spans=%s", over, pr, ib, spansString(all))
	if !bytes.Equal(want, parent.Pix) {
		for i := range want {
			if want[i] != parent.Pix[i] {
				t.Failf("over=%v parent %v image %v spans %s: byte %d (pixel %d,%d) is %#x, want %#x", over, pr, ib, spansString(all), i,
					pr.Min.X+i%parent.Stride, pr.Min.Y+i/parent.Stride, parent.Pix[i], want[i])
			}
		}
	}
	t.Checks(len(want))
	if changed >= 2 {
		t.NonTrivial()
	}
	t.Class("over=%v sub=%v", over, ib != pr)
}

func genColor(t *pbt.T) color.Color {
	switch t.Weighted(2, 3, 2, 2, 2, 1) {
	case 0:
		return color.Black
	case 1:
		a := t.Int(0, 255)
		return color.RGBA{uint8(t.Int(0, a)), uint8(t.Int(0, a)), uint8(t.Int(0, a)), uint8(a)}
	case 2:
		return color.NRGBA{uint8(t.Draw(256)), uint8(t.Draw(256)), uint8(t.Draw(256)), uint8(t.Draw(256))}
	case 3:
		a := t.Int(0, 0xffff)
		return color.RGBA64{uint16(t.Int(0, a)), uint16(t.Int(0, a)), uint16(t.Int(0, a)), uint16(a)}
	case 4:
		return color.Alpha16{uint16(t.Draw(65536))}
	}
	return color.RGBA{uint8(t.Draw(256)), uint8(t.Draw(256)), uint8(t.Draw(256)), 255}
}

func runP02(t *pbt.T) {
	over := t.Bool()
	pr := genRect(t, 10)
	parent := image.NewRGBA(pr)
	mode := t.Int(0, 1)
	for i := 0; i < len(parent.Pix) && mode == 1; i += 4 {
		a := t.Int(0, 255)
		parent.Pix[i+3] = uint8(a)
		if a > 0 {
			v := t.Draw(1 << 24)
			for k := 0; k < 3; k++ {
				parent.Pix[i+k] = uint8(int(v>>(8*k)&0xff) % (a + 1))
			}
		}
	}
	ir := subRect(t, pr)
	img := parent.SubImage(ir).(*image.RGBA)
	ib := img.Bounds()
	ref := image.NewRGBA(pr)
	copy(ref.Pix, parent.Pix)
	refImg := ref.SubImage(ir).(*image.RGBA)
	p := raster.NewRGBAPainter(img)
	op := draw.Src
	if over {
		op = draw.Over
	}
	p.Op = op
	nb := t.Int(1, 3)
	hits := 0
	var all []raster.Span
	var c color.Color
	for b := 0; b < nb; b++ {
		if b == 0 || t.Chance(1, 3) {
			c = genColor(t)
			p.SetColor(c)
		}
		ss := genSpans(t, ib, 6, true, func() uint32 { return genAlpha(t) })
		all = append(all, ss...)
		for _, s := range ss {
			sr := image.Rect(s.X0, s.Y, s.X1, s.Y+1).Intersect(ib)
			if sr.Empty() {
				continue
			}
			hits++
			if over {
				m := image.NewAlpha16(sr)
				for x := sr.Min.X; x < sr.Max.X; x++ {
					m.SetAlpha16(x, s.Y, color.Alpha16{uint16(s.Alpha)})
				}
				draw.DrawMask(refImg, sr, image.NewUniform(c), image.Point{}, m, sr.Min, draw.Over)
			} else {
				cr, cg, cb, ca := c.RGBA()
				for x := sr.Min.X; x < sr.Max.X; x++ {
					i := refImg.PixOffset(x, s.Y)
					for k, v := range []uint32{cr, cg, cb, ca} {
						refImg.Pix[i+k] = uint8(uint64(v) * uint64(s.Alpha) / 0xffff >> 8)
					}
				}
			}
		}
		p.Paint(append([]raster.Span(nil), ss...), b == nb-1)
	}
	t.Sample("over=%v parent=%v image=%v colour=%v spans=%s", over, pr, ib, c, spansString(all))
	if !bytes.Equal(ref.Pix, parent.Pix) {
		for i := range ref.Pix {
			if ref.Pix[i] != parent.Pix[i] {
				t.Failf("over=%v parent %v image %v last colour %#v spans %s: byte %d is %#x, image/draw has %#x", over, pr, ib, c, spansString(all), i, parent.Pix[i], ref.Pix[i])
			}
		}
	}
	t.Checks(len(ref.Pix))
	if hits >= 2 {
		t.NonTrivial()
	}
	t.Class("over=%v", over)
}

type batch struct {
	ss   []raster.Span
	done bool
}

// cutBatches cuts a stream at random places.
func cutBatches(t *pbt.T, ss []raster.Span) [][]raster.Span {
	var out [][]raster.Span
	for len(ss) > 0 {
		if t.Chance(1, 8) {
			out = append(out, nil)
		}
		n := t.Int(1, len(ss))
		out = append(out, ss[:n])
		ss = ss[n:]
	}
	if len(out) == 0 || t.Chance(1, 8) {
		out = append(out, nil)
	}
	return out
}

func runP03(t *pbt.T) {
	var got []batch
	rec := raster.PainterFunc(func(ss []raster.Span, done bool) {
		got = append(got, batch{append([]raster.Span(nil), ss...), done})
	})
	m := raster.NewMonochromePainter(rec)
	streams := manySteps(t, 1, 3)
	var desc string
	for k := 0; k < streams; k++ {
		got = nil
		r := image.Rect(0, 0, 20, 10)
		if t.Chance(1, 3) {
			r = r.Add(image.Pt(t.Sym(30), t.Sym(30)))
			if t.Chance(1, 10) {
				r = r.Add(image.Pt(t.Sym(1<<30), t.Sym(1<<30)))
			}
		}
		most := 9
		if t.Chance(1, 300) {
			most = 300
		}
		ss := genSpans(t, r, most, false, func() uint32 {
			if t.Bool() {
				return uint32(pbt.Pick(t, 0xffff, 0x8000, 0x7fff, 0x7ff0, 0x8001, 1))
			}
			return genAlpha(t)
		})
		if r.Min.X == 0 && t.Chance(1, 4) && len(ss) > 0 && t.Chance(1, 2) {
			// Streams that begin at the origin.
			d := image.Pt(-ss[0].X0, -ss[0].Y)
			for i := range ss {
				ss[i].X0 += d.X
				ss[i].X1 += d.X
				ss[i].Y += d.Y
			}
		}
		desc = spansString(ss)
		cuts := cutBatches(t, ss)
		var merged []raster.Span
		dropped, joined := 0, 0
		for _, s := range ss {
			if s.Alpha < 0x8000 {
				dropped++
				continue
			}
			if n := len(merged); n > 0 && merged[n-1].Y == s.Y && merged[n-1].X1 == s.X0 {
				merged[n-1].X1 = s.X1
				joined++
				continue
			}
			merged = append(merged, raster.Span{Y: s.Y, X0: s.X0, X1: s.X1, Alpha: 0xffff})
		}
		for i, c := range cuts {
			// The painter may use the batch as scratch space, so give it a copy
			// whose capacity ends with it, or not.
			b := make([]raster.Span, len(c), len(c)+t.Int(0, 1)*3)
			copy(b, c)
			m.Paint(b, i == len(cuts)-1)
		}
		// Compare: all non-empty spans forwarded, in order.
		var out []raster.Span
		dones := 0
		for i, b := range got {
			if b.done {
				dones++
				if i != len(got)-1 {
					t.Failf("stream %d %s: the end was signalled before the last batch", k, desc)
				}
			}
			for _, s := range b.ss {
				if s.X0 >= s.X1 {
					t.Failf("stream %d %s cut %v: empty span %v forwarded", k, desc, lens(cuts), s)
				}
				out = append(out, s)
			}
		}
		t.Sample("streams=%d last=%s in %d batches", streams, desc, len(cuts))
		if dones != 1 {
			t.Failf("stream %d %s cut %v: the end was signalled %d times", k, desc, lens(cuts), dones)
		}
		if fmt.Sprint(out) != fmt.Sprint(merged) {
			t.Failf("stream %d %s cut %v: forwarded %v, want %v", k, desc, lens(cuts), out, merged)
		}
		t.Checks(len(ss))
		if (joined >= 1 || dropped >= 1) && len(cuts) >= 2 {
			t.NonTrivial()
		}
		t.Class("joined>0=%v dropped>0=%v", joined > 0, dropped > 0)
	}
}

func lens(b [][]raster.Span) (l []int) {
	for _, x := range b {
		l = append(l, len(x))
	}
	return
}

func runP04(t *pbt.T) {
	var got []batch
	rec := raster.PainterFunc(func(ss []raster.Span, done bool) {
		got = append(got, batch{append([]raster.Span(nil), ss...), done})
	})
	var g *raster.GammaCorrectionPainter
	rounds := manySteps(t, 1, 3)
	for k := 0; k < rounds; k++ {
		gamma := 1.0
		switch t.Weighted(1, 3, 3, 1) {
		case 1:
			gamma = pbt.Pick(t, 2.2, 1/2.2, 0.5, 2, 1.8, 0.1, 4, 0.999, 1.001)
		case 2:
			gamma = 0.05 + float64(t.Int(0, 400))/100
		case 3:
			gamma = pbt.Pick(t, 0.01, 10, 50.0)
		}
		if g == nil {
			g = raster.NewGammaCorrectionPainter(rec, gamma)
		} else {
			g.SetGamma(gamma)
		}
		ss := genSpans(t, image.Rect(0, 0, 20, 10), 8, false, func() uint32 { return uint32(t.Weighted(1, 8)) * genAlpha(t) })
		// A sweep in one row: neighbours of a random alpha.
		base := t.Int(0, 0xffff-0x110)
		x := 0
		for d := 0; d < 0x110; d += t.Int(1, 40) {
			ss = append(ss, raster.Span{Y: 1000, X0: x, X1: x + 1, Alpha: uint32(base + d)})
			x++
		}
		cuts := cutBatches(t, ss)
		got = nil
		for i, c := range cuts {
			g.Paint(append([]raster.Span(nil), c...), i == len(cuts)-1)
		}
		if len(got) != len(cuts) {
			t.Failf("%d batches became %d", len(cuts), len(got))
		}
		var flatIn, flatOut []raster.Span
		for i, b := range got {
			if b.done != (i == len(cuts)-1) || len(b.ss) != len(cuts[i]) {
				t.Failf("batch %d: done=%v, %d spans; want %v, %d", i, b.done, len(b.ss), i == len(cuts)-1, len(cuts[i]))
			}
			flatIn = append(flatIn, cuts[i]...)
			flatOut = append(flatOut, b.ss...)
		}
		pow := func(a float64) float64 { return 0xffff * math.Pow(a/0xffff, gamma) }
		type pair struct{ in, out uint32 }
		var sweep []pair
		for i, s := range flatIn {
			o := flatOut[i]
			if o.Y != s.Y || o.X0 != s.X0 || o.X1 != s.X1 {
				t.Failf("gamma %v: span %v became %v", gamma, s, o)
			}
			if o.Alpha > 0xffff {
				t.Failf("gamma %v: alpha %#x became %#x", gamma, s.Alpha, o.Alpha)
			}
			a, b := s.Alpha, o.Alpha
			switch {
			case gamma == 1 || a == 0 || a == 0xffff:
				if a != b {
					t.Failf("gamma %v: alpha %#x became %#x", gamma, a, b)
				}
			default:
				lo := float64(a / 0x101 * 0x101)
				hi := lo + 0x101
				w := (float64(a) - lo) / 0x101
				want := pow(lo)*(1-w) + pow(hi)*w
				// Truncation of the two table entries and rounding of the interpolation.
				tol := 1.51
				if a%0x101 == 0 {
					want, tol = pow(lo), 1.001
				}
				if math.Abs(float64(b)-want) > tol {
					t.Failf("gamma %v: alpha %#x became %#x, want %.2f", gamma, a, b, want)
				}
			}
			sweep = append(sweep, pair{a, b})
		}
		for i := range sweep {
			for j := range sweep {
				if sweep[i].in < sweep[j].in && sweep[i].out > sweep[j].out {
					t.Failf("gamma %v: alpha %#x became %#x but %#x became %#x", gamma, sweep[i].in, sweep[i].out, sweep[j].in, sweep[j].out)
				}
			}
		}
		t.Checks(len(flatIn))
		t.Sample("gamma=%v spans=%s", gamma, spansString(flatIn))
		if gamma != 1 && len(flatIn) >= 3 {
			t.NonTrivial()
		}
		t.Class("gamma1=%v round=%d", gamma == 1, k)
	}
}
