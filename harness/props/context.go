package props

import (
	"image"
	"image/color"
	"image/draw"
	"math"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C01",
		Rule:  "a context with one or two fonts, a history of setting changes and strings (invalid UTF-8 included) drawn at random positions into a small or no clip, whole and in two parts, the returned positions compared with the sum of advances and kerning; unit conversions; non-trivial if some drawn string has at least two glyphs and moved the pen",
		Quick: 500000, Thorough: 8000000, Run: runC01})
	pbt.Register(&pbt.Prop{ID: "C02",
		Rule:  "a string drawn into one image of a random type (sub-images included) through a random clip, and into a copy of it through one that cuts nothing, from plain and image sources; pixels outside the clip must be untouched and those inside equal; non-trivial if the clip cuts the text: some changed pixel is inside and some outside",
		Quick: 240000, Thorough: 3000000, Run: runC02})
	pbt.Register(&pbt.Prop{ID: "C03",
		Rule:  "single glyphs at random positions compared with the area of their outline; and histories of setting changes (fonts, sizes, resolutions, hinting, colours, destinations, back and forth) and drawings of up to three characters at colliding sub-pixel positions, each compared with compositions of glyph images that a new context draws; non-trivial if at least three compared drawings have pixels and the settings changed in between (or a single glyph has pixels inside and at the edge)",
		Quick: 160000, Thorough: 2500000, Run: runC03})
}

// settings of a context.
type settings struct {
	f         *textFont
	size, dpi float64
	h         font.Hinting
}

func (s *settings) String() string {
	n := "no font"
	if s.f != nil {
		n = s.f.name
	}
	return sprintf("%s size %g dpi %g hinting %v", n, s.size, s.dpi, s.h)
}

// scales are those that the size may mean: 26.6 pixels, rounded in some way.
func (s *settings) scales() []int {
	v := s.size * s.dpi * 64 / 72
	a := math.Floor(v - 1e-6)
	if v == math.Floor(v) && math.Mod(s.size*4096, 1) == 0 && math.Mod(s.dpi*64, 1) == 0 {
		return []int{int(v)}
	}
	return []int{int(a), int(a) + 1}
}

// newContext is a context that only has these settings.
func (s *settings) newContext() *freetype.Context {
	c := freetype.NewContext()
	if s.dpi != 72 { // the default
		c.SetDPI(s.dpi)
	}
	if s.size != 12 { // the default
		c.SetFontSize(s.size)
	}
	if s.f != nil {
		c.SetFont(s.f.tf)
	}
	c.SetHinting(s.h)
	return c
}

// genSize is a size of about px pixels; exact if it is a whole number of 26.6 units.
func genSize(t *pbt.T, px float64, exact bool) (size, dpi float64) {
	if t.Chance(1, 20) {
		// The default size, at a resolution that makes it about as large.
		return 12, pbt.Pick(t, 72.0, 3*math.Max(1, math.Round(px*2)))
	}
	if exact {
		dpi = pbt.Pick(t, 72.0, 144, 36, 288)
		u := math.Max(1, math.Round(px*64))
		return u / 64 * 72 / dpi, dpi
	}
	return pxSize(t, px)
}

// loadsAll loads the glyphs of a string; ok is false if one is larger than max.
func (s *settings) loadsAll(scale int, str string, max int) (ls []*loaded, gids []truetype.Index, ok bool) {
	buf := &truetype.GlyphBuf{}
	for _, r := range str {
		g := s.f.tf.Index(r)
		l := loadInto(buf, s.f.tf, scale, int(g), s.h)
		if dims(&l) > max || far(&l) {
			return nil, nil, false
		}
		ls = append(ls, &l)
		gids = append(gids, g)
	}
	return ls, gids, true
}

// pen is the position after drawing a string; bad is the first glyph that
// cannot be loaded, or -1.
func (s *settings) pen(scale int, p pt, ls []*loaded, gids []truetype.Index) (q pt, bad int) {
	for i, l := range ls {
		if i > 0 {
			p.X += roundKern(s.f.tf.Kern(fixed.Int26_6(scale), gids[i-1], gids[i]), s.h)
		}
		if l.err != nil {
			return pt{}, i
		}
		p.X += fixed.Int26_6(l.adv)
	}
	return p, -1
}

func runC01(t *pbt.T) {
	// Unit conversions.
	{
		x, y := t.Sym(1<<24), t.Sym(1<<24)
		if g := freetype.Pt(x, y); g != fp(x*64, y*64) {
			t.Failf("Pt(%d, %d) = %v", x, y, g)
		}
	}
	faults := t.Chance(1, 4)
	fonts := []textFont{genAnyFont(t, faults)}
	if t.Chance(1, 4) {
		fonts = append(fonts, genAnyFont(t, faults))
	}
	c := freetype.NewContext()
	s := settings{size: 12, dpi: 72}
	dst := image.NewAlpha(image.Rect(0, 0, 16, 16))
	c.SetDst(dst)
	c.SetSrc(image.Opaque)
	if t.Bool() {
		c.SetClip(image.Rect(t.Sym(20), t.Sym(20), t.Sym(20), t.Sym(20)))
	}
	set := func(k int) {
		switch k {
		case 0:
			s.f = &fonts[t.Int(0, len(fonts)-1)]
			c.SetFont(s.f.tf)
		case 1:
			s.size, s.dpi = genSize(t, float64(t.Int(2, 40)), t.Chance(2, 3))
			if t.Bool() {
				c.SetFontSize(s.size)
				c.SetDPI(s.dpi)
			} else {
				c.SetDPI(s.dpi)
				c.SetFontSize(s.size)
			}
		case 2:
			s.h = pbt.PickS(t, hintings)
			c.SetHinting(s.h)
		case 3:
			if t.Bool() {
				s.size = float64(t.Int(1, 30))
				c.SetFontSize(s.size)
			} else {
				s.dpi = float64(t.Int(10, 200))
				c.SetDPI(s.dpi)
			}
			if s.size*s.dpi > 60*72 {
				s.size, s.dpi = 12, 72
				c.SetFontSize(12)
				c.SetDPI(72)
			}
		}
	}
	set(0)
	for k := 1; k < 3; k++ {
		if t.Chance(2, 3) {
			set(k)
		}
	}
	var hist []string
	fail := func(format string, a ...any) {
		for _, h := range hist {
			t.Logf("%s", h)
		}
		t.Failf(format, a...)
	}
	for k := manySteps(t, 1, 8); k > 0; k-- {
		if t.Chance(1, 3) {
			set(t.Int(0, 3))
		}
		{ // points to pixels
			x := pbt.Pick(t, float64(t.Sym(1000)), float64(t.Sym(100000))/64, s.size, 1)
			g, w := float64(c.PointToFixed(x)), x*s.dpi*64/72
			if math.Abs(g-w) >= 1+1e-6 {
				fail("at %g dpi, %g points are %g/64 pixels, want %g", s.dpi, x, g, w)
			}
		}
		str := genText(t, s.f, 10)
		p := genDot(t)
		type model struct {
			scale int
			ls    []*loaded
			gids  []truetype.Index
			end   pt
			bad   int
		}
		var ms []model
		okAll := true
		for _, sc := range s.scales() {
			ls, gids, ok := s.loadsAll(sc, str, 400)
			okAll = okAll && ok
			end, bad := s.pen(sc, p, ls, gids)
			ms = append(ms, model{sc, ls, gids, end, bad})
		}
		if !okAll {
			continue
		}
		t.Checks(1)
		t.Sample("%s %q at %v", s.String(), str, p)
		got, err := c.DrawString(str, p)
		hist = append(hist, sprintf("%s: %q at %v -> %v %v", s.String(), str, p, got, err))
		var hit *model
		for i := range ms {
			m := &ms[i]
			if (m.bad >= 0) == (err != nil) && (err != nil || got == m.end) {
				hit = m
			}
		}
		if hit == nil {
			for _, m := range ms {
				adv := []int{}
				for _, l := range m.ls {
					adv = append(adv, l.adv)
				}
				t.Logf("at scale %d: glyphs %v, advances %v", m.scale, m.gids, adv)
			}
			fail("%s: drawing %q at %v returned %v and the error %v, want %v (first bad glyph: %d)", s.String(), str, p, got, err, ms[0].end, ms[0].bad)
		}
		if err != nil {
			t.Class("error")
			continue
		}
		t.Class("drawn")
		if len(hit.ls) > 1 && got != p {
			t.NonTrivial()
		}
		// In two parts, with the kerning between them.
		rs := []rune(str)
		if len(rs) >= 2 && t.Bool() {
			i := t.Int(1, len(rs)-1)
			q, err := c.DrawString(string(rs[:i]), p)
			if err != nil {
				fail("%s: drawing a part of %q, which was drawn whole: %v", s.String(), str, err)
			}
			ends, same := []pt{}, false
			for _, m := range ms {
				p := q
				p.X += roundKern(s.f.tf.Kern(fixed.Int26_6(m.scale), hit.gids[i-1], hit.gids[i]), s.h)
				p, err = c.DrawString(string(rs[i:]), p)
				ends = append(ends, p)
				same = same || err == nil && p == got
			}
			if !same {
				fail("%s: drawing %q and then %q ended at %v (%v), whole at %v", s.String(), string(rs[:i]), string(rs[i:]), ends, err, got)
			}
		}
	}
}

// canvas makes an image of some type with random contents; the same again
// for the same choices.
type canvas struct {
	kind   int
	r, sub image.Rectangle
	noise  uint32
}

func genCanvas(t *pbt.T, n int) canvas {
	c := canvas{kind: t.Int(0, 6)}
	x, y := t.Sym(40), t.Sym(40)
	if t.Chance(1, 30) {
		x, y = t.Sym(500000), t.Sym(500000)
		if t.Bool() {
			x, y = t.Sym(5000), t.Sym(5000)
		}
		t.Class("a far destination")
	}
	c.r = image.Rect(x, y, x+t.Int(1, n), y+t.Int(1, n))
	if t.Bool() {
		c.r = image.Rect(x, y, x+t.Int(n/2, n), y+t.Int(n/2, n))
	}
	c.sub = c.r
	if t.Chance(1, 3) {
		c.sub = subRect(t, c.r)
	}
	if t.Bool() {
		c.noise = uint32(t.Draw(1<<32)) | 1
	}
	return c
}

// makes returns the whole image and the part to draw on.
func (c canvas) make() (whole, part draw.Image) {
	var img interface {
		draw.Image
		SubImage(image.Rectangle) image.Image
	}
	switch c.kind {
	case 0:
		img = image.NewRGBA(c.r)
	case 1:
		img = image.NewNRGBA(c.r)
	case 2:
		img = image.NewAlpha(c.r)
	case 3:
		img = image.NewGray(c.r)
	case 4:
		img = image.NewRGBA64(c.r)
	case 5:
		img = image.NewPaletted(c.r, color.Palette{color.Black, color.White, color.RGBA{255, 0, 0, 255}, color.RGBA{0, 128, 128, 255}})
	default:
		img = image.NewCMYK(c.r)
	}
	if s := c.noise; s != 0 {
		for y := c.r.Min.Y; y < c.r.Max.Y; y++ {
			for x := c.r.Min.X; x < c.r.Max.X; x++ {
				s = s*1664525 + 1013904223
				v := s >> 8
				img.Set(x, y, color.NRGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), uint8(s>>27) << 3})
			}
		}
	}
	part, _ = img.SubImage(c.sub).(draw.Image)
	return img, part
}

// patch is a source image with different colours everywhere.
func patch(t *pbt.T) image.Image {
	switch t.Int(0, 2) {
	case 0:
		return image.NewUniform(genColor(t))
	case 1:
		return image.Opaque
	}
	r := image.Rect(t.Sym(8), t.Sym(8), t.Int(0, 60), t.Int(0, 60))
	m := image.NewNRGBA(r)
	s := uint32(t.Draw(1<<32)) | 1
	for i := range m.Pix {
		s = s*1664525 + 1013904223
		m.Pix[i] = uint8(s >> 24)
	}
	return m
}

func sameColor(a, b color.Color) bool {
	r0, g0, b0, a0 := a.RGBA()
	r1, g1, b1, a1 := b.RGBA()
	return r0 == r1 && g0 == g1 && b0 == b1 && a0 == a1
}

func runC02(t *pbt.T) {
	f := genAnyFont(t, false)
	s := settings{f: &f, h: pbt.PickS(t, hintings)}
	s.size, s.dpi = genSize(t, float64(t.Int(4, 40)), t.Bool())
	cv := genCanvas(t, 60)
	whole0, _ := cv.make()
	whole1, part1 := cv.make()
	whole2, part2 := cv.make()
	if part1 == nil || part2 == nil {
		t.Discard()
	}
	str := genText(t, &f, 4)
	if rs, _ := f.small(s.scales()[0], s.h, 100); len(rs) > 0 {
		str = ""
		for k := manySteps(t, 1, 4); k > 0; k-- {
			str += string(pbt.PickS(t, rs))
		}
	}
	ok := true
	for _, sc := range s.scales() {
		ls, _, k := s.loadsAll(sc, str, 200)
		ok = ok && k
		for _, l := range ls {
			ok = ok && l.err == nil
		}
	}
	if !ok {
		t.Discard()
	}
	p := fp(64*(cv.r.Min.X+t.Int(-30, 40))+t.Int(0, 63), 64*(cv.r.Min.Y+t.Int(-10, 60))+t.Int(0, 63))
	if b := box(&s, str, p); !b.Empty() && t.Chance(3, 4) {
		// Somewhere on the canvas.
		o := image.Pt(t.Int(cv.r.Min.X, cv.r.Max.X), t.Int(cv.r.Min.Y, cv.r.Max.Y)).Sub(image.Pt((b.Min.X+b.Max.X)/2, (b.Min.Y+b.Max.Y)/2))
		p.X += fixed.Int26_6(64 * o.X)
		p.Y += fixed.Int26_6(64 * o.Y)
	}
	src := patch(t)
	run := func(dst draw.Image, clip image.Rectangle, past func(c *freetype.Context)) pt {
		c := s.newContext()
		c.SetSrc(src)
		if past != nil {
			past(c)
		}
		c.SetDst(dst)
		c.SetClip(clip)
		q, err := c.DrawString(str, p)
		if err != nil {
			t.Failf("%s: %q: %v", s.String(), str, err)
		}
		return q
	}
	wide := image.Rect(-1<<20, -1<<20, 1<<20, 1<<20)
	// Both contexts may have drawn elsewhere: one through a clip, one not.
	// (The same text, since a context may use the image of a glyph again
	// that it made for another position.)
	var before, without func(c *freetype.Context)
	if t.Chance(1, 4) {
		w, part := cv.make()
		r := subRect(t, cv.r)
		if t.Chance(1, 3) || part == nil {
			part = w
		}
		past := func(r image.Rectangle) func(c *freetype.Context) {
			return func(c *freetype.Context) {
				c.SetDst(part)
				c.SetClip(r)
				c.DrawString(str, p)
			}
		}
		before, without = past(r), past(wide)
		t.Class("a drawing before")
	}
	q2 := run(part2, wide, without)
	// Where the text is.
	var ink image.Rectangle
	for y := cv.r.Min.Y; y < cv.r.Max.Y; y++ {
		for x := cv.r.Min.X; x < cv.r.Max.X; x++ {
			if !sameColor(whole0.At(x, y), whole2.At(x, y)) {
				ink = ink.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	clip := cv.r
	kind := t.Int(0, 5)
	if !ink.Empty() && t.Chance(2, 3) {
		kind = 6 + t.Int(0, 2)
	}
	switch kind {
	case 6: // one edge through the text
		switch v := t.Int(0, 59); t.Int(0, 3) {
		case 0:
			clip.Min.X = ink.Min.X + v%ink.Dx()
		case 1:
			clip.Max.X = ink.Max.X - v%ink.Dx()
		case 2:
			clip.Min.Y = ink.Min.Y + v%ink.Dy()
		case 3:
			clip.Max.Y = ink.Max.Y - v%ink.Dy()
		}
	case 7: // a part of the text
		clip = subRect(t, ink)
	case 8: // any number of edges near it
		clip = image.Rect(ink.Min.X+t.Sym(5), ink.Min.Y+t.Sym(5), ink.Max.X+t.Sym(5), ink.Max.Y+t.Sym(5))
	case 0:
		clip = image.Rect(t.Int(cv.r.Min.X-5, cv.r.Max.X+5), t.Int(cv.r.Min.Y-5, cv.r.Max.Y+5), t.Int(cv.r.Min.X-5, cv.r.Max.X+5), t.Int(cv.r.Min.Y-5, cv.r.Max.Y+5))
	case 1:
		clip = subRect(t, cv.r)
		if b := box(&s, str, p).Intersect(cv.r); !b.Empty() {
			clip = subRect(t, b)
		}
	case 2: // one edge
		v := t.Int(0, 59)
		switch t.Int(0, 3) {
		case 0:
			clip.Min.X = min(clip.Min.X+v, clip.Max.X)
		case 1:
			clip.Max.X = max(clip.Max.X-v, clip.Min.X)
		case 2:
			clip.Min.Y = min(clip.Min.Y+v, clip.Max.Y)
		case 3:
			clip.Max.Y = max(clip.Max.Y-v, clip.Min.Y)
		}
	case 3: // one row, column or pixel
		x, y := t.Int(cv.r.Min.X, cv.r.Max.X), t.Int(cv.r.Min.Y, cv.r.Max.Y)
		clip = pbt.Pick(t, image.Rect(x, y, x+1, y+1), image.Rect(x, cv.r.Min.Y, x+1, cv.r.Max.Y), image.Rect(cv.r.Min.X, y, cv.r.Max.X, y+1))
	case 4: // empty
		x, y := t.Int(cv.r.Min.X, cv.r.Max.X), t.Int(cv.r.Min.Y, cv.r.Max.Y)
		clip = pbt.Pick(t, image.Rectangle{}, image.Rect(x, y, x, y+9), image.Rect(x, y, x+9, y), image.Rectangle{Min: image.Pt(x+5, y), Max: image.Pt(x, y+20)})
	default:
		clip = clip.Inset(-t.Int(0, 30))
	}
	q1 := run(part1, clip, before)
	desc := func() string {
		return sprintf("%s, %q at %v onto %T %v (part %v), source %T, clip %v: ", s.String(), str, p, whole1, cv.r, cv.sub, src, clip)
	}
	t.Sample("%s", desc())
	if q1 != q2 {
		t.Failf("%sthe pen ended at %v, without a clip at %v", desc(), q1, q2)
	}
	in, out := 0, 0
	for y := cv.r.Min.Y; y < cv.r.Max.Y; y++ {
		for x := cv.r.Min.X; x < cv.r.Max.X; x++ {
			before, clipped, full := whole0.At(x, y), whole1.At(x, y), whole2.At(x, y)
			q := image.Pt(x, y)
			changed := !sameColor(before, full)
			switch {
			case !q.In(cv.sub):
				if changed || !sameColor(before, clipped) {
					t.Failf("%spixel %v, outside of the destination, was drawn on", desc(), q)
				}
			case q.In(clip):
				if !sameColor(clipped, full) {
					t.Failf("%spixel %v is %v, without a clip %v (before: %v)", desc(), q, clipped, full, before)
				}
				if changed {
					in++
				}
			default:
				if !sameColor(clipped, before) {
					t.Failf("%spixel %v, outside of the clip, became %v (before: %v)", desc(), q, clipped, before)
				}
				if changed {
					out++
				}
			}
		}
	}
	t.Checks(cv.r.Dx() * cv.r.Dy())
	if in > 0 && out > 0 {
		t.NonTrivial()
	}
	t.Class("%T", whole1)
	t.Class("source %T", src)
}

// box is about where a string is drawn.
func box(s *settings, str string, p pt) (r image.Rectangle) {
	ls, _, _ := s.loadsAll(s.scales()[0], str, 1<<20)
	for _, l := range ls {
		if l.err == nil && len(l.pts) > 0 {
			r = r.Union(around(l, p).Inset(4))
			p.X += fixed.Int26_6(l.adv)
		}
	}
	return r
}

// blob is the image of a glyph that a new context draws at a position, as
// alpha over a rectangle that holds all of it.
type blob struct {
	r image.Rectangle
	m *image.Alpha
}

// around is a rectangle that holds a glyph placed at a position with some room.
func around(l *loaded, p pt) image.Rectangle {
	b := l.bounds
	x0, x1 := int(p.X+b.Min.X)>>6, int(p.X+b.Max.X)>>6+1
	y0, y1 := int(p.Y-b.Max.Y)>>6, int(p.Y-b.Min.Y)>>6+1
	if len(l.pts) == 0 {
		x0, x1, y0, y1 = int(p.X>>6), int(p.X>>6), int(p.Y>>6), int(p.Y>>6)
	}
	return image.Rect(x0, y0, x1, y1).Inset(-4)
}

// drawBlob draws one character with a new context.
func drawBlob(t *pbt.T, s *settings, l *loaded, str string, p pt) blob {
	r := around(l, p)
	m := image.NewAlpha(r)
	c := s.newContext()
	c.SetDst(m)
	c.SetSrc(image.Opaque)
	c.SetClip(r)
	if _, err := c.DrawString(str, p); err != nil {
		t.Failf("%s: drawing %q at %v: %v", s.String(), str, p, err)
	}
	return blob{r, m}
}

func runC03(t *pbt.T) {
	if t.Chance(1, 2) {
		singles(t)
		return
	}
	histories(t)
}

func singles(t *pbt.T) {
	f := genAnyFont(t, false)
	s := settings{f: &f, h: pbt.PickS(t, hintings)}
	px, limit := float64(t.Int(4*64, 50*64))/64, 150
	if t.Chance(1, 60) {
		px, limit = float64(t.Int(50, 400)), 600
		t.Class("large")
	}
	s.size, s.dpi = genSize(t, px, t.Bool())
	t.Class("single glyphs")
	scs := s.scales()
	rs, _ := f.small(scs[0], s.h, limit)
	if len(rs) == 0 {
		t.Discard()
	}
	t.Sample("%s, single glyphs of %U", s.String(), rs)
	for k := t.Int(1, 4); k > 0; k-- {
		str := string(pbt.PickS(t, rs))
		p := genDot(t)
		msg := ""
		for _, sc := range scs {
			ls, gids, ok := s.loadsAll(sc, str, 2*limit)
			if !ok || ls[0].err != nil {
				t.Discard()
			}
			l := ls[0]
			b := drawBlob(t, &s, l, str, p)
			t.Checks(1)
			at := func(x, y int) uint8 { return b.m.AlphaAt(x, y).A }
			dim := dims(l) + 1
			partial, full, m := checkPicture(l, float64(p.X)/64, float64(p.Y)/64, b.r, at, dim)
			if m != "" {
				// The image may be that of another position in the same quantum.
				x0, y0 := p.X&^15, p.Y&^63
			search:
				for _, y := range []fixed.Int26_6{p.Y, y0} {
					for x := x0 - 15; x < x0+31; x++ {
						if d := x - p.X; d >= 16 || d <= -16 {
							continue
						}
						if partial, full, m2 := checkPicture(l, float64(x)/64, float64(y)/64, b.r, at, dim); m2 == "" {
							if partial > 0 && full > 0 {
								t.Class("matched elsewhere in the quantum")
							}
							m = ""
							break search
						}
					}
				}
			}
			if m == "" {
				if partial > 0 && full > 0 {
					t.NonTrivial()
				}
				msg = ""
				break
			}
			msg = sprintf("%s, %q (glyph %d) at %v: %s; %s", s.String(), str, gids[0], p, m, loadedString(l))
		}
		if msg != "" {
			t.Failf("%s", msg)
		}
	}
}

func histories(t *pbt.T) {
	t.Class("histories")
	fonts := []textFont{genAnyFont(t, false)}
	if t.Chance(1, 2) {
		fonts = append(fonts, genAnyFont(t, false))
	}
	type sz struct{ size, dpi float64 }
	var sizes []sz
	for k := t.Int(1, 3); k > 0; k-- {
		a, b := genSize(t, float64(t.Int(5, 24)), true)
		sizes = append(sizes, sz{a, b})
	}
	fracs := []int{0}
	for k := t.Int(1, 3); k > 0; k-- {
		fracs = append(fracs, t.Int(0, 63))
	}
	colors := []color.Color{color.Black}
	for k := t.Int(0, 2); k > 0; k-- {
		colors = append(colors, genColor(t))
	}
	type canv struct{ got, want draw.Image }
	var origin image.Point
	if t.Chance(1, 8) {
		origin = image.Pt(t.Sym(100), t.Sym(100))
		if t.Bool() {
			n := 1 << t.Int(8, 23)
			origin = image.Pt(t.Sym(n), t.Sym(n))
			t.Class("a far destination")
		}
	}
	var dsts []canv
	for k := t.Int(1, 2); k > 0; k-- {
		r := image.Rect(0, 0, t.Int(10, 50), t.Int(10, 50)).Add(origin)
		if t.Bool() {
			dsts = append(dsts, canv{image.NewRGBA(r), image.NewRGBA(r)})
		} else {
			dsts = append(dsts, canv{image.NewAlpha(r), image.NewAlpha(r)})
		}
	}
	c := freetype.NewContext()
	s := settings{size: 12, dpi: 72}
	col, dst := 0, 0
	clip := dsts[0].got.Bounds()
	runes := map[*textFont][]rune{}
	var hist []string
	note := func(format string, a ...any) { hist = append(hist, sprintf(format, a...)) }
	fail := func(format string, a ...any) {
		for _, h := range hist {
			t.Logf("%s", h)
		}
		t.Failf(format, a...)
	}
	set := func(k int) {
		switch k {
		case 0:
			s.f = &fonts[t.Int(0, len(fonts)-1)]
			c.SetFont(s.f.tf)
			note("font %s", s.f.name)
		case 1:
			z := pbt.PickS(t, sizes)
			s.size = z.size
			c.SetFontSize(s.size)
			note("size %g", s.size)
			if t.Chance(3, 4) || s.size*s.dpi > 30*72 {
				s.dpi = z.dpi
				c.SetDPI(s.dpi)
				note("dpi %g", s.dpi)
			}
		case 2:
			z := pbt.PickS(t, sizes)
			s.dpi = z.dpi
			c.SetDPI(s.dpi)
			note("dpi %g", s.dpi)
			if t.Chance(1, 2) || s.size*s.dpi > 30*72 {
				s.size = z.size
				c.SetFontSize(s.size)
				note("size %g", s.size)
			}
		case 3:
			s.h = pbt.PickS(t, hintings)
			c.SetHinting(s.h)
			note("hinting %v", s.h)
		case 4:
			col = t.Int(0, len(colors)-1)
			c.SetSrc(image.NewUniform(colors[col]))
			note("colour %v", colors[col])
		case 5:
			dst = t.Int(0, len(dsts)-1)
			c.SetDst(dsts[dst].got)
			note("destination %d", dst)
		case 6:
			clip = dsts[dst].got.Bounds()
			if t.Chance(1, 3) {
				clip = subRect(t, clip)
			}
			c.SetClip(clip)
			note("clip %v", clip)
		}
	}
	// Everything is set once, in some order, some of it twice.
	for _, k := range t.Perm(7) {
		set(k)
		if t.Chance(1, 4) {
			set(t.Int(0, 6))
		}
	}
	type key struct {
		f     *truetype.Font
		scale int
		h     font.Hinting
		gid   truetype.Index
	}
	used := map[key][]pt{}         // fractions at which a glyph was drawn
	blobs := map[key]map[pt]blob{} // what a new context draws there
	small := func(scale int) []rune {
		if r, ok := runes[s.f]; ok {
			return r
		}
		rs, _ := s.f.small(scale, s.h, 60)
		if len(rs) > 5 {
			var some []rune
			for k := 0; k < 5; k++ {
				some = append(some, pbt.PickS(t, rs))
			}
			rs = some
		}
		runes[s.f] = rs
		return rs
	}
	drawn, changes, total := 0, 0, 0
	for k := manySteps(t, 3, 24); k > 0; k-- {
		if t.Chance(1, 3) {
			set(t.Int(0, 6))
			if drawn > 0 {
				changes++
			}
			continue
		}
		scale := s.scales()[0]
		if len(s.scales()) > 1 {
			continue
		}
		rs := small(scale)
		if len(rs) == 0 {
			continue
		}
		str := ""
		for n := pbt.Pick(t, 1, 2, 1, 3); n > 0; n-- {
			str += string(pbt.PickS(t, rs))
		}
		// Now and then the same glyph index modulo a power of two.
		ls, gids, ok := s.loadsAll(scale, str, 60)
		if !ok {
			continue
		}
		bad := false
		for _, l := range ls {
			bad = bad || l.err != nil
		}
		if bad {
			continue
		}
		b := dsts[dst].got.Bounds()
		p := fp((b.Min.X+t.Int(0, b.Dx()))*64+pbt.PickS(t, fracs), (b.Min.Y+t.Int(0, b.Dy()+10))*64+pbt.PickS(t, fracs))
		note("%q at %v, %s", str, p, s.String())
		if _, err := c.DrawString(str, p); err != nil {
			fail("%s: drawing %q: %v", s.String(), str, err)
		}
		total++
		t.Checks(1)
		// The images that the characters may have.
		type place struct {
			r image.Rectangle
			m *image.Alpha
		}
		var cands [][]place
		combos := 1
		var str2 []string
		for _, r := range str {
			str2 = append(str2, string(r))
		}
		q := p
		pixels := false
		for i, l := range ls {
			if i > 0 {
				q.X += roundKern(s.f.tf.Kern(fixed.Int26_6(scale), gids[i-1], gids[i]), s.h)
			}
			kk := key{s.f.tf, scale, s.h, gids[i]}
			frac := fp(int(q.X&63), int(q.Y&63))
			have := false
			for _, u := range used[kk] {
				have = have || u == frac
			}
			if !have {
				used[kk] = append(used[kk], frac)
			}
			if blobs[kk] == nil {
				blobs[kk] = map[pt]blob{}
			}
			var cs []place
			for _, u := range used[kk] {
				if u != frac && (u.X-frac.X >= 16 || frac.X-u.X >= 16) {
					continue
				}
				bl, ok := blobs[kk][u]
				if !ok {
					bl = drawBlob(t, &s, l, str2[i], u)
					blobs[kk][u] = bl
				}
				r := bl.r.Add(image.Pt(int(q.X>>6), int(q.Y>>6)))
				cs = append(cs, place{r, bl.m})
				if u == frac {
					n := len(cs) - 1
					cs[0], cs[n] = cs[n], cs[0]
				}
			}
			combos *= len(cs)
			cands = append(cands, cs)
			q.X += fixed.Int26_6(l.adv)
		}
		// Some combination of them gives the picture.
		src := image.NewUniform(colors[col])
		want := dsts[dst].want
		if combos > 300 {
			t.Class("too many combinations")
			draw.Draw(want, want.Bounds(), dsts[dst].got, want.Bounds().Min, draw.Src)
			continue
		}
		idx := make([]int, len(cands))
		msg := ""
		for {
			tmp := cloneImage(want)
			for i, cs := range cands {
				pl := cs[idx[i]]
				r := pl.r.Intersect(clip)
				if !r.Empty() {
					draw.DrawMask(tmp, r, src, image.Point{}, pl.m, pl.m.Rect.Min.Add(r.Min.Sub(pl.r.Min)), draw.Over)
				}
			}
			m := diffImages(dsts[dst].got, tmp)
			if m == "" {
				if diffImages(want, tmp) != "" {
					pixels = true
				}
				// Go on from what was drawn: no differences pile up.
				draw.Draw(want, want.Bounds(), dsts[dst].got, want.Bounds().Min, draw.Src)
				msg = ""
				break
			}
			if msg == "" {
				msg = m
			}
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(cands[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				break
			}
		}
		if msg != "" {
			fail("%s: after %q was drawn at %v (clip %v), destination %d differs from the composition of its glyphs: %s", s.String(), str, p, clip, dst, msg)
		}
		// The other destinations are untouched.
		for i := range dsts {
			if i != dst {
				if m := diffImages(dsts[i].got, dsts[i].want); m != "" {
					fail("drawing on destination %d changed destination %d: %s", dst, i, m)
				}
			}
		}
		if pixels {
			drawn++
		}
	}
	t.Sample("%v", hist)
	if drawn >= 3 && changes > 0 {
		t.NonTrivial()
	}
}

func cloneImage(m draw.Image) draw.Image {
	var c draw.Image
	switch m := m.(type) {
	case *image.RGBA:
		x := image.NewRGBA(m.Rect)
		copy(x.Pix, m.Pix)
		c = x
	case *image.Alpha:
		x := image.NewAlpha(m.Rect)
		copy(x.Pix, m.Pix)
		c = x
	}
	return c
}

// diffImages reports a pixel that differs by more than rounding.
func diffImages(a, b draw.Image) string {
	var p, q []uint8
	switch m := a.(type) {
	case *image.RGBA:
		p, q = m.Pix, b.(*image.RGBA).Pix
	case *image.Alpha:
		p, q = m.Pix, b.(*image.Alpha).Pix
	}
	for i := range p {
		if d := int(p[i]) - int(q[i]); d > 1 || d < -1 {
			n := len(p) / (a.Bounds().Dx() * a.Bounds().Dy())
			return sprintf("pixel %v is %v, want %v", image.Pt(i/n%a.Bounds().Dx(), i/n/a.Bounds().Dx()), p[i/n*n:i/n*n+n], q[i/n*n:i/n*n+n])
		}
	}
	return ""
}
