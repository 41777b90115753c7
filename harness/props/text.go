package props

import (
	"image"
	"math"
	"unicode/utf8"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/pbt"
	"verif/harness/ref"
	"verif/harness/ttf"
)

// textFont is a font to draw with.
type textFont struct {
	name  string
	tf    *truetype.Font
	bytes []byte
	runes []rune // that are worth drawing
	n     int    // number of glyphs
	model *ttf.Font
}

// straightFont has polygons only.
func straightFont(t *pbt.T) *ttf.Font {
	f := &ttf.Font{UPEM: pbt.Pick(t, 64, 1000, 2048, 16, t.Int(16, 4096))}
	f.MaxStack, f.MaxStorage, f.MaxTwilight, f.MaxFDefs = 10, 2, 2, 2
	for n := t.Int(1, 4); n > 0; n-- {
		g := genOutline(t, f.UPEM, 3, 6)
		if t.Chance(1, 3) { // a rectangle
			x0, y0 := t.Sym(f.UPEM), t.Sym(f.UPEM)
			x1, y1 := x0+t.Int(1, f.UPEM), y0+t.Int(1, f.UPEM)
			g.Pts = []ttf.Pt{{X: x0, Y: y0}, {X: x0, Y: y1}, {X: x1, Y: y1}, {X: x1, Y: y0}}
			g.Ends = []int{4}
			g.SetBox()
		}
		for i := range g.Pts {
			g.Pts[i].On = true
		}
		f.Glyphs = append(f.Glyphs, g)
	}
	return f
}

// partner is a rune whose glyph's index differs by 256 from that of r, or def.
func (f *realFont) partner(r, def rune) rune {
	if f.byGid == nil {
		f.byGid = map[int]rune{}
		for r := rune(0xffff); r >= 32; r-- {
			f.byGid[int(f.font.Index(r))] = r
		}
	}
	g := int(f.font.Index(r))
	for _, d := range []int{256, -256, 512, -512} {
		if q, ok := f.byGid[g+d]; ok {
			return q
		}
	}
	return def
}

// genTextFont makes a font, or takes a real one. Some glyphs of a faulty one
// cannot be loaded.
func genTextFont(t *pbt.T, faults bool) textFont {
	if t.Chance(1, 3) {
		r0 := pbt.PickS(t, realFonts).must(t)
		tf := textFont{name: r0.name, tf: r0.font, bytes: r0.bytes, n: len(r0.model.Glyphs), model: r0.model}
		for k := t.Int(3, 12); k > 0; k-- {
			r := rune(t.Int(33, 126))
			switch t.Int(0, 5) {
			case 0:
				r = rune(t.Int(0xa0, 0x17f))
			case 1:
				r = pbt.Pick[rune](t, ' ', 0x4e00, 0xfffd, 'A'+256, 'A'+65536, 0xfb01, 0)
			case 2:
				if len(tf.runes) > 0 {
					r = pbt.PickS(t, tf.runes) + 256*rune(t.Int(1, 4))
				}
			case 3, 4:
				if len(tf.runes) > 0 {
					r = r0.partner(pbt.PickS(t, tf.runes), r)
				}
			}
			tf.runes = append(tf.runes, r)
		}
		return tf
	}
	var f *ttf.Font
	tf := textFont{}
	switch t.Int(0, 3) {
	case 0:
		f = straightFont(t)
		tf.name = "generated (polygons)"
	case 1, 2:
		f = plainFont(t)
		f.UPEM = max(f.UPEM, 16)
		tf.name = "generated (plain)"
	default:
		f = mixedFont(t)
		tf.name = "generated (programs)"
	}
	if faults {
		if t.Chance(1, 2) {
			f.Glyphs = append(f.Glyphs, ttf.Glyph{Comps: []ttf.Comp{{Glyph: 60000}}})
		}
		if t.Chance(1, 2) {
			g := genOutline(t, f.UPEM, 2, 5)
			g.Program = []byte{0x21} // fails: nothing on the stack
			f.Glyphs = append(f.Glyphs, g)
		}
	}
	many := !faults && t.Chance(1, 5)
	n0 := len(f.Glyphs)
	if many { // glyphs whose indices agree in the low byte
		for len(f.Glyphs) < 256 {
			f.Glyphs = append(f.Glyphs, ttf.Glyph{Empty: true, Adv: f.UPEM / 4})
		}
		for i := 0; i < n0; i++ {
			g := f.Glyphs[t.Int(0, n0-1)]
			if t.Bool() {
				g = genOutline(t, f.UPEM, 3, 6)
			}
			f.Glyphs = append(f.Glyphs, g)
		}
	}
	switch t.Int(0, 2) {
	case 0:
		for i := range f.Glyphs {
			f.Glyphs[i].LSB = f.Glyphs[i].XMin
		}
	case 1:
		genMetrics(t, f)
		for i := range f.Glyphs {
			g := &f.Glyphs[i]
			if g.Adv > 3*f.UPEM {
				g.Adv %= 3*f.UPEM + 1
			}
			if g.LSB > 2*f.UPEM || g.LSB < -2*f.UPEM {
				g.LSB %= 2 * f.UPEM
			}
		}
	}
	if t.Chance(1, 15) { // glyphs far from their origin
		for k := t.Int(1, 3); k > 0; k-- {
			g := &f.Glyphs[t.Int(0, n0-1)]
			if len(g.Pts) == 0 || len(g.Pts) > 200 {
				continue
			}
			d := t.Sym(30000)
			if t.Bool() {
				d = t.Sym(6 * f.UPEM)
			}
			if d+g.YMin >= -32768 && d+g.YMax <= 32767 {
				for i := range g.Pts {
					g.Pts[i].Y += d
				}
				g.SetBox()
			}
			if t.Bool() {
				g.LSB = t.Sym(32767)
			}
			t.Class("a glyph far from its origin")
		}
	}
	if f.NHMetric == 0 || t.Bool() {
		f.NHMetric = len(f.Glyphs)
	}
	f.SetBounds()
	if t.Chance(1, 6) { // a lie
		f.XMin, f.YMin, f.XMax, f.YMax = t.Sym(32767), t.Sym(32767), t.Sym(32767), t.Sym(32767)
	}
	// Runes whose low bytes agree.
	base := rune(t.Size(32, 0x2000))
	seen := map[rune]int{}
	for i := range f.Glyphs {
		if i >= n0 && i < 256 && many {
			continue
		}
		seen[base+rune(i)] = i
		for k := t.Int(0, 2); k > 0; k-- {
			seen[base+rune(t.Int(0, 2))+256*rune(t.Size(0, 300))] = t.Int(0, n0-1)
		}
	}
	if faults && t.Bool() {
		seen[base+rune(len(f.Glyphs))] = len(f.Glyphs) + t.Int(0, 3)
	}
	var rs []rune
	for r := range seen {
		rs = append(rs, r)
	}
	for i := range rs {
		for j := i; j > 0 && rs[j] < rs[j-1]; j-- {
			rs[j], rs[j-1] = rs[j-1], rs[j]
		}
	}
	var gs []ttf.Group
	for _, r := range rs {
		gs = append(gs, ttf.Group{Start: uint32(r), End: uint32(r), Glyph: uint32(seen[r])})
	}
	f.Cmap = []ttf.CmapSub{{PID: 3, PSID: 10, Data: ttf.EncodeFormat12(gs)}}
	if t.Chance(2, 3) {
		f.HasKern = true
		ks := map[[2]int]bool{}
		for k := t.Int(0, 12); k > 0; k-- {
			l, r := t.Int(0, len(f.Glyphs)-1), t.Int(0, len(f.Glyphs)-1)
			if !ks[[2]int{l, r}] {
				ks[[2]int{l, r}] = true
				f.Kern = append(f.Kern, ttf.Pair{L: uint16(l), R: uint16(r), V: int16(t.Sym(min(f.UPEM, 4000)))})
			}
		}
		ttf.SortPairs(f.Kern)
	}
	tf.bytes = f.File(ttf.Plain)
	tf.tf = parseOK(t, tf.bytes)
	tf.runes = append(rs, base+rune(len(f.Glyphs))+1, base-1)
	tf.n = len(f.Glyphs)
	tf.model = f
	return tf
}

// pxSize returns a size in points and a resolution for about px pixels per em.
func pxSize(t *pbt.T, px float64) (size, dpi float64) {
	dpi = pbt.Pick(t, 72.0, 72, 96, 144, 36, 300, 100, 72.5)
	return px * 72 / dpi, dpi
}

// scaleOf is the size in 26.6 pixels, rounded; sure is false near a tie.
func scaleOf(size, dpi float64) (scale int, sure bool) {
	v := size * dpi * 64 / 72
	return int(math.Floor(v + 0.5)), math.Abs(v-math.Floor(v)-0.5) > 1e-6
}

// dims is the size of a glyph in pixels, 0 if it cannot be loaded.
func dims(l *loaded) int {
	if l.err != nil {
		return 0
	}
	b := l.bounds
	return max(int(b.Max.X)-int(b.Min.X), int(b.Max.Y)-int(b.Min.Y))>>6 + 1
}

// far is set if the glyph is so far away that numbers overflow.
func far(l *loaded) bool {
	b := l.bounds
	const m = 1 << 29
	for _, v := range []fixed.Int26_6{b.Min.X, b.Min.Y, b.Max.X, b.Max.Y} {
		if v < -m || v > m {
			return l.err == nil
		}
	}
	return false
}

// piece is a line or a quadratic of an outline, in pixels with Y downwards.
type piece struct {
	a, b, c ref.Pt
	quad    bool
}

// piecesOf expands the contours of a glyph.
func piecesOf(l *loaded) (out []piece) {
	e0 := 0
	for _, e1 := range l.ends {
		ps := l.pts[e0:e1]
		e0 = e1
		type v struct {
			p  ref.Pt
			on bool
		}
		var vs []v
		first := -1
		for i, p := range ps {
			q := v{ref.Pt{X: float64(p.X) / 64, Y: -float64(p.Y) / 64}, p.Flags&1 != 0}
			o := ps[(i+len(ps)-1)%len(ps)]
			if !q.on && o.Flags&1 == 0 {
				m := ref.Pt{X: (q.p.X + float64(o.X)/64) / 2, Y: (q.p.Y - float64(o.Y)/64) / 2}
				vs = append(vs, v{m, true})
			}
			vs = append(vs, q)
		}
		for i := range vs {
			if vs[i].on {
				first = i
				break
			}
		}
		if first < 0 {
			continue
		}
		n := len(vs)
		for i := 0; i < n; {
			a := vs[(first+i)%n]
			b := vs[(first+i+1)%n]
			if b.on {
				out = append(out, piece{a: a.p, b: b.p})
				i++
				continue
			}
			out = append(out, piece{a.p, b.p, vs[(first+i+2)%n].p, true})
			i += 2
		}
	}
	return out
}

// checkPicture compares a picture (the alpha of pixels; 0 outside of r) with
// the glyph's outline at a position. dim is the size of the rasterised image.
func checkPicture(l *loaded, px, py float64, r image.Rectangle, at func(x, y int) uint8, dim int) (partial, full int, msg string) {
	ps := piecesOf(l)
	x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	up := func(q ref.Pt) {
		x0, y0, x1, y1 = math.Min(x0, q.X+px), math.Min(y0, q.Y+py), math.Max(x1, q.X+px), math.Max(y1, q.Y+py)
	}
	for _, p := range ps {
		up(p.a)
		up(p.b)
		if p.quad {
			up(p.c)
		}
	}
	all := r
	if x0 <= x1 {
		all = all.Union(image.Rect(int(math.Floor(x0)), int(math.Floor(y0)), int(math.Ceil(x1)), int(math.Ceil(y1))))
	}
	all = all.Inset(-2)
	w, h := all.Dx(), all.Dy()
	margin, perCurve := curveTol(dim, dim)
	lines := ref.NewCoverage(w, h, 1.0/32)
	curves := ref.NewCoverage(w, h, margin+1.0/64)
	off := func(q ref.Pt) ref.Pt {
		return ref.Pt{X: q.X + px - float64(all.Min.X), Y: q.Y + py - float64(all.Min.Y)}
	}
	for _, p := range ps {
		if p.quad {
			k := ref.Contour{off(p.a)}
			k.Quad(off(p.a), off(p.b), off(p.c))
			curves.Strands(k)
		} else {
			lines.Edge(off(p.a), off(p.b))
		}
	}
	lines.Finish()
	curves.Finish()
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			i := y*w + x
			got := uint8(0)
			if q := (image.Point{X: x, Y: y}).Add(all.Min); q.In(r) {
				got = at(q.X, q.Y)
			}
			area := lines.Area[i] + curves.Area[i]
			want := ref.Fold(area, true)
			nl, nc := lines.Touch[i], curves.Touch[i]
			if nl+nc == 0 {
				f := uint8(0)
				if math.Round(want) == 1 {
					f = 255
					full++
				}
				if got != f {
					return partial, full, sprintf("pixel %d,%d has alpha %d, but no edge is near and the winding number is %v", x+all.Min.X, y+all.Min.Y, got, math.Round(area))
				}
				continue
			}
			partial++
			tol := float64(nl)/32 + math.Min(float64(nc)*perCurve, 1) + 1.0/128
			if tol < 1 && math.Abs(float64(got)/255-want) > tol {
				return partial, full, sprintf("pixel %d,%d has alpha %d = %.3f, want %.3f within %.3f (%d lines and %d curves near)", x+all.Min.X, y+all.Min.Y, got, float64(got)/255, want, tol, nl, nc)
			}
		}
	}
	return partial, full, ""
}

func loadedString(l *loaded) string {
	s := sprintf("%d contours, %d points", len(l.ends), len(l.pts))
	for i, p := range l.pts {
		if i == 24 {
			return s + " ..."
		}
		s += sprintf(" (%d,%d,%d)", p.X, p.Y, p.Flags&1)
	}
	return s
}

// manySteps is the length of a history of lo to hi steps, now and then of many more.
func manySteps(t *pbt.T, lo, hi int) int {
	if t.Chance(1, 120) {
		t.Class("long history")
		return t.Int(hi, 12*hi)
	}
	return t.Int(lo, hi)
}

// genText makes a string of the font's runes, and now and then other bytes.
func genText(t *pbt.T, f *textFont, maxLen int) string {
	s := ""
	k := t.Size(0, maxLen)
	if maxLen >= 8 && t.Chance(1, 200) {
		k = t.Int(50, 400)
		t.Class("string of over fifty runes")
	}
	for ; k > 0; k-- {
		switch t.Weighted(20, 1, 1) {
		case 0:
			r := pbt.PickS(t, f.runes)
			if !utf8.ValidRune(r) {
				r = 'A'
			}
			s += string(r)
		case 1:
			s += pbt.Pick(t, "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\x80")
		default:
			s += pbt.Pick(t, "\ufffd", "\x00", "\U0010ffff", "AV", "fi", "\n")
		}
	}
	return s
}

// roundKern is the kerning in whole pixels.
func roundKern(k fixed.Int26_6, h font.Hinting) fixed.Int26_6 {
	if h == font.HintingNone {
		return k
	}
	return fixed.Int26_6(math.Floor(float64(k)/64+0.5) * 64)
}

// smallRunes are those of the font's runes whose glyphs are at most max pixels
// in size, or cannot be loaded; the loads are returned with them.
func (f *textFont) small(scale int, h font.Hinting, max int) (ok []rune, loads map[rune]*loaded) {
	loads = map[rune]*loaded{}
	buf := &truetype.GlyphBuf{}
	for _, r := range f.runes {
		l := loadInto(buf, f.tf, scale, int(f.tf.Index(r)), h)
		if dims(&l) <= max && !far(&l) {
			ok = append(ok, r)
			loads[r] = &l
		}
	}
	return ok, loads
}
