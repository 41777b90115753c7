package props

import (
	"image"
	"math"
	mbig "math/big"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "A01",
		Rule:  "a real or generated font (polygons, curves, compounds, programs; sometimes with a wrong bounding box), a face with random options at 4 to 60 pixels, and up to six glyphs at random dots; each picture is compared with the area of the loaded outline; non-trivial if some picture has a pixel inside and one at the edge of the glyph",
		Quick: 300000, Thorough: 4000000, Run: runA01})
	pbt.Register(&pbt.Prop{ID: "A02",
		Rule:  "one to three faces of a font with caches of 1 to 512 entries, and a history of up to 40 requests for images, advances, bounds and kerning of a few runes that collide in the caches, at dots that collide or differ in fractions; each answer is compared with a new face's; non-trivial if at least five images with pixels were compared and some rune came up twice",
		Quick: 200000, Thorough: 3000000, Run: runA02})
	pbt.Register(&pbt.Prop{ID: "A03",
		Rule:  "a real or generated font, a face with random options, metrics, advances, bounds, kerning of its runes, and strings measured and drawn; non-trivial if some advance and some bounds are not zero",
		Quick: 600000, Thorough: 8000000, Run: runA03})
	pbt.Register(&pbt.Prop{ID: "A04",
		Rule:  "faces that must agree (omitted, zero and default options; equal products of size and resolution), and dots spread over the sub-pixel grid for every setting, compared with each other exactly and with the outline at the rounded dot; non-trivial if images with pixels were compared",
		Quick: 300000, Thorough: 4000000, Run: runA04})
}

// picture is what a face returns for a glyph.
type picture struct {
	ok  bool
	dr  image.Rectangle
	adv fixed.Int26_6
	pix []uint8 // of dr
}

func facePicture(t *pbt.T, f font.Face, dot pt, r rune) (p picture) {
	dr, mask, mp, adv, ok := f.Glyph(dot, r)
	if !ok {
		return picture{}
	}
	p = picture{ok: true, dr: dr, adv: adv, pix: make([]uint8, 0, max(0, dr.Dx()*dr.Dy()))}
	if dr.Empty() {
		return p
	}
	mb := mask.Bounds()
	if !(image.Rectangle{Min: mp, Max: mp.Add(dr.Size())}).In(mb) {
		t.Failf("glyph %U: the mask's bounds %v do not hold %v from the mask point %v", r, mb, dr.Size(), mp)
	}
	for y := 0; y < dr.Dy(); y++ {
		for x := 0; x < dr.Dx(); x++ {
			_, _, _, a := mask.At(mp.X+x, mp.Y+y).RGBA()
			p.pix = append(p.pix, uint8(a>>8))
		}
	}
	return p
}

func (p *picture) at(x, y int) uint8 {
	return p.pix[(y-p.dr.Min.Y)*p.dr.Dx()+x-p.dr.Min.X]
}

// diff compares two pictures, one of which is moved by d.
func (p *picture) diff(q *picture, d image.Point) string {
	if p.ok != q.ok {
		return sprintf("ok is %v versus %v", p.ok, q.ok)
	}
	if !p.ok {
		return ""
	}
	if p.adv != q.adv {
		return sprintf("advance %d versus %d", p.adv, q.adv)
	}
	if p.dr.Add(d) != q.dr {
		return sprintf("rectangle %v moved by %v versus %v", p.dr, d, q.dr)
	}
	for i := range p.pix {
		if p.pix[i] != q.pix[i] {
			return sprintf("pixel %v of %v: alpha %d versus %d", image.Pt(i%p.dr.Dx(), i/p.dr.Dx()), p.dr, p.pix[i], q.pix[i])
		}
	}
	return ""
}

var subPixelSettings = []int{0, 1, 2, 4, 8, 16, 32, 64}

func genOptions(t *pbt.T, px float64) *truetype.Options {
	o := &truetype.Options{Hinting: pbt.PickS(t, hintings)}
	if t.Bool() {
		o.Hinting = font.HintingNone
	}
	o.Size, o.DPI = pxSize(t, px)
	o.GlyphCacheEntries = pbt.Pick(t, 0, 1, 2, 4, 8, 64, 512, 16)
	o.SubPixelsX = pbt.PickS(t, subPixelSettings)
	o.SubPixelsY = pbt.PickS(t, subPixelSettings)
	return o
}

func optString(o *truetype.Options) string {
	if o == nil {
		return "nil options"
	}
	return sprintf("%+v", *o)
}

// positions is the number of positions per pixel that a setting means.
func positions(v, def int) int {
	if v == 0 {
		return def
	}
	return v
}

// nearest is the co-ordinate rounded to q positions per pixel; tie is set if
// the next one is as near.
func nearest(v fixed.Int26_6, q int) (n fixed.Int26_6, tie bool) {
	step := 64 / q
	k := int(math.Floor((float64(v) + float64(step)/2) / float64(step)))
	n = fixed.Int26_6(k * step)
	return n, 2*(int(n)-int(v)) == step
}

func genDot(t *pbt.T) pt {
	far := 0
	if t.Chance(1, 30) {
		far = 1 << t.Int(8, 23)
	}
	c := func() int {
		if far > 0 && t.Bool() {
			return t.Sym(far)*64 + t.Int(0, 63)
		}
		switch t.Int(0, 2) {
		case 0:
			return t.Sym(100)*64 + t.Int(0, 63)
		case 1:
			return t.Sym(3)*64 + t.Int(0, 63)
		}
		return t.Sym(100) * 64
	}
	return fp(c(), c())
}

// untie moves a dot away from ties.
func untie(d pt, qx, qy int) pt {
	if _, tie := nearest(d.X, qx); tie {
		d.X++
	}
	if _, tie := nearest(d.Y, qy); tie {
		d.Y++
	}
	return d
}

func runA01(t *pbt.T) {
	f := genAnyFont(t, t.Chance(1, 6))
	px := float64(t.Int(4, 20))
	switch t.Int(0, 2) {
	case 0:
		px = float64(t.Int(4*64, 60*64)) / 64
	case 1:
		px = float64(t.Int(4, 60))
	}
	limit := 200
	if t.Chance(1, 60) {
		px, limit = float64(t.Int(60, 500)), 800
		t.Class("large")
	}
	o := genOptions(t, px)
	scale, sure := scaleOf(o.Size, o.DPI)
	if !sure {
		t.Discard()
	}
	qx, qy := positions(o.SubPixelsX, 4), positions(o.SubPixelsY, 1)
	face := truetype.NewFace(f.tf, o)
	rs, loads := f.small(scale, o.Hinting, limit)
	if len(rs) == 0 {
		t.Discard()
	}
	t.Sample("%s at %g px, %s, runes %U", f.name, px, optString(o), rs)
	t.Class("%s", f.name)
	var dot pt
	for k := t.Int(1, 6); k > 0; k-- {
		r := pbt.PickS(t, rs)
		if k == 1 || t.Bool() {
			dot = genDot(t)
		}
		dot = untie(dot, qx, qy)
		l := loads[r]
		p := facePicture(t, face, dot, r)
		t.Checks(1)
		desc := func() string {
			return sprintf("%s, %s, %U (glyph %d) at dot %v: ", f.name, optString(o), r, f.tf.Index(r), dot)
		}
		if l.err != nil {
			t.Class("not loadable")
			if p.ok {
				t.Failf("%sdrawn, though loading it fails: %v", desc(), l.err)
			}
			continue
		}
		if !p.ok {
			t.Failf("%snot drawn, though it loads: %s", desc(), loadedString(l))
		}
		nx, _ := nearest(dot.X, qx)
		ny, _ := nearest(dot.Y, qy)
		partial, full, s := checkPicture(l, float64(nx)/64, float64(ny)/64, p.dr, p.at, max(p.dr.Dx(), p.dr.Dy()))
		if s != "" {
			t.Failf("%s%s; rectangle %v, %s", desc(), s, p.dr, loadedString(l))
		}
		if partial > 0 && full > 0 {
			t.NonTrivial()
		}
	}
}

func runA02(t *pbt.T) {
	f := genAnyFont(t, t.Chance(1, 2))
	type fc struct {
		o    *truetype.Options
		face font.Face
		rs   []rune
		memo map[[3]int]picture
	}
	var fs []*fc
	for k := t.Int(1, 2); k > 0; k-- {
		o := genOptions(t, float64(t.Int(4, 24)))
		if t.Bool() {
			o.GlyphCacheEntries = pbt.Pick(t, 1, 2, 4, 8)
		}
		scale, sure := scaleOf(o.Size, o.DPI)
		if !sure {
			t.Discard()
		}
		rs, _ := f.small(scale, o.Hinting, 120)
		if len(rs) == 0 {
			t.Discard()
		}
		if len(rs) > 4 && t.Bool() {
			rs = rs[:4]
		}
		rs = append(rs, pbt.Pick[rune](t, -1, -256, 1<<30, rs[0]+1<<24))
		fs = append(fs, &fc{o, truetype.NewFace(f.tf, o), rs, map[[3]int]picture{}})
	}
	fracs := []int{0}
	for k := t.Int(1, 5); k > 0; k-- {
		fracs = append(fracs, t.Int(0, 63))
	}
	t.Sample("%s, %d faces, %s, runes %U, fractions %v", f.name, len(fs), optString(fs[0].o), fs[0].rs, fracs)
	images, seen, again := 0, map[rune]bool{}, false
	var hist []string
	fail := func(format string, a ...any) {
		for _, h := range hist {
			t.Logf("%s", h)
		}
		t.Failf(format, a...)
	}
	for k := manySteps(t, 2, 40); k > 0; k-- {
		i := t.Int(0, len(fs)-1)
		c := fs[i]
		r := pbt.PickS(t, c.rs)
		t.Checks(1)
		what := ""
		switch t.Weighted(12, 1, 1, 2) {
		case 0:
			dot := fp(pbt.PickS(t, fracs), pbt.PickS(t, fracs))
			shift := image.Point{}
			if t.Bool() {
				shift = image.Pt(t.Sym(50), t.Sym(50))
			}
			what = sprintf("Glyph of %U at %v moved by %v", r, dot, shift)
			key := [3]int{int(r), int(dot.X), int(dot.Y)}
			want, ok := c.memo[key]
			if !ok {
				want = facePicture(t, truetype.NewFace(f.tf, c.o), dot, r)
				c.memo[key] = want
			}
			got := facePicture(t, c.face, dot.Add(fp(shift.X*64, shift.Y*64)), r)
			if s := want.diff(&got, shift); s != "" {
				fail("%s, %s, %s: %s (new face versus used one)", f.name, optString(c.o), what, s)
			}
			if len(want.pix) > 0 {
				images++
			}
		case 1:
			what = sprintf("GlyphAdvance of %U", r)
			a, ok := c.face.GlyphAdvance(r)
			b, ok2 := truetype.NewFace(f.tf, c.o).GlyphAdvance(r)
			if a != b || ok != ok2 {
				fail("%s, %s, %s: %d (%v), from a new face %d (%v)", f.name, optString(c.o), what, a, ok, b, ok2)
			}
		case 2:
			what = sprintf("GlyphBounds of %U", r)
			b, a, ok := c.face.GlyphBounds(r)
			b2, a2, ok2 := truetype.NewFace(f.tf, c.o).GlyphBounds(r)
			if a != a2 || b != b2 || ok != ok2 {
				fail("%s, %s, %s: %v %d (%v), from a new face %v %d (%v)", f.name, optString(c.o), what, b, a, ok, b2, a2, ok2)
			}
		case 3:
			q := pbt.PickS(t, c.rs)
			what = sprintf("Kern of %U and %U", r, q)
			a, b := c.face.Kern(r, q), truetype.NewFace(f.tf, c.o).Kern(r, q)
			if a != b {
				fail("%s, %s, %s: %d, from a new face %d", f.name, optString(c.o), what, a, b)
			}
		}
		again = again || seen[r]
		seen[r] = true
		hist = append(hist, sprintf("face %d: %s", i, what))
	}
	if images >= 5 && again {
		t.NonTrivial()
	}
}

func runA03(t *pbt.T) {
	f := genAnyFont(t, t.Chance(1, 3))
	o := genOptions(t, float64(t.Int(4, 40)))
	switch t.Int(0, 3) {
	case 0:
		o.Size, o.DPI = float64(t.Int(1, 100*64))/64, pbt.Pick(t, 72.0, 96, 0, 300, 1, float64(t.Int(1, 400)))
	case 1:
		o.Size, o.DPI = pbt.Pick(t, 0, 12, 0.01, 1000, 10000.5), pbt.Pick(t, 0, 72, 100.0)
	}
	scale, sure := scaleOf(dflt(o.Size, 12), dflt(o.DPI, 72))
	if !sure {
		t.Discard()
	}
	var face font.Face
	face = truetype.NewFace(f.tf, o)
	desc := func() string { return sprintf("%s, %s: ", f.name, optString(o)) }
	t.Sample("%s, %s, runes %U", f.name, optString(o), f.runes)
	m := face.Metrics()
	if int(m.Height) != scale {
		t.Failf("%sheight %d, want %d", desc(), m.Height, scale)
	}
	if w := ceilDiv(scale*f.model.Ascent, f.model.UPEM); int(m.Ascent) != w {
		t.Failf("%sascent %d, want %d (%d of %d units at %d)", desc(), m.Ascent, w, f.model.Ascent, f.model.UPEM, scale)
	}
	if w := ceilDiv(-scale*f.model.Descent, f.model.UPEM); int(m.Descent) != w {
		t.Failf("%sdescent %d, want %d (%d of %d units at %d)", desc(), m.Descent, w, f.model.Descent, f.model.UPEM, scale)
	}
	loads := map[rune]*loaded{}
	buf := &truetype.GlyphBuf{}
	load := func(r rune) *loaded {
		if loads[r] == nil {
			l := loadInto(buf, f.tf, scale, int(f.tf.Index(r)), o.Hinting)
			loads[r] = &l
		}
		return loads[r]
	}
	moved, boxed := false, false
	rs := append([]rune{-1, 0x10ffff}, f.runes...)
	for k := t.Int(1, 8); k > 0; k-- {
		r := pbt.PickS(t, rs)
		l := load(r)
		t.Checks(1)
		b, a, ok := face.GlyphBounds(r)
		a2, ok2 := face.GlyphAdvance(r)
		if ok != (l.err == nil) || ok2 != (l.err == nil) {
			t.Failf("%s%U: bounds %v, advance %v, but loading it: %v", desc(), r, ok, ok2, l.err)
		}
		if l.err == nil {
			if int(a) != l.adv || int(a2) != l.adv {
				t.Failf("%s%U: advance %d with the bounds and %d alone, loaded %d", desc(), r, a, a2, l.adv)
			}
			w := fixed.Rectangle26_6{Min: pt{X: l.bounds.Min.X, Y: -l.bounds.Max.Y}, Max: pt{X: l.bounds.Max.X, Y: -l.bounds.Min.Y}}
			if b != w {
				t.Failf("%s%U: bounds %v, loaded %v", desc(), r, b, w)
			}
			moved = moved || l.adv != 0
			boxed = boxed || b != fixed.Rectangle26_6{}
			if dims(l) <= 400 && !far(l) {
				_, _, _, a, ok := face.Glyph(genDot(t), r)
				if !ok || int(a) != l.adv {
					t.Failf("%s%U: the image's advance is %d (%v), loaded %d", desc(), r, a, ok, l.adv)
				}
			}
		}
		q := pbt.PickS(t, rs)
		if g, w := face.Kern(r, q), roundKern(f.tf.Kern(fixed.Int26_6(scale), f.tf.Index(r), f.tf.Index(q)), o.Hinting); g != w {
			t.Failf("%skerning of %U and %U is %d, want %d", desc(), r, q, g, w)
		}
	}
	// A string.
	s := genText(t, &f, 8)
	want, prev, draw, missing := fixed.Int26_6(0), rune(-1), true, false
	for _, r := range s {
		if prev >= 0 {
			want += roundKern(f.tf.Kern(fixed.Int26_6(scale), f.tf.Index(prev), f.tf.Index(r)), o.Hinting)
		}
		l := load(r)
		if l.err != nil {
			missing = true // what x/image does about kerning is its business
			continue
		}
		draw = draw && dims(l) <= 400 && !far(l)
		want += fixed.Int26_6(l.adv)
		prev = r
	}
	if g := font.MeasureString(face, s); missing {
		want = g
	} else if g != want {
		t.Failf("%s%q measures %d, want %d", desc(), s, g, want)
	}
	if draw {
		d := font.Drawer{Dst: image.NewAlpha(image.Rect(0, 0, 20, 20)), Src: image.Opaque, Face: face, Dot: genDot(t)}
		x, y := d.Dot.X, d.Dot.Y
		d.DrawString(s)
		if d.Dot.X-x != want || d.Dot.Y != y {
			t.Failf("%sdrawing %q moved the dot by (%d, %d), want (%d, 0)", desc(), s, d.Dot.X-x, d.Dot.Y-y, want)
		}
	}
	if moved && boxed {
		t.NonTrivial()
	}
}

func dflt(v, d float64) float64 {
	if v == 0 {
		return d
	}
	return v
}

func ceilDiv(a, b int) int {
	q := new(mbig.Int)
	r := new(mbig.Int)
	q.DivMod(mbig.NewInt(int64(a)), mbig.NewInt(int64(b)), r)
	if r.Sign() != 0 {
		q.Add(q, mbig.NewInt(1))
	}
	return int(q.Int64())
}

func runA04(t *pbt.T) {
	f := genAnyFont(t, false)
	if t.Chance(1, 2) {
		sweep(t, &f)
		return
	}
	// Options that must agree.
	a := &truetype.Options{}
	if t.Bool() {
		a = genOptions(t, float64(t.Int(4, 30)))
	}
	zero := func() {
		if t.Bool() {
			a.Size = 0
		}
		if t.Bool() {
			a.DPI = 0
		}
		if t.Bool() {
			a.GlyphCacheEntries = 0
		}
		if t.Bool() {
			a.SubPixelsX = 0
		}
		if t.Bool() {
			a.SubPixelsY = 0
		}
	}
	zero()
	if dflt(a.Size, 12)*dflt(a.DPI, 72) > 60*72 {
		a.DPI = 0
	}
	if dflt(a.Size, 12)*dflt(a.DPI, 72) > 60*72 {
		a.Size = 0
	}
	b := *a
	if b.Size == 0 && t.Chance(3, 4) {
		b.Size = 12
	}
	if b.DPI == 0 && t.Chance(3, 4) {
		b.DPI = 72
	}
	if b.SubPixelsX == 0 && t.Chance(3, 4) {
		b.SubPixelsX = 4
	}
	if b.SubPixelsY == 0 && t.Chance(3, 4) {
		b.SubPixelsY = 1
	}
	b.GlyphCacheEntries = pbt.Pick(t, 512, a.GlyphCacheEntries, 2, 1024)
	if t.Chance(1, 2) && b.Size != 0 && b.DPI != 0 {
		// The same product, exactly.
		k := float64(int(1) << t.Int(0, 3))
		if t.Bool() {
			b.Size, b.DPI = b.Size*k, b.DPI/k
		} else {
			b.Size, b.DPI = b.Size/k, b.DPI*k
		}
		t.Class("same product")
	}
	pa := a
	if *a == (truetype.Options{}) && t.Bool() {
		pa = nil
		t.Class("nil options")
	}
	scale, sure := scaleOf(dflt(a.Size, 12), dflt(a.DPI, 72))
	if !sure {
		t.Discard()
	}
	rs, _ := f.small(scale, a.Hinting, 120)
	if len(rs) == 0 {
		t.Discard()
	}
	fa, fb := truetype.NewFace(f.tf, pa), truetype.NewFace(f.tf, &b)
	desc := func() string { return sprintf("%s, %s versus %s: ", f.name, optString(pa), optString(&b)) }
	t.Sample("%s", desc())
	if x, y := fa.Metrics(), fb.Metrics(); x != y {
		t.Failf("%smetrics %v versus %v", desc(), x, y)
	}
	for k := manySteps(t, 1, 8); k > 0; k-- {
		r, d := pbt.PickS(t, rs), genDot(t)
		p, q := facePicture(t, fa, d, r), facePicture(t, fb, d, r)
		t.Checks(1)
		if s := p.diff(&q, image.Point{}); s != "" {
			t.Failf("%s%U at %v: %s", desc(), r, d, s)
		}
		if len(p.pix) > 0 {
			t.NonTrivial()
		}
		q0 := pbt.PickS(t, rs)
		if x, y := fa.Kern(r, q0), fb.Kern(r, q0); x != y {
			t.Failf("%skerning of %U and %U %d versus %d", desc(), r, q0, x, y)
		}
		b0, a0, ok0 := fa.GlyphBounds(r)
		b1, a1, ok1 := fb.GlyphBounds(r)
		if b0 != b1 || a0 != a1 || ok0 != ok1 {
			t.Failf("%sbounds of %U: %v %v %v versus %v %v %v", desc(), r, b0, a0, ok0, b1, a1, ok1)
		}
	}
}

// sweep draws a glyph at dots all over a pixel.
func sweep(t *pbt.T, f *textFont) {
	o := genOptions(t, float64(t.Int(6, 16)))
	scale, sure := scaleOf(o.Size, o.DPI)
	if !sure {
		t.Discard()
	}
	rs, loads := f.small(scale, o.Hinting, 60)
	if len(rs) == 0 {
		t.Discard()
	}
	r := pbt.PickS(t, rs)
	l := loads[r]
	if l.err != nil {
		t.Discard()
	}
	qx, qy := positions(o.SubPixelsX, 4), positions(o.SubPixelsY, 1)
	desc := func() string { return sprintf("%s, %s, %U: ", f.name, optString(o), r) }
	t.Sample("dots for %s", desc())
	t.Class("qx=%d", qx)
	t.Class("qy=%d", qy)
	face := truetype.NewFace(f.tf, o)
	// The pictures at the grid's points are right.
	home := image.Pt(t.Sym(20), t.Sym(20))
	ref := map[pt]picture{}
	at := func(n pt) *picture {
		p, ok := ref[n]
		if ok {
			return &p
		}
		p = facePicture(t, truetype.NewFace(f.tf, o), n, r)
		if _, _, s := checkPicture(l, float64(n.X)/64, float64(n.Y)/64, p.dr, p.at, max(p.dr.Dx(), p.dr.Dy())); s != "" {
			t.Failf("%sat dot %v: %s; rectangle %v, %s", desc(), n, s, p.dr, loadedString(l))
		}
		ref[n] = p
		return &p
	}
	fixX, fixY := -1, -1
	switch t.Int(0, 2) {
	case 0:
		fixX = t.Int(0, 63)
	case 1:
		fixY = t.Int(0, 63)
	}
	for k := 24; k > 0; k-- {
		d := fp(home.X*64+t.Int(0, 63), home.Y*64+t.Int(0, 63))
		if fixX >= 0 {
			d.X = fixed.Int26_6(home.X*64 + fixX)
		}
		if fixY >= 0 {
			d.Y = fixed.Int26_6(home.Y*64 + fixY)
		}
		nx, tieX := nearest(d.X, qx)
		ny, tieY := nearest(d.Y, qy)
		got := facePicture(t, face, d, r)
		t.Checks(1)
		var cs []pt
		for _, x := range []bool{false, true} {
			for _, y := range []bool{false, true} {
				if x && !tieX || y && !tieY {
					continue
				}
				n := pt{X: nx, Y: ny}
				if x {
					n.X = 2*d.X - nx
				}
				if y {
					n.Y = 2*d.Y - ny
				}
				cs = append(cs, n)
			}
		}
		s := ""
		for _, n := range cs {
			if s = at(n).diff(&got, image.Point{}); s == "" {
				break
			}
		}
		if s != "" {
			t.Failf("%sat dot %v, versus the nearest dot on the grid %v: %s", desc(), d, cs, s)
		}
		if len(got.pix) > 0 {
			t.NonTrivial()
		}
	}
}
