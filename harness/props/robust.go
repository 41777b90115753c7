package props

import (
	"bytes"
	"image"
	"image/draw"
	"math"
	"sync"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/pbt"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "C04",
		Rule:  "a damaged font, one with faulty glyphs or one whose programs move points to extreme places; a history of settings (none, zero, negative and huge sizes included), strings, destinations and clips through a context, and of requests to a face; errors must come exactly with glyphs that cannot be loaded or are too large, and drawing after an error must equal that of contexts that did not have it; non-trivial if some string could not be drawn and a later one gave pixels, or a damaged font drew pixels",
		Quick: 200000, Thorough: 3000000, Run: runC04})
	pbt.Register(&pbt.Prop{ID: "C05",
		Rule:  "a font parsed once and used by two to six goroutines at the same time (queries, glyph loads, faces, contexts), each with its own list of up to 12 operations; the results are compared with those of each list alone on a private copy of the font, before and after; the race detector is on; non-trivial if at least two goroutines load glyphs",
		Quick: 5000, Thorough: 200000, Procs: 4, Race: true, Run: runC05})
}

// mappedRunes are some runes of a font whose model is not known.
func mappedRunes(t *pbt.T, f *truetype.Font) (rs []rune) {
	at := t.Int(0, 0x180)
	for i := 0; i < 0x300 && len(rs) < 12; i++ {
		r := rune((at + i*7) % 0x300)
		if f.Index(r) != 0 {
			rs = append(rs, r)
		}
	}
	for k := t.Int(1, 3); k > 0; k-- {
		rs = append(rs, rune(t.Size(0, 0x10ffff)))
	}
	return rs
}

// pushBig pushes a 32 bit number.
func pushBig(v int32) []byte {
	hi, lo := v>>16, v&0xffff
	// hi * 16384 / 64 twice: MUL divides by 64.
	b := []byte{0xb9, byte(hi >> 8), byte(hi), 0x40, 0x00, 0x63, 0xb8, 0x40, 0x00, 0x63}
	if lo < 0x8000 {
		b = append(b, 0xb8, byte(lo>>8), byte(lo), 0x60)
	}
	return b
}

// extremeFont has glyphs whose programs move points far away.
func extremeFont(t *pbt.T) textFont {
	f := plainFont(t)
	f.UPEM = max(f.UPEM, 16)
	f.MaxStack = max(f.MaxStack, 20)
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		if len(g.Pts) == 0 || len(g.Pts) > 200 || t.Bool() {
			continue
		}
		g.Program = nil
		for k := t.Int(1, 4); k > 0; k-- {
			v := int32(pbt.Pick(t, 1<<31-1, -1<<31, 1<<30, -1<<30, 1<<29, 1<<20, -1<<20, 1<<26, 3000*64, -16384*64, int(int32(t.Draw(1<<32)))))
			g.Program = append(g.Program, byte(t.Int(0, 1))) // SVTCA
			g.Program = append(g.Program, 0xb0, byte(t.Int(0, len(g.Pts)+3)))
			g.Program = append(g.Program, pushBig(v)...)
			g.Program = append(g.Program, 0x48) // SCFS
		}
	}
	f.SetBounds()
	f.NHMetric = len(f.Glyphs)
	f.Cmap = cmapFor(65, len(f.Glyphs))
	tf := textFont{name: "generated (points far away)", bytes: f.File(ttf.Plain), n: len(f.Glyphs), model: f}
	tf.tf = parseOK(t, tf.bytes)
	for i := 0; i <= len(f.Glyphs); i++ {
		tf.runes = append(tf.runes, rune(65+i))
	}
	return tf
}

// genBadFont is a font some of whose glyphs may not load. damaged is set if
// nothing is known about it.
func genBadFont(t *pbt.T) (tf textFont, damaged bool) {
	switch t.Int(0, 5) {
	case 0:
		return genTextFont(t, true), false
	case 1:
		return extremeFont(t), false
	}
	for k := 0; k < 4; k++ {
		b, name := baseFile(t)
		if t.Chance(3, 4) {
			b = damage(t, b, false, "glyf", "loca", "glyf", "hmtx", "cmap", "kern", "cvt ", "fpgm", "prep", "maxp")
		} else {
			b = damage(t, b, true)
		}
		var f *truetype.Font
		var err error
		if msg := pbt.Guard(func() { f, err = freetype.ParseFont(b) }); msg != "" {
			t.Failf("parsing: %s", msg)
		}
		if err == nil {
			return textFont{name: name + ", damaged", tf: f, bytes: b, runes: mappedRunes(t, f)}, true
		}
	}
	t.Discard()
	return
}

// verdict says whether a glyph must be refused.
type verdict int

const (
	drawable verdict = iota
	refused
	either
	costly // do not draw it
)

func judge(l *loaded) verdict {
	if l.err != nil {
		return refused
	}
	d := dims(l)
	switch {
	case far(l):
		if d > 2000 && d < 1<<15 {
			return costly
		}
		return either
	case d > 16400:
		return refused
	case d > 1500:
		return costly
	}
	return drawable
}

func runC04(t *pbt.T) {
	if t.Chance(1, 4) {
		faults(t)
		return
	}
	f, damaged := genBadFont(t)
	t.Class("%s", f.name)
	fonts := []*textFont{&f}
	if t.Chance(1, 4) {
		g := genTextFont(t, false)
		fonts = append(fonts, &g)
	}
	var hist []string
	fail := func(format string, a ...any) {
		for _, h := range hist {
			t.Logf("%s", h)
		}
		t.Failf(format, a...)
	}
	// The context, one that draws the characters before one that cannot be
	// drawn, and one that draws nothing of such a string.
	cs := []*freetype.Context{freetype.NewContext(), freetype.NewContext(), freetype.NewContext()}
	all := func(what string, f func(c *freetype.Context)) {
		hist = append(hist, what)
		if m := pbt.Guard(func() {
			for _, c := range cs {
				f(c)
			}
		}); m != "" {
			fail("%s: %s", what, m)
		}
	}
	s := settings{size: 12, dpi: 72}
	set := func(k int) {
		switch k {
		case 0:
			s.f = pbt.PickS(t, fonts)
			if t.Chance(1, 8) {
				s.f = nil
				all("SetFont(nil)", func(c *freetype.Context) { c.SetFont(nil) })
				return
			}
			all("SetFont: "+s.f.name, func(c *freetype.Context) { c.SetFont(s.f.tf) })
		case 1:
			s.size, s.dpi = genSize(t, float64(t.Int(4, 40)), t.Chance(2, 3))
			switch t.Int(0, 11) {
			case 0:
				s.size = 0
			case 1:
				s.size = -s.size
			case 2:
				s.dpi = pbt.Pick(t, 0, -72.0, 0.001)
			case 3:
				s.size = pbt.Pick(t, 1e6, 1e9, 1e300, -1e9, math.Inf(1), math.NaN())
			}
			all(sprintf("size %g dpi %g", s.size, s.dpi), func(c *freetype.Context) { c.SetFontSize(s.size); c.SetDPI(s.dpi) })
		case 2:
			s.h = pbt.PickS(t, hintings)
			all(sprintf("hinting %v", s.h), func(c *freetype.Context) { c.SetHinting(s.h) })
		}
	}
	if t.Chance(7, 8) {
		set(0)
	}
	for k := 1; k < 3; k++ {
		if t.Chance(2, 3) {
			set(k)
		}
	}
	refusals, later, pixels := 0, 0, 0
	for k := t.Int(1, 8); k > 0; k-- {
		if t.Chance(1, 3) {
			set(t.Int(0, 2))
		}
		t.Checks(1)
		cv := genCanvas(t, 40)
		var wholes, parts []draw.Image
		for range cs {
			w, p := cv.make()
			wholes, parts = append(wholes, w), append(parts, p)
		}
		if parts[0] == nil {
			continue
		}
		src := patch(t)
		clip := cv.r.Inset(-t.Int(0, 20))
		switch t.Int(0, 6) {
		case 0:
			clip = image.Rect(t.Sym(100), t.Sym(100), t.Sym(100), t.Sym(100))
		case 1:
			clip = image.Rectangle{}
		case 2:
			clip = image.Rect(-1<<31, -1<<31, 1<<31-1, 1<<31-1)
		}
		p := fp(64*t.Int(cv.r.Min.X-10, cv.r.Max.X), 64*t.Int(cv.r.Min.Y, cv.r.Max.Y+20))
		extreme := t.Chance(1, 10)
		if t.Chance(1, 4) {
			p = genDot(t)
		}
		if extreme {
			p = fp(pbt.Pick(t, 1<<31-1, -1<<31, 1<<30, t.Sym(1<<31-1)), pbt.Pick(t, 1<<31-1, -1<<31, 0, t.Sym(1<<31-1)))
		}
		str := ""
		if s.f != nil {
			str = genText(t, s.f, 5)
			if t.Chance(1, 3) {
				str = string(pbt.PickS(t, s.f.runes))
			}
		} else {
			str = "No font"
		}
		// What must happen, for all meanings of the size.
		v := s.size * s.dpi * 64 / 72
		v32 := int(int32(fixed.Int26_6(v)))
		// (The same if the size is within the range, otherwise
		// whatever the machine makes of it.)
		weird := !(math.Abs(v) < 1<<24)
		scs := []int{v32}
		if !weird {
			scs = append(s.scales(), v32)
		}
		canFail, canWork, skip := s.f == nil, false, false
		firstBad := len(str)
		if s.f != nil {
			buf := &truetype.GlyphBuf{}
			for _, sc := range scs {
				bad, maybe := false, false
				for i, r := range str {
					g := s.f.tf.Index(r)
					var l loaded
					if m := pbt.Guard(func() { l = loadInto(buf, s.f.tf, sc, int(g), s.h) }); m != "" {
						fail("loading glyph %d at %d: %s", g, sc, m)
					}
					switch judge(&l) {
					case refused:
						bad = true
						firstBad = min(firstBad, i)
					case either:
						maybe = true
						firstBad = min(firstBad, i)
					case costly:
						skip = true
					}
				}
				canFail = canFail || bad || maybe
				canWork = canWork || !bad
			}
		}
		if skip {
			t.Class("too much work")
			continue
		}
		if weird {
			canFail, canWork = true, true
			t.Class("absurd size")
		}
		what := sprintf("%s: drawing %q at %v, clip %v on %T %v (part %v)", s.String(), str, p, clip, wholes[0], cv.r, cv.sub)
		hist = append(hist, what)
		run := func(i int, str string) (q pt, err error) {
			c := cs[i]
			if m := pbt.Guard(func() {
				c.SetDst(parts[i])
				c.SetSrc(src)
				c.SetClip(clip)
				q, err = c.DrawString(str, p)
			}); m != "" {
				fail("%s: %s", what, m)
			}
			return q, err
		}
		q, err := run(0, str)
		if len(str) > 0 || s.f != nil {
			if err != nil && !canFail {
				fail("%s: %v, though all glyphs can be loaded", what, err)
			}
			if err == nil && !canWork {
				fail("%s: no error, though glyphs cannot be drawn", what)
			}
		}
		if err != nil && q != (pt{}) {
			fail("%s: %v with the position %v", what, err, q)
		}
		if err != nil {
			t.Class("refused")
			refusals++
			// The characters before the bad one may have been drawn; again,
			// it is an error.
			if t.Bool() {
				if _, err := run(0, str); err == nil {
					fail("%s: an error at first, but none the second time", what)
				}
			}
			if s.f != nil && firstBad <= len(str) {
				run(1, str[:firstBad])
			}
			continue
		}
		run(1, str)
		run(2, str)
		// A new context; not the same if the glyphs are at other fractions.
		w3, p3 := cv.make()
		if s.f != nil {
			if m := pbt.Guard(func() {
				c := s.newContext()
				c.SetDst(p3)
				c.SetSrc(src)
				c.SetClip(clip)
				c.DrawString(str, p)
			}); m != "" {
				fail("%s: with a new context: %s", what, m)
			}
		}
		msg := ""
		for _, w := range []draw.Image{wholes[1], wholes[2], w3} {
			msg = diffPixels(wholes[0], w)
			if msg == "" {
				break
			}
		}
		if msg != "" && refusals > 0 {
			fail("%s: after %d errors, the picture differs from that of contexts that had none: %s", what, refusals, msg)
		}
		if w0, _ := cv.make(); diffPixels(w0, wholes[0]) != "" {
			pixels++
			if refusals > 0 {
				later++
			}
		}
	}
	t.Sample("%v", hist)
	if later > 0 || damaged && pixels > 0 {
		t.NonTrivial()
	}
}

// diffPixels compares two images exactly.
func diffPixels(a, b image.Image) string {
	r := a.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if c, d := a.At(x, y), b.At(x, y); !sameColor(c, d) {
				return sprintf("pixel (%d,%d) is %v versus %v", x, y, c, d)
			}
		}
	}
	return ""
}

// faults uses faces.
func faults(t *pbt.T) {
	f, damaged := genBadFont(t)
	t.Class("face: %s", f.name)
	o := genOptions(t, float64(t.Int(4, 30)))
	if t.Chance(1, 6) {
		o.Size = pbt.Pick(t, 1e4, 1e6, 0.001)
	}
	scale, sure := scaleOf(dflt(o.Size, 12), dflt(o.DPI, 72))
	if !sure || scale < -1<<24 || scale > 1<<24 {
		t.Discard()
	}
	desc := func() string { return sprintf("%s, %s: ", f.name, optString(o)) }
	t.Sample("%s", desc())
	guard := func(what string, g func()) {
		if m := pbt.Guard(g); m != "" {
			t.Failf("%s%s: %s", desc(), what, m)
		}
	}
	var face font.Face
	guard("NewFace", func() { face = truetype.NewFace(f.tf, o) })
	guard("Metrics", func() { face.Metrics() })
	bad, drawn, buf := 0, 0, &truetype.GlyphBuf{}
	judged := map[rune]verdict{}
	for k := t.Int(1, 12); k > 0; k-- {
		r := pbt.PickS(t, f.runes)
		if t.Chance(1, 12) {
			r = pbt.Pick[rune](t, -1, 0xd800, 1<<31-1, -1<<31)
		}
		t.Checks(1)
		what := sprintf("%U (glyph %d)", r, f.tf.Index(r))
		l := loadInto(buf, f.tf, scale, int(f.tf.Index(r)), o.Hinting)
		loads := l.err == nil
		switch t.Int(0, 5) {
		case 0:
			guard(what, func() {
				b, a, ok := face.GlyphBounds(r)
				if ok != loads && !far(&l) {
					t.Failf("%sbounds of %s: %v, but loading: %v", desc(), what, ok, l.err)
				}
				if !ok && (a != 0 || b != fixed.Rectangle26_6{}) {
					t.Failf("%sbounds of %s are missing, but %v, %v", desc(), what, b, a)
				}
			})
		case 1:
			guard(what, func() {
				a, ok := face.GlyphAdvance(r)
				if ok != loads && !far(&l) || !ok && a != 0 {
					t.Failf("%sadvance of %s: %v, %v, but loading: %v", desc(), what, a, ok, l.err)
				}
			})
		case 2:
			guard(what, func() { face.Kern(r, pbt.PickS(t, f.runes)) })
		default:
			v := judge(&l)
			judged[r] = v
			if v == costly {
				continue
			}
			dot := genDot(t)
			guard(what, func() {
				p := facePicture(t, face, dot, r)
				if p.ok && v == refused || !p.ok && v == drawable {
					t.Failf("%s%s at %v: drawn is %v, but loading: %v, %d pixels, bounds %v", desc(), what, dot, p.ok, l.err, dims(&l), l.bounds)
				}
				if !p.ok {
					bad++
					return
				}
				q := facePicture(t, truetype.NewFace(f.tf, o), dot, r)
				if s := p.diff(&q, image.Point{}); s != "" {
					t.Failf("%s%s at %v after %d failures: %s (used face versus new face)", desc(), what, dot, bad, s)
				}
				if len(p.pix) > 0 && (bad > 0 || damaged) {
					drawn++
				}
			})
		}
	}
	// A string.
	s := genText(t, &f, 6)
	ok := true
	for _, r := range s {
		l := loadInto(buf, f.tf, scale, int(f.tf.Index(r)), o.Hinting)
		ok = ok && judge(&l) != costly
	}
	if ok {
		guard(sprintf("measuring %q", s), func() { font.MeasureString(face, s) })
		guard(sprintf("bounds of %q", s), func() { font.BoundString(face, s) })
		guard(sprintf("drawing %q", s), func() {
			d := font.Drawer{Dst: image.NewAlpha(image.Rect(0, 0, 20, 20)), Src: image.Opaque, Face: face, Dot: genDot(t)}
			d.DrawString(s)
		})
	}
	guard("Close", func() { face.Close() })
	if drawn > 0 {
		t.NonTrivial()
	}
}

// step is an operation on a shared font; it is done with a private worker.
type step struct {
	kind    int
	scale   int
	h       font.Hinting
	gid     int
	r0, r1  rune
	str     string
	dot     pt
	name    truetype.NameID
	newOpts bool
}

// worker owns a buffer, a face and a context.
type worker struct {
	f    *truetype.Font
	buf  *truetype.GlyphBuf
	face font.Face
	c    *freetype.Context
	dst  *image.Alpha
}

func (w *worker) do(s *step) string {
	f := w.f
	sc := fixed.Int26_6(s.scale)
	switch s.kind {
	case 0:
		return sprintf("%d", f.Index(s.r0))
	case 1:
		return sprintf("%d", f.Kern(sc, f.Index(s.r0), f.Index(s.r1)))
	case 2:
		g := truetype.Index(s.gid)
		return sprintf("%v %v", f.HMetric(sc, g), f.VMetric(sc, g))
	case 3:
		return sprintf("%v %d", f.Bounds(sc), f.FUnitsPerEm())
	case 4:
		return sprintf("%q", f.Name(s.name))
	case 5, 6, 7, 8:
		l := loadInto(w.buf, f, s.scale, s.gid, s.h)
		return sprintf("%v %v %v %v %v %v %v", l.err, l.pts, l.ends, l.adv, l.bounds, l.unh, l.ifu)
	case 9, 10:
		if w.face == nil || s.newOpts {
			w.face = truetype.NewFace(f, &truetype.Options{Size: float64(s.scale) / 64, Hinting: s.h, GlyphCacheEntries: 8})
		}
		dr, mask, mp, adv, ok := w.face.Glyph(s.dot, s.r0)
		out := sprintf("%v %v %v", dr, adv, ok)
		if a, isAlpha := mask.(*image.Alpha); ok && isAlpha {
			for y := 0; y < dr.Dy(); y++ {
				o := a.PixOffset(mp.X, mp.Y+y)
				out += sprintf(" %x", a.Pix[o:o+dr.Dx()])
			}
		}
		b, a2, ok2 := w.face.GlyphBounds(s.r1)
		return out + sprintf("; %v %v %v; %v; %v", b, a2, ok2, w.face.Kern(s.r0, s.r1), w.face.Metrics())
	default:
		if w.c == nil || s.newOpts {
			w.c = freetype.NewContext()
			w.c.SetFont(f)
			w.c.SetFontSize(float64(s.scale) / 64)
			w.c.SetHinting(s.h)
			w.dst = image.NewAlpha(image.Rect(0, 0, 30, 20))
			w.c.SetDst(w.dst)
			w.c.SetClip(w.dst.Rect)
			w.c.SetSrc(image.Opaque)
		}
		q, err := w.c.DrawString(s.str, s.dot)
		return sprintf("%v %v %x", q, err, w.dst.Pix)
	}
}

func runC05(t *pbt.T) {
	var f textFont
	if t.Chance(1, 3) {
		r := pbt.PickS(t, realFonts).must(t)
		f = textFont{name: r.name, bytes: r.bytes, n: len(r.model.Glyphs)}
	} else {
		f = genTextFont(t, t.Chance(1, 3))
		if t.Bool() {
			b, name := baseFile(t)
			f = textFont{name: name, bytes: b}
		}
	}
	private := parseOK(t, append([]byte(nil), f.bytes...))
	given := append([]byte(nil), f.bytes...)
	shared := parseOK(t, given)
	if f.runes == nil {
		f.runes = mappedRunes(t, private)
	}
	if f.n == 0 {
		f.n = 20
	}
	n := t.Int(2, 6)
	lists := make([][]step, n)
	scale := 64 * t.Int(6, 30)
	gids := []int{t.Int(0, f.n), t.Int(0, f.n), t.Int(0, f.n)}
	for i := range lists {
		for k := t.Int(1, 12); k > 0; k-- {
			s := step{kind: t.Int(0, 12), scale: scale, h: pbt.PickS(t, hintings), r0: pbt.PickS(t, f.runes), r1: pbt.PickS(t, f.runes),
				dot: fp(t.Int(0, 20*64), t.Int(0, 20*64)), name: truetype.NameID(t.Int(0, 12)), newOpts: t.Chance(1, 3)}
			s.gid = pbt.PickS(t, gids)
			if t.Chance(1, 4) {
				s.gid = t.Int(0, f.n+1)
			}
			if t.Chance(1, 3) {
				s.scale = 64 * t.Int(4, 40)
			}
			for j := t.Int(1, 3); j > 0; j-- {
				s.str += string(pbt.PickS(t, f.runes))
			}
			// Nothing large.
			big := false
			for _, h := range hintings {
				for _, r := range s.str + string(s.r0) + string(s.r1) {
					buf := &truetype.GlyphBuf{}
					l := loadInto(buf, private, s.scale, int(private.Index(r)), h)
					big = big || dims(&l) > 200 || far(&l)
				}
			}
			if big {
				s.kind = s.kind % 9
			}
			lists[i] = append(lists[i], s)
		}
	}
	t.Sample("%s: %d goroutines", f.name, n)
	t.Class("%d goroutines", n)
	run := func(f *truetype.Font, l []step) (out []string) {
		w := &worker{f: f, buf: &truetype.GlyphBuf{}}
		for i := range l {
			out = append(out, w.do(&l[i]))
		}
		return out
	}
	want := make([][]string, n)
	outlines := 0
	for i := range lists {
		want[i] = run(private, lists[i])
		for _, s := range lists[i] {
			if s.kind >= 5 && s.kind <= 8 {
				outlines++
				break
			}
		}
		t.Checks(len(lists[i]))
	}
	got := make([][]string, n)
	msgs := make([]string, n)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			msgs[i] = pbt.Guard(func() { got[i] = run(shared, lists[i]) })
		}()
	}
	close(start)
	wg.Wait()
	check := func(what string, got []string, i int) {
		for k := range want[i] {
			if got[k] != want[i][k] {
				t.Failf("%s: goroutine %d, operation %d (%+v) %s: %.300s, alone %.300s", f.name, i, k, lists[i][k], what, got[k], want[i][k])
			}
		}
	}
	for i := range lists {
		if msgs[i] != "" {
			t.Failf("%s: goroutine %d of %d: %s", f.name, i, n, msgs[i])
		}
		check("at the same time as others", got[i], i)
	}
	// Afterwards, in another order.
	for i := n - 1; i >= 0; i-- {
		check("after the others", run(shared, lists[i]), i)
	}
	if !bytes.Equal(given, f.bytes) {
		t.Failf("%s: the font's bytes were changed", f.name)
	}
	if outlines >= 2 {
		t.NonTrivial()
	}
}
