package props

import (
	"sync"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/pbt"
	"verif/harness/ref"
	"verif/harness/ttf"
)

// The fonts with as many glyphs as a font can have, no two alike in a row.
// The first has offsets of 32 bits and metrics for every glyph; the second has
// offsets of 16 bits, compound glyphs, device metrics and fewer metrics.
var hugeFonts [2]struct {
	once sync.Once
	f    textFont
}

const (
	hugeGlyphs = 65535
	hugeBase   = 0x20000 // the rune of glyph 0
)

func huge(t *pbt.T, k int) textFont {
	e := &hugeFonts[k]
	e.once.Do(func() {
		seed := uint32(1 + k)
		rnd := func(n int) int {
			seed = seed*1664525 + 1013904223
			return int(uint64(seed) * uint64(n) >> 32)
		}
		f := &ttf.Font{UPEM: 1000, MaxStack: 10, MaxStorage: 2, MaxTwilight: 2, MaxFDefs: 2}
		for i := 0; i < hugeGlyphs; i++ {
			g := ttf.Glyph{Empty: true, Adv: 300 + i*7%701}
			if k == 0 || i&31 == 5 {
				// The glyph spells its index.
				w, h := 20*(1+i&31), 20*(1+i>>5&31)
				x, y := 40*(i>>10&7), 40*(i>>13)
				g = ttf.Glyph{Pts: []ttf.Pt{{X: x, Y: y, On: true}, {X: x, Y: y + h, On: true}, {X: x + w, Y: y + h, On: true}, {X: x + w, Y: y, On: true}}, Ends: []int{4}, Adv: g.Adv}
				g.SetBox()
				g.LSB = x
			} else if i&127 == 6 {
				g.Empty = false
				g.Comps = []ttf.Comp{{Glyph: rnd(hugeGlyphs)&^31 | 5, DX: rnd(500), DY: rnd(500)}, {Glyph: rnd(hugeGlyphs), DX: rnd(500)}}
				g.XMin, g.XMax, g.YMax = rnd(10), 500, 500
				g.LSB = g.XMin - rnd(20)
			}
			f.Glyphs = append(f.Glyphs, g)
		}
		f.NHMetric = hugeGlyphs
		f.LongLoca = k == 0
		if k == 1 {
			f.NHMetric = 33333
			for i := f.NHMetric; i < hugeGlyphs; i++ {
				f.Glyphs[i].Adv = f.Glyphs[f.NHMetric-1].Adv
			}
			for _, p := range []int{8, 13, 20} {
				r := ttf.Hdmx{PPEM: p}
				for i := 0; i < hugeGlyphs; i++ {
					r.Widths = append(r.Widths, byte(rnd(256)))
				}
				f.Hdmx = append(f.Hdmx, r)
			}
		}
		f.SetBounds()
		f.Cmap = []ttf.CmapSub{{PID: 3, PSID: 10, Data: ttf.EncodeFormat12([]ttf.Group{{Start: hugeBase, End: hugeBase + hugeGlyphs - 1, Glyph: 0}})}}
		ks := map[[2]int]bool{}
		f.HasKern = true
		for i := 0; i < 10000; i++ {
			l, r := rnd(hugeGlyphs), rnd(hugeGlyphs)
			if !ks[[2]int{l, r}] {
				ks[[2]int{l, r}] = true
				f.Kern = append(f.Kern, ttf.Pair{L: uint16(l), R: uint16(r), V: int16(rnd(600) - 300)})
			}
		}
		ttf.SortPairs(f.Kern)
		b := f.File(ttf.Plain)
		e.f = textFont{name: "65535 glyphs", bytes: b, tf: parseOK(t, b), n: hugeGlyphs, model: f}
	})
	return e.f
}

// hugeGids picks glyphs of a huge font whose indices differ in one bit.
func hugeGids(t *pbt.T, f textFont) []int {
	var gs []int
	for k := t.Int(3, 10); k > 0; k-- {
		if len(gs) > 0 && t.Chance(3, 4) {
			g := pbt.PickS(t, gs) ^ 1<<t.Int(6, 15)
			if g < hugeGlyphs {
				gs = append(gs, g)
				continue
			}
		}
		if t.Bool() {
			p := f.model.Kern[t.Int(0, len(f.model.Kern)-1)]
			gs = append(gs, int(p.L), int(p.R))
			continue
		}
		g := t.Int(0, hugeGlyphs-1)
		if t.Chance(2, 3) {
			g = g&^127 | pbt.Pick(t, 5, 6)
		}
		gs = append(gs, min(g, hugeGlyphs-1))
	}
	return gs
}

// checkHuge compares glyphs of a huge font with the reference.
func checkHuge(t *pbt.T) {
	f := huge(t, t.Int(0, 1))
	t.Class("a font of 65535 glyphs")
	buf := &truetype.GlyphBuf{}
	for _, scale := range []int{f.model.UPEM, 64 * pbt.Pick(t, 8, 13, 20, t.Int(1, 60)), t.Int(1, 4000)} {
		rh := ref.NewHinter(f.model, scale)
		for _, gid := range hugeGids(t, f) {
			h := pbt.Pick(t, font.HintingNone, font.HintingFull)
			var r *ref.Hinter
			if h != font.HintingNone {
				r = rh
			}
			o := ref.Load(f.model, scale, gid, r)
			l := loadInto(buf, f.tf, scale, gid, h)
			t.Checks(1)
			if len(l.pts) > 0 {
				t.NonTrivial()
			}
			if o.Ambiguous != "" {
				t.Class("ambiguous: %s", o.Ambiguous)
				continue
			}
			if s := l.sameAsRef(o); s != "" {
				t.Failf("glyph %d of %d at scale %d, hinting %v: %s", gid, f.n, scale, h, s)
			}
			if s := l.wellFormed(h != font.HintingNone); s != "" {
				t.Failf("glyph %d of %d at scale %d: %s", gid, f.n, scale, s)
			}
		}
	}
}

// genAnyFont is genTextFont, but for a font of very many glyphs now and then.
func genAnyFont(t *pbt.T, faults bool) textFont {
	if !t.Chance(1, 60) {
		return genTextFont(t, faults)
	}
	t.Class("a font of 65535 glyphs")
	tf := huge(t, t.Int(0, 1))
	tf.runes = nil
	for _, g := range hugeGids(t, tf) {
		tf.runes = append(tf.runes, rune(hugeBase+g))
	}
	return tf
}
