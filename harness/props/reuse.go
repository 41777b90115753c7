package props

import (
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/pbt"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "G05",
		Rule:  "a sequence of 3 to 16 loads of glyphs of up to three fonts (real, generated with stateful programs, or with faulty glyphs and programs) at a few scales and hinting modes into one buffer, each compared with a load into a new buffer; non-trivial if at least 3 loads succeed and two consecutive ones differ in font, scale or hinting",
		Quick: 300000, Thorough: 6000000, Run: runG05})
}

// faulty breaks something in a font model.
func faulty(t *pbt.T, f *ttf.Font) {
	for k := t.Int(0, 3); k > 0; k-- {
		g := &f.Glyphs[t.Int(0, len(f.Glyphs)-1)]
		switch t.Int(0, 10) {
		case 10:
			if t.Chance(1, 3) {
				f.Fpgm = append(f.Fpgm, 0x7b) // fails
			}
		case 5, 6, 7, 8, 9:
			// Uses something that may exist only in another font: storage,
			// a control value, a twilight point, a function, stack.
			i := byte(t.Int(0, 70))
			var p []byte
			switch t.Int(0, 4) {
			case 0:
				p = []byte{0xb0, i, 0x43, 0x21}
			case 1:
				p = []byte{0xb0, i, 0x45, 0x21}
			case 2:
				p = []byte{0xb0, 0, 0x15, 0xb0, i, 0x46, 0x21, 0xb0, 1, 0x15}
			case 3:
				p = []byte{0xb0, i % 16, 0x2b}
			case 4:
				n := byte(t.Int(1, 255))
				p = append([]byte{0x40, n}, make([]byte, n)...)
				p = append(p, 0x22)
			}
			if t.Chance(1, 4) {
				f.Prep = append(f.Prep, p...)
			} else {
				g.Program = append(p, g.Program...)
			}
		case 0: // a program that fails part of the way
			g.Program = append(g.Program, 0x21, 0x21, 0x7b)
		case 1:
			g.Program = append([]byte{0xb0, 0, 0x16}, g.Program...)
		case 2: // a compound glyph that contains itself
			if g.Compound() {
				g.Comps[len(g.Comps)-1].Glyph = t.Int(0, len(f.Glyphs)-1)
			}
		case 3: // a component that does not exist
			if g.Compound() {
				g.Comps[t.Int(0, len(g.Comps)-1)].Glyph = len(f.Glyphs) + t.Int(0, 9)
			}
		case 4:
			f.Prep = append(f.Prep, 0xb0, byte(t.Int(6, 60)), 0x4b, 0x51, 0x58, 0x7b, 0x59)
		}
	}
}

// mixedFont is a generated font with programs and compound and empty glyphs.
func mixedFont(t *pbt.T) *ttf.Font {
	f := genStateFont(t)
	for n := t.Int(0, 3); n > 0; n-- {
		switch t.Int(0, 3) {
		case 0:
			f.Glyphs = append(f.Glyphs, ttf.Glyph{Empty: true, Adv: t.Int(0, f.UPEM), LSB: t.Sym(f.UPEM)})
		case 1:
			g := genOutline(t, f.UPEM, 2, 6)
			if t.Bool() {
				g.Program = []byte{0x2e, 0x31, 0x30} // fails: nothing on the stack
			}
			f.Glyphs = append(f.Glyphs, g)
		default:
			fp := &asm{t: t, nTwi: f.MaxTwilight}
			f.Glyphs = append(f.Glyphs, genCompound(t, f, fp))
		}
	}
	return f
}

func runG05(t *pbt.T) {
	type fnt struct {
		name string
		tf   *truetype.Font
		n    int
	}
	var fonts []fnt
	for k := t.Int(1, 3); k > 0; k-- {
		if t.Chance(1, 3) {
			r := pbt.PickS(t, realFonts).must(t)
			fonts = append(fonts, fnt{r.name, r.font, len(r.model.Glyphs)})
			continue
		}
		f := mixedFont(t)
		faulty(t, f)
		if t.Chance(1, 3) {
			f.MaxStorage = t.Int(0, 90)
		}
		if t.Chance(1, 3) {
			f.MaxStack = t.Int(0, 400)
		}
		if t.Chance(1, 4) { // programs use twilight points that are not there
			f.MaxTwilight = max(0, f.MaxTwilight-t.Int(1, 5))
		}
		tf, _ := finishHintFont(t, f)
		fonts = append(fonts, fnt{"generated", tf, len(f.Glyphs)})
	}
	scales := []int{genScale(t), genScale(t)}
	buf := &truetype.GlyphBuf{}
	var last [3]int
	changes, good := 0, 0
	var hist []string
	for k := manySteps(t, 3, 16); k > 0; k-- {
		fi, si := t.Int(0, len(fonts)-1), t.Int(0, 1)
		f := fonts[fi]
		gid := t.Int(0, f.n-1)
		if t.Chance(1, 30) {
			gid = f.n + t.Int(0, 3)
		}
		h := pbt.Pick(t, font.HintingFull, font.HintingFull, font.HintingFull, font.HintingVertical, font.HintingNone)
		if now := [3]int{fi, si, int(h)}; now != last {
			last = now
			changes++
		}
		got := loadInto(buf, f.tf, scales[si], gid, h)
		want := loadInto(&truetype.GlyphBuf{}, f.tf, scales[si], gid, h)
		t.Checks(1)
		if want.err != nil {
			t.Class("error")
		} else {
			good++
			t.Class("loaded")
		}
		if s := diffLoaded(&got, &want); s != "" {
			for _, h := range hist {
				t.Logf("%s", h)
			}
			t.Failf("%s glyph %d at scale %d, hinting %v, loaded into a used buffer: %s (used versus new)", f.name, gid, scales[si], h, s)
		}
		if want.err == nil && h == font.HintingNone && len(got.unh)+len(got.ifu) != 0 {
			t.Failf("unhinted load has %d unhinted points", len(got.unh))
		}
		if len(hist) < 40 {
			hist = append(hist, f.name)
			hist[len(hist)-1] += sprintf(" glyph %d scale %d hinting %v: error %v", gid, scales[si], h, got.err)
		}
	}
	if good >= 3 && changes > 1 {
		t.NonTrivial()
	}
	t.Sample("%v", hist)
}
