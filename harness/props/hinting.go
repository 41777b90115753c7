package props

import (
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/pbt"
	"verif/harness/ref"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "H05",
		Rule:  "a real font, a scale (any whole pixel size up to 200, or a fractional one) and 48 of its glyphs; non-trivial if at least one glyph program ran",
		Quick: 30000, Thorough: 400000, Run: runH05})
}

func genScale(t *pbt.T) int {
	switch t.Int(0, 29) {
	case 0:
		return t.Int(1, 8*64)
	case 1:
		return t.Int(200*64, 1500*64)
	}
	if t.Chance(1, 4) {
		return t.Int(4*64, 200*64)
	}
	return 64 * (8 + t.Size(0, 192))
}

func runH05(t *pbt.T) {
	r := pbt.PickS(t, realFonts).must(t)
	scale := genScale(t)
	h := r.hinter(scale)
	if h.Err != nil {
		panic("reference: " + r.name + ": " + h.Err.Error())
	}
	n := len(r.model.Glyphs)
	start := t.Int(0, n-1)
	step := t.Int(1, 30)
	g := &truetype.GlyphBuf{}
	t.Sample("%s at %d/64 px, glyphs from %d in steps of %d", r.name, scale, start, step)
	for k := 0; k < 48; k++ {
		gid := (start + k*step) % n
		hinting := hintMode(t)
		if k%12 == 11 {
			hinting = font.HintingNone
		}
		l := loadInto(g, r.font, scale, gid, hinting)
		var o *ref.Out
		if hinting == font.HintingNone {
			o = ref.Load(r.model, scale, gid, nil)
		} else {
			o = ref.Load(r.model, scale, gid, h)
		}
		t.Checks(1)
		if o.Program {
			t.NonTrivial()
			t.ClassN("hinted glyphs", 1)
		}
		if o.Ambiguous != "" {
			t.Class("ambiguous: %s", o.Ambiguous)
			continue
		}
		if o.Err != nil {
			panic("reference: " + r.name + ": " + o.Err.Error())
		}
		if s := l.sameAsRef(o); s != "" {
			t.Failf("%s glyph %d at scale %d, hinting %v: %s", r.name, gid, scale, hinting, s)
		}
		if s := l.wellFormed(hinting != font.HintingNone); s != "" {
			t.Failf("%s glyph %d at scale %d: %s", r.name, gid, scale, s)
		}
	}
}

// hintFont is a generated font for bytecode properties.
func genHintFont(t *pbt.T) *ttf.Font {
	f := &ttf.Font{UPEM: pbt.Pick(t, 1000, 2048, 64, 16, 1024, 256, 4096, 777)}
	f.Ascent, f.Descent = f.UPEM, -f.UPEM/4
	f.MaxStack = 4000
	f.MaxStorage = 16
	f.MaxTwilight = 6
	f.MaxFDefs = 64
	n := t.Int(4, 12)
	if t.Chance(1, 25) {
		// More than a byte can number.
		n = pbt.Pick(t, t.Int(250, 600), 4000)
		f.MaxStorage = pbt.Pick(t, t.Int(256, 600), 32000)
		f.MaxFDefs = 65535
		f.MaxStack = pbt.Pick(t, 4000, 65535)
		t.Class("wide limits")
	}
	for ; n > 0; n-- {
		f.CVT = append(f.CVT, int16(t.Sym(f.UPEM)))
	}
	return f
}

func finishHintFont(t *pbt.T, f *ttf.Font) (*truetype.Font, []byte) {
	if t.Chance(1, 150) {
		lengthenOne(t, f)
	}
	if t.Chance(1, 4) {
		genVertical(t, f)
	}
	f.NHMetric = len(f.Glyphs)
	f.SetBounds()
	f.Cmap = cmapFor(65, len(f.Glyphs))
	var d ttf.D = ttf.Plain
	if t.Chance(1, 4) {
		d = t
	}
	b := f.File(d)
	return parseOK(t, b), b
}

// lengthenOne makes a program of the font very long without changing what it
// does.
func lengthenOne(t *pbt.T, f *ttf.Font) {
	if f.MaxStack < 1 {
		return
	}
	var ps []*[]byte
	if len(f.Fpgm) > 0 {
		ps = append(ps, &f.Fpgm)
	}
	if len(f.Prep) > 0 {
		ps = append(ps, &f.Prep)
	}
	for i := range f.Glyphs {
		if g := &f.Glyphs[i]; len(g.Program) > 0 {
			ps = append(ps, &g.Program)
			if g.Compound() {
				ps = append(ps, &g.Program, &g.Program)
			}
		}
	}
	if len(ps) == 0 {
		return
	}
	p := pbt.PickS(t, ps)
	*p = lengthen(t, *p)
	f.LongLoca = true
	t.Class("program of over 32 KiB")
}

// lengthen puts code that does nothing in front of a program, for a total of
// between 32768 and 49999 bytes.
func lengthen(t *pbt.T, prog []byte) []byte {
	n := t.Int(32768, 49999) - len(prog)
	if n < 10 {
		return prog
	}
	b := []byte{0xb0, 0, 0x58} // PUSHB 0, IF
	if t.Bool() {
		b = nil
	}
	if b == nil { // jumps
		for n-len(b) > 4+100 {
			k := min(n-len(b)-4, t.Int(100, 32000))
			b = append(b, 0xb8, byte((k+1)>>8), byte(k+1), 0x1c)
			for ; k > 0; k-- {
				b = append(b, byte(t.Index()+k*5))
			}
		}
	} else {
		for n-len(b) > 1+2+2*255 {
			b = append(b, byte(0x40+len(b)&1), 255)
			w := 255 * (1 + int(b[len(b)-2]-0x40))
			for k := 0; k < w; k++ {
				b = append(b, byte(0x50+k%16))
			}
		}
		b = append(b, 0x59)
	}
	return append(b, prog...)
}

func init() {
	pbt.Register(&pbt.Prop{ID: "H01",
		Rule:  "a generated font with functions, a control-value program and three glyph programs of computing instructions, whose final stacks are written into point co-ordinates, loaded at three sizes; non-trivial if at least 20 instructions ran",
		Quick: 600000, Thorough: 12000000, Run: runH01})
}

// hintMode is full hinting, or vertical hinting, which the package does in full.
func hintMode(t *pbt.T) font.Hinting {
	if t.Chance(1, 8) {
		return font.HintingVertical
	}
	return font.HintingFull
}

// fault emits something that must end the program with an error, or might.
func (a *asm) fault() {
	t := a.t
	switch t.Int(0, 9) {
	case 9:
		a.push(pbt.Pick(t, 7, 8, -1, 32767, -32768))
		a.op(0x5f)
	case 0: // underflow
		a.op(0x22)
		a.op(pbt.Pick[byte](t, 0x60, 0x21, 0x20, 0x23, 0x8a, 0x42, 0x63, 0x58, 0x1c, 0x2b, 0x5c, 0x45, 0x26))
	case 1:
		a.push(5, 0)
		a.op(0x62)
	case 2:
		a.push(999)
		a.op(0x2b)
	case 3:
		a.push(pbt.Pick(t, -1, 1000, -32768, 32767))
		a.op(0x43)
	case 4:
		a.push(pbt.Pick(t, -1, 1000), 7)
		a.op(0x42)
	case 5:
		a.op(pbt.Pick[byte](t, 0x28, 0x7b, 0x83, 0x84, 0x8f, 0x91, 0xa0, 0xaf))
	case 6:
		a.push(pbt.Pick(t, 0, -1, 200))
		a.op(pbt.Pick[byte](t, 0x25, 0x26))
	case 7:
		a.push(1, 2)
		a.op(0x2d)
	case 8:
		a.push(0)
		a.op(0x58)
	}
}

func runH01(t *pbt.T) {
	f := genHintFont(t)
	fp := &asm{t: t, nCVT: len(f.CVT), nSto: f.MaxStorage, mult: 1}
	genFns(t, fp, t.Int(0, 5))
	if t.Chance(1, 8) {
		fp.recurse()
	}
	f.Fpgm = fp.b
	if t.Chance(2, 3) {
		pp := &asm{t: t, fns: fp.fns, nCVT: len(f.CVT), nSto: f.MaxStorage, mult: 1}
		pp.block(2, t.Size(1, 6))
		f.Prep = pp.b
	}
	const np = 24
	for i := 0; i < 3; i++ {
		g := ttf.Glyph{Ends: []int{np}, Adv: f.UPEM}
		for k := 0; k < np; k++ {
			g.Pts = append(g.Pts, ttf.Pt{X: k, Y: k * 3, On: true})
		}
		g.SetBox()
		a := &asm{t: t, fns: fp.fns, nCVT: len(f.CVT), nSto: f.MaxStorage, mult: 1, deep: f.MaxStack > 32000,
			far: t.Chance(1, 100)}
		a.block(3, t.Size(2, 16))
		if t.Chance(1, 12) {
			a.fault()
		}
		if a.depth == 0 {
			a.need(1)
		}
		a.export(0, min(a.depth, np))
		g.Program = a.b
		f.Glyphs = append(f.Glyphs, g)
	}
	tf, _ := finishHintFont(t, f)
	checkPrograms(t, f, tf, 1<<40, 3)
}

// checkPrograms loads every glyph hinted at several sizes and compares with
// the reference. limit bounds the co-ordinates that are compared.
func checkPrograms(t *pbt.T, f *ttf.Font, tf *truetype.Font, limit, sizes int) {
	buf := &truetype.GlyphBuf{}
	for s := 0; s < sizes; s++ {
		scale := 64 * t.Int(6, 60)
		if t.Chance(1, 5) {
			scale = t.Int(4*64, 100*64)
		}
		h := ref.NewHinterLimit(f, scale, limit)
		for gid := range f.Glyphs {
			o := ref.Load(f, scale, gid, h)
			if h.Ambiguous != "" || o.Ambiguous != "" {
				amb := h.Ambiguous
				if amb == "" {
					amb = o.Ambiguous
				}
				t.Class("ambiguous: %s", amb)
				// It must still not crash.
				loadInto(buf, tf, scale, gid, hintMode(t))
				continue
			}
			l := loadInto(buf, tf, scale, gid, hintMode(t))
			steps := 0
			for op, n := range o.Executed {
				steps += n
				if n > 0 {
					t.ClassN(opName(op), n)
				}
			}
			t.Checks(1)
			if steps >= 20 {
				t.NonTrivial()
			}
			if o.Err != nil {
				t.Class("program error: %s", o.Err)
			} else {
				t.Class("program ok")
			}
			if s := l.sameAsRef(o); s != "" {
				t.Logf("upem %d scale %d", f.UPEM, scale)
				t.Logf("fpgm: %s", disasm(f.Fpgm))
				t.Logf("prep: %s", disasm(f.Prep))
				t.Logf("glyph: %s", disasm(f.Glyphs[gid].Program))
				t.Logf("points: %v ends %v", f.Glyphs[gid].Pts, f.Glyphs[gid].Ends)
				t.Logf("components: %v", f.Glyphs[gid].Comps)
				t.Failf("glyph %d at scale %d: %s (reference error: %v)", gid, scale, s, o.Err)
			}
		}
	}
	t.Sample("upem %d, glyph 0: %s", f.UPEM, disasm(f.Glyphs[0].Program))
}
