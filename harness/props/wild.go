package props

import (
	"github.com/golang/freetype/truetype"

	"verif/harness/pbt"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "H04",
		Rule:  "a generated font whose font, control-value and glyph programs are random bytes, instructions with extreme operands, damaged sensible programs or endless loops, loaded at several sizes (extreme ones too); non-trivial if some glyph program was reached, i.e. the font and control-value programs succeeded at some size",
		Quick: 120000, Thorough: 2000000, Run: runH04})
}

// wildValue is an operand that may be out of any range.
func (a *asm) wildValue() int {
	t := a.t
	switch t.Weighted(4, 4, 2, 1) {
	case 0:
		return t.Int(0, 3)
	case 1:
		return t.Int(-2, max(a.nPts, 8)+2)
	case 2:
		return pbt.Pick(t, 32767, -32768, -1, 255, 256, 1000, -64, 64, 0x4000, -0x4000)
	}
	return t.Sym(32767)
}

// wildProgram is a program that need not make sense.
func wildProgram(t *pbt.T, a *asm) []byte {
	n := t.Size(0, 30)
	switch t.Weighted(30, 100, 60, 4, 1) {
	case 0:
		b := make([]byte, n*2)
		for i := range b {
			b[i] = byte(t.Draw(256))
		}
		return b
	case 1: // instructions with wild operands
		if t.Chance(3, 4) {
			var vs []int
			for k := t.Int(10, 40); k > 0; k-- {
				vs = append(vs, a.wildValue())
			}
			a.push(vs...)
		}
		for ; n > 0; n-- {
			for k := t.Int(0, 4); k > 0; k-- {
				a.push(a.wildValue())
			}
			switch t.Weighted(12, 1, 1, 1) {
			case 0:
				op := byte(t.Draw(0x8f))
				if t.Chance(1, 40) {
					op = byte(t.Draw(0xb0))
				}
				a.op(op)
			case 1:
				a.op(0xc0 + byte(t.Draw(64)))
			case 2: // huge values
				a.push(32767, 32767)
				a.op(0x63, 0x20, 0x63)
			case 3:
				a.push(pbt.Pick(t, 2, 3, 1, 5, 12, -1, -3, -6))
				a.op(pbt.Pick[byte](t, 0x1c, 0x78, 0x79))
			}
		}
		return a.b
	case 2: // a sensible program, damaged
		var b []byte
		if a.nPts > 0 {
			a.pblock(n)
			a.export(0, min(a.depth, 4))
		} else {
			a.block(2, n)
		}
		b = a.b
		for k := t.Int(0, 4); k > 0 && len(b) > 0; k-- {
			i := t.Int(0, len(b)-1)
			switch t.Int(0, 2) {
			case 0:
				b[i] = byte(t.Draw(256))
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				b = append(b[:i], append([]byte{byte(t.Draw(256))}, b[i:]...)...)
			}
		}
		return b
	case 3: // loops
		switch t.Int(0, 5) {
		case 0: // forever
			return []byte{0xb8, 0xff, 0xfd, 0x1c}
		case 1: // forever, with something in between
			b := []byte{byte(t.Draw(256)), byte(t.Draw(256)), byte(t.Draw(256)), byte(t.Draw(256))}
			return append(b, 0xb8, 0xff, byte(-3-len(b)), 0x1c)
		case 2: // a function that calls itself
			return []byte{0xb0, 1, 0x2c, 0xb0, 1, 0x2b, 0x2d, 0xb0, 1, 0x2b}
		case 3: // a function that calls itself many times
			return []byte{0xb0, 1, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 1, 0x2a, 0x2d, 0xb8, 0x7f, 0xff, 0xb0, 1, 0x2a}
		case 4: // nested loop calls of work on every point
			return []byte{0xb0, 1, 0x2c, 0x30, 0x31, 0x2d, 0xb0, 2, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 1, 0x2a, 0x2d, 0xb8, 0x7f, 0xff, 0xb0, 2, 0x2a}
		default: // pushes forever
			return []byte{0x24, 0xb8, 0xff, 0xfc, 0x1c}
		}
	default:
		// A long program of skipped bytes.
		b := []byte{0xb0, 0, 0x58}
		for k := t.Size(0, 6000); k > 0; k-- {
			b = append(b, 0x60)
		}
		return append(b, 0x59, 0xb8, byte((-len(b)-4)>>8), byte(-len(b)-4), 0x1c)
	}
}

func wildScale(t *pbt.T) int {
	switch t.Weighted(6, 1, 1) {
	case 0:
		return genScale(t)
	case 1:
		return t.Sym(1 << 12)
	}
	return pbt.Pick(t, 0, 1, -1, 63, 64, 1<<31-1, -1<<31, 1<<24, 1<<30, -64)
}

// heavyWork loads a glyph that is not endless, but has some hundred billion
// things to do.
func heavyWork(t *pbt.T) {
	f := &ttf.Font{UPEM: 1000, MaxStack: 300, MaxTwilight: 4, MaxStorage: 4, MaxFDefs: 4, LongLoca: true}
	np := t.Int(8000, 16000)
	g := ttf.Glyph{Adv: 500}
	for k := 0; k < np; k++ {
		g.Pts = append(g.Pts, ttf.Pt{X: k & 1023, Y: k & 511, On: true})
	}
	g.Ends = []int{np}
	if t.Bool() {
		g.Ends = []int{np / 2, np}
	}
	g.SetBox()
	fn := &asm{t: t}
	fn.push(0)
	fn.op(0x2c)
	what := t.Int(0, 5)
	switch what {
	case 0:
		if t.Bool() {
			fn.push(0)
			fn.op(0x2e) // MDAP
		}
		fn.op(0x30)
		fn.op(0x31)
	case 1: // SHC
		fn.push(0)
		fn.op(0x34)
	case 2: // SHZ
		fn.push(1)
		fn.op(0x36)
	case 3: // FLIPRGON
		fn.push(0, np-1)
		fn.op(pbt.Pick[byte](t, 0x81, 0x82))
	case 4: // a long way to EIF
		fn.push(0)
		fn.op(0x58)
		for k := 0; k < 45000; k++ {
			fn.op(0x4f)
		}
		fn.op(0x59)
	case 5: // or to ELSE, and from there
		fn.push(1)
		fn.op(0x58)
		fn.op(0x1b)
		for k := 0; k < 45000; k++ {
			fn.op(0x4f)
		}
		fn.op(0x59)
	}
	fn.op(0x2d)
	f.Fpgm = fn.b
	a := &asm{t: t}
	a.push(t.Int(20000, 24000), 0)
	a.op(0x2a)
	g.Program = a.b
	f.Glyphs = append(f.Glyphs, g)
	for i := 0; i < 4; i++ {
		f.Glyphs = append(f.Glyphs, ttf.Glyph{Adv: 500, Comps: []ttf.Comp{{Glyph: i}, {Glyph: i}}, Program: a.b})
	}
	for i := 4; i < 28; i++ {
		f.Glyphs = append(f.Glyphs, ttf.Glyph{Adv: 500, Comps: []ttf.Comp{{Glyph: i}}, Program: a.b})
	}
	if what < 4 && t.Bool() { // only for the whole of the points
		for i := 0; i <= 4; i++ {
			f.Glyphs[i].Program = nil
		}
	}
	if what >= 4 {
		for i := range f.Glyphs {
			g := &f.Glyphs[i]
			for len(g.Comps) > 0 && len(g.Comps) < 4 {
				g.Comps = append(g.Comps, g.Comps[0])
			}
		}
		f.Glyphs[0].Pts, f.Glyphs[0].Ends = f.Glyphs[0].Pts[:4], []int{4}
	}
	f.NHMetric = len(f.Glyphs)
	f.SetBounds()
	f.Cmap = cmapFor(65, len(f.Glyphs))
	tf := parseOK(t, f.File(ttf.Plain))
	buf := &truetype.GlyphBuf{}
	for _, gid := range []int{0, t.Int(1, 27), 28} {
		var l loaded
		if s := pbt.Guard(func() { l = loadInto(buf, tf, 1000, gid, hintMode(t)) }); s != "" {
			t.Failf("glyph %d: %s", gid, s)
		}
		t.Checks(1)
		if l.err != nil {
			t.Class("heavy: error: %s", l.err)
		} else if s := l.wellFormed(true); s != "" {
			t.Failf("glyph %d: %s", gid, s)
		} else {
			t.Class("heavy: loaded")
		}
	}
	t.NonTrivial()
	t.Sample("heavy programs, kind %d", what)
}

func runH04(t *pbt.T) {
	if t.Chance(1, 1000) {
		heavyWork(t)
		return
	}
	f := genHintFont(t)
	f.MaxStack = pbt.Pick(t, 250, 250, 250, 250, 250, 250, 0, 1, 5, 256, 1000, 65535)
	f.MaxStorage = pbt.Pick(t, 16, 0, 1, 15, 17, 65535)
	f.MaxTwilight = pbt.Pick(t, 6, 0, 1, 16, 65535)
	if t.Chance(1, 6) {
		f.CVT = nil
	}
	fp := &asm{t: t, nCVT: len(f.CVT), nSto: f.MaxStorage, nTwi: 0, mult: 1}
	if t.Chance(1, 3) {
		f.Fpgm = wildProgram(t, fp)
		fp = &asm{t: t, nCVT: len(f.CVT), nSto: f.MaxStorage, mult: 1}
	} else {
		genFns(t, fp, t.Int(0, 4))
		if len(f.CVT) > 0 && f.MaxTwilight > 0 {
			fp.nTwi = f.MaxTwilight
			genPFns(t, fp, t.Int(0, 2), 5)
		}
		f.Fpgm = fp.b
	}
	asmFor := func(n, c int) *asm {
		a := newPointAsm(t, f, fp, n, c)
		if len(f.CVT) == 0 || f.MaxTwilight == 0 {
			a.nPts = 0
		}
		return a
	}
	if t.Chance(1, 3) {
		a := asmFor(0, 0)
		a.nPts = 0
		f.Prep = wildProgram(t, a)
	}
	for n := t.Int(1, 3); n > 0; n-- {
		g := genOutline(t, f.UPEM, 3, 8)
		switch {
		case t.Chance(1, 30): // many points
			for k := t.Int(100, 20000); k > 0; k-- {
				g.Pts = append(g.Pts, ttf.Pt{X: k & 1023, Y: k & 511, On: k&3 != 0})
			}
			g.Ends[len(g.Ends)-1] = len(g.Pts)
		case t.Chance(1, 12): // none
			g.Pts, g.Ends = nil, nil
		case t.Chance(1, 8): // an empty contour
			g.Ends = append(g.Ends, len(g.Pts))
		}
		g.SetBox()
		g.Program = wildProgram(t, asmFor(len(g.Pts), len(g.Ends)))
		f.Glyphs = append(f.Glyphs, g)
	}
	f.LongLoca = true
	if t.Chance(1, 3) {
		g := genCompound(t, f, nil)
		n, c := glyphSize(f, len(f.Glyphs)-1)
		g.Program = wildProgram(t, asmFor(n, c))
		f.Glyphs = append(f.Glyphs, g)
	}
	f.NHMetric = len(f.Glyphs)
	f.SetBounds()
	f.Cmap = cmapFor(65, len(f.Glyphs))
	tf := parseOK(t, f.File(ttf.Plain))
	buf := &truetype.GlyphBuf{}
	t.Sample("fpgm %.200s; prep %.200s; glyph 0 %.200s", disasm(f.Fpgm), disasm(f.Prep), disasm(f.Glyphs[0].Program))
	for k := t.Int(1, 3); k > 0; k-- {
		scale := wildScale(t)
		for gid := range f.Glyphs {
			var l loaded
			if s := pbt.Guard(func() { l = loadInto(buf, tf, scale, gid, hintMode(t)) }); s != "" {
				t.Logf("upem %d scale %d stack %d storage %d twilight %d, %d control values", f.UPEM, scale, f.MaxStack, f.MaxStorage, f.MaxTwilight, len(f.CVT))
				t.Logf("fpgm: %.2000s", disasm(f.Fpgm))
				t.Logf("prep: %.2000s", disasm(f.Prep))
				t.Logf("glyph: %.2000s", disasm(f.Glyphs[gid].Program))
				t.Failf("glyph %d at scale %d: %s", gid, scale, s)
			}
			t.Checks(1)
			if l.err != nil {
				t.Class("error: %s", l.err)
				continue
			}
			t.Class("loaded")
			t.NonTrivial()
			if s := l.wellFormed(true); s != "" {
				t.Failf("glyph %d at scale %d: %s", gid, scale, s)
			}
			if n, _ := glyphSize(f, gid); n != len(l.pts) {
				t.Failf("glyph %d at scale %d has %d points, want %d", gid, scale, len(l.pts), n)
			}
		}
	}
}
