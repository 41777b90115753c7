package props

import (
	"fmt"
	"strings"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/pbt"
	"verif/harness/ref"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "H03",
		Rule:  "one or two generated fonts whose font, control-value and glyph programs set and observe functions, storage, control values, twilight points and graphics state, and a sequence of 4 to 14 loads at up to 3 sizes into one buffer; non-trivial if at least two sizes or fonts are loaded and at least 60 instructions ran",
		Quick: 1000000, Thorough: 8000000, Run: runH03})
}

const stateSlots = 20 // points that show values; the others are moved

// setter changes state that may outlive the program.
func (a *asm) setter() {
	t := a.t
	switch t.Int(0, 10) {
	case 0:
		a.opArgs(0x1a, t.Int(0, 300))
	case 1:
		a.opArgs(0x1d, t.Int(0, 300))
	case 2:
		a.opArgs(0x1e, t.Int(0, 300))
	case 3:
		a.opArgs(0x1f, t.Sym(300))
	case 4:
		a.op(pbt.Pick[byte](t, 0x4d, 0x4e))
	case 5:
		a.setRound()
	case 6:
		a.opArgs(0x5e, t.Int(0, 60))
	case 7:
		a.opArgs(0x5f, t.Int(0, 6))
	case 8: // storage
		a.opArgs(0x42, t.Int(0, a.nSto-1), a.value())
	case 9:
		a.opArgs(pbt.Pick[byte](t, 0x44, 0x70), a.cvt(), a.value())
	case 10: // a twilight point
		if a.nTwi == 0 {
			return
		}
		if a.zp[0] != 0 {
			a.setZone(0, 0)
		}
		a.op(0x01)
		if t.Bool() {
			a.op(0x00)
		}
		p := t.Int(0, a.nTwi-1)
		a.opArgs(pbt.Pick[byte](t, 0x3e, 0x3f), p, a.cvt())
	}
}

// temper changes state that must not outlive the program.
func (a *asm) temper() {
	t := a.t
	switch t.Int(0, 4) {
	case 0:
		a.vectorConst()
	case 1:
		a.opArgs(0x10+byte(t.Int(0, 2)), t.Int(0, 3))
	case 2:
		k := t.Int(0, 3)
		a.setZone(k, 0)
	case 3:
		a.opArgs(0x17, t.Int(2, 5))
	case 4:
		if a.nTwi > 1 {
			a.zp = [3]int{-1, -1, -1}
			a.setZone(3, 0)
			a.opArgs(pbt.Pick[byte](t, 6, 7, 8, 9), t.Int(0, a.nTwi-1), t.Int(0, a.nTwi-1))
		}
	}
}

// observe emits instructions whose result depends on the state that the
// program started with (or what it has done since).
func (a *asm) observe() {
	t := a.t
	mp := func() int { return t.Int(stateSlots, a.nPts-5) }
	switch t.Int(0, 12) {
	case 0:
		a.op(pbt.Pick[byte](t, 0x0c, 0x0d))
		a.depth += 2
	case 1, 2:
		a.push(t.Int(0, a.nSto-1))
		a.op(0x43)
	case 3, 4:
		a.push(a.cvt())
		a.op(0x45)
	case 5:
		a.push(t.Sym(500))
		a.op(0x68 + byte(t.Int(0, 3)))
	case 6:
		a.opArgs(0xc0+byte(t.Int(0, 31)), mp())
	case 7:
		if a.zp[1] != 0 {
			a.opArgs(0xe0+byte(t.Int(0, 31)), mp(), a.cvt())
		}
	case 8:
		a.opArgs(0x38, mp(), t.Sym(200))
	case 9:
		// A delta at the default base, or one likely to be set.
		a.opArgs(pbt.Pick[byte](t, 0x5d, 0x71, 0x72), t.Int(0, 255), mp(), 1)
	case 10:
		a.opArgs(0x12, t.Int(1, stateSlots-1)) // IP needs distinct reference points
		a.opArgs(0x39, mp())
	case 11:
		if a.nTwi > 0 {
			z := a.zp[2]
			a.setZone(2, 0)
			a.push(t.Int(0, a.nTwi-1))
			a.op(pbt.Pick[byte](t, 0x46, 0x47))
			a.setZone(2, z)
		}
	case 12:
		a.push(t.Sym(500))
		a.op(pbt.Pick[byte](t, 0x56, 0x57))
	}
}

func genStateFont(t *pbt.T) *ttf.Font {
	f := genHintFont(t)
	f.MaxTwilight = t.Int(1, 6)
	if f.MaxStorage < 256 {
		f.MaxStorage = t.Int(5, 20)
	}
	if t.Chance(1, 8) {
		f.MaxFDefs = 0
	}
	fp := &asm{t: t, nCVT: len(f.CVT), nSto: f.MaxStorage, nTwi: f.MaxTwilight, mult: 1}
	genFns(t, fp, t.Int(0, 4))
	for k := t.Size(0, 4); k > 0; k-- {
		// None of this may reach any other program.
		if t.Bool() {
			fp.setter()
		} else {
			fp.temper()
		}
	}
	f.Fpgm = fp.b
	if t.Chance(5, 6) {
		pp := &asm{t: t, fns: fp.fns, nCVT: len(f.CVT), nSto: f.MaxStorage, nTwi: f.MaxTwilight, mult: 1, rp: [3]int{-1, -1, -1}}
		cond := func(body func()) {
			// Only at some sizes.
			pp.op(0x4b)
			pp.depth++
			pp.push(t.Int(6, 60))
			pp.op(pbt.Pick[byte](t, 0x50, 0x51, 0x52, 0x53, 0x54))
			pp.op(0x58)
			pp.depth -= 2
			pp.scan = true
			d := pp.depth
			body()
			pp.settle(d)
			pp.scan = false
			pp.op(0x59)
			pp.zp = [3]int{-1, -1, -1}
		}
		for k := t.Size(1, 10); k > 0; k-- {
			switch t.Weighted(6, 2, 2, 1, 1) {
			case 0:
				pp.setter()
			case 1:
				pp.block(1, 1)
			case 2:
				pp.temper()
			case 3:
				cond(func() { pp.setter() })
			case 4:
				// Define a function, or define one again.
				sig := fnSig{num: 30 + t.Int(0, 3), in: 0, out: 1, cost: 10}
				v := a16(pp.value())
				pp.push(sig.num)
				pp.op(0x2c)
				pp.b = append(pp.b, 0xb8, byte(v>>8), byte(v))
				pp.op(0x2d)
				pp.depth--
				pp.fns = append(pp.fns[:len(pp.fns):len(pp.fns)], sig)
			}
		}
		if t.Chance(1, 8) {
			cond(func() { pp.push(1, 0); pp.op(0x62); pp.depth-- })
		}
		if t.Chance(1, 2) {
			pp.temper()
		}
		f.Prep = pp.b
		fp.fns = pp.fns
	}
	n := t.Int(1, 4)
	for i := 0; i < n; i++ {
		g := ttf.Glyph{Adv: f.UPEM}
		np := stateSlots + t.Int(4, 10)
		for k := 0; k < np; k++ {
			g.Pts = append(g.Pts, ttf.Pt{X: t.Sym(f.UPEM), Y: t.Sym(f.UPEM), On: true})
		}
		g.Ends = []int{np}
		g.SetBox()
		g.LSB = g.XMin
		a := &asm{t: t, fns: fp.fns, nCVT: len(f.CVT), nSto: f.MaxStorage, nTwi: f.MaxTwilight, mult: 1, far: t.Chance(1, 150),
			nPts: np + 4, zp: [3]int{1, 1, 1}}
		observer := t.Chance(1, 2)
		for k := t.Size(2, 14); k > 0; k-- {
			if a.depth > maxDepth {
				a.settle(10)
			}
			switch w := t.Weighted(8, 2, 2, 1); {
			case w == 0 || observer && w < 3:
				a.observe()
			case w == 1:
				a.setter()
			case w == 2:
				a.block(1, 1)
			default:
				if len(a.fns) > 0 {
					a.call()
				}
			}
			if a.zp != [3]int{1, 1, 1} && t.Chance(3, 4) {
				a.setZone(3, 1)
			}
		}
		if a.depth > 0 {
			a.export(0, min(a.depth, stateSlots))
		}
		g.Program = a.b
		f.Glyphs = append(f.Glyphs, g)
	}
	return f
}

func a16(v int) int { return v & 0xffff }

func runH03(t *pbt.T) {
	type fnt struct {
		m  *ttf.Font
		tf *truetype.Font
		h  map[int]*ref.Hinter
	}
	var fonts []*fnt
	for n := t.Int(1, 2); n > 0; n-- {
		m := genStateFont(t)
		tf, _ := finishHintFont(t, m)
		fonts = append(fonts, &fnt{m, tf, map[int]*ref.Hinter{}})
	}
	var scales []int
	for n := t.Int(1, 3); n > 0; n-- {
		s := 64 * t.Int(6, 60)
		if t.Chance(1, 5) {
			s = t.Int(4*64, 100*64)
		}
		scales = append(scales, s)
	}
	buf := &truetype.GlyphBuf{}
	steps, changes, last := 0, 0, ""
	for n := manySteps(t, 4, 14); n > 0; n-- {
		fi := t.Int(0, len(fonts)-1)
		f, scale := fonts[fi], pbt.PickS(t, scales)
		gid := t.Int(0, len(f.m.Glyphs)-1)
		if t.Chance(1, 10) {
			loadInto(buf, f.tf, scale, gid, font.HintingNone)
			continue
		}
		h := f.h[scale]
		if h == nil {
			h = ref.NewHinterLimit(f.m, scale, 1<<19)
			f.h[scale] = h
		}
		o := ref.Load(f.m, scale, gid, h)
		l := loadInto(buf, f.tf, scale, gid, hintMode(t))
		if key := fmt.Sprint(fi, scale); key != last {
			last = key
			changes++
		}
		if h.Ambiguous != "" || o.Ambiguous != "" {
			t.Class("ambiguous: %s", h.Ambiguous+strings.TrimPrefix(o.Ambiguous, h.Ambiguous))
			continue
		}
		t.Checks(1)
		for _, n := range o.Executed {
			steps += n
		}
		switch {
		case h.Err != nil:
			t.Class("control-value program error")
		case o.Err != nil:
			t.Class("glyph program error")
		default:
			t.Class("ok")
		}
		if s := l.sameAsRef(o); s != "" {
			t.Logf("font %d, upem %d, scale %d, storage %d, twilight %d, cvt %v", fi, f.m.UPEM, scale, f.m.MaxStorage, f.m.MaxTwilight, f.m.CVT)
			t.Logf("fpgm: %s", disasm(f.m.Fpgm))
			t.Logf("prep: %s", disasm(f.m.Prep))
			for i := range f.m.Glyphs {
				t.Logf("glyph %d: %s", i, disasm(f.m.Glyphs[i].Program))
			}
			t.Failf("load of glyph %d at scale %d: %s (reference error: %v)", gid, scale, s, o.Err)
		}
	}
	if changes > 1 && steps >= 60 {
		t.NonTrivial()
	}
	t.Sample("prep %s; glyph 0 %s", disasm(fonts[0].m.Prep), disasm(fonts[0].m.Glyphs[0].Program))
}
