package props

import (
	"verif/harness/pbt"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "H02",
		Rule:  "a generated font with functions, a control-value program and simple and compound glyphs whose programs set vectors, reference points and zones and move points, loaded at three sizes; non-trivial if at least 20 instructions ran",
		Quick: 1200000, Thorough: 12000000, Run: runH02})
}

// point picks a point of the zone that zone pointer k points to.
func (a *asm) point(k int) int {
	if a.zp[k] == 0 {
		return a.t.Int(0, a.nTwi-1)
	}
	return a.t.Int(0, a.nPts-1)
}

// common picks a point that exists in both zones that the pointers j and k
// point to.
func (a *asm) common(ks ...int) int {
	n := a.nPts
	for _, k := range ks {
		if a.zp[k] == 0 {
			n = min(n, a.nTwi)
		}
	}
	return a.t.Int(0, n-1)
}

// opArgs pushes the arguments and emits an instruction that pops them all.
func (a *asm) opArgs(op byte, args ...int) {
	a.push(args...)
	a.op(op)
	a.depth -= len(args)
}

// rpFor makes sure that reference point k exists in the zone of pointer z.
func (a *asm) rpFor(k, z int) {
	n := a.nPts
	if a.zp[z] == 0 {
		n = a.nTwi
	}
	if a.rp[k] < 0 || a.rp[k] >= n {
		a.setRP(k, a.point(z))
	}
}

func (a *asm) setRP(k, p int) {
	a.opArgs(0x10+byte(k), p)
	a.rp[k] = p
}

func (a *asm) setZone(k, z int) {
	if k == 3 {
		a.opArgs(0x16, z)
		a.zp = [3]int{z, z, z}
		return
	}
	a.opArgs(0x13+byte(k), z)
	a.zp[k] = z
}

// zones brings every zone pointer back to the glyph zone.
func (a *asm) zonesHome() {
	if a.zp != [3]int{1, 1, 1} {
		a.setZone(3, 1)
	}
}

// loopPoints sets the loop count and pushes as many points of pointer k's
// zone, below any extra arguments.
func (a *asm) loopPoints(k int, op byte, extra ...int) {
	n := 1
	if a.t.Chance(1, 3) {
		n = a.t.Int(1, 5)
		if a.t.Chance(1, 40) {
			n = pbt.Pick(a.t, a.t.Int(6, 64), a.t.Int(65, 400))
			a.t.Class("loop of many points")
		}
	}
	if n > 1 || a.t.Chance(1, 10) {
		a.opArgs(0x17, n)
	}
	var args []int
	for i := 0; i < n; i++ {
		args = append(args, a.point(k))
	}
	a.opArgs(op, append(args, extra...)...)
}

func (a *asm) dist() int {
	t := a.t
	switch t.Weighted(3, 3, 1, 1) {
	case 0:
		return t.Sym(128)
	case 1:
		return 64*t.Sym(12) + pbt.Pick(t, 0, 32, 1, 63, 16)
	case 2:
		if t.Chance(1, 8) {
			return t.Sym(1 << 20)
		}
		return t.Sym(2000)
	}
	return 0
}

// param is a minimum distance, a cut-in or the like.
func (a *asm) param() int {
	if a.t.Chance(1, 12) {
		return pbt.Pick(a.t, a.t.Sym(32767), a.t.Sym(2000), a.t.Sym(1<<20))
	}
	return a.t.Int(0, 200)
}

// vector sets one or both vectors.
func (a *asm) vector() {
	t := a.t
	switch t.Weighted(5, 1, 3, 2) {
	case 0:
		a.op(byte(t.Int(0, 5)))
	case 1:
		a.op(0x0e)
	case 2:
		a.opArgs(pbt.Pick[byte](t, 6, 7, 8, 9, 0x86, 0x87), a.common(1, 2), a.common(1, 2))
	case 3:
		x, y := t.Sym(0x4000), t.Sym(0x4000)
		if x == 0 && y == 0 {
			x = 0x4000
		}
		a.opArgs(pbt.Pick[byte](t, 0x0a, 0x0b), x, y)
	}
}

// pstmt emits a statement that has to do with points.
func (a *asm) pstmt() {
	t := a.t
	if a.depth > maxDepth {
		a.settle(a.depth / 2)
	}
	twi := a.nTwi > 0
	switch t.Weighted(6, 4, 3, 3, 3, 4, 6, 6, 3, 3, 2, 2, 3, 2, 3, 2, 2, 3, 3, 2, 2, 1, 2, 2) {
	case 0:
		a.vector()
	case 1:
		k := t.Int(0, 2)
		n := a.nPts
		if twi && !t.Chance(1, 3) {
			n = min(n, a.nTwi)
		}
		a.setRP(k, t.Int(0, n-1))
	case 2:
		if twi && t.Chance(1, 3) {
			a.setZone(t.Int(0, 3), 0)
		} else {
			a.setZone(t.Int(0, 3), 1)
		}
	case 3: // parameters
		switch t.Int(0, 8) {
		case 0:
			a.opArgs(0x1a, a.param()) // SMD
		case 1:
			a.opArgs(0x1d, a.param()) // SCVTCI
		case 2:
			a.opArgs(0x1e, a.param()) // SSWCI
		case 3:
			a.opArgs(0x1f, pbt.Pick(t, t.Sym(200), a.param())) // SSW
		case 4:
			a.op(pbt.Pick[byte](t, 0x4d, 0x4e))
		case 5, 6:
			a.setRound()
		case 7:
			a.opArgs(0x5e, t.Int(0, 60))
		case 8:
			a.opArgs(0x5f, t.Int(0, 6))
		}
	case 4: // MDAP
		p := a.point(0)
		a.opArgs(pbt.Pick[byte](t, 0x2e, 0x2f), p)
		a.rp[0], a.rp[1] = p, p
	case 5: // MIAP
		p := a.point(0)
		a.opArgs(pbt.Pick[byte](t, 0x3e, 0x3f), p, a.cvt())
		a.rp[0], a.rp[1] = p, p
	case 6: // MDRP
		a.rpFor(0, 0)
		p := a.point(1)
		op := 0xc0 + byte(t.Int(0, 31))
		a.opArgs(op, p)
		a.movedRel(op&16 != 0, p)
	case 7: // MIRP
		if a.zp[1] == 0 {
			a.setZone(1, 1)
		}
		a.rpFor(0, 0)
		p := a.point(1)
		op := 0xe0 + byte(t.Int(0, 31))
		a.opArgs(op, p, a.cvt())
		a.movedRel(op&16 != 0, p)
	case 8: // MSIRP
		a.rpFor(0, 0)
		p := a.point(1)
		op := byte(0x3a + t.Int(0, 1))
		a.opArgs(op, p, a.dist())
		a.movedRel(op&1 != 0, p)
	case 9: // SHP
		op := a.shiftOp(0x32)
		a.loopPoints(2, op)
	case 10: // SHC
		if a.nCon == 0 {
			return
		}
		if a.zp[2] == 0 {
			a.setZone(2, 1)
		}
		op := a.shiftOp(0x34)
		a.opArgs(op, t.Int(0, a.nCon-1))
	case 11: // SHZ
		op := a.shiftOp(0x36)
		a.opArgs(op, a.zp[2])
	case 12: // SHPIX
		a.loopPoints(2, 0x38, a.dist())
	case 13: // IP
		a.rpFor(1, 0)
		a.rpFor(2, 1)
		if a.rp[1] == a.rp[2] && a.zp[0] == a.zp[1] {
			return
		}
		a.loopPoints(2, 0x39)
	case 14: // ALIGNRP
		a.rpFor(0, 0)
		a.loopPoints(1, 0x3c)
	case 15: // ALIGNPTS
		a.opArgs(0x27, a.common(0, 1), a.common(0, 1))
	case 16: // UTP
		a.opArgs(0x29, a.point(0))
	case 17: // IUP
		a.op(pbt.Pick[byte](t, 0x30, 0x31))
	case 18: // ISECT
		a.opArgs(0x0f, a.point(2), a.point(1), a.point(1), a.point(0), a.point(0))
	case 19: // SCFS
		a.opArgs(0x48, a.point(2), a.dist())
	case 20: // flags
		switch t.Int(0, 2) {
		case 0:
			zp := a.zp
			a.zp[2] = 1 // FLIPPT works on the glyph zone
			a.loopPoints(2, 0x80)
			a.zp = zp
		default:
			lo := t.Int(0, a.nPts-1)
			a.opArgs(pbt.Pick[byte](t, 0x81, 0x82), lo, t.Int(max(0, lo-1), a.nPts-1))
		}
	case 21: // DELTAP
		n := t.Int(1, 3)
		if t.Chance(1, 40) {
			n = t.Int(4, 300)
		}
		var args []int
		for i := 0; i < n; i++ {
			args = append(args, t.Int(0, 255), a.point(0))
		}
		a.opArgs(pbt.Pick[byte](t, 0x5d, 0x71, 0x72), append(args, n)...)
	case 22: // GC, GPV, GFV
		if t.Chance(1, 4) {
			a.op(pbt.Pick[byte](t, 0x0c, 0x0d))
			a.depth += 2
			return
		}
		a.opArgs(pbt.Pick[byte](t, 0x46, 0x47), a.point(2))
		a.depth++
	case 23: // MD
		i, j := a.point(0), a.point(1)
		a.opArgs(pbt.Pick[byte](t, 0x49, 0x4a), i, j)
		a.depth++
	}
}

func (a *asm) movedRel(setRP0 bool, p int) {
	a.rp[1], a.rp[2] = a.rp[0], p
	if setRP0 {
		a.rp[0] = p
	}
}

func (a *asm) shiftOp(op byte) byte {
	if a.t.Bool() {
		a.rpFor(1, 0)
		return op + 1
	}
	a.rpFor(2, 1)
	return op
}

// pblock emits n statements.
func (a *asm) pblock(n int) {
	t := a.t
	for ; n > 0; n-- {
		switch {
		case t.Chance(1, 12) && !a.scan:
			// A conditional that is taken, with another branch that is not.
			a.push(pbt.Pick(t, 1, -1, 64))
			a.op(0x58)
			a.depth--
			a.scan = true
			a.pstmt()
			a.op(0x1b)
			a.b = append(a.b, a.dead(t.Size(0, 4))...)
			a.op(0x59)
			a.scan = false
		case t.Chance(1, 10) && len(a.pfns) > 0:
			// A function of point instructions, which starts and ends with the
			// zone pointers at the glyph zone.
			f := pbt.PickS(t, a.pfns)
			if t.Chance(1, 4) {
				a.opArgs(0x2a, t.Int(1, 3), f)
			} else {
				a.opArgs(0x2b, f)
			}
			a.zp = [3]int{1, 1, 1}
			a.rp = [3]int{-1, -1, -1}
		case t.Chance(1, 10):
			a.stmt(1)
		default:
			a.pstmt()
		}
	}
}

// genPFns defines functions of point instructions.
func genPFns(t *pbt.T, fp *asm, n, nPts int) {
	for i := 0; i < n; i++ {
		body := &asm{t: t, nCVT: fp.nCVT, mult: 1, scan: true, noSet: true, nPts: nPts, nTwi: fp.nTwi, rp: [3]int{-1, -1, -1}, zp: [3]int{-1, -1, -1}}
		body.setZone(3, 1)
		for k := t.Size(1, 4); k > 0; k-- {
			body.pstmt()
		}
		body.settle(0)
		body.zonesHome()
		num := 20 + i
		fp.push(num)
		fp.op(0x2c)
		fp.b = append(fp.b, body.b...)
		fp.op(0x2d)
		fp.depth--
		fp.pfns = append(fp.pfns, num)
	}
}

func newPointAsm(t *pbt.T, f *ttf.Font, fp *asm, nPts, nCon int) *asm {
	return &asm{t: t, fns: fp.fns, pfns: fp.pfns, nCVT: len(f.CVT), nSto: f.MaxStorage, mult: 1,
		nPts: nPts + 4, nTwi: f.MaxTwilight, nCon: nCon, zp: [3]int{1, 1, 1}}
}

func (a *asm) pointProgram(n int) []byte {
	t := a.t
	a.pblock(n)
	if t.Chance(2, 3) {
		// Spread what was done to touched points.
		a.op(0x30, 0x31)
	}
	show := 4
	if a.nTwi > 0 && t.Chance(1, 2) {
		// Measure some twilight points too.
		a.opArgs(0x15, 0)
		a.zp[2] = 0
		for i := t.Int(1, 3); i > 0; i-- {
			a.op(byte(t.Int(0, 1)))
			a.opArgs(pbt.Pick[byte](t, 0x46, 0x46, 0x47), t.Int(0, a.nTwi-1))
			a.depth++
		}
		show = 5
	}
	if a.depth > 0 {
		// Show the values that were measured.
		a.export(0, min(a.depth, min(show, a.nPts-4)))
	}
	return a.b
}

func runH02(t *pbt.T) {
	f := genHintFont(t)
	f.MaxTwilight = t.Int(2, 7)
	if t.Chance(1, 40) {
		f.MaxTwilight = t.Int(250, 700)
	}
	minPts := 1 << 30
	nSimple := t.Int(1, 3)
	for i := 0; i < nSimple; i++ {
		g := genOutline(t, f.UPEM, 3, 8)
		if t.Chance(1, 40) {
			g = genOutline(t, f.UPEM, pbt.Pick(t, 3, 100), pbt.Pick(t, 8, 200))
			t.Class("many points")
		}
		f.Glyphs = append(f.Glyphs, g)
		minPts = min(minPts, len(g.Pts))
	}
	nComp := 0
	if t.Chance(1, 3) {
		nComp = t.Int(1, 2)
	}
	fp := &asm{t: t, nCVT: len(f.CVT), nSto: f.MaxStorage, nTwi: f.MaxTwilight, mult: 1, noSet: nComp > 0}
	genFns(t, fp, t.Int(0, 2))
	genPFns(t, fp, t.Int(0, 3), minPts+4)
	f.Fpgm = fp.b
	if t.Chance(1, 2) {
		// Parameters that last, and twilight points.
		pp := newPointAsm(t, f, fp, -4, 0)
		pp.pfns = nil
		pp.setZone(3, 0)
		for n := t.Size(1, 5); n > 0; n-- {
			switch t.Int(0, 4) {
			case 0:
				pp.opArgs(pbt.Pick[byte](t, 0x1a, 0x1d, 0x1e), pp.param())
			case 1:
				pp.setRound()
			case 2:
				pp.opArgs(pbt.Pick[byte](t, 0x3e, 0x3f), pp.point(0), pp.cvt())
			case 3:
				pp.opArgs(0x48, pp.point(2), pp.dist())
			case 4:
				pp.op(byte(t.Int(0, 5)))
			}
		}
		f.Prep = pp.b
	}
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		if nComp > 0 && t.Chance(1, 3) {
			continue // no program
		}
		a := newPointAsm(t, f, fp, len(g.Pts), len(g.Ends))
		a.noSet = nComp > 0
		g.Program = a.pointProgram(t.Size(1, 14))
	}
	for c := 0; c < nComp; c++ {
		f.Glyphs = append(f.Glyphs, genCompound(t, f, fp))
	}
	tf, _ := finishHintFont(t, f)
	checkPrograms(t, f, tf, 1<<19, 3)
}

// size returns a glyph's points and contours, compound glyphs included.
func glyphSize(f *ttf.Font, i int) (pts, cons int) {
	g := &f.Glyphs[i]
	if !g.Compound() {
		return len(g.Pts), len(g.Ends)
	}
	for _, c := range g.Comps {
		p, n := glyphSize(f, c.Glyph)
		pts += p
		cons += n
	}
	return
}

// genCompound makes a compound glyph of the glyphs that exist so far, with a
// program.
func genCompound(t *pbt.T, f *ttf.Font, fp *asm) ttf.Glyph {
	upem := min(f.UPEM, 16000)
	g := ttf.Glyph{Adv: t.Int(0, 2*upem)}
	umm := false
	for k := t.Int(1, 3); k > 0; k-- {
		c := genComp(t, upem, t.Int(0, len(f.Glyphs)-1))
		if umm {
			c.UseMetrics = false
		}
		umm = umm || c.UseMetrics
		g.Comps = append(g.Comps, c)
	}
	g.XMin, g.YMin, g.XMax, g.YMax = t.Sym(upem), t.Sym(upem), upem, upem
	g.LSB = g.XMin
	if t.Chance(1, 3) {
		g.LSB = t.Sym(upem)
	}
	if fp != nil && t.Chance(3, 4) {
		n, m := 0, 0
		for _, c := range g.Comps {
			p, q := glyphSize(f, c.Glyph)
			n, m = n+p, m+q
		}
		a := newPointAsm(t, f, fp, n, m)
		a.noSet = true
		g.Program = a.pointProgram(t.Size(1, 8))
	}
	return g
}

// genComp makes a component.
func genComp(t *pbt.T, upem, glyph int) ttf.Comp {
	c := ttf.Comp{Glyph: glyph, DX: t.Sym(upem), DY: t.Sym(upem), Round: t.Chance(1, 3), UseMetrics: t.Chance(1, 4)}
	if t.Chance(1, 4) {
		c.DX, c.DY = t.Sym(127), t.Sym(127)
	} else if t.Chance(1, 30) {
		c.DX, c.DY = pbt.Pick(t, t.Sym(32767), 32767, -32768, c.DX), pbt.Pick(t, t.Sym(32767), 32767, -32768, c.DY)
	}
	if t.Chance(1, 3) {
		c.Form = t.Int(1, 3)
		m := func() int16 {
			if t.Chance(1, 4) {
				return pbt.Pick[int16](t, 0x4000, -0x4000, 0x2000, 0, 0x7fff, -0x8000, 0x6000)
			}
			return int16(t.Sym(0x7fff))
		}
		c.M = [4]int16{m(), m(), m(), m()}
		if c.Form == 1 {
			c.M[3] = c.M[0]
		}
		if c.Form != 3 {
			c.M[1], c.M[2] = 0, 0
		}
	}
	return c
}
