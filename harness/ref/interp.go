package ref

import (
	"errors"
	"math"

	"verif/harness/ttf"
)

// An independent TrueType interpreter, written from the instruction set
// manual, over 64-bit integers. Coordinates are 26.6.

type hpt struct {
	x, y       int
	on, tx, ty bool
}

type vec struct{ x, y int } // 2.14

type zone struct {
	cur, org, orus []hpt
	scaled         bool // orus is already in pixels
	ends           []int
}

type gstate struct {
	pv, fv, dv           vec
	rp, zp               [3]int
	cutIn, swCutIn, sw   int
	deltaBase, deltaSh   int
	minDist, loop        int
	period, phase, thres int
	super45              bool
	autoFlip             bool
}

var defaultGS = gstate{
	pv: vec{0x4000, 0}, fv: vec{0x4000, 0}, dv: vec{0x4000, 0},
	zp: [3]int{1, 1, 1}, cutIn: 68, deltaBase: 9, deltaSh: 3, minDist: 64, loop: 1,
	period: 64, thres: 32, autoFlip: true,
}

// Hinter is the state of one font at one scale after its font and
// control-value programs have run.
type Hinter struct {
	f     *ttf.Font
	scale int
	fns   map[int][]byte
	cvt   []int
	store []int
	twi   zone
	gs    gstate
	Err   error
	// Ambiguous is set when something happened whose effect the manual
	// leaves open.
	Ambiguous string
	Steps     int
	Executed  *[256]int
	limit     int
}

type vm struct {
	h     *Hinter
	st    []int32
	gs    gstate
	z     [2]*zone
	glyph bool
}

var errInterp = errors.New("interpreter error")

func bad(s string) { panic(interpErr{errors.New(s)}) }

type interpErr struct{ error }

func NewHinter(f *ttf.Font, scale int) *Hinter { return NewHinterLimit(f, scale, 1<<21) }

// NewHinterLimit sets the co-ordinates beyond which a result is called ambiguous.
func NewHinterLimit(f *ttf.Font, scale, limit int) *Hinter {
	h := &Hinter{f: f, scale: scale, fns: map[int][]byte{}, gs: defaultGS, limit: limit}
	n := f.MaxTwilight + 4
	fresh := func() {
		h.cvt = make([]int, len(f.CVT))
		for i, v := range f.CVT {
			h.cvt[i] = h.scaled(int(v))
		}
		h.store = make([]int, f.MaxStorage)
		h.twi = zone{cur: make([]hpt, n), org: make([]hpt, n), orus: make([]hpt, n)}
	}
	fresh()
	none := &zone{}
	if len(f.Fpgm) > 0 {
		if _, err := h.run(f.Fpgm, none, false); err != nil {
			h.Err = err
			return h
		}
	}
	fresh()
	if len(f.Prep) > 0 {
		gs, err := h.run(f.Prep, none, false)
		if err != nil {
			h.Err = err
			return h
		}
		d := defaultGS
		gs.pv, gs.fv, gs.dv, gs.rp, gs.zp, gs.loop = d.pv, d.fv, d.dv, d.rp, d.zp, d.loop
		h.gs = gs
	}
	return h
}

// Fork returns a hinter for one load: what it writes does not reach h.
func (h *Hinter) Fork() *Hinter {
	g := *h
	g.cvt = append([]int(nil), h.cvt...)
	g.store = append([]int(nil), h.store...)
	g.twi.cur = append([]hpt(nil), h.twi.cur...)
	g.twi.org = append([]hpt(nil), h.twi.org...)
	g.twi.orus = append([]hpt(nil), h.twi.orus...)
	return &g
}

func (h *Hinter) ppem() int { return (h.scale + 32) >> 6 }

// scaled converts a distance in font units to pixels. The product must fit
// in 32 bits.
func (h *Hinter) scaled(v int) int {
	if p := abs(v * h.scale); p+h.f.UPEM/2 >= 1<<31 {
		h.amb("scaled value beyond 32 bits")
	}
	return h.f.Scale(v, h.scale)
}

func (h *Hinter) amb(s string) {
	if h.Ambiguous == "" {
		h.Ambiguous = s
	}
}

func (h *Hinter) run(prog []byte, glyph *zone, isGlyph bool) (gs gstate, err error) {
	m := &vm{h: h, gs: h.gs, z: [2]*zone{&h.twi, glyph}, glyph: isGlyph}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(interpErr); ok {
				err = e.error
				return
			}
			panic(r)
		}
	}()
	m.exec(prog, 0)
	return m.gs, nil
}

func (m *vm) pop() int {
	if len(m.st) == 0 {
		bad("stack underflow")
	}
	v := m.st[len(m.st)-1]
	m.st = m.st[:len(m.st)-1]
	return int(v)
}

func (m *vm) push(v int) {
	if len(m.st) >= m.h.f.MaxStack {
		if len(m.st) > m.h.f.MaxStack+400 {
			bad("stack overflow")
		}
		m.h.amb("stack overflow")
	}
	m.st = append(m.st, int32(v))
}

func divRound(a, b int) int { // nearest, halves away from zero
	if b < 0 {
		a, b = -a, -b
	}
	if a >= 0 {
		return (a + b/2) / b
	}
	return -((-a + b/2) / b)
}

func dot(x, y int, v vec) int {
	n := x*v.x + y*v.y
	if n >= 0 {
		return (n + 0x2000) >> 14
	}
	return -((-n + 0x2000) >> 14)
}

func unit(x, y int) vec {
	l := math.Hypot(float64(x), float64(y))
	return vec{int(math.Round(float64(x) * (0x4000 / l))), int(math.Round(float64(y) * (0x4000 / l)))}
}

func (m *vm) round(x int) int {
	g := &m.gs
	if g.period == 0 {
		return x
	}
	a := x
	if a < 0 {
		a = -a
	}
	v := a - g.phase + g.thres
	if g.super45 {
		v = v / g.period * g.period
	} else {
		v = v &^ (g.period - 1)
	}
	if v < 0 && x != 0 {
		v = 0
	}
	v += g.phase
	if x < 0 {
		return -v
	}
	return v
}

const (
	zCur = iota
	zOrg
	zOrus
)

func (m *vm) pt(zp, kind, i int) *hpt {
	z := m.z[m.gs.zp[zp]]
	a := z.cur
	switch kind {
	case zOrg:
		a = z.org
	case zOrus:
		a = z.orus
	}
	if i < 0 || i >= len(a) {
		bad("point out of range")
	}
	return &a[i]
}

func (m *vm) fdotp() int {
	d := (m.gs.pv.x*m.gs.fv.x + m.gs.pv.y*m.gs.fv.y) >> 14
	if d > -0x400 && d < 0x400 {
		return 0x4000
	}
	return d
}

// move moves a point along the freedom vector so that its projection changes
// by d.
func (m *vm) move(p *hpt, d int, touch bool) {
	fp := m.fdotp()
	if f := m.gs.fv; f.x != 0 && f.y != 0 && (abs(f.x) == 0x4000 || abs(f.y) == 0x4000) {
		// The vector is all but axis-parallel, and may be taken for that.
		m.h.amb("near-axis vector")
	}
	if m.gs.fv.x != 0 {
		p.x += divRound(m.gs.fv.x*d, fp)
		p.tx = p.tx || touch
	}
	if m.gs.fv.y != 0 {
		p.y += divRound(m.gs.fv.y*d, fp)
		p.ty = p.ty || touch
	}
	m.sane(p)
}

func (m *vm) sane(p *hpt) {
	if l := m.h.limit; p.x > l || p.x < -l || p.y > l || p.y < -l {
		m.h.amb("coordinates out of the sensible range")
	}
}

func (m *vm) proj(a, b *hpt) int  { return dot(a.x-b.x, a.y-b.y, m.gs.pv) }
func (m *vm) dproj(a, b *hpt) int { return dot(a.x-b.x, a.y-b.y, m.gs.dv) }

// origDist is the original distance between point i in zone pointer a and point j in zone pointer b.
func (m *vm) origDist(a, i, b, j int) int {
	if m.gs.zp[a] == 0 || m.gs.zp[b] == 0 {
		return m.dproj(m.pt(a, zOrg, i), m.pt(b, zOrg, j))
	}
	d := m.dproj(m.pt(a, zOrus, i), m.pt(b, zOrus, j))
	if m.z[1].scaled {
		return d
	}
	return m.h.scaled(d)
}

func (m *vm) cvt(i int) int {
	if i < 0 || i >= len(m.h.cvt) {
		m.h.amb("control value out of range")
		return 0
	}
	return m.h.cvt[i]
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// skip returns the index of the next instruction.
func skip(p []byte, i int) int {
	if i >= len(p) {
		bad("end of program")
	}
	op := p[i]
	switch {
	case op == 0x40 || op == 0x41:
		if i+1 >= len(p) {
			bad("end of program")
		}
		return i + 2 + int(p[i+1])*(1+int(op-0x40))
	case op >= 0xb0 && op <= 0xb7:
		return i + 2 + int(op-0xb0)
	case op >= 0xb8 && op <= 0xbf:
		return i + 3 + 2*int(op-0xb8)
	}
	return i + 1
}

func (m *vm) loop(f func(i int)) {
	if len(m.st) < m.gs.loop {
		bad("stack underflow")
	}
	if m.gs.loop == 0 {
		m.h.amb("zero loop count")
	}
	for k := m.gs.loop; k > 0; k-- {
		f(m.pop())
	}
	m.gs.loop = 1
}

func (m *vm) superRound(sel, grid int) {
	g := &m.gs
	p := grid
	switch sel >> 6 & 3 {
	case 0:
		p = grid / 2
	case 2:
		p = grid * 2
	case 3:
		m.h.amb("reserved rounding period")
	}
	g.super45 = false
	g.period = p
}

func (m *vm) exec(prog []byte, depth int) {
	if depth > 32 {
		m.h.amb("deep calls")
		bad("call stack overflow")
	}
	g := &m.gs
	for pc := 0; pc < len(prog); {
		if m.h.Steps++; m.h.Steps > 30000 {
			m.h.amb("long program")
			bad("too many steps")
		}
		op := prog[pc]
		if m.h.Executed != nil {
			m.h.Executed[op]++
		}
		next := pc + 1
		if op == 0x40 || op == 0x41 || op >= 0xb0 && op <= 0xbf {
			// Pushes.
			next = skip(prog, pc)
			if next > len(prog) {
				bad("insufficient data")
			}
			p, words := pc+1, op >= 0xb8
			if op == 0x40 || op == 0x41 {
				p, words = pc+2, op == 0x41
			}
			for p < next {
				if words {
					m.push(int(int16(uint16(prog[p])<<8 | uint16(prog[p+1]))))
					p += 2
				} else {
					m.push(int(prog[p]))
					p++
				}
			}
			pc = next
			continue
		}
		switch {
		case op <= 0x05: // SVTCA SPVTCA SFVTCA
			v := vec{0, 0x4000}
			if op&1 == 1 {
				v = vec{0x4000, 0}
			}
			if op <= 3 {
				g.pv, g.dv = v, v
			}
			if op <= 1 || op >= 4 {
				g.fv = v
			}
		case op <= 0x09: // SPVTL SFVTL
			i2 := m.pop() // in zp2
			i1 := m.pop() // in zp1
			a, b := m.pt(1, zCur, i1), m.pt(2, zCur, i2)
			v := m.lineVec(a, b, op&1 == 1)
			if op <= 0x07 {
				g.pv, g.dv = v, v
			} else {
				g.fv = v
			}
		case op == 0x0a || op == 0x0b: // SPVFS SFVFS
			y, x := int(int16(m.pop())), int(int16(m.pop()))
			v := vec{}
			if x == 0 && y == 0 {
				m.h.amb("zero vector")
				v = g.pv
			} else {
				v = unit(x, y)
			}
			if op == 0x0a {
				g.pv, g.dv = v, v
			} else {
				g.fv = v
			}
		case op == 0x0c:
			m.push(g.pv.x)
			m.push(g.pv.y)
		case op == 0x0d:
			m.push(g.fv.x)
			m.push(g.fv.y)
		case op == 0x0e:
			g.fv = g.pv
		case op == 0x0f:
			m.isect()
		case op <= 0x12:
			g.rp[op-0x10] = m.pop()
		case op <= 0x15:
			g.zp[op-0x13] = m.zoneArg()
		case op == 0x16:
			z := m.zoneArg()
			g.zp = [3]int{z, z, z}
		case op == 0x17:
			v := m.pop()
			if v < 0 {
				bad("negative loop")
			}
			g.loop = v
		case op == 0x18: // RTG
			m.setRound(64, 0, 32)
		case op == 0x19: // RTHG
			m.setRound(64, 32, 32)
		case op == 0x1a:
			g.minDist = m.pop()
		case op == 0x1b: // ELSE reached after a taken IF
			next = m.skipIf(prog, next, false)
		case op == 0x1c:
			next = m.jump(prog, pc, m.pop())
		case op == 0x1d:
			g.cutIn = m.pop()
		case op == 0x1e:
			g.swCutIn = m.pop()
		case op == 0x1f:
			g.sw = m.h.scaled(m.pop())
		case op == 0x20:
			v := m.pop()
			m.push(v)
			m.push(v)
		case op == 0x21:
			m.pop()
		case op == 0x22:
			m.st = m.st[:0]
		case op == 0x23:
			a, b := m.pop(), m.pop()
			m.push(a)
			m.push(b)
		case op == 0x24:
			m.push(len(m.st))
		case op == 0x25, op == 0x26: // CINDEX MINDEX
			k := m.pop()
			if k <= 0 || k > len(m.st) {
				bad("bad stack index")
			}
			i := len(m.st) - k
			v := m.st[i]
			if op == 0x26 {
				m.st = append(m.st[:i], m.st[i+1:]...)
			}
			m.push(int(v))
		case op == 0x27: // ALIGNPTS
			j, i := m.pop(), m.pop()
			p, q := m.pt(1, zCur, i), m.pt(0, zCur, j)
			d := m.proj(q, p) / 2
			m.move(p, d, true)
			m.move(q, -d, true)
		case op == 0x29: // UTP
			p := m.pt(0, zCur, m.pop())
			if g.fv.x != 0 {
				p.tx = false
			}
			if g.fv.y != 0 {
				p.ty = false
			}
		case op == 0x2a, op == 0x2b: // LOOPCALL CALL
			f, ok := m.h.fns[m.pop()]
			if !ok {
				bad("undefined function")
			}
			n := 1
			if op == 0x2a {
				n = m.pop()
			}
			if n < 0 {
				m.h.amb("negative loop call")
			}
			for ; n > 0; n-- {
				m.exec(f, depth+1)
			}
		case op == 0x2c: // FDEF
			n := m.pop()
			if m.glyph {
				m.h.amb("FDEF in a glyph program")
			}
			e := next
			for {
				if e >= len(prog) {
					bad("unbalanced FDEF")
				}
				if prog[e] == 0x2d {
					break
				}
				if prog[e] == 0x2c || prog[e] == 0x89 {
					bad("nested FDEF")
				}
				e = skip(prog, e)
			}
			m.h.fns[n] = prog[next:e]
			next = e + 1
		case op == 0x2d:
			if depth == 0 {
				bad("ENDF outside a function")
			}
			m.h.amb("jump to ENDF")
			return
		case op == 0x2e, op == 0x2f: // MDAP
			i := m.pop()
			p := m.pt(0, zCur, i)
			d := 0
			if op == 0x2f {
				c := dot(p.x, p.y, g.pv)
				d = m.round(c) - c
			}
			m.move(p, d, true)
			g.rp[0], g.rp[1] = i, i
		case op == 0x30, op == 0x31:
			m.iup(op == 0x31)
		case op == 0x32, op == 0x33: // SHP
			if len(m.st) < g.loop {
				bad("stack underflow")
			}
			_, _, d := m.shift(op)
			m.loop(func(i int) { m.move(m.pt(2, zCur, i), d, true) })
		case op == 0x34, op == 0x35: // SHC
			c := m.pop()
			zr, r, d := m.shift(op)
			if g.zp[2] == 0 {
				m.h.amb("SHC in the twilight zone")
				bad("unimplemented")
			}
			z := m.z[1]
			if c < 0 || c >= len(z.ends) {
				bad("contour out of range")
			}
			s := 0
			if c > 0 {
				s = z.ends[c-1]
			}
			for i := s; i < z.ends[c]; i++ {
				if zr == g.zp[2] && i == r {
					continue
				}
				m.move(m.pt(2, zCur, i), d, true)
			}
		case op == 0x36, op == 0x37: // SHZ
			e := m.pop()
			if e != g.zp[2] {
				m.h.amb("SHZ of another zone")
			}
			zr, r, d := m.shift(op)
			n := len(m.z[g.zp[2]].cur)
			if g.zp[2] == 1 {
				n -= 4
			}
			for i := 0; i < n; i++ {
				if zr == g.zp[2] && i == r {
					continue
				}
				m.move(m.pt(2, zCur, i), d, false)
			}
		case op == 0x38: // SHPIX
			d := m.pop()
			m.loop(func(i int) {
				p := m.pt(2, zCur, i)
				if g.fv.x != 0 {
					p.x += dot(d, 0, vec{g.fv.x, 0})
					p.tx = true
				}
				if g.fv.y != 0 {
					p.y += dot(0, d, vec{0, g.fv.y})
					p.ty = true
				}
				m.sane(p)
			})
		case op == 0x39:
			m.ip()
		case op == 0x3a, op == 0x3b: // MSIRP
			d, i := m.pop(), m.pop()
			ref, p := m.pt(0, zCur, g.rp[0]), m.pt(1, zCur, i)
			if g.zp[1] == 0 {
				// A twilight point is put at its place in the original outline too.
				ro, po := m.pt(0, zOrg, g.rp[0]), m.pt(1, zOrg, i)
				po.x, po.y = ro.x, ro.y
				fp := m.fdotp()
				if g.fv.x != 0 {
					po.x += divRound(g.fv.x*d, fp)
				}
				if g.fv.y != 0 {
					po.y += divRound(g.fv.y*d, fp)
				}
				p.x, p.y = po.x, po.y
			}
			m.move(p, d-m.proj(p, ref), true)
			g.rp[1], g.rp[2] = g.rp[0], i
			if op&1 == 1 {
				g.rp[0] = i
			}
		case op == 0x3c: // ALIGNRP
			ref := m.pt(0, zCur, g.rp[0])
			m.loop(func(i int) {
				p := m.pt(1, zCur, i)
				m.move(p, -m.proj(p, ref), true)
			})
		case op == 0x3d: // RTDG
			m.setRound(32, 0, 16)
		case op == 0x3e, op == 0x3f: // MIAP
			d, i := m.cvt(m.pop()), m.pop()
			p := m.pt(0, zCur, i)
			if g.zp[0] == 0 {
				if g.fv.x != 0 && g.fv.y != 0 {
					m.h.amb("MIAP rounding")
				}
				o := m.pt(0, zOrg, i)
				o.x, o.y = d*g.fv.x>>14, d*g.fv.y>>14
				p.x, p.y = o.x, o.y
			}
			c := dot(p.x, p.y, g.pv)
			if op == 0x3f {
				if abs(d-c) > g.cutIn {
					d = c
				}
				d = m.round(d)
			}
			m.move(p, d-c, true)
			g.rp[0], g.rp[1] = i, i
		case op == 0x42: // WS
			v, i := m.pop(), m.pop()
			if i < 0 || i >= len(m.h.store) {
				m.storeRange(i)
			}
			m.h.store[i] = v
		case op == 0x43: // RS
			i := m.pop()
			if i < 0 || i >= len(m.h.store) {
				m.storeRange(i)
			}
			m.push(m.h.store[i])
		case op == 0x44: // WCVTP
			// As in C Freetype, there is no error if there is no such value.
			v, i := m.pop(), m.pop()
			if i >= 0 && i < len(m.h.cvt) {
				m.h.cvt[i] = v
			}
		case op == 0x45:
			v, i := 0, m.pop()
			if i >= 0 && i < len(m.h.cvt) {
				v = m.h.cvt[i]
			}
			m.push(v)
		case op == 0x46: // GC
			p := m.pt(2, zCur, m.pop())
			m.push(dot(p.x, p.y, g.pv))
		case op == 0x47:
			p := m.pt(2, zOrg, m.pop())
			m.push(dot(p.x, p.y, g.dv))
		case op == 0x48: // SCFS
			v, i := m.pop(), m.pop()
			p := m.pt(2, zCur, i)
			m.move(p, v-dot(p.x, p.y, g.pv), true)
			if g.zp[2] == 0 {
				o := m.pt(2, zOrg, i)
				o.x, o.y = p.x, p.y
			}
		case op == 0x49: // MD, grid-fitted
			j, i := m.pop(), m.pop()
			m.push(m.proj(m.pt(0, zCur, i), m.pt(1, zCur, j)))
		case op == 0x4a: // MD, original
			j, i := m.pop(), m.pop()
			m.push(m.origDist(0, i, 1, j))
		case op == 0x4b, op == 0x4c: // MPPEM MPS
			m.push(m.h.ppem())
		case op == 0x4d:
			g.autoFlip = true
		case op == 0x4e:
			g.autoFlip = false
		case op >= 0x50 && op <= 0x55:
			b, a := m.pop(), m.pop()
			m.push(b2i([]bool{a < b, a <= b, a > b, a >= b, a == b, a != b}[op-0x50]))
		case op == 0x56, op == 0x57: // ODD EVEN
			odd := m.round(m.pop())&64 != 0
			m.push(b2i(odd == (op == 0x56)))
		case op == 0x58: // IF
			if m.pop() == 0 {
				next = m.skipIf(prog, next, true)
			}
		case op == 0x59:
		case op == 0x5a:
			b, a := m.pop(), m.pop()
			m.push(b2i(a != 0 && b != 0))
		case op == 0x5b:
			b, a := m.pop(), m.pop()
			m.push(b2i(a != 0 || b != 0))
		case op == 0x5c:
			m.push(b2i(m.pop() == 0))
		case op == 0x5d:
			m.delta(0, false)
		case op == 0x5e:
			g.deltaBase = m.pop()
		case op == 0x5f:
			g.deltaSh = m.pop()
			if g.deltaSh < 0 || g.deltaSh > 6 {
				bad("delta shift")
			}
		case op == 0x60:
			b, a := m.pop(), m.pop()
			m.push(a + b)
		case op == 0x61:
			b, a := m.pop(), m.pop()
			m.push(a - b)
		case op == 0x62:
			b, a := m.pop(), m.pop()
			if b == 0 {
				bad("division by zero")
			}
			q := a * 64 / b
			if q != int(int32(q)) {
				m.h.amb("overflow")
			}
			m.push(q)
		case op == 0x63:
			b, a := m.pop(), m.pop()
			if a*b < 0 && (a*b)&63 == 32 {
				m.h.amb("product half way")
			}
			q := (a*b + 32) >> 6
			if q != int(int32(q)) {
				m.h.amb("overflow")
			}
			m.push(q)
		case op == 0x64:
			m.push(abs(m.pop()))
		case op == 0x65:
			m.push(-m.pop())
		case op == 0x66:
			m.push(m.pop() &^ 63)
		case op == 0x67:
			m.push((m.pop() + 63) &^ 63)
		case op >= 0x68 && op <= 0x6b:
			m.push(m.round(m.pop()))
		case op >= 0x6c && op <= 0x6f:
			m.push(m.pop())
		case op == 0x70: // WCVTF
			// As in C Freetype, there is no error if there is no such value.
			v, i := m.pop(), m.pop()
			if i >= 0 && i < len(m.h.cvt) {
				m.h.cvt[i] = m.h.scaled(v)
			}
		case op == 0x71, op == 0x72:
			m.delta(16*int(op-0x70), false)
		case op >= 0x73 && op <= 0x75:
			m.delta(16*int(op-0x73), true)
		case op == 0x76, op == 0x77: // SROUND S45ROUND
			sel := m.pop()
			grid := 64
			p := grid
			switch sel >> 6 & 3 {
			case 0:
				p = 32
			case 2:
				p = 128
			case 3:
				m.h.amb("reserved rounding period")
			}
			if op == 0x77 {
				p = p * 46341 / 65536
			}
			th := p - 1
			if t := sel & 15; t != 0 {
				th = (t - 4) * p / 8
			}
			m.setRound(p, p*(sel>>4&3)/4, th)
			g.super45 = op == 0x77
		case op == 0x78, op == 0x79: // JROT JROF
			c := m.pop()
			off := m.pop()
			if (c != 0) == (op == 0x78) {
				next = m.jump(prog, pc, off)
			}
		case op == 0x7a:
			m.setRound(0, 0, 0)
		case op == 0x7c:
			m.setRound(64, 0, 63)
		case op == 0x7d:
			m.setRound(64, 0, 0)
		case op == 0x7e, op == 0x7f, op == 0x85, op == 0x8d: // SANGW AA SCANCTRL SCANTYPE
			m.pop()
		case op == 0x80: // FLIPPT
			m.loop(func(i int) {
				c := m.z[1].cur
				if i < 0 || i >= len(c) {
					bad("point out of range")
				}
				c[i].on = !c[i].on
			})
		case op == 0x81, op == 0x82: // FLIPRGON FLIPRGOFF
			hi, lo := m.pop(), m.pop()
			c := m.z[1].cur
			if lo < 0 || lo >= len(c) || hi < 0 || hi >= len(c) {
				bad("point out of range")
			}
			for i := lo; i <= hi; i++ {
				c[i].on = op == 0x81
			}
		case op == 0x86, op == 0x87: // SDPVTL
			i2 := m.pop()
			i1 := m.pop()
			oa, ob := m.pt(1, zOrg, i1), m.pt(2, zOrg, i2)
			ca, cb := m.pt(1, zCur, i1), m.pt(2, zCur, i2)
			if op == 0x87 && oa.x == ob.x && oa.y == ob.y {
				m.h.amb("degenerate dual vector")
			}
			g.dv = m.lineVec(oa, ob, op == 0x87)
			g.pv = m.lineVec(ca, cb, op == 0x87)
		case op == 0x88: // GETINFO
			sel, r := m.pop(), 0
			if sel&1 != 0 {
				r |= 35
			}
			if sel&32 != 0 {
				r |= 1 << 12
			}
			m.push(r)
		case op == 0x8a: // ROLL
			a, b, c := m.pop(), m.pop(), m.pop()
			m.push(b)
			m.push(a)
			m.push(c)
		case op == 0x8b:
			b, a := m.pop(), m.pop()
			m.push(max(a, b))
		case op == 0x8c:
			b, a := m.pop(), m.pop()
			m.push(min(a, b))
		case op == 0x8e: // INSTCTRL: not supported, has no effect
			m.pop()
			m.pop()
		case op >= 0xe0:
			m.mirp(op)
		case op >= 0xc0:
			m.mdrp(op)
		default:
			bad("unknown instruction")
		}
		pc = next
	}
}

func (m *vm) storeRange(i int) {
	if i >= 0 && i < (len(m.h.store)+15)&^15 {
		m.h.amb("storage just out of range")
	}
	bad("storage index out of range")
}

func (m *vm) setRound(period, phase, thres int) {
	m.gs.period, m.gs.phase, m.gs.thres, m.gs.super45 = period, phase, thres, false
}

func (m *vm) zoneArg() int {
	z := m.pop()
	if z != 0 && z != 1 {
		bad("bad zone")
	}
	return z
}

func (m *vm) jump(prog []byte, pc, off int) int {
	t := pc + off
	if t < 0 || t > len(prog) || off == 0 {
		m.h.amb("jump out of the program")
		bad("bad jump")
	}
	return t
}

// skipIf returns the index of the instruction to go on with.
func (m *vm) skipIf(prog []byte, i int, stopAtElse bool) int {
	depth := 0
	for {
		if i >= len(prog) {
			bad("unbalanced IF")
		}
		switch prog[i] {
		case 0x58:
			depth++
		case 0x1b:
			if depth == 0 && stopAtElse {
				return i + 1
			}
		case 0x59:
			if depth == 0 {
				return i + 1
			}
			depth--
		}
		i = skip(prog, i)
	}
}

func (m *vm) lineVec(a, b *hpt, perp bool) vec {
	x, y := a.x-b.x, a.y-b.y
	if x == 0 && y == 0 {
		return vec{0x4000, 0}
	}
	if perp {
		x, y = -y, x
	}
	return unit(x, y)
}

func (m *vm) isect() {
	b1, b0, a1, a0, i := m.pop(), m.pop(), m.pop(), m.pop(), m.pop()
	p := m.pt(2, zCur, i)
	A0, A1 := *m.pt(1, zCur, a0), *m.pt(1, zCur, a1)
	B0, B1 := *m.pt(0, zCur, b0), *m.pt(0, zCur, b1)
	dbx, dby := B1.x-B0.x, B1.y-B0.y
	dax, day := A1.x-A0.x, A1.y-A0.y
	dx, dy := B0.x-A0.x, B0.y-A0.y
	disc := divRound(dax*-dby, 64) + divRound(day*dbx, 64)
	dp := divRound(dax*dbx, 64) + divRound(day*dby, 64)
	if 19*abs(disc) > abs(dp) {
		v := divRound(dx*-dby, 64) + divRound(dy*dbx, 64)
		p.x = A0.x + divRound(v*dax, disc)
		p.y = A0.y + divRound(v*day, disc)
	} else {
		p.x = (A0.x + A1.x + B0.x + B1.x) / 4
		p.y = (A0.y + A1.y + B0.y + B1.y) / 4
	}
	p.tx, p.ty = true, true
	m.sane(p)
}

// shift is the reference point's displacement.
func (m *vm) shift(op byte) (zone, ref, d int) {
	zp, r := 1, m.gs.rp[2]
	if op&1 == 1 {
		zp, r = 0, m.gs.rp[1]
	}
	return m.gs.zp[zp], r, m.proj(m.pt(zp, zCur, r), m.pt(zp, zOrg, r))
}

func (m *vm) ip() {
	g := &m.gs
	if len(m.st) < g.loop {
		bad("stack underflow")
	}
	kind := zOrus
	if g.zp[0] == 0 || g.zp[1] == 0 || g.zp[2] == 0 {
		kind = zOrg
	}
	ob, cb := *m.pt(0, kind, g.rp[1]), *m.pt(0, zCur, g.rp[1])
	oldR := m.dproj(m.pt(1, kind, g.rp[2]), &ob)
	curR := m.proj(m.pt(1, zCur, g.rp[2]), &cb)
	cbp := m.pt(0, zCur, g.rp[1])
	m.loop(func(i int) {
		od := m.dproj(m.pt(2, kind, i), &ob)
		p := m.pt(2, zCur, i)
		cd := m.proj(p, cbp)
		nd := 0
		if od != 0 {
			if oldR == 0 {
				m.h.amb("IP with no range")
				nd = -od
			} else {
				nd = divRound(od*curR, oldR)
			}
		}
		m.move(p, nd-cd, true)
	})
}

func (m *vm) singleWidth(d int) int {
	if abs(d-m.gs.sw) < m.gs.swCutIn {
		if d >= 0 {
			return m.gs.sw
		}
		return -m.gs.sw
	}
	return d
}

func (m *vm) minimum(d, orig int, op byte) int {
	if op&8 == 0 {
		return d
	}
	if orig >= 0 {
		return max(d, m.gs.minDist)
	}
	return min(d, -m.gs.minDist)
}

func (m *vm) mdrp(op byte) {
	g := &m.gs
	i := m.pop()
	ref, p := m.pt(0, zCur, g.rp[0]), m.pt(1, zCur, i)
	orig := m.singleWidth(m.origDist(1, i, 0, g.rp[0]))
	d := orig
	if op&4 != 0 {
		d = m.round(d)
	}
	d = m.minimum(d, orig, op)
	m.move(p, d-m.proj(p, ref), true)
	g.rp[1], g.rp[2] = g.rp[0], i
	if op&16 != 0 {
		g.rp[0] = i
	}
}

func (m *vm) mirp(op byte) {
	g := &m.gs
	cv, i := m.cvt(m.pop()), m.pop()
	cv = m.singleWidth(cv)
	if g.zp[1] == 0 {
		m.h.amb("MIRP in the twilight zone")
		bad("unimplemented")
	}
	orig := m.dproj(m.pt(1, zOrg, i), m.pt(0, zOrg, g.rp[0]))
	ref, p := m.pt(0, zCur, g.rp[0]), m.pt(1, zCur, i)
	cur := m.proj(p, ref)
	if g.autoFlip && (orig < 0) != (cv < 0) {
		cv = -cv
	}
	d := cv
	if op&4 != 0 {
		if g.zp[0] == g.zp[1] && abs(cv-orig) > g.cutIn {
			d = orig
		}
		d = m.round(d)
	}
	d = m.minimum(d, orig, op)
	m.move(p, d-cur, true)
	g.rp[1], g.rp[2] = g.rp[0], i
	if op&16 != 0 {
		g.rp[0] = i
	}
}

func (m *vm) delta(base int, cvt bool) {
	n := m.pop()
	if n < 0 {
		m.h.amb("negative delta count")
		return
	}
	if 2*n > len(m.st) {
		bad("stack underflow")
	}
	for ; n > 0; n-- {
		i := m.pop()
		arg := m.pop()
		if arg < 0 || arg > 255 {
			m.h.amb("delta argument")
		}
		if m.h.ppem() != base+m.gs.deltaBase+(arg>>4&15) {
			continue
		}
		s := arg&15 - 8
		if s >= 0 {
			s++
		}
		amount := s * 64 / (1 << uint(m.gs.deltaSh&63))
		if cvt {
			if i < 0 || i >= len(m.h.cvt) {
				bad("control value out of range")
			}
			m.h.cvt[i] += amount
		} else {
			m.move(m.pt(0, zCur, i), amount, true)
		}
	}
}

func (m *vm) iup(xdir bool) {
	z := m.z[1]
	get := func(p *hpt) int {
		if xdir {
			return p.x
		}
		return p.y
	}
	set := func(p *hpt, v int) {
		if xdir {
			p.x = v
		} else {
			p.y = v
		}
	}
	touched := func(i int) bool {
		if xdir {
			return z.cur[i].tx
		}
		return z.cur[i].ty
	}
	s := 0
	for _, e := range z.ends {
		var ts []int
		for i := s; i < e; i++ {
			if touched(i) {
				ts = append(ts, i)
			}
		}
		switch {
		case len(ts) == 1:
			d := get(&z.cur[ts[0]]) - get(&z.org[ts[0]])
			for i := s; i < e; i++ {
				if i != ts[0] {
					set(&z.cur[i], get(&z.cur[i])+d)
				}
			}
		case len(ts) > 1:
			n := e - s
			for k, a := range ts {
				b := ts[(k+1)%len(ts)]
				// Points strictly between a and b, cyclically.
				for i := s + (a-s+1)%n; i != b; i = s + (i-s+1)%n {
					m.interp(z, get, set, i, a, b)
				}
			}
		}
		s = e
	}
}

func (m *vm) interp(z *zone, get func(*hpt) int, set func(*hpt, int), i, a, b int) {
	// When the wrap-around stretch is done the references are taken in the order (last, first).
	if get(&z.orus[a]) > get(&z.orus[b]) {
		a, b = b, a
	}
	ua, ub, ui := get(&z.orus[a]), get(&z.orus[b]), get(&z.orus[i])
	oa, ob, oi := get(&z.org[a]), get(&z.org[b]), get(&z.org[i])
	da, db := get(&z.cur[a])-oa, get(&z.cur[b])-ob
	switch {
	case oi <= oa:
		set(&z.cur[i], oi+da)
	case ua == ub || oi >= ob:
		set(&z.cur[i], oi+db)
	default:
		scale := divRound((ob+db-oa-da)*0x10000, ub-ua)
		set(&z.cur[i], oa+da+divRound((ui-ua)*scale, 0x10000))
	}
	m.sane(&z.cur[i])
}
