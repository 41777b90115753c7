package props

import (
	"verif/harness/pbt"
	"verif/harness/ttf"
)

// asm builds a TrueType program, keeping track of the stack depth.
type asm struct {
	t     *pbt.T
	b     []byte
	depth int
	fns   []fnSig // functions that may be called
	nCVT  int
	nSto  int
	slot  int  // storage slots in use by loops
	deep  bool // the stack may have thousands of values
	far   bool // a jump over thousands of bytes may follow
	nPts  int  // points in the glyph zone, phantom points included
	nTwi  int
	nCon  int
	pfns  []int // functions of point instructions
	noSet bool  // neither control values nor storage may be written
	scan  bool  // inside an IF or FDEF, whose bytes are scanned
	cost  int   // upper bound on the steps taken so far
	mult  int   // how often the code being generated runs
	// point programs
	zp [3]int
	rp [3]int // -1 unknown
}

type fnSig struct{ num, in, out, cost int }

func (a *asm) op(bs ...byte) {
	a.b = append(a.b, bs...)
	a.cost += a.mult
}

// push emits a push of values in the int16 range, in a random encoding.
func (a *asm) push(vs ...int) {
	for i, v := range vs {
		if v != int(int16(v)) && v != int(uint16(v)) {
			if i > 0 {
				a.push(vs[:i]...)
			}
			a.pushN([]int{v / 64, 4096})
			a.op(0x63) // MUL
			a.pushN([]int{v % 64})
			a.op(0x60) // ADD
			a.depth -= 2
			if i+1 < len(vs) {
				a.push(vs[i+1:]...)
			}
			return
		}
	}
	for len(vs) > 0 {
		n := len(vs)
		if n > 1 && a.t.Chance(1, 4) {
			n = a.t.Int(1, n)
		}
		if n > 255 {
			n = 255
		}
		a.pushN(vs[:n])
		vs = vs[n:]
	}
}

func (a *asm) pushN(vs []int) {
	words := false
	for _, v := range vs {
		if v < 0 || v > 255 {
			words = true
		}
	}
	if !words && a.t.Chance(1, 6) {
		words = true
	}
	n := len(vs)
	switch {
	case n <= 8 && !a.t.Chance(1, 5):
		if words {
			a.op(0xb8 + byte(n-1))
		} else {
			a.op(0xb0 + byte(n-1))
		}
	case words:
		a.op(0x41, byte(n))
	default:
		a.op(0x40, byte(n))
	}
	for _, v := range vs {
		if words {
			a.b = append(a.b, byte(v>>8), byte(v))
		} else {
			a.b = append(a.b, byte(v))
		}
	}
	a.depth += n
}

// value is an interesting operand.
func (a *asm) value() int {
	t := a.t
	switch t.Weighted(5, 4, 3, 3, 2, 1) {
	case 0:
		return t.Sym(100)
	case 1:
		return 64*t.Sym(20) + pbt.Pick(t, 0, 32, 31, 33, 1, 63, 16, 15, 48)
	case 2:
		return t.Sym(4000)
	case 3:
		return t.Int(0, 8)
	case 4:
		return t.Sym(32767)
	}
	return pbt.Pick(t, 32767, -32768, -1, 64, -64, 128, 255, 256)
}

// need makes sure that there are n values on the stack.
func (a *asm) need(n int) {
	if a.depth < n {
		var vs []int
		for i := a.depth; i < n; i++ {
			vs = append(vs, a.value())
		}
		a.push(vs...)
	}
}

// settle brings the stack to the given depth.
func (a *asm) settle(d int) {
	for a.depth > d {
		if a.depth >= d+2 && a.t.Chance(1, 2) {
			a.op(pbt.Pick[byte](a.t, 0x60, 0x61, 0x8b, 0x8c))
		} else {
			a.op(0x21)
		}
		a.depth--
	}
	a.need(d)
}

const maxDepth = 60

var binaryOps = []byte{0x60, 0x61, 0x62, 0x63, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x5a, 0x5b, 0x8b, 0x8c}
var unaryOps = []byte{0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x56, 0x57, 0x5c}
var roundOps = []byte{0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d}

func (a *asm) unary() { a.need(1); a.op(pbt.PickS(a.t, unaryOps)) }

func (a *asm) setRound() {
	t := a.t
	if t.Chance(1, 3) {
		a.push(t.Int(0, 2)<<6 | t.Int(0, 63))
		a.op(pbt.Pick[byte](t, 0x76, 0x76, 0x76, 0x77))
		a.depth--
		return
	}
	a.op(pbt.PickS(t, roundOps))
}

// stmt emits one computing statement. Its net effect is known.
func (a *asm) stmt(nest int) {
	t := a.t
	if a.depth > maxDepth {
		a.settle(a.depth / 2)
	}
	w := []int{6, 6, 5, 4, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2}
	if nest <= 0 {
		w = w[:9]
	}
	if a.noSet {
		w[5] = 0
	}
	switch t.Weighted(w...) {
	case 0:
		if a.mult == 1 && t.Chance(1, 60) {
			a.pushMany()
			return
		}
		n := t.Size(1, 6)
		if t.Chance(1, 30) {
			n = t.Int(8, 20)
		}
		vs := make([]int, n)
		for i := range vs {
			vs[i] = a.value()
		}
		a.push(vs...)
	case 1: // binary
		op := pbt.PickS(t, binaryOps)
		if op == 0x62 && !t.Chance(1, 40) {
			// Divide by something that is not zero.
			v := a.value()
			if v == 0 {
				v = 64
			}
			a.need(1)
			a.push(v)
		} else if op >= 0x50 && op <= 0x55 && t.Chance(1, 3) {
			a.need(1)
			a.op(0x20) // equal operands
			a.depth++
		} else {
			a.need(2)
		}
		a.op(op)
		a.depth--
	case 2:
		a.unary()
	case 3: // stack manipulation
		switch t.Int(0, 6) {
		case 0:
			a.need(1)
			a.op(0x20)
			a.depth++
		case 1:
			a.need(2)
			a.op(0x23)
		case 2:
			a.op(0x24)
			a.depth++
		case 3:
			a.need(1)
			a.push(t.Int(1, a.depth))
			a.op(0x25)
		case 4:
			a.need(1)
			a.push(t.Int(1, a.depth))
			a.op(0x26)
			a.depth--
		case 5:
			a.need(3)
			a.op(0x8a)
		case 6:
			a.need(1)
			a.op(0x21)
			a.depth--
		}
	case 4:
		a.setRound()
	case 5: // storage and control values
		switch t.Int(0, 4) {
		case 0:
			if a.nSto > a.slot {
				a.push(a.sto(), a.value())
				a.op(0x42)
				a.depth -= 2
			}
		case 1:
			if a.nSto > a.slot {
				a.push(a.sto())
				a.op(0x43)
			}
		case 2:
			if a.nCVT > 0 {
				a.push(a.cvtIndex(), a.value())
				a.op(pbt.Pick[byte](t, 0x44, 0x70))
				a.depth -= 2
			}
		case 3:
			if a.nCVT > 0 {
				a.push(a.cvtIndex())
				a.op(0x45)
			}
		case 4:
			if a.nCVT > 0 {
				a.deltaC()
			}
		}
	case 6: // environment
		switch t.Int(0, 5) {
		case 0:
			a.op(pbt.Pick[byte](t, 0x4b, 0x4c))
			a.depth++
		case 1:
			a.push(pbt.Pick(t, 0, 1, 32, 33, 64))
			a.op(0x88)
		case 2:
			a.op(pbt.Pick[byte](t, 0x0c, 0x0d))
			a.depth += 2
		case 3:
			a.vectorConst()
		case 4:
			if t.Chance(1, 4) {
				a.push(0, t.Int(1, 2)) // INSTCTRL, with nothing inhibited
				a.op(0x8e)
				a.depth -= 2
				break
			}
			a.push(t.Int(0, 3))
			a.op(pbt.Pick[byte](t, 0x85, 0x8d, 0x7e, 0x7f))
			a.depth--
		case 5:
			if a.nSto > a.slot {
				a.push(a.sto())
				a.op(0x43)
			}
		}
	case 7:
		if t.Chance(1, 10) {
			a.op(0x22)
			a.depth = 0
		}
	case 8: // forward jump over anything
		n := t.Size(0, 12)
		if t.Chance(1, 30) {
			n = t.Int(120, 400)
		}
		if a.far && t.Chance(1, 2) {
			n = t.Int(1500, 15000)
			a.far = false // once
			if a.scan {
				n /= 6
			}
		}
		var junk []byte
		if a.scan {
			junk = a.dead(n)
			n = len(junk)
		} else {
			for i := 0; i < n; i++ {
				junk = append(junk, byte(t.Draw(256)))
			}
		}
		form := t.Int(0, 2)
		switch form {
		case 0:
			a.push(n + 1)
			a.op(0x1c)
			a.depth--
		case 1:
			a.push(n+1, pbt.Pick(t, 1, -1, 64))
			a.op(0x78)
			a.depth -= 2
		case 2:
			a.push(n+1, 0)
			a.op(0x79)
			a.depth -= 2
		}
		a.b = append(a.b, junk...)
	case 9, 10: // conditional
		a.need(1)
		if t.Chance(1, 2) {
			a.push(pbt.Pick(t, 0, 1, -1, 256))
		}
		a.op(0x58)
		a.depth--
		d0 := a.depth
		scan := a.scan
		a.scan = true
		a.block(nest-1, t.Size(0, 3))
		d1 := min(a.depth, d0+4)
		if t.Chance(2, 3) {
			a.settle(d1)
			a.op(0x1b)
			a.depth = d0
			a.block(nest-1, t.Size(0, 3))
			a.settle(d1)
		} else {
			a.settle(d0)
		}
		a.scan = scan
		a.op(0x59)
	case 11: // conditional jump over a balanced block, or a dead conditional
		if t.Chance(1, 3) {
			a.deadIf()
			return
		}
		a.need(1)
		d0 := a.depth - 1
		// The condition is under the offset: compute it first.
		sub := a.fork()
		sub.depth = d0
		sub.block(nest-1, t.Size(0, 3))
		sub.settle(d0)
		off := len(sub.b) + 1
		a.push(off)
		a.op(0x23) // swap: offset below, condition on top
		a.op(pbt.Pick[byte](t, 0x78, 0x79))
		a.depth -= 2
		a.join(sub)
	case 12: // counted loop
		if a.slot >= a.nSto || a.noSet || a.mult > 40 {
			return
		}
		n := t.Int(1, 5)
		s := a.slot
		a.push(s, n)
		a.op(0x42)
		a.depth -= 2
		a.slot++
		sub := a.fork()
		sub.mult *= n
		d0 := a.depth
		sub.block(nest-1, t.Size(1, 3))
		sub.settle(d0)
		// counter--, loop while it is not zero
		sub.push(s, s)
		sub.op(0x43)
		sub.push(1)
		sub.op(0x61, 0x42)
		sub.depth -= 3
		// A long body.
		if sub.far {
			sub.far = false
			junk := sub.dead(t.Int(200, 2500))
			sub.b = append(sub.b, 0xb8, byte((len(junk)+1)>>8), byte(len(junk)+1), 0x1c)
			sub.b = append(sub.b, junk...)
			sub.cost += 2 * sub.mult
		}
		at := 0
		switch t.Weighted(4, 1, 1) {
		case 0: // offset, condition, JROT
			sub.b = append(sub.b, 0xb8, 0, 0, 0xb0, byte(s), 0x43, 0x78)
			at = len(sub.b) - 6
		case 1: // offset, inverse condition, JROF
			sub.b = append(sub.b, 0xb8, 0, 0, 0xb0, byte(s), 0x43, 0x5c, 0x79)
			at = len(sub.b) - 7
		case 2: // leave with JROF, or go back with JMPR
			sub.b = append(sub.b, 0xb0, 5, 0xb0, byte(s), 0x43, 0x79, 0xb8, 0, 0, 0x1c)
			at = len(sub.b) - 3
		}
		off := -(len(sub.b) - 1)
		sub.b[at], sub.b[at+1] = byte(off>>8), byte(off)
		sub.cost += 8 * sub.mult
		a.join(sub)
		a.slot--
	case 13:
		a.call()
	}
}

func (a *asm) vectorConst() {
	t := a.t
	if t.Chance(1, 2) {
		a.op(byte(t.Int(0, 5)))
		return
	}
	if t.Chance(1, 3) {
		a.op(0x0e)
		return
	}
	x, y := t.Sym(0x4000), t.Sym(0x4000)
	if x == 0 && y == 0 {
		x = 0x4000
	}
	a.push(x, y)
	a.op(pbt.Pick[byte](t, 0x0a, 0x0b))
	a.depth -= 2
}

func (a *asm) fork() *asm {
	s := *a
	s.b = nil
	s.cost = 0
	return &s
}

func (a *asm) join(s *asm) {
	a.b = append(a.b, s.b...)
	a.cost += s.cost
	a.depth = s.depth
	a.far = s.far
	a.zp, a.rp = s.zp, s.rp
}

func (a *asm) block(nest, n int) {
	for ; n > 0; n-- {
		a.stmt(nest)
	}
}

// deadIf is a conditional whose branches contain arbitrary instructions that
// must be skipped.
func (a *asm) deadIf() {
	t := a.t
	dead := a.dead
	if t.Bool() {
		a.push(0)
		a.op(0x58)
		a.depth--
		a.b = append(a.b, dead(t.Size(1, 6))...)
		if t.Bool() {
			a.op(0x1b)
			a.push(a.value())
			a.op(0x21)
			a.depth--
		}
		a.op(0x59)
		return
	}
	a.push(1)
	a.op(0x58)
	a.depth--
	a.push(a.value())
	a.op(0x1b)
	a.b = append(a.b, dead(t.Size(1, 6))...)
	a.op(0x59)
}

func (a *asm) call() {
	t := a.t
	if len(a.fns) == 0 {
		return
	}
	f := pbt.PickS(t, a.fns)
	if a.cost+a.mult*f.cost*3 > 6000 {
		return
	}
	a.need(f.in)
	if f.in == f.out && t.Chance(1, 3) {
		n := t.Int(0, 3)
		a.push(n, f.num)
		a.op(0x2a)
		a.depth -= 2
		a.cost += a.mult * f.cost * n
		return
	}
	a.push(f.num)
	a.op(0x2b)
	a.depth += f.out - f.in - 1
	a.cost += a.mult * f.cost
}

// deltaC emits DELTAC pairs, some of which apply at about the current size.
func (a *asm) deltaC() {
	t := a.t
	n := t.Int(1, 3)
	var vs []int
	for i := 0; i < n; i++ {
		vs = append(vs, t.Int(0, 255), a.cvt())
	}
	vs = append(vs, n)
	a.push(vs...)
	a.op(0x73 + byte(t.Int(0, 2)))
	a.depth -= len(vs)
}

// genFns writes function definitions: pure computations with known effects.
// Each function can call the earlier ones.
func genFns(t *pbt.T, a *asm, n int) {
	for i := 0; i < n; i++ {
		num := i
		switch t.Int(0, 11) {
		case 0, 1:
			num = 40 + i
		case 2:
			num = 256 + i
		case 3:
			num = 256*t.Int(1, 100) + i
		}
		if i > 0 && num >= 256 {
			num -= t.Int(0, 1) // of another function, but for the high byte
		}
		for _, g := range a.fns {
			if g.num == num {
				num = 60 + i
			}
		}
		f := fnSig{num: num, in: t.Int(0, 3)}
		body := &asm{t: t, depth: f.in, fns: a.fns, nCVT: a.nCVT, nSto: a.nSto, slot: 4, mult: 1, scan: true}
		body.block(2, t.Size(1, 4))
		f.out = min(body.depth, f.in+2)
		if t.Chance(1, 3) {
			f.out = f.in
		}
		body.settle(f.out)
		f.cost = body.cost + 2
		// A function sees only its arguments plus whatever is below, so
		// instructions that look at the whole stack are fine: the
		// reference sees the same stack.
		a.push(f.num)
		a.op(0x2c)
		a.b = append(a.b, body.b...)
		a.op(0x2d)
		a.depth--
		a.fns = append(a.fns, f)
	}
}

// cvtIndex is the number of a control value, or now and then of none.
func (a *asm) cvtIndex() int {
	if a.t.Chance(1, 40) {
		return pbt.Pick(a.t, a.nCVT, -1, a.nCVT+1, 32767)
	}
	return a.cvt()
}

// few is one of the numbers from lo to hi: of a few at the ends, and of those
// that differ from them in the high byte only.
func (a *asm) few(lo, hi int) int {
	i := a.t.Int(lo, min(hi, lo+15))
	if hi > lo+15 {
		switch a.t.Int(0, 3) {
		case 0:
			i = min(hi, i+256)
		case 1:
			i = max(lo, hi-a.t.Int(0, 3))
		}
	}
	return i
}

func (a *asm) cvt() int { return a.few(0, a.nCVT-1) }
func (a *asm) sto() int { return a.few(a.slot, a.nSto-1) }

// pushMany pushes more values than fit into seven bits by one instruction,
// brings up some of them and drops the rest again.
func (a *asm) pushMany() {
	t := a.t
	d := a.depth
	vs := make([]int, t.Int(100, 255))
	small := t.Bool()
	for i := range vs {
		if vs[i] = t.Sym(40); small {
			vs[i] = t.Int(0, 255)
		}
	}
	a.pushN(vs)
	if a.deep && t.Chance(1, 4) {
		// Thousands of values.
		a.deep = false // once
		t.Class("a stack of thousands")
		for k := pbt.Pick(t, t.Int(1, 30), t.Int(30, 70)); k > 0; k-- {
			for i := range vs {
				vs[i] = (k*31 + i*7) & 255
			}
			a.pushN(vs)
		}
	}
	for k := t.Int(0, 2); k > 0; k-- {
		a.push(t.Int(1, a.depth))
		a.op(pbt.Pick[byte](t, 0x25, 0x26))
		if a.b[len(a.b)-1] == 0x26 {
			a.depth--
		}
	}
	a.settle(d + 1)
}

// recurse defines a function that calls itself, and one that calls it.
func (a *asm) recurse() {
	t := a.t
	n := pbt.Pick(t, 30, 29, 24, 16, 15, t.Int(0, 30))
	const num = 100
	a.push(num)
	a.op(0x2c)
	a.op(0x20, 0x58)                                                      // DUP IF
	a.op(0xb0, 1, 0x61, 0xb0, num, 0x2b, 0xb0, byte(t.Int(1, 255)), 0x60) // call for one less, and add
	a.op(0x59, 0x2d)
	a.depth--
	a.push(num + 1)
	a.op(0x2c, 0xb1, byte(n), num, 0x2b, 0x2d)
	a.depth--
	a.fns = append(a.fns, fnSig{num: num + 1, out: 1, cost: 10*n + 10})
}

// export writes the top n stack values into the Y co-ordinates of the points
// from..from+n-1 (the last value into the first point).
func (a *asm) export(from, n int) {
	// All zone pointers to the glyph zone, both vectors along Y.
	a.push(1)
	a.op(0x16)
	a.depth--
	a.op(0x00)
	for i := 0; i < n; i++ {
		a.push(from + i)
		a.op(0x23, 0x48)
		a.depth -= 2
	}
}

// genOutline makes a simple glyph of the given size range.
func genOutline(t *pbt.T, upem, maxContours, maxPts int) ttf.Glyph {
	var g ttf.Glyph
	upem = min(upem, 16000)
	n := t.Int(1, maxContours)
	coord := func() int {
		switch t.Weighted(4, 1, 1) {
		case 0:
			return t.Sym(upem)
		case 1:
			return t.Sym(8)
		}
		if len(g.Pts) > 0 {
			p := pbt.PickS(t, g.Pts)
			return p.X
		}
		return 0
	}
	for c := 0; c < n; c++ {
		k := t.Int(1, maxPts)
		for i := 0; i < k; i++ {
			g.Pts = append(g.Pts, ttf.Pt{X: coord(), Y: coord(), On: !t.Chance(1, 3)})
		}
		g.Ends = append(g.Ends, len(g.Pts))
	}
	g.SetBox()
	g.Adv = t.Int(0, 2*upem)
	g.LSB = g.XMin
	if t.Chance(1, 3) {
		g.LSB += t.Sym(upem / 4)
	}
	return g
}

// cmapFor makes a plain character map: rune first+i is glyph i+1.
func cmapFor(first, n int) []ttf.CmapSub {
	segs := []ttf.Seg4{}
	if n > 1 {
		segs = append(segs, ttf.Seg4{Start: first, End: first + n - 2, Delta: (1 - first) & 0xffff})
	}
	segs = append(segs, ttf.Seg4{Start: 0xffff, End: 0xffff, Delta: 1})
	return []ttf.CmapSub{{PID: 0, PSID: 3, Data: ttf.EncodeFormat4(ttf.Plain, segs)}}
}

// dead returns instructions that are never run, only scanned.
func (a *asm) dead(n int) []byte {
	t := a.t
	var b []byte
	open := 0
	for ; n > 0; n-- {
		switch t.Int(0, 3) {
		case 0: // push with confusing data
			k := t.Int(1, 8)
			if t.Chance(1, 30) {
				k = t.Int(100, 255)
				b = append(b, 0x40, byte(k))
			} else if t.Bool() {
				b = append(b, 0xb0+byte(k-1))
			} else {
				b = append(b, 0x40, byte(k))
			}
			for ; k > 0; k-- {
				b = append(b, pbt.Pick[byte](t, 0x58, 0x59, 0x1b, 0x2d, 0x2c, 0, 0xb0))
			}
		case 1:
			k := t.Int(1, 4)
			if t.Chance(1, 30) {
				k = t.Int(100, 255)
				b = append(b, 0x41, byte(k))
			} else if t.Bool() {
				b = append(b, 0xb8+byte(k-1))
			} else {
				b = append(b, 0x41, byte(k))
			}
			for k *= 2; k > 0; k-- {
				b = append(b, pbt.Pick[byte](t, 0x58, 0x59, 0x1b, 0x2d, 0x2c, 0, 0xb8))
			}
		case 2:
			if open < 3 {
				b = append(b, 0x58)
				if t.Bool() {
					b = append(b, 0x21, 0x1b, 0x60)
				}
				open++
			}
		case 3:
			op := byte(t.Draw(0xb0))
			switch op {
			case 0x40, 0x41, 0x58, 0x59, 0x1b, 0x2c, 0x2d, 0x89:
				op = 0x63
			}
			b = append(b, op)
		}
	}
	for ; open > 0; open-- {
		b = append(b, 0x59)
	}
	return b
}
