package props

import (
	"verif/harness/pbt"
	"verif/harness/ttf"
)

// genUPEM is a number of units per em.
func genUPEM(t *pbt.T) int {
	if t.Chance(1, 3) {
		return t.Int(1, 65535)
	}
	return pbt.Pick(t, 1000, 2048, 64, 16, 1024, 256, 4096, 777, 1, 16384, 65535, 2000)
}

// bigOutline is a simple glyph of any shape that the format permits.
func bigOutline(t *pbt.T, maxPts int) ttf.Glyph {
	var g ttf.Glyph
	const m = 16383
	x, y := 0, 0
	step := pbt.Pick(t, 300, 1, 40, 256, 5000, m)
	cl := func(v int) int { return max(-m, min(m, v)) }
	for c := t.Size(1, 40); c > 0 && len(g.Pts) < maxPts; c-- {
		k := t.Size(0, 12)
		switch {
		case t.Chance(1, 4):
			k = t.Size(0, 700)
		case t.Chance(1, 12):
			k = pbt.Pick(t, 255, 256, 257, 258, 259, 511, 512, 513, 514, 515, 516)
		}
		if len(g.Pts) == 0 {
			k = max(k, 1) // the first contour cannot be empty
		}
		k = min(k, maxPts-len(g.Pts))
		style := t.Int(0, 4)
		on := t.Bool()
		dx, dy := t.Sym(step), t.Sym(step)
		for ; k > 0; k-- {
			switch style {
			case 0: // anything
				x, y = t.Sym(m), t.Sym(m)
				on = t.Bool()
			case 1: // near the last
				x, y = cl(x+t.Sym(step)), cl(y+t.Sym(step))
				on = !t.Chance(1, 3)
			case 2: // axis-parallel
				if t.Bool() {
					x = cl(x + t.Sym(step))
				} else {
					y = cl(y + t.Sym(step))
				}
				on = true
			case 3: // at the edges of the short deltas
				x = cl(x + pbt.Pick(t, 0, 1, -1, 255, -255, 256, -256, 257, -257, 128, -128))
				y = cl(y + pbt.Pick(t, 0, 1, -1, 255, -255, 256, -256, 257, -257, 127, -127))
			default: // regular, for long runs of equal flags
				x, y = cl(x+dx), cl(y+dy)
			}
			g.Pts = append(g.Pts, ttf.Pt{X: x, Y: y, On: on})
		}
		g.Ends = append(g.Ends, len(g.Pts))
	}
	g.SetBox()
	return g
}

// junkProgram is any bytes, for glyphs that are loaded without hinting.
func junkProgram(t *pbt.T, n int) []byte {
	b := make([]byte, t.Size(0, n))
	for i := range b {
		b[i] = byte(t.Draw(256))
	}
	return b
}

// genMetrics gives every glyph random metrics, and the font vertical and
// device metrics tables.
func genMetrics(t *pbt.T, f *ttf.Font) {
	n := len(f.Glyphs)
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		switch t.Int(0, 3) {
		case 0:
			g.Adv, g.LSB = t.Int(0, 2*min(f.UPEM, 16000)), g.XMin
		case 1:
			g.Adv, g.LSB = t.Int(0, 2*min(f.UPEM, 16000)), t.Sym(min(f.UPEM, 16000))
		case 2:
			g.Adv, g.LSB = t.Int(0, 65535), t.Sym(32767)
		default:
			g.Adv, g.LSB = pbt.Pick(t, 0, 1, 65535, 32768, 32767), pbt.Pick(t, 0, -1, 1, 32767, -32768)
		}
	}
	f.NHMetric = n
	if t.Chance(1, 2) {
		f.NHMetric = t.Int(1, n)
	}
	f.Ascent, f.Descent = t.Sym(32767), t.Sym(32767)
	if t.Chance(2, 3) {
		f.Ascent, f.Descent = t.Int(0, min(f.UPEM, 32767)), -t.Int(0, min(f.UPEM, 32767))
	}
	f.Hdmx = nil
	genVertical(t, f)
}

// genVertical gives the font vertical metrics, or none.
func genVertical(t *pbt.T, f *ttf.Font) {
	n := len(f.Glyphs)
	f.OS2, f.VMtx = nil, nil
	if t.Chance(2, 3) {
		f.OS2 = make([]byte, pbt.Pick(t, 96, 78, 72, 73, 71, 70, 68, 64, 0))
		for i := 60; i < len(f.OS2) && i < 80; i++ {
			f.OS2[i] = byte(t.Draw(256))
		}
	}
	if t.Chance(1, 3) {
		f.VMtx = [][2]int{}
		k := n
		if t.Bool() {
			k = t.Int(0, n+2)
		}
		for ; k > 0; k-- {
			f.VMtx = append(f.VMtx, [2]int{t.Int(0, 65535), t.Sym(32767)})
		}
	}
}

// genHdmx gives the font device metrics for the sizes.
func genHdmx(t *pbt.T, f *ttf.Font, ppems ...int) {
	n := len(f.Glyphs)
	if n > 2 && t.Chance(1, 6) {
		n = 2 + 4*t.Int(0, (n-3)/4) // no padding
	}
	for _, p := range ppems {
		if p < 0 || p > 255 {
			continue
		}
		r := ttf.Hdmx{PPEM: p}
		for range n {
			r.Widths = append(r.Widths, byte(t.Draw(256)))
		}
		f.Hdmx = append(f.Hdmx, r)
	}
}

// cmapModel is a character map.
type cmapModel struct {
	fmt  int
	data []byte
	get  func(r rune) int
	// edges are runes worth asking for.
	edges []rune
	desc  string
}

func genFormat4(t *pbt.T) *cmapModel {
	m := &cmapModel{fmt: 4}
	var segs []ttf.Seg4
	pos := 0
	if t.Chance(2, 3) {
		pos = t.Int(0, 300)
	}
	maxSegs := 12
	if t.Chance(1, 20) {
		maxSegs = 300
	}
	// Now and then as much as the 16-bit fields allow: arrays far behind the
	// segments, or thousands of segments.
	maxArr, capArr, maxW, big := 300, 4000, 40, t.Weighted(150, 1, 1)
	switch big {
	case 1:
		maxArr, capArr = 25000, 28000
	case 2:
		maxSegs, maxW, capArr = 8000, 8, 0
	}
	nArr := 0
	nSegs := t.Size(0, maxSegs)
	if big == 2 {
		nSegs = t.Int(0, maxSegs)
	}
	for n := nSegs; n > 0 && pos < 0xffff; n-- {
		w := t.Size(1, maxW)
		if big == 1 && t.Chance(1, 3) {
			w = t.Int(1, 25000)
		} else if big != 2 && t.Chance(1, 10) {
			w = t.Size(1, 30000)
		}
		s := ttf.Seg4{Start: pos, End: min(pos+w-1, 0xfffe)}
		switch t.Int(0, 3) {
		case 0:
			s.Delta = int(t.Draw(65536))
		case 1:
			s.Delta = (t.Int(0, 300) - s.Start) & 0xffff
		default:
			l := s.End - s.Start + 1
			if l > maxArr || nArr+l > capArr {
				s.Delta = int(t.Draw(65536))
				break
			}
			if t.Chance(1, 3) {
				s.Delta = int(t.Draw(65536))
			}
			fill := uint32(0)
			if l > 300 {
				fill = uint32(t.Int(1, 1<<30))
				t.Class("format 4 with a long array")
			}
			for k := 0; k < l; k++ {
				if fill != 0 {
					fill = fill*1664525 + 1013904223
					s.Arr = append(s.Arr, uint16(fill>>16))
					continue
				}
				v := uint16(t.Size(0, 65535))
				if t.Chance(1, 5) {
					v = 0
				}
				s.Arr = append(s.Arr, v)
			}
			nArr += l + 1
		}
		segs = append(segs, s)
		pos = s.End + 1
		if t.Chance(2, 3) {
			pos += t.Size(0, 60000/maxSegs)
		}
	}
	last := ttf.Seg4{Start: 0xffff, End: 0xffff, Delta: 1}
	if n := len(segs); n > 0 && segs[n-1].End < 0xffff && t.Chance(1, 6) {
		last.Start = max(segs[n-1].End+1, 0xffff-t.Size(0, 60))
		last.Delta = int(t.Draw(65536))
	}
	segs = append(segs, last)
	if len(segs) > 1000 {
		t.Class("format 4 with over 1000 segments")
	}
	m.data = ttf.EncodeFormat4(t, segs)
	m.get = func(r rune) int {
		for i := range segs {
			s := &segs[i]
			if int(r) < s.Start || int(r) > s.End {
				continue
			}
			if s.Arr == nil {
				return (int(r) + s.Delta) & 0xffff
			}
			v := int(s.Arr[int(r)-s.Start])
			if v == 0 {
				return 0
			}
			return (v + s.Delta) & 0xffff
		}
		return 0
	}
	for _, s := range segs {
		m.addEdges(t, rune(s.Start), rune(s.End))
	}
	m.desc = sprintf("format 4 %.200v", segs)
	return m
}

func (m *cmapModel) addEdges(t *pbt.T, s, e rune) {
	if len(m.edges) > 300 {
		return
	}
	mid := s + rune(t.Int(0, int(min(e-s, 1<<20))))
	m.edges = append(m.edges, s-1, s, s+1, mid, e-1, e, e+1, s+0x10000, mid+0x10000, mid-0x10000, -s)
}

func genFormat12(t *pbt.T) *cmapModel {
	m := &cmapModel{fmt: 12}
	var gs []ttf.Group
	pos := 0
	if t.Chance(2, 3) {
		pos = t.Int(0, 300)
	}
	top := 0x10ffff
	if t.Chance(1, 20) {
		top = 0x7fffffff
	}
	maxGroups := 12
	if t.Chance(1, 20) {
		maxGroups = 300
	}
	for n := t.Size(0, maxGroups); n > 0 && pos <= top; n-- {
		w := t.Size(1, 40)
		if t.Chance(1, 10) {
			w = t.Size(1, 60000)
		}
		e := min(pos+w-1, top)
		g := ttf.Group{Start: uint32(pos), End: uint32(e)}
		g.Glyph = uint32(t.Size(0, 65535-(e-pos)))
		gs = append(gs, g)
		pos = e + 1
		switch t.Int(0, 3) {
		case 0:
		case 1:
			pos += t.Size(0, 100)
		case 2:
			pos += t.Size(0, top/8)
		case 3:
			pos = max(pos, 0xffff+t.Int(-3, 3))
		}
	}
	m.data = ttf.EncodeFormat12(gs)
	m.get = func(r rune) int {
		for _, g := range gs {
			if r >= 0 && uint32(r) >= g.Start && uint32(r) <= g.End {
				return int(g.Glyph + uint32(r) - g.Start)
			}
		}
		return 0
	}
	for _, g := range gs {
		m.addEdges(t, rune(g.Start), rune(g.End))
	}
	m.desc = sprintf("format 12 %.200v", gs)
	return m
}

// genCmapModel is a map of either format.
func genCmapModel(t *pbt.T) *cmapModel {
	if t.Bool() {
		return genFormat12(t)
	}
	return genFormat4(t)
}

var uniEnc = [][2]uint16{{0, 3}, {0, 4}}
var msEnc = [][2]uint16{{3, 1}, {3, 10}, {3, 0}}
var otherEnc = [][2]uint16{{1, 0}, {0, 0}, {0, 1}, {0, 2}, {0, 5}, {0, 6}, {3, 2}, {3, 3}, {2, 1}, {1, 3}, {1, 4}, {4, 3}, {3, 4}, {256, 3}, {0, 259}, {1, 1}, {1, 10}}

// encClass is 2 for the encodings to be preferred, 1 for the others that are
// to be read, 0 for those that are not.
func encClass(pid, psid uint16) int {
	for _, e := range uniEnc {
		if e == [2]uint16{pid, psid} {
			return 2
		}
	}
	for _, e := range msEnc {
		if e == [2]uint16{pid, psid} {
			return 1
		}
	}
	return 0
}

// genEncodings draws distinct encodings with at least one that is read, in
// the order the format prescribes (now and then not).
func genEncodings(t *pbt.T) [][2]uint16 {
	var es [][2]uint16
	seen := map[[2]uint16]bool{}
	add := func(e [2]uint16) {
		if !seen[e] {
			seen[e] = true
			es = append(es, e)
		}
	}
	if t.Bool() {
		add(pbt.PickS(t, uniEnc))
	} else {
		add(pbt.PickS(t, msEnc))
	}
	for k := t.Int(0, 5); k > 0; k-- {
		switch t.Int(0, 3) {
		case 0:
			add(pbt.PickS(t, uniEnc))
		case 1:
			add(pbt.PickS(t, msEnc))
		default:
			add(pbt.PickS(t, otherEnc))
		}
	}
	if t.Chance(1, 6) {
		p := t.Perm(len(es))
		o := make([][2]uint16, len(es))
		for i, j := range p {
			o[i] = es[j]
		}
		return o
	}
	for i := range es {
		for j := i; j > 0 && (es[j][0] < es[j-1][0] || es[j][0] == es[j-1][0] && es[j][1] < es[j-1][1]); j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}

// genKern makes sorted pairs of distinct glyphs.
func genKern(t *pbt.T, maxPairs int) []ttf.Pair {
	n := t.Size(0, maxPairs)
	gmax := pbt.Pick(t, 65535, 5, 40, 300)
	seen := map[uint32]bool{}
	var ps []ttf.Pair
	add := func(l, r int) {
		k := uint32(l)<<16 | uint32(r)
		if l < 0 || r < 0 || l > 65535 || r > 65535 || seen[k] || len(ps) >= n {
			return
		}
		seen[k] = true
		v := t.Sym(500)
		if t.Chance(1, 6) {
			v = pbt.Pick(t, 32767, -32768, 1, -1, 0)
		}
		ps = append(ps, ttf.Pair{L: uint16(l), R: uint16(r), V: int16(v)})
	}
	for try := 0; try < 2*n && len(ps) < n; try++ {
		l, r := t.Size(0, gmax), t.Size(0, gmax)
		add(l, r)
		if t.Chance(1, 4) {
			add(l, r+1)
		}
		if t.Chance(1, 6) {
			add(l+1, r)
		}
		if t.Chance(1, 8) {
			add(r, l)
		}
	}
	ttf.SortPairs(ps)
	return ps
}

// genNames makes naming records, sorted as the format prescribes.
func genNames(t *pbt.T) []ttf.NameRec {
	var rs []ttf.NameRec
	ids := []uint16{1, 2, 4, 0, 6, 25, 256, 65535}
	n, long := t.Size(0, 14), 24
	if t.Chance(1, 3000) {
		// More records than a byte counts.
		n, long = t.Int(200, 1500), 3
	}
	for ; n > 0; n-- {
		var e [2]uint16
		switch t.Int(0, 3) {
		case 0:
			e = pbt.PickS(t, uniEnc)
		case 1, 2:
			e = pbt.PickS(t, msEnc)
		default:
			e = pbt.PickS(t, otherEnc)
		}
		r := ttf.NameRec{PID: e[0], PSID: e[1], ID: ids[t.Int(0, 1+t.Int(0, len(ids)-2))], RawOff: -1, RawLen: -1}
		r.Lang = pbt.Pick[uint16](t, 0x409, 0, 0x407)
		for k := t.Size(0, long); k > 0; k-- {
			c := t.Int(0x20, 0x7e)
			switch t.Int(0, 7) {
			case 0:
				c = t.Int(0, 0xffff)
			case 1:
				c = pbt.Pick(t, 0x1f, 0x7f, 0x80, 0xff, 0x141, 0x4100, 0, 0x7e, 0x20, 0xffff, 0xd83d)
			}
			if e[0] == 1 {
				r.Bytes = append(r.Bytes, byte(c))
			} else {
				r.Bytes = append(r.Bytes, byte(c>>8), byte(c))
			}
		}
		if t.Chance(1, 12) {
			r.Bytes = append(r.Bytes, byte(t.Draw(256))) // odd
		}
		if t.Chance(1, 10) {
			r.RawOff = t.Int(30000, 65535)
		}
		if t.Chance(1, 16) {
			r.RawLen = t.Int(20000, 65535)
		}
		rs = append(rs, r)
	}
	less := func(a, b *ttf.NameRec) bool {
		ka := [4]uint16{a.PID, a.PSID, a.Lang, a.ID}
		kb := [4]uint16{b.PID, b.PSID, b.Lang, b.ID}
		for i := range ka {
			if ka[i] != kb[i] {
				return ka[i] < kb[i]
			}
		}
		return false
	}
	if !t.Chance(1, 6) {
		for i := range rs {
			for j := i; j > 0 && less(&rs[j], &rs[j-1]); j-- {
				rs[j], rs[j-1] = rs[j-1], rs[j]
			}
		}
	}
	return rs
}

// plainFont is a font of a few glyphs without programs.
func plainFont(t *pbt.T) *ttf.Font {
	f := &ttf.Font{UPEM: genUPEM(t)}
	f.MaxStack, f.MaxStorage, f.MaxTwilight, f.MaxFDefs = 100, 8, 4, 10
	m := min(f.UPEM, 8000)
	for n := t.Int(1, 5); n > 0; n-- {
		switch {
		case t.Chance(1, 6):
			f.Glyphs = append(f.Glyphs, ttf.Glyph{Empty: true})
		case len(f.Glyphs) > 0 && t.Chance(1, 4):
			f.Glyphs = append(f.Glyphs, genCompound(t, f, nil))
		default:
			f.Glyphs = append(f.Glyphs, genOutline(t, m, 3, 8))
		}
	}
	return f
}

// fullFont has every table, with random contents and, sometimes, programs.
func fullFont(t *pbt.T) *ttf.Font {
	var f *ttf.Font
	if t.Chance(1, 3) {
		f = mixedFont(t)
	} else {
		f = plainFont(t)
	}
	genMetrics(t, f)
	if t.Chance(1, 4) {
		genHdmx(t, f, t.Int(1, 60), t.Int(1, 60))
	}
	f.SetBounds()
	es := genEncodings(t)
	for _, e := range es {
		var data []byte
		switch {
		case encClass(e[0], e[1]) == 0 || t.Chance(1, 3):
			data = cmapFor(65, len(f.Glyphs))[0].Data
		default:
			data = genCmapModel(t).data
		}
		f.Cmap = append(f.Cmap, ttf.CmapSub{PID: e[0], PSID: e[1], Data: data})
	}
	if t.Chance(2, 3) {
		f.HasKern, f.Kern = true, genKern(t, 30)
	}
	if t.Chance(2, 3) {
		f.HasName, f.Names = true, genNames(t)
	}
	f.LongLoca = t.Bool()
	return f
}
