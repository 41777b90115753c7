package ttf

import (
	"bytes"
	"fmt"
)

type w struct{ bytes.Buffer }

func (b *w) u8(v int)  { b.WriteByte(byte(v)) }
func (b *w) u16(v int) { b.WriteByte(byte(v >> 8)); b.WriteByte(byte(v)) }
func (b *w) u32(v int) { b.u16(v >> 16); b.u16(v) }

func junk(d D, n int) []byte {
	b := make([]byte, n)
	if n > 0 && chance(d, 1, 2) {
		s := d.Draw(1 << 32)
		for i := range b {
			s = s*6364136223846793005 + 1442695040888963407
			b[i] = byte(s >> 33)
		}
	}
	return b
}

// Table is a table to be put into a file.
type Table struct {
	Tag  string
	Data []byte
}

// EncodeGlyph returns the glyph's data, padded if pad is set.
func EncodeGlyph(d D, g *Glyph) []byte {
	if g.Empty {
		return nil
	}
	var b w
	ne := len(g.Ends)
	if g.Compound() {
		ne = -1
	}
	b.u16(ne)
	b.u16(g.XMin)
	b.u16(g.YMin)
	b.u16(g.XMax)
	b.u16(g.YMax)
	if g.Compound() {
		for i, c := range g.Comps {
			flags := 0x0002
			if c.Match {
				flags = 0
			}
			if c.Round {
				flags |= 0x0004
			}
			words := c.DX < -128 || c.DX > 127 || c.DY < -128 || c.DY > 127 || chance(d, 1, 4)
			if words {
				flags |= 0x0001
			}
			switch c.Form {
			case 1:
				flags |= 0x0008
			case 2:
				flags |= 0x0040
			case 3:
				flags |= 0x0080
			}
			if i+1 < len(g.Comps) {
				flags |= 0x0020
			}
			if len(g.Program) != 0 && (i+1 == len(g.Comps) || chance(d, 1, 2)) {
				flags |= 0x0100
			}
			if c.UseMetrics {
				flags |= 0x0200
			}
			if chance(d, 1, 8) {
				flags |= 0x0400 // overlap
			}
			b.u16(flags)
			b.u16(c.Glyph)
			if words {
				b.u16(c.DX)
				b.u16(c.DY)
			} else {
				b.u8(c.DX)
				b.u8(c.DY)
			}
			switch c.Form {
			case 1:
				b.u16(int(c.M[0]))
			case 2:
				b.u16(int(c.M[0]))
				b.u16(int(c.M[3]))
			case 3:
				for _, m := range c.M {
					b.u16(int(m))
				}
			}
		}
		if len(g.Program) != 0 {
			b.u16(len(g.Program))
			b.Write(g.Program)
		}
		return b.Bytes()
	}
	for _, e := range g.Ends {
		b.u16(e - 1)
	}
	b.u16(len(g.Program))
	b.Write(g.Program)
	// Flags and deltas.
	flags := make([]int, len(g.Pts))
	var xs, ys w
	px, py := 0, 0
	// The style is chosen per glyph, so that flags repeat.
	style := int(d.Draw(4)) // 0 shortest, 1 always long, 2 mixed, 3 short where possible (never omitted)
	enc := func(buf *w, delta int, short, same int) int {
		st := style
		if st == 2 {
			st = int(d.Draw(4))
			if st == 2 {
				st = 0
			}
		}
		if delta == 0 && st == 0 {
			return same
		}
		if delta >= -255 && delta <= 255 && st != 1 {
			if delta > 0 || (delta == 0 && chance(d, 1, 2)) {
				buf.u8(delta)
				return short | same
			}
			buf.u8(-delta)
			return short
		}
		buf.u16(delta)
		return 0
	}
	for i, p := range g.Pts {
		if p.On {
			flags[i] |= 1
		}
		flags[i] |= enc(&xs, p.X-px, 2, 16)
		flags[i] |= enc(&ys, p.Y-py, 4, 32)
		px, py = p.X, p.Y
	}
	if len(flags) > 0 && chance(d, 1, 6) {
		flags[0] |= 0x40 // overlapping contours
	}
	rep := int(d.Draw(4)) // 0 always, 1 never, 2 sometimes, 3 also with count 0
	for i := 0; i < len(flags); {
		run := 1
		for i+run < len(flags) && run < 256 && flags[i+run] == flags[i] {
			run++
		}
		if rep == 2 && run > 1 {
			run = 1 + int(d.Draw(uint64(run)))
		}
		if rep == 1 {
			run = 1
		}
		if run > 1 || (rep == 3 && chance(d, 1, 2)) {
			b.u8(flags[i] | 8)
			b.u8(run - 1)
		} else {
			b.u8(flags[i])
		}
		i += run
	}
	b.Write(xs.Bytes())
	b.Write(ys.Bytes())
	return b.Bytes()
}

// GlyfLoca encodes all glyphs.
func (f *Font) GlyfLoca(d D) (glyf, loca []byte) {
	var b, l w
	put := func(v int) {
		if f.LongLoca {
			l.u32(v)
		} else {
			l.u16(v / 2)
		}
	}
	if chance(d, 1, 6) {
		b.Write(junk(d, 2*int(d.Draw(8))))
	}
	for i := range f.Glyphs {
		if !f.LongLoca && b.Len() > 0x1fffe {
			panic("ttf: glyf too long for short offsets")
		}
		put(b.Len())
		data := EncodeGlyph(d, &f.Glyphs[i])
		b.Write(data)
		if len(data) > 0 {
			pad := 0
			switch d.Draw(4) {
			case 0:
				pad = -b.Len() & 3
			case 1:
				pad = b.Len() & 1
			case 2:
				pad = b.Len()&1 + 2*int(d.Draw(4))
			case 3:
				if f.LongLoca {
					pad = int(d.Draw(3))
				} else {
					pad = b.Len() & 1
				}
			}
			if !f.LongLoca && (b.Len()+pad)&1 == 1 {
				pad++
			}
			b.Write(junk(d, pad))
		} else if b.Len() == 0 && chance(d, 1, 2) {
			// An empty glyph at 0.
		}
	}
	put(b.Len())
	if !f.LongLoca && b.Len() > 0x1fffe {
		panic("ttf: glyf too long for short offsets")
	}
	return b.Bytes(), l.Bytes()
}

// Seg4 is a segment of a format 4 map.
type Seg4 struct {
	Start, End int
	Delta      int
	Arr        []uint16 // glyph array, nil if none
}

// EncodeFormat4 encodes sorted segments.
func EncodeFormat4(d D, segs []Seg4) []byte {
	n := len(segs)
	var arr []uint16
	off := make([]int, n)
	arr = append(arr, make([]uint16, int(d.Draw(3)))...)
	if chance(d, 1, 4) {
		for i := range arr {
			arr[i] = uint16(d.Draw(65536))
		}
	}
	find := func(a []uint16) int {
		for s := 0; s+len(a) <= len(arr); s++ {
			eq := true
			for k := range a {
				if arr[s+k] != a[k] {
					eq = false
					break
				}
			}
			if eq {
				return s
			}
		}
		return -1
	}
	// The arrays may be stored in any order and may share storage.
	rev := chance(d, 1, 4)
	for k := 0; k < n; k++ {
		i := k
		if rev {
			i = n - 1 - k
		}
		if segs[i].Arr == nil {
			off[i] = -1
			continue
		}
		s := -1
		if len(arr) < 400 {
			s = find(segs[i].Arr)
		}
		if s < 0 {
			s = len(arr)
			arr = append(arr, segs[i].Arr...)
			if chance(d, 1, 6) {
				arr = append(arr, uint16(d.Draw(65536)))
			}
		}
		off[i] = s
	}
	var b w
	b.u16(4)
	b.u16(16 + 8*n + 2*len(arr))
	b.u16(0)
	b.u16(2 * n)
	b.u16(int(d.Draw(2)) * 7)
	b.u16(0)
	b.u16(0)
	for _, s := range segs {
		b.u16(s.End)
	}
	b.u16(0)
	for _, s := range segs {
		b.u16(s.Start)
	}
	for _, s := range segs {
		b.u16(s.Delta)
	}
	for i := range segs {
		if off[i] < 0 {
			b.u16(0)
		} else {
			o := 2*(n-i) + 2*off[i]
			if o > 65535 {
				panic("ttf: glyph array too far")
			}
			b.u16(o)
		}
	}
	for _, v := range arr {
		b.u16(int(v))
	}
	return b.Bytes()
}

// Group is a group of a format 12 map.
type Group struct{ Start, End, Glyph uint32 }

func EncodeFormat12(gs []Group) []byte {
	var b w
	b.u16(12)
	b.u16(0)
	b.u32(16 + 12*len(gs))
	b.u32(0)
	b.u32(len(gs))
	for _, g := range gs {
		b.u32(int(g.Start))
		b.u32(int(g.End))
		b.u32(int(g.Glyph))
	}
	return b.Bytes()
}

// EncodeCmap puts the subtables into a cmap table, in the given directory order.
func EncodeCmap(d D, subs []CmapSub) []byte {
	hdr := 4 + 8*len(subs)
	var body w
	offs := make([]int, len(subs))
	rev := chance(d, 1, 4)
	for k := range subs {
		i := k
		if rev {
			i = len(subs) - 1 - k
		}
		dup := -1
		for j := 0; j < k; j++ {
			jj := j
			if rev {
				jj = len(subs) - 1 - j
			}
			if bytes.Equal(subs[jj].Data, subs[i].Data) {
				dup = jj
			}
		}
		if dup >= 0 && !chance(d, 1, 2) {
			offs[i] = offs[dup]
			continue
		}
		body.Write(junk(d, 2*int(d.Draw(3))))
		offs[i] = hdr + body.Len()
		body.Write(subs[i].Data)
	}
	var b w
	b.u16(0)
	b.u16(len(subs))
	for i, s := range subs {
		b.u16(int(s.PID))
		b.u16(int(s.PSID))
		b.u32(offs[i])
	}
	b.Write(body.Bytes())
	return b.Bytes()
}

// EncodeName lays the strings out in a random order, possibly overlapping.
func EncodeName(d D, recs []NameRec) []byte {
	var st w
	offs := make([]int, len(recs))
	order := perm(d, len(recs))
	for _, i := range order {
		if chance(d, 1, 4) {
			st.Write(junk(d, int(d.Draw(40))))
		}
		if chance(d, 1, 40) {
			st.Write(junk(d, int(d.Draw(50000))))
			if st.Len() > 60000 {
				st.Truncate(60000)
			}
		}
		if k := bytes.Index(st.Bytes(), recs[i].Bytes); k >= 0 && chance(d, 1, 2) {
			offs[i] = k
			continue
		}
		offs[i] = st.Len()
		st.Write(recs[i].Bytes)
	}
	gap := junk(d, int(d.Draw(3))*int(d.Draw(20)))
	if chance(d, 1, 20) {
		gap = junk(d, 30000)
	}
	if len(recs)*12+6+len(gap) > 65000 {
		gap = nil
	}
	var b w
	b.u16(0)
	b.u16(len(recs))
	b.u16(6 + 12*len(recs) + len(gap))
	for i, r := range recs {
		b.u16(int(r.PID))
		b.u16(int(r.PSID))
		b.u16(int(r.Lang))
		b.u16(int(r.ID))
		if r.RawLen >= 0 {
			b.u16(r.RawLen)
		} else {
			b.u16(len(r.Bytes))
		}
		if r.RawOff >= 0 {
			b.u16(r.RawOff)
		} else {
			b.u16(offs[i])
		}
	}
	b.Write(gap)
	b.Write(st.Bytes())
	return b.Bytes()
}

func perm(d D, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + int(d.Draw(uint64(n-i)))
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func EncodeKern(d D, ps []Pair) []byte {
	var b w
	b.u16(0)
	extra := 0
	if chance(d, 1, 6) {
		extra = 1
	}
	b.u16(1 + extra)
	b.u16(0)
	b.u16(14 + 6*len(ps))
	b.u16(1)
	b.u16(len(ps))
	b.u16(int(d.Draw(3)))
	b.u16(0)
	b.u16(0)
	for _, p := range ps {
		b.u16(int(p.L))
		b.u16(int(p.R))
		b.u16(int(p.V))
	}
	if extra == 1 {
		// A second subtable, of a kind that is not horizontal kerning.
		b.u16(0)
		b.u16(14 + 6)
		b.u16(0)
		b.u16(1)
		b.u16(0)
		b.u16(0)
		b.u16(0)
		b.u16(0)
		b.u16(1)
		b.u16(99)
	} else if len(ps) < 1 || chance(d, 1, 8) {
		b.Write(junk(d, int(d.Draw(12))))
	}
	return b.Bytes()
}

// Tables encodes all tables.
func (f *Font) Tables(d D) []Table {
	glyf, loca := f.GlyfLoca(d)
	return append(f.MetaTables(d), Table{"glyf", glyf}, Table{"loca", loca})
}

// MetaTables encodes everything but glyf and loca.
func (f *Font) MetaTables(d D) []Table {
	var ts []Table
	add := func(tag string, b []byte) { ts = append(ts, Table{tag, b}) }
	n := len(f.Glyphs)
	var h w
	h.u32(0x00010000)
	h.u32(0x00010000)
	h.u32(0)
	h.u32(0x5f0f3cf5)
	h.u16(0)
	h.u16(f.UPEM)
	h.Write(make([]byte, 16))
	h.u16(f.XMin)
	h.u16(f.YMin)
	h.u16(f.XMax)
	h.u16(f.YMax)
	h.u16(0)
	h.u16(8)
	h.u16(2)
	if f.LongLoca {
		h.u16(1)
	} else {
		h.u16(0)
	}
	h.u16(0)
	add("head", h.Bytes())

	var m w
	m.u32(0x00010000)
	m.u16(n)
	m.u16(0)
	m.u16(0)
	m.u16(0)
	m.u16(0)
	m.u16(2)
	m.u16(f.MaxTwilight)
	m.u16(f.MaxStorage)
	m.u16(f.MaxFDefs)
	m.u16(0)
	m.u16(f.MaxStack)
	m.u16(0)
	m.u16(0)
	m.u16(0)
	add("maxp", m.Bytes())

	var hh, hm w
	hh.u32(0x00010000)
	hh.u16(f.Ascent)
	hh.u16(f.Descent)
	hh.Write(make([]byte, 26))
	hh.u16(f.NHMetric)
	add("hhea", hh.Bytes())
	for i := range f.Glyphs {
		if i < f.NHMetric {
			hm.u16(f.Glyphs[i].Adv)
		}
		hm.u16(f.Glyphs[i].LSB)
	}
	add("hmtx", hm.Bytes())
	add("cmap", EncodeCmap(d, f.Cmap))
	if f.HasKern {
		add("kern", EncodeKern(d, f.Kern))
	}
	if f.HasName {
		add("name", EncodeName(d, f.Names))
	}
	if f.OS2 != nil {
		add("OS/2", f.OS2)
	}
	if f.VMtx != nil {
		var v w
		for _, x := range f.VMtx {
			v.u16(x[0])
			v.u16(x[1])
		}
		v.Write(junk(d, int(d.Draw(4))))
		add("vmtx", v.Bytes())
	}
	if f.Hdmx != nil {
		var b w
		b.u16(0)
		b.u16(len(f.Hdmx))
		n := n
		if len(f.Hdmx) > 0 && len(f.Hdmx[0].Widths) < n {
			n = len(f.Hdmx[0].Widths) // for the first glyphs only
		}
		size := (2 + n + 3) &^ 3
		if n == len(f.Glyphs) && chance(d, 1, 4) {
			size += 4 * int(d.Draw(3))
		}
		b.u32(size)
		for _, r := range f.Hdmx {
			if len(r.Widths) != n {
				panic(fmt.Sprintf("ttf: hdmx widths: %d for %d glyphs", len(r.Widths), n))
			}
			b.u8(r.PPEM)
			mx := 0
			for _, v := range r.Widths {
				if int(v) > mx {
					mx = int(v)
				}
			}
			b.u8(mx)
			b.Write(r.Widths)
			b.Write(make([]byte, size-2-n))
		}
		add("hdmx", b.Bytes())
	}
	if f.CVT != nil {
		var b w
		for _, v := range f.CVT {
			b.u16(int(v))
		}
		add("cvt ", b.Bytes())
	}
	if f.Fpgm != nil {
		add("fpgm", f.Fpgm)
	}
	if f.Prep != nil {
		add("prep", f.Prep)
	}
	return ts
}

// Layout puts tables into a file.
func Layout(d D, ts []Table) []byte {
	mode := d.Draw(4) // 0: plain; otherwise shuffled
	ts = append([]Table(nil), ts...)
	if mode != 0 {
		for k := int(d.Draw(3)); k > 0; k-- {
			ts = append(ts, Table{[]string{"post", "gasp", "GPOS", "zzzz", "cvar", "Kern"}[d.Draw(6)], junk(d, int(d.Draw(50)))})
		}
	}
	return LayoutAt(d, ts, 0, mode != 0)
}

// LayoutAt makes a file image that starts at the given offset of a larger file.
func LayoutAt(d D, ts []Table, base int, shuffle bool) []byte {
	n := len(ts)
	dir, data := identity(n), identity(n)
	if shuffle {
		if chance(d, 1, 2) {
			dir = perm(d, n)
		}
		if chance(d, 1, 2) {
			data = perm(d, n)
		}
	}
	off := make([]int, n)
	var body w
	start := 12 + 16*n
	for _, i := range data {
		pos := -1
		if shuffle && chance(d, 1, 2) {
			// Shared storage.
			if k := bytes.Index(body.Bytes(), ts[i].Data); k >= 0 {
				pos = k
			}
		}
		if pos < 0 {
			if shuffle && chance(d, 1, 4) {
				body.Write(junk(d, int(d.Draw(9))))
			} else {
				body.Write(make([]byte, -body.Len()&3))
			}
			pos = body.Len()
			body.Write(ts[i].Data)
		}
		off[i] = base + start + pos
	}
	var b w
	b.u32(0x00010000)
	b.u16(n)
	b.u16(0)
	b.u16(0)
	b.u16(0)
	for _, i := range dir {
		b.WriteString(ts[i].Tag)
		b.u32(int(d.Draw(2)) * 12345)
		b.u32(off[i])
		b.u32(len(ts[i].Data))
	}
	b.Write(body.Bytes())
	if shuffle {
		b.Write(junk(d, int(d.Draw(6))))
	}
	return b.Bytes()
}

func identity(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

// Collection wraps fonts into a TTC; the first is the one to be read. The
// fonts are stored in a random order.
func Collection(d D, fonts [][]Table) []byte {
	n := len(fonts)
	v2 := chance(d, 1, 3)
	hdr := 12 + 4*n
	if v2 {
		hdr += 12
	}
	img := make([][]byte, n)
	off := make([]int, n)
	pos := hdr
	order := perm(d, n)
	var body w
	for _, i := range order {
		pad := 0
		if chance(d, 1, 3) {
			pad = 4 * int(d.Draw(4))
		}
		body.Write(junk(d, pad))
		pos += pad
		off[i] = pos
		img[i] = LayoutAt(d, fonts[i], pos, true)
		body.Write(img[i])
		body.Write(make([]byte, -len(img[i])&3))
		pos += (len(img[i]) + 3) &^ 3
	}
	var b w
	b.WriteString("ttcf")
	if v2 {
		b.u32(0x00020000)
	} else {
		b.u32(0x00010000)
	}
	b.u32(n)
	for i := range off {
		b.u32(off[i])
	}
	if v2 {
		b.u32(0)
		b.u32(0)
		b.u32(0)
	}
	b.Write(body.Bytes())
	return b.Bytes()
}

// File encodes the font.
func (f *Font) File(d D) []byte { return Layout(d, f.Tables(d)) }
