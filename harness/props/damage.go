package props

import (
	"encoding/binary"

	"verif/harness/pbt"
	"verif/harness/ttf"
)

// dirEntry is an entry of a file's table directory.
type dirEntry struct {
	tag      string
	at       int // of the entry
	off, len int
}

// be16 and be32 read numbers; they are 0 outside of the data.
func be16(b []byte, i int) int {
	if i < 0 || i+2 > len(b) {
		return 0
	}
	return int(binary.BigEndian.Uint16(b[i:]))
}

func be32(b []byte, i int) int {
	if i < 0 || i+4 > len(b) {
		return 0
	}
	return int(binary.BigEndian.Uint32(b[i:]))
}

// directory reads a directory as far as it goes.
func directory(b []byte) (es []dirEntry) {
	base := 0
	if len(b) >= 16 && string(b[:4]) == "ttcf" {
		base = be32(b, 12)
	}
	if base+12 > len(b) {
		return nil
	}
	n := be16(b, base+4)
	for i := 0; i < n && base+28+16*i <= len(b); i++ {
		e := base + 12 + 16*i
		es = append(es, dirEntry{string(b[e : e+4]), e, be32(b, e+8), be32(b, e+12)})
	}
	return es
}

// tablesOf are the tables of an intact file.
func tablesOf(b []byte) (ts []ttf.Table) {
	for _, e := range directory(b) {
		ts = append(ts, ttf.Table{Tag: e.tag, Data: b[e.off : e.off+e.len]})
	}
	return ts
}

// fieldsOf are offsets worth damaging in a table.
func fieldsOf(t *pbt.T, b []byte, es []dirEntry, e dirEntry) int {
	switch e.tag {
	case "head":
		return pbt.Pick(t, 18, 50, 36, 38, 40, 42)
	case "maxp":
		return pbt.Pick(t, 4, 16, 18, 20, 24, 14)
	case "hhea":
		return pbt.Pick(t, 34, 4, 6)
	case "cmap":
		if e.len < 12 || t.Chance(1, 3) {
			return 2 * t.Int(0, 20)
		}
		n := max(1, min(be16(b, e.off+2), (e.len-4)/8))
		o := be32(b, e.off+4+8*t.Int(0, n-1)+4)
		if o > e.len {
			return 2 * t.Int(0, 20)
		}
		return o + 2*t.Size(0, 400)
	case "kern":
		return 2 * t.Size(0, 60)
	case "name":
		return 2 * t.Size(0, 60)
	case "hdmx":
		return t.Size(0, 30)
	case "glyf":
		return glyphStart(t, b, es) + t.Size(0, 60)
	}
	return t.Size(0, max(e.len-1, 0))
}

// glyphStart is the offset of some glyph in the glyf table.
func glyphStart(t *pbt.T, b []byte, es []dirEntry) int {
	long := false
	for _, e := range es {
		if e.tag == "head" && e.off+52 <= len(b) {
			long = be16(b, e.off+50) == 1
		}
	}
	for _, e := range es {
		if e.tag != "loca" || e.off+e.len > len(b) || e.len < 4 {
			continue
		}
		if long {
			return be32(b, e.off+4*t.Int(0, e.len/4-1))
		}
		return 2 * be16(b, e.off+2*t.Int(0, e.len/2-1))
	}
	return 0
}

// damage changes a few things in a font file. If dir is not set the
// directory stays as it is.
func damage(t *pbt.T, b []byte, dir bool, tags ...string) []byte {
	b = append([]byte(nil), b...)
	for k := t.Int(1, 4); k > 0; k-- {
		es := directory(b)
		if len(es) == 0 {
			if len(b) > 0 {
				b[t.Int(0, len(b)-1)] = byte(t.Draw(256))
			}
			continue
		}
		e := pbt.PickS(t, es)
		if len(tags) > 0 && t.Chance(9, 10) {
			tag := pbt.PickS(t, tags)
			for _, x := range es {
				if x.tag == tag {
					e = x
				}
			}
		}
		put := func(at, size, v int) {
			for i := 0; i < size; i++ {
				if at+i >= 0 && at+i < len(b) {
					b[at+i] = byte(v >> (8 * (size - 1 - i)))
				}
			}
		}
		extreme := func(size, old int) int {
			switch t.Int(0, 5) {
			case 0:
				return t.Int(0, 4)
			case 1:
				return -1 - t.Int(0, 4)
			case 2:
				return 1<<(8*size-1) - t.Int(0, 2)
			case 3:
				return old + pbt.Pick(t, 1, -1, 2, -2, 4, -4, 8, 256, -256)
			case 4:
				return int(t.Draw(1 << 32))
			}
			return t.Size(0, 70000)
		}
		op := t.Weighted(6, 4, 2, 1, 0, 0, 0, 0, 0)
		if dir {
			op = t.Weighted(6, 4, 2, 1, 3, 2, 1, 1, 1)
		}
		switch op {
		case 0: // a field
			o := e.off + fieldsOf(t, b, es, e)
			size := pbt.Pick(t, 2, 2, 2, 4)
			if o < 0 || o+size > len(b) {
				continue
			}
			old := be16(b, o)
			if size == 4 {
				old = be32(b, o)
			}
			put(o, size, extreme(size, old))
		case 1: // a byte of the table
			if e.len > 0 {
				put(e.off+t.Size(0, e.len-1), 1, int(t.Draw(256)))
			}
		case 2: // a run of bytes
			if e.len > 0 {
				o := e.off + t.Int(0, e.len-1)
				v, rnd := int(t.Draw(256)), t.Bool()
				for i := t.Size(1, 64); i > 0; i-- {
					if rnd {
						v = int(t.Draw(256))
					}
					put(o, 1, v)
					o++
				}
			}
		case 3: // a bit
			if e.len > 0 {
				o := e.off + t.Int(0, e.len-1)
				if o >= 0 && o < len(b) {
					b[o] ^= 1 << t.Draw(8)
				}
			}
		case 4: // table length
			v := e.len - t.Size(1, max(e.len, 1))
			if t.Chance(1, 3) {
				v = extreme(4, e.len)
			}
			put(e.at+12, 4, v)
		case 5: // table offset
			put(e.at+8, 4, pbt.Pick(t, extreme(4, e.off), t.Int(0, len(b)), len(b)-e.len+t.Int(0, 1)))
		case 6: // tag
			f := pbt.PickS(t, es)
			copy(b[e.at:e.at+4], f.tag)
			if t.Bool() {
				b[e.at+t.Int(0, 3)] = byte(t.Draw(256))
			}
		case 7: // two tables swapped
			f := pbt.PickS(t, es)
			var x [8]byte
			copy(x[:], b[e.at+8:e.at+16])
			copy(b[e.at+8:e.at+16], b[f.at+8:f.at+16])
			copy(b[f.at+8:f.at+16], x[:])
		case 8: // the file
			switch t.Int(0, 3) {
			case 0:
				b = b[:t.Int(0, len(b))]
			case 1:
				put(t.Int(0, 3), 1, int(t.Draw(256)))
			case 2:
				put(4, 2, extreme(2, be16(b, 4)))
			case 3:
				o := t.Int(0, len(b))
				b = append(b[:o:o], append(make([]byte, t.Int(1, 8)), b[o:]...)...)
			}
		}
	}
	return b
}

// baseFile is an intact font file.
func baseFile(t *pbt.T) (b []byte, name string) {
	if t.Chance(1, 8) {
		r := pbt.PickS(t, realFonts).get()
		return r.bytes, r.name
	}
	f := fullFont(t)
	if t.Chance(1, 8) {
		return ttf.Collection(t, [][]ttf.Table{f.Tables(t)}), "generated collection"
	}
	return f.File(t), "generated"
}
