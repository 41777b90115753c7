package props

import (
	"bytes"
	"encoding/binary"
	"runtime"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"

	"verif/harness/pbt"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "F01",
		Rule:  "a generated font with every table, or a real one, or random bytes, with 1 to 4 fields, bytes, table lengths, offsets or tags damaged, or truncated, or collections that name one another as their fonts; non-trivial if the damaged bytes still have a complete table directory",
		Quick: 1600000, Thorough: 15000000, Run: runF01})
	pbt.Register(&pbt.Prop{ID: "F02",
		Rule:  "a generated or real font with its tables damaged, queried with ordinary and extreme arguments; non-trivial if the parser accepts the damaged font",
		Quick: 1000000, Thorough: 15000000, Run: runF02})
	pbt.Register(&pbt.Prop{ID: "F03",
		Rule:  "a font with one to six encodings over generated format 4 and 12 maps (or a real font), asked for the runes at and around every segment edge, their aliases beyond 16 bits and random ones; non-trivial if some rune maps to a glyph and some does not",
		Quick: 1000000, Thorough: 15000000, Run: runF03})
	pbt.Register(&pbt.Prop{ID: "F04",
		Rule:  "a font with generated metric tables, every glyph and several indices beyond queried at three scales; non-trivial if the font has at least two glyphs",
		Quick: 3000000, Thorough: 40000000, Run: runF04})
	pbt.Register(&pbt.Prop{ID: "F05",
		Rule:  "a font with a generated pair table, queried at every listed pair, the reversed and neighbouring pairs and random ones; non-trivial if the table has at least two pairs",
		Quick: 1200000, Thorough: 20000000, Run: runF05})
	pbt.Register(&pbt.Prop{ID: "F06",
		Rule:  "a font with a generated naming table, asked for every name ID in it and some that are not; non-trivial if some name is not empty",
		Quick: 1200000, Thorough: 20000000, Run: runF06})
	pbt.Register(&pbt.Prop{ID: "F07",
		Rule:  "the tables of a generated or real font in three random layouts, one of them in a collection with other fonts, with all queries and glyph loads compared with the plain layout; non-trivial if at least one compared glyph has points",
		Quick: 300000, Thorough: 3000000, Run: runF07})
}

func runF01(t *pbt.T) {
	var b []byte
	name := ""
	switch t.Weighted(60, 2, 1) {
	case 0:
		b, name = baseFile(t)
		b = damage(t, b, true)
	case 2:
		name = "collections in collections"
		b = collections(t)
	default:
		name = "random bytes"
		b = make([]byte, t.Size(0, 300))
		for i := range b {
			b[i] = byte(t.Draw(256))
		}
		if t.Bool() {
			copy(b, pbt.Pick(t, "\x00\x01\x00\x00\x00", "ttcf\x00\x01\x00\x00\x00\x00\x00\x01\x00\x00\x00", "ttcf\x00\x02\x00\x00", "OTTO", "true"))
		}
	}
	keep := append([]byte(nil), b...)
	var f *truetype.Font
	var err error
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	s := pbt.Guard(func() { f, err = truetype.Parse(b) })
	runtime.ReadMemStats(&m1)
	t.Checks(1)
	if len(directory(keep)) > 0 {
		t.NonTrivial()
	}
	t.Sample("%s, %d bytes: %v", name, len(b), err)
	if s != "" {
		t.Failf("Parse of %d bytes (%s, damaged): %s", len(b), name, s)
	}
	if !bytes.Equal(b, keep) {
		t.Failf("Parse modified its input")
	}
	if n := m1.TotalAlloc - m0.TotalAlloc; n > uint64(8*len(b)+64<<10) {
		t.Failf("Parse of %d bytes allocated %d bytes (error: %v)", len(b), n, err)
	}
	switch err.(type) {
	case nil:
		t.Class("accepted")
		if f == nil {
			t.Failf("Parse returned neither a font nor an error")
		}
	case truetype.FormatError, truetype.UnsupportedError:
		t.Class("error: %.24s", err.Error())
		if f != nil {
			t.Failf("Parse returned both a font and the error %v", err)
		}
	default:
		t.Failf("Parse returned an error of type %T: %v", err, err)
	}
	if t.Chance(1, 8) {
		g, err2 := freetype.ParseFont(b)
		if (g == nil) != (f == nil) || (err2 == nil) != (err == nil) || err != nil && err.Error() != err2.Error() {
			t.Failf("ParseFont returned %v, but Parse %v", err2, err)
		}
	}
}

// collections are headers of collections that name each other, or fonts, as
// their fonts.
func collections(t *pbt.T) []byte {
	n := t.Int(1, 4)
	var at []int // of the headers
	var num []int
	size := 0
	for i := 0; i < n; i++ {
		at, num = append(at, size), append(num, t.Weighted(1, 8, 2))
		size += 12 + 4*num[i] + 4*t.Weighted(3, 1)
	}
	var f []byte
	if t.Chance(1, 2) {
		f, _ = baseFile(t)
	}
	targets := append([]int{size, 4, 12, size + len(f), -4}, at...)
	b := make([]byte, size, size+len(f))
	for i, o := range at {
		copy(b[o:], "ttcf\x00\x01\x00\x00")
		if t.Bool() {
			b[o+5] = 2
		}
		binary.BigEndian.PutUint32(b[o+8:], uint32(num[i]))
		for k := 0; k < num[i]; k++ {
			v := pbt.PickS(t, at)
			if t.Chance(1, 3) {
				v = pbt.PickS(t, targets)
			}
			binary.BigEndian.PutUint32(b[o+12+4*k:], uint32(v))
		}
	}
	return append(b, f...)
}

// extremeScale is any scale.
func extremeScale(t *pbt.T) int {
	switch t.Int(0, 2) {
	case 0:
		return genScale(t)
	case 1:
		return t.Sym(1<<31 - 1)
	}
	return pbt.Pick(t, 0, 1, -1, 64, 1<<31-1, -1<<31, 1<<16, 1<<30)
}

func runF02(t *pbt.T) {
	b, name := baseFile(t)
	b = damage(t, b, t.Chance(1, 4), "cmap", "kern", "name", "hmtx", "maxp", "head", "hhea", "OS/2", "vmtx")
	var f *truetype.Font
	if s := pbt.Guard(func() {
		f0, err := truetype.Parse(b)
		if err == nil {
			f = f0
		}
	}); s != "" || f == nil {
		t.Class("not accepted")
		return // a panic is F01's
	}
	t.NonTrivial()
	t.Class("accepted")
	nGlyph, nMaxp := 0, 0
	for _, e := range directory(b) {
		if e.tag == "maxp" {
			nMaxp++
			nGlyph = be16(b, e.off+4)
		}
	}
	query := func(what string, fn func()) {
		t.Checks(1)
		if s := pbt.Guard(fn); s != "" {
			t.Failf("%s font, damaged: %s: %s", name, what, s)
		}
	}
	anyGlyph := func() truetype.Index {
		switch t.Int(0, 2) {
		case 0:
			return truetype.Index(t.Int(0, max(nGlyph+2, 3)))
		case 1:
			return truetype.Index(t.Draw(65536))
		}
		return pbt.Pick(t, truetype.Index(65535), 0, 32767, 32768, truetype.Index(nGlyph), truetype.Index(nGlyph-1), truetype.Index(nGlyph+1))
	}
	for k := 12; k > 0; k-- {
		r := rune(t.Size(0, 70000))
		switch t.Int(0, 2) {
		case 0:
			r = rune(int32(t.Draw(1 << 32)))
		case 1:
			r = pbt.Pick(t, rune(-1), 0, 0xffff, 0x10000, 0x10ffff, 1<<31-1, -1<<31, 0xfffe, 65, 66)
		}
		query(sprintf("Index(%#x)", r), func() { f.Index(r) })
	}
	for k := 6; k > 0; k-- {
		s, i, j := fixed.Int26_6(extremeScale(t)), anyGlyph(), anyGlyph()
		query(sprintf("HMetric(%d, %d)", s, i), func() {
			m := f.HMetric(s, i)
			if nMaxp == 1 && int(i) >= nGlyph && m != (truetype.HMetric{}) {
				t.Failf("HMetric(%d, %d) = %v in a font of %d glyphs", s, i, m, nGlyph)
			}
		})
		query(sprintf("VMetric(%d, %d)", s, i), func() {
			m := f.VMetric(s, i)
			if nMaxp == 1 && int(i) >= nGlyph && m != (truetype.VMetric{}) {
				t.Failf("VMetric(%d, %d) = %v in a font of %d glyphs", s, i, m, nGlyph)
			}
		})
		query(sprintf("Kern(%d, %d, %d)", s, i, j), func() { f.Kern(s, i, j) })
		query(sprintf("Bounds(%d)", s), func() { f.Bounds(s) })
	}
	for k := 6; k > 0; k-- {
		id := truetype.NameID(t.Int(0, 26))
		if t.Chance(1, 4) {
			id = truetype.NameID(t.Draw(65536))
		}
		query(sprintf("Name(%d)", id), func() {
			for _, c := range []byte(f.Name(id)) {
				if c < 0x20 || c > 0x7e {
					t.Failf("Name(%d) = %q, which is not printable", id, f.Name(id))
				}
			}
		})
	}
	query("FUnitsPerEm", func() { f.FUnitsPerEm() })
	t.Sample("%s, %d bytes, %d glyphs", name, len(b), nGlyph)
}

// tinyFont is a font with n empty glyphs.
func tinyFont(n int) *ttf.Font {
	f := &ttf.Font{UPEM: 1000, Ascent: 800, Descent: -200, NHMetric: 1}
	for ; n > 0; n-- {
		f.Glyphs = append(f.Glyphs, ttf.Glyph{Empty: true})
	}
	return f
}

func runF03(t *pbt.T) {
	var tf *truetype.Font
	var ok []*cmapModel // any of these may be the one that is read
	var runes []rune
	if t.Chance(1, 500) {
		r := pbt.PickS(t, realFonts).must(t)
		tf = r.font
		for class := 2; class > 0 && len(ok) == 0; class-- {
			for _, s := range r.model.Cmap {
				if encClass(s.PID, s.PSID) == class {
					data := s.Data
					ok = append(ok, &cmapModel{get: func(x rune) int { return ttf.CmapLookup(data, x) }, desc: r.name})
				}
			}
		}
		t.Class("real font")
		if n := be16(ok[0].edgesData(r), 0); n != 4 && n != 12 {
			t.Discard()
		}
		// Linear scans are slow: a range of runes and some others.
		s := t.Int(0, 0xffff)
		for k := 0; k < 1500; k++ {
			runes = append(runes, rune((s+k)&0xffff))
		}
	} else {
		f := tinyFont(1)
		es := genEncodings(t)
		best := 0
		for _, e := range es {
			best = max(best, encClass(e[0], e[1]))
		}
		for _, e := range es {
			sub := ttf.CmapSub{PID: e[0], PSID: e[1]}
			if encClass(e[0], e[1]) == best {
				m := genCmapModel(t)
				if len(ok) > 0 && t.Bool() {
					m = ok[len(ok)-1]
				}
				sub.Data = m.data
				ok = append(ok, m)
				runes = append(runes, m.edges...)
				t.Class("format %d", m.fmt)
			} else {
				switch t.Int(0, 2) {
				case 0:
					sub.Data = genCmapModel(t).data
				case 1: // format 0
					sub.Data = make([]byte, 262)
					sub.Data[2], sub.Data[3] = 1, 6
				default:
					sub.Data = []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
				}
			}
			f.Cmap = append(f.Cmap, sub)
		}
		t.Class("%d encodings", len(es))
		b := f.File(t)
		tf = parseOK(t, b)
	}
	for k := 10; k > 0; k-- {
		runes = append(runes, rune(t.Size(0, 0x10ffff)))
	}
	runes = append(runes, 0, -1, 0xffff, 0xfffe, 0x10000, 0x10ffff, 0x110000, 1<<31-1, -1<<31, -65, 65)
	mapped, unmapped := 0, 0
	got := make([]int, len(runes))
	for i, r := range runes {
		got[i] = int(tf.Index(r))
	}
	t.Checks(len(runes))
	why := ""
	for _, m := range ok {
		bad := ""
		mapped, unmapped = 0, 0
		for i, r := range runes {
			w := m.get(r)
			if w == 0 {
				unmapped++
			} else {
				mapped++
			}
			if got[i] != w && bad == "" {
				bad = sprintf("rune %#x is glyph %d, want %d in the map %s", r, got[i], w, m.desc)
			}
		}
		if bad == "" {
			if mapped > 0 && unmapped > 0 {
				t.NonTrivial()
			}
			t.Sample("%s", m.desc)
			return
		}
		why += "\n  " + bad
	}
	t.Failf("no admissible map explains the glyph indices:%s", why)
}

func (m *cmapModel) edgesData(r *realFont) []byte {
	for class := 2; class > 0; class-- {
		for _, s := range r.model.Cmap {
			if encClass(s.PID, s.PSID) == class {
				return s.Data
			}
		}
	}
	return []byte{0, 0}
}

// fits reports whether the product can be computed and rounded in 32 bits.
func fits(v, scale, upem int) bool {
	p := v * scale
	if p < 0 {
		p = -p
	}
	return p+upem/2 < 1<<31
}

func runF04(t *pbt.T) {
	f := tinyFont(0)
	f.UPEM = genUPEM(t)
	n, many := t.Size(1, 40), false
	if t.Chance(1, 500) {
		n, many = t.Int(200, pbt.Pick(t, 600, 600, 600, 3000, 65535)), true
		t.Class("many glyphs")
	}
	for ; n > 0; n-- {
		g := ttf.Glyph{Empty: true}
		if !many && t.Chance(1, 3) {
			g = genOutline(t, min(f.UPEM, 16000), 1, 3)
		}
		f.Glyphs = append(f.Glyphs, g)
	}
	genMetrics(t, f)
	f.XMin, f.YMin, f.XMax, f.YMax = t.Sym(32767), t.Sym(32767), t.Sym(32767), t.Sym(32767)
	f.LongLoca = true
	f.Cmap = cmapFor(65, len(f.Glyphs))
	tf := parseOK(t, f.File(ttf.Plain))
	if len(f.Glyphs) > 1 {
		t.NonTrivial()
	}
	t.Class("full records %v, OS/2 %v, vmtx %v", f.NHMetric == len(f.Glyphs), f.OS2 != nil, f.VMtx != nil)
	t.Sample("upem %d, %d glyphs, %d full records, OS/2 %d bytes, %d vertical records", f.UPEM, len(f.Glyphs), f.NHMetric, len(f.OS2), len(f.VMtx))
	if int(tf.FUnitsPerEm()) != f.UPEM {
		t.Failf("FUnitsPerEm is %d, want %d", tf.FUnitsPerEm(), f.UPEM)
	}
	for k := 0; k < 3; k++ {
		scale := f.UPEM
		switch t.Int(0, 4) {
		case 1:
			scale = t.Int(0, 200*64)
		case 2:
			scale = t.Sym(65535)
		case 3:
			scale = t.Sym(1 << 22)
		case 4:
			scale = pbt.Pick(t, 0, 1, -1, f.UPEM/2, f.UPEM/2+1, f.UPEM-1, f.UPEM+1, -f.UPEM, 2*f.UPEM, 3*f.UPEM)
		}
		cmp := func(what string, i, got, v int) {
			t.Checks(1)
			if !fits(v, scale, f.UPEM) {
				return
			}
			if w := f.Scale(v, scale); got != w {
				t.Failf("%s of glyph %d of %d at scale %d (upem %d, %d full records, design value %d) is %d, want %d", what, i, len(f.Glyphs), scale, f.UPEM, f.NHMetric, v, got, w)
			}
		}
		b := tf.Bounds(fixed.Int26_6(scale))
		cmp("xMin", -1, int(b.Min.X), f.XMin)
		cmp("yMin", -1, int(b.Min.Y), f.YMin)
		cmp("xMax", -1, int(b.Max.X), f.XMax)
		cmp("yMax", -1, int(b.Max.Y), f.YMax)
		n := len(f.Glyphs)
		idx := []int{n, n + 1, n + 2, 65535, 32768, t.Int(n, 65535)}
		for i := 0; i < n; i++ {
			idx = append(idx, i)
		}
		for _, i := range idx {
			h := tf.HMetric(fixed.Int26_6(scale), truetype.Index(i))
			adv, lsb := f.HMetric(i)
			cmp("advance width", i, int(h.AdvanceWidth), adv)
			cmp("left side bearing", i, int(h.LeftSideBearing), lsb)
			v := tf.VMetric(fixed.Int26_6(scale), truetype.Index(i))
			ah, tsb := f.VMetric(i, 0)
			cmp("advance height", i, int(v.AdvanceHeight), ah)
			cmp("top side bearing", i, int(v.TopSideBearing), tsb)
		}
	}
}

func runF05(t *pbt.T) {
	f := tinyFont(3)
	f.UPEM = genUPEM(t)
	f.Cmap = cmapFor(65, 3)
	f.HasKern = !t.Chance(1, 30)
	if f.HasKern {
		n := 60
		if t.Chance(1, 40) {
			n = 10920
		}
		f.Kern = genKern(t, n)
	}
	tf := parseOK(t, f.File(t))
	want := map[uint32]int{}
	for _, p := range f.Kern {
		want[uint32(p.L)<<16|uint32(p.R)] = int(p.V)
	}
	if len(f.Kern) > 1 {
		t.NonTrivial()
	}
	t.Class("pairs < %d", 1<<bits(len(f.Kern)))
	t.Sample("%d pairs, %.100v", len(f.Kern), f.Kern)
	scale := 0
	ask := func(l, r int) {
		if l < 0 || r < 0 || l > 65535 || r > 65535 {
			return
		}
		t.Checks(1)
		v := want[uint32(l)<<16|uint32(r)]
		if !fits(v, scale, f.UPEM) {
			return
		}
		if g, w := int(tf.Kern(fixed.Int26_6(scale), truetype.Index(l), truetype.Index(r))), f.Scale(v, scale); g != w {
			t.Failf("kerning of (%d, %d) at scale %d (upem %d, %d pairs, value %d) is %d, want %d", l, r, scale, f.UPEM, len(f.Kern), v, g, w)
		}
	}
	for k := 0; k < 2; k++ {
		scale = f.UPEM
		if k == 1 {
			scale = pbt.Pick(t, t.Int(1, 200*64), t.Sym(65535))
		}
		step := 1 + len(f.Kern)/400
		for i := t.Int(0, step-1); i < len(f.Kern); i += step {
			l, r := int(f.Kern[i].L), int(f.Kern[i].R)
			ask(l, r)
			ask(r, l)
			ask(l, r+1)
			ask(l, r-1)
			ask(l+1, r)
			ask(l-1, r)
		}
		if n := len(f.Kern); n > 0 {
			ask(int(f.Kern[0].L), int(f.Kern[0].R))
			ask(int(f.Kern[n-1].L), int(f.Kern[n-1].R))
			ask(int(f.Kern[n-1].L), 65535)
		}
		ask(0, 0)
		ask(65535, 65535)
		ask(0, 65535)
		ask(65535, 0)
		for j := 0; j < 6; j++ {
			ask(t.Size(0, 65535), t.Size(0, 65535))
		}
	}
}

func bits(n int) (b int) {
	for ; n > 0; n >>= 1 {
		b++
	}
	return
}

func runF06(t *pbt.T) {
	f := tinyFont(1)
	f.Cmap = cmapFor(65, 1)
	f.HasName, f.Names = true, genNames(t)
	if t.Chance(1, 40) {
		f.HasName, f.Names = false, nil
	}
	file := f.File(t)
	tf := parseOK(t, file)
	var table []byte
	for _, tb := range tablesOf(file) {
		if tb.Tag == "name" {
			table = tb.Data
		}
	}
	ids := []int{0, 1, 2, 3, 4, 6, 25, 26, 256, 65535, 65534, t.Int(0, 65535)}
	for _, id := range ids {
		best := 0
		for _, r := range f.Names {
			if int(r.ID) == id {
				best = max(best, encClass(r.PID, r.PSID))
			}
		}
		got := tf.Name(truetype.NameID(id))
		t.Checks(1)
		if best == 0 {
			if got != "" {
				t.Failf("name %d is %q, but the font has no such record", id, got)
			}
			continue
		}
		var wants []string
		ok := false
		for i, r := range f.Names {
			if int(r.ID) != id || encClass(r.PID, r.PSID) != best {
				continue
			}
			w := nameString(table, i)
			wants = append(wants, w)
			ok = ok || w == got
		}
		if !ok {
			t.Failf("name %d is %q, want one of %q", id, got, wants)
		}
		if got != "" {
			t.NonTrivial()
			t.Class("a name of class %d", best)
		} else {
			t.Class("empty name")
		}
	}
	t.Sample("%d records, names %q", len(f.Names), tf.Name(1))
}

// nameString is the sanitised string of a record, as the table says.
func nameString(b []byte, i int) string {
	e := 6 + 12*i
	off, n := be16(b, 4)+be16(b, e+10), be16(b, e+8)
	if off+n > len(b) || n%2 == 1 {
		return ""
	}
	s := ""
	for k := 0; k < n; k += 2 {
		c := be16(b, off+k)
		if c < 0x20 || c > 0x7e {
			c = '?'
		}
		s += string(rune(c))
	}
	return s
}

func runF07(t *pbt.T) {
	var ts []ttf.Table
	name := "generated"
	var runes []rune
	nGlyph := 0
	var pairs []ttf.Pair
	if t.Chance(1, 10) {
		r := pbt.PickS(t, realFonts).must(t)
		name = r.name
		ts = tablesOf(r.bytes)
		nGlyph = len(r.model.Glyphs)
		pairs = r.model.Kern
		t.Class("real font")
	} else {
		f := fullFont(t)
		ts = f.Tables(t)
		nGlyph = len(f.Glyphs)
		pairs = f.Kern
		t.Class("generated font")
	}
	plain := ttf.LayoutAt(ttf.Plain, ts, 0, false)
	files := [][]byte{ttf.Layout(t, ts), ttf.LayoutAt(t, ts, 0, true)}
	others := [][]ttf.Table{ts}
	for k := t.Int(0, 2); k > 0; k-- {
		others = append(others, fullFont(t).Tables(t))
	}
	files = append(files, ttf.Collection(t, others))
	f0 := parseOK(t, plain)
	for k := 24; k > 0; k-- {
		runes = append(runes, rune(t.Size(0, 70000)))
	}
	var gids []int
	for k := min(nGlyph, 6); k > 0; k-- {
		gids = append(gids, t.Int(0, nGlyph))
	}
	scale := genScale(t)
	h := pbt.Pick(t, font.HintingNone, font.HintingFull, font.HintingVertical)
	type answers struct {
		idx  []truetype.Index
		hm   []truetype.HMetric
		vm   []truetype.VMetric
		kern []fixed.Int26_6
		name []string
		b    fixed.Rectangle26_6
		upem int32
		ls   []loaded
	}
	s26 := fixed.Int26_6(scale)
	ask := func(f *truetype.Font) (a answers) {
		for _, r := range runes {
			a.idx = append(a.idx, f.Index(r))
		}
		buf := &truetype.GlyphBuf{}
		for _, g := range gids {
			a.hm = append(a.hm, f.HMetric(s26, truetype.Index(g)))
			a.vm = append(a.vm, f.VMetric(s26, truetype.Index(g)))
			a.ls = append(a.ls, loadInto(buf, f, scale, g, h))
		}
		for i := 0; i < len(pairs); i += 1 + len(pairs)/8 {
			a.kern = append(a.kern, f.Kern(s26, truetype.Index(pairs[i].L), truetype.Index(pairs[i].R)))
		}
		for id := 0; id < 8; id++ {
			a.name = append(a.name, f.Name(truetype.NameID(id)))
		}
		a.b, a.upem = f.Bounds(s26), f.FUnitsPerEm()
		return
	}
	keep0 := append([]byte(nil), plain...)
	want := ask(f0)
	if !bytes.Equal(plain, keep0) {
		t.Failf("the bytes of the font were modified")
	}
	for i := range want.ls {
		if len(want.ls[i].pts) > 0 {
			t.NonTrivial()
		}
	}
	t.Sample("%s: %d tables, %d glyphs; files of %d, %d and %d bytes", name, len(ts), nGlyph, len(files[0]), len(files[1]), len(files[2]))
	for k, b := range files {
		keep := append([]byte(nil), b...)
		f, err := truetype.Parse(b)
		if err != nil {
			t.Failf("layout %d of a font that parses in the plain layout: %v", k, err)
		}
		got := ask(f)
		t.Checks(1)
		if !bytes.Equal(b, keep) {
			t.Failf("the bytes of the font were modified")
		}
		for i := range got.ls {
			if s := diffLoaded(&got.ls[i], &want.ls[i]); s != "" {
				t.Failf("glyph %d, layout %d versus plain: %s", gids[i], k, s)
			}
		}
		got.ls, want.ls = nil, want.ls
		w := want
		w.ls = nil
		if x, y := sprintf("%v", got), sprintf("%v", w); x != y {
			t.Failf("layout %d answers %s, plain layout %s", k, x, y)
		}
	}
}
