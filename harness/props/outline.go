package props

import (
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"

	"verif/harness/pbt"
	"verif/harness/ref"
	"verif/harness/ttf"
)

func init() {
	pbt.Register(&pbt.Prop{ID: "G01",
		Rule:  "a damaged font, or an intact one with a glyph cut short or a component graph with cycles, whose glyphs are loaded at ordinary and extreme scales in every hinting mode; non-trivial if some glyph of an accepted damaged font is loaded or some glyph known to be bad is refused",
		Quick: 1600000, Thorough: 12000000, Run: runG01})
	pbt.Register(&pbt.Prop{ID: "G02",
		Rule:  "a font with one to four generated simple outlines in random encodings, loaded unhinted at the em scale and others, and hinted without a program; non-trivial if some outline has at least 3 points",
		Quick: 600000, Thorough: 8000000, Run: runG02})
	pbt.Register(&pbt.Prop{ID: "G03",
		Rule:  "a font with simple glyphs and a random graph of compound ones (all offset and transform forms, empty components, chains up to the depth limit, cycles), every glyph loaded unhinted at two scales; non-trivial if some compound glyph has points",
		Quick: 400000, Thorough: 4000000, Run: runG03})
	pbt.Register(&pbt.Prop{ID: "G04",
		Rule:  "a font with generated metrics, device metrics, compound glyphs that take metrics from a component, and programs that move the metric points, every glyph loaded hinted and unhinted at two scales; non-trivial if some loaded glyph has points",
		Quick: 200000, Thorough: 2400000, Run: runG04})
}

var hintings = []font.Hinting{font.HintingFull, font.HintingNone, font.HintingVertical}

func runG01(t *pbt.T) {
	if t.Chance(1, 3) {
		badGlyphs(t)
		return
	}
	b, name := baseFile(t)
	b = damage(t, b, t.Chance(1, 8), "glyf", "loca", "maxp", "head", "hmtx", "fpgm", "prep", "hdmx", "cvt ")
	ppem := -1
	for _, e := range directory(b) {
		if e.tag == "hdmx" && e.len >= 9 && e.off+e.len <= len(b) && t.Chance(1, 2) {
			if t.Bool() {
				// Records that have no width for some glyphs.
				n := t.Int(1, e.len-8)
				if t.Bool() {
					n = min(n, t.Int(1, 12))
				}
				b[e.off+4], b[e.off+5], b[e.off+6], b[e.off+7] = 0, 0, byte(n>>8), byte(n)
				t.Class("device records of another size")
			}
			ppem = int(b[e.off+8])
			if n := be32(b, e.off+4); n > 0 && e.len-8 >= 2*n && t.Bool() {
				ppem = int(b[e.off+8+n])
			}
		}
	}
	var f *truetype.Font
	if s := pbt.Guard(func() {
		f0, err := truetype.Parse(b)
		if err == nil {
			f = f0
		}
	}); s != "" || f == nil {
		t.Class("not accepted")
		return
	}
	nGlyph, nMaxp := 0, 0
	for _, e := range directory(b) {
		if e.tag == "maxp" {
			nMaxp++
			nGlyph = be16(b, e.off+4)
		}
	}
	t.Sample("%s, %d bytes, %d glyphs", name, len(b), nGlyph)
	var gids []int
	if nGlyph <= 12 {
		for i := 0; i < nGlyph; i++ {
			gids = append(gids, i)
		}
	} else {
		for k := 0; k < 12; k++ {
			gids = append(gids, t.Int(0, nGlyph-1))
		}
	}
	gids = append(gids, nGlyph, 65535, t.Int(0, 65535))
	buf := &truetype.GlyphBuf{}
	scale := wildScale(t)
	h := pbt.PickS(t, hintings)
	if t.Chance(1, 4) {
		h = font.HintingNone // faulty control-value programs stop all hinted loads
	}
	if ppem >= 0 {
		scale = 64*ppem + pbt.Pick(t, 0, 0, t.Int(0, 63))
		t.Class("a size with a device record")
	}
	for _, gid := range gids {
		var l loaded
		if s := pbt.Guard(func() { l = loadInto(buf, f, scale, gid, h) }); s != "" {
			t.Failf("%s font, damaged: glyph %d at scale %d, hinting %v: %s", name, gid, scale, h, s)
		}
		t.Checks(1)
		if l.err != nil {
			t.Class("error")
			continue
		}
		t.Class("loaded")
		t.NonTrivial()
		if nMaxp == 1 && gid >= nGlyph {
			t.Failf("glyph %d of a font of %d glyphs was loaded", gid, nGlyph)
		}
		if s := l.wellFormed(h != font.HintingNone); s != "" {
			t.Failf("%s font, damaged: glyph %d at scale %d, hinting %v: %s", name, gid, scale, h, s)
		}
	}
}

// badGlyphs makes glyphs that must be refused.
func badGlyphs(t *pbt.T) {
	f := plainFont(t)
	f.LongLoca = t.Bool()
	kind := t.Int(0, 3)
	if t.Chance(1, 1500) {
		kind = 4
	}
	inProgram := -1 // a compound glyph cut after so much of its instructions
	var glyf, loca []byte
	bad := map[int]bool{}
	why := ""
	switch kind {
	case 0, 3: // cut short
		why = "cut short"
		most := 80
		if t.Chance(1, 20) {
			most = 3000
		}
		g := bigOutline(t, most)
		if kind == 3 {
			g = genCompound(t, f, nil)
			if t.Bool() {
				for k := t.Int(1, 100); k > 0; k-- {
					g.Program = append(g.Program, 0x4b, 0x21)
				}
			}
		} else if t.Chance(1, 3) {
			g.Program = junkProgram(t, 20)
			if t.Chance(1, 10) {
				g.Program = make([]byte, t.Int(1, 40000))
			}
		}
		if most > 80 || len(g.Program) > 1000 {
			f.LongLoca = true
		}
		f.Glyphs = append(f.Glyphs, g)
		data := ttf.EncodeGlyph(t, &g)
		n := len(f.Glyphs)
		bad[n-1] = true
		glyf, loca = f.GlyfLoca(t)
		// The cut glyph goes to the end of the table, or in front of other data.
		cut := t.Int(10, len(data)-1)
		if t.Bool() {
			cut = max(10, len(data)-1-t.Size(0, 8))
		}
		if !f.LongLoca {
			cut &^= 1
		}
		if kind == 3 && len(g.Program) > 0 {
			if end := len(data) - 2 - len(g.Program); cut >= end {
				inProgram = cut - end
			}
		}
		if !f.LongLoca {
			if len(glyf)&1 == 1 {
				glyf = append(glyf, 0)
			}
		}
		start := len(glyf)
		glyf = append(glyf, data[:cut]...)
		end := len(glyf)
		if t.Bool() {
			glyf = append(glyf, data[cut:]...)
			glyf = append(glyf, make([]byte, 50)...)
		}
		put := func(i, v int) {
			if f.LongLoca {
				loca[4*i], loca[4*i+1], loca[4*i+2], loca[4*i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			} else {
				loca[2*i], loca[2*i+1] = byte(v>>9), byte(v>>1)
			}
		}
		// The one before is made empty, so that no other glyph changes.
		put(n-1, start)
		put(n, end)
		if n > 1 {
			bad[n-2] = false
		}
		t.Sample("%d glyphs, the last cut to %d of %d bytes", n, cut, len(data))
	case 1: // a component that is out of range
		why = "with a component out of range"
		g := genCompound(t, f, nil)
		g.Comps[t.Int(0, len(g.Comps)-1)].Glyph = len(f.Glyphs) + 1 + pbt.Pick(t, 0, 1, t.Int(0, 60000))
		f.Glyphs = append(f.Glyphs, g)
		bad[len(f.Glyphs)-1] = true
		glyf, loca = f.GlyfLoca(t)
		t.Sample("component out of range")
	case 4: // not deep, but exponentially large
		i := t.Int(0, len(f.Glyphs)-1)
		if t.Bool() {
			f.Glyphs = append(f.Glyphs, ttf.Glyph{Empty: true})
			i = len(f.Glyphs) - 1
		}
		for k := t.Int(20, 30); k > 0; k-- {
			g := ttf.Glyph{}
			for c := t.Int(2, 3); c > 0; c-- {
				g.Comps = append(g.Comps, ttf.Comp{Glyph: i, DX: t.Sym(9)})
			}
			if t.Chance(1, 3) {
				g.Program = []byte{0x4b, 0x21}
			}
			i = len(f.Glyphs)
			f.Glyphs = append(f.Glyphs, g)
		}
		glyf, loca = f.GlyfLoca(t)
		t.Class("exponentially large")
		t.NonTrivial()
		t.Sample("exponentially large")
	case 2: // a cycle
		why = "that contains itself"
		k := t.Int(1, 4)
		n0 := len(f.Glyphs)
		for i := 0; i < k; i++ {
			g := genCompound(t, f, nil)
			g.Comps[t.Int(0, len(g.Comps)-1)].Glyph = n0 + (i+1)%k
			f.Glyphs = append(f.Glyphs, g)
			bad[n0+i] = true
		}
		glyf, loca = f.GlyfLoca(t)
		t.Sample("cycle of %d", k)
	}
	f.NHMetric = len(f.Glyphs)
	f.SetBounds()
	f.Cmap = cmapFor(65, len(f.Glyphs))
	ts := append(f.MetaTables(ttf.Plain), ttf.Table{Tag: "glyf", Data: glyf}, ttf.Table{Tag: "loca", Data: loca})
	tf := parseOK(t, ttf.Layout(ttf.Plain, ts))
	buf := &truetype.GlyphBuf{}
	scale := wildScale(t)
	h := pbt.PickS(t, hintings)
	if inProgram >= 0 && (h == font.HintingNone || inProgram < 2) {
		// Not needed, or not there.
		bad[len(f.Glyphs)-1] = false
	} else if inProgram >= 0 {
		t.Class("cut in a compound's instructions")
	}
	for gid := range f.Glyphs {
		var l loaded
		if s := pbt.Guard(func() { l = loadInto(buf, tf, scale, gid, h) }); s != "" {
			t.Failf("glyph %d %s, scale %d, hinting %v: %s", gid, why, scale, h, s)
		}
		t.Checks(1)
		if bad[gid] {
			if l.err == nil {
				t.Failf("a glyph %s was loaded (%d points), hinting %v", why, len(l.pts), h)
			}
			switch l.err.(type) {
			case truetype.FormatError, truetype.UnsupportedError:
			default:
				t.Failf("a glyph %s: error of type %T: %v", why, l.err, l.err)
			}
			t.NonTrivial()
			t.Class("refused, %s", why)
		} else if l.err == nil {
			if s := l.wellFormed(h != font.HintingNone); s != "" {
				t.Failf("glyph %d: %s", gid, s)
			}
		} else if g := &f.Glyphs[gid]; !g.Compound() {
			if _, ok := bad[gid]; !ok {
				t.Failf("glyph %d, which is intact, was refused: %v", gid, l.err)
			}
		}
	}
	for _, gid := range []int{len(f.Glyphs), len(f.Glyphs) + 1, 65535} {
		if l := loadInto(buf, tf, scale, gid, h); l.err == nil {
			t.Failf("glyph %d of a font of %d glyphs was loaded", gid, len(f.Glyphs))
		}
	}
}

// moderateScale is a scale at which no product with the values overflows.
func moderateScale(t *pbt.T, upem, maxV int) int {
	s := upem
	switch t.Int(0, 4) {
	case 1:
		s = genScale(t)
	case 2:
		s = t.Sym(65535)
	case 3:
		s = pbt.Pick(t, 0, 1, -1, 63, 64, upem/2, upem+1, upem-1, -upem, 2*upem)
	case 4:
		s = t.Sym(1 << 24)
	}
	lim := min(1<<31-40000, upem<<28) / max(maxV, 1)
	return max(-lim, min(lim, s))
}

// maxValue is the largest design value of the font.
func maxValue(f *ttf.Font) int {
	m := 1
	up := func(vs ...int) {
		for _, v := range vs {
			m = max(m, v, -v)
		}
	}
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		hadv, _ := f.HMetric(i)
		up(g.XMin-g.LSB, g.XMin-g.LSB+hadv, hadv, g.YMax)
		for _, p := range g.Pts {
			up(p.X, p.Y)
		}
		for _, c := range g.Comps {
			up(c.DX, c.DY)
		}
		adv, tsb := f.VMetric(i, g.YMax)
		up(g.YMax+tsb, g.YMax+tsb-adv)
	}
	return m
}

func runG02(t *pbt.T) {
	if t.Chance(1, 500) {
		checkHuge(t)
		return
	}
	f := &ttf.Font{UPEM: genUPEM(t), MaxStack: 10, MaxTwilight: 2, MaxStorage: 2, MaxFDefs: 2}
	if t.Chance(1, 8) {
		f.MaxStack, f.MaxTwilight, f.MaxStorage, f.MaxFDefs = 0, 0, 0, 0
	}
	for n := t.Int(1, 4); n > 0; n-- {
		switch t.Weighted(6, 3, 1) {
		case 0:
			mp := 2000
			if t.Chance(1, 60) {
				mp = 30000
				if t.Chance(1, 3) {
					mp = 65000
				}
			}
			f.Glyphs = append(f.Glyphs, bigOutline(t, mp))
		case 1:
			f.Glyphs = append(f.Glyphs, genOutline(t, min(f.UPEM, 16383), 4, 10))
		default:
			f.Glyphs = append(f.Glyphs, ttf.Glyph{Empty: true})
		}
		g := &f.Glyphs[len(f.Glyphs)-1]
		if len(g.Pts) > 2 {
			t.NonTrivial()
		}
		if t.Chance(1, 10) && !g.Empty {
			// The box need not be exact.
			g.XMin, g.YMax = t.Sym(16383), t.Sym(16383)
		}
		g.Adv, g.LSB = t.Int(0, 20000), g.XMin
		if t.Chance(1, 2) {
			g.LSB = t.Sym(16383)
		}
	}
	f.NHMetric = t.Int(1, len(f.Glyphs))
	for i := f.NHMetric; i < len(f.Glyphs); i++ {
		f.Glyphs[i].Adv = f.Glyphs[f.NHMetric-1].Adv
	}
	f.SetBounds()
	f.LongLoca = t.Bool()
	total := 0
	for i := range f.Glyphs {
		total += 5*len(f.Glyphs[i].Pts) + 600
	}
	if total > 100000 {
		f.LongLoca = true
	}
	f.Cmap = cmapFor(65, len(f.Glyphs))
	programs := t.Chance(1, 4)
	if programs {
		for i := range f.Glyphs {
			if !f.Glyphs[i].Empty && t.Bool() {
				f.Glyphs[i].Program = junkProgram(t, 300)
				if t.Chance(1, 40) {
					// Up to what the 16-bit length allows.
					f.Glyphs[i].Program = make([]byte, t.Int(30000, 65535))
					for k := range f.Glyphs[i].Program {
						f.Glyphs[i].Program[k] = byte(k * 7)
					}
					total += len(f.Glyphs[i].Program)
					f.LongLoca = f.LongLoca || total > 120000
					t.Class("long program")
				}
			}
		}
	}
	if total > 65535 && !f.LongLoca {
		t.Class("over 64 KiB of outlines under short offsets")
	}
	tf := parseOK(t, f.File(t))
	t.Sample("upem %d, %d glyphs, the first of %d points and %d contours", f.UPEM, len(f.Glyphs), len(f.Glyphs[0].Pts), len(f.Glyphs[0].Ends))
	mv := maxValue(f)
	buf := &truetype.GlyphBuf{}
	for k := 0; k < 3; k++ {
		scale := f.UPEM
		h := font.HintingNone
		if k > 0 || !fits(mv, scale, f.UPEM) {
			scale = moderateScale(t, f.UPEM, mv)
		}
		if k == 2 && !programs {
			h = font.HintingFull
			scale = max(scale, -scale)
		}
		var rh *ref.Hinter
		if h != font.HintingNone {
			rh = ref.NewHinter(f, scale)
		}
		for gid := range f.Glyphs {
			l := loadInto(buf, tf, scale, gid, h)
			t.Checks(1)
			o := ref.Load(f, scale, gid, rh)
			if o.Ambiguous != "" {
				t.Class("ambiguous: %s", o.Ambiguous)
				continue
			}
			if s := l.sameAsRef(o); s != "" {
				t.Failf("glyph %d (%d points, %d contours) at scale %d (upem %d), hinting %v: %s", gid, len(f.Glyphs[gid].Pts), len(f.Glyphs[gid].Ends), scale, f.UPEM, h, s)
			}
			if s := l.wellFormed(h != font.HintingNone); s != "" {
				t.Failf("glyph %d at scale %d: %s", gid, scale, s)
			}
			if h != font.HintingNone {
				g := &f.Glyphs[gid]
				if len(l.ifu) != len(g.Pts) || len(l.unh) != len(g.Pts) {
					t.Failf("glyph %d of %d points has %d font unit and %d unhinted points", gid, len(g.Pts), len(l.ifu), len(l.unh))
				}
				for i, p := range g.Pts {
					if int(l.ifu[i].X) != p.X || int(l.ifu[i].Y) != p.Y {
						t.Failf("glyph %d: font unit point %d is (%d,%d), want (%d,%d)", gid, i, l.ifu[i].X, l.ifu[i].Y, p.X, p.Y)
					}
				}
				t.Class("hinted without a program")
			} else if scale == f.UPEM && f.Glyphs[gid].LSB == f.Glyphs[gid].XMin {
				// Said directly, without the reference.
				for i, p := range f.Glyphs[gid].Pts {
					if q := l.pts[i]; int(q.X) != p.X || int(q.Y) != p.Y {
						t.Failf("glyph %d: point %d is (%d,%d), want (%d,%d)", gid, i, q.X, q.Y, p.X, p.Y)
					}
				}
				t.Class("design units")
			} else {
				t.Class("scaled")
			}
		}
	}
}

// compGraph adds compound glyphs to the font.
func compGraph(t *pbt.T, f *ttf.Font) {
	add := func(g ttf.Glyph) { f.Glyphs = append(f.Glyphs, g) }
	for n := t.Int(1, 5); n > 0; n-- {
		g := genCompound(t, f, nil)
		if t.Chance(1, 6) { // more components
			for k := t.Int(1, 20); k > 0; k-- {
				c := genComp(t, min(f.UPEM, 16383), t.Int(0, len(f.Glyphs)-1))
				c.UseMetrics = false
				g.Comps = append(g.Comps, c)
			}
		}
		if t.Chance(1, 10) {
			g.XMin = t.Sym(16383)
		}
		add(g)
	}
	if t.Chance(1, 60) { // very many components
		g := ttf.Glyph{Adv: t.Int(0, 1000), LSB: t.Sym(100)}
		few := []int{}
		for i := range f.Glyphs {
			if q := &f.Glyphs[i]; !q.Compound() && len(q.Pts) <= 10 {
				few = append(few, i)
			}
		}
		if len(few) > 0 {
			for k := t.Int(60, 400); k > 0; k-- {
				c := genComp(t, min(f.UPEM, 16383), pbt.PickS(t, few))
				c.UseMetrics = c.UseMetrics && k == 1
				g.Comps = append(g.Comps, c)
			}
			add(g)
			t.Class("very many components")
		}
	}
	if t.Chance(1, 12) { // a chain around the depth limit
		g := genCompound(t, f, nil)
		add(g)
		for k := t.Int(26, 36); k > 0; k-- {
			c := genComp(t, min(f.UPEM, 16383), len(f.Glyphs)-1)
			if t.Chance(7, 8) {
				c.Form = 0
			}
			g := ttf.Glyph{Adv: t.Int(0, 1000), Comps: []ttf.Comp{c}}
			g.LSB = t.Sym(100)
			add(g)
		}
	}
}

func runG03(t *pbt.T) {
	if t.Chance(1, 500) {
		checkHuge(t)
		return
	}
	f := plainFont(t)
	for i := range f.Glyphs {
		if g := &f.Glyphs[i]; !g.Empty && !g.Compound() && t.Chance(1, 6) {
			f.Glyphs[i] = bigOutline(t, 60)
		}
	}
	compGraph(t, f)
	n := len(f.Glyphs)
	if t.Chance(1, 10) { // a forward reference, which may close a cycle
		g := &f.Glyphs[t.Int(0, n-1)]
		if g.Compound() {
			g.Comps[t.Int(0, len(g.Comps)-1)].Glyph = t.Int(0, n-1)
		}
	}
	if t.Chance(1, 12) { // placed by matching points
		if g := &f.Glyphs[t.Int(0, n-1)]; g.Compound() {
			c := &g.Comps[t.Int(0, len(g.Comps)-1)]
			c.Match, c.DX, c.DY = true, t.Int(0, 127), t.Int(0, 127)
		}
	}
	if t.Chance(1, 4) { // instructions that are not to be run
		for i := range f.Glyphs {
			if !f.Glyphs[i].Empty && t.Bool() {
				f.Glyphs[i].Program = junkProgram(t, 30)
			}
		}
	}
	f.NHMetric = n
	f.SetBounds()
	f.LongLoca = t.Bool()
	f.Cmap = cmapFor(65, n)
	tf := parseOK(t, f.File(t))
	buf := &truetype.GlyphBuf{}
	mv := maxValue(f)
	for k := 0; k < 2; k++ {
		scale := moderateScale(t, f.UPEM, mv)
		for gid := range f.Glyphs {
			o := ref.LoadLimited(f, scale, gid, 3000)
			if o == nil {
				t.Class("too large")
				continue
			}
			if big(o) {
				t.Class("out of range")
				continue
			}
			l := loadInto(buf, tf, scale, gid, font.HintingNone)
			t.Checks(1)
			if s := l.sameAsRef(o); s != "" {
				t.Logf("glyph %d: %+v", gid, f.Glyphs[gid].Comps)
				t.Failf("glyph %d (%d components) at scale %d (upem %d): %s", gid, len(f.Glyphs[gid].Comps), scale, f.UPEM, s)
			}
			if l.err != nil && o.Err != nil {
				_, a := l.err.(truetype.UnsupportedError)
				_, b := l.err.(truetype.FormatError)
				if !a && (o.Err == ref.ErrMatch || !b) {
					t.Failf("glyph %d: %v is reported as %T: %v", gid, o.Err, l.err, l.err)
				}
			}
			switch {
			case o.Err == ref.ErrMatch:
				t.Class("matching points")
			case o.Err == ref.ErrDepth:
				t.Class("too deep")
			case f.Glyphs[gid].Compound():
				t.Class("compound")
				if len(o.Pts) > 0 {
					t.NonTrivial()
				}
			}
		}
	}
	t.Sample("upem %d, %d glyphs, glyph %d of %d components", f.UPEM, n, n-1, len(f.Glyphs[n-1].Comps))
}

// big reports whether intermediate values may have left 32 bits.
func big(o *ref.Out) bool { return o.MaxAbs > 1<<29 }

func runG04(t *pbt.T) {
	if t.Chance(1, 500) {
		checkHuge(t)
		return
	}
	var f *ttf.Font
	if t.Chance(1, 2) {
		f = mixedFont(t)
	} else {
		f = plainFont(t)
		compGraph(t, f)
	}
	n := len(f.Glyphs)
	genMetrics(t, f)
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		if !g.Empty && !g.Compound() && t.Chance(1, 4) {
			// A program that moves the metric points: vector, point, amount, SHPIX.
			np := len(g.Pts)
			a := &asm{t: t}
			a.op(pbt.Pick[byte](t, 0x01, 0x00))
			for k := t.Int(1, 3); k > 0; k-- {
				a.push(np+t.Int(0, 3), t.Sym(200))
				a.op(0x38)
			}
			g.Program = append(g.Program, a.b...)
		}
	}
	scales := []int{genScale(t), genScale(t)}
	if t.Chance(1, 2) {
		scales[1] &^= 63
		genHdmx(t, f, scales[1]>>6, t.Int(1, 100), (scales[0]>>6)+1)
		if t.Chance(1, 20) {
			// The low byte of a size too large for a record.
			scales[0] = f.Hdmx[t.Int(0, len(f.Hdmx)-1)].PPEM*64 + 256*64*t.Int(1, 3)
			t.Class("more than 255 pixels per em")
		}
		if t.Bool() {
			f.Hdmx[0], f.Hdmx[len(f.Hdmx)-1] = f.Hdmx[len(f.Hdmx)-1], f.Hdmx[0]
		}
	}
	f.SetBounds()
	f.LongLoca = true
	f.Cmap = cmapFor(65, n)
	if t.Chance(1, 200) {
		lengthenOne(t, f)
	}
	tf := parseOK(t, f.File(t))
	buf := &truetype.GlyphBuf{}
	mv := maxValue(f)
	t.Sample("upem %d, %d glyphs, %d device records", f.UPEM, n, len(f.Hdmx))
	for _, scale := range scales {
		scale = min(scale, min(1<<31-40000, f.UPEM<<28)/mv)
		var rh *ref.Hinter
		for _, h := range hintings {
			if h != font.HintingNone && rh == nil {
				rh = ref.NewHinter(f, scale)
			}
			for gid := range f.Glyphs {
				var o *ref.Out
				if h == font.HintingNone {
					if o = ref.LoadLimited(f, scale, gid, 3000); o == nil {
						continue
					}
				} else {
					if tooLarge(f, gid) {
						continue
					}
					o = ref.Load(f, scale, gid, rh)
				}
				if big(o) {
					t.Class("out of range")
					continue
				}
				l := loadInto(buf, tf, scale, gid, h)
				t.Checks(1)
				if l.err == nil {
					if s := l.wellFormed(h != font.HintingNone); s != "" {
						t.Failf("glyph %d at scale %d, hinting %v: %s", gid, scale, h, s)
					}
					if h != font.HintingNone && l.adv&63 != 0 {
						t.Failf("glyph %d at scale %d: the hinted advance %d is no whole number of pixels", gid, scale, l.adv)
					}
					if len(l.pts) > 0 {
						t.NonTrivial()
					}
				}
				if o.Ambiguous != "" {
					t.Class("ambiguous: %s", o.Ambiguous)
					continue
				}
				t.Class("compared, hinting %v", h)
				if s := l.sameAsRef(o); s != "" {
					for i, g := range f.Glyphs {
						t.Logf("glyph %d: %+v", i, g)
					}
					if len(f.Fpgm)+len(f.Prep)+len(f.Glyphs[gid].Program) > 0 && h != font.HintingNone {
						t.Logf("fpgm: %s", disasm(f.Fpgm))
						t.Logf("prep: %s", disasm(f.Prep))
						t.Logf("program: %s", disasm(f.Glyphs[gid].Program))
					}
					t.Logf("device metrics %v; %d full records", f.Hdmx, f.NHMetric)
					t.Failf("glyph %d (%d points, %d components) at scale %d (upem %d), hinting %v: %s", gid, len(f.Glyphs[gid].Pts), len(f.Glyphs[gid].Comps), scale, f.UPEM, h, s)
				}
			}
		}
	}
}

// tooLarge reports whether a compound glyph is deep or has very many parts.
func tooLarge(f *ttf.Font, gid int) bool {
	return ref.LoadLimited(f, 64, gid, 400) == nil
}
