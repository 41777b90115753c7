package ttf

// Decode reads a well-formed font file into the model; it panics on others.
// It shares nothing with golang/freetype.
func Decode(b []byte) *Font {
	base := 0
	if string(b[:4]) == "ttcf" {
		base = ru32(b, 12)
	}
	t := map[string][]byte{}
	n := ru16(b, base+4)
	for i := 0; i < n; i++ {
		e := base + 12 + 16*i
		o, l := ru32(b, e+8), ru32(b, e+12)
		t[string(b[e:e+4])] = b[o : o+l]
	}
	f := &Font{}
	head, maxp, hhea, hmtx := t["head"], t["maxp"], t["hhea"], t["hmtx"]
	f.UPEM = ru16(head, 18)
	f.XMin, f.YMin, f.XMax, f.YMax = ri16(head, 36), ri16(head, 38), ri16(head, 40), ri16(head, 42)
	f.LongLoca = ru16(head, 50) == 1
	ng := ru16(maxp, 4)
	f.MaxTwilight, f.MaxStorage, f.MaxFDefs, f.MaxStack = ru16(maxp, 16), ru16(maxp, 18), ru16(maxp, 20), ru16(maxp, 24)
	f.Ascent, f.Descent = ri16(hhea, 4), ri16(hhea, 6)
	f.NHMetric = ru16(hhea, 34)
	f.Glyphs = make([]Glyph, ng)
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		if i < f.NHMetric {
			g.Adv, g.LSB = ru16(hmtx, 4*i), ri16(hmtx, 4*i+2)
		} else {
			g.Adv, g.LSB = f.Glyphs[i-1].Adv, ri16(hmtx, 4*f.NHMetric+2*(i-f.NHMetric))
		}
		var a, z int
		if f.LongLoca {
			a, z = ru32(t["loca"], 4*i), ru32(t["loca"], 4*i+4)
		} else {
			a, z = 2*ru16(t["loca"], 2*i), 2*ru16(t["loca"], 2*i+2)
		}
		decodeGlyph(t["glyf"][a:z], g)
	}
	if c := t["cmap"]; c != nil {
		for i := 0; i < ru16(c, 2); i++ {
			e := 4 + 8*i
			o := ru32(c, e+4)
			f.Cmap = append(f.Cmap, CmapSub{uint16(ru16(c, e)), uint16(ru16(c, e+2)), c[o:]})
		}
	}
	if k := t["kern"]; k != nil {
		f.HasKern = true
		for i := 0; i < ru16(k, 10); i++ {
			e := 18 + 6*i
			f.Kern = append(f.Kern, Pair{uint16(ru16(k, e)), uint16(ru16(k, e+2)), int16(ri16(k, e+4))})
		}
	}
	if nm := t["name"]; nm != nil {
		f.HasName = true
		for i := 0; i < ru16(nm, 2); i++ {
			e := 6 + 12*i
			o := ru16(nm, 4) + ru16(nm, e+10)
			f.Names = append(f.Names, NameRec{uint16(ru16(nm, e)), uint16(ru16(nm, e+2)), uint16(ru16(nm, e+4)), uint16(ru16(nm, e+6)),
				nm[o : o+ru16(nm, e+8)], -1, -1})
		}
	}
	f.OS2 = t["OS/2"]
	if v := t["vmtx"]; v != nil {
		for i := 0; 4*i+4 <= len(v); i++ {
			f.VMtx = append(f.VMtx, [2]int{ru16(v, 4*i), ri16(v, 4*i+2)})
		}
	}
	if h := t["hdmx"]; h != nil {
		sz := ru32(h, 4)
		for i := 0; i < ru16(h, 2); i++ {
			r := h[8+i*sz:]
			f.Hdmx = append(f.Hdmx, Hdmx{int(r[0]), r[2 : 2+ng]})
		}
	}
	for i := 0; i+1 < len(t["cvt "]); i += 2 {
		f.CVT = append(f.CVT, int16(ri16(t["cvt "], i)))
	}
	f.Fpgm, f.Prep = t["fpgm"], t["prep"]
	return f
}

func ru16(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }
func ri16(b []byte, i int) int { return int(int16(ru16(b, i))) }
func ru32(b []byte, i int) int { return ru16(b, i)<<16 | ru16(b, i+2) }

func decodeGlyph(b []byte, g *Glyph) {
	if len(b) < 10 {
		g.Empty = true
		return
	}
	nc := ri16(b, 0)
	g.XMin, g.YMin, g.XMax, g.YMax = ri16(b, 2), ri16(b, 4), ri16(b, 6), ri16(b, 8)
	o := 10
	if nc < 0 {
		for more, instr := true, false; more; {
			fl := ru16(b, o)
			c := Comp{Glyph: ru16(b, o+2), Round: fl&4 != 0, UseMetrics: fl&0x200 != 0}
			o += 4
			if fl&2 == 0 {
				panic("ttf: point matching")
			}
			if fl&1 != 0 {
				c.DX, c.DY = ri16(b, o), ri16(b, o+2)
				o += 4
			} else {
				c.DX, c.DY = int(int8(b[o])), int(int8(b[o+1]))
				o += 2
			}
			switch {
			case fl&8 != 0:
				c.Form = 1
				c.M[0] = int16(ri16(b, o))
				c.M[3] = c.M[0]
				o += 2
			case fl&0x40 != 0:
				c.Form = 2
				c.M[0], c.M[3] = int16(ri16(b, o)), int16(ri16(b, o+2))
				o += 4
			case fl&0x80 != 0:
				c.Form = 3
				for k := range c.M {
					c.M[k] = int16(ri16(b, o+2*k))
				}
				o += 8
			}
			g.Comps = append(g.Comps, c)
			instr = instr || fl&0x100 != 0
			more = fl&0x20 != 0
			if !more && instr {
				n := ru16(b, o)
				g.Program = b[o+2 : o+2+n]
			}
		}
		return
	}
	np := 0
	for i := 0; i < nc; i++ {
		np = ru16(b, o) + 1
		g.Ends = append(g.Ends, np)
		o += 2
	}
	n := ru16(b, o)
	g.Program = b[o+2 : o+2+n]
	o += 2 + n
	fl := make([]byte, 0, np)
	for len(fl) < np {
		c := b[o]
		o++
		fl = append(fl, c)
		if c&8 != 0 {
			for k := int(b[o]); k > 0; k-- {
				fl = append(fl, c)
			}
			o++
		}
	}
	coord := func(short, same byte, set func(i, v int)) {
		v := 0
		for i := 0; i < np; i++ {
			switch {
			case fl[i]&short != 0 && fl[i]&same != 0:
				v += int(b[o])
				o++
			case fl[i]&short != 0:
				v -= int(b[o])
				o++
			case fl[i]&same == 0:
				v += ri16(b, o)
				o += 2
			}
			set(i, v)
		}
	}
	g.Pts = make([]Pt, np)
	coord(2, 16, func(i, v int) { g.Pts[i].X = v })
	coord(4, 32, func(i, v int) { g.Pts[i].Y = v })
	for i := range g.Pts {
		g.Pts[i].On = fl[i]&1 != 0
	}
}

// CmapLookup is a linear-scan lookup in a raw subtable.
func CmapLookup(b []byte, r rune) int {
	switch ru16(b, 0) {
	case 4:
		n := ru16(b, 6) / 2
		for i := 0; i < n; i++ {
			end, start := ru16(b, 14+2*i), ru16(b, 16+2*n+2*i)
			if int(r) < start || int(r) > end {
				continue
			}
			delta, p := ru16(b, 16+4*n+2*i), 16+6*n+2*i
			ro := ru16(b, p)
			if ro == 0 {
				return (int(r) + delta) & 0xffff
			}
			q := p + ro + 2*(int(r)-start)
			if q+2 > len(b) {
				return 0
			}
			if v := ru16(b, q); v != 0 {
				return (v + delta) & 0xffff
			}
			return 0
		}
		return 0
	case 12:
		for i := 0; i < ru32(b, 12); i++ {
			e := 16 + 12*i
			s, z, g := ru32(b, e), ru32(b, e+4), ru32(b, e+8)
			if int(r) >= s && int(r) <= z {
				return (g + int(r) - s) & 0xffff
			}
		}
		return 0
	}
	panic("ttf: cmap format")
}
