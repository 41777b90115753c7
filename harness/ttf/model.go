// Package ttf is a font model, an encoder from it to TrueType bytes with
// randomised encoding choices, and an independent decoder.
package ttf

import "sort"

// D is a source of choices; 0 is always the plain choice.
type D interface{ Draw(n uint64) uint64 }

type zero struct{}

func (zero) Draw(uint64) uint64 { return 0 }

// Plain makes the plain choice everywhere.
var Plain D = zero{}

func chance(d D, num, den int) bool { return int(d.Draw(uint64(den))) >= den-num }

type Pt struct {
	X, Y int
	On   bool
}

type Comp struct {
	Glyph      int
	DX, DY     int
	Round      bool
	UseMetrics bool
	Form       int // 0 no transform, 1 scale, 2 x and y scale, 3 2x2
	M          [4]int16
	Match      bool // placed by matching points DX and DY
}

type Glyph struct {
	Empty                  bool // no data at all
	XMin, YMin, XMax, YMax int
	Ends                   []int // exclusive
	Pts                    []Pt
	Comps                  []Comp
	Program                []byte
	Adv, LSB               int
}

func (g *Glyph) Compound() bool { return len(g.Comps) > 0 }

// SetBox computes the bounding box of a simple glyph.
func (g *Glyph) SetBox() {
	for i, p := range g.Pts {
		if i == 0 || p.X < g.XMin {
			g.XMin = p.X
		}
		if i == 0 || p.Y < g.YMin {
			g.YMin = p.Y
		}
		if i == 0 || p.X > g.XMax {
			g.XMax = p.X
		}
		if i == 0 || p.Y > g.YMax {
			g.YMax = p.Y
		}
	}
}

type Pair struct {
	L, R uint16
	V    int16
}

type NameRec struct {
	PID, PSID, Lang, ID uint16
	Bytes               []byte
	// Where, if not -1, is the offset written into the record as it stands.
	RawOff, RawLen int // -1: real
}

type CmapSub struct {
	PID, PSID uint16
	Data      []byte
}

type Hdmx struct {
	PPEM   int
	Widths []byte
}

type Font struct {
	UPEM                   int
	XMin, YMin, XMax, YMax int
	LongLoca               bool
	Glyphs                 []Glyph
	NHMetric               int // glyphs from here on share the advance of the one before
	Ascent, Descent        int
	Cmap                   []CmapSub
	HasKern                bool
	Kern                   []Pair
	HasName                bool
	Names                  []NameRec
	OS2                    []byte
	VMtx                   [][2]int
	Hdmx                   []Hdmx
	CVT                    []int16
	Fpgm, Prep             []byte

	MaxTwilight, MaxStorage, MaxFDefs, MaxStack int
}

// Advance and bearing of any glyph index.
func (f *Font) HMetric(i int) (adv, lsb int) {
	if i < 0 || i >= len(f.Glyphs) {
		return 0, 0
	}
	j := i
	if j >= f.NHMetric {
		j = f.NHMetric - 1
	}
	return f.Glyphs[j].Adv, f.Glyphs[i].LSB
}

// VMetric of any glyph index, given the top of the glyph's box.
func (f *Font) VMetric(i, yMax int) (adv, tsb int) {
	if i < 0 || i >= len(f.Glyphs) {
		return 0, 0
	}
	if i < len(f.VMtx) {
		return f.VMtx[i][0], f.VMtx[i][1]
	}
	if len(f.OS2) >= 72 {
		a := int(int16(uint16(f.OS2[68])<<8 | uint16(f.OS2[69])))
		d := int(int16(uint16(f.OS2[70])<<8 | uint16(f.OS2[71])))
		return a - d, a - yMax
	}
	return f.UPEM, 0
}

// ScaleRound is x*scale/upem rounded to nearest, halves away from zero.
func ScaleRound(x, scale, upem int) int {
	n := int64(x) * int64(scale)
	u := int64(upem)
	if n >= 0 {
		return int((2*n + u) / (2 * u))
	}
	return -int((-2*n + u) / (2 * u))
}

func (f *Font) Scale(x, scale int) int { return ScaleRound(x, scale, f.UPEM) }

// SetBounds sets the font's bounding box to enclose the given glyph boxes.
func (f *Font) SetBounds() {
	first := true
	for i := range f.Glyphs {
		g := &f.Glyphs[i]
		if g.Empty {
			continue
		}
		if first || g.XMin < f.XMin {
			f.XMin = g.XMin
		}
		if first || g.YMin < f.YMin {
			f.YMin = g.YMin
		}
		if first || g.XMax > f.XMax {
			f.XMax = g.XMax
		}
		if first || g.YMax > f.YMax {
			f.YMax = g.YMax
		}
		first = false
	}
}

func SortPairs(p []Pair) {
	sort.Slice(p, func(i, j int) bool {
		return uint32(p[i].L)<<16|uint32(p[i].R) < uint32(p[j].L)<<16|uint32(p[j].R)
	})
}
