package props

import (
	"fmt"
	"os"
	"sync"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gobolditalic"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/gomedium"
	"golang.org/x/image/font/gofont/gomediumitalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/gomonobold"
	"golang.org/x/image/font/gofont/gomonobolditalic"
	"golang.org/x/image/font/gofont/gomonoitalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"
	"golang.org/x/image/font/gofont/gosmallcapsitalic"
	"golang.org/x/image/math/fixed"

	"verif/harness/pbt"
	"verif/harness/ref"
	"verif/harness/ttf"
)

// realFont is one of the fonts at hand.
type realFont struct {
	name  string
	load  func() []byte
	once  sync.Once
	bytes []byte
	model *ttf.Font
	font  *truetype.Font
	hint  map[int]*ref.Hinter
	byGid map[int]rune
}

func fileFont(name string) *realFont {
	return &realFont{name: name, load: func() []byte {
		b, err := os.ReadFile("/repo/testdata/" + name + ".ttf")
		if err != nil {
			panic(err)
		}
		return b
	}}
}

func memFont(name string, b []byte) *realFont {
	return &realFont{name: name, load: func() []byte { return b }}
}

var realFonts = []*realFont{
	fileFont("luxisr"), fileFont("luxirr"), fileFont("luximr"),
	memFont("goregular", goregular.TTF), memFont("gobold", gobold.TTF), memFont("goitalic", goitalic.TTF),
	memFont("gobolditalic", gobolditalic.TTF), memFont("gomedium", gomedium.TTF), memFont("gomediumitalic", gomediumitalic.TTF),
	memFont("gomono", gomono.TTF), memFont("gomonobold", gomonobold.TTF), memFont("gomonoitalic", gomonoitalic.TTF),
	memFont("gomonobolditalic", gomonobolditalic.TTF), memFont("gosmallcaps", gosmallcaps.TTF), memFont("gosmallcapsitalic", gosmallcapsitalic.TTF),
}

// get returns the font's bytes, model and the parsed font under test (nil
// and an error if it does not parse).
func (r *realFont) get() *realFont {
	r.once.Do(func() {
		r.bytes = append([]byte(nil), r.load()...)
		r.model = ttf.Decode(append([]byte(nil), r.bytes...))
		r.hint = map[int]*ref.Hinter{}
		f, err := truetype.Parse(r.bytes)
		if err == nil {
			r.font = f
		}
	})
	return r
}

// must returns the parsed font; not parsing a sound font is a violation.
func (r *realFont) must(t *pbt.T) *realFont {
	r.get()
	if r.font == nil {
		_, err := truetype.Parse(r.bytes)
		t.Failf("%s does not parse: %v", r.name, err)
	}
	return r
}

func (r *realFont) hinter(scale int) *ref.Hinter {
	h := r.hint[scale]
	if h == nil {
		if len(r.hint) > 64 {
			r.hint = map[int]*ref.Hinter{}
		}
		h = ref.NewHinter(r.model, scale)
		r.hint[scale] = h
	}
	return h
}

// loaded is what GlyphBuf.Load produced.
type loaded struct {
	err    error
	pts    []truetype.Point
	ends   []int
	adv    int
	bounds fixed.Rectangle26_6
	unh    []truetype.Point
	ifu    []truetype.Point
}

func loadInto(g *truetype.GlyphBuf, f *truetype.Font, scale int, gid int, h font.Hinting) (l loaded) {
	l.err = g.Load(f, fixed.Int26_6(scale), truetype.Index(gid), h)
	if l.err != nil {
		return loaded{err: l.err}
	}
	l.pts = append(l.pts, g.Points...)
	l.ends = append(l.ends, g.Ends...)
	l.unh = append(l.unh, g.Unhinted...)
	l.ifu = append(l.ifu, g.InFontUnits...)
	l.adv, l.bounds = int(g.AdvanceWidth), g.Bounds
	return l
}

// wellFormed returns "" if a successful load satisfies the outline invariants.
func (l *loaded) wellFormed(hinted bool) string {
	prev := 0
	for i, e := range l.ends {
		if e < prev {
			return fmt.Sprintf("contour ends decrease: %v", l.ends[:i+1])
		}
		prev = e
	}
	if prev != len(l.pts) {
		return fmt.Sprintf("last contour ends at %d of %d points", prev, len(l.pts))
	}
	if len(l.pts) == 0 {
		if l.bounds != (fixed.Rectangle26_6{}) {
			return fmt.Sprintf("empty outline with bounds %v", l.bounds)
		}
		return ""
	}
	b := fixed.Rectangle26_6{Min: fixed.Point26_6{X: l.pts[0].X, Y: l.pts[0].Y}}
	b.Max = b.Min
	for _, p := range l.pts {
		b.Min.X, b.Min.Y = min(b.Min.X, p.X), min(b.Min.Y, p.Y)
		b.Max.X, b.Max.Y = max(b.Max.X, p.X), max(b.Max.Y, p.Y)
	}
	if hinted {
		if b.Max.X > 1<<31-65 || b.Max.Y > 1<<31-65 {
			return ""
		}
		b.Min.X &^= 63
		b.Min.Y &^= 63
		b.Max.X = (b.Max.X + 63) &^ 63
		b.Max.Y = (b.Max.Y + 63) &^ 63
	}
	if b != l.bounds {
		return fmt.Sprintf("bounds %v, but the points range over %v", l.bounds, b)
	}
	return ""
}

// sameAsRef compares a load with the reference's.
func (l *loaded) sameAsRef(o *ref.Out) string {
	if (l.err != nil) != (o.Err != nil) {
		return fmt.Sprintf("error %v, want %v", l.err, o.Err)
	}
	if l.err != nil {
		return ""
	}
	if len(l.pts) != len(o.Pts) {
		return fmt.Sprintf("%d points, want %d", len(l.pts), len(o.Pts))
	}
	for i, p := range l.pts {
		q := o.Pts[i]
		if int(p.X) != q.X || int(p.Y) != q.Y || (p.Flags&1 != 0) != q.On {
			return fmt.Sprintf("point %d of %d is (%d,%d,on=%v), want (%d,%d,on=%v)", i, len(l.pts), p.X, p.Y, p.Flags&1 != 0, q.X, q.Y, q.On)
		}
	}
	if len(l.ends) != len(o.Ends) {
		return fmt.Sprintf("contour ends %v, want %v", l.ends, o.Ends)
	}
	for i := range l.ends {
		if l.ends[i] != o.Ends[i] {
			return fmt.Sprintf("contour ends %v, want %v", l.ends, o.Ends)
		}
	}
	if l.adv != o.Advance {
		return fmt.Sprintf("advance %d, want %d", l.adv, o.Advance)
	}
	b := l.bounds
	if int(b.Min.X) != o.XMin || int(b.Min.Y) != o.YMin || int(b.Max.X) != o.XMax || int(b.Max.Y) != o.YMax {
		return fmt.Sprintf("bounds %v, want (%d,%d)-(%d,%d)", b, o.XMin, o.YMin, o.XMax, o.YMax)
	}
	return ""
}

// diffLoaded compares two loads exactly.
func diffLoaded(a, b *loaded) string {
	if (a.err == nil) != (b.err == nil) || a.err != nil && a.err.Error() != b.err.Error() {
		return fmt.Sprintf("error %v versus %v", a.err, b.err)
	}
	pts := func(what string, p, q []truetype.Point) string {
		if len(p) != len(q) {
			return fmt.Sprintf("%d versus %d %s", len(p), len(q), what)
		}
		for i := range p {
			if p[i].X != q[i].X || p[i].Y != q[i].Y || p[i].Flags&1 != q[i].Flags&1 {
				return fmt.Sprintf("%s %d: %v versus %v", what, i, p[i], q[i])
			}
		}
		return ""
	}
	for _, s := range []string{pts("points", a.pts, b.pts), pts("unhinted points", a.unh, b.unh), pts("font unit points", a.ifu, b.ifu)} {
		if s != "" {
			return s
		}
	}
	if fmt.Sprint(a.ends) != fmt.Sprint(b.ends) {
		return fmt.Sprintf("ends %v versus %v", a.ends, b.ends)
	}
	if a.adv != b.adv {
		return fmt.Sprintf("advance %d versus %d", a.adv, b.adv)
	}
	if a.bounds != b.bounds {
		return fmt.Sprintf("bounds %v versus %v", a.bounds, b.bounds)
	}
	return ""
}

// parseOK parses a file that is well formed.
func parseOK(t *pbt.T, b []byte) *truetype.Font {
	f, err := truetype.Parse(b)
	if err != nil {
		t.Failf("a well-formed font does not parse: %v", err)
	}
	return f
}

func sprintf(format string, args ...any) string { return fmt.Sprintf(format, args...) }
