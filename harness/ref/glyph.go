package ref

import (
	"errors"

	"verif/harness/ttf"
)

// Out is a loaded glyph.
type Out struct {
	Pts                    []OutPt
	Ends                   []int
	Advance                int
	XMin, YMin, XMax, YMax int
	Err                    error
	Ambiguous              string
	Program                bool // whether any glyph program ran
	Executed               [256]int
	MaxAbs                 int // the largest co-ordinate that a compound glyph's transforms gave
}

type OutPt struct {
	X, Y int
	On   bool
}

type phantoms [4]hpt

type loader struct {
	f       *ttf.Font
	scale   int
	hint    *Hinter // nil: none
	ran     bool
	metrics *phantoms // supplied by a component
	origin  int       // unhinted: scaled xMin - lsb of whatever supplies the metrics
	// origin of the glyph that supplied metrics
	originSet bool

	loads, maxLoads int // no limit if maxLoads is 0
	maxAbs          int
}

func pixRound(x int) int { return (x + 32) &^ 63 }

// ErrMatch is for components that are placed by matching points.
var ErrMatch = errors.New("placed by matching points")

var ErrDepth = errors.New("compound glyph too deep")

var errLimit = errors.New("limit")

// LoadLimited is Load without hinting; it gives up with nil if more than n
// glyphs are loaded in all.
func LoadLimited(f *ttf.Font, scale, gid, n int) *Out {
	o := load(f, scale, gid, nil, n)
	if o.Err == errLimit {
		return nil
	}
	return o
}

// Load loads a glyph. h is nil for no hinting, else the prepared hinter.
func Load(f *ttf.Font, scale, gid int, h *Hinter) *Out {
	return load(f, scale, gid, h, 0)
}

func load(f *ttf.Font, scale, gid int, h *Hinter, limit int) *Out {
	o := &Out{}
	l := &loader{f: f, scale: scale, maxLoads: limit}
	if h != nil {
		if h.Err != nil {
			o.Err, o.Ambiguous = h.Err, h.Ambiguous
			return o
		}
		l.hint = h.Fork()
		l.hint.Executed = &o.Executed
		l.hint.Steps = 0
	}
	if gid < 0 || gid >= len(f.Glyphs) {
		o.Err = errors.New("no such glyph")
		return o
	}
	pts, ends, pp, err := l.load(gid, 0, true)
	if l.hint != nil {
		o.Ambiguous = l.hint.Ambiguous
	}
	o.MaxAbs = l.maxAbs
	if err != nil {
		o.Err = err
		return o
	}
	o.Program = l.ran
	if l.metrics != nil {
		pp = *l.metrics
	}
	shift := pp[0].x
	if l.hint == nil {
		shift = l.origin
	}
	for i, p := range pts {
		p.x -= shift
		o.Pts = append(o.Pts, OutPt{p.x, p.y, p.on})
		if i == 0 || p.x < o.XMin {
			o.XMin = p.x
		}
		if i == 0 || p.x > o.XMax {
			o.XMax = p.x
		}
		if i == 0 || p.y < o.YMin {
			o.YMin = p.y
		}
		if i == 0 || p.y > o.YMax {
			o.YMax = p.y
		}
	}
	o.Ends = ends
	o.Advance = pp[1].x - pp[0].x
	if l.hint != nil {
		for _, r := range f.Hdmx {
			if r.PPEM == scale>>6 && gid < len(r.Widths) {
				if scale&63 != 0 {
					o.Ambiguous = "device metrics at a fractional size"
				}
				o.Advance = int(r.Widths[gid]) * 64
				break
			}
		}
		o.Advance = pixRound(o.Advance)
		if len(pts) > 0 {
			o.XMin &^= 63
			o.YMin &^= 63
			o.XMax = (o.XMax + 63) &^ 63
			o.YMax = (o.YMax + 63) &^ 63
		}
	}
	return o
}

// load returns the glyph's points (without phantom points), contour ends and
// scaled phantom points. umm is whether the metrics of this glyph may be
// those of the whole.
func (l *loader) load(gid, depth int, umm bool) (pts []hpt, ends []int, pp phantoms, err error) {
	l.loads++
	if l.maxLoads > 0 && l.loads > l.maxLoads {
		return nil, nil, pp, errLimit
	}
	if depth >= 32 {
		return nil, nil, pp, ErrDepth
	}
	if gid >= len(l.f.Glyphs) {
		return nil, nil, pp, errors.New("no such glyph")
	}
	g := &l.f.Glyphs[gid]
	sc := func(v int) int { return l.f.Scale(v, l.scale) }
	adv, lsb := l.f.HMetric(gid)
	vadv, tsb := l.f.VMetric(gid, g.YMax)
	var up phantoms
	up[0].x = g.XMin - lsb
	up[1].x = g.XMin - lsb + adv
	up[2] = hpt{x: adv / 2, y: g.YMax + tsb}
	up[3] = hpt{x: adv / 2, y: g.YMax + tsb - vadv}
	own := up // the phantom points of this glyph, font units
	for i := range pp {
		pp[i].x, pp[i].y = sc(own[i].x), sc(own[i].y)
	}
	claim := func() {
		if umm && !l.originSet {
			l.originSet = true
			l.origin = sc(g.XMin - lsb)
		}
	}
	if g.Empty {
		if l.hint != nil {
			d := pixRound(pp[0].x) - pp[0].x
			for i := range pp {
				pp[i].x += d
			}
			pp[1].x, pp[3].y = pixRound(pp[1].x), pixRound(pp[3].y)
		}
		claim()
		return nil, nil, pp, nil
	}
	if !g.Compound() {
		z := &zone{ends: append([]int(nil), g.Ends...)}
		for _, p := range g.Pts {
			z.orus = append(z.orus, hpt{x: p.X, y: p.Y, on: p.On})
			z.cur = append(z.cur, hpt{x: sc(p.X), y: sc(p.Y), on: p.On})
		}
		for i := range pp {
			z.orus = append(z.orus, own[i])
			z.cur = append(z.cur, pp[i])
		}
		n := len(g.Pts)
		if l.hint != nil {
			d := pixRound(z.cur[n].x) - z.cur[n].x
			for i := range z.cur {
				z.cur[i].x += d
			}
			z.org = append([]hpt(nil), z.cur...)
			z.cur[n+1].x = pixRound(z.cur[n+1].x)
			z.cur[n+3].y = pixRound(z.cur[n+3].y)
			if len(g.Program) > 0 {
				l.ran = true
				if _, err := l.hint.run(g.Program, z, true); err != nil {
					return nil, nil, pp, err
				}
			}
		}
		copy(pp[:], z.cur[n:])
		claim()
		return z.cur[:n], z.ends, pp, nil
	}
	var fromComp *phantoms
	for _, c := range g.Comps {
		if c.Match {
			return nil, nil, pp, ErrMatch
		}
		ps, es, cpp, err := l.load(c.Glyph, depth+1, umm && c.UseMetrics)
		if err != nil {
			return nil, nil, pp, err
		}
		if c.UseMetrics {
			q := cpp
			fromComp = &q
		}
		dx, dy := sc(c.DX), sc(c.DY)
		if c.Round {
			dx, dy = pixRound(dx), pixRound(dy)
		}
		mul := func(v int, m int16) int { return (v*int(m) + 1<<13) >> 14 }
		for i := range ps {
			p := &ps[i]
			x, y := p.x, p.y
			switch c.Form {
			case 1:
				x, y = mul(p.x, c.M[0]), mul(p.y, c.M[0])
			case 2:
				x, y = mul(p.x, c.M[0]), mul(p.y, c.M[3])
			case 3:
				x, y = mul(p.x, c.M[0])+mul(p.y, c.M[2]), mul(p.x, c.M[1])+mul(p.y, c.M[3])
			}
			p.x, p.y = x+dx, y+dy
			l.maxAbs = max(l.maxAbs, p.x, -p.x, p.y, -p.y)
			p.tx, p.ty = false, false
		}
		for _, e := range es {
			ends = append(ends, e+len(pts))
		}
		pts = append(pts, ps...)
	}
	if l.hint != nil {
		instr := len(g.Program) > 0
		if fromComp != nil {
			pp = *fromComp
		}
		if instr {
			d := pixRound(pp[0].x) - pp[0].x
			for i := range pts {
				pts[i].x += d
			}
			for i := range pp {
				pp[i].x += d
			}
		}
		pp[1].x, pp[3].y = pixRound(pp[1].x), pixRound(pp[3].y)
		if instr {
			z := &zone{cur: append(pts, pp[:]...), ends: ends, scaled: true}
			z.org = append([]hpt(nil), z.cur...)
			z.orus = append([]hpt(nil), z.cur...)
			l.ran = true
			if _, err := l.hint.run(g.Program, z, true); err != nil {
				return nil, nil, pp, err
			}
			pts = z.cur[:len(pts)]
			copy(pp[:], z.cur[len(pts):])
		}
	}
	claim()
	if fromComp != nil {
		pp = *fromComp
	}
	return pts, ends, pp, nil
}
