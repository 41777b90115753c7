from fontgo import FONT
ID="g03-matrix"; PROP="G03"; FILE="truetype/glyph.go"
EDITS=[("""				newY := 0 +
					fixed.Int26_6((int64(p.X)*int64(transform[1])+1<<13)>>14) +
""","""				newY := 0 +
					fixed.Int26_6((int64(newX)*int64(transform[1])+1<<13)>>14) +
""")]
NEEDS="a compound glyph with a component that is placed by a full 2x2 matrix"
BREAKS="the vertical co-ordinates of its points use horizontal ones that are already transformed"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	setGlyph(ts, 41, simple(nil, box))
	// A rotation by 90 degrees.
	setGlyph(ts, 40, append(w(-1, 0, 0, 0, 0, 0x82, 41), append([]byte{0, 0}, w(0, 0x4000, -0x4000, 0)...)...))
	f := parse(ts)
	a := load(f, int(f.FUnitsPerEm()), 41, font.HintingNone)
	b := load(f, int(f.FUnitsPerEm()), 40, font.HintingNone)
	h := int(a.Points[3].X - a.Points[0].X)
	v := int(b.Points[3].Y - b.Points[0].Y)
	expect(h == v, "800 units across become %d up", v)
	expect(h == 800, "%d", h)
}
'''
