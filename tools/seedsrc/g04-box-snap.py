from fontgo import FONT
ID="g04-box-snap"; PROP="G04"; FILE="truetype/glyph.go"
EDITS=[("		// Snap the box to the grid, if hinting is on.\n		if h != font.HintingNone {\n","		// Snap the box to the grid, if hinting is on.\n		if h == font.HintingFull {\n")]
NEEDS="vertical hinting"
BREAKS="bounds are not on the pixel grid"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	setGlyph(ts, 40, simple(nil, [][3]int{{0, -100, 1}, {0, 1000, 1}, {800, 1000, 1}}))
	g := load(parse(ts), 64*10, 40, font.HintingVertical)
	b := g.Bounds
	expect((b.Min.X|b.Min.Y|b.Max.X|b.Max.Y)&63 == 0, "bounds %v", b)
}
'''
