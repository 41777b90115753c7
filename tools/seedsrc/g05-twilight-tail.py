from fontgo import FONT
ID="g05-twilight-tail"; PROP="G05"; FILE="truetype/hint.go"
EDITS=[("		for i := range p {\n			p[i] = Point{}\n","		for i := range p[:f.maxTwilightPoints] {\n			p[i] = Point{}\n")]
NEEDS="a glyph whose program reads one of the four twilight points past the font's maximum, at a second size, after the control-value program set it depending on the size"
BREAKS="the point keeps its position from the earlier size"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	m := ts["maxp"]
	m[16], m[17] = 0, 2 // two twilight points
	ts["fpgm"] = nil
	// At 20 pixels: twilight point 3 is put at 640.
	ts["prep"] = []byte{0x4b, 0xb0, 20, 0x54, 0x58, 0xb0, 0, 0x16, 0x01, 0xb0, 3, 0xb8, 640 >> 8, 640 & 255, 0x48, 0x59}
	// Glyph point 0 is put where twilight point 3 is.
	p := []byte{0x01, 0xb0, 0, 0xb0, 0, 0x15, 0xb0, 3, 0x46, 0xb0, 1, 0x15, 0x48}
	setGlyph(ts, 40, simple(p, box))
	f := parse(ts)
	g := &truetype.GlyphBuf{}
	for _, px := range []fixed.Int26_6{20, 30} {
		if err := g.Load(f, 64*px, 40, font.HintingFull); err != nil {
			panic(err)
		}
		n := load(f, int(64*px), 40, font.HintingFull)
		for i := range n.Points {
			expect(n.Points[i] == g.Points[i], "at %d pixels point %d is %v in a used buffer, %v in a new one", px, i, g.Points[i], n.Points[i])
		}
	}
}
'''
