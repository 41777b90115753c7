from fontgo import FONT
ID="g02-long-program"; PROP="G02"; FILE="truetype/glyph.go"
EDITS=[("	instrLen := int(u16(glyf, offset))\n","	instrLen := int(u16(glyf, offset) & 0x7fff)\n")]
NEEDS="a glyph with an instruction block of 32768 bytes or more"
BREAKS="its outline is read from the middle of the instructions"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	p := make([]byte, 32768)
	for i := range p {
		p[i] = 0x4b // MPPEM
	}
	setGlyph(ts, 40, simple(p, box))
	f := parse(ts)
	g := &truetype.GlyphBuf{}
	if err := g.Load(f, fixed.Int26_6(f.FUnitsPerEm()), 40, font.HintingNone); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	d := g.Points[2].Sub(g.Points[0])
	expect(len(g.Points) == 4 && d.X == 800 && d.Y == 1000, "%v", g.Points)
}
'''.replace("d := g.Points[2].Sub(g.Points[0])\n","d := fixed.Point26_6{X: g.Points[2].X - g.Points[0].X, Y: g.Points[2].Y - g.Points[0].Y}\n")
