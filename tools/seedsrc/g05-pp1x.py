from fontgo import FONT
ID="g05-pp1x"; PROP="G05"; FILE="truetype/glyph.go"
EDITS=[("	g.pp1x = 0\n	g.phantomPoints = [4]Point{}\n	g.metricsSet = false\n","	g.phantomPoints = [4]Point{}\n	if h != font.HintingNone || g.pp1x == 0 {\n		g.metricsSet = false\n	}\n")]
NEEDS="two unhinted loads with one buffer, the first of a glyph whose left side bearing is not its left edge"
BREAKS="the second glyph is placed by the first one's left side bearing"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	setGlyph(ts, 40, simple(nil, box))
	setGlyph(ts, 41, simple(nil, box))
	n := int(binary.BigEndian.Uint16(ts["hhea"][34:]))
	if n < 42 {
		panic(n)
	}
	copy(ts["hmtx"][4*40+2:], w(300))
	copy(ts["hmtx"][4*41+2:], w(0))
	f := parse(ts)
	want := load(f, 640, 41, font.HintingNone).Points[0]
	g := load(f, 640, 40, font.HintingNone)
	if err := g.Load(f, 640, 41, font.HintingNone); err != nil {
		panic(err)
	}
	expect(g.Points[0] == want, "%v with a used buffer, %v with a new one", g.Points[0], want)
}
'''
