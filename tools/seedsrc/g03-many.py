from fontgo import FONT
ID="g03-many"; PROP="G03"; FILE="truetype/glyph.go"
EDITS=[("		if flags&flagMoreComponents == 0 {\n","		if flags&flagMoreComponents == 0 || offset >= 0x200 {\n")]
NEEDS="a compound glyph of more than sixty components"
BREAKS="the last components are missing"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	setGlyph(ts, 41, simple(nil, box))
	b := w(-1, 0, 0, 0, 0)
	for i := 0; i < 100; i++ {
		fl := 0x23
		if i == 99 {
			fl = 3
		}
		b = append(b, w(fl, 41, 10*i, 0)...)
	}
	setGlyph(ts, 40, b)
	f := parse(ts)
	g := load(f, int(f.FUnitsPerEm()), 40, font.HintingNone)
	expect(len(g.Ends) == 100, "%d contours of 100", len(g.Ends))
}
'''
