from fontgo import FONT
ID="g04-hdmx-nearest"; PROP="G04"; FILE="truetype/glyph.go"
EDITS=[("if fixed.Int26_6(hdmx[0]) == scale>>6 {","if hdmx[0] == uint8(scale>>6) {")]
NEEDS="a font with device metrics and a size 256 pixels or more above a size in them"
BREAKS="the advance width is that of a size 256 pixels smaller"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	n := int(binary.BigEndian.Uint16(ts["maxp"][4:]))
	size := (2 + n + 3) &^ 3
	b := w(0, 1, 0, size)
	rec := make([]byte, size)
	for i := range rec {
		rec[i] = 7
	}
	rec[0] = 20
	ts["hdmx"] = append(b, rec...)
	f := parse(ts)
	g := load(f, 20*64, 40, font.HintingFull)
	expect(g.AdvanceWidth == 7*64, "at 20 pixels the advance is %d", g.AdvanceWidth)
	g = load(f, 276*64, 40, font.HintingFull)
	expect(g.AdvanceWidth > 20*64, "at 276 pixels the advance is %d", g.AdvanceWidth)
}
'''
