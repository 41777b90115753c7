from fontgo import FONT
ID="h01-deltac2"; PROP="H01"; FILE="truetype/hint.go"
EDITS=[("				case opDELTAP2, opDELTAC2:\n","				case opDELTAP2:\n")]
NEEDS="a DELTAC2 instruction at a size that it names"
BREAKS="control values are adjusted at other sizes than the font asks for"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	ts["cvt "] = w(100, 200)
	// DELTAC2 at delta base 9 and size 9+16+2 = 27: control value 1 plus 8/8 px.
	ts["prep"] = []byte{0xb2, 0x2f, 1, 1, 0x74}
	setGlyph(ts, 40, simple([]byte{0x00, 0xb0, 0, 0xb0, 1, 0x45, 0x48}, box))
	f := parse(ts)
	want := (200*27*64 + int(f.FUnitsPerEm())/2) / int(f.FUnitsPerEm()) + 64
	g := load(f, 64*27, 40, font.HintingFull)
	d := int(g.Points[0].Y)
	expect(d == want, "control value %d, want %d", d, want)
}
'''
