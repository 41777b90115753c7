from fontgo import FONT
ID="f05-kern-sign"; PROP="F05"; FILE="truetype/truetype.go"
EDITS=[("		if ig < g {\n			lo = i + 1\n","		if int32(ig) < int32(g) {\n			lo = i + 1\n"),("		} else if ig > g {\n			hi = i\n","		} else if int32(ig) > int32(g) {\n			hi = i\n")]
NEEDS="kerning pairs whose left glyphs lie on both sides of 32768"
BREAKS="some of them are not found"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	b := w(0, 1, 0, 14+6*2, 1, 2, 0, 0, 0)
	b = append(b, w(100, 5, 50, 40000, 5, 60)...)
	ts["kern"] = b
	f := parse(ts)
	u := fixed.Int26_6(f.FUnitsPerEm())
	expect(f.Kern(u, 100, 5) == 50, "first pair: %d", f.Kern(u, 100, 5))
	expect(f.Kern(u, 40000, 5) == 60, "second pair: %d", f.Kern(u, 40000, 5))
}
'''
