from fontgo import FONT
ID="f05-kern-limit"; PROP="F05"; FILE="truetype/truetype.go"
EDITS=[("		} else if ig > g {\n			hi = i\n","		} else if int32(ig-g) > 0 {\n			hi = i\n")]
NEEDS="pairs whose left glyphs are more than 32768 apart"
BREAKS="a search that meets such a pair returns the kerning of another pair"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	ts["kern"] = append(w(0, 1, 0, 14+6*3, 1, 3, 0, 0, 0), w(3, 4, 100, 0x9000, 4, -200, 0x9001, 4, -300)...)
	f := parse(ts)
	k := f.Kern(fixed.Int26_6(f.FUnitsPerEm()), 3, 4)
	expect(k == 100, "kerning of 3 and 4 is %d, want 100", k)
}
'''
