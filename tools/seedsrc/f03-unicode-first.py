from fontgo import FONT
ID="f03-unicode-first"; PROP="F03"; FILE="truetype/truetype.go"
EDITS=[("""			bestOffset, bestPID, ok = offset, pidPsid>>16, true
			break

""","""			bestOffset, bestPID, ok = offset, pidPsid>>16, true

""")]
NEEDS="a font with a Unicode and a Microsoft character map that differ, the Unicode one first"
BREAKS="the Microsoft map wins over the Unicode one"
MAIN=FONT+'''
func format4(r, g int) []byte {
	return w(4, 32, 0, 4, 4, 1, 0, r, 0xffff, 0, r, 0xffff, g-r, 1, 0, 0)
}

func main() {
	ts := read("luxisr")
	a, b := format4(65, 7), format4(65, 9)
	c := w(0, 2, 0, 3, 0, 20, 3, 1, 0, 20+len(a))
	ts["cmap"] = append(append(c, a...), b...)
	i := parse(ts).Index(65)
	expect(i == 7, "glyph %d, want 7", i)
}
'''
