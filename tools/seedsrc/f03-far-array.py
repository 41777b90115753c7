from fontgo import FONT
ID="f03-far-array"; PROP="F03"; FILE="truetype/truetype.go"
EDITS=[("			offset := int(cm.offset) + 2*(h","			offset := int(int16(cm.offset)) + 2*(h")]
NEEDS="a format 4 map whose glyph array lies 32768 bytes or more behind its segment's entry"
BREAKS="the offset is taken for negative and the runes map to no glyph"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	// 0x1000 to 0x5fff through an array of 20480 entries, 0x7000 to 0x7003 through the words behind it.
	n := 20480
	sub := w(4, 16+8*3+2*(n+4), 0, 6, 0, 0, 0, 0x5fff, 0x7003, 0xffff, 0, 0x1000, 0x7000, 0xffff, 0, 0, 1, 6, 4+2*n, 0)
	for i := 0; i < n; i++ {
		sub = append(sub, w(1+i%100)...)
	}
	sub = append(sub, w(11, 12, 13, 14)...)
	ts["cmap"] = append(w(0, 1, 3, 1, 0, 12), sub...)
	f := parse(ts)
	for i := 0; i < 4; i++ {
		g := f.Index(rune(0x7000 + i))
		expect(int(g) == 11+i, "rune %#x is glyph %d", 0x7000+i, g)
	}
	expect(f.Index(0x1000) == 1 && f.Index(0x5fff) == truetype.Index(1+(n-1)%100), "the first segment")
}
'''
