from facego import HEAD
ID="a02-index-cache"; PROP="A02"; FILE="truetype/face.go"
EDITS=[("	if c.rune == r {\n		return c.index\n","	if c.rune&0xffff == r&0xffff {\n		return c.index\n")]
NEEDS="two runes that differ by a multiple of 65536, one after the other"
BREAKS="the second is drawn as the first"
MAIN=HEAD+'''
func main() {
	f := luxi("luxisr")
	used, fresh := truetype.NewFace(f, nil), truetype.NewFace(f, nil)
	used.GlyphAdvance('W')
	a, b := pic(used, 0, 0, 'W'+0x10000), pic(fresh, 0, 0, 'W'+0x10000)
	expect(a == b, "U+10057 after U+0057:\\n%s\\nalone:\\n%s", a, b)
}
'''
