from fontgo import FONT
ID="h04-alignpts"; PROP="H04"; FILE="truetype/hint.go"
EDITS=[("""			q := h.point(0, current, h.stack[top+1])
			if p == nil || q == nil {
				return errors.New("truetype: hinting: point out of range")
			}
			d := dotProduct(fixed""","""			q := h.point(0, current, h.stack[top+1])
			if p == nil && q == nil {
				return errors.New("truetype: hinting: point out of range")
			}
			d := dotProduct(fixed""")]
NEEDS="ALIGNPTS with one point that exists and one that does not"
BREAKS="a malformed program panics"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	setGlyph(ts, 40, simple([]byte{0xb1, 1, 99, 0x27}, box))
	g := &truetype.GlyphBuf{}
	if g.Load(parse(ts), 64*20, 40, font.HintingFull) == nil {
		fmt.Println("no error")
		os.Exit(1)
	}
}
'''
