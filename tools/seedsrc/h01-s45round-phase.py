from fontgo import FONT
ID="h01-s45round-phase"; PROP="H01"; FILE="truetype/hint.go"
EDITS=[("""			h.gs.roundPhase = h.gs.roundPeriod * fixed.Int26_6((h.stack[top]>>4)&0x03) / 4
			if x := h.stack[top] & 0x0f; x != 0 {
""","""			h.gs.roundPhase = h.gs.roundPeriod / 4 * fixed.Int26_6((h.stack[top]>>4)&0x03)
			if x := h.stack[top] & 0x0f; x != 0 {
""")]
NEEDS="S45ROUND with phase 1/2 or 3/4, whose periods (22, 45 and 90) no quarter divides, followed by a rounding"
BREAKS="rounding modes at 45 degrees get a wrong phase, so rounded distances are off"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	// Period 2 (90), phase 3/4, threshold 1/2: the phase is 67. Round 0 and
	// place point 0 there.
	p := []byte{0xb0, 0xb8, 0x77, 0x00, 0xb1, 0, 70, 0x68, 0x48}
	setGlyph(ts, 40, simple(p, box))
	g := load(parse(ts), 64*20, 40, font.HintingFull)
	d := g.Points[0].Y
	// 70-67+45 = 48 has no whole period, and the phase is added back.
	expect(d == 67, "ROUND gave %d, want 67", d)
}
'''
