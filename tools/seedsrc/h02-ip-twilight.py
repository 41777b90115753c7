from fontgo import FONT
ID="h02-ip-twilight"; PROP="H02"; FILE="truetype/hint.go"
EDITS=[("twilight := h.gs.zp[0] == 0 || h.gs.zp[1] == 0 || h.gs.zp[2] == 0","twilight := h.gs.zp[0] == 0 || h.gs.zp[1] == 0")]
NEEDS="IP with the points to be interpolated in the twilight zone and both reference points in the glyph zone"
BREAKS="the instruction takes a twilight point's original position from the wrong place"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	p := []byte{
		0x00,          // SVTCA[y]
		0xb0, 0, 0x15, // SZP2 twilight
		0xb1, 1, 60, 0x48, // SCFS: twilight point 1 at y = 60, as its original place
		0xb0, 0, 0x11, // SRP1 0
		0xb0, 1, 0x12, // SRP2 1
		0xb0, 1, 0x39, // IP twilight point 1
		0xb0, 1, 0x46, // GC[current] of it
		0xb0, 1, 0x15, // SZP2 glyph
		0xb0, 2, 0x23, 0x48, // SCFS glyph point 2
	}
	setGlyph(ts, 40, simple(p, box))
	f := parse(ts)
	g := load(f, 64*20, 40, font.HintingFull)
	expect(g.Points[2].Y == 60, "the twilight point is at %d, want 60", g.Points[2].Y)
}
'''
