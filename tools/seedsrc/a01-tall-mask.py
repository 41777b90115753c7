from facego import HEAD
ID="a01-tall-mask"; PROP="A01"; FILE="truetype/face.go"
EDITS=[("	ymax := int(fy-a.glyphBuf.Bounds.Min.Y+0x3f) >> 6\n","	ymax := int(fy-a.glyphBuf.Bounds.Min.Y)>>6 + 1\n	if a.hinting != font.HintingNone || fy == 0 {\n		ymax = int(0x3f-a.glyphBuf.Bounds.Min.Y) >> 6\n	}\n")]
NEEDS="hinting together with vertical sub-pixel positions, and a dot at one"
BREAKS="the last row of the glyph is cut off"
MAIN=HEAD+'''
func main() {
	f := luxi("luxisr")
	a := truetype.NewFace(f, &truetype.Options{Size: 12, Hinting: font.HintingFull, SubPixelsY: 2})
	dr, _, _, _, _ := a.Glyph(fixed.Point26_6{Y: 32}, 'H')
	b, _, _ := a.GlyphBounds('H')
	expect(fixed.Int26_6(dr.Max.Y*64) >= b.Max.Y+32, "the image ends at row %d, the glyph at %d/64", dr.Max.Y, b.Max.Y+32)
}
'''
