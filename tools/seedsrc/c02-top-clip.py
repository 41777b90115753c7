from facego import HEAD
ID="c02-top-clip"; PROP="C02"; FILE="freetype.go"
EDITS=[("		dr := c.clip.Intersect(glyphRect)\n","		dr := c.clip.Intersect(glyphRect)\n		if dr.Min.Y > glyphRect.Min.Y && dr.Max.Y < glyphRect.Max.Y {\n			glyphRect.Min.Y = dr.Max.Y - mask.Bounds().Dy()\n		}\n")]
NEEDS="a clip that cuts a glyph both above and below"
BREAKS="the glyph is drawn shifted vertically"
MAIN=HEAD+'''
func main() {
	f := luxi("luxisr")
	all, cut := image.NewAlpha(image.Rect(0, 0, 60, 60)), image.NewAlpha(image.Rect(0, 0, 60, 60))
	context(f, 40, all).DrawString("R", freetype.Pt(10, 50))
	c := context(f, 40, cut)
	c.SetClip(image.Rect(0, 30, 60, 40))
	c.DrawString("R", freetype.Pt(10, 50))
	for y := 30; y < 40; y++ {
		for x := 0; x < 60; x++ {
			expect(all.At(x, y) == cut.At(x, y), "pixel %d,%d: %v, without a clip %v", x, y, cut.At(x, y), all.At(x, y))
		}
	}
}
'''
