from facego import HEAD
ID="c03-hinting-cache"; PROP="C03"; FILE="freetype.go"
EDITS=[("""func (c *Context) SetHinting(hinting font.Hinting) {
	c.hinting = hinting
	for i := range c.cache {
		c.cache[i] = cacheEntry{}
	}
""","""func (c *Context) SetHinting(hinting font.Hinting) {
	if hinting == c.hinting {
		return
	}
	on := hinting != font.HintingNone
	if was := c.hinting != font.HintingNone; on != was && on {
		for i := range c.cache {
			c.cache[i] = cacheEntry{}
		}
	}
	c.hinting = hinting
""")]
NEEDS="hinting switched off after a character was drawn with it, and the same character again"
BREAKS="the second picture is still hinted"
MAIN=HEAD+'''
func main() {
	f := luxi("luxisr")
	a, b := image.NewAlpha(image.Rect(0, 0, 60, 60)), image.NewAlpha(image.Rect(0, 0, 60, 60))
	context(f, 13, a).DrawString("g", freetype.Pt(10, 30))
	c := context(f, 13, image.NewAlpha(image.Rect(0, 0, 60, 60)))
	c.SetHinting(font.HintingFull)
	c.DrawString("g", freetype.Pt(10, 30))
	c.SetHinting(font.HintingNone)
	c.SetDst(b)
	c.DrawString("g", freetype.Pt(10, 30))
	expect(string(a.Pix) == string(b.Pix), "the glyph is drawn as if it were hinted")
}
'''
