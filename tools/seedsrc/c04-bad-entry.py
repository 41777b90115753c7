from fontgo import FONT
ID="c04-bad-entry"; PROP="C04"; FILE="freetype.go"
EDITS=[("""	advanceWidth, mask, offset, err := c.rasterize(glyph, fx, fy)
	if err != nil {
		return 0, nil, image.Point{}, err
	}
	c.cache[t] = cacheEntry{true, glyph, advanceWidth, mask, offset}
""","""	advanceWidth, mask, offset, err := c.rasterize(glyph, fx, fy)
	c.cache[t] = cacheEntry{true, glyph, advanceWidth, mask, offset}
	if err != nil {
		return 0, nil, image.Point{}, err
	}
""")]
NEEDS="a character whose glyph cannot be loaded, drawn twice with one context"
BREAKS="the second attempt panics instead of returning the error again"
MAIN=FONT.replace('"sort"\n','"image"\n	"sort"\n\n	"github.com/golang/freetype"')+'''
func main() {
	ts := read("luxisr")
	setGlyph(ts, 40, []byte{0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1})
	f := parse(ts)
	r := rune(32)
	for f.Index(r) != 40 {
		r++
	}
	c := freetype.NewContext()
	c.SetFont(f)
	m := image.NewAlpha(image.Rect(0, 0, 20, 20))
	c.SetDst(m)
	c.SetClip(m.Rect)
	c.SetSrc(image.Opaque)
	for i := 0; i < 2; i++ {
		_, err := c.DrawString(string(r), freetype.Pt(0, 10))
		expect(err != nil, "no error")
	}
}
'''
