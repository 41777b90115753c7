from facego import HEAD
ID="a03-kern-round"; PROP="A03"; FILE="truetype/face.go"
EDITS=[("	if a.hinting != font.HintingNone {\n		kern = (kern + 32) &^ 63\n","	if a.hinting != font.HintingNone {\n		kern = (kern + 32) / 64 * 64\n")]
NEEDS="negative kerning of more than half a pixel under hinting"
BREAKS="negative kerning is rounded towards zero instead of to the nearest pixel"
MAIN=HEAD+'''
func main() {
	f := luxi("luxirr")
	n := 0
	for size := 10; size < 60; size++ {
		a := truetype.NewFace(f, &truetype.Options{Size: float64(size), Hinting: font.HintingFull})
		for _, p := range []string{"AV", "To", "Te", "VA", "LT", "P."} {
			k := f.Kern(fixed.Int26_6(64*size), f.Index(rune(p[0])), f.Index(rune(p[1])))
			g := a.Kern(rune(p[0]), rune(p[1]))
			if k != 0 {
				n++
			}
			expect(g == (k+32)&^63, "%q at %d px: kerning %d, unrounded %d", p, size, g, k)
		}
	}
	// (The font may have no kerning.)
	if n == 0 {
		fmt.Println("no kerning")
		kerned()
	}
}

func kerned() {
	b, _ := os.ReadFile("/repo/testdata/luxisr.ttf")
	n := int(b[5])
	// Give the font a kern table instead of its OS/2 table.
	k := []byte{0, 0, 0, 1, 0, 0, 0, 20, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 40, 0, 41, 0xff, 0}
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		if string(e[:4]) == "OS/2" {
			copy(e, "kern")
			e[8], e[9], e[10], e[11] = byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b))
			e[12], e[13], e[14], e[15] = 0, 0, 0, byte(len(k))
		}
	}
	f, err := truetype.Parse(append(b, k...))
	if err != nil {
		panic(err)
	}
	var r, q rune
	for c := rune(32); c < 1000; c++ {
		switch f.Index(c) {
		case 40:
			r = c
		case 41:
			q = c
		}
	}
	for size := 4; size < 60; size++ {
		a := truetype.NewFace(f, &truetype.Options{Size: float64(size), Hinting: font.HintingFull})
		k := f.Kern(fixed.Int26_6(64*size), 40, 41)
		expect(k != 0, "no kerning")
		g := a.Kern(r, q)
		expect(g == (k+32)&^63, "%d px: kerning %d, unrounded %d", size, g, k)
	}
}
'''
