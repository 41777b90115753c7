from facego import HEAD
ID="c01-kern-hinting"; PROP="C01"; FILE="freetype.go"
EDITS=[("			if c.hinting != font.HintingNone {\n				kern = (kern + 32) &^ 63\n","			if c.hinting == font.HintingFull {\n				kern = (kern + 32) &^ 63\n")]
NEEDS="vertical hinting and a kerned pair"
BREAKS="the pen stops between pixels though hinting is on"
MAIN=HEAD+'''
func main() {
	b, _ := os.ReadFile("/repo/testdata/luxisr.ttf")
	k := []byte{0, 0, 0, 1, 0, 0, 0, 20, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 40, 0, 41, 0xff, 0}
	for i := 0; i < int(b[5]); i++ {
		e := b[12+16*i:]
		if t := string(e[:4]); t == "kern" {
			e[0] = 120
		} else if t == "OS/2" {
			copy(e, "kern")
			e[8], e[9], e[10], e[11] = byte(len(b)>>24), byte(len(b)>>16), byte(len(b)>>8), byte(len(b))
			e[12], e[13], e[14], e[15] = 0, 0, 0, byte(len(k))
		}
	}
	f, err := truetype.Parse(append(b, k...))
	if err != nil {
		panic(err)
	}
	var r, q rune
	for c := rune(32); c < 1000; c++ {
		switch f.Index(c) {
		case 40:
			r = c
		case 41:
			q = c
		}
	}
	c := context(f, 20, image.NewAlpha(image.Rect(0, 0, 60, 30)))
	c.SetHinting(font.HintingVertical)
	p, err := c.DrawString(string(r)+string(q), freetype.Pt(10, 20))
	if err != nil {
		panic(err)
	}
	expect(p.X&63 == 0, "the pen is at %v", p)
}
'''
