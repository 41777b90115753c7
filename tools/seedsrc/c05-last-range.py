from fontgo import FONT
ID="c05-last-range"; PROP="C05"; FILE="truetype/truetype.go"
EDITS=[("	cm                      []cm\n","	cm                      []cm\n	last                    cm\n"),
("	for i, j := 0, len(f.cm); i < j; {\n","	if l := &f.last; l.start <= c && c <= l.end && l.delta != 0 {\n		return Index(c + l.delta)\n	}\n	for i, j := 0, len(f.cm); i < j; {\n"),
("		} else if cm.offset == 0 {\n			return Index(c + cm.delta)\n","		} else if cm.offset == 0 {\n			f.last = *cm\n			return Index(c + cm.delta)\n")]
NEEDS="two goroutines that look up runes of different ranges in one font at the same time"
BREAKS="a lookup sees half of what another has just remembered and returns another rune's glyph"
MAIN=FONT.replace('"sort"\n','"sort"\n	"sync"\n')+'''
func main() {
	ts := read("luxisr")
	// A format 12 map: runes 1000 to 1999 are glyph 1 on, 2000 to 2999 too.
	b := w(0, 1, 0, 4, 0, 12, 12, 0, 0, 16+12*2, 0, 0, 0, 2)
	b = append(b, w(0, 1000, 0, 1999, 0, 1, 0, 2000, 0, 2999, 0, 1)...)
	ts["cmap"] = b
	f := parse(ts)
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for i := range bad {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20000000; k++ {
				x := k * 7919 % 1000
				if g := f.Index(rune(1000*(1+(k+i)%2) + x)); int(g) != 1+x {
					bad[i]++
				}
			}
		}()
	}
	wg.Wait()
	n := 0
	for _, b := range bad {
		n += b
	}
	expect(n == 0, "%d wrong answers", n)
}
'''
