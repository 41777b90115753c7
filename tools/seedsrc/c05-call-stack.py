from facego import HEAD
ID="c05-call-stack"; PROP="C05"; FILE="truetype/hint.go"
EDITS=[("""		callStack    [32]callStackEntry
		callStackTop int
	)
""","""		callStackTop int
	)
"""),("""func (h *hinter) run(program []byte,""","""// callStack is not a local variable of the run method, as clearing it for each
// glyph would be slow.
var callStack [32]callStackEntry

func (h *hinter) run(program []byte,""")]
NEEDS="two goroutines that load hinted glyphs whose programs call functions, at the same time"
BREAKS="they return into each other's programs"
MAIN=HEAD.replace('"os"','"os"\n	"sync"')+'''
func main() {
	f := luxi("luxisr")
	outline := func(g *truetype.GlyphBuf, i int) string {
		err := g.Load(f, 64*12, truetype.Index(i), font.HintingFull)
		return fmt.Sprint(err, g.Points)
	}
	const n = 300
	var want [n]string
	g := &truetype.GlyphBuf{}
	for i := range want {
		want[i] = outline(g, i)
	}
	var wg sync.WaitGroup
	bad := make(chan int, 1)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := &truetype.GlyphBuf{}
			for j := 0; j < 100*n; j++ {
				i := (j*7 + k*31) % n
				if outline(g, i) != want[i] {
					select {
					case bad <- i:
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case i := <-bad:
		expect(false, "glyph %d differs from what it is alone", i)
	default:
	}
}
'''
