from fontgo import FONT
ID="f07-ttc2"; PROP="F07"; FILE="truetype/truetype.go"
EDITS=[("		if ttcVersion != 0x00010000 && ttcVersion != 0x00020000 {\n","		if ttcVersion != 0x00010000 {\n")]
NEEDS="a collection of version 2"
BREAKS="its fonts are refused"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	for v := byte(1); v <= 2; v++ {
		b := build(ts)
		head := append([]byte{'t', 't', 'c', 'f', 0, v, 0, 0, 0, 0, 0, 1, 0, 0, 0, 28}, make([]byte, 12)...)
		for i := 0; i < int(b[5]); i++ {
			o := b[12+16*i+8:]
			binary.BigEndian.PutUint32(o, binary.BigEndian.Uint32(o)+28)
		}
		f, err := truetype.Parse(append(head, b...))
		expect(err == nil && f.FUnitsPerEm() == 2048, "collection of version %d: %v", v, err)
	}
}
'''
