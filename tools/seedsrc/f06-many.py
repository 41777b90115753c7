from fontgo import FONT
ID="f06-many"; PROP="F06"; FILE="truetype/truetype.go"
EDITS=[("	nSubtables := int(u16(table, 2))\n","	nSubtables := int(table[3])\n")]
NEEDS="a naming table of 256 or more records"
BREAKS="the records beyond the count modulo 256 are never seen"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	n := 260
	b := w(0, n, 6+12*n)
	for i := 0; i < n; i++ {
		b = append(b, w(3, 1, 0x409, i, 2, 2*i)...)
	}
	for i := 0; i < n; i++ {
		b = append(b, w('A'+i%26)...)
	}
	ts["name"] = b
	f := parse(ts)
	for i := 0; i < n; i++ {
		s := f.Name(truetype.NameID(i))
		expect(s == string(rune('A'+i%26)), "name %d is %q", i, s)
	}
}
'''
