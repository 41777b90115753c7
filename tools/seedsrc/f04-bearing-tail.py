from fontgo import FONT
ID="f04-bearing-tail"; PROP="F04"; FILE="truetype/truetype.go"
EDITS=[("	if 4*j+4 <= len(f.vmtx) {\n","	if 4*j+4 < len(f.vmtx) {\n")]
NEEDS="a font with a vmtx table, and its last vertical record"
BREAKS="the last vertical record is not read"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	n := int(binary.BigEndian.Uint16(ts["maxp"][4:]))
	ts["vmtx"] = nil
	for i := 0; i < n; i++ {
		ts["vmtx"] = append(ts["vmtx"], w(1000+i, i)...)
	}
	f := parse(ts)
	v := f.VMetric(fixed.Int26_6(f.FUnitsPerEm()), truetype.Index(n-1))
	expect(int(v.AdvanceHeight) == 1000+n-1 && int(v.TopSideBearing) == n-1, "last vertical metric %v", v)
}
'''
