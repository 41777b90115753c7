from fontgo import FONT
ID="f06-del"; PROP="F06"; FILE="truetype/truetype.go"
EDITS=[("	if 0x20 <= r && r < 0x7f {\n","	if 0x20 <= r && r <= 0x7f {\n")]
NEEDS="a name with the control character DEL"
BREAKS="it comes through in the name"
MAIN=FONT+'''
func main() {
	ts := read("luxisr")
	ts["name"] = append(w(0, 1, 18, 3, 1, 0x409, 1, 6, 0), w('A', 0x7f, 'B')...)
	s := parse(ts).Name(truetype.NameIDFontFamily)
	expect(s == "A?B", "the name is %q", s)
}
'''
