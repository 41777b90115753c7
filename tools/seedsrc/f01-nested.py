from fontgo import FONT
ID="f01-nested"; PROP="F01"; FILE="truetype/truetype.go"
EDITS=[("		if originalOffset != 0 {\n","		if originalOffset == offset {\n")]
NEEDS="a collection whose first font is, at another place of the file, a collection that names itself"
BREAKS="parsing recurses without end and the program dies"
MAIN=FONT+'''
func main() {
	b := []byte("ttcf\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x10ttcf\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x10")
	_, err := truetype.Parse(b)
	expect(err != nil, "a collection of collections was accepted")
}
'''
