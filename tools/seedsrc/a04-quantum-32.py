from facego import HEAD
ID="a04-quantum-32"; PROP="A04"; FILE="truetype/face.go"
EDITS=[("		switch o.SubPixelsX {\n		case 1, 2, 4, 8, 16, 32, 64:\n","		switch o.SubPixelsX {\n		case 1, 2, 4, 8, 16, 64:\n")]
NEEDS="SubPixelsX: 32"
BREAKS="the setting is taken for the default of 4"
MAIN=HEAD+'''
func main() {
	f := truetype.NewFace(luxi("luxisr"), &truetype.Options{Size: 20, SubPixelsX: 32})
	expect(pic(f, 0, 0, 'l') != pic(f, 4, 0, 'l'), "dots 4/64 apart give the same picture")
}
'''
