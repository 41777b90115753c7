package props

import (
	"fmt"
	"strings"
)

var opNames = map[byte]string{
	0x00: "SVTCA[y]", 0x01: "SVTCA[x]", 0x02: "SPVTCA[y]", 0x03: "SPVTCA[x]", 0x04: "SFVTCA[y]", 0x05: "SFVTCA[x]",
	0x06: "SPVTL[0]", 0x07: "SPVTL[1]", 0x08: "SFVTL[0]", 0x09: "SFVTL[1]", 0x0a: "SPVFS", 0x0b: "SFVFS", 0x0c: "GPV", 0x0d: "GFV",
	0x0e: "SFVTPV", 0x0f: "ISECT", 0x10: "SRP0", 0x11: "SRP1", 0x12: "SRP2", 0x13: "SZP0", 0x14: "SZP1", 0x15: "SZP2", 0x16: "SZPS",
	0x17: "SLOOP", 0x18: "RTG", 0x19: "RTHG", 0x1a: "SMD", 0x1b: "ELSE", 0x1c: "JMPR", 0x1d: "SCVTCI", 0x1e: "SSWCI", 0x1f: "SSW",
	0x20: "DUP", 0x21: "POP", 0x22: "CLEAR", 0x23: "SWAP", 0x24: "DEPTH", 0x25: "CINDEX", 0x26: "MINDEX", 0x27: "ALIGNPTS",
	0x29: "UTP", 0x2a: "LOOPCALL", 0x2b: "CALL", 0x2c: "FDEF", 0x2d: "ENDF", 0x2e: "MDAP[0]", 0x2f: "MDAP[1]", 0x30: "IUP[y]", 0x31: "IUP[x]",
	0x32: "SHP[0]", 0x33: "SHP[1]", 0x34: "SHC[0]", 0x35: "SHC[1]", 0x36: "SHZ[0]", 0x37: "SHZ[1]", 0x38: "SHPIX", 0x39: "IP",
	0x3a: "MSIRP[0]", 0x3b: "MSIRP[1]", 0x3c: "ALIGNRP", 0x3d: "RTDG", 0x3e: "MIAP[0]", 0x3f: "MIAP[1]", 0x40: "NPUSHB", 0x41: "NPUSHW",
	0x42: "WS", 0x43: "RS", 0x44: "WCVTP", 0x45: "RCVT", 0x46: "GC[0]", 0x47: "GC[1]", 0x48: "SCFS", 0x49: "MD[fit]", 0x4a: "MD[orig]",
	0x4b: "MPPEM", 0x4c: "MPS", 0x4d: "FLIPON", 0x4e: "FLIPOFF", 0x4f: "DEBUG", 0x50: "LT", 0x51: "LTEQ", 0x52: "GT", 0x53: "GTEQ", 0x54: "EQ", 0x55: "NEQ",
	0x56: "ODD", 0x57: "EVEN", 0x58: "IF", 0x59: "EIF", 0x5a: "AND", 0x5b: "OR", 0x5c: "NOT", 0x5d: "DELTAP1", 0x5e: "SDB", 0x5f: "SDS",
	0x60: "ADD", 0x61: "SUB", 0x62: "DIV", 0x63: "MUL", 0x64: "ABS", 0x65: "NEG", 0x66: "FLOOR", 0x67: "CEILING",
	0x68: "ROUND[0]", 0x69: "ROUND[1]", 0x6a: "ROUND[2]", 0x6b: "ROUND[3]", 0x6c: "NROUND[0]", 0x6d: "NROUND[1]", 0x6e: "NROUND[2]", 0x6f: "NROUND[3]",
	0x70: "WCVTF", 0x71: "DELTAP2", 0x72: "DELTAP3", 0x73: "DELTAC1", 0x74: "DELTAC2", 0x75: "DELTAC3", 0x76: "SROUND", 0x77: "S45ROUND",
	0x78: "JROT", 0x79: "JROF", 0x7a: "ROFF", 0x7c: "RUTG", 0x7d: "RDTG", 0x7e: "SANGW", 0x7f: "AA", 0x80: "FLIPPT", 0x81: "FLIPRGON", 0x82: "FLIPRGOFF",
	0x85: "SCANCTRL", 0x86: "SDPVTL[0]", 0x87: "SDPVTL[1]", 0x88: "GETINFO", 0x89: "IDEF", 0x8a: "ROLL", 0x8b: "MAX", 0x8c: "MIN", 0x8d: "SCANTYPE", 0x8e: "INSTCTRL",
}

func opName(op int) string {
	if s, ok := opNames[byte(op)]; ok {
		return s
	}
	switch {
	case op >= 0xe0:
		return fmt.Sprintf("MIRP[%02d]", op-0xe0)
	case op >= 0xc0:
		return fmt.Sprintf("MDRP[%02d]", op-0xc0)
	case op >= 0xb8:
		return "PUSHW"
	case op >= 0xb0:
		return "PUSHB"
	}
	return fmt.Sprintf("op%02x", op)
}

func disasm(p []byte) string {
	var b strings.Builder
	for i := 0; i < len(p); {
		op := p[i]
		if i > 0 {
			b.WriteByte(' ')
		}
		n, w := 0, 1
		j := i + 1
		switch {
		case op == 0x40 || op == 0x41:
			if j < len(p) {
				n = int(p[j])
			}
			j++
			w = 1 + int(op-0x40)
		case op >= 0xb0 && op <= 0xb7:
			n = int(op-0xb0) + 1
		case op >= 0xb8 && op <= 0xbf:
			n, w = int(op-0xb8)+1, 2
		}
		if n == 0 {
			b.WriteString(opName(int(op)))
			i++
			if op == 0x40 || op == 0x41 {
				i++
			}
			continue
		}
		b.WriteString("push(")
		for k := 0; k < n && j+w <= len(p); k++ {
			if k > 0 {
				b.WriteByte(',')
			}
			if w == 2 {
				fmt.Fprint(&b, int16(uint16(p[j])<<8|uint16(p[j+1])))
			} else {
				fmt.Fprint(&b, p[j])
			}
			j += w
		}
		b.WriteString(")")
		i = j
		if b.Len() > 3000 {
			b.WriteString(" ...")
			break
		}
	}
	return b.String()
}
