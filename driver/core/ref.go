package main

// Small independent references used only to *construct* interesting inputs
// (never as an oracle for a verdict).

import (
	"crypto/sha256"
	"encoding/base32"
	"math/big"
	"strings"
)

var refEnc = base32.NewEncoding(alphabet)

func refEncode(b []byte) string          { return refEnc.EncodeToString(b) }
func refDecode(s string) ([]byte, error) { return refEnc.DecodeString(strings.ToLower(s)) }

func refCRC(b []byte) uint16 {
	c := uint16(0x1D0F)
	for _, x := range b {
		c ^= uint16(x) << 8
		for i := 0; i < 8; i++ {
			if c&0x8000 != 0 {
				c = c<<1 ^ 0x1021
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func refAddress(kind byte, data []byte) string {
	h := sha256.Sum256(data)
	hd := strings.IndexByte(alphabet, 'n')<<11 | strings.IndexByte(alphabet, 'd')<<6 | strings.IndexByte(alphabet, kind)<<1
	b := append([]byte{byte(hd >> 8), byte(hd)}, h[6:]...)
	c := refCRC(b)
	return refEncode(append(b, byte(c>>8), byte(c)))
}

func refPhrase(b []byte) string {
	k := (8*len(b) + 14) / 11
	n := 11*k - 8*len(b)
	v := new(big.Int).SetBytes(b)
	v.Lsh(v, uint(n))
	v.Or(v, big.NewInt(int64(refCrc8(b))&(1<<uint(n)-1)))
	var ws []string
	for i := k - 1; i >= 0; i-- {
		ws = append(ws, english[new(big.Int).Rsh(v, uint(11*i)).Int64()&2047])
	}
	return strings.Join(ws, " ")
}
