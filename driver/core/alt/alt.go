// Package alt has algorithm types that carry the names of types of other packages.
package alt

import (
	"io"

	sg "github.com/ndau/ndaumath/pkg/signature"
)

type base struct{}

func (base) PublicKeySize() int     { return 4 }
func (base) PrivateKeySize() int    { return 4 }
func (base) SignatureSize() int     { return 4 }
func (base) Public(p []byte) []byte { return append([]byte(nil), p...) }
func (base) Generate(r io.Reader) (pub, prv []byte, err error) {
	return make([]byte, 4), make([]byte, 4), nil
}
func (base) Sign(prv, msg []byte) []byte      { return make([]byte, 4) }
func (base) Verify(pub, msg, sig []byte) bool { return false }

type alphaAlg struct{ base }
type ed25519 struct{ base }
type null struct{ base }

// Algorithm types 20, 21 and 22 of the specification; form 0 value, 1 pointer, 2 nil pointer.
func Make(t, form int) sg.Algorithm {
	switch t*10 + form {
	case 200:
		return alphaAlg{}
	case 201:
		return &alphaAlg{}
	case 202:
		return (*alphaAlg)(nil)
	case 210:
		return ed25519{}
	case 211:
		return &ed25519{}
	case 212:
		return (*ed25519)(nil)
	case 220:
		return null{}
	case 221:
		return &null{}
	case 222:
		return (*null)(nil)
	}
	panic("no such type")
}
