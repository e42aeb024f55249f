package main

import (
	"bytes"
	"io"
	"reflect"

	"verif.local/driver/core/alt"

	sg "github.com/ndau/ndaumath/pkg/signature"
)

type gammaAlg struct{ tag string }

func (gammaAlg) PublicKeySize() int     { return 9 }
func (gammaAlg) PrivateKeySize() int    { return 9 }
func (gammaAlg) SignatureSize() int     { return 9 }
func (gammaAlg) Public(p []byte) []byte { return cp(p) }
func (gammaAlg) Generate(r io.Reader) (pub, prv []byte, err error) {
	return make([]byte, 9), make([]byte, 9), nil
}
func (gammaAlg) Sign(prv, msg []byte) []byte      { return make([]byte, 9) }
func (gammaAlg) Verify(pub, msg, sig []byte) bool { return false }

type deltaAlg struct{ gammaAlg }

func init() { replayers["registry"] = replayRegistry }

func algType(t, form int) sg.Algorithm {
	switch t*10 + form {
	case 0, 1, 2:
		return sg.Null
	case 10, 11, 12:
		return sg.Ed25519
	case 20, 21, 22:
		return sg.Secp256k1
	case 100:
		return alphaAlg{}
	case 101:
		return &alphaAlg{}
	case 102:
		return (*alphaAlg)(nil)
	case 110, 111:
		return &betaAlg{form}
	case 112:
		return (*betaAlg)(nil)
	case 120:
		return gammaAlg{"x"}
	case 121:
		return &gammaAlg{"y"}
	case 122:
		return (*gammaAlg)(nil)
	case 130:
		return deltaAlg{}
	case 131:
		return &deltaAlg{gammaAlg{"z"}}
	case 132:
		return (*deltaAlg)(nil)
	case 300:
		return struct{ alphaAlg }{}
	case 301:
		return &struct{ alphaAlg }{}
	case 302:
		return (*struct{ alphaAlg })(nil)
	case 310, 311, 312:
		return nil
	}
	return alt.Make(t, form)
}

var regTypes = []int{0, 1, 2, 10, 11, 12, 13, 20, 21, 22, 30}

// sizes of public key and signature, as the types above say
var regSizes = map[int][2]int{0: {0, 0}, 1: {32, 64}, 2: {33, 70}, 10: {5, 3}, 11: {255, 30}, 12: {9, 9}, 13: {9, 9}, 20: {4, 4}, 21: {4, 4}, 22: {4, 4}, 30: {5, 3}}

func deref(x interface{}) reflect.Type {
	t := reflect.TypeOf(x)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

func replayRegistry(files []string) error {
	return runReplay("registry", files, func(p *replay) (func(State), func(State)) {
		n := 0
		probe := func(s State) {
			n++
			reg := s.vars["reg"].(Mp)
			idOf := map[int]int{}
			for _, e := range reg {
				idOf[vi(e.V)] = vi(e.K)
			}
			data := bytes.Repeat([]byte{2}, 255)
			st := p.guard(func() error {
				// id -> algorithm
				for id := 0; id < 256; id++ {
					var sig sg.Signature
					var pub sg.PublicKey
					if !reg.has(id) {
						for _, k := range []int{0, 3, 4, 5, 9, 32, 33, 64, 70} {
							if sig.Unmarshal(refContainer(id, data[:k])) == nil {
								p.mismatch(-2, "a signature with the unknown algorithm id %d was accepted as %s", id, sg.NameOf(sig.Algorithm()))
							}
							if pub.Unmarshal(refContainer(id, refPack(data[:k], nil))) == nil {
								p.mismatch(-3, "a key with the unknown algorithm id %d was accepted as %s", id, sg.NameOf(pub.Algorithm()))
							}
						}
						continue
					}
					t := vi(reg.get(id))
					want := algType(t, n%2)
					if err := sig.Unmarshal(refContainer(id, data[:regSizes[t][1]])); err != nil {
						p.mismatch(-4, "a signature with algorithm id %d (type %d) was refused: %v", id, t, err)
					}
					if err := pub.Unmarshal(refContainer(id, refPack(data[:regSizes[t][0]], nil))); err != nil {
						p.mismatch(-5, "a key with algorithm id %d (type %d) was refused: %v", id, t, err)
					}
					for _, got := range []sg.Algorithm{sig.Algorithm(), pub.Algorithm()} {
						if deref(got) != deref(want) || !sg.SameAlgorithm(got, want) {
							p.mismatch(-6, "algorithm id %d decoded as %v, the specification says type %d (%v)", id, deref(got), t, deref(want))
						}
					}
				}
				// algorithm -> id, by value, pointer and nil pointer
				for _, t := range regTypes {
					for form := 0; form < 3; form++ {
						al := algType(t, form)
						id, known := idOf[t]
						sz := regSizes[t]
						pubs := make([]byte, 0)
						sigs := make([]byte, 0)
						if form < 2 || t < 3 {
							if sig, err := sg.RawSignature(al, data[:sz[1]]); err == nil {
								b, err := sig.Marshal()
								if (err == nil) != known {
									p.mismatch(-7, "Marshal of a signature of type %d form %d: %v; the specification says registered: %v", t, form, err, known)
								}
								sigs = b
							} else if known {
								p.mismatch(-8, "RawSignature of type %d: %v", t, err)
							}
							if pub, err := sg.RawPublicKey(al, data[:sz[0]], nil); err == nil {
								b, err := pub.Marshal()
								if (err == nil) != known {
									p.mismatch(-9, "Marshal of a key of type %d form %d: %v; the specification says registered: %v", t, form, err, known)
								}
								pubs = b
								if _, err := pub.MarshalText(); (err == nil) != known && t != 0 {
									p.mismatch(-10, "MarshalText of a key of type %d form %d: %v; the specification says registered: %v", t, form, err, known)
								}
							} else if known {
								p.mismatch(-11, "RawPublicKey of type %d: %v", t, err)
							}
							if known && !bytes.Equal(sigs, refContainer(id, data[:sz[1]])) {
								p.mismatch(-12, "a signature of type %d form %d serializes as %x, its id is %d", t, form, sigs, id)
							}
							if known && !bytes.Equal(pubs, refContainer(id, refPack(data[:sz[0]], nil))) {
								p.mismatch(-13, "a key of type %d form %d serializes as %x, its id is %d", t, form, pubs, id)
							}
						}
						for _, u := range append([]int{31}, regTypes...) {
							uid, uknown := idOf[u]
							if u == 31 {
								uid, uknown = 0, true // nil stands for the null algorithm
							}
							other := algType(u, (form+n)%3)
							if got := sg.SameAlgorithm(al, other); got != (known && uknown && id == uid) {
								p.mismatch(-14, "SameAlgorithm of types %d and %d is %v", t, u, got)
							}
						}
					}
				}
				return nil
			})
			if st != sOK {
				p.mismatch(-15, "a lookup panicked or hung (%d)", st)
			}
		}
		step := func(s State) {
			if s.action != "Idle" {
				i, t, form := s.pick("i"), s.pick("t"), s.pick("form")
				var err error
				st := p.guard(func() error {
					err = sg.RegisterAlgorithm(sg.AlgorithmID(i), algType(t, form))
					return nil
				})
				p.did("RegisterAlgorithm(%d, type %d form %d): %v", i, t, form, err)
				if st != sOK {
					p.mismatch(-16, "RegisterAlgorithm(%d, type %d form %d) panicked", i, t, form)
				}
				if (err == nil) != vb(s.vars["ok"]) {
					p.mismatch(-17, "RegisterAlgorithm(%d, type %d form %d): %v; the specification says accepted: %v", i, t, form, err, s.vars["ok"])
				}
			}
			probe(s)
		}
		return probe, step
	})
}
