package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/bitset256"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/keyaddr"
	sg "github.com/ndau/ndaumath/pkg/signature"
	"github.com/ndau/ndaumath/pkg/words"
)

func init() {
	replayers["concurrent"] = replayConcurrent
	replayers["own"] = replayOwn
	recorders["C21"] = recC21
}

// learnTerms has the reference code compute all terms that occur, so that goroutines only read them.
func learnTerms(v V) {
	switch t := v.(type) {
	case []V:
		for _, e := range t {
			learnTerms(e)
		}
	case Mp:
		for _, e := range t {
			learnTerms(e.V)
		}
	case Rec:
		if _, ok := t["seed"]; ok {
			if x := termOf(t); x.st == 1 {
				x.ref().text()
				x.priv = false
				x.ref().text()
			}
			return
		}
		for _, e := range t {
			learnTerms(e)
		}
	}
}

// ---- goroutines on objects of their own: each replays a behaviour of another model ----------------

func replayOwn(files []string) error {
	for i := 0; i < 4; i++ {
		term{1, i, nil, true}.ref()
	}
	for _, f := range files {
		for _, s := range loadITF(f) {
			learnTerms(s.vars)
		}
	}
	termFrozen = true
	var wg sync.WaitGroup
	errs := make([]error, len(files))
	release := make(chan bool)
	for i, f := range files {
		wg.Add(1)
		go func(i int, f string) {
			defer wg.Done()
			<-release
			model := "lifecycle"
			if strings.Contains(f, "mbt_bitset") {
				model = "bitset"
			} else if strings.Contains(f, "mbt_facade") {
				model = "facade"
			}
			errs[i] = replayers[model]([]string{f})
		}(i, f)
	}
	close(release)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

// ---- goroutines sharing objects ---------------------------------------------------------------------

type job struct {
	desc string
	stop int32
	n    int
	done chan bool
	got  map[string]bool
	call func() string
}

func safely(call func() string) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("panic: %v", x)
		}
	}()
	return call()
}

// launch repeats the call until told to stop, and keeps what it yielded
func launch(desc string, call func() string) *job {
	j := &job{desc: desc, done: make(chan bool, 1), got: map[string]bool{}, call: call}
	go func() {
		for j.n == 0 || (len(j.got) < 2 && atomic.LoadInt32(&j.stop) == 0 && j.n < 20000) {
			j.got[safely(call)] = true
			j.n++
		}
		j.done <- true
	}()
	return j
}

func (j *job) finish() {
	atomic.StoreInt32(&j.stop, 1)
	<-j.done
}

// the shared objects
type world struct {
	xs         []*XK
	pubs, prvs []sg.Key
	sets       []*bitset256.Bitset256
}

func newWorld(s State) (w world, err error) {
	ks := s.vars["ck"].(Mp)
	for i := range ks {
		t := termOf(ks.get(i))
		x := new(XK)
		if err = x.UnmarshalText([]byte(t.ref().text())); err != nil {
			return
		}
		if i%4 == 1 && !t.priv { // one that was not parsed
			y := t
			y.priv = true
			z := new(XK)
			if err = z.UnmarshalText([]byte(y.ref().text())); err != nil {
				return
			}
			if x, err = z.Public(); err != nil {
				return
			}
		}
		if t.priv {
			x.PubKeyBytes() // documented to be memoized on first use, which is a modification
		}
		w.xs = append(w.xs, x)
		pub, e := sg.RawPublicKey(sg.Secp256k1, t.ref().pub(), nil)
		if e != nil {
			return w, e
		}
		w.pubs = append(w.pubs, pub)
		var prv sg.Key
		if t.priv {
			if prv, err = sg.RawPrivateKey(sg.Secp256k1, t.ref().key, nil); err != nil {
				return
			}
		}
		w.prvs = append(w.prvs, prv)
	}
	ss := s.vars["cs"].(Mp)
	for i := range ss {
		w.sets = append(w.sets, bitset256.New(elems(setOf(ss.get(i)))...))
	}
	return
}

// call turns a call of the specification into one of the real code; it yields how the result differs from
// what the specification says, "" when it does not
func (w world) call(g int, c, res Rec) (string, func() string) {
	op, o, q, n := vs(c["op"]), vi(c["o"]), vi(c["p"]), vbig(c["n"])
	ok, t := vb(res["ok"]), termOf(res["key"])
	var want *refKey
	if t.st == 1 {
		want = t.ref()
	}
	flag := vb(res["flag"])
	es := elems(setOf(res["elems"]))
	desc := fmt.Sprintf("%s %v %v %v", op, o, q, n)
	isKey := func(x *XK, e error) string {
		if (e == nil) != ok {
			return fmt.Sprintf("error %v, the specification says success: %v", e, ok)
		}
		if e != nil {
			return ""
		}
		return showsKey(x, want)
	}
	isSig := func(k sg.Key, e error) string {
		if (e == nil) != ok {
			return fmt.Sprintf("error %v, the specification says success: %v", e, ok)
		}
		if e != nil {
			return ""
		}
		x, e := k.MarshalText()
		if e != nil || string(x) != want.text() || !bytes.Equal(k.KeyBytes(), want.key) || !bytes.Equal(k.ExtraBytes(), want.extra()) {
			return fmt.Sprintf("key %s (%v), expected %s", x, e, want.text())
		}
		return ""
	}
	isSet := func(b *bitset256.Bitset256) string {
		if !bytes.Equal(b.Indices(), es) || b.Count() != len(es) {
			return fmt.Sprintf("elements %v, expected %v", b.Indices(), es)
		}
		return ""
	}
	isBool := func(b bool) string {
		if b != flag {
			return fmt.Sprint(b)
		}
		return ""
	}
	msg := dsha([]byte(desc))
	switch op {
	case "child":
		return desc, func() string { return isKey(w.xs[o].Child(uint32(n.Uint64()))) }
	case "hard":
		return desc, func() string { return isKey(w.xs[o].HardenedChild(uint32(n.Uint64()))) }
	case "public":
		return desc, func() string { return isKey(w.xs[o].Public()) }
	case "spub":
		return desc, func() string { k, e := w.xs[o].SPubKey(); return isSig(k, e) }
	case "spriv":
		return desc, func() string { k, e := w.xs[o].SPrivKey(); return isSig(k, e) }
	case "tosig":
		return desc, func() string { k, e := w.xs[o].AsSignatureKey(); return isSig(k, e) }
	case "text":
		return desc, func() string {
			if d := showsKey(w.xs[o], want); d != "" {
				return d
			}
			if !bytes.Equal(w.xs[o].PubKeyBytes(), want.pub()) {
				return "public key"
			}
			y := new(XK)
			if e := y.UnmarshalText([]byte(want.text())); e != nil {
				return e.Error()
			}
			return showsKey(y, want)
		}
	case "sign":
		return desc, func() string {
			if w.prvs[o] == nil {
				return ""
			}
			s := w.prvs[o].(*sg.PrivateKey).Sign(msg)
			if w.pubs[q].(*sg.PublicKey).Verify(msg, s) != flag || w.pubs[q].(*sg.PublicKey).Verify(msg[1:], s) {
				return fmt.Sprintf("verification is %v", !flag)
			}
			b, e := s.Marshal()
			if e != nil {
				return e.Error()
			}
			var z sg.Signature
			if e := z.Unmarshal(b); e != nil || !bytes.Equal(z.Bytes(), s.Bytes()) {
				return fmt.Sprintf("signature round trip: %v", e)
			}
			return ""
		}
	case "inter":
		return desc, func() string { return isSet(w.sets[o].Intersect(w.sets[q])) }
	case "union":
		return desc, func() string { return isSet(w.sets[o].Union(w.sets[q])) }
	case "clone":
		return desc, func() string {
			x := w.sets[o].Clone()
			if d := isSet(x); d != "" {
				return d
			}
			y, e := bitset256.FromBytes(w.sets[o].AsBytes())
			if e != nil {
				return e.Error()
			}
			z, e := bitset256.FromHex(w.sets[o].AsHex())
			if e != nil || !z.Equals(y) {
				return fmt.Sprintf("hex: %v", e)
			}
			x.Toggle(7)
			return isSet(y)
		}
	case "equal":
		return desc, func() string { return isBool(w.sets[o].Equals(w.sets[q])) }
	case "subset":
		return desc, func() string { return isBool(w.sets[o].IsSubsetOf(w.sets[q])) }
	case "less":
		return desc, func() string { return isBool(w.sets[o].Less(w.sets[q])) }
	case "plain":
		return desc + " " + plainNames[vi(c["n"])%len(plainNames)], plain(vi(c["n"]), g, msg)
	}
	fatal("unknown call " + op)
	return "", nil
}

func replayConcurrent(files []string) error {
	for i := 0; i < 4; i++ {
		term{1, i, nil, true}.ref()
	}
	for _, f := range files {
		for _, s := range loadITF(f) {
			learnTerms(s.vars)
		}
	}
	termFrozen = true
	return runReplay("concurrent", files, func(p *replay) (func(State), func(State)) {
		var first State
		var shared world
		jobs := map[int]*job{}
		type past struct {
			g      int
			c, res Rec
			j      *job
		}
		var all []past
		start := func(s State) {
			first = s
			st := p.guard(func() (e error) {
				shared, e = newWorld(s)
				return
			})
			if st != sOK {
				p.skip("the shared objects cannot be made")
			}
		}
		step := func(s State) {
			g := s.pick("w")
			if s.action == "Finish" {
				j := jobs[g]
				delete(jobs, g)
				j.finish()
				p.did("goroutine %d finishes %s after %d times: %v", g, j.desc, j.n, j.got)
				return
			}
			r := s.vars["job"].(Mp).get(g).(Rec)
			c, res := r["call"].(Rec), r["res"].(Rec)
			jobs[g] = launch(shared.call(g, c, res))
			all = append(all, past{g, c, res, jobs[g]})
			p.did("goroutine %d starts %s", g, jobs[g].desc)
		}
		// the same calls alone, on fresh objects
		p.end = func() {
			for _, j := range jobs {
				j.finish()
			}
			// all of them at once, on objects which nothing has used before
			fresh, e := newWorld(first)
			if e != nil {
				return
			}
			release := make(chan bool)
			var wg sync.WaitGroup
			burst := make([]string, len(all))
			for i, x := range all {
				_, f := fresh.call(x.g, x.c, x.res)
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-release
					for k := 0; k < 2 && burst[i] == ""; k++ {
						burst[i] = safely(f)
					}
				}(i)
			}
			close(release)
			wg.Wait()
			alone, e := newWorld(first)
			if e != nil {
				return
			}
			for i, x := range all {
				_, f := alone.call(x.g, x.c, x.res)
				want := safely(f)
				x.j.got[burst[i]] = true
				for got := range x.j.got {
					if got != want {
						p.mismatch(-2, "goroutine %d: %s among others: %q, alone: %q", x.g, x.j.desc, got, want)
					}
				}
			}
		}
		return start, step
	})
}

var plainNames = []string{"words", "words prefix", "b32", "checksum", "address", "address parse", "key text", "signature text", "facade child", "facade address", "old text", "seed and master",
	"ed25519", "container", "facade words", "facade sign"}

// plain is a call on values of the goroutine's own; the expected value is fixed by reference code
func plain(n, w int, msg []byte) func() string {
	own := dsha(append(cp(msg), byte(w)))
	k := term{1, n % 4, nil, true}.ref()
	t := k.text()
	pub := k.neuter().text()
	cmp := func(a, b string, e error) string {
		if e != nil || a != b {
			return fmt.Sprintf("%q (%v), alone %q", a, e, b)
		}
		return ""
	}
	data := dsha(own)
	phrase := refPhrase(own[:16])
	switch n % len(plainNames) {
	case 0:
		return func() string {
			ws, e := words.FromBytes("en", own[:16])
			if d := cmp(strings.Join(ws, " "), phrase, e); d != "" {
				return d
			}
			b, e := words.ToBytes("en", ws)
			return cmp(string(b), string(own[:16]), e)
		}
	case 1:
		pre := english[int(own[0])*8][:2]
		var l []string
		for _, x := range english {
			if strings.HasPrefix(x, pre) {
				l = append(l, x)
			}
		}
		return func() string { return cmp(words.FromPrefix("en", pre, 0), strings.Join(l, " "), nil) }
	case 2:
		return func() string {
			x := b32.Encode(own)
			if d := cmp(x, refEncode(own), nil); d != "" {
				return d
			}
			b, e := b32.Decode(x)
			return cmp(string(b), string(own), e)
		}
	case 3:
		return func() string {
			x := sg.AddChecksum(own)
			if d := cmp(string(x), string(refWrap(own)), nil); d != "" {
				return d
			}
			b, ok := sg.CheckChecksum(x)
			if !ok {
				return "checksum refused"
			}
			return cmp(string(b), string(own), nil)
		}
	case 4, 5:
		a := refAddress(byte("anexbm"[own[0]%6]), data)
		kind := byte("anexbm"[own[0]%6])
		if n%len(plainNames) == 4 {
			return func() string {
				x, e := address.Generate(kind, data)
				if e != nil {
					return e.Error()
				}
				return cmp(x.String(), a, nil)
			}
		}
		return func() string {
			x, e := address.Validate(a)
			if e != nil {
				return e.Error()
			}
			if d := cmp(x.String(), a, nil); d != "" {
				return d
			}
			if x.Kind() != kind {
				return "kind"
			}
			bad := a[:20] + "z" + a[21:]
			if bad == a {
				bad = a[:20] + "y" + a[21:]
			}
			if _, e := address.Validate(bad); e == nil {
				return "accepted " + bad
			}
			return ""
		}
	case 6:
		return func() string {
			x := new(XK)
			if e := x.UnmarshalText([]byte(t)); e != nil {
				return e.Error()
			}
			x.PubKeyBytes()
			y, e := x.Public()
			if e != nil {
				return e.Error()
			}
			return showsKey(y, k.neuter())
		}
	case 7:
		return func() string {
			var x sg.PublicKey
			if e := x.UnmarshalText([]byte(pub)); e != nil {
				return e.Error()
			}
			b, e := x.MarshalText()
			return cmp(string(b), pub, e)
		}
	case 8:
		c := term{1, n % 4, []uint32{uint32(own[1])}, true}.ref().text()
		return func() string {
			x, e := (&keyaddr.Key{Key: t}).Child(int32(own[1]))
			if e != nil {
				return e.Error()
			}
			return cmp(x.Key, c, nil)
		}
	case 9:
		a := refAddress('a', k.pub())
		return func() string {
			x, e := (&keyaddr.Key{Key: t}).NdauAddress()
			if e != nil {
				return e.Error()
			}
			return cmp(x.Address, a, nil)
		}
	case 10:
		o := k.oldText([]byte{99, 103, 31})
		return func() string {
			x, e := key.FromOldSerialization(o)
			if e != nil {
				return e.Error()
			}
			return showsKey(x, k)
		}
	case 11:
		seed := cp(termSeed(n % 4))
		return func() string {
			x, e := key.NewMaster(seed)
			if e != nil {
				return e.Error()
			}
			il, ir, e := bip32.NewMaster(seed)
			if e != nil || !bytes.Equal(il[:], k.key) || !bytes.Equal(ir[:], k.cc) {
				return fmt.Sprintf("bip32 master %v", e)
			}
			return showsKey(x, k)
		}
	case 12:
		return func() string {
			a, b, e := sg.Generate(sg.Ed25519, bytes.NewReader(append(cp(own), data...)))
			if e != nil {
				return e.Error()
			}
			s := b.Sign(msg)
			if !a.Verify(msg, s) || a.Verify(own, s) || !sg.Match(a, b) {
				return "verification"
			}
			return cmp(string(b.KeyBytes()[:32]), string(own[:32]), nil)
		}
	case 13:
		return func() string {
			x := sg.IdentifiedData{Algorithm: sg.AlgorithmID(own[0]), Data: own}
			b, e := x.MarshalMsg(nil)
			if d := cmp(string(b), string(refContainer(int(own[0]), own)), e); d != "" {
				return d
			}
			var y sg.IdentifiedData
			if _, e := y.UnmarshalMsg(b); e != nil {
				return e.Error()
			}
			return cmp(string(y.Data), string(own), nil)
		}
	case 14:
		d := b64.EncodeToString(own[:16])
		return func() string {
			x, e := keyaddr.WordsFromBytes("en", d)
			if s := cmp(x, phrase, e); s != "" {
				return s
			}
			y, e := keyaddr.WordsToBytes("en", x)
			return cmp(y, d, e)
		}
	}
	m := b64.EncodeToString(msg)
	return func() string {
		s, e := (&keyaddr.Key{Key: t}).Sign(m)
		if e != nil {
			return e.Error()
		}
		raw, e := s.ToSignature()
		if e != nil {
			return e.Error()
		}
		p, e := (&keyaddr.Key{Key: pub}).ToPublicKey()
		if e != nil {
			return e.Error()
		}
		if !p.Verify(msg, raw) || p.Verify(own, raw) {
			return "verification"
		}
		return ""
	}
}

// ---- recorded calls made by many goroutines at once, against the same calls made by one ------------

var concOf = map[string][]string{
	"sig": {"C10", "C11", "C12", "C13", "C14"}, "hd": {"C01", "C05", "C04", "C31"},
	"address": {"C07", "C09"}, "words": {"C18", "C19", "C13words", "C20"}, "bitset": {"C17"},
}

// recC21 runs recorders in goroutines, two with the same input each, then in sequence; VERIF_GROUP says which.
func recC21(r *R) {
	group := os.Getenv("VERIF_GROUP")
	if group == "sig" && !r.needAlgs() {
		return
	}
	var names []string
	for len(names) < r.num(4, 12) {
		names = append(names, concOf[group]...)
	}
	seeds := make([]int64, len(names))
	for i := range names {
		seeds[i] = r.Int63() >> 20
	}
	run := func(i int) []byte {
		var b bytes.Buffer
		q := newR(seeds[i/2], r.tier, &b)
		recorders[names[i/2]](q)
		q.close()
		return b.Bytes()
	}
	outs := make([][]byte, 2*len(names))
	var wg sync.WaitGroup
	release := make(chan bool)
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-release
			outs[i] = run(i)
		}(i)
	}
	close(release)
	wg.Wait()
	for i := range names {
		a := bytes.Split(run(2*i), []byte("\n"))
		for _, o := range outs[2*i : 2*i+2] {
			b := bytes.Split(o, []byte("\n"))
			diff, desc := 0, names[i]+" among other goroutines and alone"
			for k := range b {
				if k >= len(a) || !bytes.Equal(a[k], b[k]) {
					w := "nothing"
					if k < len(a) {
						w = string(a[k])
					}
					if diff == 0 {
						desc = fmt.Sprintf("%s: among other goroutines %.600s; alone %.600s", names[i], b[k], w)
					}
					diff++
				}
			}
			r.emit(desc, 1, in(int64(len(a))), in(int64(len(b))), in(int64(diff)))
		}
	}
}
