// liblrs runs the cases of spec/Lrs.tla on the real ring signatures
package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"hash"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"zRep/primitive/lrs"
	"zRep/util"

	"zrepv/ref/suite"

	"github.com/dedis/crypto/abstract"
)

type spec struct {
	N     int             `json:"n"`
	Pi    int             `json:"pi"`
	T     string          `json:"t"`
	Tag   string          `json:"tag"`
	Omit  [][]interface{} `json:"omit"`
	Enc   string          `json:"enc"`
	Len   string          `json:"len"`
	Alter []interface{}   `json:"alter"`
}

type vector struct {
	ID   string `json:"id"`
	Unit string `json:"unit"`
	C    *spec  `json:"c"`
	N    int    `json:"n"`
	Reps int    `json:"reps"`
	Msg  int    `json:"msg"`
	Try  bool   `json:"try"` // the forger lets the verifier compute the challenge
	Seed int64  `json:"seed"`
}

type outcome struct {
	ID    string                 `json:"id"`
	Out   string                 `json:"out"`
	Note  string                 `json:"note,omitempty"`
	Self  bool                   `json:"self"`
	Fault string                 `json:"fault,omitempty"`
	Data  map[string]interface{} `json:"data,omitempty"`
}

var P, _ = new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
var Q = new(big.Int).Sub(P, big.NewInt(1))
var half = new(big.Int).Rsh(Q, 1)
var one = big.NewInt(1)

func exp(b, e *big.Int) *big.Int { return new(big.Int).Exp(b, e, P) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, b), P) }
func sha(b ...[]byte) []byte {
	h := sha256.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

type kit struct {
	rng  *rand.Rand
	base *lrs.LRSBase
	s    abstract.Suite
	g    *big.Int
	x    []*big.Int
	y    []*big.Int
	m    []byte
}

func (k *kit) q() *big.Int { return new(big.Int).Rand(k.rng, Q) }

func newKit(seed int64, n, msg int) *kit {
	k := &kit{rng: rand.New(rand.NewSource(seed)), s: suite.Get()}
	k.g = exp(big.NewInt(4), new(big.Int).Add(new(big.Int).Rand(k.rng, half), one))
	if k.rng.Intn(3) == 0 {
		k.g = big.NewInt(4)
	}
	k.base = lrs.CreateBase(k.g)
	for i := 0; i < n+2; i++ {
		x := new(big.Int).Add(new(big.Int).Rand(k.rng, new(big.Int).Sub(half, one)), one)
		y := exp(k.g, x)
		// keys with short encodings are where lists of bytes go wrong
		for try := 0; k.rng.Intn(4) == 0 && try < 600 && y.BitLen() > 504; try++ {
			x.Add(x, one)
			y = mul(y, k.g)
		}
		k.x, k.y = append(k.x, x), append(k.y, y)
	}
	if msg < 0 {
		msg = []int{0, 1, 4, 31, 32, 64, 300}[k.rng.Intn(7)]
	}
	k.m = make([]byte, msg)
	k.rng.Read(k.m)
	return k
}

func (k *kit) points(y []*big.Int) (l []abstract.Point) {
	for _, v := range y {
		b := v.Bytes()
		buf := make([]byte, 64)
		copy(buf[64-len(b):], b)
		p := k.s.Point()
		if err := p.UnmarshalBinary(buf); err != nil {
			panic(err)
		}
		l = append(l, p)
	}
	return
}

func (k *kit) sign(m []byte, pi int, y []*big.Int) *lrs.Signature {
	return k.base.Sign(m, len(y), pi, util.BigIntToSecret(k.s, k.x[pi]), k.points(y))
}

func (k *kit) verify(m []byte, n, pi int, sig *lrs.Signature, y []*big.Int) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = "reject"
		}
	}()
	// as it arrives: encoded
	sig = lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(sig))
	if k.base.Verify(m, n, pi, sig, k.points(y)) {
		return "accept"
	}
	return "reject"
}

// recorder notes what is hashed
type recorder struct {
	abstract.Suite
	sums [][]byte
}

type recHash struct {
	hash.Hash
	r *recorder
}

func (r *recorder) Hash() hash.Hash { return &recHash{r.Suite.Hash(), r} }
func (h *recHash) Sum(b []byte) []byte {
	h.r.sums = append(h.r.sums, h.Hash.Sum(nil))
	return h.Hash.Sum(b)
}

// asked verifies a signature and returns the h and the challenge that the verifier computed, whatever it hashed for them
func (k *kit) asked(m []byte, sig *lrs.Signature, y []*big.Int) (h, c *big.Int) {
	r := &recorder{Suite: k.base.Suite}
	base := *k.base
	base.Suite = r
	func() {
		defer func() { recover() }()
		base.Verify(m, len(y), 0, sig, k.points(y))
	}()
	if len(r.sums) < 2 {
		return nil, nil
	}
	d := new(big.Int).SetBytes(r.sums[len(r.sums)-2])
	c = new(big.Int).SetBytes(r.sums[len(r.sums)-1])
	return mul(d, d), c.Mod(c, Q)
}

// try forges against whatever the verifier hashes: commitments to a trial's challenge, which serve again if the challenge
// does not change with what has to be adapted to it
func (k *kit) try(c *spec, m []byte, y []*big.Int, pi int) *lrs.Signature {
	n := c.N
	one2 := func(v *big.Int) *lrs.Signature {
		l := &lrs.Signature{Y0: v}
		for i := 0; i < n; i++ {
			l.S, l.C = append(l.S, k.q()), append(l.C, k.q())
		}
		return l
	}
	h, _ := k.asked(m, one2(big.NewInt(4)), y)
	if h == nil {
		return nil
	}
	f := k.q()
	t, tag := k.x[pi], k.x[pi]
	if c.T != "own" {
		t = f
	}
	switch c.Tag {
	case "foreign":
		tag = f
	case "frame":
		tag = k.x[(pi+1)%n]
	}
	for tries := 0; tries < 40; tries++ {
		r, w := k.q(), k.q()
		sig := one2(exp(h, tag))
		if c.Alter[0] == "y0solve" {
			for i := range sig.C {
				sig.C[i] = new(big.Int)
			}
		}
		x := k.q()
		ok := true
		for round := 0; round < 2 && ok; round++ {
			sig.C[pi] = x
			sig.S[pi] = new(big.Int).Mul(x, t)
			sig.S[pi].Mod(sig.S[pi].Sub(r, sig.S[pi]), Q)
			if c.Alter[0] == "y0solve" {
				e := new(big.Int).Sub(w, sig.S[pi])
				inv := new(big.Int).ModInverse(new(big.Int).Mod(x, half), half)
				if ok = inv != nil; !ok {
					break
				}
				sig.Y0 = exp(h, e.Mod(e.Mul(e, inv), half))
			}
			if round == 0 {
				_, x = k.asked(m, sig, y)
				if ok = x != nil; !ok {
					break
				}
				for i, v := range sig.C {
					if i != pi {
						x.Mod(x.Sub(x, v), Q)
					}
				}
			}
		}
		if ok {
			return sig
		}
	}
	return nil
}

type hashing struct {
	omit map[string]bool
}

func (h hashing) L(y []*big.Int) (b []byte) {
	if h.omit["L"] {
		return nil
	}
	for _, v := range y {
		b = append(b, v.Bytes()...)
	}
	return
}

func (h hashing) h(m []byte, y []*big.Int) *big.Int {
	var b []byte
	if !h.omit["m"] {
		b = sha(m)
	}
	d := new(big.Int).SetBytes(sha(b, h.L(y)))
	return mul(d, d)
}

func (h hashing) challenge(m []byte, y []*big.Int, y0 *big.Int, z1, z2 []*big.Int) *big.Int {
	b := h.L(y)
	if !h.omit["y0"] {
		b = append(b, y0.Bytes()...)
	}
	if !h.omit["m"] {
		b = append(b, m...)
	}
	for i, z := range z1 {
		if !h.omit[fmt.Sprint("z1", i+1)] {
			b = append(b, z.Bytes()...)
		}
	}
	for i, z := range z2 {
		if !h.omit[fmt.Sprint("z2", i+1)] {
			b = append(b, z.Bytes()...)
		}
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(sha(b)), Q)
}

// weak verifies with what the forger hashed, and without the checks of ranges
func (h hashing) weak(k *kit, m []byte, n int, sig *lrs.Signature, y []*big.Int) (ok bool) {
	defer func() { recover() }()
	hh := h.h(m, y)
	var z1, z2 []*big.Int
	for i := 0; i < n; i++ {
		z1 = append(z1, mul(exp(k.g, sig.S[i]), exp(y[i], sig.C[i])))
		z2 = append(z2, mul(exp(hh, sig.S[i]), exp(sig.Y0, sig.C[i])))
	}
	sum := new(big.Int)
	for _, c := range sig.C {
		sum.Mod(sum.Add(sum, c), Q)
	}
	return sum.Cmp(h.challenge(m, y, sig.Y0, z1, z2)) == 0
}

func idx(v interface{}) int { return int(v.(float64)) - 1 }

func runCase(v *vector) (string, bool) {
	c := v.C
	k := newKit(v.Seed, c.N, v.Msg)
	n, pi := c.N, c.Pi-1
	y := append([]*big.Int{}, k.y[:n]...)
	m := k.m
	hs := hashing{map[string]bool{}}
	for _, f := range c.Omit {
		s := f[0].(string)
		if strings.HasPrefix(s, "z") {
			s = fmt.Sprint(s, idx(f[1])+1)
		}
		hs.omit[s] = true
	}
	alter := c.Alter[0].(string)
	var sig *lrs.Signature
	if v.Try {
		if sig = k.try(c, m, y, pi); sig == nil {
			return "reject", true
		}
	} else if c.T == "own" && c.Tag == "own" && len(c.Omit) == 0 && c.Enc == "ok" && c.Len != "extraC" {
		sig = k.sign(m, pi, y)
	} else {
		sig = k.forge(c, hs, m, y, pi)
	}
	cp := func(l []*big.Int) []*big.Int { return append([]*big.Int{}, l...) }
	sig = &lrs.Signature{Y0: sig.Y0, S: cp(sig.S), C: cp(sig.C)}
	i, j := 0, 0
	if len(c.Alter) > 2 {
		i, j = idx(c.Alter[1]), idx(c.Alter[2])
	}
	delta := func(a *big.Int) *big.Int {
		// any amount, or the smallest
		d := k.q()
		if k.rng.Intn(2) == 0 {
			d = big.NewInt(1)
		}
		return new(big.Int).Mod(new(big.Int).Add(a, d), Q)
	}
	switch alter {
	case "none", "y0solve":
	case "m":
		m = append([]byte{}, m...)
		if len(m) > 0 && k.rng.Intn(2) == 0 {
			m[[]int{len(m) - 1, len(m) / 2, k.rng.Intn(len(m))}[k.rng.Intn(3)]] ^= 1
		} else {
			m = append(m, 0)
		}
	case "y0":
		sig.Y0 = mul(sig.Y0, k.g)
	case "y":
		y[i] = k.y[n]
	case "s":
		sig.S[i] = delta(sig.S[i])
	case "c":
		sig.C[i] = delta(sig.C[i])
	case "shift":
		d := k.q()
		sig.C[i] = new(big.Int).Mod(new(big.Int).Add(sig.C[i], d), Q)
		sig.C[j] = new(big.Int).Mod(new(big.Int).Sub(sig.C[j], d), Q)
	case "swapS":
		sig.S[i], sig.S[j] = sig.S[j], sig.S[i]
	case "swapY":
		y[i], y[j] = y[j], y[i]
	default:
		panic(alter)
	}
	switch c.Len {
	case "extraS":
		sig.S = append(sig.S, k.q())
	case "shortS":
		sig.S = sig.S[:n-1]
	case "shortC":
		sig.C = sig.C[:n-1]
	case "shortY":
		y = y[:n-1]
	case "longY":
		y = append(y, k.y[n])
	}
	self := hs.weak(k, m, n, sig, y)
	return k.verify(m, n, pi, sig, y), self
}

func (k *kit) forge(c *spec, hs hashing, m []byte, y []*big.Int, pi int) *lrs.Signature {
	n := c.N
	h := hs.h(m, y)
	f := k.q()
	t, tag := k.x[pi], k.x[pi]
	if c.T != "own" {
		t = f
	}
	switch c.Tag {
	case "foreign":
		tag = f
	case "frame":
		tag = k.x[(pi+1)%n]
	}
	for {
		y0 := exp(h, tag)
		switch c.Enc {
		case "plusP":
			y0.Add(y0, P)
		case "neg":
			y0.Sub(P, y0)
		case "zero":
			y0 = new(big.Int)
		}
		s, ch := make([]*big.Int, n), make([]*big.Int, n)
		z1, z2 := make([]*big.Int, n), make([]*big.Int, n)
		for i := range s {
			s[i], ch[i] = k.q(), k.q()
			if c.Alter[0] == "y0solve" {
				ch[i] = new(big.Int) // the tag does not show in the others' commitments
			}
			if c.Enc == "neg" {
				ch[i].SetBit(ch[i], 0, 0)
			}
			z1[i] = mul(exp(k.g, s[i]), exp(y[i], ch[i]))
			z2[i] = mul(exp(h, s[i]), exp(y0, ch[i]))
		}
		if c.Len == "extraC" {
			x := hs.challenge(m, y, y0, z1, z2)
			for _, v := range ch {
				x.Mod(x.Sub(x, v), Q)
			}
			return &lrs.Signature{Y0: y0, S: s, C: append(ch, x)}
		}
		r := k.q()
		z1[pi], z2[pi] = exp(k.g, r), exp(h, r)
		if c.Enc == "zero" {
			z2[pi] = new(big.Int)
		}
		w := k.q()
		if c.Alter[0] == "y0solve" {
			z2[pi] = exp(h, w)
		}
		x := hs.challenge(m, y, y0, z1, z2)
		for i, v := range ch {
			if i != pi {
				x.Mod(x.Sub(x, v), Q)
			}
		}
		if c.Enc == "neg" && x.Bit(0) == 1 {
			continue
		}
		ch[pi] = x
		s[pi] = new(big.Int).Mul(x, t)
		s[pi].Mod(s[pi].Sub(r, s[pi]), Q)
		if c.Alter[0] == "y0solve" {
			// h^w = h^s y0^c
			e := new(big.Int).Sub(w, s[pi])
			inv := new(big.Int).ModInverse(new(big.Int).Mod(x, half), half)
			if inv == nil {
				continue
			}
			y0 = exp(h, e.Mod(e.Mul(e, inv), half))
		}
		return &lrs.Signature{Y0: y0, S: s, C: ch}
	}
}

// runPairs: who made them, and what the tags say
func runPairs(v *vector) string {
	k := newKit(v.Seed, v.N, v.Msg)
	y := k.y[:v.N]
	who := k.rng.Perm(v.N)
	if v.N > 40 { // not all of them
		who = append(who[:4], v.N-1, 0)
	}
	sigs := map[int][]*lrs.Signature{}
	for _, i := range who {
		if sigs[i] != nil {
			continue
		}
		for r := 0; r < 2; r++ {
			sg := k.sign(k.m, i, y)
			if k.verify(k.m, v.N, i, sg, y) != "accept" {
				return fmt.Sprint("signature of ", i, " not accepted")
			}
			sigs[i] = append(sigs[i], lrs.ProtobufDecodeSignature(lrs.ProtobufEncodeSignature(sg)))
		}
	}
	for i := range sigs {
		for j := range sigs {
			for r := 0; r < 4; r++ {
				if lrs.Linkable(sigs[i][r/2], sigs[j][r%2]) != (i == j) {
					return fmt.Sprint("signatures of ", i, " and ", j, " linked: ", i != j)
				}
			}
		}
	}
	return "linked right"
}

// runHist signs often and counts where the parts of the signature fall
func runHist(v *vector) (string, map[string]interface{}) {
	k := newKit(v.Seed, v.N, v.Msg)
	y := k.y[:v.N]
	bins := map[string][]int{}
	seen := map[string]bool{}
	add := func(name string, x *big.Int) {
		if bins[name] == nil {
			bins[name] = make([]int, 10)
		}
		b := new(big.Int).Div(new(big.Int).Mul(x, big.NewInt(8)), Q)
		if x.Sign() < 0 || x.Cmp(Q) >= 0 {
			return
		}
		bins[name][b.Int64()]++
		bins[name][8+int(x.Bit(0))]++
	}
	for r := 0; r < v.Reps; r++ {
		pi := r % v.N
		sg := k.sign(k.m, pi, y)
		for i := range sg.S {
			who := "other"
			if i == pi {
				who = "signer"
			}
			add(who+".s", sg.S[i])
			add(who+".c", sg.C[i])
			for n, x := range map[string]*big.Int{"s": sg.S[i], "c": sg.C[i], "z": mul(exp(k.g, sg.S[i]), exp(y[i], sg.C[i]))} {
				if seen[n+x.String()] {
					return "value used twice", nil
				}
				seen[n+x.String()] = true
			}
		}
	}
	return "counted", map[string]interface{}{"bins": bins}
}

// runMasks signs several messages with one key: what blinds the key, and what the other members are given, comes once
// and from the whole range
func runMasks(v *vector) (string, map[string]interface{}) {
	k := newKit(v.Seed, v.N, v.Msg)
	pi := k.rng.Intn(v.N)
	var seen []string
	for r := 0; r < v.Reps; r++ {
		m := append([]byte{}, k.m...)
		if r%2 == 1 {
			m = append(m, byte(r))
		}
		sig := k.sign(m, pi, k.y[:v.N])
		if k.verify(m, v.N, pi, sig, k.y[:v.N]) != "accept" {
			return "reject", nil
		}
		for i := range sig.S {
			z := new(big.Int).Set(sig.S[i])
			if i == pi {
				z.Add(z, new(big.Int).Mul(sig.C[i], k.x[pi]))
			} else {
				seen = append(seen, new(big.Int).Mod(sig.C[i], Q).Text(16))
			}
			// in a group of half this order it counts modulo that
			seen = append(seen, z.Mod(z, half).Text(16))
		}
	}
	return "signed", map[string]interface{}{"seen": seen}
}

func run(v *vector) (o *outcome) {
	o = &outcome{ID: v.ID}
	defer func() {
		if e := recover(); e != nil {
			o.Fault = fmt.Sprint(e)
			if v.C == nil || len(v.C.Omit) == 0 {
				o.Fault, o.Out = "", fmt.Sprint("panic: ", e)
			}
		}
	}()
	switch v.Unit {
	case "lrs":
		o.Out, o.Self = runCase(v)
	case "lrspairs":
		o.Out = runPairs(v)
	case "lrsmasks":
		o.Out, o.Data = runMasks(v)
	case "lrshist":
		o.Out, o.Data = runHist(v)
	default:
		o.Fault = "unknown unit"
	}
	return
}

// within runs a vector that may never come to an end
func within(limit time.Duration, v *vector) *outcome {
	ch := make(chan *outcome, 1)
	go func() { ch <- run(v) }()
	select {
	case o := <-ch:
		return o
	case <-time.After(limit):
		return &outcome{ID: v.ID, Out: "hang"}
	}
}

func main() {
	in := flag.String("in", "", "vectors")
	out := flag.String("out", "", "outcomes")
	par := flag.Int("par", 8, "at a time")
	limit := flag.Duration("limit", 10*time.Minute, "for one vector")
	flag.Parse()
	var l []*vector
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := make([]*outcome, len(l))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	for i := range l {
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			res[i] = within(*limit, l[i])
		}(i)
	}
	wg.Wait()
	if b, err = json.Marshal(res); err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
