// libzk runs the cases of spec/Request.tla, spec/Sig.tla and spec/Honesty.tla on the repository's packages
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/pedersen"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/util"

	"zrepv/cluster"
	"zrepv/ref/suite"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

type vector struct {
	ID     string          `json:"id"`
	Unit   string          `json:"unit"`
	C      json.RawMessage `json:"c"`
	Rep    int             `json:"rep"`
	Ind    int             `json:"ind"`
	Rounds int             `json:"rounds"`
	Lead   string          `json:"lead"`
	What   string          `json:"what"`
	Block  int             `json:"block"`
	Seed   int64           `json:"seed"`
}

type outcome struct {
	ID    string                 `json:"id"`
	Out   string                 `json:"out"`
	Note  string                 `json:"note,omitempty"`
	Fault string                 `json:"fault,omitempty"`
	Data  map[string]interface{} `json:"data,omitempty"`
}

func run(v *vector) (o *outcome) {
	o = &outcome{ID: v.ID}
	defer func() {
		if e := recover(); e != nil {
			o.Fault = fmt.Sprint(e)
		}
	}()
	rng := rand.New(rand.NewSource(v.Seed))
	switch v.Unit {
	case "req":
		o.Out = runReq(v)
	case "honest":
		o.Out, o.Note = runHonest(v, rng)
	case "tamper":
		o.Out, o.Note = runTamper(v, rng)
	case "sig":
		o.Out = runSig(v, rng)
	case "sigmany":
		o.Out, o.Note = runSigMany(v, rng)
	case "gn":
		o.Out = runGn(v, rng)
	case "gnhonest":
		o.Out, o.Note = runGnHonest(v, rng)
	case "chal":
		o.Out, o.Data = runChal(v)
	case "masks":
		o.Out, o.Data = runMasks(v)
	case "gammas":
		o.Out, o.Data = runGammas(v)
	default:
		o.Fault = "unknown unit " + v.Unit
	}
	return
}

// verdict of something that rejects by false, by an error or by a panic
func verdict(f func() bool) (s string) {
	defer func() {
		if recover() != nil {
			s = "reject"
		}
	}()
	if f() {
		return "accept"
	}
	return "reject"
}

// ------------------------------------------------------------------ requests

func point(b []byte) abstract.Point { return util.DecodePoint(suite.Get(), b) }

func bases(l *cluster.ReqLab) (*pedersen.PedersenBase, *fujiokam.FujiOkamBase) {
	f := l.FO()
	fb := fujiokam.CreateMinimumBase(suite.Get(), new(big.Int).SetBytes(f[0]))
	for i, g := range []**fujiokam.Point{&fb.G1, &fb.G2, &fb.G3, &fb.G4, &fb.G5, &fb.G6, &fb.H1} {
		*g = fb.Point().FromBinary(f[i+1])
	}
	return &pedersen.PedersenBase{Suite: suite.Get(), GT: point(l.GT()), HT: point(l.HT())}, fb
}

func runReq(v *vector) string {
	k := &cluster.ReqCase{}
	if err := json.Unmarshal(v.C, k); err != nil {
		panic(err)
	}
	l := cluster.NewReqLab(v.Seed, k.Rep, v.Rounds)
	m := l.Make(k)
	pb, fb := bases(l)
	return verdict(func() bool { return bridge.VerifyInd(m, point(l.Commitment()), suite.Get(), pb, fb) })
}

type opening struct {
	l  *cluster.ReqLab
	pb *pedersen.PedersenBase
	fb *fujiokam.FujiOkamBase
}

// prove does what a client does that knows its opening
func (o *opening) prove(v *vector) map[string]interface{} {
	s := suite.Get()
	d := v.Rep - v.Ind
	xd := s.Secret().SetInt64(int64(d))
	pc := point(o.l.Commitment())
	R := util.DecodeSecret(s, o.l.Blinding())
	for try := 0; ; try++ {
		pi, ri := o.pb.Commit(s.Secret().SetInt64(int64(v.Ind)))
		pd := o.pb.Sub(pc, pi)
		if v.Lead == "PCommind" && util.EncodePoint(pi)[0] != 0 || v.Lead == "PCommd" && util.EncodePoint(pd)[0] != 0 ||
			v.Lead == "rind" && util.EncodeSecret(ri)[0] != 0 {
			if try > 5000 {
				panic("no such value found")
			}
			continue
		}
		fc, rf := o.fb.Commit(big.NewInt(int64(d)))
		for v.Lead == "FOCommd" && fc.V.BitLen() > 8*(len(o.fb.N.Bytes())-1) {
			fc, rf = o.fb.Commit(big.NewInt(int64(d)))
		}
		nn := o.fb.ProveNonneg(big.NewInt(int64(d)), fc, rf)
		for v.Lead == "nonneg" && shorter(o.fb.N, nn.Commitrx, nn.C, nn.Cr) == 0 {
			nn = o.fb.ProveNonneg(big.NewInt(int64(d)), fc, rf)
		}
		rd := s.Secret().Sub(R, ri)
		eq := pedersen_fujiokam.ProveEqual(o.pb, o.fb, xd, pd, rd, fc, rf)
		for v.Lead == "equal" && len(eq.C.Bytes()) > 31 {
			eq = pedersen_fujiokam.ProveEqual(o.pb, o.fb, xd, pd, rd, fc, rf)
		}
		return map[string]interface{}{"ind": v.Ind, "nym": o.l.Nym(), "FOCommd": fc.ToBinary(), "PCommd": util.EncodePoint(pd),
			"PCommind": util.EncodePoint(pi), "rind": util.EncodeSecret(ri), "arg_nonneg": util.EncodeARGnonneg(nn),
			"arg_equal": util.EncodeARGequal(eq)}
	}
}

func shorter(n *big.Int, l ...*big.Int) (k int) {
	for _, x := range l {
		if x.BitLen() <= 8*(len(n.Bytes())-1) {
			k++
		}
	}
	return
}

func open(v *vector) *opening {
	l := cluster.NewReqLab(v.Seed, v.Rep, v.Rounds)
	pb, fb := bases(l)
	return &opening{l, pb, fb}
}

func (o *opening) check(m map[string]interface{}) string {
	return verdict(func() bool { return bridge.VerifyInd(m, point(o.l.Commitment()), suite.Get(), o.pb, o.fb) })
}

func runHonest(v *vector, rng *rand.Rand) (string, string) {
	o := open(v)
	note := ""
	r := verdict(func() bool {
		defer func() {
			if e := recover(); e != nil {
				note = fmt.Sprint(e)
				panic(e)
			}
		}()
		return bridge.VerifyInd(o.prove(v), point(o.l.Commitment()), suite.Get(), o.pb, o.fb)
	})
	return r, note
}

// runTamper changes one thing in an honest request: nothing of it may be loose
func runTamper(v *vector, rng *rand.Rand) (string, string) {
	o := open(v)
	m := o.prove(v)
	s := suite.Get()
	if o.check(m) != "accept" {
		return "honest request rejected", ""
	}
	parts := strings.SplitN(v.What, ".", 2)
	other := open(&vector{Seed: v.Seed + 1, Rep: v.Rep, Ind: v.Ind, Rounds: v.Rounds})
	change := func(x *big.Int) {
		switch rng.Intn(4) {
		case 0:
			x.Add(x, big.NewInt(1))
		case 1:
			x.Sub(x, big.NewInt(int64(1+rng.Intn(1000))))
		case 2:
			x.SetBit(x, rng.Intn(x.BitLen()+1), 1-x.Bit(0))
			x.Add(x, big.NewInt(2))
		case 3:
			x.Lsh(x, 1).Add(x, big.NewInt(1))
		}
	}
	switch parts[0] {
	case "nn":
		a := util.DecodeARGnonneg(m["arg_nonneg"].([]byte))
		f := map[string]*big.Int{"Commitrx": a.Commitrx, "C": a.C, "Cr": a.Cr, "R": a.R, "X_": a.X_, "A_": a.A_, "B_": a.B_, "D_": a.D_, "R_": a.R_}
		x := f[parts[1]]
		before := new(big.Int).Set(x)
		change(x)
		// the first moves are group elements: their value counts
		if strings.HasPrefix(parts[1], "C") && new(big.Int).Mod(x, o.fb.N).Cmp(before) == 0 || x.Cmp(before) == 0 {
			x.Add(x, big.NewInt(5))
		}
		m["arg_nonneg"] = util.EncodeARGnonneg(a)
	case "eq":
		a := util.DecodeARGequal(m["arg_equal"].([]byte))
		f := map[string]*big.Int{"C": a.C, "S1": a.S1, "S2": a.S2, "S3": a.S3}
		x := f[parts[1]]
		before := new(big.Int).Set(x)
		change(x)
		if x.Cmp(before) == 0 {
			x.Add(x, big.NewInt(5))
		}
		m["arg_equal"] = util.EncodeARGequal(a)
	case "ind":
		m["ind"] = v.Ind + []int{1, -1, 2, 1000000, -1000000, 1 << 32, 256, 1 << 16}[rng.Intn(8)]
	case "PCommd", "PCommind":
		m[parts[0]] = util.EncodePoint(s.Point().Add(point(m[parts[0]].([]byte)), o.pb.GT))
	case "rind":
		m["rind"] = util.EncodeSecret(s.Secret().Add(util.DecodeSecret(s, m["rind"].([]byte)), s.Secret().One()))
	case "FOCommd":
		x := new(big.Int).SetBytes(m["FOCommd"].([]byte))
		x.Mul(x, &o.fb.G1.V).Mod(x, o.fb.N)
		m["FOCommd"] = x.Bytes()
	case "shift": // one more, in both commitments
		m["ind"] = v.Ind + 1
		pi := s.Point().Add(point(m["PCommind"].([]byte)), o.pb.GT)
		m["PCommind"] = util.EncodePoint(pi)
		m["PCommd"] = util.EncodePoint(s.Point().Sub(point(o.l.Commitment()), pi))
	case "whole": // all that belongs to one thing, from another member's request
		m2 := other.prove(v)
		for _, f := range strings.Split(parts[1], "+") {
			m[f] = m2[f]
		}
	case "stale": // right under another table's commitment or bases
		switch parts[1] {
		case "comm":
			return verdict(func() bool {
				return bridge.VerifyInd(m, point(other.l.Commitment()), s, o.pb, o.fb)
			}), ""
		case "pb":
			return verdict(func() bool { return bridge.VerifyInd(m, point(o.l.Commitment()), s, other.pb, o.fb) }), ""
		case "GT":
			pb := &pedersen.PedersenBase{Suite: s, GT: other.pb.GT, HT: o.pb.HT}
			return verdict(func() bool { return bridge.VerifyInd(m, point(o.l.Commitment()), s, pb, o.fb) }), ""
		case "HT":
			pb := &pedersen.PedersenBase{Suite: s, GT: o.pb.GT, HT: other.pb.HT}
			return verdict(func() bool { return bridge.VerifyInd(m, point(o.l.Commitment()), s, pb, o.fb) }), ""
		case "nil":
			return verdict(func() bool { return bridge.VerifyInd(m, nil, s, o.pb, o.fb) }), ""
		}
	default:
		panic(v.What)
	}
	return o.check(m), ""
}

// ---------------------------------------------------------------- signatures

type sigCase struct {
	M    []int  `json:"m"`
	V    []int  `json:"v"`
	Key  string `json:"key"`
	Base string `json:"base"`
	Alt  string `json:"alt"`
}

func blocks(l []int, size int, fill []byte) (b []byte) {
	for _, x := range l {
		c := bytes.Repeat([]byte{0}, size)
		if x == 1 {
			copy(c, fill)
		}
		b = append(b, c...)
	}
	return
}

func read(sig []byte) (c, r abstract.Secret) {
	s := suite.Get()
	c, r = s.Secret(), s.Secret()
	b := bytes.NewBuffer(sig)
	if abstract.Read(b, &c, s) != nil || abstract.Read(b, &r, s) != nil {
		panic("short signature")
	}
	return
}

func write(c, r abstract.Secret) []byte {
	b := bytes.Buffer{}
	abstract.Write(&b, &c, suite.Get())
	abstract.Write(&b, &r, suite.Get())
	return b.Bytes()
}

func runSig(v *vector, rng *rand.Rand) string {
	c := &sigCase{}
	if err := json.Unmarshal(v.C, c); err != nil {
		panic(err)
	}
	s := suite.Get()
	fill := make([]byte, v.Block)
	// a block differs from the other kind in many bytes, or in a single bit
	if rng.Intn(2) == 0 {
		rng.Read(fill)
		fill[rng.Intn(len(fill))] |= 1
	} else {
		fill[rng.Intn(len(fill))] = 1 << uint(rng.Intn(8))
	}
	msg, shown := blocks(c.M, v.Block, fill), blocks(c.V, v.Block, fill)
	sec := func() abstract.Secret { return s.Secret().Pick(random.Stream) }
	var g abstract.Point
	if v.What != "std" {
		g = s.Point().Mul(nil, sec())
	}
	x := sec()
	key := s.Point().Mul(g, x)
	sign := func(m []byte) []byte { return util.ElGamalSign(s, random.Stream, m, x, g) }
	sig := sign(msg)
	for v.Lead != "" && sig[map[string]int{"c": 0, "r": len(sig) / 2}[v.Lead]] != 0 {
		// with another key, because it may be the only signature of this one
		x = sec()
		key = s.Point().Mul(g, x)
		sig = sign(msg)
	}
	switch c.Key {
	case "other":
		key = s.Point().Mul(g, sec())
	case "neg":
		key.Neg(key)
	case "id":
		key.Null()
	}
	vg := g
	switch c.Base {
	case "other":
		vg = s.Point().Mul(nil, sec())
	case "std":
		if g == nil {
			vg = s.Point().Mul(nil, s.Secret().SetInt64(2))
		} else {
			vg = nil
		}
	}
	C, R := read(sig)
	one := s.Secret().One()
	C2, R2 := read(sign(append([]byte("another message"), msg...)))
	switch c.Alt {
	case "c+1":
		C.Add(C, one)
	case "r+1":
		R.Add(R, one)
	case "swap":
		C, R = R, C
	case "negc":
		C.Neg(C)
	case "negr":
		R.Neg(R)
	case "zc":
		C.Zero()
	case "zr":
		R.Zero()
	case "zz":
		C.Zero()
		R.Zero()
	case "oldc":
		C = C2
	case "oldr":
		R = R2
	}
	switch c.Alt {
	case "none":
	case "flipc", "flipr":
		at := rng.Intn(len(sig) / 2)
		if c.Alt == "flipr" {
			at += len(sig) / 2
		}
		sig[at] ^= 1 << uint(rng.Intn(8))
	case "short":
		sig = sig[:len(sig)-1-rng.Intn(5)]
	case "half":
		sig = sig[:len(sig)/2]
	case "empty":
		sig = nil
	default:
		sig = write(C, R)
	}
	return verdict(func() bool { return util.ElGamalVerify(s, shown, key, sig, vg) == nil })
}

// honest signatures on messages of many lengths, and a change at every place of a message
func runSigMany(v *vector, rng *rand.Rand) (string, string) {
	s := suite.Get()
	g := s.Point().Mul(nil, s.Secret().Pick(random.Stream))
	x := s.Secret().Pick(random.Stream)
	key := s.Point().Mul(g, x)
	ok := func(m, sig []byte) bool {
		return verdict(func() bool { return util.ElGamalVerify(s, m, key, sig, g) == nil }) == "accept"
	}
	for n := v.Ind; n < v.Ind+v.Rounds; n++ {
		m := make([]byte, n)
		if rng.Intn(4) > 0 {
			rng.Read(m)
		}
		sig := util.ElGamalSign(s, random.Stream, m, x, g)
		if !ok(m, sig) {
			return "honest signature rejected", fmt.Sprint(n)
		}
		if n == 0 {
			continue
		}
		for _, at := range []int{0, n - 1, rng.Intn(n)} {
			m2 := append([]byte{}, m...)
			m2[at] ^= 1 << uint(rng.Intn(8))
			if ok(m2, sig) {
				return "forged message accepted", fmt.Sprint(n, at)
			}
		}
		if ok(m[:n-1], sig) || ok(append(append([]byte{}, m...), 0), sig) || ok(m[1:], sig) {
			return "forged message accepted", fmt.Sprint(n, " cut")
		}
	}
	return "right", ""
}

// -------------------------------------------------------------- honesty test

type gnCase struct {
	Foreign []int   `json:"foreign"`
	Bits    [][]int `json:"bits"`
	Guess   [][]int `json:"guess"`
	Off     string  `json:"off"`
	At      []int   `json:"at"`
}

func runGn(v *vector, rng *rand.Rand) string {
	c := &gnCase{}
	if err := json.Unmarshal(v.C, c); err != nil {
		panic(err)
	}
	W := fujiokam.GN_HONESTY_PROOF_SIZE
	_, fb := bases(cluster.NewReqLab(1, 1, 0))
	alpha, _ := cluster.FixedSecrets()
	gs := []**fujiokam.Point{&fb.G1, &fb.G2, &fb.G3, &fb.G4, &fb.G5, &fb.G6}
	// the specification's generators and places stand somewhere among the six and the eighty
	gen := rng.Perm(6)
	place := map[int][]int{}
	for i := range c.Bits {
		place[i] = rng.Perm(W)[:len(c.Bits[i])]
	}
	foreign := map[int]bool{}
	for _, f := range c.Foreign {
		i := gen[f-1]
		foreign[i] = true
		// a generator that is no power of the base (it has no root), or one whose logarithm is not known
		p := fb.Point().SetBigInt(new(big.Int).Rand(rng, fb.N))
		p.Mul(p, p)
		if rng.Intn(2) == 0 {
			p.V.Sub(fb.N, &p.V)
		}
		*gs[i] = p
	}
	bits, secrets, publics, answers := make([]bool, 6*W), make([]*big.Int, 6*W), make([]*big.Int, 6*W), make([]*big.Int, 6*W)
	for i := 0; i < 6; i++ {
		for j := 0; j < W; j++ {
			bits[i*W+j] = rng.Intn(2) == 1
		}
	}
	for i := range c.Bits {
		for j, b := range c.Bits[i] {
			bits[gen[i]*W+place[i][j]] = b == 1
		}
	}
	for i := 0; i < 6; i++ {
		for j := 0; j < W; j++ {
			k := i*W + j
			secrets[k] = new(big.Int).Rand(rng, fb.N)
			p := fb.Point().Exp(fb.H1, secrets[k])
			guess := bits[k]
			for a := range c.Bits {
				for b, at := range place[a] {
					if gen[a] == i && at == j {
						guess = c.Guess[a][b] == 1
					}
				}
			}
			if foreign[i] && guess {
				p.Mul(p, fb.Point().Exp(*gs[i], big.NewInt(-1)))
			}
			publics[k] = &p.V
			answers[k] = new(big.Int).Set(secrets[k])
			if bits[k] && !foreign[i] {
				answers[k].Add(answers[k], alpha[i])
			}
		}
	}
	k := gen[c.At[0]-1]*W + place[c.At[0]-1][c.At[1]-1]
	switch c.Off {
	case "none":
	case "+1":
		answers[k].Add(answers[k], big.NewInt(1))
	case "-1":
		answers[k].Sub(answers[k], big.NewInt(1))
	case "zero":
		answers[k] = new(big.Int)
	case "neg":
		answers[k].Neg(answers[k])
	case "swap":
		o := k/W*W + (k+1)%W
		answers[k], answers[o] = answers[o], answers[k]
	case "gens":
		o := (k + W) % (6 * W)
		answers[k], answers[o] = answers[o], answers[k]
	case "short":
		// what follows in memory is not there either
		short := make([]*big.Int, len(answers)-1)
		copy(short, answers)
		answers = short
	case "empty":
		answers = nil
	}
	if verdict(func() bool { return fb.CheckAllGnHonesty(answers, bits, publics) == 0 }) == "accept" {
		return "pass"
	}
	return "fail"
}

// an honest coordinator, with parameters of its own
func runGnHonest(v *vector, rng *rand.Rand) (string, string) {
	fb := fujiokam.CreateBaseFromSuite(suite.Get())
	W := fujiokam.GN_HONESTY_PROOF_SIZE
	old := map[string]bool{}
	small := new(big.Int).Rsh(fb.N, 64)
	for r := 0; r < v.Rounds; r++ {
		sec, pub := fb.GenerateAllGnHonestyProof()
		for _, x := range pub {
			if old[x.Text(62)] {
				return "a first move is made twice", fmt.Sprint(r)
			}
			old[x.Text(62)] = true
		}
		k := 0
		for _, x := range sec {
			if x.Cmp(small) < 0 {
				k++
			}
		}
		if k > 2 {
			return "a secret is small", fmt.Sprint(r)
		}
		bits := fb.ChallengeAllGnHonesty()
		if len(bits) != 6*W {
			return "length", ""
		}
		for i := range bits {
			if r == 0 {
				bits[i] = false
			} else if r == 1 {
				bits[i] = true
			}
		}
		if verdict(func() bool { return fb.CheckAllGnHonesty(fb.AnswerAllGnHonesty(bits, sec, pub), bits, pub) == 0 }) != "accept" {
			return "honest parameters fail", fmt.Sprint(r)
		}
	}
	return "pass", ""
}

func runChal(v *vector) (string, map[string]interface{}) {
	_, fb := bases(cluster.NewReqLab(1, 1, 0))
	var l []string
	for i := 0; i < v.Rounds; i++ {
		b := make([]byte, 0, 480)
		for _, x := range fb.ChallengeAllGnHonesty() {
			if x {
				b = append(b, '1')
			} else {
				b = append(b, '0')
			}
		}
		l = append(l, string(b))
	}
	return "drawn", map[string]interface{}{"chal": l}
}

// within runs a vector that may never come to an end
// ------------------------------------------------------------------ what responses hide

// runMasks makes proofs and takes the masks out of their responses
func runMasks(v *vector) (string, map[string]interface{}) {
	s := suite.Get()
	o := open(v)
	seen := map[string][]string{}
	q := new(big.Int).Rsh(new(big.Int).Sub(modulus(), big.NewInt(1)), 1)
	for k := 0; k < v.Block; k++ {
		ind := v.Ind
		if k%2 == 1 { // the same again, and another
			ind = 0
		}
		d := big.NewInt(int64(v.Rep - ind))
		xd := s.Secret().SetInt64(int64(v.Rep - ind))
		pc := point(o.l.Commitment())
		R := util.DecodeSecret(s, o.l.Blinding())
		pi, ri := o.pb.Commit(s.Secret().SetInt64(int64(ind)))
		pd := o.pb.Sub(pc, pi)
		rd := s.Secret().Sub(R, ri)
		fc, rf := o.fb.Commit(d)
		nn := o.fb.ProveNonneg(new(big.Int).Set(d), fc, rf)
		eq := pedersen_fujiokam.ProveEqual(o.pb, o.fb, xd, pd, rd, fc, rf)
		cluster.Masks(func(name string, x *big.Int) { seen[name] = append(seen[name], x.Text(16)) }, q, d, util.SecretToBigInt(rd), rf, fc.ToBinary(),
			map[string]*big.Int{"Commitrx": nn.Commitrx, "C": nn.C, "Cr": nn.Cr, "R": nn.R, "X_": nn.X_, "A_": nn.A_, "B_": nn.B_, "D_": nn.D_, "R_": nn.R_},
			map[string]*big.Int{"C": eq.C, "S1": eq.S1, "S2": eq.S2, "S3": eq.S3})
	}
	return "drawn", map[string]interface{}{"seen": seen, "n": o.fb.N.Text(16), "q": q.Text(16)}
}

func modulus() *big.Int {
	p, _ := new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
	return p
}

// runGammas: the masks of the coordinator's answers, and its secrets
func runGammas(v *vector) (string, map[string]interface{}) {
	fb := fujiokam.CreateBaseFromSuite(suite.Get())
	seen := map[string][]string{}
	const W = fujiokam.GN_HONESTY_PROOF_SIZE
	for k := 0; k < v.Block; k++ {
		secrets, publics := fb.GenerateAllGnHonestyProof()
		zero, ones := make([]bool, 6*W), make([]bool, 6*W)
		for i := range ones {
			ones[i] = true
		}
		a := fb.AnswerAllGnHonesty(zero, secrets, publics)
		b := fb.AnswerAllGnHonesty(ones, secrets, publics)
		for i := range a {
			seen["gamma"] = append(seen["gamma"], a[i].Text(16))
			if i%W == 0 && k == 0 {
				seen["alpha"] = append(seen["alpha"], new(big.Int).Sub(b[i], a[i]).Text(16))
			}
		}
	}
	return "drawn", map[string]interface{}{"seen": seen, "n": fb.N.Text(16)}
}

func within(limit time.Duration, v *vector) *outcome {
	ch := make(chan *outcome, 1)
	go func() { ch <- run(v) }()
	select {
	case o := <-ch:
		return o
	case <-time.After(limit):
		return &outcome{ID: v.ID, Out: "hang"}
	}
}

func main() {
	in := flag.String("in", "", "vectors")
	out := flag.String("out", "", "outcomes")
	par := flag.Int("par", 8, "at a time")
	limit := flag.Duration("limit", 10*time.Minute, "for one vector")
	flag.Parse()
	var l []*vector
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	res := make([]*outcome, len(l))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	for i := range l {
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			res[i] = within(*limit, l[i])
		}(i)
	}
	wg.Wait()
	os.Stdout = stdout
	if b, err = json.Marshal(res); err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
