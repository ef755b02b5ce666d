package cluster

import (
	"math/big"
	"math/rand"

	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen_fujiokam"
	"zrepv/ref/suite"
	"zrepv/ref/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// ReqCase is a case of spec/Request.tla
type ReqCase struct {
	Rep  int    `json:"rep"`
	Ind  int    `json:"ind"`
	IndC int    `json:"indC"`
	Pd   int    `json:"pd"`
	Off  int    `json:"off"`
	Wrap int    `json:"wrap"`
	NN   string `json:"nn"`
	EQ   string `json:"eq"`
}

// ReqLab holds what a request is made and verified against
type ReqLab struct {
	c *emuClient
}

// NewReqLab picks bases as they are after some rounds, and commits to rep
func NewReqLab(seed int64, rep int, rounds int) *ReqLab {
	s := suite.Get()
	sec := func() abstract.Secret { return s.Secret().Pick(random.Stream) }
	w := &World{rng: rand.New(rand.NewSource(seed)), tr: &Trace{}, emu: map[string]*emuClient{}, nodes: map[string]*node{}}
	w.ob = &observer{suite: s}
	g := s.Point().Mul(nil, sec())
	h := s.Point().Mul(nil, sec())
	c := &emuClient{w: w, name: "E", rep: rep, hon: true, fo: fixedFO(s)}
	c.sk = sec()
	c.G = s.Point().Mul(nil, sec())
	c.nym = s.Point().Mul(c.G, c.sk)
	// the commitment's history: a start, changes by votes, new bases every round
	c.pb = pedersenBase(s, g, h)
	r0 := sec()
	have := rep
	if rounds > 0 {
		have = w.rng.Intn(rep + 1)
	}
	pc := c.pb.CommitWithR(s.Secret().SetInt64(int64(have)), r0)
	c.R = r0
	for i := 0; i < rounds; i++ {
		E := sec()
		c.pb = pedersenBase(s, s.Point().Mul(c.pb.GT, E), s.Point().Mul(c.pb.HT, E))
		pc = s.Point().Mul(pc, E)
		step := w.rng.Intn(2*rep+1) - rep // some votes
		if i == rounds-1 {
			step = rep - have
		}
		have += step
		rd := sec()
		pc = c.pb.Add(pc, c.pb.CommitWithR(s.Secret().SetInt64(int64(step)), rd))
		c.R = s.Secret().Add(c.R, rd)
	}
	c.pc = pc
	return &ReqLab{c}
}

// Commitment, blinding value and bases, encoded
func (l *ReqLab) Commitment() []byte { return util.EncodePoint(l.c.pc) }
func (l *ReqLab) Blinding() []byte   { return util.EncodeSecret(l.c.R) }
func (l *ReqLab) GT() []byte         { return util.EncodePoint(l.c.pb.GT) }
func (l *ReqLab) HT() []byte         { return util.EncodePoint(l.c.pb.HT) }
func (l *ReqLab) Nym() []byte        { return util.EncodePoint(l.c.nym) }

// FO gives n, g1..g6, h1
func (l *ReqLab) FO() (b [][]byte) {
	f := l.c.fo
	b = append(b, f.N.Bytes())
	for _, p := range []*fujiokam.Point{f.G1, f.G2, f.G3, f.G4, f.G5, f.G6, f.H1} {
		b = append(b, p.ToBinary())
	}
	return
}

// Make builds the request of a case
func (l *ReqLab) Make(k *ReqCase) map[string]interface{} {
	c := l.c
	s := suite.Get()
	q := c.q()
	secret := func(x *big.Int) abstract.Secret { return util.BigIntToSecret(s, x) }
	pcInd, rind := c.pb.Commit(s.Secret().SetInt64(int64(k.IndC)))
	vd := big.NewInt(int64(k.Rep - k.IndC))
	pcD := c.pb.Sub(c.pc, pcInd)
	rd := s.Secret().Sub(c.R, rind)
	if k.Pd >= 0 {
		vd = big.NewInt(int64(k.Pd))
		pcD, rd = c.pb.Commit(secret(vd))
	}
	fo := new(big.Int).Mul(q, big.NewInt(int64(k.Wrap)))
	fo.Add(fo, vd).Add(fo, big.NewInt(int64(k.Off)))
	fc, rf := c.fo.Commit(fo)
	var nn *fujiokam.ARGnonneg
	sq := func(a, b, d int64) [3]*big.Int { return [3]*big.Int{big.NewInt(a), big.NewInt(b), big.NewInt(d)} }
	odd := sq(int64(c.w.rng.Intn(3)), int64(c.w.rng.Intn(3)), int64(c.w.rng.Intn(3)))
	switch k.NN {
	case "ok":
		if fo.BitLen() < 40 {
			nn = c.fo.ProveNonneg(fo, fc, rf)
		} else {
			nn = nonneg(c.fo, fo, threeSquares(fo), fc, rf, nil)
		}
	case "first":
		nn = c.fo.ProveNonneg(big.NewInt(int64(c.w.rng.Intn(4))), fc, rf)
	case "second":
		nn = nonneg(c.fo, fo, odd, fc, rf, nil)
	case "other":
		y := big.NewInt(int64(c.w.rng.Intn(4)))
		f2, r2 := c.fo.Commit(y)
		nn = c.fo.ProveNonneg(y, f2, r2)
	case "zero":
		z := new(big.Int)
		nn = &fujiokam.ARGnonneg{Commitrx: z, C: z, Cr: z, R: z, X_: z, A_: z, B_: z, D_: z, R_: z}
	case "lateRx":
		nn = lateRx(c.fo, fc, rf)
	case "lateCr":
		nn = lateCr(c.fo, fo, fc, rf)
	case "lateC":
		nn = lateC(c.fo, fo, odd, fc, rf)
	default:
		panic(k.NN)
	}
	var eq *pedersen_fujiokam.ARGequal
	switch k.EQ {
	case "ok":
		eq = proveEq(c, fo, pcD, rd, fc, rf, 0)
	case "ped":
		eq = proveEq(c, vd, pcD, rd, fc, rf, 1)
	case "fo":
		eq = proveEq(c, fo, pcD, rd, fc, rf, 2)
	case "plainPed":
		eq = proveEq(c, vd, pcD, rd, fc, rf, 0)
	case "plainFO":
		eq = proveEq(c, fo, pcD, rd, fc, rf, 0)
	default:
		panic(k.EQ)
	}
	ind := k.Ind
	if k.Ind != k.IndC {
		// a number that is another one, but not in its last bits
		if i := (7*k.Rep + 3*k.Ind + 5*k.IndC + len(k.NN) + 2*len(k.EQ) + int(fo.Bit(0))) % 6; i < 3 {
			ind = k.IndC + 1<<[]uint{32, 16, 8}[i]
		}
	}
	return map[string]interface{}{"ind": ind, "nym": util.EncodePoint(c.nym), "FOCommd": fc.ToBinary(),
		"PCommd": util.EncodePoint(pcD), "PCommind": util.EncodePoint(pcInd), "rind": util.EncodeSecret(rind),
		"arg_nonneg": util.EncodeARGnonneg(nn), "arg_equal": util.EncodeARGequal(eq)}
}

// lateRx: commitrx computed from the challenge
func lateRx(fo *fujiokam.FujiOkamBase, fc *fujiokam.Point, rf *big.Int) *fujiokam.ARGnonneg {
	return nonneg(fo, big.NewInt(2), [3]*big.Int{big.NewInt(3), big.NewInt(0), big.NewInt(0)}, fc, rf, func(n *fujiokam.ARGnonneg, _ [4]*big.Int, hash func(...*big.Int) *big.Int, finish func(e *big.Int)) {
		e := hash(&fc.V, n.C, n.Cr)
		finish(e)
		t := fo.Point().Exp(fo.G1, n.X_)
		t.Mul(t, fo.Point().Exp(fo.H1, n.R))
		t.Mul(t, fo.Point().Exp(fc, new(big.Int).Neg(e)))
		n.Commitrx = &t.V
	})
}

// lateCr: Cr computed from the challenge
func lateCr(fo *fujiokam.FujiOkamBase, x *big.Int, fc *fujiokam.Point, rf *big.Int) *fujiokam.ARGnonneg {
	return nonneg(fo, x, [3]*big.Int{big.NewInt(1), big.NewInt(0), big.NewInt(0)}, fc, rf, func(n *fujiokam.ARGnonneg, _ [4]*big.Int, hash func(...*big.Int) *big.Int, finish func(e *big.Int)) {
		e := hash(&fc.V, n.Commitrx, n.C)
		finish(e)
		t := nnRight(fo, n, e)
		C := fo.Point().SetBigInt(n.C)
		t.Mul(t, fo.Point().Exp(C, new(big.Int).Neg(e)))
		n.Cr = &t.V
	})
}

// lateC: C computed from the challenge, which divides all that has to be divided
func lateC(fo *fujiokam.FujiOkamBase, x *big.Int, sq [3]*big.Int, fc *fujiokam.Point, rf *big.Int) *fujiokam.ARGnonneg {
	return nonneg(fo, x, sq, fc, rf, func(n *fujiokam.ARGnonneg, rs [4]*big.Int, hash func(...*big.Int) *big.Int, finish func(e *big.Int)) {
		e := hash(&fc.V, n.Commitrx, n.Cr)
		finish(e)
		k := new(big.Int).Mul(big.NewInt(4), n.X_)
		k.Add(k, e)
		for i := range sq {
			t := new(big.Int).Mul(sq[i], sq[i])
			k.Sub(k, t.Mul(t, e))
			t = new(big.Int).Mul(sq[i], rs[i])
			k.Sub(k, t.Lsh(t, 1))
		}
		p := fo.Point().Exp(fo.G2, x)
		p.Mul(p, fo.Point().Exp(fo.G3, sq[0]))
		p.Mul(p, fo.Point().Exp(fo.G4, sq[1]))
		p.Mul(p, fo.Point().Exp(fo.G5, sq[2]))
		p.Mul(p, fo.Point().Exp(fo.G6, k))
		p.Mul(p, fo.Point().Exp(fo.H1, rs[3]))
		n.C = &p.V
		// the first equation has to hold under this challenge
		l := fo.Point().Exp(p, e)
		l.Mul(l, fo.Point().SetBigInt(n.Cr))
		if !l.Equal(nnRight(fo, n, e)) {
			panic("the forgery is none")
		}
	})
}

// FixedSecrets gives the logarithms of the fixed g1..g6 and the order of their group
func FixedSecrets() (alpha []*big.Int, pq *big.Int) {
	f := fixed(suite.Get())
	return f.alpha[:], f.pq
}
