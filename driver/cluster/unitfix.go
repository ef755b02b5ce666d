package cluster

import (
	"bytes"
	"math/big"
	"sync"

	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
)

// commitment parameters with known secrets, for the tests in which the driver is the coordinator
const fixP = "12417575347602369064351255020909028672764536251984071036880347991445015149552565031417323826813440028899261013170082175010386420614222230017357478969780207"
const fixQ = "11272558983365746968733297377711042341181982387628212585309532125423583414249583796750186901420220215975424299710177199525724971533581447640570468873074203"

type foParams struct {
	*fujiokam.FujiOkamBase
	pq    *big.Int
	alpha [6]*big.Int
}

var foOnce sync.Once
var foFixed *foParams

func fixed(s abstract.Suite) *foParams {
	foOnce.Do(func() {
		p, _ := new(big.Int).SetString(fixP, 10)
		q, _ := new(big.Int).SetString(fixQ, 10)
		N := new(big.Int).Mul(p, q)
		f := &foParams{FujiOkamBase: fujiokam.CreateMinimumBase(s, N)}
		half := func(x *big.Int) *big.Int { return new(big.Int).Rsh(x, 1) }
		f.pq = new(big.Int).Mul(half(p), half(q))
		h := big.NewInt(1234567)
		f.H1 = f.Point().SetBigInt(h.Mul(h, h).Mod(h, N))
		for i, g := range []**fujiokam.Point{&f.G1, &f.G2, &f.G3, &f.G4, &f.G5, &f.G6} {
			f.alpha[i] = new(big.Int).Mod(rnd(f.FujiOkamBase), f.pq)
			*g = f.Point().Exp(f.H1, f.alpha[i])
		}
		foFixed = f
	})
	return foFixed
}

func fixedFO(s abstract.Suite) *fujiokam.FujiOkamBase { return fixed(s).FujiOkamBase }

func pedersenBase(s abstract.Suite, g, h abstract.Point) *pedersen.PedersenBase {
	return &pedersen.PedersenBase{Suite: s, GT: g, HT: h}
}

func readSig(s abstract.Suite, sig []byte) (abstract.Secret, abstract.Secret) {
	c, r := s.Secret(), s.Secret()
	buf := bytes.NewBuffer(sig)
	if abstract.Read(buf, &c, s) != nil || abstract.Read(buf, &r, s) != nil {
		panic("signature too short")
	}
	return c, r
}
