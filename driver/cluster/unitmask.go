package cluster

import (
	"crypto/sha256"
	"math/big"
)

// Masks computes what the responses of a request add to challenge times secret (spec/Hide.tla).  What is not known is nil:
// then the response itself is shown, which has to be as wide.  Challenges and responses are shown as well ("=e" and "=z").
func Masks(add func(string, *big.Int), q, d, rd, rf *big.Int, fc []byte, nn, eq map[string]*big.Int) {
	h := sha256.New()
	h.Write(fc)
	h.Write(nn["Commitrx"].Bytes())
	h.Write(nn["C"].Bytes())
	h.Write(nn["Cr"].Bytes())
	e := new(big.Int).SetBytes(h.Sum(nil))
	less := func(z, c, x *big.Int) *big.Int {
		add("=e", c)
		add("=z", z)
		if x == nil {
			return new(big.Int).Set(z)
		}
		return new(big.Int).Sub(z, new(big.Int).Mul(c, x))
	}
	add("rx", less(nn["X_"], e, d))
	for _, f := range []string{"A_", "B_", "D_", "R_"} {
		add(f, less(nn[f], e, nil))
	}
	add("rrx", less(nn["R"], e, rf))
	add("t1", less(eq["S1"], eq["C"], d))
	if rd != nil {
		t2 := less(eq["S2"], eq["C"], rd)
		if eq["S2"].Sign() >= 0 && eq["S2"].Cmp(q) < 0 { // reduced
			t2.Mod(t2, q)
		}
		add("t2", t2)
	}
	add("S2", eq["S2"])
	add("t3", less(eq["S3"], eq["C"], rf))
	add("FOCommd", new(big.Int).SetBytes(fc))
	for _, f := range []string{"C", "Cr", "Commitrx"} {
		add(f, nn[f])
	}
	if rf != nil {
		add("rf", rf)
	}
}
