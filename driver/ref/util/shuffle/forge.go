package shuffle

import (
	"crypto/cipher"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// A Forger makes proofs for lists that are no shuffles.  Each way of cheating
// defeats a verifier that leaves out one particular check, and no other.
type Forger struct {
	Xbar, Ybar []abstract.Point
	ps         PairShuffle
	off        abstract.Point
}

// Spoil puts in a wrong output before the proof is made; Alter can then choose
// a key for it if the challenges do not depend on the key.
func (f *Forger) Spoil(grp abstract.Group, rand cipher.Stream) {
	f.off = grp.Point().Mul(nil, grp.Secret().Pick(rand))
	f.Ybar[0] = grp.Point().Add(f.Ybar[0], f.off)
}

// Linear mixes the pairs: entry i of the output is the combination A[i] of the
// inputs, re-encrypted with beta[i].  The proof passes every check but the one
// that ties the embedded simple shuffle to the pair shuffle.  Returns nil
// if A is singular.
func Linear(grp abstract.Group, h abstract.Point, X, Y []abstract.Point, A [][]int64, rand cipher.Stream) (*Forger, proof.Prover) {
	k := len(X)
	f := &Forger{}
	f.ps.Init(grp, k)
	M := inverseTranspose(grp, A)
	if M == nil {
		return nil, nil
	}
	beta := make([]abstract.Secret, k)
	f.Xbar, f.Ybar = make([]abstract.Point, k), make([]abstract.Point, k)
	for i := range beta {
		beta[i] = grp.Secret().Pick(rand)
		f.Xbar[i] = grp.Point().Mul(nil, beta[i])
		f.Ybar[i] = grp.Point().Mul(h, beta[i])
		for j := range X {
			a := grp.Secret().SetInt64(A[i][j])
			f.Xbar[i].Add(f.Xbar[i], grp.Point().Mul(X[j], a))
			f.Ybar[i].Add(f.Ybar[i], grp.Point().Mul(Y[j], a))
		}
	}
	return f, func(ctx proof.ProverContext) error {
		ps := &f.ps
		p1 := &ps.p1
		z := grp.Secret()
		u := make([]abstract.Secret, k)
		w := make([]abstract.Secret, k)
		a := make([]abstract.Secret, k)
		var tau0, gamma abstract.Secret
		ctx.PriRand(u, w, a, &tau0, &gamma)
		p1.Gamma = grp.Point().Mul(nil, gamma)
		p1.Lambda1, p1.Lambda2 = grp.Point().Null(), grp.Point().Null()
		bsum := grp.Secret().Set(tau0)
		for i := 0; i < k; i++ {
			p1.A[i] = grp.Point().Mul(nil, a[i])
			p1.C[i] = grp.Point().Mul(nil, z.Mul(gamma, a[i]))
			p1.U[i] = grp.Point().Mul(nil, u[i])
			p1.W[i] = grp.Point().Mul(nil, z.Mul(gamma, w[i]))
			bsum.Add(bsum, z.Mul(w[i], beta[i]))
			c := grp.Secret().Neg(u[i]) // coefficient of X[i]
			for j := 0; j < k; j++ {
				c.Add(c, z.Mul(w[j], grp.Secret().SetInt64(A[j][i])))
			}
			p1.Lambda1.Add(p1.Lambda1, grp.Point().Mul(X[i], c))
			p1.Lambda2.Add(p1.Lambda2, grp.Point().Mul(Y[i], c))
		}
		p1.Lambda1.Add(p1.Lambda1, grp.Point().Mul(nil, bsum))
		p1.Lambda2.Add(p1.Lambda2, grp.Point().Mul(h, bsum))
		if err := ctx.Put(p1); err != nil {
			return err
		}
		if err := ctx.PubRand(&ps.v2); err != nil {
			return err
		}
		b := make([]abstract.Secret, k)
		mb := make([]abstract.Secret, k)
		for i := range b {
			b[i] = grp.Secret().Sub(ps.v2.Zrho[i], u[i])
		}
		for i := range mb {
			mb[i] = grp.Secret().Zero()
			for j := range b {
				mb[i].Add(mb[i], z.Mul(M[i][j], b[j]))
			}
			ps.p3.D[i] = grp.Point().Mul(nil, z.Mul(gamma, mb[i]))
		}
		if err := ctx.Put(&ps.p3); err != nil {
			return err
		}
		if err := ctx.PubRand(&ps.v4); err != nil {
			return err
		}
		ps.p5.Ztau = grp.Secret().Neg(tau0)
		r := make([]abstract.Secret, k)
		s := make([]abstract.Secret, k)
		for i := range b {
			ps.p5.Zsigma[i] = grp.Secret().Add(w[i], mb[i])
			ps.p5.Ztau.Add(ps.p5.Ztau, z.Mul(beta[i], mb[i]))
			r[i] = grp.Secret().Add(a[i], z.Mul(ps.v4.Zlambda, b[i]))
		}
		for i := range s {
			s[i] = grp.Secret().Mul(gamma, r[i])
		}
		if err := ctx.Put(&ps.p5); err != nil {
			return err
		}
		return ps.pv6.Prove(nil, gamma, r, s, rand, ctx)
	}
}

// Alter changes one part of a proved statement so that the equations still
// hold under the challenges that the proof was made for.
func (f *Forger) Alter(grp abstract.Group, part string, pk abstract.Point, X, Y []abstract.Point, rand cipher.Stream) (abstract.Point, []abstract.Point, []abstract.Point) {
	D := grp.Point().Mul(nil, grp.Secret().Pick(rand))
	cp := func(l []abstract.Point) []abstract.Point { return append([]abstract.Point{}, l...) }
	shift := func(l []abstract.Point, c []abstract.Secret) []abstract.Point {
		l = cp(l)
		l[0] = grp.Point().Add(l[0], grp.Point().Mul(D, c[1]))
		l[1] = grp.Point().Sub(l[1], grp.Point().Mul(D, c[0]))
		return l
	}
	switch part {
	case "Xb":
		f.Xbar = shift(f.Xbar, f.ps.p5.Zsigma)
	case "Yb":
		f.Ybar = shift(f.Ybar, f.ps.p5.Zsigma)
	case "X":
		X = shift(X, f.ps.v2.Zrho)
	case "Y":
		Y = shift(Y, f.ps.v2.Zrho)
	case "pk":
		// the key under which the spoilt output satisfies the last equation
		e := grp.Secret().Inv(f.ps.p5.Ztau)
		pk = grp.Point().Add(pk, grp.Point().Mul(f.off, grp.Secret().Mul(e, f.ps.p5.Zsigma[0])))
	}
	return pk, X, Y
}

func inverseTranspose(grp abstract.Group, A [][]int64) [][]abstract.Secret {
	k := len(A)
	m := make([][]abstract.Secret, k)
	for i := range m {
		m[i] = make([]abstract.Secret, 2*k)
		for j := 0; j < k; j++ {
			m[i][j] = grp.Secret().SetInt64(A[j][i])
			m[i][k+j] = grp.Secret().Zero()
		}
		m[i][k+i].One()
	}
	zero := grp.Secret().Zero()
	for c := 0; c < k; c++ {
		p := c
		for p < k && m[p][c].Equal(zero) {
			p++
		}
		if p == k {
			return nil
		}
		m[p], m[c] = m[c], m[p]
		inv := grp.Secret().Inv(m[c][c])
		for j := range m[c] {
			m[c][j].Mul(m[c][j], inv)
		}
		for i := range m {
			if i == c {
				continue
			}
			f := grp.Secret().Set(m[i][c])
			for j := range m[i] {
				m[i][j].Sub(m[i][j], grp.Secret().Mul(f, m[c][j]))
			}
		}
	}
	res := make([][]abstract.Secret, k)
	for i := range m {
		res[i] = m[i][k:]
	}
	return res
}
