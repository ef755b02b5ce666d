package shuffle

import (
	"crypto/cipher"
	"fmt"
	"strings"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
)

// list notes the equations of the pair shuffle that do not hold
func (ps *PairShuffle) list(g, h abstract.Point, X, Y, Xbar, Ybar, B []abstract.Point) {
	grp := ps.grp
	note := func(ok bool, name string, i int) {
		if !ok {
			*ps.failed = append(*ps.failed, fmt.Sprintf("%s:%d", name, i))
		}
	}
	p1, p3, p5 := &ps.p1, &ps.p3, &ps.p5
	Phi1, Phi2 := grp.Point().Null(), grp.Point().Null()
	for i := range X {
		R := grp.Point().Mul(B[i], ps.v4.Zlambda)
		S := grp.Point().Mul(p3.D[i], ps.v4.Zlambda)
		note(R.Add(R, p1.A[i]).Equal(ps.pv6.p0.X[i]), "tieR", i)
		note(S.Add(S, p1.C[i]).Equal(ps.pv6.p0.Y[i]), "tieS", i)
		note(grp.Point().Mul(p1.Gamma, p5.Zsigma[i]).Equal(grp.Point().Add(p1.W[i], p3.D[i])), "33", i)
		Phi1.Add(Phi1, grp.Point().Mul(Xbar[i], p5.Zsigma[i]))
		Phi1.Sub(Phi1, grp.Point().Mul(X[i], ps.v2.Zrho[i]))
		Phi2.Add(Phi2, grp.Point().Mul(Ybar[i], p5.Zsigma[i]))
		Phi2.Sub(Phi2, grp.Point().Mul(Y[i], ps.v2.Zrho[i]))
	}
	note(grp.Point().Add(p1.Lambda1, grp.Point().Mul(g, p5.Ztau)).Equal(Phi1), "34", 0)
	note(grp.Point().Add(p1.Lambda2, grp.Point().Mul(h, p5.Ztau)).Equal(Phi2), "35", 0)
}

// Failed tells which equations of a proof do not hold
func Failed(group abstract.Group, name string, suite abstract.Suite, h abstract.Point, X, Y, Xbar, Ybar []abstract.Point, prf []byte) string {
	l := []string{}
	ps := PairShuffle{failed: &l}
	ps.Init(group, len(X))
	err := proof.HashVerify(suite, name, func(ctx proof.VerifierContext) error {
		return ps.Verify(nil, h, X, Y, Xbar, Ybar, ctx)
	}, prf)
	if err != nil {
		return err.Error()
	}
	return strings.Join(l, " ")
}

// Cheat proves a list with one wrong element.  The prover deviates so that one
// equation of the verifier, number i of those called eq, does not hold, and all
// others do.  A proof for 34 and 35 comes with a false list beside a true one,
// the others with a key that was raised to a power.
func Cheat(grp abstract.Group, h abstract.Point, X, Y []abstract.Point, eq string, i int, rand cipher.Stream) (*Forger, proof.Prover) {
	k := len(X)
	f := &Forger{}
	f.ps.Init(grp, k)
	at := i % k
	if eq == "tieR" {
		at = (i + k - 1) % k // its output is number i of the inputs
	}
	two := grp.Secret().SetInt64(2)
	pi := make([]int, k)
	for j := range pi {
		pi[j] = (j + 1) % k
	}
	beta := make([]abstract.Secret, k)
	scale := make([]abstract.Secret, k)
	f.Xbar, f.Ybar = make([]abstract.Point, k), make([]abstract.Point, k)
	for j := range beta {
		beta[j] = grp.Secret().Pick(rand)
		scale[j] = grp.Secret().One()
		if j == at && eq != "34" && eq != "35" {
			scale[j] = two
		}
		f.Xbar[j] = grp.Point().Mul(nil, beta[j])
		f.Xbar[j].Add(f.Xbar[j], grp.Point().Mul(X[pi[j]], scale[j]))
		f.Ybar[j] = grp.Point().Mul(h, beta[j])
		f.Ybar[j].Add(f.Ybar[j], grp.Point().Mul(Y[pi[j]], scale[j]))
	}
	switch eq {
	case "34":
		f.Xbar[at] = grp.Point().Mul(nil, grp.Secret().Pick(rand))
	case "35":
		f.Ybar[at] = grp.Point().Mul(nil, grp.Secret().Pick(rand))
	}
	return f, func(ctx proof.ProverContext) error {
		ps := &f.ps
		p1 := &ps.p1
		z := grp.Secret()
		u := make([]abstract.Secret, k)
		w := make([]abstract.Secret, k)
		a := make([]abstract.Secret, k)
		var tau0, gamma abstract.Secret
		ctx.PriRand(u, w, a, &tau0, &gamma)
		p1.Gamma = grp.Point().Mul(nil, gamma)
		p1.Lambda1, p1.Lambda2 = grp.Point().Null(), grp.Point().Null()
		bsum := grp.Secret().Set(tau0)
		for j := 0; j < k; j++ {
			p1.A[j] = grp.Point().Mul(nil, a[j])
			p1.C[j] = grp.Point().Mul(nil, z.Mul(gamma, a[pi[j]]))
			p1.U[j] = grp.Point().Mul(nil, u[j])
			p1.W[j] = grp.Point().Mul(nil, z.Mul(gamma, w[j]))
			bsum.Add(bsum, z.Mul(w[j], beta[j]))
		}
		for j := 0; j < k; j++ {
			// output j is scale[j] times input pi[j]
			for _, l := range []struct{ L, P abstract.Point }{{p1.Lambda1, X[pi[j]]}, {p1.Lambda2, Y[pi[j]]}} {
				c := grp.Secret().Mul(w[j], scale[j])
				l.L.Add(l.L, grp.Point().Mul(l.P, c.Sub(c, u[pi[j]])))
			}
		}
		p1.Lambda1.Add(p1.Lambda1, grp.Point().Mul(nil, bsum))
		p1.Lambda2.Add(p1.Lambda2, grp.Point().Mul(h, bsum))
		if err := ctx.Put(p1); err != nil {
			return err
		}
		if err := ctx.PubRand(&ps.v2); err != nil {
			return err
		}
		b := make([]abstract.Secret, k)
		mb := make([]abstract.Secret, k)
		for j := range b {
			b[j] = grp.Secret().Sub(ps.v2.Zrho[j], u[j])
		}
		for j := range mb {
			mb[j] = grp.Secret().Div(b[pi[j]], scale[j])
			d := mb[j]
			if eq == "33" {
				d = b[pi[j]]
			}
			ps.p3.D[j] = grp.Point().Mul(nil, z.Mul(gamma, d))
		}
		if err := ctx.Put(&ps.p3); err != nil {
			return err
		}
		if err := ctx.PubRand(&ps.v4); err != nil {
			return err
		}
		ps.p5.Ztau = grp.Secret().Neg(tau0)
		r := make([]abstract.Secret, k)
		s := make([]abstract.Secret, k)
		for j := range b {
			ps.p5.Zsigma[j] = grp.Secret().Add(w[j], mb[j])
			ps.p5.Ztau.Add(ps.p5.Ztau, z.Mul(beta[j], mb[j]))
			r[j] = grp.Secret().Add(a[j], z.Mul(ps.v4.Zlambda, b[j]))
		}
		if err := ctx.Put(&ps.p5); err != nil {
			return err
		}
		honest := eq == "33" || eq == "34" || eq == "35"
		for j := range s {
			s[j] = grp.Secret().Set(r[pi[j]])
			if j == at && !honest {
				// what S is: its D follows the false output
				s[j] = grp.Secret().Add(a[pi[j]], z.Mul(ps.v4.Zlambda, mb[j]))
			}
		}
		switch eq {
		case "tieR":
			r[pi[at]] = s[at]
		case "tieS":
			s[at] = r[pi[at]]
		}
		e := -1
		if eq == "ss" {
			e = i
		}
		for j := range s {
			s[j] = grp.Secret().Mul(gamma, s[j])
		}
		return ps.pv6.cheat(gamma, r, s, e, ctx)
	}
}

// cheat proves that y is gamma times a permutation of x; if it is not, equation e fails
func (ss *SimpleShuffle) cheat(gamma abstract.Secret, x, y []abstract.Secret, e int, ctx proof.ProverContext) error {
	grp := ss.grp
	k := len(x)
	for i := 0; i < k; i++ {
		ss.p0.X[i] = grp.Point().Mul(nil, x[i])
		ss.p0.Y[i] = grp.Point().Mul(nil, y[i])
	}
	if err := ctx.Put(ss.p0); err != nil {
		return err
	}
	if err := ctx.PubRand(&ss.v1); err != nil {
		return err
	}
	t := ss.v1.Zt
	n := 2 * k // equations: left[i]*alpha[i-1] - right[i]*alpha[i] = theta[i], alpha[-1] = alpha[n-1] = c
	left := make([]abstract.Secret, n)
	right := make([]abstract.Secret, n)
	one := grp.Secret().One()
	for i := range left {
		if i < k {
			left[i] = grp.Secret().Sub(x[i], t)
			right[i] = grp.Secret().Sub(y[i], grp.Secret().Mul(gamma, t))
		} else {
			left[i], right[i] = gamma, one
		}
	}
	// the commitments are those of an honest prover with random theta
	th := make([]abstract.Secret, n-1)
	ctx.PriRand(th)
	theta := make([]abstract.Secret, n)
	for i := range theta {
		theta[i] = grp.Secret().Zero()
		if i > 0 {
			theta[i].Add(theta[i], grp.Secret().Mul(left[i], th[i-1]))
		}
		if i < n-1 {
			theta[i].Sub(theta[i], grp.Secret().Mul(right[i], th[i]))
		}
		ss.p2.Theta[i] = grp.Point().Mul(nil, theta[i])
	}
	if err := ctx.Put(ss.p2); err != nil {
		return err
	}
	if err := ctx.PubRand(&ss.v3); err != nil {
		return err
	}
	c := ss.v3.Zc
	if e < 0 {
		e = n - 1
	}
	al := make([]abstract.Secret, n-1)
	prev := c
	for i := 0; i < e; i++ {
		v := grp.Secret().Mul(left[i], prev)
		v.Sub(v, theta[i])
		al[i] = v.Div(v, right[i])
		prev = al[i]
	}
	next := c
	for i := n - 1; i > e; i-- {
		v := grp.Secret().Mul(right[i], next)
		v.Add(v, theta[i])
		al[i-1] = v.Div(v, left[i])
		next = al[i-1]
	}
	ss.p4.Zalpha = al
	return ctx.Put(ss.p4)
}
