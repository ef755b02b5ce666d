package pedersen_fujiokam

import (
	"math/big"

	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
	// "fmt"
)

type ARGequal struct {
	C *big.Int
	S1 *big.Int
	S2 *big.Int
	S3 *big.Int
}

// transform abstract.Secret (implemented by nist.Int) to *big.Int
func SecretToBigInt(s abstract.Secret) *big.Int {
	return &s.(*nist.Int).V
}

// transform *big.Int to abstract.Secret (implemented by nist.Int)
func BigIntToSecret(suite abstract.Suite, i *big.Int) abstract.Secret {
	s := suite.Secret()
	nistS := s.(*nist.Int)
	nistS.V.Mod(i, nistS.M)
	return s
}

// challenge returns hash(PComm || FOComm || T1 || T2). It has to depend on the
// commitments, or they could be chosen to fit the challenge.
func challenge(suite abstract.Suite, PComm abstract.Point, FOComm *fujiokam.Point,
	T1 abstract.Point, T2 *fujiokam.Point) *big.Int {
	hash := suite.Hash()
	bytePComm, _ := PComm.MarshalBinary()
	hash.Write(bytePComm)
	hash.Write(FOComm.ToBinary())
	byteT1, _ := T1.MarshalBinary()
	hash.Write(byteT1)
	hash.Write(T2.ToBinary())
	return new(big.Int).SetBytes(hash.Sum(nil))
}

func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
	x abstract.Secret,
	PComm abstract.Point, rPComm abstract.Secret,
	FOComm *fujiokam.Point, rFOComm *big.Int) *ARGequal {
	suite := pedersenBase.Suite
	t1 := suite.Secret().Pick(random.Stream)
	t1Raw := SecretToBigInt(t1)
	t2 := suite.Secret().Pick(random.Stream)
	t2Raw := SecretToBigInt(t2)
	t3 := suite.Secret().Pick(random.Stream)
	t3Raw := SecretToBigInt(t3)
	// T1 := GT^t1 * HT^t2 (mod p)
	T1 := pedersenBase.CommitWithR(t1, t2)

	// T2 := g1^t1 * h1^t3 (mod n)
	T2 := fujiokamBase.CommitWithR(t1Raw, t3Raw)

	cRaw := challenge(suite, PComm, FOComm, T1, T2)

	xRaw := SecretToBigInt(x)
	rPCommRaw := SecretToBigInt(rPComm)
	// s1 := x*c + t1
	s1 := new(big.Int)
	s1.Mul(xRaw, cRaw).Add(s1, t1Raw)
	// s2 := rPComm*c + t2
	s2 := new(big.Int)
	s2.Mul(rPCommRaw, cRaw).Add(s2, t2Raw)
	// s3 := rFOComm*c + t3
	s3 := new(big.Int)
	s3.Mul(rFOComm, cRaw).Add(s3, t3Raw)

	return &ARGequal{
		C: cRaw,
		S1: s1,
		S2: s2,
		S3: s3,
	}
}

func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
	// The Pedersen commitment only fixes its value modulo the group order, so
	// without a bound on s1 the integer under FOComm could be x plus a multiple
	// of that order. An honest s1 = x*c + t1 has no more bits than t1.
	if arg.S1.Sign() < 0 || arg.S1.BitLen() > 8*pedersenBase.Suite.SecretLen() {
		return false
	}
	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
	c := BigIntToSecret(pedersenBase.Suite, arg.C)
	negC := pedersenBase.Suite.Secret().Neg(c)
	negCRaw := new(big.Int).Neg(arg.C)

	// T1 := GT^s1 * HT^s2 * PComm^(-c) mod p
	T1 := pedersenBase.CommitWithR(s1, s2)
	tmp := pedersenBase.Suite.Point().Mul(PComm, negC)
	T1.Add(T1, tmp)

	// T2 := g1^s1 * h1^s3 * FOComm^(-c) mod n
	T2 := fujiokamBase.CommitWithR(arg.S1, arg.S3)
	tmp2 := fujiokamBase.Point().Exp(FOComm, negCRaw)
	T2.Mul(T2, tmp2)

	RSide := challenge(pedersenBase.Suite, PComm, FOComm, T1, T2)

	return arg.C.Cmp(RSide) == 0
}