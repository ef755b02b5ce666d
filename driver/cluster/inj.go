package cluster

import (
	"bytes"
	"crypto/sha256"
	"encoding/gob"
	"fmt"
	"math/big"
	"net"
	"strings"
	"time"

	"zrepv/ref/cmd/bridge"
	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen_fujiokam"
	"zrepv/ref/proto"
	"zrepv/ref/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/random"
)

// inject makes the concrete message for an injection of the specification.
// The specification names a class (which check the message should fail at);
// the driver draws one of several concrete members of that class.  It returns
// the event as it was made concrete, in the specification's terms.
func (w *World) inject(e obj) (*message, obj) {
	m, _ := e["m"].(map[string]interface{})
	as := str(e, "as")
	if m == nil {
		return nil, nil
	}
	if w.nodes[as] == nil {
		if as[0] == 'S' {
			return nil, nil
		}
		w.newNode(as, 'A')
	}
	var msg *message
	ev := obj{}
	for k, v := range m {
		ev[k] = v
	}
	w.forced = -1
	if _, ok := ev["v"]; ok {
		w.forced = num(ev, "v")
		delete(ev, "v")
	}
	for _, f := range []string{"nym"} {
		if n, ok := ev[f].(map[string]interface{}); ok {
			ev[f] = w.canon(n)
		}
	}
	if a, ok := ev["asg"].(map[string]interface{}); ok {
		ev["asg"] = w.canonAsg(a)
	}
	if l, ok := ev["asgs"].([]interface{}); ok {
		q := []interface{}{}
		for _, a := range l {
			q = append(q, w.canonAsg(a.(map[string]interface{})))
		}
		ev["asgs"] = q
	}
	if err := safely(func() {
		switch str(m, "t") {
		case "POST":
			msg = w.injPost(as, ev)
		case "REQ":
			msg = w.injReq(as, ev)
		case "GOT":
			if w.rng.Intn(6) == 0 && w.nodes["E"] != nil && ev["mix"] == nil {
				as = "E"
			}
			msg = w.injGot(as, ev)
		case "GOTC":
			msg = w.injCert(str(e, "to"), ev)
		case "VOTE":
			msg = w.injVote(as, ev)
		case "SIGN":
			msg = w.injSign(str(e, "to"), ev)
		case "CREG":
			msg = w.injReg(as, ev)
		default:
			msg = w.injBad(as, ev)
		}
	}); err != nil {
		panic(fmt.Sprint("injection: ", err, " ", e))
	}
	if msg == nil {
		return nil, nil
	}
	r := obj{"a": "inj", "as": as, "m": ev}
	if to := str(e, "to"); to != "" {
		r["to"] = to
		msg.to = to
	}
	if e["front"] == true {
		r["front"] = true
	}
	return msg, r
}

// injSign is a request for signatures that a coordinator makes although the
// proof in it is wrong
func (w *World) injSign(to string, ev obj) *message {
	if n := w.nodes[to]; n == nil || n.kind != 'S' {
		return nil
	}
	k := w.findNym(ev["nym"])
	al, _ := ev["asgs"].([]interface{})
	if k == nil || k.c == nil || k.c.pb == nil || k.c.fo == nil || k.c.R == nil || len(al) == 0 {
		return nil
	}
	c := k.c
	var p obj
	if str(ev, "pf") == "ok" {
		ind := 1
		if c.rep < 1 {
			return nil
		}
		p = c.request(ind)
	} else {
		ind := c.rep + 1 + w.rng.Intn(4)
		if ind < 1 {
			ind = 1
		}
		p = w.forgeReq(c, ind, str(ev, "pf"))
	}
	ev["ind"] = p["ind"]
	if p["ind"].(int) > 1<<30 {
		ev["ind"] = 1 << 30
	}
	a0 := al[0].(map[string]interface{})
	req, prov := w.findNym(a0["req"]), w.findNym(a0["prov"])
	if req == nil || prov == nil {
		return nil
	}
	p["nym"] = util.EncodePoint(k.pt)
	delete(p, "signature")
	p["assignments"] = bridge.EncodeAssignmentList([]bridge.Assignment{{NymR: req.pt, Addr: w.addrOf(str(a0, "br"), false), Nym: prov.pt}})
	return w.build("C", proto.SIGN_ASSIGNMENTS, p)
}

// vary draws one of n variants; a scenario can also name it
func (w *World) vary(n int) int {
	if w.forced >= 0 {
		return w.forced % n
	}
	return w.rng.Intn(n)
}

// canon writes a nym of epoch e as what the whole chain made of it
func (w *World) canon(n obj) obj {
	kx, _ := n["kx"].([]interface{})
	if len(kx) == 0 {
		return n
	}
	x, _ := kx[0].([]interface{})
	if len(x) != 2 || x[0] == "none" {
		return n
	}
	l := []interface{}{}
	for _, s := range w.chain {
		l = append(l, []interface{}{s, x[1]})
	}
	return obj{"o": n["o"], "kx": l}
}

func (w *World) canonAsg(a obj) obj {
	return obj{"br": a["br"], "req": w.canon(a["req"].(map[string]interface{})), "prov": w.canon(a["prov"].(map[string]interface{}))}
}

// ---------------------------------------------------------------------------

// signer of a nym named by the specification
type nymKey struct {
	pt abstract.Point
	sk abstract.Secret // nil: not known to the adversary
	g  abstract.Point
	c  *emuClient
}

func (w *World) findNym(v interface{}) *nymKey {
	n, _ := v.(map[string]interface{})
	kx, _ := n["kx"].([]interface{})
	s := w.ob.suite
	o := str(n, "o")
	if len(kx) == 0 {
		if p := w.ob.pks[o]; p != nil {
			return &nymKey{pt: p, sk: w.ob.sks[o], c: w.emu[o], g: w.ob.base()}
		}
		return nil
	}
	x, _ := kx[0].([]interface{})
	if len(x) == 2 && x[0] == "none" {
		g := w.ob.base()
		if k := len(w.ob.gens); k > 0 {
			g = w.ob.gens[k-1].g
		}
		sk := s.Secret().Pick(random.Stream)
		return &nymKey{pt: s.Point().Mul(g, sk), sk: sk, g: g}
	}
	ep := 0
	if f, ok := x[1].(float64); ok {
		ep = int(f)
	}
	if ep >= len(w.ob.gens) {
		return nil
	}
	f := w.ob.gens[ep]
	if sk := w.ob.sks[o]; sk != nil {
		return &nymKey{pt: s.Point().Mul(f.g, sk), sk: sk, g: f.g, c: w.emu[o]}
	}
	for _, k := range f.keys {
		if f.keyOwner[k.String()] == o {
			return &nymKey{pt: k, g: f.g}
		}
	}
	return nil
}

// specNym is the specification's name of an observed nym
func (w *World) specNym(v obj) obj {
	kx := []interface{}{}
	g := v["g"].(int)
	if g >= 1 {
		for _, s := range w.chain {
			kx = append(kx, []interface{}{s, g - 1})
		}
	}
	return obj{"o": v["o"], "kx": kx}
}

func (w *World) specAsg(v obj) obj {
	return obj{"br": v["br"], "req": w.specNym(v["req"].(obj)), "prov": w.specNym(v["prov"].(obj))}
}

func (w *World) sign(msg []byte, sk abstract.Secret, g abstract.Point) []byte {
	s := w.ob.suite
	return util.ElGamalSign(s, s.Cipher(abstract.RandomKey), msg, sk, g)
}

// badSig is a signature that the nym's owner did not make for msg
func (w *World) badSig(msg []byte, k *nymKey) []byte {
	s := w.ob.suite
	other := s.Secret().Pick(random.Stream)
	if x := w.emu["E"]; x != nil && k.sk != x.sk {
		other = x.sk
	}
	switch v := w.vary(8); {
	case v == 0:
		return []byte{}
	case v == 1:
		return w.bytes(40 + w.rng.Intn(100))
	case v == 2 && k.sk != nil: // right key, wrong message
		return w.sign(append([]byte{1}, msg...), k.sk, k.g)
	case v == 3 && k.sk != nil: // right key, wrong base
		return w.sign(msg, k.sk, nil)
	case v == 4 && k.sk != nil: // truncated
		b := w.sign(msg, k.sk, k.g)
		return b[:len(b)-1-w.rng.Intn(len(b)-1)]
	case v == 5 && k.sk != nil: // one bit
		b := w.sign(msg, k.sk, k.g)
		b[w.rng.Intn(len(b))] ^= 1 << uint(w.rng.Intn(8))
		return b
	case v == 6:
		// all zero: c = r = 0
		return make([]byte, len(w.sign(msg, other, k.g)))
	}
	return w.sign(msg, other, k.g)
}

func (w *World) bytes(n int) []byte {
	b := make([]byte, n)
	w.rng.Read(b)
	return b
}

func (w *World) injPost(as string, ev obj) *message {
	k := w.findNym(ev["nym"])
	if k == nil {
		return nil
	}
	if m := w.shifted(as, ev, k); m != nil {
		return m
	}
	p := obj{"bridge_addr": w.addrOf(str(ev, "br"), false), "nym": util.EncodePoint(k.pt)}
	msg := bridge.MessageOfPostBridge(p)
	if str(ev, "sig") == "ok" {
		if k.sk == nil {
			return nil
		}
		p["signature"] = w.sign(msg, k.sk, k.g)
	} else {
		p["signature"] = w.badSig(msg, k)
		// the signature of another post by the same nym
		for _, m := range w.sent {
			if m.kind == "POST" && w.rng.Intn(2) == 0 && m.ev.Params["bridge_addr"] != p["bridge_addr"] &&
				string(m.bytes("nym")) == string(p["nym"].([]byte)) {
				p["signature"] = m.bytes("signature")
			}
		}
	}
	return w.build(as, proto.POST_BRIDGE, p)
}

// shifted is a post of a nym whose encoding begins with a zero byte, with that
// byte at the end of the address instead: the signed bytes are the same
func (w *World) shifted(as string, ev obj, k *nymKey) *message {
	br := str(ev, "br")
	if str(ev, "sig") == "ok" || w.addrs[br] != "" || w.rng.Intn(2) == 0 {
		return nil
	}
	for _, m := range w.sent {
		if m.kind != "POST" {
			continue
		}
		a, _ := m.ev.Params["bridge_addr"].(string)
		b := m.bytes("nym")
		if string(b) != string(util.EncodePoint(k.pt)) || len(b) == 0 || b[0] != 0 {
			continue
		}
		for len(b) > 0 && b[0] == 0 {
			a, b = a+"\x00", b[1:]
		}
		if w.bridges[a] != "" {
			continue
		}
		w.addrs[br], w.bridges[a] = a, br
		return w.build(as, proto.POST_BRIDGE, obj{"bridge_addr": a, "nym": b, "signature": m.bytes("signature")})
	}
	return nil
}

func (w *World) injReg(as string, ev obj) *message {
	pk := str(ev, "pk")
	if pk != "badkey" {
		p := w.ob.pks[pk]
		if p == nil {
			return nil
		}
		return w.build(as, proto.CLIENT_REGISTER_CONTROLLERSIDE, obj{"public_key": util.EncodePoint(p)})
	}
	m := w.build(as, proto.CLIENT_REGISTER_CONTROLLERSIDE, obj{"public_key": w.badPoint()})
	return m
}

var badPoints = 6

func (w *World) badPoint() []byte {
	P := w.P()
	n := (P.BitLen() + 7) / 8
	pad := func(b []byte) []byte {
		if len(b) < n {
			return append(make([]byte, n-len(b)), b...)
		}
		return b
	}
	switch w.vary(badPoints) {
	case 0:
		return make([]byte, n) // zero
	case 1:
		return P.Bytes() // the modulus
	case 2:
		return pad(new(big.Int).Sub(P, big.NewInt(1)).Bytes()) // order two
	case 3:
		return []byte{}
	case 4: // a non-residue
		for {
			x := new(big.Int).Rand(w.rng, P)
			if big.Jacobi(x, P) == -1 {
				return pad(x.Bytes())
			}
		}
	}
	return new(big.Int).Add(P, big.NewInt(4)).Bytes() // a residue, but not reduced
}

// P is the modulus of the group: the order is (P-1)/2
func (w *World) P() *big.Int {
	p := new(big.Int).Lsh(w.ob.suite.Secret().(*nist.Int).M, 1)
	return p.Add(p, big.NewInt(1))
}

// ---------------------------------------------------------------------------
// bridge requests

func (w *World) injReq(as string, ev obj) *message {
	k := w.findNym(ev["nym"])
	if k == nil {
		return nil
	}
	pf, sig := str(ev, "pf"), str(ev, "sig")
	c := k.c
	if c == nil || c.pb == nil || c.fo == nil || c.R == nil || c.pc == nil {
		// not the adversary's own: all it can do is to use its own numbers
		var own *emuClient
		for _, x := range []string{"E", "F", "G"} {
			if y := w.emu[x]; y != nil && y.pb != nil && y.fo != nil && y.R != nil && y.pc != nil {
				own = y
				break
			}
		}
		var p obj
		if own != nil {
			p = own.request(1)
		} else {
			p = w.randomReq(1)
		}
		// or copy an honest request under that nym
		for _, m := range w.sent {
			if m.kind == "REQ" && w.rng.Intn(2) == 0 {
				p = obj{}
				for f, v := range m.ev.Params {
					p[f] = v
				}
			}
		}
		p["nym"] = util.EncodePoint(k.pt)
		ev["ind"] = p["ind"]
		ev["pf"] = "badEq"
		if k.sk != nil && sig == "ok" {
			p["signature"] = w.sign(bridge.MessageOfRequestBridges(p), k.sk, k.g)
		} else {
			ev["sig"] = "bad"
			p["signature"] = w.badSig(bridge.MessageOfRequestBridges(p), k)
		}
		return w.build(as, proto.REQUEST_BRIDGES, p)
	}
	if pf == "ok" {
		ind := w.rng.Intn(3) + 1
		if ind > c.rep {
			ind = c.rep
		}
		if ind < 0 {
			return nil
		}
		ev["ind"] = ind
		p := c.request(ind)
		p["nym"] = util.EncodePoint(k.pt)
		if sig == "bad" {
			switch w.vary(3) {
			case 0:
				p["signature"] = w.badSig(bridge.MessageOfRequestBridges(p), k)
			case 1: // fields of another valid request under this one's signature
				q := c.request(ind)
				sigv := p["signature"]
				p = q
				p["signature"] = sigv
			case 2:
				// a field that is not tied to the others changed after signing
				f, _ := c.fo.Commit(big.NewInt(int64(c.rep - ind)))
				p["FOCommd"] = f.ToBinary()
			}
		}
		return w.build(as, proto.REQUEST_BRIDGES, p)
	}
	// more than the reputation
	ind := c.rep + 1 + w.rng.Intn(4)
	if ind < 1 {
		ind = 1 + w.rng.Intn(3)
	}
	p := w.forgeReq(c, ind, pf)
	if p == nil {
		return nil
	}
	p["nym"] = util.EncodePoint(k.pt)
	ev["ind"] = p["ind"].(int)
	if p["ind"].(int) > 1<<30 {
		ev["ind"] = 1 << 30
	}
	if sig == "ok" {
		p["signature"] = w.sign(bridge.MessageOfRequestBridges(p), k.sk, k.g)
	} else {
		p["signature"] = w.badSig(bridge.MessageOfRequestBridges(p), k)
	}
	return w.build(as, proto.REQUEST_BRIDGES, p)
}

func (w *World) randomReq(ind int) obj {
	s := w.ob.suite
	pt := func() []byte { return util.EncodePoint(s.Point().Mul(nil, s.Secret().Pick(random.Stream))) }
	n := func() *big.Int { return new(big.Int).SetBytes(w.bytes(128)) }
	return obj{"ind": ind, "FOCommd": w.bytes(128), "PCommd": pt(), "PCommind": pt(), "rind": util.EncodeSecret(s.Secret().Pick(random.Stream)),
		"arg_nonneg": util.EncodeARGnonneg(&fujiokam.ARGnonneg{Commitrx: n(), C: n(), Cr: n(), R: n(), X_: n(), A_: n(), B_: n(), D_: n(), R_: n()}),
		"arg_equal":  util.EncodeARGequal(&pedersen_fujiokam.ARGequal{C: n(), S1: n(), S2: n(), S3: n()})}
}

// order of the group the Pedersen commitments live in
func (c *emuClient) q() *big.Int { return c.w.ob.suite.Secret().(*nist.Int).M }

// forgeReq makes a request for more than the reputation that fails at exactly
// one of the verifier's checks
func (w *World) forgeReq(c *emuClient, ind int, class string) obj {
	s := w.ob.suite
	q := c.q()
	claimed := ind
	d := big.NewInt(int64(c.rep - ind)) // negative
	pcInd, rind := c.pb.Commit(s.Secret().SetInt64(int64(ind)))
	pcD := c.pb.Sub(c.pc, pcInd)
	rd := s.Secret().Sub(c.R, rind)
	v := w.vary(12)
	foVal := new(big.Int).Set(d)
	var fc *fujiokam.Point
	var rf *big.Int
	var nn *fujiokam.ARGnonneg
	var eq *pedersen_fujiokam.ARGequal
	switch class {
	case "badInd":
		// everything is right, but for a smaller number
		small := c.rep - w.rng.Intn(2)
		if small < 0 {
			small = c.rep
		}
		p := c.request(small)
		p["ind"] = claimed
		if v < 3 {
			p["ind"] = small + 1<<[]uint{32, 16, 8}[v] // the same 32 bits in the signed text, and fewer
		}
		return p
	case "badD":
		// a commitment to a small non-negative number of its own
		y := big.NewInt(int64(w.rng.Intn(4)))
		pcD, rd = c.pb.Commit(s.Secret().SetInt64(y.Int64()))
		fc, rf = c.fo.Commit(y)
		nn = c.fo.ProveNonneg(y, fc, rf)
		eq = proveEq(c, y, pcD, rd, fc, rf, 0)
	case "badNN":
		fc, rf = c.fo.Commit(foVal)
		switch v % 4 {
		case 0: // the first equation only
			nn = c.fo.ProveNonneg(big.NewInt(int64(w.rng.Intn(4))), fc, rf)
		case 1: // the second equation only
			nn = nonneg(c.fo, foVal, [3]*big.Int{big.NewInt(1), big.NewInt(0), big.NewInt(0)}, fc, rf, nil)
		case 2: // an argument for another commitment
			y := big.NewInt(1)
			f2, r2 := c.fo.Commit(y)
			nn = c.fo.ProveNonneg(y, f2, r2)
		case 3:
			z := new(big.Int)
			nn = &fujiokam.ARGnonneg{Commitrx: z, C: z, Cr: z, R: z, X_: z, A_: z, B_: z, D_: z, R_: z}
		}
		eq = proveEq(c, foVal, pcD, rd, fc, rf, 0)
	case "forgeNN":
		fc, rf = c.fo.Commit(foVal)
		switch v % 3 {
		case 0:
			nn = lateRx(c.fo, fc, rf)
		case 1:
			nn = lateCr(c.fo, foVal, fc, rf)
		case 2:
			nn = lateC(c.fo, foVal, [3]*big.Int{big.NewInt(1), big.NewInt(0), big.NewInt(2)}, fc, rf)
		}
		eq = proveEq(c, foVal, pcD, rd, fc, rf, 0)
	case "badEq":
		y := big.NewInt(int64(w.rng.Intn(4)))
		fc, rf = c.fo.Commit(y)
		nn = c.fo.ProveNonneg(y, fc, rf)
		switch v % 4 {
		case 0: // the Pedersen side only
			eq = proveEq(c, d, pcD, rd, fc, rf, 1)
		case 1: // the Fujisaki-Okamoto side only
			eq = proveEq(c, y, pcD, rd, fc, rf, 2)
		case 2:
			eq = proveEq(c, d, pcD, rd, fc, rf, 0)
		case 3:
			eq = proveEq(c, y, pcD, rd, fc, rf, 0)
		}
	case "wrap":
		x := new(big.Int).Mul(q, big.NewInt(int64(1+w.rng.Intn(3))))
		x.Add(x, d)
		fc, rf = c.fo.Commit(x)
		nn = nonneg(c.fo, x, threeSquares(x), fc, rf, nil)
		eq = proveEq(c, x, pcD, rd, fc, rf, 0)
	default:
		return nil
	}
	if w.forced >= 100 { // numbers so long that nobody can compute with them
		long := func() *big.Int { return new(big.Int).SetBit(new(big.Int).SetBytes(w.bytes(16)), 8*6000000, 1) }
		switch w.forced {
		case 100:
			nn.R, nn.X_, nn.A_, nn.B_, nn.D_, nn.R_ = long(), long(), long(), long(), long(), long()
		case 101:
			nn.R_ = new(big.Int).Lsh(long(), 8*24000000)
		case 102:
			eq.S3 = new(big.Int).Lsh(long(), 8*24000000)
		case 103:
			eq.C = new(big.Int).Lsh(long(), 8*24000000)
		}
	}
	return obj{"ind": claimed, "FOCommd": fc.ToBinary(), "PCommd": util.EncodePoint(pcD), "PCommind": util.EncodePoint(pcInd),
		"rind": util.EncodeSecret(rind), "arg_nonneg": util.EncodeARGnonneg(nn), "arg_equal": util.EncodeARGequal(eq)}
}

// proveEq runs the prover over the integers; mode 1 leaves the
// Fujisaki-Okamoto side out of the challenge, mode 2 the Pedersen side
func proveEq(c *emuClient, x *big.Int, pc abstract.Point, rp abstract.Secret, fc *fujiokam.Point, rf *big.Int, mode int) *pedersen_fujiokam.ARGequal {
	s := c.w.ob.suite
	for {
		t1 := util.SecretToBigInt(s.Secret().Pick(random.Stream))
		t2 := s.Secret().Pick(random.Stream)
		t3 := util.SecretToBigInt(s.Secret().Pick(random.Stream))
		T1 := c.pb.CommitWithR(util.BigIntToSecret(s, t1), t2)
		T2 := c.fo.CommitWithR(t1, t3)
		h := s.Hash()
		b, _ := pc.MarshalBinary()
		h.Write(b)
		h.Write(fc.ToBinary())
		if mode != 2 {
			b, _ = T1.MarshalBinary()
			h.Write(b)
		}
		if mode != 1 {
			h.Write(T2.ToBinary())
		}
		cc := new(big.Int).SetBytes(h.Sum(nil))
		s1 := new(big.Int).Mul(x, cc)
		s1.Add(s1, t1)
		if s1.Sign() < 0 {
			continue
		}
		s2 := new(big.Int).Mul(util.SecretToBigInt(rp), cc)
		s2.Add(s2, util.SecretToBigInt(t2))
		s3 := new(big.Int).Mul(rf, cc)
		s3.Add(s3, t3)
		return &pedersen_fujiokam.ARGequal{C: cc, S1: s1, S2: s2, S3: s3}
	}
}

func rnd(base *fujiokam.FujiOkamBase) *big.Int {
	s := random.Int(base.RandomDiameter, random.Stream)
	return s.Sub(s, base.RandomRadius)
}

// nonneg runs the prover of the non-negativity argument for x with the given
// squares; cheat, if given, computes the challenge in its own way
func nonneg(base *fujiokam.FujiOkamBase, x *big.Int, sq [3]*big.Int, fc *fujiokam.Point, rc *big.Int,
	cheat func(n *fujiokam.ARGnonneg, rs [4]*big.Int, hash func(...*big.Int) *big.Int, finish func(e *big.Int))) *fujiokam.ARGnonneg {
	rx, r, rr := rnd(base), rnd(base), rnd(base)
	var rs [3]*big.Int
	delta := new(big.Int).Mul(big.NewInt(4), rx)
	sum := new(big.Int)
	for i := range rs {
		rs[i] = rnd(base)
		t := new(big.Int).Mul(sq[i], rs[i])
		delta.Sub(delta, t.Lsh(t, 1))
		sum.Sub(sum, new(big.Int).Mul(rs[i], rs[i]))
	}
	prod := func(es ...*big.Int) *fujiokam.Point {
		gs := []*fujiokam.Point{base.G2, base.G3, base.G4, base.G5, base.G6, base.H1}
		p := base.Point().SetBigInt(big.NewInt(1))
		for i, e := range es {
			p.Mul(p, base.Point().Exp(gs[i], e))
		}
		return p
	}
	C := prod(x, sq[0], sq[1], sq[2], delta, r)
	Cr := prod(rx, rs[0], rs[1], rs[2], sum, rr)
	crx, rrx := base.Commit(rx)
	n := &fujiokam.ARGnonneg{Commitrx: &crx.V, C: &C.V, Cr: &Cr.V}
	hash := func(vs ...*big.Int) *big.Int {
		h := sha256.New()
		for _, v := range vs {
			h.Write(v.Bytes())
		}
		return new(big.Int).SetBytes(h.Sum(nil))
	}
	lin := func(a, e, b *big.Int) *big.Int { t := new(big.Int).Mul(a, e); return t.Add(t, b) }
	finish := func(e *big.Int) {
		n.X_, n.R_, n.R = lin(x, e, rx), lin(r, e, rr), lin(rc, e, rrx)
		n.A_, n.B_, n.D_ = lin(sq[0], e, rs[0]), lin(sq[1], e, rs[1]), lin(sq[2], e, rs[2])
	}
	if cheat != nil {
		cheat(n, [4]*big.Int{rs[0], rs[1], rs[2], r}, hash, finish)
		return n
	}
	finish(hash(&fc.V, n.Commitrx, n.C, n.Cr))
	return n
}

// nnRight is the right side of the first equation
func nnRight(base *fujiokam.FujiOkamBase, n *fujiokam.ARGnonneg, e *big.Int) *fujiokam.Point {
	dl := new(big.Int).Mul(big.NewInt(4), n.X_)
	dl.Add(dl, e).Mul(dl, e)
	for _, x := range []*big.Int{n.A_, n.B_, n.D_} {
		dl.Sub(dl, new(big.Int).Mul(x, x))
	}
	p := base.Point().Exp(base.G2, n.X_)
	p.Mul(p, base.Point().Exp(base.G3, n.A_))
	p.Mul(p, base.Point().Exp(base.G4, n.B_))
	p.Mul(p, base.Point().Exp(base.G5, n.D_))
	p.Mul(p, base.Point().Exp(base.G6, dl))
	p.Mul(p, base.Point().Exp(base.H1, n.R_))
	return p
}

// threeSquares writes 4x+1 as a sum of three squares, for large x
func threeSquares(x *big.Int) [3]*big.Int {
	n := new(big.Int).Lsh(x, 2)
	n.Add(n, big.NewInt(1))
	root := new(big.Int).Sqrt(n)
	for {
		a := random.Int(root, random.Stream)
		a.SetBit(a, 0, 0)
		p := new(big.Int).Sub(n, new(big.Int).Mul(a, a))
		if p.Sign() <= 0 || p.Bit(0) == 0 || !p.ProbablyPrime(20) {
			continue
		}
		b, c := twoSquares(p)
		return [3]*big.Int{a, b, c}
	}
}

// twoSquares writes a prime p = 1 mod 4 as a sum of two squares
func twoSquares(p *big.Int) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	e := new(big.Int).Rsh(new(big.Int).Sub(p, one), 2)
	var i *big.Int
	for z := int64(2); ; z++ {
		i = new(big.Int).Exp(big.NewInt(z), e, p)
		t := new(big.Int).Mul(i, i)
		if t.Add(t, one).Mod(t, p).Sign() == 0 {
			break
		}
	}
	a, b := new(big.Int).Set(p), i
	root := new(big.Int).Sqrt(p)
	for b.Cmp(root) > 0 {
		a, b = b, new(big.Int).Mod(a, b)
	}
	return b, new(big.Int).Mod(a, b)
}

// ---------------------------------------------------------------------------
// replies of servers

// injBundle makes one reply out of what a server signed in several: named assignments, or some
func (w *World) injBundle(as string, ev obj) *message {
	sv := str(ev, "sv")
	type item struct {
		a   bridge.Assignment
		sig []byte
	}
	have := map[string]item{}
	var keys []string
	for _, m := range w.sent {
		if m.kind != "GOT" || m.from != sv {
			continue
		}
		safely(func() {
			l := util.Decode2DByteArray(m.bytes("signatures"))
			for i, a := range bridge.DecodeAssignmentList(m.bytes("assignments")) {
				k := string(bridge.EncodeAssignment(&a))
				if _, ok := have[k]; !ok {
					keys = append(keys, k)
				}
				have[k] = item{a, l[i]}
			}
		})
	}
	var pick []string
	if al, ok := ev["asgs"].([]interface{}); ok {
		for _, x := range al {
			a0 := x.(map[string]interface{})
			req, prov := w.findNym(a0["req"]), w.findNym(a0["prov"])
			if req == nil || prov == nil {
				return nil
			}
			k := string(bridge.EncodeAssignment(&bridge.Assignment{NymR: req.pt, Addr: w.addrOf(str(a0, "br"), false), Nym: prov.pt}))
			if _, ok := have[k]; !ok {
				return nil
			}
			pick = append(pick, k)
		}
	} else {
		pick = append(pick, keys...)
		w.rng.Shuffle(len(pick), func(i, j int) { pick[i], pick[j] = pick[j], pick[i] })
		if n := num(ev, "mix"); n < len(pick) {
			pick = pick[:n]
		}
	}
	if len(pick) == 0 {
		return nil
	}
	var al []bridge.Assignment
	var sl [][]byte
	var vl []interface{}
	for _, k := range pick {
		x := have[k]
		al, sl = append(al, x.a), append(sl, x.sig)
		vl = append(vl, w.specAsg(w.ob.av(&x.a)))
	}
	delete(ev, "mix")
	ev["ok"], ev["asgs"] = true, vl
	return w.build(as, proto.GOT_SIGNS, obj{"success": true, "assignments": bridge.EncodeAssignmentList(al), "signatures": util.Encode2DByteArray(sl)})
}

func (w *World) injGot(as string, ev obj) *message {
	if strings.HasPrefix(str(ev, "sv"), "S") {
		return w.injBundle(as, ev)
	}
	al, _ := ev["asgs"].([]interface{})
	if len(al) == 0 {
		return nil
	}
	a0 := al[0].(map[string]interface{})
	req, prov := w.findNym(a0["req"]), w.findNym(a0["prov"])
	if req == nil || prov == nil {
		return nil
	}
	a := bridge.Assignment{NymR: req.pt, Addr: w.addrOf(str(a0, "br"), false), Nym: prov.pt}
	raw := bridge.EncodeAssignment(&a)
	sg := w.bytes(len(raw))
	v := w.vary(6)
	switch {
	case v == 0:
		sg = []byte{}
	case v <= 2 && w.emu["E"] != nil:
		sg = w.sign(raw, w.emu["E"].sk, nil)
	case v == 3: // made under the identity as a base, or with a key of zero
		sg = make([]byte, len(w.sign(raw, w.ob.suite.Secret().One(), nil)))
	default:
		// another server's signature, or this one's on something else
		for _, m := range w.sent {
			if m.kind != "GOT" {
				continue
			}
			safely(func() {
				l := util.Decode2DByteArray(m.bytes("signatures"))
				x := bridge.DecodeAssignmentList(m.bytes("assignments"))
				for i := range l {
					same := string(bridge.EncodeAssignment(&x[i])) == string(raw)
					if !(same && m.from == as) {
						sg = l[i]
					}
				}
			})
		}
	}
	p := obj{"success": true, "assignments": bridge.EncodeAssignmentList([]bridge.Assignment{a}), "signatures": util.Encode2DByteArray([][]byte{sg})}
	return w.build(as, proto.GOT_SIGNS, p)
}

// injCert is a certificate sent in the coordinator's name: one that was sent before,
// or one that it never signed
func (w *World) injCert(to string, ev obj) *message {
	if rc := w.real[to]; rc == nil || !rc.up || w.nodes[to].gone || w.crashed[to] {
		return nil
	}
	mk := func(raw, sigs, sig []byte) *message {
		p := obj{"assignment": raw, "signatures": sigs, "signature": sig}
		m := w.build("C", proto.GOT_SIGNS, p)
		m.kind = "GOTC"
		return m
	}
	a0, _ := ev["asg"].(map[string]interface{})
	if str(ev, "sig") == "ok" {
		if len(w.gotcs) == 0 {
			return nil
		}
		m := w.gotcs[w.vary(len(w.gotcs))]
		ev["asg"] = w.specAsg(w.ob.av(bridge.DecodeAssignment(m.bytes("assignment"))))
		ev["full"] = w.ob.certOK(m.bytes("assignment"), m.bytes("signatures")) == "ok"
		return mk(m.bytes("assignment"), m.bytes("signatures"), m.bytes("signature"))
	}
	req, prov := w.findNym(a0["req"]), w.findNym(a0["prov"])
	if req == nil || prov == nil {
		return nil
	}
	raw := bridge.EncodeAssignment(&bridge.Assignment{NymR: req.pt, Addr: w.addrOf(str(a0, "br"), false), Nym: prov.pt})
	s := w.ob.suite
	sk := s.Secret().Pick(random.Stream)
	var l [][]byte
	for i := 0; i <= len(w.chain); i++ {
		l = append(l, w.sign(raw, sk, nil))
	}
	sigs := util.Encode2DByteArray(l)
	msg := append(append([]byte{}, raw...), sigs...)
	var old, mine *message // certificates that were sent: to anyone, to this client
	for _, m := range w.gotcs {
		old = m
		if m.to == to {
			mine = m
		}
	}
	sig := w.sign(msg, sk, nil)
	switch v := w.vary(10); {
	case v == 0:
		sig = []byte{}
	case v == 1:
		sig = make([]byte, len(sig))
	case v == 2:
		sig = w.bytes(len(sig))
	case v == 3: // under the identity's key
		sig = w.sign(msg, s.Secret().Zero(), nil)
	case v == 4 && old != nil: // another message's signature
		sig = old.bytes("signature")
	case v == 5 && old != nil: // the servers' and the coordinator's signatures of another assignment
		sigs, sig = old.bytes("signatures"), old.bytes("signature")
	case v == 6 && old != nil: // the coordinator's signature on another assignment, made for that one
		safely(func() { q := util.Decode2DByteArray(old.bytes("signatures")); sig = q[len(q)-1] })
	case v == 7 && mine != nil: // a true assignment whose certificate was altered
		raw, sig = mine.bytes("assignment"), mine.bytes("signature")
	case v == 8 && mine != nil:
		// the assignment as the coordinator certified it, for servers' signatures of nobody
		raw = mine.bytes("assignment")
		safely(func() { q := util.Decode2DByteArray(mine.bytes("signatures")); sig = q[len(q)-1] })
	case v == 9 && mine != nil:
		// all of it true but the end of the signature
		raw, sigs = mine.bytes("assignment"), mine.bytes("signatures")
		sig = append([]byte{}, mine.bytes("signature")...)
		sig[len(sig)-1-w.rng.Intn(len(sig)/2-1)] ^= 1 << uint(w.rng.Intn(8))
	}
	ev["asg"] = w.specAsg(w.ob.av(bridge.DecodeAssignment(raw)))
	ev["full"] = w.ob.certOK(raw, sigs) == "ok"
	m := mk(raw, sigs, sig)
	for _, o := range w.gotcs { // for the same assignment it may be the one that was sent
		if bytes.Equal(raw, o.bytes("assignment")) && bytes.Equal(sigs, o.bytes("signatures")) && bytes.Equal(sig, o.bytes("signature")) {
			ev["sig"] = "ok"
			return m
		}
	}
	m.note = "void"
	return m
}

// ---------------------------------------------------------------------------
// votes

func sameNym(v obj, n interface{}) (owner, exact bool) {
	m, _ := n.(map[string]interface{})
	owner = v["o"] == m["o"]
	kx, _ := m["kx"].([]interface{})
	g := 0
	if len(kx) > 0 {
		if x, ok := kx[0].([]interface{}); ok && len(x) == 2 {
			if f, ok := x[1].(float64); ok && x[0] != "none" {
				g = int(f) + 1
			} else {
				g = -1
			}
		}
	}
	return owner, owner && v["g"] == g
}

func (w *World) injVote(as string, ev obj) *message {
	k := w.findNym(ev["nym"])
	if k == nil {
		return nil
	}
	a0, _ := ev["asg"].(map[string]interface{})
	fb := num(ev, "fb")
	sig := str(ev, "sig")
	if sig == "flip" {
		for i := len(w.sent) - 1; i >= 0; i-- {
			m := w.sent[i]
			if m.kind != "VOTE" {
				continue
			}
			p := obj{}
			for f, v := range m.ev.Params {
				p[f] = v
			}
			f := p["feedback"].(int)
			p["feedback"] = -f
			ev["fb"] = -f
			ev["nym"] = w.specNym(w.ob.nv(w.ob.point(p["nym"].([]byte))))
			ev["asg"] = w.specAsg(w.ob.av(bridge.DecodeAssignment(p["assignment"].([]byte))))
			ev["certs"] = okIf(w.ob.certOK(p["assignment"].([]byte), p["signatures"].([]byte)) == "ok", "bad")
			return w.build(as, proto.VOTE, p)
		}
		return nil
	}
	// the assignment: the one named, if its certificate is held
	var ct *cert
	for _, x := range w.ob.certs {
		_, r := sameNym(x.asg["req"].(obj), a0["req"])
		_, p := sameNym(x.asg["prov"].(obj), a0["prov"])
		if x.full && r && p && x.asg["br"] == a0["br"] {
			ct = x
		}
	}
	if ct == nil && str(ev, "certs") == "ok" {
		for _, x := range w.ob.certs {
			if _, r := sameNym(x.asg["req"].(obj), a0["req"]); x.full && r {
				ct = x
			}
		}
		if ct == nil {
			return nil
		}
	}
	var raw, sigs []byte
	if ct != nil {
		raw, sigs = ct.raw, ct.sigs
		ev["asg"] = w.specAsg(ct.asg)
	} else {
		req, prov := w.findNym(a0["req"]), w.findNym(a0["prov"])
		if req == nil || prov == nil {
			return nil
		}
		raw = bridge.EncodeAssignment(&bridge.Assignment{NymR: req.pt, Addr: w.addrOf(str(a0, "br"), false), Nym: prov.pt})
	}
	if str(ev, "certs") != "ok" {
		sigs = w.badCerts(raw, sigs)
		if w.ob.certOK(raw, sigs) == "ok" {
			return nil
		}
	}
	if fb != 1 && fb != -1 {
		l := []int{3, 0, 2, -2, 10, 1<<32 + 1}
		fb = l[w.vary(len(l))]
		ev["fb"] = 7
	}
	p := obj{"nym": util.EncodePoint(k.pt), "assignment": raw, "signatures": sigs, "feedback": fb}
	msg := bridge.MessageOfVote(p)
	if sig == "ok" {
		if k.sk == nil {
			return nil
		}
		p["signature"] = w.sign(msg, k.sk, k.g)
	} else {
		p["signature"] = w.badSig(msg, k)
	}
	return w.build(as, proto.VOTE, p)
}

func (w *World) badCerts(raw, sigs []byte) []byte {
	n := len(w.chain) + 1
	var l [][]byte
	safely(func() { l = util.Decode2DByteArray(sigs) })
	one := func() []byte {
		sk := w.ob.suite.Secret().Pick(random.Stream)
		if x := w.emu["E"]; x != nil {
			sk = x.sk
		}
		return w.sign(raw, sk, nil)
	}
	if len(l) != n {
		// no certificate: own signatures, or those of other certificates
		l = nil
		for i := 0; i < n; i++ {
			l = append(l, one())
		}
		if w.rng.Intn(2) == 0 {
			for _, c := range w.ob.certs {
				safely(func() {
					if x := util.Decode2DByteArray(c.sigs); len(x) == n {
						l = x
					}
				})
			}
		}
		return util.Encode2DByteArray(l)
	}
	// which signature is wrong (or the only right one), and in which way
	k := w.vary(18 * n)
	i, rest := k/9%n, k/9/n == 1
	x := make([][]byte, n)
	copy(x, l)
	spoil := func(f func(j int) []byte) {
		for j := range x {
			if (j == i) != rest {
				x[j] = f(j)
			}
		}
	}
	switch k % 9 {
	case 0:
		spoil(func(j int) []byte { return []byte{} })
	case 1:
		spoil(func(j int) []byte { return w.bytes(len(l[j])) })
	case 2:
		spoil(func(j int) []byte { return one() })
	case 3:
		spoil(func(j int) []byte { return l[(j+1)%n] })
	case 4:
		x = x[:i]
	case 5:
		x = nil
	case 6:
		for j := range x {
			x[j] = l[i]
		}
	case 7:
		spoil(func(j int) []byte {
			y := append([]byte(nil), l[j]...)
			y[w.rng.Intn(len(y))] ^= 1 << uint(w.rng.Intn(8))
			return y
		})
	case 8:
		x = append(x[:i:i], x[i+1:]...)
		if rest {
			x = append(x, l[i])
		}
	}
	return util.Encode2DByteArray(x)
}

// ---------------------------------------------------------------------------
// malformed messages

// templates of well-formed messages, to be damaged
func (w *World) template(k int) (int, obj) {
	s := w.ob.suite
	pt := func() []byte { return util.EncodePoint(s.Point().Mul(nil, s.Secret().Pick(random.Stream))) }
	pts := func(n int) []byte {
		var l []abstract.Point
		for i := 0; i < n; i++ {
			l = append(l, s.Point().Mul(nil, s.Secret().Pick(random.Stream)))
		}
		return util.ProtobufEncodePointList(l)
	}
	g := s.Point().Mul(nil, s.Secret().Pick(random.Stream))
	a := bridge.Assignment{NymR: g, Addr: "b9", Nym: g}
	sg := w.sign([]byte("x"), s.Secret().Pick(random.Stream), nil)
	switch k {
	case 0:
		return proto.SERVER_REGISTER, obj{"public_key": pt()}
	case 1:
		return proto.CLIENT_REGISTER_CONTROLLERSIDE, obj{"public_key": pt()}
	case 2:
		return proto.CLIENT_REGISTER_SERVERSIDE, obj{"public_key": pt(), "addr": "127.0.0.1:1", "pcomm": pt()}
	case 3:
		return proto.ANNOUNCEMENT, obj{"keys": pts(11), "vals": pts(11), "g": pt(), "GT": pt(), "HT": pt()}
	case 4:
		return proto.ROUND_END, obj{"keys": pts(11), "vals": pts(11), "GT": pt(), "HT": pt()}
	case 5:
		return proto.UPDATE_PEDERSEN_H, obj{"h": pt()}
	case 6:
		return proto.GN_HONESTY_CHALLENGE, obj{"honesty_chal": util.ProtobufEncodeBoolList(make([]bool, 480))}
	case 7:
		return proto.POST_BRIDGE, obj{"bridge_addr": "b9", "nym": pt(), "signature": sg}
	case 8:
		p := w.randomReq(1)
		p["nym"], p["signature"] = pt(), sg
		return proto.REQUEST_BRIDGES, p
	case 9:
		return proto.VOTE, obj{"nym": pt(), "assignment": bridge.EncodeAssignment(&a), "signatures": util.Encode2DByteArray([][]byte{sg, sg}), "feedback": 1, "signature": sg}
	}
	return proto.GOT_SIGNS, obj{"success": true, "assignments": bridge.EncodeAssignmentList([]bridge.Assignment{a}), "signatures": util.Encode2DByteArray([][]byte{sg})}
}

const templates = 11

// authentic replaces random nyms and signatures by the adversary's own, so that
// checks behind the signature are reached
func (w *World) authentic(typ int, p obj) {
	c := w.emu["E"]
	if c == nil || c.nym == nil {
		return
	}
	p["nym"] = util.EncodePoint(c.nym)
	safely(func() {
		switch typ {
		case proto.POST_BRIDGE:
			p["signature"] = c.sign(bridge.MessageOfPostBridge(p))
		case proto.REQUEST_BRIDGES:
			p["signature"] = c.sign(bridge.MessageOfRequestBridges(p))
		case proto.VOTE:
			p["signature"] = c.sign(bridge.MessageOfVote(p))
		}
	})
}

func (w *World) junkValue() interface{} {
	switch w.rng.Intn(10) {
	case 0:
		return []byte{}
	case 1:
		return w.bytes(1 + w.rng.Intn(200))
	case 2:
		return "text"
	case 3:
		return -1
	case 4:
		return true
	case 5:
		return w.badPoint()
	case 6:
		return 3.5
	case 7:
		return []byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0x7f}
	case 8:
		return []byte{0x08, 0x00}
	}
	return ""
}

func keysOf(p obj) (ks []string) {
	for k := range p {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return
}

func sameType(a, b interface{}) bool { return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) }

func (w *World) injBad(as string, ev obj) *message {
	m := &message{from: as, to: "C", kind: "INJ"}
	desc := ""
	v := w.vary(25)
	for k := range ev {
		delete(ev, k)
	}
	ev["t"] = "BAD"
	switch {
	case v == 0:
		desc = "conn empty"
		m.raw = []byte{}
	case v == 1:
		desc = "conn garbage"
		m.raw = w.bytes(1 + w.rng.Intn(300))
	case v == 2:
		desc = "conn truncated"
		m.raw = w.part(as)
	case v == 3:
		desc = "conn abort"
		m.raw = w.bytes(w.rng.Intn(30))
	case v == 22:
		// broken off only after its part was read
		desc = "conn abort late"
		m.raw = w.part(as)
	case v == 4 && (w.forced >= 0 || w.rng.Intn(2) == 0):
		desc = "conn silent"
	case v == 23 && (w.forced >= 0 || w.rng.Intn(2) == 0):
		desc = "conn silent"
		m.raw = w.part(as)
	case v == 24 && (w.forced >= 0 || w.rng.Intn(2) == 0):
		// a byte now and then, without an end
		desc = "conn drip"
		m.raw = w.part(as)
	case v == 5:
		desc = "conn length"
		m.raw = append([]byte{0xfc, 0x3f, 0xff, 0xff, 0xff}, w.bytes(20)...)
	case v <= 7:
		types := []int{-1, 0, 7, 9, 10, 14, 26, 99, 1 << 40, 2, 3, 6, 15, 20, 23, 25}
		t := types[w.rng.Intn(len(types))]
		_, p := w.template(w.rng.Intn(templates))
		if w.rng.Intn(3) == 0 {
			p = nil
		}
		desc = fmt.Sprint("type ", t)
		m.ev = &proto.Event{EventType: t, Params: p, SrcAddr: w.nodes[as].al.addr}
	default:
		t, p := w.template(w.rng.Intn(templates))
		ks := keysOf(p)
		f := ks[w.rng.Intn(len(ks))]
		desc = fmt.Sprint("event ", t, " ", f)
		if w.rng.Intn(2) == 0 {
			w.authentic(t, p)
		}
		switch k := w.rng.Intn(8); {
		case k == 0:
			p = obj{}
			desc += " all missing"
		case k == 1:
			delete(p, f)
			desc += " missing"
		case k == 2 && (t == proto.ANNOUNCEMENT || t == proto.ROUND_END):
			// lists that do not fit together
			var l []abstract.Point
			for i := 0; i < 12+w.rng.Intn(2)*2-w.rng.Intn(2)*12; i++ {
				l = append(l, w.ob.suite.Point().Mul(nil, w.ob.suite.Secret().Pick(random.Stream)))
			}
			f = []string{"keys", "vals"}[w.rng.Intn(2)]
			p[f] = util.ProtobufEncodePointList(l)
			desc += " lists"
		default:
			old := p[f]
			for i := 0; i < 30; i++ {
				x := w.junkValue()
				// a value that is fine in this place would not be malformed
				if f == "addr" && sameType(x, old) || f == "bridge_addr" && sameType(x, old) ||
					f == "feedback" && sameType(x, old) || f == "ind" && sameType(x, old) || f == "success" && sameType(x, old) {
					continue
				}
				// a valid element would make it another, well-formed message
				if b, ok := x.([]byte); ok && w.ob.suite.Point().UnmarshalBinary(b) == nil {
					continue
				}
				p[f] = x
				break
			}
			desc += fmt.Sprintf(" %T", p[f])
		}
		if w.rng.Intn(3) == 0 && f != "signature" && f != "nym" {
			w.authentic(t, p)
		}
		src := w.nodes[as].al.addr
		switch w.rng.Intn(12) {
		case 0:
			src = ""
		case 1:
			src = "nowhere"
		case 2:
			src = "127.0.0.1:1"
		case 3:
			if len(w.servers) > 0 {
				src = w.nodes[w.servers[0]].al.addr
			}
		}
		m.ev = &proto.Event{EventType: t, Params: p, SrcAddr: src}
	}
	if m.ev != nil {
		m.raw = encodeEvent(m.ev)
		m.ev = nil
	}
	ev["d"] = desc
	m.note = desc
	return m
}

// part is the beginning of a message
func (w *World) part(as string) []byte {
	t, p := w.template(w.rng.Intn(templates))
	b := encodeEvent(&proto.Event{EventType: t, Params: p, SrcAddr: w.nodes[as].al.addr})
	return b[:1+w.rng.Intn(len(b)-1)]
}

// rawDeliver plays connections that misbehave
func (w *World) rawDeliver(n *node, m *message) error {
	c, err := net.DialTimeout("tcp", n.real, 5*time.Second)
	if err != nil {
		return err
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	switch m.note {
	case "conn abort":
		c.Write(m.raw)
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	case "conn abort late":
		c.Write(m.raw)
		time.Sleep(60 * time.Millisecond)
		c.(*net.TCPConn).SetLinger(0)
		c.Close()
	case "conn silent":
		c.Write(m.raw)
		// stays open while the others go on
		w.open = append(w.open, c)
	case "conn drip":
		c.SetDeadline(time.Time{})
		c.Write(m.raw)
		w.open = append(w.open, c)
		go func() {
			for {
				time.Sleep(400 * time.Millisecond)
				if _, err := c.Write([]byte{0}); err != nil {
					return
				}
			}
		}()
	default:
		c.Write(m.raw)
		c.Close()
	}
	return nil
}

func init() {
	gob.Register(3.5)
	gob.Register("")
}
