package cluster

import (
	"math/big"
	"math/rand"

	"zrepv/ref/cmd/bridge"
	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen"
	"zrepv/ref/proto"
	"zrepv/ref/util"
	"zrepv/ref/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"
)

// emuServer is an honest server that the driver plays itself.  What it draws
// is chosen so that points come up that are rare: ones whose encodings begin
// with zero bytes.
type emuServer struct {
	w          *World
	name       string
	rng        *rand.Rand
	sk, rk     abstract.Secret
	pk         abstract.Point
	prev, next string
	pb         *pedersen.PedersenBase
	fo         *fujiokam.FujiOkamBase
	keys       map[string]abstract.Point
	comm       map[string]abstract.Point
}

func (w *World) newEmuServer(i string) []*message {
	s := w.ob.suite
	e := &emuServer{w: w, name: i, rng: w.rng, next: "C", prev: "C", keys: map[string]abstract.Point{}}
	e.sk = s.Secret().Pick(random.Stream)
	e.pk = s.Point().Mul(nil, e.sk)
	e.pb = &pedersen.PedersenBase{Suite: s}
	e.newKey()
	w.emuSrv[i] = e
	return []*message{e.msg("C", proto.SERVER_REGISTER, obj{"public_key": util.EncodePoint(e.pk)})}
}

func (e *emuServer) msg(to string, typ int, p obj) *message {
	ev := &proto.Event{EventType: typ, Params: p, SrcAddr: e.w.nodes[e.name].al.addr}
	return &message{from: e.name, to: to, ev: ev, kind: kindOf(ev, false, e.w.isClient(to), to == "C"), raw: encodeEvent(ev)}
}

// short: the encoding begins with a zero byte
func short(p abstract.Point) bool { return util.EncodePoint(p)[0] == 0 }

// draw picks a secret, with which f gives a short point if there is such a secret to be found
func (e *emuServer) draw(f func(abstract.Secret) abstract.Point) abstract.Secret {
	s := e.w.ob.suite
	var x abstract.Secret
	for i := 0; i < 900; i++ {
		x = s.Secret().Pick(random.Stream)
		if f == nil || short(f(x)) {
			break
		}
	}
	return x
}

// newKey picks the key of the next round: the pseudonym of one of the clients
// that the driver plays is to be a short one, or else the generator
func (e *emuServer) newKey() {
	s := e.w.ob.suite
	var base abstract.Point
	if len(e.w.servers) == 1 {
		var l []abstract.Point
		for _, k := range []string{"E", "F", "K", "L", "M"} {
			if p := e.w.ob.pks[k]; p != nil {
				l = append(l, p)
			}
		}
		if len(l) > 0 && e.rng.Intn(4) > 0 {
			base = l[e.rng.Intn(len(l))]
		}
	}
	e.rk = e.draw(func(x abstract.Secret) abstract.Point { return s.Point().Mul(base, x) })
	e.keys = map[string]abstract.Point{}
}

// shortKey picks a client's key so that its pseudonym will be a short one
func (w *World) shortKey() abstract.Secret {
	s := w.ob.suite
	for _, e := range w.emuSrv {
		if len(w.servers) == 1 {
			g := s.Point().Mul(nil, e.rk)
			return e.draw(func(x abstract.Secret) abstract.Point { return s.Point().Mul(g, x) })
		}
	}
	return nil
}

func (e *emuServer) handle(m *message) (outs []*message) {
	s := e.w.ob.suite
	p := m.ev.Params
	safely(func() {
		switch m.kind {
		case "SREP":
			e.prev = e.w.byAddr(p["prev_server"].(string))
			N := new(big.Int).SetBytes(m.bytes("n"))
			b := fujiokam.CreateMinimumBase(s, N)
			b.G1 = b.Point().FromBinary(m.bytes("g1"))
			b.G2 = b.Point().FromBinary(m.bytes("g2"))
			b.G3 = b.Point().FromBinary(m.bytes("g3"))
			b.G4 = b.Point().FromBinary(m.bytes("g4"))
			b.G5 = b.Point().FromBinary(m.bytes("g5"))
			b.G6 = b.Point().FromBinary(m.bytes("g6"))
			b.H1 = b.Point().FromBinary(m.bytes("h1"))
			e.fo = b
			h := util.DecodePoint(s, m.bytes("h"))
			x := e.draw(func(x abstract.Secret) abstract.Point { return s.Point().Mul(h, x) })
			outs = append(outs, e.msg("C", proto.UPDATE_PEDERSEN_H, obj{"h": util.EncodePoint(s.Point().Mul(h, x))}))
		case "NEXT":
			e.next = e.w.byAddr(p["next_hop"].(string))
		case "BCH":
			e.pb.HT = util.DecodePoint(s, m.bytes("h"))
		case "CRS":
			pk := util.DecodePoint(s, m.bytes("public_key"))
			nk := s.Point().Mul(pk, e.rk)
			e.keys[nk.String()] = pk
			outs = append(outs, e.msg(e.next, proto.CLIENT_REGISTER_SERVERSIDE,
				obj{"public_key": util.EncodePoint(nk), "addr": p["addr"].(string), "pcomm": m.bytes("pcomm")}))
		case "ANN", "RE":
			outs = append(outs, e.table(m)...)
		case "FIN":
			e.pb.GT, e.pb.HT = util.DecodePoint(s, m.bytes("GT")), util.DecodePoint(s, m.bytes("HT"))
			e.comm = map[string]abstract.Point{}
			vals := util.ProtobufDecodePointList(m.bytes("vals"))
			for i, k := range util.ProtobufDecodePointList(m.bytes("keys")) {
				e.comm[k.String()] = vals[i]
			}
		case "SIGN":
			nym := util.DecodePoint(s, m.bytes("nym"))
			if !bridge.VerifyInd(p, e.comm[nym.String()], s, e.pb, e.fo) {
				outs = append(outs, e.msg(m.from, proto.GOT_SIGNS, obj{"success": false}))
				return
			}
			var sigs [][]byte
			l := bridge.DecodeAssignmentList(m.bytes("assignments"))
			for i := range l {
				sigs = append(sigs, util.ElGamalSign(s, s.Cipher(abstract.RandomKey), bridge.EncodeAssignment(&l[i]), e.sk, nil))
			}
			outs = append(outs, e.msg(m.from, proto.GOT_SIGNS, obj{"success": true, "assignments": m.bytes("assignments"),
				"signatures": util.Encode2DByteArray(sigs)}))
		}
	})
	return
}

// table passes a table on
func (e *emuServer) table(m *message) []*message {
	s := e.w.ob.suite
	keys := util.ProtobufDecodePointList(m.bytes("keys"))
	vals := util.ProtobufDecodePointList(m.bytes("vals"))
	GT, HT := util.DecodePoint(s, m.bytes("GT")), util.DecodePoint(s, m.bytes("HT"))
	// one of the commitments or bases is to be short
	t := append([]abstract.Point{GT, HT}, vals...)[e.rng.Intn(len(vals)+2)]
	E := e.draw(func(x abstract.Secret) abstract.Point { return s.Point().Mul(t, x) })
	out := obj{"GT": util.EncodePoint(s.Point().Mul(GT, E)), "HT": util.EncodePoint(s.Point().Mul(HT, E))}
	newKeys, newVals := make([]abstract.Point, len(keys)), make([]abstract.Point, len(keys))
	to, typ := e.prev, proto.ROUND_END
	if m.kind == "ANN" {
		to, typ = e.next, proto.ANNOUNCEMENT
		g := s.Point().Mul(nil, e.rk)
		if _, ok := m.ev.Params["g"]; ok {
			g = s.Point().Mul(util.DecodePoint(s, m.bytes("g")), e.rk)
		}
		out["g"] = util.EncodePoint(g)
	}
	for i, k := range keys {
		newVals[i] = s.Point().Mul(vals[i], E)
		if m.kind == "ANN" {
			newKeys[i] = s.Point().Mul(k, e.rk)
			e.keys[newKeys[i].String()] = k
		} else {
			newKeys[i] = e.keys[k.String()]
		}
	}
	if m.kind == "RE" {
		e.newKey()
	}
	if len(keys) <= 1 {
		out["keys"], out["vals"] = util.ProtobufEncodePointList(newKeys), util.ProtobufEncodePointList(newVals)
		return []*message{e.msg(to, typ, out)}
	}
	X := make([]abstract.Point, len(keys))
	for i := range X {
		X[i] = s.Point().Mul(nil, e.sk)
	}
	rand := s.Cipher(abstract.RandomKey)
	Xbar, Ybar, prover, _, Ytmp := shuffle.Shuffle(s, nil, e.pk, X, newKeys, rand)
	h := s.Hash()
	h.Write(util.EncodePoint(e.pk))
	for _, l := range [][]abstract.Point{X, newKeys, Xbar, Ybar} {
		for _, q := range l {
			h.Write(util.EncodePoint(q))
		}
	}
	prf, err := proof.HashProve(s, "PairShuffle"+string(h.Sum(nil)), rand, prover)
	if err != nil {
		panic(err)
	}
	fin, finv := make([]abstract.Point, len(keys)), make([]abstract.Point, len(keys))
	of := map[string]abstract.Point{}
	for i, k := range newKeys {
		of[k.String()] = newVals[i]
	}
	for i := range fin {
		fin[i] = s.Point().Sub(Ybar[i], Ytmp[i])
		finv[i] = of[fin[i].String()]
	}
	out["xbar"], out["ybar"] = util.ProtobufEncodePointList(Xbar), util.ProtobufEncodePointList(Ybar)
	out["keys"], out["vals"] = util.ProtobufEncodePointList(fin), util.ProtobufEncodePointList(finv)
	out["prev_keys"], out["prev_vals"] = util.ProtobufEncodePointList(X), util.ProtobufEncodePointList(newKeys)
	out["proof"], out["shuffled"], out["public_key"] = prf, true, util.EncodePoint(e.pk)
	return []*message{e.msg(to, typ, out)}
}
