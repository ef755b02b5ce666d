package cluster

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/proto"
	"zrepv/ref/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

// runClient: a real client process is sent parameters and answers in the order that the vector says, then a table,
// and is told to request bridges.  The driver is the coordinator.
func (w *World) runClient(v *Vector, lim time.Duration) (string, obj) {
	rng := rand.New(rand.NewSource(v.Seed))
	s := w.ob.suite
	coo := w.newNode("C", 'C').al
	n := &node{name: "K", kind: 'K'}
	w.nodes["K"] = n
	if err := n.start(w.bin, "client", w.root, 1, coo.addr); err != nil {
		panic(Fault{err.Error()})
	}
	evs := gather(coo, 1, lim, n.isDead)
	if len(evs) != 1 || evs[0].EventType != proto.CLIENT_REGISTER_CONTROLLERSIDE {
		panic(Fault{"client did not register: " + n.tail.String()})
	}
	n.real = strings.Replace(evs[0].SrcAddr, "0.0.0.0", "127.0.0.1", 1)
	fmt.Sscanf(n.real[strings.LastIndex(n.real, ":")+1:], "%d", &n.port)
	pk := s.Point()
	if pk.UnmarshalBinary(byteOf(evs[0], "public_key")) != nil {
		panic(Fault{"bad key"})
	}
	dead := false
	tell := func(typ int, p obj) {
		if dead {
			return
		}
		ev := &proto.Event{EventType: typ, Params: p, SrcAddr: coo.addr}
		if dialSend(n.real, encodeEvent(ev), 5*time.Second) != nil || n.fence(lim) != nil {
			n.waitDead(3 * time.Second)
			dead = true
		}
	}
	sec := func() abstract.Secret { return s.Secret().Pick(random.Stream) }
	csk := sec()
	r := sec()
	t := sec()
	tell(proto.INIT_PEDERSEN_R, obj{"r": util.EncodeSecret(r), "g": util.EncodePoint(s.Point().Mul(nil, t))})
	type state struct {
		bad     int
		secrets []*big.Int
		bits    []bool
	}
	var cur, old *state
	var chals []string
	const W = 80
	f := fixed(s)
	answers := func(x *state) []*big.Int {
		var l []*big.Int
		for k := 0; k < 6*W; k++ {
			a := new(big.Int).Set(x.secrets[k])
			if x.bits[k] && x.bad != k/W {
				a.Add(a, f.alpha[k/W])
			}
			l = append(l, a)
		}
		return l
	}
	for _, step := range v.Steps {
		switch step {
		case "conf", "confBad":
			old, cur = cur, &state{bad: -1}
			gs := []*fujiokam.Point{f.G1, f.G2, f.G3, f.G4, f.G5, f.G6}
			if step == "confBad" {
				cur.bad = rng.Intn(6)
				p := f.Point().SetBigInt(new(big.Int).Rand(rng, f.N))
				p.Mul(p, p)
				if rng.Intn(2) == 0 {
					p.V.Sub(f.N, &p.V)
				}
				gs[cur.bad] = p
			}
			var pub []*big.Int
			for k := 0; k < 6*W; k++ {
				x := new(big.Int).Rand(rng, f.N)
				p := f.Point().Exp(f.H1, x)
				if k/W == cur.bad && rng.Intn(2) == 0 {
					p.Mul(p, f.Point().Exp(gs[cur.bad], big.NewInt(-1)))
				}
				cur.secrets = append(cur.secrets, x)
				pub = append(pub, &p.V)
			}
			p := obj{"reply": true, "n": f.N.Bytes(), "h1": f.H1.ToBinary(), "honesty_prf": util.ProtobufEncodeBigIntList(pub),
				"public_key": util.EncodePoint(s.Point().Mul(nil, csk))}
			for i, g := range gs {
				p[fmt.Sprint("g", i+1)] = g.ToBinary()
			}
			coo.take()
			tell(proto.CLIENT_REGISTER_CONFIRMATION, p)
			if dead {
				break
			}
			evs := gather(coo, 1, lim, n.isDead)
			if len(evs) != 1 || evs[0].EventType != proto.GN_HONESTY_CHALLENGE {
				return "no challenge", nil
			}
			if safely(func() { cur.bits = util.ProtobufDecodeBoolList(byteOf(evs[0], "honesty_chal")) }) != nil || len(cur.bits) != 6*W {
				return "bad challenge", nil
			}
			b := make([]byte, 6*W)
			for i, x := range cur.bits {
				b[i] = '0'
				if x {
					b[i] = '1'
				}
			}
			chals = append(chals, string(b))
		case "right":
			tell(proto.GN_HONESTY_ANSWER, obj{"honesty_ans": util.ProtobufEncodeBigIntList(answers(cur))})
		case "old":
			tell(proto.GN_HONESTY_ANSWER, obj{"honesty_ans": util.ProtobufEncodeBigIntList(answers(old))})
		case "wrong":
			a := answers(cur)
			k := rng.Intn(6 * W)
			a[k].Add(a[k], big.NewInt(1))
			tell(proto.GN_HONESTY_ANSWER, obj{"honesty_ans": util.ProtobufEncodeBigIntList(a)})
		case "none":
			a := answers(cur)
			p := obj{}
			switch rng.Intn(5) {
			case 0:
				p["honesty_ans"] = util.ProtobufEncodeBigIntList(nil)
			case 1:
				p["honesty_ans"] = util.ProtobufEncodeBigIntList(a[:len(a)-1])
			case 2:
				p["honesty_ans"] = util.ProtobufEncodeBigIntList(a[:W*rng.Intn(6)])
			case 3:
				p["honesty_ans"] = []byte{1, 2, 3}
			}
			tell(proto.GN_HONESTY_ANSWER, p)
		}
	}
	data := obj{"chal": chals}
	if v.Unit == "asks" {
		if dead {
			return "refuses", data
		}
		return w.asks(v, lim, n, coo, tell, pk, r, f)
	}
	// the table
	G := s.Point().Mul(nil, t)
	nym := s.Point().Mul(pk, t)
	pb := pedersenBase(s, s.Point().Mul(nil, sec()), s.Point().Mul(nil, sec()))
	pc := pb.CommitWithR(s.Secret().SetInt64(5), r)
	tell(proto.ANNOUNCEMENT_FINALIZE, obj{"g": util.EncodePoint(G), "GT": util.EncodePoint(pb.GT), "HT": util.EncodePoint(pb.HT),
		"keys": util.ProtobufEncodePointList([]abstract.Point{nym}), "vals": util.ProtobufEncodePointList([]abstract.Point{pc})})
	if dead {
		return "refuses", data
	}
	coo.take()
	fmt.Fprintf(n.stdin, "get %d\npost over\n", rng.Intn(6))
	end := time.Now().Add(lim)
	for time.Now().Before(end) {
		for _, ev := range gather(coo, 1, time.Second, n.isDead) {
			switch ev.EventType {
			case proto.REQUEST_BRIDGES:
				return "commits", data
			case proto.POST_BRIDGE:
				return "refuses", data
			}
		}
		if n.isDead() {
			return "refuses", data
		}
	}
	panic(Fault{"client does not read its console: " + n.tail.String()})
}

// asks: the client is a member with reputation 5 in some tables and requests bridges; the masks of its proofs are noted
func (w *World) asks(v *Vector, lim time.Duration, n *node, coo *alias, tell func(int, obj), pk abstract.Point, r abstract.Secret, f *foParams) (string, obj) {
	s := w.ob.suite
	sec := func() abstract.Secret { return s.Secret().Pick(random.Stream) }
	seen := map[string][]string{}
	q := (&emuClient{w: w}).q()
	for rd := 0; rd < v.Rounds; rd++ {
		t := sec()
		G := s.Point().Mul(nil, t)
		nym := s.Point().Mul(pk, t)
		pb := pedersenBase(s, s.Point().Mul(nil, sec()), s.Point().Mul(nil, sec()))
		pc := pb.CommitWithR(s.Secret().SetInt64(5), r)
		tell(proto.ANNOUNCEMENT_FINALIZE, obj{"g": util.EncodePoint(G), "GT": util.EncodePoint(pb.GT), "HT": util.EncodePoint(pb.HT),
			"keys": util.ProtobufEncodePointList([]abstract.Point{nym}), "vals": util.ProtobufEncodePointList([]abstract.Point{pc})})
		if n.isDead() {
			return "refuses", nil
		}
		coo.take()
		for _, ind := range v.Keys {
			fmt.Fprintf(n.stdin, "get %d\n", ind)
			evs := gather(coo, 1, lim, n.isDead)
			if len(evs) != 1 || evs[0].EventType != proto.REQUEST_BRIDGES {
				return "no request", nil
			}
			p := evs[0].Params
			if k, ok := p["ind"].(int); !ok || k != ind {
				return "another request", nil
			}
			if bad := safely(func() {
				a, b := util.DecodeARGnonneg(byteOf(evs[0], "arg_nonneg")), util.DecodeARGequal(byteOf(evs[0], "arg_equal"))
				ri := util.DecodeSecret(s, byteOf(evs[0], "rind"))
				rest := util.SecretToBigInt(s.Secret().Sub(r, ri))
				Masks(func(name string, x *big.Int) { seen[name] = append(seen[name], x.Text(16)) }, q, big.NewInt(int64(5-ind)), rest, nil,
					byteOf(evs[0], "FOCommd"),
					map[string]*big.Int{"Commitrx": a.Commitrx, "C": a.C, "Cr": a.Cr, "R": a.R, "X_": a.X_, "A_": a.A_, "B_": a.B_, "D_": a.D_, "R_": a.R_},
					map[string]*big.Int{"C": b.C, "S1": b.S1, "S2": b.S2, "S3": b.S3})
			}); bad != nil {
				return "unreadable request", nil
			}
		}
	}
	return "drawn", obj{"seen": seen, "n": f.N.Text(16), "q": q.Text(16)}
}
