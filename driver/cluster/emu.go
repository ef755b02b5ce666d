package cluster

import (
	"math/big"
	"runtime/debug"

	"zrepv/ref/cmd/bridge"
	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen"
	"zrepv/ref/primitive/pedersen_fujiokam"
	"zrepv/ref/proto"
	"zrepv/ref/util"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/random"
)

func debugStack() []byte { return debug.Stack() }

// emuClient is a client that the driver plays itself, with reference code, so
// that its keys and blinding values are known and can be misused
type emuClient struct {
	w    *World
	name string
	sk   abstract.Secret
	pk   abstract.Point
	on   bool
	up   bool
	st   string
	hon  bool
	R    abstract.Secret
	G    abstract.Point
	nym  abstract.Point
	rep  int
	pc   abstract.Point
	pb   *pedersen.PedersenBase
	fo   *fujiokam.FujiOkamBase
	bits []bool
	hp   []*big.Int
	asg  []*cert
}

func (w *World) newEmu(k string) []*message {
	s := w.ob.suite
	c := &emuClient{w: w, name: k, rep: bridge.StartingCredit, st: "new"}
	if c.sk = w.shortKey(); c.sk == nil {
		c.sk = s.Secret().Pick(random.Stream)
	}
	c.pk = s.Point().Mul(nil, c.sk)
	w.emu[k] = c
	w.ob.sks[k] = c.sk
	return []*message{c.msg(proto.CLIENT_REGISTER_CONTROLLERSIDE, obj{"public_key": util.EncodePoint(c.pk)})}
}

// msg builds a message from the client to the coordinator
func (c *emuClient) msg(typ int, p map[string]interface{}) *message { return c.w.build(c.name, typ, p) }

func (w *World) build(from string, typ int, p map[string]interface{}) *message {
	ev := &proto.Event{EventType: typ, Params: p, SrcAddr: w.nodes[from].al.addr}
	return &message{from: from, to: "C", ev: ev, kind: kindOf(ev, false, false, true), raw: encodeEvent(ev)}
}

func (c *emuClient) handle(m *message) (outs []*message) {
	s := c.w.ob.suite
	p := m.ev.Params
	safely(func() {
		switch m.kind {
		case "INITR":
			c.R = util.DecodeSecret(s, m.bytes("r"))
			c.G = util.DecodePoint(s, m.bytes("g"))
			c.nym = s.Point().Mul(c.G, c.sk)
		case "CONF":
			c.st, c.hon = "connected", false
			N := new(big.Int).SetBytes(m.bytes("n"))
			b := fujiokam.CreateMinimumBase(s, N)
			b.G1 = b.Point().FromBinary(m.bytes("g1"))
			b.G2 = b.Point().FromBinary(m.bytes("g2"))
			b.G3 = b.Point().FromBinary(m.bytes("g3"))
			b.G4 = b.Point().FromBinary(m.bytes("g4"))
			b.G5 = b.Point().FromBinary(m.bytes("g5"))
			b.G6 = b.Point().FromBinary(m.bytes("g6"))
			b.H1 = b.Point().FromBinary(m.bytes("h1"))
			c.fo = b
			c.hp = util.ProtobufDecodeBigIntList(m.bytes("honesty_prf"))
			c.bits = b.ChallengeAllGnHonesty()
			outs = append(outs, c.msg(proto.GN_HONESTY_CHALLENGE, obj{"honesty_chal": util.ProtobufEncodeBoolList(c.bits)}))
		case "ANSW":
			c.hon = true // what was answered is checked by the observer
		case "FIN":
			g := util.DecodePoint(s, m.bytes("g"))
			nym := s.Point().Mul(g, c.sk)
			keys := util.ProtobufDecodePointList(m.bytes("keys"))
			vals := util.ProtobufDecodePointList(m.bytes("vals"))
			i := util.FindIndexWithinKeyList(keys, nym)
			if i < 0 {
				c.st = "halted"
				c.up = false
				return
			}
			c.st, c.up, c.G, c.nym, c.pc = "message", true, g, nym, vals[i]
			c.pb = &pedersen.PedersenBase{Suite: s, GT: util.DecodePoint(s, m.bytes("GT")), HT: util.DecodePoint(s, m.bytes("HT"))}
		case "GOTC":
			a := bridge.DecodeAssignment(m.bytes("assignment"))
			c.asg = append(c.asg, &cert{a: a, raw: bridge.EncodeAssignment(a), sigs: m.bytes("signatures")})
		case "RDIFF":
			keys := util.ProtobufDecodePointList(m.bytes("keys"))
			rs := util.ProtobufDecodeSecretList(m.bytes("rDiffs"))
			if i := util.FindIndexWithinKeyList(keys, c.nym); i >= 0 {
				c.R = s.Secret().Add(c.R, rs[i])
			}
		case "REC":
			c.st = "connected"
			keys := util.ProtobufDecodePointList(m.bytes("keys"))
			c.rep += util.FindIntUsingKeyList(keys, util.DecodeIntArray(p["diffs"].([]byte)), c.nym)
			c.asg = nil
		}
	})
	return
}

func (c *emuClient) sign(msg []byte) []byte {
	s := c.w.ob.suite
	return util.ElGamalSign(s, s.Cipher(abstract.RandomKey), msg, c.sk, c.G)
}

func (c *emuClient) command(a string, e obj) []*message {
	switch a {
	case "post":
		return []*message{c.post(str(e, "b"))}
	case "get":
		n := num(e, "n")
		if !c.hon || n > c.rep {
			return nil
		}
		return []*message{c.msg(proto.REQUEST_BRIDGES, c.request(n))}
	case "vote":
		f := -1
		if num(e, "v") > 0 {
			f = 1
		}
		ct := c.asg[num(e, "j")-1]
		return []*message{c.msg(proto.VOTE, c.vote(ct.raw, ct.sigs, f))}
	}
	return nil
}

func (c *emuClient) post(b string) *message {
	p := obj{"bridge_addr": c.w.addrOf(b, false), "nym": util.EncodePoint(c.nym)}
	p["signature"] = c.sign(bridge.MessageOfPostBridge(p))
	return c.msg(proto.POST_BRIDGE, p)
}

func (c *emuClient) vote(raw, sigs []byte, fb int) obj {
	p := obj{"nym": util.EncodePoint(c.nym), "assignment": raw, "signatures": sigs, "feedback": fb}
	p["signature"] = c.sign(bridge.MessageOfVote(p))
	return p
}

// request is what an honest client sends
func (c *emuClient) request(ind int) obj {
	s := c.w.ob.suite
	d := big.NewInt(int64(c.rep - ind))
	xD := s.Secret().SetInt64(int64(c.rep - ind))
	pcInd, rind := c.pb.Commit(s.Secret().SetInt64(int64(ind)))
	pcD := c.pb.Sub(c.pc, pcInd)
	rd := s.Secret().Sub(c.R, rind)
	fc, rf := c.fo.Commit(d)
	p := obj{"ind": ind, "nym": util.EncodePoint(c.nym), "FOCommd": fc.ToBinary(),
		"PCommd": util.EncodePoint(pcD), "PCommind": util.EncodePoint(pcInd), "rind": util.EncodeSecret(rind),
		"arg_nonneg": util.EncodeARGnonneg(c.fo.ProveNonneg(d, fc, rf)),
		"arg_equal":  util.EncodeARGequal(pedersen_fujiokam.ProveEqual(c.pb, c.fo, xD, pcD, rd, fc, rf))}
	p["signature"] = c.sign(bridge.MessageOfRequestBridges(p))
	return p
}
