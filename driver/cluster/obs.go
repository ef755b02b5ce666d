package cluster

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strconv"
	"zrepv/ref/suite"

	"zrepv/ref/cmd/bridge"
	"zrepv/ref/primitive/fujiokam"
	"zrepv/ref/primitive/pedersen"
	"zrepv/ref/proto"
	"zrepv/ref/util"
	"zrepv/ref/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
)

// ---------------------------------------------------------------------------
// A message on the wire and what is seen of it.  Everything here is computed
// with the reference copy of the primitives in ref/, never with /repo's code.

type obj = map[string]interface{}

type message struct {
	from, to string
	kind     string
	ev       *proto.Event
	raw      []byte
	note     string
}

type fact struct { // an opened table
	g, GT, HT abstract.Point
	keys      []abstract.Point
	vals      []abstract.Point
	byKey     map[string]abstract.Point
	keyOwner  map[string]string
	nymBase   abstract.Point
}

type nymID struct {
	o string
	g int
}

type observer struct {
	w     *World
	suite abstract.Suite

	pks      map[string]abstract.Point // owner -> public key
	sks      map[string]abstract.Secret
	R        map[string]abstract.Secret // owner -> blinding value, by what was sent out
	lost     map[string]bool
	nymOwner map[string]nymID
	fakes    map[string]bool

	shares   map[string][]string // HT value -> contributors
	srepHT   map[string]abstract.Point
	curGT    abstract.Point
	curHT    abstract.Point
	seenBase map[string]bool
	G        abstract.Point
	gens     []*fact // published tables, gens[i-1] belongs to generator i
	seenG    map[string]bool
	annG     map[string]abstract.Point // server -> generator of its last announcement
	seenVal  map[string]bool
	seenR    map[string]bool
	lastAnn  *fact

	fo     *fujiokam.FujiOkamBase
	foKey  string
	seenHP map[string]bool
	hp     map[string][]*big.Int
	chals  map[string]bool
	cpk    abstract.Point

	nonces map[string]string // T -> c
	// what was taken note of once
	confSeen, annSeen bool
	rdiffSeen         int
	sigs              map[string][][2]*big.Int
	certs             []*cert
	grants            []*message // accepted requests, as sent on to the servers
}

type cert struct {
	key  string // br|req|prov
	asg  obj
	a    *bridge.Assignment
	raw  []byte
	sigs []byte
	full bool
}

func newObserver(w *World) *observer {
	s := suite.Get()
	base := s.Point().Mul(nil, s.Secret().One())
	o := &observer{w: w, suite: s, pks: map[string]abstract.Point{}, sks: map[string]abstract.Secret{},
		R: map[string]abstract.Secret{}, lost: map[string]bool{}, nymOwner: map[string]nymID{},
		fakes: map[string]bool{}, shares: map[string][]string{base.String(): {}}, srepHT: map[string]abstract.Point{},
		curGT: base, curHT: base, seenBase: map[string]bool{base.String(): true}, seenG: map[string]bool{base.String(): true},
		annG: map[string]abstract.Point{}, seenVal: map[string]bool{}, seenR: map[string]bool{},
		seenHP: map[string]bool{}, hp: map[string][]*big.Int{}, chals: map[string]bool{},
		nonces: map[string]string{}, sigs: map[string][][2]*big.Int{}}
	return o
}

func (o *observer) base() abstract.Point { return o.suite.Point().Mul(nil, o.suite.Secret().One()) }

func kindOf(ev *proto.Event, fromC, toClient, toC bool) string {
	switch ev.EventType {
	case proto.SERVER_REGISTER:
		return "SREG"
	case proto.SERVER_REGISTER_REPLY:
		return "SREP"
	case proto.UPDATE_NEXT_HOP:
		return "NEXT"
	case proto.CLIENT_REGISTER_CONTROLLERSIDE:
		return "CREG"
	case proto.CLIENT_REGISTER_SERVERSIDE:
		return "CRS"
	case proto.CLIENT_REGISTER_CONFIRMATION:
		return "CONF"
	case proto.ANNOUNCEMENT:
		return "ANN"
	case proto.VOTE:
		if fromC {
			return "VSTART"
		}
		return "VOTE"
	case proto.ROUND_END:
		if toClient {
			return "REC"
		}
		return "RE"
	case proto.BCAST_PEDERSEN_H:
		return "BCH"
	case proto.GN_HONESTY_CHALLENGE:
		return "CHAL"
	case proto.GN_HONESTY_ANSWER:
		return "ANSW"
	case proto.UPDATE_PEDERSEN_H:
		return "UPH"
	case proto.BCAST_PEDERSEN_RDIFF:
		return "RDIFF"
	case proto.INIT_PEDERSEN_R:
		return "INITR"
	case proto.POST_BRIDGE:
		return "POST"
	case proto.REQUEST_BRIDGES:
		return "REQ"
	case proto.SIGN_ASSIGNMENTS:
		return "SIGN"
	case proto.GOT_SIGNS:
		if toClient {
			return "GOTC"
		}
		return "GOT"
	case proto.ANNOUNCEMENT_FINALIZE:
		return "FIN"
	}
	return "TYPE" + strconv.Itoa(ev.EventType)
}

func (m *message) bytes(f string) []byte {
	b, ok := m.ev.Params[f].([]byte)
	if !ok {
		panic("no field " + f)
	}
	return b
}

func (o *observer) point(b []byte) abstract.Point {
	p := o.suite.Point()
	if err := p.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return p
}

func pair(a, b abstract.Point) string { return a.String() + "/" + b.String() }

// facts that other messages of the same step are judged by
func (o *observer) learn(ms []*message) {
	rdiff := false
	for _, m := range ms {
		m := m
		safely(func() {
			switch m.kind {
			case "SREG":
				if _, ok := o.pks[m.from]; !ok {
					o.pks[m.from] = o.point(m.bytes("public_key"))
					o.drew(m.from, "key", o.pks[m.from].String())
				}
			case "UPH":
				o.drew(m.from, "share", o.point(m.bytes("h")).String())
			case "CREG":
				if _, ok := o.pks[m.from]; !ok {
					p := o.point(m.bytes("public_key"))
					o.pks[m.from] = p
					o.drew(m.from, "key", p.String())
					o.nymOwner[p.String()] = nymID{m.from, 0}
				}
			case "INITR":
				o.R[m.to] = util.DecodeSecret(o.suite, m.bytes("r"))
				o.drew(m.from, "blind", util.SecretToBigInt(o.R[m.to]).Text(16))
			case "CONF":
				if m.from == "C" && !o.confSeen {
					o.confSeen = true
					o.drew("C", "key", o.point(m.bytes("public_key")).String())
					for _, k := range []string{"n", "g1", "g2", "g3", "g4", "g5", "g6", "h1"} {
						o.drew("C", "par", new(big.Int).SetBytes(m.bytes(k)).Text(16))
					}
				}
			case "ANN":
				if m.from == "C" && !o.annSeen {
					// the ten fillers
					o.annSeen = true
					for _, p := range util.ProtobufDecodePointList(m.bytes("keys")) {
						o.drew("C", "key", p.String())
					}
					for _, p := range util.ProtobufDecodePointList(m.bytes("vals")) {
						o.drew("C", "filler", p.String())
					}
				}
			case "CRS":
				// a registration whose client is gone: its blinding value is lost
				if m.from == "C" {
					if n := o.nymOwner[o.point(m.bytes("public_key")).String()]; n.g == 0 {
						if nd := o.w.nodes[n.o]; nd != nil && nd.gone {
							o.lost[n.o] = true
						}
					}
				}
				if m.to == "C" {
					if a := o.w.byAddr(m.ev.Params["addr"].(string)); a != "" {
						k := o.point(m.bytes("public_key"))
						if _, ok := o.nymOwner[k.String()]; !ok {
							o.nymOwner[k.String()] = nymID{a, len(o.gens)}
						}
					}
				}
			case "RDIFF":
				if rdiff {
					return
				}
				rdiff = true
				keys := util.ProtobufDecodePointList(m.bytes("keys"))
				rs := util.ProtobufDecodeSecretList(m.bytes("rDiffs"))
				if o.rdiffSeen <= len(o.gens) {
					// once for a round, however many are told
					o.rdiffSeen = len(o.gens) + 1
					for _, r := range rs {
						o.drew(m.from, "blind", util.SecretToBigInt(r).Text(16))
					}
				}
				for i, k := range keys {
					if n, ok := o.nymOwner[k.String()]; ok && o.R[n.o] != nil && i < len(rs) {
						o.R[n.o] = o.suite.Secret().Add(o.R[n.o], rs[i])
					}
				}
			}
		})
	}
}

// drew notes what a real node picked at random
func (o *observer) drew(who, kind, v string) {
	n := o.w.nodes[who]
	if n == nil || n.cmd == nil {
		return
	}
	if o.w.tr.Drawn == nil {
		o.w.tr.Drawn = map[string][]string{}
	}
	o.w.tr.Drawn[kind] = append(o.w.tr.Drawn[kind], v)
}

func safely(f func()) (err interface{}) {
	defer func() { err = recover() }()
	f()
	return nil
}

// delivered is called before a message is handed to its receiver
func (o *observer) delivered(m *message) {
	safely(func() {
		switch {
		case m.kind == "SREP":
			o.srepHT[m.to] = o.point(m.bytes("h"))
		case m.kind == "UPH" && m.to == "C" && !m.injected():
			o.curHT = o.point(m.bytes("h"))
		case m.kind == "ANN" && m.to == "C":
			o.curGT, o.curHT, o.G = o.point(m.bytes("GT")), o.point(m.bytes("HT")), o.point(m.bytes("g"))
		case m.kind == "RE" && m.to == "C":
			o.curGT, o.curHT = o.point(m.bytes("GT")), o.point(m.bytes("HT"))
		}
	})
}

func (m *message) injected() bool { return m.kind == "INJ" }

const xMin, xMax = -300, 400

// open says whose commitments the values are, and what they hold
func (o *observer) open(keys, vals []abstract.Point, GT, HT abstract.Point) (tab []interface{}, owners map[string]string, nf int) {
	gx := map[string]int{}
	x := o.suite.Point().Mul(GT, o.suite.Secret().SetInt64(xMin))
	for i := xMin; i <= xMax; i++ {
		gx[x.String()] = i
		x = o.suite.Point().Add(x, GT)
	}
	inv := map[string]abstract.Point{}
	for k, r := range o.R {
		if !o.lost[k] {
			inv[k] = o.suite.Point().Neg(o.suite.Point().Mul(HT, r))
		}
	}
	owners = map[string]string{}
	n := 0
	for i, v := range vals {
		for k, p := range inv {
			d := o.suite.Point().Add(v, p)
			if j, ok := gx[d.String()]; ok {
				tab = append(tab, obj{"o": k, "x": strconv.Itoa(j)})
				if i < len(keys) {
					owners[keys[i].String()] = k
				}
				n++
				break
			}
		}
	}
	return tab, owners, len(vals) - n
}

func dups(keys []abstract.Point) int {
	m := map[string]bool{}
	for _, k := range keys {
		m[k.String()] = true
	}
	return len(keys) - len(m)
}

func list(xs []interface{}) []interface{} {
	if xs == nil {
		return []interface{}{}
	}
	sort.SliceStable(xs, func(i, j int) bool { return fmt.Sprint(xs[i]) < fmt.Sprint(xs[j]) })
	return xs
}

func strs(xs []string) []interface{} {
	r := []interface{}{}
	for _, x := range xs {
		r = append(r, x)
	}
	return r
}

func okIf(c bool, other string) string {
	if c {
		return "ok"
	}
	return other
}

func (o *observer) htSet(v abstract.Point) []interface{} {
	if s, ok := o.shares[v.String()]; ok {
		return strs(s)
	}
	return []interface{}{"?"}
}

func (o *observer) nv(p abstract.Point) obj {
	if n, ok := o.nymOwner[p.String()]; ok {
		return obj{"o": n.o, "g": n.g}
	}
	// keys of the driver's own clients under any published generator
	for i := len(o.gens); i >= 1; i-- {
		for k, sk := range o.sks {
			if o.suite.Point().Mul(o.gens[i-1].g, sk).Equal(p) {
				o.nymOwner[p.String()] = nymID{k, i}
				return obj{"o": k, "g": i}
			}
		}
	}
	return obj{"o": "?", "g": -1}
}

func (o *observer) av(a *bridge.Assignment) obj {
	return obj{"br": o.w.bridgeOf(a.Addr), "req": o.nv(a.NymR), "prov": o.nv(a.Nym)}
}

func asgKey(a obj) string { return fmt.Sprint(a["br"], "|", a["req"], "|", a["prov"]) }

func (o *observer) gen(p abstract.Point) *fact {
	if n, ok := o.nymOwner[p.String()]; ok && n.g >= 1 && n.g <= len(o.gens) {
		return o.gens[n.g-1]
	}
	if len(o.gens) > 0 {
		return o.gens[len(o.gens)-1]
	}
	return nil
}

// sigOK verifies a signature by who and notes the nonce
func (o *observer) sigOK(who string, msg []byte, pk, base abstract.Point, sig []byte) string {
	if util.ElGamalVerify(o.suite, msg, pk, sig, base) != nil {
		return "bad"
	}
	n := o.w.nodes[who]
	if n != nil && n.kind == 'E' {
		return "ok"
	}
	c, r := o.suite.Secret(), o.suite.Secret()
	buf := bytes.NewBuffer(sig)
	if abstract.Read(buf, &c, o.suite) != nil || abstract.Read(buf, &r, o.suite) != nil {
		return "bad"
	}
	B := base
	if B == nil {
		B = o.base()
	}
	T := o.suite.Point().Add(o.suite.Point().Mul(B, r), o.suite.Point().Mul(pk, c))
	if old, ok := o.nonces[T.String()]; ok && old != c.String() {
		return "nonce"
	} else if !ok && base == nil {
		o.drew(who, "nonce", T.String())
	}
	o.nonces[T.String()] = c.String()
	cb, rb := util.SecretToBigInt(c), util.SecretToBigInt(r)
	Q := c.(*nist.Int).M
	for _, p := range o.sigs[who] {
		if p[0].Cmp(cb) == 0 {
			continue
		}
		d := new(big.Int).Sub(p[0], cb)
		d.Mod(d, Q)
		a := new(big.Int).Sub(rb, p[1])
		a.Mul(a, new(big.Int).ModInverse(d, Q)).Mod(a, Q)
		if o.suite.Point().Mul(B, util.BigIntToSecret(o.suite, a)).Equal(pk) {
			return "nonce"
		}
	}
	if len(o.sigs[who]) < 40 {
		o.sigs[who] = append(o.sigs[who], [2]*big.Int{cb, rb})
	}
	return "ok"
}

func foKey(m *message) string {
	var b bytes.Buffer
	for _, f := range []string{"n", "g1", "g2", "g3", "g4", "g5", "g6", "h1"} {
		b.Write(m.bytes(f))
		b.WriteByte('/')
	}
	return b.String()
}

func (o *observer) fo1(m *message) string {
	k := foKey(m)
	if o.foKey == "" {
		o.foKey = k
		N := new(big.Int).SetBytes(m.bytes("n"))
		b := fujiokam.CreateMinimumBase(o.suite, N)
		b.G1 = b.Point().FromBinary(m.bytes("g1"))
		b.G2 = b.Point().FromBinary(m.bytes("g2"))
		b.G3 = b.Point().FromBinary(m.bytes("g3"))
		b.G4 = b.Point().FromBinary(m.bytes("g4"))
		b.G5 = b.Point().FromBinary(m.bytes("g5"))
		b.G6 = b.Point().FromBinary(m.bytes("g6"))
		b.H1 = b.Point().FromBinary(m.bytes("h1"))
		o.fo = b
	}
	if o.foKey == k {
		return "cur"
	}
	return "other"
}

func (o *observer) reqProof(p map[string]interface{}, f *fact) string {
	if f == nil || o.fo == nil {
		return "bad"
	}
	res := false
	safely(func() {
		nym := o.point(p["nym"].([]byte))
		pb := &pedersen.PedersenBase{Suite: o.suite, GT: f.GT, HT: f.HT}
		v := f.byKey[nym.String()]
		if v == nil {
			return
		}
		res = bridge.VerifyInd(p, v, o.suite, pb, o.fo)
	})
	return okIf(res, "bad")
}

func shuffleName(s abstract.Suite, pk abstract.Point, lists ...[]abstract.Point) string {
	h := s.Hash()
	h.Write(util.EncodePoint(pk))
	for _, l := range lists {
		for _, p := range l {
			h.Write(util.EncodePoint(p))
		}
	}
	return "PairShuffle" + string(h.Sum(nil))
}

func isPerm(a, b []abstract.Point) bool {
	c := map[string]int{}
	for _, p := range a {
		c[p.String()]++
	}
	for _, p := range b {
		c[p.String()]--
		if c[p.String()] < 0 {
			return false
		}
	}
	return len(a) == len(b)
}

func (o *observer) shuffleProof(m *message, keys []abstract.Point) string {
	r := "bad"
	safely(func() {
		if len(keys) < 2 {
			r = "ok"
			return
		}
		xb := util.ProtobufDecodePointList(m.bytes("xbar"))
		yb := util.ProtobufDecodePointList(m.bytes("ybar"))
		pk0 := util.ProtobufDecodePointList(m.bytes("prev_keys"))
		pv := util.ProtobufDecodePointList(m.bytes("prev_vals"))
		pk := o.point(m.bytes("public_key"))
		if !pk.Equal(o.pks[m.from]) {
			r = "key"
			return
		}
		v := shuffle.Verifier(o.suite, nil, pk, pk0, pv, xb, yb)
		if proof.HashVerify(o.suite, shuffleName(o.suite, pk, pk0, pv, xb, yb), v, m.bytes("proof")) != nil {
			return
		}
		if !isPerm(pv, keys) {
			r = "keys"
			return
		}
		r = "ok"
	})
	return r
}

func (o *observer) batchHonesty(pub []*big.Int, bits []bool, ans []*big.Int) string {
	if len(pub) != 480 || len(bits) != 480 || len(ans) != 480 || o.fo == nil {
		return "bad"
	}
	gs := []*fujiokam.Point{o.fo.G1, o.fo.G2, o.fo.G3, o.fo.G4, o.fo.G5, o.fo.G6}
	N := o.fo.N
	sum := new(big.Int)
	rhs := big.NewInt(1)
	gw := make([]*big.Int, 6)
	for i := range gw {
		gw[i] = new(big.Int)
	}
	lim := new(big.Int).Lsh(big.NewInt(1), 32)
	for i := range pub {
		wt, _ := rand.Int(rand.Reader, lim)
		sum.Add(sum, new(big.Int).Mul(wt, ans[i]))
		rhs.Mul(rhs, new(big.Int).Exp(pub[i], wt, N)).Mod(rhs, N)
		if bits[i] {
			gw[i/80].Add(gw[i/80], wt)
		}
	}
	for i := range gw {
		rhs.Mul(rhs, new(big.Int).Exp(&gs[i].V, gw[i], N)).Mod(rhs, N)
	}
	lhs := new(big.Int).Exp(&o.fo.H1.V, sum, N)
	return okIf(lhs != nil && lhs.Cmp(rhs) == 0, "bad")
}

// tableView is the part that ANN, FIN and RE share
func (o *observer) tableView(m *message) (v obj, f *fact) {
	f = &fact{byKey: map[string]abstract.Point{}}
	f.keys = util.ProtobufDecodePointList(m.bytes("keys"))
	f.vals = util.ProtobufDecodePointList(m.bytes("vals"))
	f.GT, f.HT = o.point(m.bytes("GT")), o.point(m.bytes("HT"))
	if b, ok := m.ev.Params["g"].([]byte); ok {
		f.g = o.point(b)
	}
	for i := range f.keys {
		if i < len(f.vals) {
			f.byKey[f.keys[i].String()] = f.vals[i]
		}
	}
	tab, owners, nf := o.open(f.keys, f.vals, f.GT, f.HT)
	f.keyOwner = owners
	d := dups(f.keys)
	if len(f.keys) != len(f.vals) {
		d = 1000
	}
	return obj{"t": m.kind, "tab": list(tab), "nf": nf, "dup": d}, f
}

// nymsOK: the opened entries stand under the keys their owners expect
func (o *observer) nymsOK(f *fact, base abstract.Point) string {
	for _, k := range f.keys {
		ow, ok := f.keyOwner[k.String()]
		if !ok {
			continue
		}
		if sk := o.sks[ow]; sk != nil && base != nil && !o.suite.Point().Mul(base, sk).Equal(k) {
			return "moved"
		}
	}
	return "ok"
}

func (o *observer) pksOK(f *fact) string {
	fk := 0
	for _, k := range f.keys {
		if ow, ok := f.keyOwner[k.String()]; ok {
			if !o.pks[ow].Equal(k) {
				return "moved"
			}
		} else if o.fakes[k.String()] {
			fk++
		} else if n, ok := o.nymOwner[k.String()]; !ok || n.g != 0 || !o.lost[n.o] {
			return "moved"
		}
	}
	return okIf(fk == 10, "moved")
}

func (o *observer) freshVals(f *fact) string {
	r := "fresh"
	for _, v := range f.vals {
		if o.seenVal[v.String()] {
			r = "stale"
		}
	}
	for _, v := range f.vals {
		o.seenVal[v.String()] = true
	}
	return r
}

func (o *observer) freshBase(f *fact) string {
	r := okIf(!o.seenBase[f.GT.String()] && !o.seenBase[f.HT.String()], "stale")
	if r == "ok" {
		r = "fresh"
	}
	o.seenBase[f.GT.String()], o.seenBase[f.HT.String()] = true, true
	return r
}

func (o *observer) curBase(f *fact) string {
	if f.GT.Equal(o.curGT) && f.HT.Equal(o.curHT) {
		return "cur"
	}
	return "other"
}

// view reduces a message to what the specification says about it
func (o *observer) view(m *message, cause *message) (v obj) {
	v = obj{"t": m.kind}
	if err := safely(func() { o.view1(m, cause, v) }); err != nil {
		v["err"] = fmt.Sprint(err)
	}
	return
}

func (o *observer) view1(m *message, cause *message, v obj) {
	s := o.suite
	p := m.ev.Params
	set := func(x obj) {
		for k, y := range x {
			v[k] = y
		}
	}
	switch m.kind {
	case "SREG", "CREG":
		o.point(m.bytes("public_key"))
		v["pk"] = "ok"
	case "SREP":
		v["prev"] = o.w.byAddr(p["prev_server"].(string))
		v["ht"] = o.htSet(o.point(m.bytes("h")))
		v["fo"] = o.fo1(m)
	case "UPH":
		h := o.point(m.bytes("h"))
		if _, ok := o.shares[h.String()]; !ok {
			prev := o.srepHT[m.from]
			var sh []string
			if prev != nil {
				sh = append(sh, o.shares[prev.String()]...)
			}
			o.shares[h.String()] = append(sh, m.from)
		}
		v["ht"] = o.htSet(h)
		o.seenBase[h.String()] = true
	case "NEXT":
		v["next"] = o.w.byAddr(p["next_hop"].(string))
	case "BCH":
		v["ht"] = o.htSet(o.point(m.bytes("h")))
	case "ANN":
		t, f := o.tableView(m)
		set(t)
		if m.from == "C" {
			if len(o.gens) == 0 && len(o.fakes) == 0 {
				for _, k := range f.keys {
					if _, ok := o.nymOwner[k.String()]; !ok {
						o.fakes[k.String()] = true
					}
				}
			}
			v["prm"], v["g"], v["pf"], v["cm"] = o.curBase(f), okIf(f.g == nil, "some"), "none", "fresh"
			if f.g == nil {
				v["g"] = "none"
			}
			v["nym"] = o.pksOK(f)
			for _, x := range f.vals {
				o.seenVal[x.String()] = true
			}
		} else {
			v["prm"] = o.freshBase(f)
			v["g"] = "stale"
			if f.g != nil && !o.seenG[f.g.String()] {
				v["g"] = "fresh"
			}
			o.seenG[f.g.String()] = true
			o.annG[m.from] = f.g
			v["pf"] = o.shuffleProof(m, f.keys)
			v["nym"] = o.nymsOK(f, f.g)
			v["cm"] = o.freshVals(f)
			if m.to == "C" {
				o.lastAnn = f
			}
		}
	case "FIN":
		t, f := o.tableView(m)
		set(t)
		v["prm"] = o.curBase(f)
		v["g"] = "other"
		if f.g != nil && o.G != nil && f.g.Equal(o.G) {
			v["g"] = "cur"
		}
		v["nym"] = o.nymsOK(f, f.g)
		v["same"] = "other"
		if l := o.lastAnn; l != nil && len(l.keys) == len(f.keys) {
			v["same"] = "ok"
			for k, x := range f.byKey {
				if y := l.byKey[k]; y == nil || !y.Equal(x) {
					v["same"] = "other"
				}
			}
		}
		if len(o.gens) == 0 || !o.gens[len(o.gens)-1].g.Equal(f.g) {
			o.gens = append(o.gens, f)
			for _, p := range []abstract.Point{f.g, f.GT, f.HT} {
				o.drew("C", "gen", p.String())
			}
			for k, ow := range f.keyOwner {
				o.nymOwner[k] = nymID{ow, len(o.gens)}
			}
		}
	case "CRS":
		ow := o.w.byAddr(p["addr"].(string))
		v["addr"] = ow
		k := o.point(m.bytes("public_key"))
		// the client is the one whose key C sent out; the address tells which
		v["o"], v["nym"] = ow, "ok"
		if m.from == "C" {
			n := o.nymOwner[k.String()]
			v["o"], v["nym"] = n.o, okIf(n.g == 0 && n.o != "", "other")
		} else if sk := o.sks[ow]; sk != nil {
			if b := o.annG[m.from]; b != nil {
				v["nym"] = okIf(s.Point().Mul(b, sk).Equal(k), "other")
			}
		}
		v["x"] = "?"
		c := o.point(m.bytes("pcomm"))
		if r := o.R[ow]; r != nil && !o.lost[ow] {
			d := s.Point().Sub(c, s.Point().Mul(o.curHT, r))
			x := s.Point().Mul(o.curGT, s.Secret().SetInt64(xMin))
			for i := xMin; i <= xMax; i++ {
				if x.Equal(d) {
					v["x"] = strconv.Itoa(i)
				}
				x = s.Point().Add(x, o.curGT)
			}
		}
		o.seenVal[c.String()] = true
	case "INITR":
		g := o.point(m.bytes("g"))
		v["g"] = "other"
		if o.G != nil && g.Equal(o.G) {
			v["g"] = "cur"
		}
		r := util.DecodeSecret(s, m.bytes("r"))
		v["r"] = "stale"
		if !o.seenR[r.String()] && !r.Equal(s.Secret().Zero()) && !r.Equal(s.Secret().One()) {
			v["r"] = "fresh"
		}
		o.seenR[r.String()] = true
	case "CONF":
		v["prm"] = o.fo1(m)
		hp := util.ProtobufDecodeBigIntList(m.bytes("honesty_prf"))
		v["hp"] = "fresh"
		if len(hp) != 480 {
			v["hp"] = "short"
		}
		for _, x := range hp {
			if o.seenHP[x.String()] {
				v["hp"] = "stale"
			}
			o.seenHP[x.String()] = true
		}
		o.hp[m.to] = hp
		pk := o.point(m.bytes("public_key"))
		if o.cpk == nil {
			o.cpk = pk
		}
		v["cpk"] = okIf(pk.Equal(o.cpk), "other")
	case "CHAL":
		b := util.ProtobufDecodeBoolList(m.bytes("honesty_chal"))
		ones := 0
		for _, x := range b {
			if x {
				ones++
			}
		}
		k := fmt.Sprint(b)
		v["ch"] = okIf(len(b) == 480 && ones > 160 && ones < 320 && !o.chals[k], "bad")
		o.chals[k] = true
	case "ANSW":
		v["v"] = "bad"
		if cause != nil && cause.ev != nil {
			bits := util.ProtobufDecodeBoolList(cause.bytes("honesty_chal"))
			v["v"] = o.batchHonesty(o.hp[m.to], bits, util.ProtobufDecodeBigIntList(m.bytes("honesty_ans")))
		}
	case "POST":
		nym := o.point(m.bytes("nym"))
		v["nym"], v["br"] = o.nv(nym), o.w.bridgeOf(p["bridge_addr"].(string))
		v["sig"] = "bad"
		if f := o.gen(nym); f != nil {
			v["sig"] = o.sigOK(m.from, bridge.MessageOfPostBridge(p), nym, f.g, m.bytes("signature"))
		}
	case "REQ":
		nym := o.point(m.bytes("nym"))
		v["nym"], v["ind"] = o.nv(nym), p["ind"].(int)
		f := o.gen(nym)
		v["sig"], v["pf"] = "bad", o.reqProof(p, f)
		if f != nil {
			v["sig"] = o.sigOK(m.from, bridge.MessageOfRequestBridges(p), nym, f.g, m.bytes("signature"))
		}
	case "SIGN":
		nym := o.point(m.bytes("nym"))
		v["nym"], v["ind"] = o.nv(nym), p["ind"].(int)
		v["pf"] = "bad"
		if len(o.gens) > 0 {
			v["pf"] = o.reqProof(p, o.gens[len(o.gens)-1])
		}
		var as []interface{}
		for _, a := range bridge.DecodeAssignmentList(m.bytes("assignments")) {
			a := a
			as = append(as, o.av(&a))
		}
		v["asgs"] = list(as)
	case "GOT":
		ok := p["success"].(bool)
		v["ok"] = ok
		if !ok {
			return
		}
		var as []interface{}
		al := bridge.DecodeAssignmentList(m.bytes("assignments"))
		sg := util.Decode2DByteArray(m.bytes("signatures"))
		sv := "none"
		for _, i := range o.w.servers {
			pk := o.pks[i]
			good := pk != nil && len(sg) == len(al)
			for j := range al {
				if good {
					st := o.sigOK(m.from, bridge.EncodeAssignment(&al[j]), pk, nil, sg[j])
					if st == "nonce" {
						sv = "nonce"
					}
					good = st == "ok"
				}
			}
			if good && sv != "nonce" {
				sv = i
			}
		}
		for j := range al {
			as = append(as, o.av(&al[j]))
		}
		v["asgs"], v["sv"] = list(as), sv
	case "GOTC":
		a := bridge.DecodeAssignment(m.bytes("assignment"))
		v["asg"] = o.av(a)
		v["full"] = o.certOK(m.bytes("assignment"), m.bytes("signatures"))
		v["sig"] = "bad"
		if o.cpk != nil {
			v["sig"] = o.sigOK("C", bridge.MessageOfGotSignatures(p), o.cpk, nil, m.bytes("signature"))
		}
		c := &cert{asg: v["asg"].(obj), a: a, raw: m.bytes("assignment"), sigs: m.bytes("signatures"), full: v["full"] == "ok"}
		c.key = asgKey(c.asg)
		o.certs = append(o.certs, c)
	case "VOTE":
		nym := o.point(m.bytes("nym"))
		v["nym"], v["fb"] = o.nv(nym), p["feedback"].(int)
		a := bridge.DecodeAssignment(m.bytes("assignment"))
		v["asg"] = o.av(a)
		v["certs"] = okIf(o.certOK(m.bytes("assignment"), m.bytes("signatures")) == "ok", "bad")
		v["sig"] = "bad"
		if f := o.gen(nym); f != nil {
			v["sig"] = o.sigOK(m.from, bridge.MessageOfVote(p), nym, f.g, m.bytes("signature"))
		}
	case "RE":
		t, f := o.tableView(m)
		set(t)
		_, st := p["is_start"]
		if st {
			v["prm"], v["pf"] = o.curBase(f), "none"
			v["nym"] = "ok"
			if len(o.gens) > 0 {
				v["nym"] = o.nymsOK(f, o.gens[len(o.gens)-1].g)
			}
		} else {
			v["prm"], v["pf"] = o.freshBase(f), o.shuffleProof(m, f.keys)
			if m.to == "C" {
				v["nym"] = o.pksOK(f)
			} else {
				// keys are back at what the server before announced
				v["nym"] = o.nymsOK(f, o.annG[m.to])
			}
		}
		v["cm"] = o.freshVals(f)
	case "RDIFF":
		keys := util.ProtobufDecodePointList(m.bytes("keys"))
		rs := util.ProtobufDecodeSecretList(m.bytes("rDiffs"))
		own := []interface{}{}
		for _, k := range keys {
			if n, ok := o.nymOwner[k.String()]; ok && !o.lost[n.o] {
				own = append(own, n.o)
			}
		}
		v["own"], v["n"] = list(own), len(keys)
		if len(rs) != len(keys) || dups(keys) > 0 {
			v["n"] = -1
		}
	case "REC":
		keys := util.ProtobufDecodePointList(m.bytes("keys"))
		ds := util.DecodeIntArray(m.bytes("diffs"))
		var l []interface{}
		for i, k := range keys {
			if ds[i] != 0 {
				l = append(l, obj{"nym": o.nv(k), "d": ds[i]})
			}
		}
		v["diffs"] = list(l)
	}
}

// certOK: signatures of every server in order and of the coordinator
func (o *observer) certOK(asg, sigs []byte) string {
	r := "bad"
	safely(func() {
		l := util.Decode2DByteArray(sigs)
		order := o.w.chain
		if len(l) != len(order)+1 || o.cpk == nil {
			return
		}
		for i, sv := range order {
			if util.ElGamalVerify(o.suite, asg, o.pks[sv], l[i], nil) != nil {
				return
			}
		}
		r = "ok"
		if st := o.sigOK("C", asg, o.cpk, nil, l[len(order)]); st != "ok" {
			r = st
		}
	})
	return r
}

// rewrite replaces real addresses by aliases
func (w *World) rewrite(ev *proto.Event, from string) {
	ev.SrcAddr = w.nodes[from].al.addr
	for k, v := range ev.Params {
		s, ok := v.(string)
		if !ok || k == "bridge_addr" {
			continue
		}
		if n := w.byReal(s); n != nil {
			ev.Params[k] = n.al.addr
		}
	}
}

func (w *World) byAddr(a string) string {
	for k, n := range w.nodes {
		if n.al.addr == a {
			return k
		}
	}
	if n := w.byReal(a); n != nil {
		return n.name
	}
	return a
}

func (w *World) byReal(a string) *node {
	host, port, err := net.SplitHostPort(a)
	if err != nil || (host != "127.0.0.1" && host != "0.0.0.0" && host != "::") {
		return nil
	}
	pn, _ := strconv.Atoi(port)
	for _, n := range w.nodes {
		if n.cmd == nil {
			continue
		}
		if n.kind == 'S' && pn >= n.block && pn < n.block+11 {
			return n
		}
		if n.kind != 'S' && n.port != 0 && n.port == pn {
			return n
		}
	}
	return nil
}
