package cluster

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
	"zrepv/ref/suite"

	"zrepv/ref/cmd/bridge"
	"zrepv/ref/proto"
	"zrepv/ref/util"
	"zrepv/ref/util/shuffle"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"
)

// Vector is a case that the specification enumerated, for a single node; which
// fields matter depends on Unit
type Vector struct {
	ID     string   `json:"id"`
	Unit   string   `json:"unit"`
	Kind   string   `json:"kind"`
	N      int      `json:"n"`
	Rows   [][]int  `json:"rows"`
	Keys   []int    `json:"keys"`
	Alt    string   `json:"alt"`
	Omit   string   `json:"omit"`
	Flag   bool     `json:"flag"`
	Garble int      `json:"garble"`
	Claim  bool     `json:"claim"`
	Lie    string   `json:"lie"`
	Rounds int      `json:"rounds"`
	Gen    int      `json:"gen"`
	Pos    int      `json:"pos"`
	Case   string   `json:"case"`
	Steps  []string `json:"steps"`
	Seed   int64    `json:"seed"`
}

// Outcome is what the node did
type Outcome struct {
	ID    string                 `json:"id"`
	Out   string                 `json:"out"`
	Note  string                 `json:"note,omitempty"`
	Fault string                 `json:"fault,omitempty"`
	Data  map[string]interface{} `json:"data,omitempty"`
}

// unitServer is one real server process; the driver plays the coordinator and
// the neighbours in the chain
type unitServer struct {
	w    *World
	n    *node
	s    abstract.Suite
	coo  *alias // the coordinator
	nb   *alias // previous and next server
	pk   abstract.Point
	hOut abstract.Point
	rng  *rand.Rand
	lim  time.Duration
}

func newUnitWorld(bin, tmp string) (*World, func()) {
	root, err := os.MkdirTemp(tmp, "zu")
	if err != nil {
		panic(Fault{err.Error()})
	}
	w := &World{bin: bin, root: root, nodes: map[string]*node{}, chans: map[[2]string][]*message{}, tr: &Trace{},
		emu: map[string]*emuClient{}, crashed: map[string]bool{}, real: map[string]*realClient{}}
	w.ob = newObserver(w)
	return w, func() {
		for _, n := range w.nodes {
			n.kill()
			if n.al != nil {
				n.al.close()
			}
		}
		os.RemoveAll(root)
	}
}

// gather waits for messages at an alias
func gather(a *alias, want int, d time.Duration, stop func() bool) (evs []*proto.Event) {
	end := time.Now().Add(d)
	for {
		for _, raw := range a.take() {
			if ev, err := decodeEvent(raw); err == nil {
				evs = append(evs, ev)
			}
		}
		if len(evs) >= want || time.Now().After(end) || stop() {
			return
		}
		time.Sleep(300 * time.Microsecond)
	}
}

func byteOf(ev *proto.Event, f string) []byte {
	b, _ := ev.Params[f].([]byte)
	return b
}

func (w *World) startUnitServer(seed int64, lim time.Duration) *unitServer {
	u := &unitServer{w: w, s: w.ob.suite, rng: rand.New(rand.NewSource(seed)), lim: lim}
	u.coo = w.newNode("C", 'C').al
	u.nb = w.newNode("N", 'S').al
	for try := 0; ; try++ {
		n := &node{name: fmt.Sprint("S", try), kind: 'S'}
		w.nodes[n.name] = n
		n.block = portBlock()
		if err := n.start(w.bin, "server", w.root, n.block, u.coo.addr); err != nil {
			panic(Fault{err.Error()})
		}
		evs := gather(u.coo, 1, 20*time.Second, n.isDead)
		if len(evs) == 1 && evs[0].EventType == proto.SERVER_REGISTER {
			u.n = n
			u.pk = u.point(byteOf(evs[0], "public_key"))
			n.real = strings.Replace(evs[0].SrcAddr, "0.0.0.0", "127.0.0.1", 1)
			fmt.Sscanf(n.real[strings.LastIndex(n.real, ":")+1:], "%d", &n.port)
			return u
		}
		n.kill()
		if try > 3 {
			panic(Fault{"server did not register: " + n.tail.String()})
		}
	}
}

func (u *unitServer) point(b []byte) (p abstract.Point) {
	safely(func() {
		q := u.s.Point()
		if q.UnmarshalBinary(b) == nil {
			p = q
		}
	})
	return
}

func (u *unitServer) secret() abstract.Secret { return u.s.Secret().Pick(random.Stream) }
func (u *unitServer) g() abstract.Point       { return u.w.ob.base() }

// tell sends a message and waits until the server has dealt with it
func (u *unitServer) tell(from *alias, typ int, p obj) error {
	ev := &proto.Event{EventType: typ, Params: p, SrcAddr: from.addr}
	if err := dialSend(u.n.real, encodeEvent(ev), 5*time.Second); err != nil {
		u.n.waitDead(3 * time.Second)
		return errDead
	}
	return u.n.fence(u.lim)
}

// setup answers the registration; h is the base that the server builds on
func (u *unitServer) setup(h abstract.Point) string {
	b := fixedFO(u.s)
	p := obj{"reply": true, "h": util.EncodePoint(h), "prev_server": u.nb.addr, "n": b.N.Bytes(),
		"g1": b.G1.ToBinary(), "g2": b.G2.ToBinary(), "g3": b.G3.ToBinary(), "g4": b.G4.ToBinary(), "g5": b.G5.ToBinary(),
		"g6": b.G6.ToBinary(), "h1": b.H1.ToBinary()}
	if err := u.tell(u.coo, proto.SERVER_REGISTER_REPLY, p); err != nil {
		return "stopped after SREP"
	}
	evs := gather(u.coo, 1, u.lim, u.n.isDead)
	if len(evs) != 1 || evs[0].EventType != proto.UPDATE_PEDERSEN_H {
		return "no UPH"
	}
	if u.hOut = u.point(byteOf(evs[0], "h")); u.hOut == nil {
		return "bad UPH"
	}
	u.tell(u.coo, proto.UPDATE_NEXT_HOP, obj{"next_hop": u.nb.addr})
	u.tell(u.coo, proto.BCAST_PEDERSEN_H, obj{"h": util.EncodePoint(u.hOut)})
	return ""
}

type tableMsg struct {
	keys, vals []abstract.Point
	GT, HT, g  abstract.Point
	extra      obj
	claim      bool // from another server, as if the coordinator had sent it
}

type tableOut struct {
	tableMsg
	bad string
	ev  *proto.Event
}

// pass hands the server a table; what comes out is nil if nothing was passed on
func (u *unitServer) pass(kind string, m *tableMsg) *tableOut {
	p := obj{"keys": util.ProtobufEncodePointList(m.keys), "vals": util.ProtobufEncodePointList(m.vals),
		"GT": util.EncodePoint(m.GT), "HT": util.EncodePoint(m.HT)}
	for k, v := range m.extra {
		p[k] = v
	}
	if m.g != nil && !m.claim {
		p["g"] = util.EncodePoint(m.g)
	}
	if m.claim && kind == "RE" {
		p["is_start"] = true
	}
	from := u.nb
	if _, start := p["is_start"]; !m.claim && (start || kind == "ANN" && m.g == nil) {
		from = u.coo
	}
	typ := proto.ANNOUNCEMENT
	if kind == "RE" {
		typ = proto.ROUND_END
	}
	if u.tell(from, typ, p) == errHang {
		return &tableOut{bad: "hangs"}
	}
	evs := gather(u.nb, 1, 20*time.Millisecond, func() bool { return false })
	if len(evs) == 0 {
		return nil
	}
	if len(evs) > 1 || evs[0].EventType != typ {
		return &tableOut{bad: "sends something else"}
	}
	o := &tableOut{ev: evs[0], bad: "malformed table"}
	safely(func() {
		o.keys = util.ProtobufDecodePointList(byteOf(o.ev, "keys"))
		o.vals = util.ProtobufDecodePointList(byteOf(o.ev, "vals"))
		o.GT, o.HT = u.point(byteOf(o.ev, "GT")), u.point(byteOf(o.ev, "HT"))
		if kind == "ANN" {
			o.g = u.point(byteOf(o.ev, "g"))
			if o.g == nil {
				return
			}
		}
		if len(o.keys) != len(o.vals) || o.GT == nil || o.HT == nil {
			return
		}
		o.bad = ""
		if len(o.keys) > 1 {
			xb := util.ProtobufDecodePointList(byteOf(o.ev, "xbar"))
			yb := util.ProtobufDecodePointList(byteOf(o.ev, "ybar"))
			x := util.ProtobufDecodePointList(byteOf(o.ev, "prev_keys"))
			y := util.ProtobufDecodePointList(byteOf(o.ev, "prev_vals"))
			pk := u.point(byteOf(o.ev, "public_key"))
			if pk == nil || !pk.Equal(u.pk) {
				o.bad = "proof under another key"
				return
			}
			v := shuffle.Verifier(u.s, nil, pk, x, y, xb, yb)
			if proof.HashVerify(u.s, shuffleName(u.s, pk, x, y, xb, yb), v, byteOf(o.ev, "proof")) != nil || !isPerm(y, o.keys) {
				o.bad = "wrong shuffle proof"
			}
		}
	})
	return o
}

// follow checks that the output is the input raised to two exponents, keys and
// values moved together, and returns the permutation: output i was input perm[i]
func (u *unitServer) follow(in *tableMsg, o *tableOut, kexp func(abstract.Point) abstract.Point, vlog []abstract.Secret) ([]int, string) {
	if o.bad != "" {
		return nil, o.bad
	}
	if len(o.keys) != len(in.keys) {
		return nil, "wrong size"
	}
	at := map[string]int{}
	for i, k := range in.keys {
		at[kexp(k).String()] = i
	}
	perm := make([]int, len(o.keys))
	for i, k := range o.keys {
		j, ok := at[k.String()]
		if !ok {
			return nil, "lost entry"
		}
		perm[i] = j
		if vlog != nil && !u.s.Point().Mul(o.GT, vlog[j]).Equal(o.vals[i]) {
			return nil, "moved value"
		}
	}
	if !isPerm(permPoints(u.s, len(perm)), permOf(u.s, perm)) {
		return nil, "duplicated entry"
	}
	return perm, ""
}

func permPoints(s abstract.Suite, n int) (l []abstract.Point) {
	for i := 0; i < n; i++ {
		l = append(l, s.Point().Mul(nil, s.Secret().SetInt64(int64(i+2))))
	}
	return
}
func permOf(s abstract.Suite, p []int) (l []abstract.Point) {
	for _, i := range p {
		l = append(l, s.Point().Mul(nil, s.Secret().SetInt64(int64(i+2))))
	}
	return
}

// RunVector runs one vector against a process of its own
func RunVector(bin, tmp string, v *Vector, slow bool) (o *Outcome) {
	o = &Outcome{ID: v.ID}
	w, end := newUnitWorld(bin, tmp)
	defer end()
	defer func() {
		if e := recover(); e != nil {
			o.Fault = fmt.Sprint(e, stack())
		}
	}()
	lim := 30 * time.Second
	if slow {
		lim *= 3
	}
	if v.Unit == "client" || v.Unit == "asks" {
		o.Out, o.Data = w.runClient(v, lim)
		return
	}
	u := w.startUnitServer(v.Seed, lim)
	switch v.Unit {
	case "pass":
		o.Out, o.Note = u.runPass(v)
	case "fresh":
		o.Out, o.Data = u.runFresh(v)
	case "chain":
		o.Out, o.Data = u.runChain(v)
	case "perm":
		o.Out, o.Data = u.runPerm(v)
	case "sign":
		o.Out, o.Data = u.runSign(v)
	default:
		o.Fault = "unknown unit " + v.Unit
	}
	return
}

// runPass: a table with a shuffle proof, made as the vector says
func (u *unitServer) runPass(v *Vector) (string, string) {
	if r := u.setup(u.g()); r != "" {
		return r, ""
	}
	n := v.N
	s := u.s
	base := &tableMsg{GT: u.g(), HT: u.hOut}
	var logs, vlog []abstract.Secret
	for i := 0; i < n; i++ {
		logs = append(logs, u.secret())
		vlog = append(vlog, u.secret())
		base.keys = append(base.keys, s.Point().Mul(nil, logs[i]))
		base.vals = append(base.vals, s.Point().Mul(base.GT, vlog[i]))
	}
	in := base
	var kexp func(abstract.Point) abstract.Point
	gIn := s.Point().Mul(nil, u.secret())
	if v.Kind == "RE" {
		// the round's announcement comes first
		a := u.pass("ANN", base)
		if a == nil {
			return "no table", ""
		}
		perm, bad := u.follow(base, a, func(k abstract.Point) abstract.Point {
			for i := range base.keys {
				if base.keys[i].Equal(k) {
					return s.Point().Mul(a.g, logs[i])
				}
			}
			return k
		}, vlog)
		if bad != "" {
			return bad, "announcement"
		}
		back := map[string]abstract.Point{}
		in = &tableMsg{GT: s.Point().Mul(base.GT, u.secret()), HT: s.Point().Mul(base.HT, u.secret())}
		nl := make([]abstract.Secret, n)
		for i, k := range a.keys {
			in.keys = append(in.keys, k)
			back[k.String()] = base.keys[perm[i]]
			nl[i] = u.secret()
			in.vals = append(in.vals, s.Point().Mul(in.GT, nl[i]))
		}
		vlog = nl
		kexp = func(k abstract.Point) abstract.Point { return back[k.String()] }
	}
	// the sender's own shuffle of in.keys
	sk := u.secret()
	pk := s.Point().Mul(nil, sk)
	X := make([]abstract.Point, n)
	for i := range X {
		X[i] = s.Point().Mul(nil, sk)
	}
	Y := in.keys
	m := &tableMsg{GT: in.GT, HT: in.HT, extra: obj{}, claim: v.Claim}
	if v.Kind == "ANN" {
		m.g = gIn
	}
	for _, k := range v.Keys {
		if k == 0 {
			m.keys = append(m.keys, s.Point().Mul(nil, u.secret()))
			m.vals = append(m.vals, s.Point().Mul(nil, u.secret()))
		} else {
			m.keys = append(m.keys, in.keys[k-1])
			m.vals = append(m.vals, in.vals[k-1])
		}
	}
	note := ""
	if v.Flag && n > 1 {
		rand := s.Cipher(abstract.RandomKey)
		A := make([][]int64, n)
		for i := range A {
			for _, x := range v.Rows[i] {
				A[i] = append(A[i], int64(x))
			}
		}
		f, prover := shuffle.Linear(s, pk, X, Y, A, rand)
		var prf []byte
		if f == nil {
			// singular: the best one can do is a proof of something else
			id := make([][]int64, n)
			for i := range id {
				id[i] = make([]int64, n)
				id[i][i] = 1
			}
			f, prover = shuffle.Linear(s, pk, X, Y, id, rand)
			for i := range f.Xbar {
				f.Xbar[i], f.Ybar[i] = mix(s, X, A[i]), mix(s, Y, A[i])
			}
		}
		honest := isUnit(v.Rows)
		var Xb, Yb []abstract.Point
		if v.Lie != "" {
			var i int
			e := strings.Index(v.Lie, ":")
			fmt.Sscan(v.Lie[e+1:], &i)
			f, prover := shuffle.Cheat(s, pk, X, Y, v.Lie[:e], i, rand)
			Xb, Yb = f.Xbar, f.Ybar
			name := shuffleName(s, pk, X, Y, Xb, Yb)
			var err error
			if prf, err = proof.HashProve(s, name, rand, prover); err != nil {
				panic(err)
			}
			if bad := shuffle.Failed(s, name, s, pk, X, Y, Xb, Yb, prf); bad != v.Lie {
				panic("the forgery for " + v.Lie + " fails at " + bad)
			}
		} else if honest && v.Alt == "" {
			xb, yb, pr, _, _ := shuffle.Shuffle(s, nil, pk, X, Y, rand)
			Xb, Yb = xb, yb
			var err error
			if prf, err = proof.HashProve(s, shuffleName(s, pk, X, Y, Xb, Yb), rand, pr); err != nil {
				panic(err)
			}
		} else {
			omit := map[string]bool{}
			for _, o := range strings.Fields(v.Omit) {
				omit[o] = true
			}
			name := func(pk abstract.Point, X, Y, Xb, Yb []abstract.Point) string {
				if omit["all"] {
					return "PairShuffle"
				}
				h := s.Hash()
				if !omit["pk"] {
					h.Write(util.EncodePoint(pk))
				}
				for i, l := range [][]abstract.Point{X, Y, Xb, Yb} {
					if !omit[[]string{"X", "Y", "Xb", "Yb"}[i]] {
						for _, p := range l {
							h.Write(util.EncodePoint(p))
						}
					}
				}
				return "PairShuffle" + string(h.Sum(nil))
			}
			if v.Alt == "pk" {
				f.Spoil(s, rand)
			}
			var err error
			if prf, err = proof.HashProve(s, name(pk, X, Y, f.Xbar, f.Ybar), rand, prover); err != nil {
				panic(err)
			}
			if v.Alt != "" {
				pk, X, Y = f.Alter(s, v.Alt, pk, X, Y, rand)
			}
			Xb, Yb = f.Xbar, f.Ybar
			if v.Alt != "" {
				ver := shuffle.Verifier(s, nil, pk, X, Y, Xb, Yb)
				if !honest {
					ver = shuffle.WeakVerifier(s, nil, pk, X, Y, Xb, Yb)
				}
				if proof.HashVerify(s, name(pk, X, Y, Xb, Yb), ver, prf) != nil {
					panic("the forgery is none")
				}
			} else if !honest && f != nil && isInvertible(v.Rows) {
				if proof.HashVerify(s, name(pk, X, Y, Xb, Yb), shuffle.WeakVerifier(s, nil, pk, X, Y, Xb, Yb), prf) != nil {
					panic("the forgery is none")
				}
			}
		}
		if v.Garble > 0 {
			prf, note = u.garble(prf, v.Garble, X, Y, pk)
		}
		m.extra = obj{"xbar": util.ProtobufEncodePointList(Xb), "ybar": util.ProtobufEncodePointList(Yb), "proof": prf,
			"prev_keys": util.ProtobufEncodePointList(X), "prev_vals": util.ProtobufEncodePointList(Y),
			"public_key": util.EncodePoint(pk), "shuffled": true}
	}
	out := u.pass(v.Kind, m)
	if out == nil {
		return "reject", note
	}
	if kexp == nil {
		// the announcement's exponent is seen in what became of the generator: check by logarithms
		kexp = func(k abstract.Point) abstract.Point { return k }
		if out.bad == "" && len(out.keys) == len(m.keys) {
			byLog := map[string]abstract.Point{}
			B := u.common(out.keys, v.Keys, logs)
			if B != nil {
				for i := range m.keys {
					if v.Keys[i] > 0 {
						byLog[m.keys[i].String()] = s.Point().Mul(B, logs[v.Keys[i]-1])
					}
				}
			}
			kexp = func(k abstract.Point) abstract.Point {
				if p := byLog[k.String()]; p != nil {
					return p
				}
				return k
			}
		}
	}
	var vl []abstract.Secret
	for _, k := range v.Keys {
		if k == 0 {
			vl = nil
			break
		}
		vl = append(vl, vlog[k-1])
	}
	if _, bad := u.follow(m, out, kexp, vl); bad != "" {
		return "accept, but " + bad, note
	}
	return "accept", note
}

// common finds the point B of which the output keys are powers, B^log
func (u *unitServer) common(out []abstract.Point, idx []int, logs []abstract.Secret) abstract.Point {
	have := map[string]bool{}
	for _, k := range out {
		have[k.String()] = true
	}
	if len(idx) == 0 || idx[0] == 0 {
		return nil
	}
	inv := u.s.Secret().Inv(logs[idx[0]-1])
next:
	for _, k := range out {
		B := u.s.Point().Mul(k, inv)
		for _, j := range idx {
			if j > 0 && !have[u.s.Point().Mul(B, logs[j-1]).String()] {
				continue next
			}
		}
		return B
	}
	return nil
}

func mix(s abstract.Suite, l []abstract.Point, a []int64) abstract.Point {
	p := s.Point().Mul(nil, s.Secret().Pick(random.Stream))
	for j := range l {
		p.Add(p, s.Point().Mul(l[j], s.Secret().SetInt64(a[j])))
	}
	return p
}

func isUnit(rows [][]int) bool {
	seen := map[int]bool{}
	for _, r := range rows {
		at, cnt := -1, 0
		for j, x := range r {
			if x == 1 {
				at = j
				cnt++
			} else if x != 0 {
				return false
			}
		}
		if cnt != 1 || seen[at] {
			return false
		}
		seen[at] = true
	}
	return true
}

func isInvertible(rows [][]int) bool {
	s := suite.Get()
	A := make([][]int64, len(rows))
	for i := range rows {
		for _, x := range rows[i] {
			A[i] = append(A[i], int64(x))
		}
	}
	pts := permPoints(s, len(rows))
	f, _ := shuffle.Linear(s, pts[0], pts, pts, A, s.Cipher(abstract.RandomKey))
	return f != nil
}

func (u *unitServer) garble(prf []byte, k int, X, Y []abstract.Point, pk abstract.Point) ([]byte, string) {
	b := append([]byte{}, prf...)
	switch {
	case k == 1:
		return nil, "no bytes"
	case k == 2:
		return b[:u.rng.Intn(len(b))], "cut"
	case k == 3:
		rand := u.s.Cipher(abstract.RandomKey)
		xb, yb, pr, _, _ := shuffle.Shuffle(u.s, nil, pk, X, Y, rand)
		o, err := proof.HashProve(u.s, shuffleName(u.s, pk, X, Y, xb, yb), rand, pr)
		if err != nil {
			panic(err)
		}
		return o, "of another shuffle"
	case k == 4:
		return make([]byte, len(b)), "zeros"
	default:
		// one element of the transcript is replaced by another of its kind: 64 bytes each
		i := u.rng.Intn(len(b) / 64)
		j := u.rng.Intn(len(b) / 64)
		for string(b[i*64:i*64+64]) == string(b[j*64:j*64+64]) {
			i, j = u.rng.Intn(len(b)/64), u.rng.Intn(len(b)/64)
		}
		if k%2 == 0 {
			copy(b[i*64:i*64+64], b[j*64:j*64+64])
			return b, fmt.Sprint("element ", i, " overwritten")
		}
		b[i*64+1+u.rng.Intn(63)] ^= byte(1 + u.rng.Intn(255))
		return b, fmt.Sprint("element ", i, " changed")
	}
}

// ---------------------------------------------------------------------------

// runFresh drives the server through rounds with inputs chosen so that equal
// or small exponents would show
// seenBy gives what a server is sent with the table m
func seenBy(m *tableMsg) obj {
	return obj{"keys": util.ProtobufEncodePointList(m.keys), "vals": util.ProtobufEncodePointList(m.vals),
		"GT": util.EncodePoint(m.GT), "HT": util.EncodePoint(m.HT)}
}

func (u *unitServer) runFresh(v *Vector) (string, obj) {
	g := u.g()
	if r := u.setup(g); r != "" {
		return r, nil
	}
	s := u.s
	seen := []obj{}
	note := func(what string, p abstract.Point) {
		seen = append(seen, obj{"what": what, "v": hexOf(p)})
	}
	note("key", u.pk)
	note("h", u.hOut)
	bad := ""
	n := v.N
	var logs []abstract.Secret
	for i := 0; i < n; i++ {
		logs = append(logs, u.secret())
	}
	for r := 0; r < v.Rounds && bad == ""; r++ {
		m := &tableMsg{GT: g, HT: g}
		vl := make([]abstract.Secret, n)
		for i := range logs {
			m.keys = append(m.keys, s.Point().Mul(nil, logs[i]))
			vl[i] = logs[(i+1)%n]
			m.vals = append(m.vals, s.Point().Mul(nil, vl[i]))
		}
		a := u.pass("ANN", m)
		if a == nil {
			return "no table", nil
		}
		perm, b := u.follow(m, a, func(k abstract.Point) abstract.Point {
			for i := range m.keys {
				if m.keys[i].Equal(k) {
					return s.Point().Mul(a.g, logs[i])
				}
			}
			return k
		}, vl)
		if b != "" {
			return b, nil
		}
		if !a.GT.Equal(a.HT) {
			return "two exponents for the two bases", nil
		}
		note(fmt.Sprint("g", r), a.g)
		note(fmt.Sprint("E", r), a.GT)
		x := util.ProtobufDecodePointList(byteOf(a.ev, "xbar"))
		y := util.ProtobufDecodePointList(byteOf(a.ev, "ybar"))
		for i := range x {
			note(fmt.Sprint("xb", r, ".", i), x[i])
			note(fmt.Sprint("yb", r, ".", i), y[i])
			if y[i].Equal(a.keys[i]) {
				return "shuffled without blinding", nil
			}
		}
		e := &tableMsg{GT: g, HT: g, extra: obj{"is_start": true}}
		el := make([]abstract.Secret, n)
		back := map[string]abstract.Point{}
		for i, k := range a.keys {
			e.keys = append(e.keys, k)
			el[i] = logs[(i+2)%n]
			e.vals = append(e.vals, s.Point().Mul(nil, el[i]))
			back[k.String()] = m.keys[perm[i]]
		}
		b2 := u.pass("RE", e)
		if b2 == nil {
			return "no table at the end", nil
		}
		if _, b := u.follow(e, b2, func(k abstract.Point) abstract.Point { return back[k.String()] }, el); b != "" {
			return b, nil
		}
		note(fmt.Sprint("D", r), b2.GT)
		if !b2.GT.Equal(b2.HT) {
			return "two exponents for the two bases", nil
		}
		// the very same table over and over: nothing of it may decide the exponent
		if v.Flag {
			b3 := u.pass("RE", &tableMsg{GT: g, HT: g, extra: obj{"is_start": true}})
			if b3 != nil && b3.bad == "" {
				note(fmt.Sprint("D0.", r), b3.GT)
			}
		}
		// nor may a digest of any part of what everybody sees
		for _, x := range []struct {
			w       string
			in, out obj
			p       abstract.Point
		}{{"E", seenBy(m), a.ev.Params, a.GT}, {"g", seenBy(m), a.ev.Params, a.g}, {"D", seenBy(e), b2.ev.Params, b2.GT}} {
			for _, ps := range []obj{x.in, x.out} {
				for k, val := range ps {
					if y, ok := val.([]byte); ok {
						if s.Point().Mul(g, s.Secret().Pick(s.Cipher(y))).Equal(x.p) {
							return "exponent " + x.w + " is a digest of " + k, nil
						}
					}
				}
			}
		}
	}
	small := u.small()
	vals := map[string]string{}
	for _, o := range seen {
		k := o["v"].(string)
		if small[k] {
			return "small exponent " + o["what"].(string), obj{"seen": seen}
		}
		if vals[k] != "" {
			return "repeated exponent " + vals[k] + " " + o["what"].(string), obj{"seen": seen}
		}
		vals[k] = o["what"].(string)
	}
	if bad == "" {
		bad = u.related(seen, small, "g", "E", "D", "D0.")
	}
	if bad == "" {
		bad = "fresh"
	}
	return bad, obj{"seen": seen}
}

// runChain gives the server what it gave before: its key, its generators of
// earlier rounds and of this one. Whatever comes out has to be new: a secret
// that follows from others by factors, squares or inverses would show.
func (u *unitServer) runChain(v *Vector) (string, obj) {
	g := u.g()
	if r := u.setup(g); r != "" {
		return r, nil
	}
	s := u.s
	seen := []obj{}
	known := []abstract.Point{u.pk, u.hOut}
	note := func(what string, p abstract.Point) {
		seen = append(seen, obj{"what": what, "v": hexOf(p)})
	}
	note("key", u.pk)
	note("h", u.hOut)
	for r := 0; r < v.Rounds; r++ {
		m := &tableMsg{GT: g, HT: g}
		for i := 0; i < 2; i++ {
			m.keys = append(m.keys, s.Point().Mul(nil, u.secret()))
			m.vals = append(m.vals, s.Point().Mul(nil, u.secret()))
		}
		a := u.pass("ANN", m)
		if a == nil || a.bad != "" {
			return "no table", nil
		}
		note(fmt.Sprint("g", r), a.g)
		note(fmt.Sprint("E", r), a.GT)
		known = append(known, a.g, a.GT)
		// a second table in the same round
		e := &tableMsg{GT: g, HT: g, extra: obj{"is_start": true}}
		e.keys, e.vals = a.keys, a.vals
		m2 := &tableMsg{GT: g, HT: g, keys: known, vals: known}
		if b := u.pass("ANN", m2); b != nil && b.bad == "" && len(b.keys) == len(known) {
			for i, k := range b.keys {
				note(fmt.Sprint("m", r, ".", i), k)
			}
			note(fmt.Sprint("E", r, "'"), b.GT)
			e.keys, e.vals = b.keys, b.vals
		}
		c := u.pass("RE", e)
		if c == nil || c.bad != "" {
			return "no table at the end", nil
		}
		note(fmt.Sprint("D", r), c.GT)
		known = append(known, c.GT)
	}
	small := u.small()
	vals := map[string]string{}
	for _, o := range seen {
		k := o["v"].(string)
		if small[k] || vals[k] != "" {
			return "exponents follow from one another: " + vals[k] + " " + o["what"].(string), obj{"seen": seen}
		}
		vals[k] = o["what"].(string)
	}
	return "fresh", obj{"seen": seen}
}

// related finds two exponents of which one gives the other away: a small
// difference, sum or factor, or the same step from round to round
func (u *unitServer) related(seen []obj, small map[string]bool, sorts ...string) string {
	P := new(big.Int).Add(new(big.Int).Lsh(u.s.Secret().(*nist.Int).M, 1), big.NewInt(1))
	type ex struct {
		what   string
		x, inv *big.Int
	}
	var l []ex
	for _, o := range seen {
		w := o["what"].(string)
		if w[0] == 'x' || w[0] == 'y' {
			continue
		}
		x, _ := new(big.Int).SetString(o["v"].(string), 16)
		l = append(l, ex{w, x, new(big.Int).ModInverse(x, P)})
	}
	mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, b), P) }
	where := map[string]string{}
	for _, a := range l {
		where[a.x.Text(16)] = a.what
	}
	for i, a := range l {
		c, d := a.x, a.inv
		for k := 2; k <= 64; k++ {
			c, d = mul(c, a.x), mul(d, a.inv)
			for _, y := range []*big.Int{c, d} {
				if w := where[y.Text(16)]; w != "" {
					return fmt.Sprint("exponent ", w, " is a multiple of ", a.what)
				}
			}
		}
		for _, b := range l[:i] {
			if small[mul(a.x, b.inv).Text(16)] {
				return "exponents close together " + b.what + " " + a.what
			}
			if small[mul(a.x, b.x).Text(16)] {
				return "exponents opposite " + b.what + " " + a.what
			}
		}
	}
	// steps between any two of the same sort, and over at most three rounds
	for _, sort := range sorts {
		var q []ex
		for _, a := range l {
			if strings.TrimRight(a.what, "0123456789") == sort || sort == "D0." && strings.HasPrefix(a.what, sort) {
				q = append(q, a)
			}
		}
		steps := map[string]string{}
		for i := range q {
			for j := i - 3; j < i; j++ {
				if j >= 0 {
					k := mul(q[i].x, q[j].inv).Text(16)
					if steps[k] != "" {
						return "the step " + steps[k] + " again: " + q[j].what + " to " + q[i].what
					}
					steps[k] = q[j].what + " to " + q[i].what
				}
			}
		}
	}
	return ""
}

func hexOf(p abstract.Point) string { return util.PointToBigInt(p).Text(16) }

var smallOnce sync.Once
var smallTab map[string]bool

// small holds the powers of the base that guessing would find
func (u *unitServer) small() map[string]bool {
	smallOnce.Do(func() {
		smallTab = map[string]bool{}
		P := new(big.Int).Add(new(big.Int).Lsh(u.s.Secret().(*nist.Int).M, 1), big.NewInt(1))
		b := util.PointToBigInt(u.g())
		inv := new(big.Int).ModInverse(b, P)
		x, y := big.NewInt(1), big.NewInt(1)
		for i := 0; i <= 70000; i++ {
			smallTab[x.Text(16)] = true
			smallTab[y.Text(16)] = true
			x = new(big.Int).Mod(new(big.Int).Mul(x, b), P)
			y = new(big.Int).Mod(new(big.Int).Mul(y, inv), P)
		}
	})
	return smallTab
}

// runPerm announces and ends many times and looks at the orders drawn
func (u *unitServer) runPerm(v *Vector) (string, obj) {
	g := u.g()
	if r := u.setup(g); r != "" {
		return r, nil
	}
	s := u.s
	n := v.N
	drawn := map[string][][]int{}
	var logs []abstract.Secret
	m := &tableMsg{GT: g, HT: g}
	for i := 0; i < n; i++ {
		logs = append(logs, u.secret())
		m.keys = append(m.keys, s.Point().Mul(nil, logs[i]))
		m.vals = append(m.vals, s.Point().Mul(nil, logs[i]))
	}
	for r := 0; r < v.Rounds; r++ {
		a := u.pass("ANN", m)
		if a == nil {
			return "no table", nil
		}
		pa, b := u.follow(m, a, func(k abstract.Point) abstract.Point {
			for i := range m.keys {
				if m.keys[i].Equal(k) {
					return s.Point().Mul(a.g, logs[i])
				}
			}
			return k
		}, logs)
		if b != "" {
			return b, nil
		}
		drawn["ANN"] = append(drawn["ANN"], pa)
		e := &tableMsg{GT: g, HT: g, extra: obj{"is_start": true}}
		el := make([]abstract.Secret, n)
		back := map[string]abstract.Point{}
		// handed over in a fixed order of the members, so that the two orders are independent
		order := make([]int, n)
		for i := range pa {
			order[pa[i]] = i
		}
		for j, i := range order {
			e.keys = append(e.keys, a.keys[i])
			el[j] = logs[j]
			e.vals = append(e.vals, s.Point().Mul(nil, el[j]))
			back[a.keys[i].String()] = m.keys[j]
		}
		o := u.pass("RE", e)
		if o == nil {
			return "no table at the end", nil
		}
		pe, b := u.follow(e, o, func(k abstract.Point) abstract.Point { return back[k.String()] }, el)
		if b != "" {
			return b, nil
		}
		drawn["RE"] = append(drawn["RE"], pe)
	}
	return "drawn", obj{"ANN": drawn["ANN"], "RE": drawn["RE"]}
}

// runSign has the server sign and returns the nonces' commitments
func (u *unitServer) runSign(v *Vector) (string, obj) {
	if r := u.setup(u.g()); r != "" {
		return r, nil
	}
	s := u.s
	b := fixedFO(s)
	c := &emuClient{w: u.w, name: "E", rep: bridge.StartingCredit}
	u.w.nodes["E"] = &node{name: "E", kind: 'E', al: u.coo}
	c.sk = u.secret()
	c.G = s.Point().Mul(nil, u.secret())
	c.nym = s.Point().Mul(c.G, c.sk)
	c.fo = b
	c.R = u.secret()
	c.pb = pedersenBase(s, s.Point().Mul(nil, u.secret()), s.Point().Mul(nil, u.secret()))
	c.pc = c.pb.CommitWithR(s.Secret().SetInt64(int64(c.rep)), c.R)
	fin := obj{"g": util.EncodePoint(c.G), "GT": util.EncodePoint(c.pb.GT), "HT": util.EncodePoint(c.pb.HT),
		"keys": util.ProtobufEncodePointList([]abstract.Point{c.nym}), "vals": util.ProtobufEncodePointList([]abstract.Point{c.pc})}
	u.tell(u.coo, proto.ANNOUNCEMENT_FINALIZE, fin)
	u.coo.take()
	ts := []string{}
	for i := 0; i < v.Rounds; i++ {
		var as []bridge.Assignment
		for j := 0; j <= i%3; j++ {
			as = append(as, bridge.Assignment{NymR: c.nym, Addr: fmt.Sprint("b", i, ".", j, strings.Repeat("x", u.rng.Intn(40))), Nym: s.Point().Mul(nil, u.secret())})
		}
		p := c.request(i % 6)
		p["assignments"] = bridge.EncodeAssignmentList(as)
		if u.tell(u.coo, proto.SIGN_ASSIGNMENTS, p) != nil {
			return "stopped", nil
		}
		evs := gather(u.coo, 1, u.lim, u.n.isDead)
		if len(evs) != 1 || evs[0].Params["success"] != true {
			return "not signed", nil
		}
		bad := ""
		if e := safely(func() {
			sigs := util.Decode2DByteArray(byteOf(evs[0], "signatures"))
			if len(sigs) != len(as) {
				bad = "wrong number of signatures"
				return
			}
			for j, sg := range sigs {
				msg := bridge.EncodeAssignment(&as[j])
				if util.ElGamalVerify(s, msg, u.pk, sg, nil) != nil {
					bad = "wrong signature"
					return
				}
				cc, r := readSig(s, sg)
				ts = append(ts, hexOf(s.Point().Add(s.Point().Mul(nil, r), s.Point().Mul(u.pk, cc))))
			}
		}); e != nil || bad != "" {
			return bad + fmt.Sprint(e), nil
		}
	}
	sm := u.small()
	seen := map[string]bool{}
	for _, t := range ts {
		if seen[t] {
			return "nonce used twice", nil
		}
		if sm[t] {
			return "small nonce", nil
		}
		seen[t] = true
	}
	l := []obj{{"what": "key", "v": hexOf(u.pk)}, {"what": "h", "v": hexOf(u.hOut)}}
	for i, t := range ts {
		l = append(l, obj{"what": fmt.Sprint("nonce", i), "v": t})
	}
	if bad := u.related(l, sm, "nonce"); bad != "" {
		return bad, obj{"seen": ts}
	}
	sort.Strings(ts)
	return "fresh", obj{"seen": ts}
}
