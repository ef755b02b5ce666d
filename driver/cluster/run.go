package cluster

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"zrepv/ref/proto"
)

// Scenario is a behaviour of the specification
type Scenario struct {
	ID  string `json:"id"`
	Pre []obj  `json:"pre"`
	Ev  []obj  `json:"ev"`
	// Seed drives the concrete variants; Suffix appends the closing probe
	Seed   int64 `json:"seed"`
	Suffix int   `json:"suffix"`
}

// Record is one step as it was observed
type Record struct {
	Ev    obj      `json:"ev"`
	Outs  []obj    `json:"outs"`
	Crash []string `json:"crash"`
	Rep   []int    `json:"rep"` // what a client says its reputation is, if it does
	Note  string   `json:"note,omitempty"`
}

var repLine = regexp.MustCompile(`(?i)reputation[^0-9\n-]*(-?[0-9]+)\s`)

// saidRep waits for a line about the reputation among what a client prints from a position on
func saidRep(n *node, from int) []int {
	for i := 0; i < 40; i++ {
		if t := n.tail.since(from); t != "" {
			if m := repLine.FindAllStringSubmatch(t, -1); m != nil {
				if v, err := strconv.Atoi(m[len(m)-1][1]); err == nil {
					return []int{v}
				}
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
	return []int{}
}

// Trace is what the real nodes did
type Trace struct {
	ID    string            `json:"id"`
	Ev    []*Record         `json:"ev"`
	Fault string            `json:"fault,omitempty"`
	Logs  map[string]string `json:"logs,omitempty"`
	Secs  float64           `json:"secs"`
	// what real nodes drew at random, by kind
	Drawn map[string][]string `json:"drawn,omitempty"`
}

// World is one running cluster
type World struct {
	bin, root string
	nodes     map[string]*node
	servers   []string // in the order in which they were started
	chain     []string // in the order in which they were accepted
	ob        *observer
	rng       *rand.Rand
	slow      bool
	chans     map[[2]string][]*message
	sent      []*message // replayable messages
	gotcs     []*message // certificates sent to clients
	tr        *Trace
	emu       map[string]*emuClient
	emuSrv    map[string]*emuServer
	mini      mini
	fresh     string // the client that was just started
	swallow   string
	swallowed bool
	inbox     []*message
	crashed   map[string]bool
	real      map[string]*realClient
	tok       int
	late      []*message // main-loop messages seen outside main steps
	pendKeys  []pendKey
	open      []net.Conn
	forced    int
	stop      bool
	hole      bool              // a client is gone in a way that connecting to it takes long
	broken    bool              // the last connection to the coordinator was broken off
	taken     map[string]bool   // addresses that nodes have had
	addrs     map[string]string // bridge of the specification -> address that is posted
	bridges   map[string]string // and back
}

type pendKey struct{ pk, from string }

type realClient struct {
	up, on bool
	asg    int
}

// mini follows just enough of the coordinator to know when its main loop moves
type mini struct {
	pcs, status string
	upd         bool
	srv         int
	reg         int
	keys        map[string]bool
	pending     []string
}

func (m *mini) expectMain() bool {
	return m.pcs == "cfgreq" && !m.upd || m.pcs == "ready" || m.pcs == "endreq" && m.reg == 0
}

var slowLimit = 25 * time.Second

func (w *World) limit() time.Duration {
	if w.slow || w.hole {
		return slowLimit
	}
	return 12 * time.Second
}

// Run executes one scenario
func Run(bin, tmp string, sc *Scenario, slow bool) (tr *Trace) {
	tr = &Trace{ID: sc.ID}
	t0 := time.Now()
	root, err := os.MkdirTemp(tmp, "zr")
	if err != nil {
		tr.Fault = err.Error()
		return
	}
	w := &World{bin: bin, root: root, nodes: map[string]*node{}, rng: rand.New(rand.NewSource(sc.Seed)), slow: slow,
		chans: map[[2]string][]*message{}, tr: tr, emu: map[string]*emuClient{}, crashed: map[string]bool{}, real: map[string]*realClient{},
		emuSrv: map[string]*emuServer{}, addrs: map[string]string{}, bridges: map[string]string{}}
	w.mini = mini{pcs: "config", status: "config", keys: map[string]bool{}}
	w.ob = newObserver(w)
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(Fault); ok {
				tr.Fault = f.msg
			} else {
				tr.Fault = fmt.Sprint("driver: ", e, stack())
			}
		}
		tr.Logs = map[string]string{}
		for k, n := range w.nodes {
			if n.tail != nil {
				tr.Logs[k] = n.tail.String()
			}
			n.kill()
			n.al.close()
		}
		for _, c := range w.open {
			c.Close()
		}
		os.RemoveAll(root)
		tr.Secs = time.Since(t0).Seconds()
	}()
	w.startCoord()
	for _, e := range sc.Pre {
		w.do(e)
	}
	for _, e := range sc.Ev {
		w.do(e)
	}
	if sc.Suffix > 0 {
		w.suffix(sc.Suffix)
	}
	return
}

func stack() string {
	return strings.Replace(string(debugStack()), "\n", " | ", -1)
}

func (w *World) newNode(name string, kind byte) *node {
	var a *alias
	err := error(nil)
	if kind != 'C' && w.rng != nil && w.rng.Intn(2) == 0 {
		a = w.aliasNear()
	}
	// an address is that of one node for ever, even when that node is gone
	for a == nil || w.taken[a.addr] {
		if a != nil {
			defer a.close()
		}
		if a, err = newAlias(); err != nil {
			panic(Fault{err.Error()})
		}
	}
	if w.taken == nil {
		w.taken = map[string]bool{}
	}
	w.taken[a.addr] = true
	n := &node{name: name, kind: kind, al: a, pull: w.pull}
	w.nodes[name] = n
	return n
}

func (w *World) startCoord() {
	n := w.newNode("C", 'C')
	for try := 0; ; try++ {
		n.block = portBlock()
		n.port = n.block
		n.real = fmt.Sprintf("127.0.0.1:%d", n.port)
		if err := n.start(w.bin, "coordinator", w.root, n.port, "127.0.0.1:1"); err != nil {
			panic(Fault{err.Error()})
		}
		if err := waitListen(n.port, n, 60*time.Second); err == nil {
			return
		}
		if strings.Contains(n.tail.String(), "address already in use") && try < 5 {
			n.kill()
			continue
		}
		panic(Fault{"coordinator did not start: " + n.tail.String()})
	}
}

// ---------------------------------------------------------------------------

func str(e obj, k string) string { s, _ := e[k].(string); return s }
func num(e obj, k string) int {
	switch x := e[k].(type) {
	case float64:
		return int(x)
	case int:
		return x
	}
	return 0
}

// do takes one event of a scenario
func (w *World) do(e obj) {
	if w.stop {
		return
	}
	switch str(e, "a") {
	case "drain":
		w.drain()
	case "main": // happens by itself
	default:
		w.step(e)
	}
}

func (w *World) drain() {
	for i := 0; i < 400 && !w.stop; i++ {
		if len(w.chans) == 0 {
			return
		}
		var ks [][2]string
		for k := range w.chans {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i][0]+"/"+ks[i][1] < ks[j][0]+"/"+ks[j][1] })
		k := ks[w.rng.Intn(len(ks))]
		w.step(obj{"a": "dlv", "f": k[0], "t": k[1]})
	}
}

func (w *World) pop(f, t string) *message {
	k := [2]string{f, t}
	q := w.chans[k]
	if len(q) == 0 {
		return nil
	}
	if len(q) == 1 {
		delete(w.chans, k)
	} else {
		w.chans[k] = q[1:]
	}
	return q[0]
}

func (w *World) put(m *message) {
	if n := w.nodes[m.to]; n == nil || n.gone {
		return
	}
	k := [2]string{m.from, m.to}
	w.chans[k] = append(w.chans[k], m)
}

var replayable = map[string]bool{"CREG": true, "CHAL": true, "POST": true, "REQ": true, "VOTE": true, "GOT": true}

// live registered clients, the ones that broadcasts reach
func (w *World) live() (ks []string) {
	for k, n := range w.nodes {
		if (n.kind == 'K' || n.kind == 'E') && !n.gone && !w.crashed[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

func isReal(k string) bool { return k == "K" || k == "L" || k == "M" }

func (w *World) step(e obj) {
	rec := &Record{Ev: e, Outs: []obj{}, Crash: []string{}, Rep: []int{}}
	var outs []*message
	var cause *message
	a := str(e, "a")
	switch a {
	case "srv":
		i := str(e, "i")
		if w.nodes[i] != nil {
			return
		}
		n := w.newNode(i, 'S')
		if played, _ := e["emu"].(bool); played {
			rec.Ev = obj{"a": "srv", "i": i}
			w.servers = append(w.servers, i)
			outs = w.newEmuServer(i)
			break
		}
		n.block = portBlock()
		if err := n.start(w.bin, "server", w.root, n.block, w.nodes["C"].al.addr); err != nil {
			panic(Fault{err.Error()})
		}
		w.servers = append(w.servers, i)
		outs = w.await(func(m *message) bool { return m.kind == "SREG" && m.from == i }, 20*time.Second)
		if n.port == 0 {
			if n.waitDead(100 * time.Millisecond) {
				break // reported as a crash
			}
			rec.Note = "no registration"
		}
	case "cli":
		k := str(e, "k")
		if n := w.nodes[k]; n != nil && n.kind == 'A' {
			n.kind = 'E' // the adversary's address was used before
			outs = w.newEmu(k)
			break
		}
		if w.nodes[k] != nil || k == "" {
			return
		}
		if isReal(k) {
			n := w.newNode(k, 'K')
			w.real[k] = &realClient{}
			w.fresh = k
			if err := n.start(w.bin, "client", w.root, 1, w.nodes["C"].al.addr); err != nil {
				panic(Fault{err.Error()})
			}
			outs = w.await(func(m *message) bool { return m.kind == "CREG" && m.from == k }, 20*time.Second)
			w.fresh = ""
			if n.port == 0 {
				rec.Note = "no registration"
			}
		} else {
			w.newNode(k, 'E')
			outs = w.newEmu(k)
		}
	case "enter":
		m := &w.mini
		switch {
		case m.pcs == "config" && m.srv > 0:
			m.pcs = "cfgreq"
		case m.pcs == "post" && m.status == "message":
			m.pcs = "vote"
		case m.pcs == "vote" && m.status == "message":
			m.pcs = "endreq"
		default:
			return
		}
		outs = w.enter()
	case "dlv":
		f, t := str(e, "f"), str(e, "t")
		k := [2]string{f, t}
		if len(w.chans[k]) == 0 || w.nodes[t] == nil || w.crashed[t] {
			return
		}
		cause = w.pop(f, t)
		outs = w.deliver(cause, rec)
	case "post", "get", "vote":
		k := str(e, "k")
		n := w.nodes[k]
		if n == nil || n.gone || w.crashed[k] {
			return
		}
		if n.kind == 'K' {
			rc := w.real[k]
			if !rc.up || a == "vote" && num(e, "j") > rc.asg {
				return
			}
			cmd := ""
			switch a {
			case "post":
				b := w.addrOf(str(e, "b"), true)
				if !typable(b) {
					return // nothing that the console takes
				}
				cmd = "post " + b
			case "get":
				cmd = fmt.Sprintf("get %d", num(e, "n"))
			case "vote":
				cmd = fmt.Sprintf("vote %d %d", num(e, "j")-1, num(e, "v"))
			}
			outs = w.command(n, cmd)
		} else {
			c := w.emu[k]
			if !c.up || a == "vote" && num(e, "j") > len(c.asg) {
				return
			}
			outs = c.command(a, e)
		}
	case "inj":
		m, ev := w.inject(e)
		if m == nil {
			return
		}
		rec.Ev = ev
		w.put(m)
		if ch := [2]string{m.from, m.to}; ev["front"] == true && len(w.chans[ch]) > 0 {
			q := w.chans[ch]
			w.chans[ch] = append([]*message{m}, q[:len(q)-1]...)
		}
	case "replay":
		i := num(e, "n")
		if i < 1 || i > len(w.sent) {
			return
		}
		w.put(w.sent[i-1])
	case "gone":
		k := str(e, "k")
		n := w.nodes[k]
		if n == nil || n.gone || w.crashed[k] || !strings.Contains("KE", string(n.kind)) {
			return
		}
		left := 0
		for _, x := range w.live() {
			if x != k && w.registered(x) {
				left++
			}
		}
		if left == 0 {
			return
		}
		n.kill()
		if hole, _ := e["hole"].(bool); hole {
			// it does not even refuse connections
			n.al.plug()
			w.hole = true
		} else if mute, _ := e["mute"].(bool); mute {
			// it takes connections and reads nothing
			n.al.mute = true
			w.hole = true
		} else {
			n.al.close()
		}
		n.gone = true
		for c := range w.chans {
			if c[1] == k {
				delete(w.chans, c)
			}
		}
	default:
		return
	}
	if w.slow && a == "dlv" {
		time.Sleep(25 * time.Millisecond)
		outs = append(outs, w.sweep()...)
	}
	w.finish(rec, outs, cause, a)
	w.mainSteps()
}

func (w *World) registered(k string) bool {
	if rc := w.real[k]; rc != nil {
		return rc.on
	}
	if c := w.emu[k]; c != nil {
		return c.on
	}
	return false
}

// which messages belong to the coordinator's main loop
func mainKind(m *message) bool {
	if m.from != "C" {
		return false
	}
	switch m.kind {
	case "BCH", "ANN", "RDIFF":
		return true
	case "RE":
		return true
	}
	return false
}

func (w *World) finish(rec *Record, outs []*message, cause *message, a string) {
	var mine []*message
	for _, m := range outs {
		if mainKind(m) && a != "main" {
			w.late = append(w.late, m)
		} else {
			mine = append(mine, m)
		}
	}
	w.ob.learn(mine)
	for _, m := range mine {
		rec.Outs = append(rec.Outs, obj{"f": m.from, "t": m.to, "m": w.ob.view(m, cause)})
	}
	for _, m := range mine {
		if a != "inj" && m.to == "C" && replayable[m.kind] && m.kind != "CREG0" {
			w.sent = append(w.sent, m)
		}
		if m.kind == "GOTC" && a != "inj" {
			w.gotcs = append(w.gotcs, m)
		}
		if m.kind == "SIGN" {
			w.ob.grants = append(w.ob.grants, m)
		}
		w.put(m)
	}
	for k, n := range w.nodes {
		if n.isDead() && !n.killed && !w.crashed[k] {
			w.crashed[k] = true
			rec.Crash = append(rec.Crash, k)
		}
	}
	sort.Strings(rec.Crash)
	w.tr.Ev = append(w.tr.Ev, rec)
	if w.crashed["C"] {
		w.stop = true
	}
}

func (w *World) crash(rec *Record, k string) {
	if !w.crashed[k] {
		w.crashed[k] = true
		rec.Crash = append(rec.Crash, k)
	}
}

// mainSteps records what the main loop does by itself after a step
func (w *World) mainSteps() {
	for n := 0; n < 4 && !w.stop; n++ {
		exp := w.mini.expectMain()
		if !exp && len(w.late) == 0 {
			return
		}
		rec := &Record{Ev: obj{"a": "main"}, Outs: []obj{}, Crash: []string{}, Rep: []int{}}
		outs := w.late
		w.late = nil
		if exp {
			key := "ANN"
			if w.mini.pcs == "endreq" {
				key = "RE"
			}
			seen := func(m *message) bool { return m.from == "C" && m.kind == key }
			have := false
			for _, m := range outs {
				have = have || seen(m)
			}
			if !have {
				lim := 6 * time.Second
				if w.slow || w.hole {
					lim = 20 * time.Second
				}
				got := w.await(seen, lim)
				outs = append(outs, got...)
			}
			c := w.nodes["C"]
			for i := 0; i < 2; i++ {
				if err := c.fence(w.limit()); err != nil {
					w.crash(rec, "C")
					break
				}
			}
			outs = append(outs, w.sweep()...)
		}
		w.mini.main()
		w.finish(rec, outs, nil, "main")
	}
}

func (m *mini) main() {
	switch {
	case m.pcs == "endreq":
		m.pcs, m.status = "ending", "ending"
	case m.pcs == "cfgreq" || m.pcs == "ready":
		m.pcs, m.status = "post", "announce"
	}
}

// ---------------------------------------------------------------------------
// taking messages in

// pull takes in what waits at the aliases, for the next sweep
func (w *World) pull() {
	for _, n := range w.nodes {
		if !n.gone {
			n.al.stash = n.al.take()
		}
	}
}

// sweep returns what arrived at the aliases
func (w *World) sweep() (ms []*message) {
	var names []string
	for k := range w.nodes {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, t := range names {
		n := w.nodes[t]
		if n.gone {
			continue
		}
		for _, raw := range n.al.take() {
			if m := w.classify(raw, t); m != nil {
				ms = append(ms, m)
			}
		}
	}
	return
}

func (w *World) classify(raw []byte, to string) *message {
	ev, err := decodeEvent(raw)
	if err != nil {
		if len(raw) == 0 {
			return nil
		}
		return &message{from: "?", to: to, kind: "GARBLED", raw: raw, ev: &proto.Event{Params: obj{}}}
	}
	src := ev.SrcAddr
	from := "?"
	if n := w.byReal(src); n != nil {
		from = n.name
	} else if w.fresh != "" {
		n := w.nodes[w.fresh]
		_, p, _ := net.SplitHostPort(src)
		if n.port == 0 {
			fmt.Sscan(p, &n.port)
			n.real = "127.0.0.1:" + p
			from = w.fresh
		}
	}
	m := &message{from: from, to: to, ev: ev}
	m.kind = kindOf(ev, from == "C", w.isClient(to), to == "C")
	if w.swallow != "" && m.kind == "POST" && m.ev.Params["bridge_addr"] == w.swallow {
		w.swallowed = true
		return nil
	}
	if from != "?" {
		w.rewrite(ev, from)
		if n := w.nodes[from]; n.kind == 'S' && n.port == 0 {
			_, p, _ := net.SplitHostPort(src)
			fmt.Sscan(p, &n.port)
			n.real = fmt.Sprintf("127.0.0.1:%d", n.port)
		}
	}
	m.raw = encodeEvent(ev)
	return m
}

func (w *World) isClient(k string) bool {
	n := w.nodes[k]
	return n != nil && (n.kind == 'K' || n.kind == 'E')
}

// await collects messages until one that is looked for arrives
func (w *World) await(f func(*message) bool, d time.Duration) (ms []*message) {
	end := time.Now().Add(d)
	for {
		got := w.sweep()
		ms = append(ms, got...)
		for _, m := range got {
			if f(m) {
				return
			}
		}
		if time.Now().After(end) || w.nodes["C"].isDead() {
			ms = append(ms, w.sweep()...)
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// ---------------------------------------------------------------------------
// steps of the real nodes

func (w *World) enter() (ms []*message) {
	c := w.nodes["C"]
	c.stdin.Write([]byte("\n"))
	end := time.Now().Add(w.limit())
	for unread(c.stdinR) > 0 && time.Now().Before(end) && !c.isDead() {
		time.Sleep(2 * time.Millisecond)
	}
	if w.mini.pcs == "vote" {
		n := 0
		for _, k := range w.live() {
			if w.registered(k) {
				n++
			}
		}
		if n > 0 {
			got := 0
			lim := 3 * time.Second
			if w.hole {
				lim = 15 * time.Second
			}
			ms = w.await(func(m *message) bool {
				if m.kind == "VSTART" {
					got++
				}
				return got == n
			}, lim)
		} else {
			time.Sleep(20 * time.Millisecond)
		}
	}
	for i := 0; i < 2; i++ {
		c.fence(w.limit())
	}
	return append(ms, w.sweep()...)
}

func (w *World) command(n *node, cmd string) []*message {
	w.tok++
	w.swallow, w.swallowed = fmt.Sprintf("fence%d", w.tok), false
	fmt.Fprintf(n.stdin, "%s\npost %s\n", cmd, w.swallow)
	var ms []*message
	end := time.Now().Add(w.limit())
	for !w.swallowed && time.Now().Before(end) && !n.waitDead(0) {
		ms = append(ms, w.sweep()...)
		if !w.swallowed {
			time.Sleep(2 * time.Millisecond)
		}
	}
	ms = append(ms, w.sweep()...)
	if !w.swallowed && !n.isDead() {
		// a client that no longer reads its console
		n.kill()
		n.killed = false
	}
	w.swallow = ""
	return ms
}

func (w *World) deliver(m *message, rec *Record) (outs []*message) {
	n := w.nodes[m.to]
	w.ob.delivered(m)
	if n.kind == 'A' {
		return
	}
	if n.kind == 'E' {
		return w.emu[m.to].handle(m)
	}
	if x := w.emuSrv[m.to]; x != nil {
		return x.handle(m)
	}
	w.miniBefore(m)
	printed := n.tail.total()
	var err error
	if m.kind == "INJ" && m.ev == nil {
		err = w.rawDeliver(n, m)
	} else {
		err = dialSend(n.real, m.raw, 5*time.Second)
	}
	broken := m.kind == "INJ" && m.ev == nil && (m.note == "conn abort" || m.note == "conn abort late" || m.note == "conn silent" || m.note == "conn drip")
	if err == nil && broken && !w.broken {
		// nothing comes between this connection and the next message
		err = n.waitQueue(w.limit())
	} else if err == nil {
		err = n.fence(w.limit())
		broken = false
	}
	if n.kind == 'C' {
		w.broken = broken
	}
	if err != nil {
		rec.Note = err.Error()
		var op *net.OpError
		dial := errors.As(err, &op) && op.Op == "dial"
		if died := n.waitDead(500 * time.Millisecond); err == errHang || dial && !died {
			w.crash(rec, m.to)
		}
	}
	if rc := w.real[m.to]; rc != nil {
		if (m.kind == "FIN" || m.kind == "REC") && !n.isDead() {
			rec.Rep = saidRep(n, printed)
		}
		switch m.kind {
		case "FIN":
			if !rc.up {
				rc.up = true
				// the console is read from now on; wait until it is
				outs = append(outs, w.command(n, "nothing")...)
			}
		case "GOTC":
			if m.note != "void" {
				rc.asg++
			}
		case "REC":
			rc.asg = 0
		}
	}
	return append(outs, w.sweep()...)
}

// miniBefore follows the message in the driver's picture of the coordinator
func (w *World) miniBefore(m *message) {
	if m.to != "C" {
		return
	}
	s := &w.mini
	switch m.kind {
	case "SREG":
		if s.status != "config" {
			return
		}
		if s.upd {
			s.pending = append(s.pending, m.from)
		} else {
			s.srv, s.upd = s.srv+1, true
			w.chain = append(w.chain, m.from)
		}
	case "UPH":
		s.upd = false
		if len(s.pending) > 0 {
			w.chain = append(w.chain, s.pending[0])
			s.pending = s.pending[1:]
			s.srv, s.upd = s.srv+1, true
		}
	case "CREG":
		if m.ev == nil {
			return
		}
		var pk string
		if safely(func() { pk = w.ob.point(m.bytes("public_key")).String() }) != nil {
			return
		}
		if s.status != "message" {
			w.pendKeys = append(w.pendKeys, pendKey{pk, m.from})
		} else {
			w.register(pk, m.from)
		}
	case "CRS":
		s.reg--
	case "ANN":
		s.status = "message"
		for _, p := range w.pendKeys {
			w.register(p.pk, p.from)
		}
		w.pendKeys = nil
	case "RE":
		s.status, s.pcs = "ready", "ready"
	}
}

func (w *World) register(pk, from string) {
	if w.mini.keys[pk] {
		return
	}
	w.mini.keys[pk] = true
	w.mini.reg++
	if rc := w.real[from]; rc != nil {
		rc.on = true
	}
	if c := w.emu[from]; c != nil {
		c.on = true
	}
}

// ---------------------------------------------------------------------------
// the closing part of every scenario: the cluster has to go on working

func (w *World) suffix(n int) {
	w.drain()
	// get to an open round
	for i := 0; i < 3 && !w.stop && w.mini.status != "message"; i++ {
		if w.mini.pcs == "config" && w.mini.srv == 0 {
			return
		}
		w.do(obj{"a": "enter"})
		w.drain()
	}
	w.probe()
	for r := 0; r < n && !w.stop; r++ {
		for i := 0; i < 2 && !w.stop && (w.mini.pcs == "post" || w.mini.pcs == "vote"); i++ {
			w.do(obj{"a": "enter"})
			w.drain()
		}
		w.probe()
	}
}

func (w *World) upClients() (ks []string) {
	for _, k := range w.live() {
		if rc := w.real[k]; rc != nil && rc.up {
			ks = append(ks, k)
		}
		if c := w.emu[k]; c != nil && c.up {
			ks = append(ks, k)
		}
	}
	return
}

// probe: everyone posts, asks for bridges and votes
func (w *World) probe() {
	ks := w.upClients()
	w.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for i, k := range ks {
		w.do(obj{"a": "post", "k": k, "b": fmt.Sprintf("b%d", 1+(i+w.rng.Intn(2))%4)})
		if w.rng.Intn(2) == 0 {
			w.do(obj{"a": "post", "k": k, "b": fmt.Sprintf("p%d", i)})
		}
	}
	if w.rng.Intn(2) == 0 {
		w.drain()
	}
	w.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, k := range ks {
		n := w.rng.Intn(8)
		if w.rng.Intn(3) == 0 {
			n = w.rep(k) + w.rng.Intn(2)
		}
		w.do(obj{"a": "get", "k": k, "n": n})
	}
	w.drain()
	for _, k := range ks {
		for j := 1; j <= w.asgs(k) && j <= 3; j++ {
			w.do(obj{"a": "vote", "k": k, "j": j, "v": 1 - 2*w.rng.Intn(2)})
		}
	}
	w.drain()
}

func (w *World) rep(k string) int {
	if c := w.emu[k]; c != nil {
		return c.rep
	}
	return 5
}

func (w *World) asgs(k string) int {
	if c := w.emu[k]; c != nil {
		return len(c.asg)
	}
	if rc := w.real[k]; rc != nil {
		return rc.asg
	}
	return 0
}

// ReadScenarios reads a list of scenarios
func ReadScenarios(path string) (l []*Scenario, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	err = json.Unmarshal(b, &l)
	return
}
