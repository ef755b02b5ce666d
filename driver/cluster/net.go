// Package cluster runs the real coordinator, servers and clients as processes
// and steps them one message at a time: every node believes that the others
// listen on "alias" sockets, which the driver owns, so that each message is
// seen, held back and passed on only when the scenario says so.
package cluster

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"zrepv/ref/proto"
)

// ---------------------------------------------------------------------------
// aliases

type alias struct {
	fd    int
	addr  string
	plugs []int
	mute  bool
	stash [][]byte // taken in while waiting for a node
}

func newAlias() (*alias, error) { return newAliasAt([4]byte{127, 0, 0, 1}, 0) }

func newAliasAt(ip [4]byte, port int) (*alias, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: ip, Port: port}); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	if err = syscall.Listen(fd, 4096); err != nil {
		return nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return nil, err
	}
	return &alias{fd: fd, addr: fmt.Sprintf("%d.%d.%d.%d:%d", ip[0], ip[1], ip[2], ip[3], sa.(*syscall.SockaddrInet4).Port)}, nil
}

// plug has connections to the alias neither accepted nor refused
func (a *alias) plug() {
	syscall.Listen(a.fd, 0)
	sa, err := syscall.Getsockname(a.fd)
	for i := 0; err == nil && i < 4; i++ {
		if c, e := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0); e == nil {
			syscall.Connect(c, sa)
			a.plugs = append(a.plugs, c)
		}
	}
}

func (a *alias) close() {
	for _, c := range a.plugs {
		syscall.Close(c)
	}
	a.plugs = nil
	if a.fd >= 0 {
		syscall.Close(a.fd)
		a.fd = -1
	}
}

// take returns the contents of all connections waiting at the alias
func (a *alias) take() (res [][]byte) {
	res, a.stash = a.stash, nil
	for a.fd >= 0 && !a.mute {
		c, _, err := syscall.Accept4(a.fd, syscall.SOCK_CLOEXEC)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		tv := syscall.Timeval{Sec: 20}
		syscall.SetsockoptTimeval(c, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
		var buf bytes.Buffer
		tmp := make([]byte, 65536)
		for {
			n, err := syscall.Read(c, tmp)
			if err == syscall.EINTR {
				continue
			}
			if err != nil || n <= 0 {
				break
			}
			buf.Write(tmp[:n])
		}
		syscall.Close(c)
		res = append(res, buf.Bytes())
	}
	return
}

// ---------------------------------------------------------------------------
// the accept queue of a listening socket, from /proc/net/tcp{,6}: listening
// sockets come first

func listenQueue(port int) (qlen int, found bool) {
	suffix := fmt.Sprintf(":%04X", port)
	for _, file := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		f, err := os.Open(file)
		if err != nil {
			continue
		}
		tmp := make([]byte, 0, 65536)
		buf := make([]byte, 16384)
		line := 0
	read:
		for {
			n, err := f.Read(buf)
			tmp = append(tmp, buf[:n]...)
			for {
				i := bytes.IndexByte(tmp, '\n')
				if i < 0 {
					break
				}
				l := string(tmp[:i])
				tmp = tmp[i+1:]
				line++
				if line == 1 {
					continue
				}
				fs := strings.Fields(l)
				if len(fs) < 5 || fs[3] != "0A" {
					break read
				}
				if strings.HasSuffix(fs[1], suffix) {
					f.Close()
					q := strings.Split(fs[4], ":")
					fmt.Sscanf(q[1], "%x", &qlen)
					return qlen, true
				}
			}
			if err != nil {
				break
			}
		}
		f.Close()
	}
	return 0, false
}

// ---------------------------------------------------------------------------
// port blocks for servers and coordinators

var nextBlock int64 = -1

const blockBase, blockEnd = 10000, 32000

// SeedPorts chooses where the search for free port blocks begins
func SeedPorts(n int) { atomic.StoreInt64(&nextBlock, int64(n%((blockEnd-blockBase)/11))) }

func portBlock() int {
	if nextBlock < 0 {
		SeedPorts(os.Getpid() * 37)
	}
	for i := 0; i < 4000; i++ {
		k := atomic.AddInt64(&nextBlock, 1) % int64((blockEnd-blockBase)/11)
		base := blockBase + int(k)*11
		free := holdBlock(base)
		if !free {
			continue
		}
		for p := base; p < base+11; p++ {
			l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4zero, Port: p})
			if err != nil {
				free = false
				break
			}
			l.Close()
		}
		if free {
			return base
		}
		releaseBlock(base)
	}
	panic(Fault{"no free ports"})
}

// blocks are kept from other drivers by a socket in the abstract name space
var heldMu sync.Mutex
var held = map[int]net.Listener{}

func holdBlock(base int) bool {
	l, err := net.Listen("unix", fmt.Sprintf("@zrepv-ports-%d", base))
	if err != nil {
		return false
	}
	heldMu.Lock()
	held[base] = l
	heldMu.Unlock()
	return true
}

func releaseBlock(base int) {
	heldMu.Lock()
	if l := held[base]; l != nil {
		l.Close()
		delete(held, base)
	}
	heldMu.Unlock()
}

// Fault is a failure of the driver or its surroundings, not of the code under test
type Fault struct{ msg string }

func (f Fault) Error() string { return f.msg }

// ---------------------------------------------------------------------------
// nodes

type node struct {
	name  string
	kind  byte // 'C' coordinator, 'S' server, 'K' client process, 'E' client played by the driver
	block int
	real  string // address it listens on
	port  int
	al    *alias
	gone  bool
	pull  func()

	cmd    *exec.Cmd
	dir    string
	stdin  *os.File
	stdinR *os.File
	dead   chan struct{}
	diedMu sync.Mutex
	killed bool
	tail   *tailBuf
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
	n   int // bytes seen in all
}

func (t *tailBuf) total() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n
}

// since is what came after the first `from` bytes, as far as it is still there
func (t *tailBuf) since(from int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	k := t.n - from
	if k > len(t.buf) {
		k = len(t.buf)
	}
	return string(t.buf[len(t.buf)-k:])
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.buf = append(t.buf, p...)
	t.n += len(p)
	if len(t.buf) > 20000 {
		t.buf = append([]byte(nil), t.buf[len(t.buf)-12000:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func (n *node) start(bin, role, root string, localPort int, coord string) error {
	n.dir = filepath.Join(root, n.name)
	if err := os.MkdirAll(filepath.Join(n.dir, "config"), 0755); err != nil {
		return err
	}
	host, port, _ := net.SplitHostPort(coord)
	os.WriteFile(filepath.Join(n.dir, "config", "local.properties"), []byte(fmt.Sprintf("local_port=%d\n", localPort)), 0644)
	os.WriteFile(filepath.Join(n.dir, "config", "conn.properties"), []byte("coordinator_ip="+host+"\ncoordinator_port="+port+"\n"), 0644)
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	n.stdin, n.stdinR = w, r
	n.tail = &tailBuf{}
	n.cmd = exec.Command(bin, role)
	n.cmd.Dir = n.dir
	n.cmd.Stdin = r
	n.cmd.Stdout = n.tail
	n.cmd.Stderr = n.tail
	n.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0")
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.dead = make(chan struct{})
	go func() { n.cmd.Wait(); close(n.dead) }()
	return nil
}

func (n *node) isDead() bool {
	if n.dead == nil {
		return false
	}
	select {
	case <-n.dead:
		return true
	default:
		return false
	}
}

func (n *node) kill() {
	if n.cmd != nil && n.cmd.Process != nil {
		n.killed = true
		syscall.Kill(-n.cmd.Process.Pid, syscall.SIGKILL)
		<-n.dead
		n.stdin.Close()
		n.stdinR.Close()
		n.cmd = nil
		if n.block != 0 {
			releaseBlock(n.block)
		}
	}
}

func unread(f *os.File) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), 0x541B /* FIONREAD */, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

// ---------------------------------------------------------------------------
// sending to a node

func dialSend(addr string, data []byte, timeout time.Duration) error {
	c, err := net.DialTimeout("tcp", addr, timeout)
	for try := 0; err != nil && try < 3; try++ {
		time.Sleep(60 * time.Millisecond)
		c, err = net.DialTimeout("tcp", addr, timeout)
	}
	if err != nil {
		return err
	}
	c.SetDeadline(time.Now().Add(timeout))
	for _, p := range pieces(data) {
		if _, err = c.Write(p); err != nil {
			break
		}
		arrived(c)
		if len(p) < len(data) {
			time.Sleep(2 * time.Millisecond)
		}
	}
	c.Close()
	return err
}

// Cut says how many messages come in pieces: none, some, all
var Cut = "some"

// pieces: what one node writes at once does not always reach the other at once (Cuts of spec/Codec.tla)
func pieces(data []byte) [][]byte {
	n := len(data)
	if n < 2 || Cut == "none" {
		return [][]byte{data}
	}
	var at []int
	among := 12
	if Cut == "all" {
		among = 4
	}
	switch rand.Intn(among) {
	case 0:
		at = []int{1}
	case 1:
		at = []int{n - 1}
	case 2:
		at = []int{n / 2}
	case 3:
		at = []int{1 + rand.Intn(n-1), 1 + rand.Intn(n-1), 1 + rand.Intn(n-1)}
		sort.Ints(at)
	}
	var l [][]byte
	from := 0
	for _, i := range at {
		if i > from {
			l = append(l, data[from:i])
			from = i
		}
	}
	return append(l, data[from:])
}

// arrived returns when the other side's kernel has acknowledged data: from then on the connection is in its accept queue
func arrived(c net.Conn) {
	tc, ok := c.(*net.TCPConn)
	if !ok {
		return
	}
	rc, err := tc.SyscallConn()
	if err != nil {
		return
	}
	for i := 0; i < 2000; i++ {
		var info [256]byte
		n := uint32(len(info))
		var e syscall.Errno
		rc.Control(func(fd uintptr) {
			_, _, e = syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.IPPROTO_TCP, syscall.TCP_INFO,
				uintptr(unsafe.Pointer(&info[0])), uintptr(unsafe.Pointer(&n)), 0)
		})
		if e != 0 || n < 28 || info[0] != 1 { // 1: established
			return
		}
		if *(*uint32)(unsafe.Pointer(&info[24])) == 0 || n >= 128 && *(*uint64)(unsafe.Pointer(&info[120])) > 1 {
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func encodeEvent(ev *proto.Event) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(ev); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func decodeEvent(raw []byte) (ev *proto.Event, err error) {
	ev = &proto.Event{}
	err = gob.NewDecoder(bytes.NewReader(raw)).Decode(ev)
	return
}

var fenceMsg = encodeEvent(&proto.Event{EventType: 99, Params: map[string]interface{}{}, SrcAddr: "127.0.0.1:1"})

var errDead = errors.New("dead")
var errHang = errors.New("hang")

// fence returns when the node has handled everything it was sent before
func (n *node) fence(limit time.Duration) error {
	if err := dialSend(n.real, fenceMsg, 5*time.Second); err != nil {
		if n.waitDead(3 * time.Second) {
			return errDead
		}
		return errHang
	}
	return n.waitQueue(limit)
}

// waitQueue waits until the node has accepted all its connections
func (n *node) waitQueue(limit time.Duration) error {
	end := time.Now().Add(limit)
	pause := 100 * time.Microsecond
	begin := time.Now()
	for {
		if n.isDead() {
			return errDead
		}
		if n.pull != nil && time.Since(begin) > 300*time.Millisecond {
			// it may be busy sending more than the network holds
			n.pull()
		}
		q, found := listenQueue(n.port)
		if !found {
			if n.waitDead(2 * time.Second) {
				return errDead
			}
			return errHang
		}
		if q == 0 {
			return nil
		}
		if time.Now().After(end) {
			return errHang
		}
		time.Sleep(pause)
		if pause < 2*time.Millisecond {
			pause = pause * 3 / 2
		}
	}
}

func (n *node) waitDead(d time.Duration) bool {
	if n.dead == nil {
		return false
	}
	select {
	case <-n.dead:
		return true
	case <-time.After(d):
		return false
	}
}

func waitListen(port int, n *node, limit time.Duration) error {
	end := time.Now().Add(limit)
	for time.Now().Before(end) {
		if _, ok := listenQueue(port); ok {
			return nil
		}
		if n.isDead() {
			return errDead
		}
		time.Sleep(2 * time.Millisecond)
	}
	return errHang
}
