package cluster

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// what the addresses of bridges look like: two of them may differ in little, and all of them are different bridges
var plain = []string{"198.51.100.7:443", "198.51.100.7:0443", "198.51.100.07:443", "198.51.100.7:443.", "198.51.100.7:4430", "198.51.100.7:44",
	"[2001:db8::1]:443", "[2001:DB8::1]:443", "[2001:db8:0::1]:443", "bridge.example:443", "Bridge.example:443", "BRIDGE.EXAMPLE:443",
	"bridge.example.:443", "bridge.example:0443", "bridge.example:443/", "bridge.example:443#", "bridge.example", "http://bridge.example:443",
	"b", "B", "0", "00", "-1", "nil", "%s%d%n", "bridge.example:443,bridge.example:444", "'bridge.example'", "\"bridge.example:443\"",
	"br\u00fccke.example:443", "bru\u0308cke.example:443", "\u212aelvin:1", "Kelvin:1", "kelvin:1", strings.Repeat("a", 300), strings.Repeat("a", 301)}

// and what only a client that is not ours can post
var odd = []string{"", " ", "bridge.example:443 ", " bridge.example:443", "bridge.example:443\t", "bridge.example:443\n", "bridge.example:443\r\n",
	"bridge.example:443\x00", "\x00bridge.example:443", "bridge.example: 443", "\xff\xfe", "\xff", "  198.51.100.7:443", "198.51.100.7:443  ",
	"\ufeffbridge.example:443", "b\x00", "b ", strings.Repeat("a", 5000)}

// addrOf is the address that stands for a bridge of the specification
func (w *World) addrOf(b string, console bool) string {
	if a, ok := w.addrs[b]; ok {
		return a
	}
	a := b
	if strings.HasPrefix(b, "long") && !console {
		a = b + strings.Repeat("x", []int{4000, 32700, 33000, 65530, 66000, 131073, 262150, 300001}[w.rng.Intn(8)]) + b
		w.addrs[b], w.bridges[a] = a, b
		return a
	}
	if strings.HasPrefix(b, "huge") && !console {
		// more than the network holds for one who does not read
		a = b + strings.Repeat("x", 9<<20) + b
		w.addrs[b], w.bridges[a] = a, b
		return a
	}
	for try := 0; try < 20; try++ {
		c := b
		switch r := w.rng.Intn(10); {
		case r < 4 && try == 0:
		case r < 8 || console:
			c = plain[w.rng.Intn(len(plain))]
			if used := w.usedNames(); len(used) > 0 && w.rng.Intn(2) == 0 {
				c = alter(used[w.rng.Intn(len(used))], w.rng.Intn(5))
			}
		default:
			c = odd[w.rng.Intn(len(odd))]
			if used := w.usedNames(); len(used) > 0 && w.rng.Intn(2) == 0 {
				u := used[w.rng.Intn(len(used))]
				c = []string{u + " ", " " + u, u + "\n", u + "\x00", "\t" + u}[w.rng.Intn(5)]
			}
		}
		if console && !typable(c) {
			continue
		}
		if _, taken := w.bridges[c]; !taken && !strings.HasPrefix(c, "fence") {
			a = c
			break
		}
	}
	for w.bridges[a] != "" {
		a += "~"
	}
	w.addrs[b], w.bridges[a] = a, b
	return a
}

// typable: the console of a client takes it as one word
func typable(b string) bool {
	if b == "" || len(b) > 1000 || !utf8.ValidString(b) {
		return false
	}
	return strings.IndexFunc(b, func(r rune) bool { return unicode.IsSpace(r) || unicode.IsControl(r) || r == '\ufeff' }) < 0
}

func (w *World) usedNames() (l []string) {
	for a := range w.bridges {
		l = append(l, a)
	}
	sort.Strings(l)
	return
}

// alter makes another address out of one
func alter(a string, how int) string {
	switch how {
	case 0:
		return strings.ToUpper(a)
	case 1:
		return strings.ToLower(a)
	case 2:
		return a + "0"
	case 3:
		if len(a) > 1 {
			return a[:len(a)-1]
		}
	case 4:
		if len(a) > 1 {
			return a[1:]
		}
	}
	return a + "."
}

// bridgeOf is the bridge that an address stands for
func (w *World) bridgeOf(a string) string {
	if b, ok := w.bridges[a]; ok {
		return b
	}
	if _, ok := w.addrs[a]; ok {
		return "?" + a // the name of another one
	}
	return a
}

// aliasNear is an address on another host with the port of a node that is there already
func (w *World) aliasNear() *alias {
	var ports []string
	for _, n := range w.nodes {
		if n.al != nil && n.kind != 'C' {
			if _, p, err := net.SplitHostPort(n.al.addr); err == nil {
				ports = append(ports, p)
			}
		}
	}
	if len(ports) == 0 {
		return nil
	}
	sort.Strings(ports)
	p := 0
	fmt.Sscan(ports[w.rng.Intn(len(ports))], &p)
	for host := byte(2); host < 6; host++ {
		if w.taken[fmt.Sprintf("127.0.0.%d:%d", host, p)] {
			continue
		}
		if a, err := newAliasAt([4]byte{127, 0, 0, host}, p); err == nil {
			return a
		}
	}
	return nil
}
