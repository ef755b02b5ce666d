// libcodec runs the cases of spec/Codec.tla on the real encoders, decoders and SendEvent
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime/debug"
	"sync"
	"time"

	"zRep/cmd/bridge"
	"zRep/primitive/fujiokam"
	"zRep/primitive/lrs"
	"zRep/primitive/pedersen_fujiokam"
	"zRep/proto"
	"zRep/util"

	"zrepv/ref/suite"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
)

type number struct {
	S int   `json:"s"`
	D []int `json:"d"`
}

type vector struct {
	ID   string   `json:"id"`
	Unit string   `json:"unit"`
	V    []number `json:"v"`
	Rep  int      `json:"rep"`  // how often the numbers are repeated
	Size int      `json:"size"` // of byte strings
	Seed int64    `json:"seed"`
}

type outcome struct {
	ID    string `json:"id"`
	Out   string `json:"out"`
	Note  string `json:"note,omitempty"`
	Fault string `json:"fault,omitempty"`
}

type kit struct {
	rng *rand.Rand
	s   abstract.Suite
	v   *vector
	P   *big.Int
	Q   *big.Int
	raw []interface{} // what the last decoding made, if the unit compares numbers instead
}

// parts lists what of a decoded value can be changed in place
func parts(x interface{}) (l []interface{}) {
	switch v := x.(type) {
	case *big.Int, abstract.Point, abstract.Secret, *fujiokam.Point:
		return []interface{}{v}
	case []byte:
		return []interface{}{v}
	case []bridge.Assignment:
		for i := range v {
			l = append(l, v[i].NymR, v[i].Nym)
		}
	case *proto.Event:
		for _, w := range v.Params {
			if b, is := w.([]byte); is {
				l = append(l, b)
			}
		}
		l = append(l, v.Params)
	default:
		if r := reflect.ValueOf(x); r.Kind() == reflect.Slice {
			for i := 0; i < r.Len(); i++ {
				l = append(l, parts(r.Index(i).Interface())...)
			}
			l = append(l, x)
		}
	}
	return
}

// work does with a part what nodes do with what they have read
func (k *kit) work(x interface{}) {
	switch v := x.(type) {
	case *big.Int:
		v.Add(v, big.NewInt(1))
	case abstract.Point:
		v.Add(v, k.toPoint(big.NewInt(4)))
	case abstract.Secret:
		v.Add(v, k.s.Secret().One())
	case *fujiokam.Point:
		v.V.Add(&v.V, big.NewInt(1))
	case []byte:
		for i := range v {
			v[i] ^= 0x33
		}
	case map[string]interface{}:
		for f := range v {
			delete(v, f)
		}
		v["work"] = 1
	case []bool:
		for i := range v {
			v[i] = !v[i]
		}
	case []int:
		for i := range v {
			v[i]++
		}
	}
}

func show(l []interface{}) string {
	var b bytes.Buffer
	for _, x := range l {
		switch v := x.(type) {
		case abstract.Point:
			fmt.Fprintln(&b, pt(v))
		case abstract.Secret:
			fmt.Fprintln(&b, sec(v))
		case *fujiokam.Point:
			fmt.Fprintln(&b, &v.V)
		case *big.Int, []byte, map[string]interface{}, []bool, []int:
			fmt.Fprintln(&b, v)
		}
	}
	return b.String()
}

// num makes a number of at most size bytes of which the first, the middle and
// the last part are zero or not as the digits say
func (k *kit) num(x number, size int) *big.Int {
	b := make([]byte, size)
	one, two := 1, size/2
	part := func(p []byte, d int) {
		if d != 0 {
			k.rng.Read(p)
			if p[0] == 0 || k.rng.Intn(4) == 0 {
				p[0] = []byte{1, 0x7f, 0x80, 0xff}[k.rng.Intn(4)]
			}
		}
	}
	part(b[:one], x.D[0])
	part(b[one:two], x.D[1])
	part(b[two:], x.D[2])
	n := new(big.Int).SetBytes(b)
	if x.S == 1 {
		n.Neg(n)
	}
	return n
}

// integer makes an int of the size that the digits give
func (k *kit) integer(x number) int {
	n := 0
	if x.D[2] != 0 {
		n += 1 + k.rng.Intn(255)
	}
	if x.D[1] != 0 {
		n += (1 + k.rng.Intn(1<<24-2)) << 8
	}
	if x.D[0] != 0 {
		n += (1 + k.rng.Intn(1<<30)) << 32
	}
	if x.S == 1 {
		n = -n
	}
	return n
}

func (k *kit) secret(x number) abstract.Secret {
	n := k.num(x, 64)
	if x.D[0] != 0 { // below the order
		n.Mod(n, k.Q)
		if n.BitLen() < 505 {
			n.SetBit(n, 505, 1)
		}
	}
	b := n.Bytes()
	s := k.s.Secret()
	if err := s.UnmarshalBinary(append(make([]byte, s.MarshalSize()-len(b)), b...)); err != nil {
		panic(err)
	}
	return s
}

// point makes a residue with as many zero bytes in front as the digits say
func (k *kit) point(x number) abstract.Point {
	size := 256
	switch {
	case x.D[0] != 0:
		size = 512
	case x.D[1] != 0:
		size = 250
	case x.D[2] != 0:
		size = 1 + k.rng.Intn(100)
	default:
		size = 1
	}
	r := new(big.Int).Rand(k.rng, new(big.Int).Lsh(big.NewInt(1), uint(size)))
	if r.Sign() == 0 {
		r.SetInt64(1)
	}
	r.Mul(r, r).Mod(r, k.P)
	if x.D[0] == 0 && x.D[1] == 0 && x.D[2] == 0 {
		r.SetInt64(1)
	}
	b := r.Bytes()
	p := k.s.Point()
	if err := p.UnmarshalBinary(append(make([]byte, 64-len(b)), b...)); err != nil {
		panic(err)
	}
	return p
}

func (k *kit) each(f func(number)) {
	for i := 0; i < k.v.Rep; i++ {
		for _, x := range k.v.V {
			f(x)
		}
	}
}

func (k *kit) first() number {
	if len(k.v.V) == 0 {
		return number{D: []int{0, 0, 0}}
	}
	return k.v.V[0]
}

func (k *kit) blob(x number) []byte {
	size := 0
	for _, d := range x.D {
		size = size*2 + d
	}
	b := make([]byte, size*k.v.Size)
	k.rng.Read(b)
	if len(b) > 0 && k.rng.Intn(3) == 0 {
		b[0] = 0
	}
	return b
}

func (k *kit) text(x number) string {
	l := []string{"", "127.0.0.1:1", "a", "\xff\x00\xfe", "\x00", "bridge.example:443", "\u00fc \t\n", string(k.blob(x))}
	return l[k.rng.Intn(len(l))]
}

func (k *kit) bigs(size int) (l []*big.Int) {
	k.each(func(x number) { l = append(l, k.num(x, size)) })
	return
}

func sameBigs(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func clones(l []*big.Int) (r []*big.Int) {
	for _, x := range l {
		r = append(r, new(big.Int).Set(x))
	}
	return
}

func pt(p abstract.Point) *big.Int {
	b, err := p.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(b)
}

func sec(p abstract.Secret) *big.Int { return new(big.Int).Set(&p.(*nist.Int).V) }

func pts(l []abstract.Point) (r []*big.Int) {
	for _, p := range l {
		r = append(r, pt(p))
	}
	return
}

func (k *kit) took(x interface{}) interface{} {
	k.raw = parts(x)
	return x
}

// trip encodes two values, one after the other, and decodes them; what was
// encoded or decoded first must not change afterwards
func (k *kit) trip(make_ func() interface{}, enc func(interface{}) []byte, dec func([]byte) interface{}, same func(a, b interface{}) bool, copy_ func(interface{}) interface{}) string {
	a, b := make_(), make_()
	ca, cb := copy_(a), copy_(b)
	ea := enc(a)
	keep := append([]byte{}, ea...)
	eb := enc(b)
	if !bytes.Equal(ea, keep) {
		return "an encoding changes with the next one"
	}
	if !same(a, ca) || !same(b, cb) {
		return "encoding changes the value"
	}
	da := dec(ea)
	for i := range ea { // the buffer is used for the next message
		ea[i] ^= 0x55
	}
	if !same(da, ca) {
		return "differs"
	}
	db := dec(eb)
	if !same(db, cb) {
		return "differs after another one"
	}
	if !same(da, ca) {
		return "changes with the next one"
	}
	if len(eb) > 0 {
		if dc := dec(enc(db)); !same(dc, cb) {
			return "differs the second time"
		}
		// what is done with one value changes no other
		take := func() []interface{} {
			k.raw = nil
			x := dec(eb)
			if k.raw != nil {
				return k.raw
			}
			return parts(x)
		}
		one, two := take(), take()
		before := show(two)
		for _, x := range one {
			k.work(x)
		}
		if show(two) != before {
			return "changes with work on another one"
		}
		if !same(dec(eb), cb) {
			return "differs after work on another one"
		}
	}
	return "same"
}

func bigTrip(k *kit, make_ func() []*big.Int, enc func([]*big.Int) []byte, dec func([]byte) []*big.Int) string {
	return k.trip(func() interface{} { return make_() },
		func(x interface{}) []byte { return enc(x.([]*big.Int)) },
		func(b []byte) interface{} { return dec(b) },
		func(a, b interface{}) bool { return sameBigs(a.([]*big.Int), b.([]*big.Int)) },
		func(a interface{}) interface{} { return clones(a.([]*big.Int)) })
}

func plain(k *kit, make_ func() interface{}, enc func(interface{}) []byte, dec func([]byte) interface{}) string {
	same := func(a, b interface{}) bool {
		x, y := reflect.ValueOf(a), reflect.ValueOf(b)
		if x.Kind() == reflect.Slice {
			if x.Len() != y.Len() {
				return false
			}
			for i := 0; i < x.Len(); i++ {
				p, q := x.Index(i), y.Index(i)
				if p.Kind() == reflect.Slice {
					if !bytes.Equal(p.Bytes(), q.Bytes()) {
						return false
					}
				} else if p.Interface() != q.Interface() {
					return false
				}
			}
			return true
		}
		return reflect.DeepEqual(a, b)
	}
	cp := func(a interface{}) interface{} {
		x := reflect.ValueOf(a)
		if x.Kind() != reflect.Slice {
			return a
		}
		y := reflect.MakeSlice(x.Type(), 0, x.Len())
		for i := 0; i < x.Len(); i++ {
			p := x.Index(i)
			if p.Kind() == reflect.Slice {
				p = reflect.ValueOf(append([]byte{}, p.Bytes()...))
			}
			y = reflect.Append(y, p)
		}
		return y.Interface()
	}
	return k.trip(make_, enc, dec, same, cp)
}

// fill gives n numbers, over and over the ones of the vector
func (k *kit) fill(n, size int) (l []*big.Int) {
	for i := 0; i < n; i++ {
		x := number{D: []int{0, 1, 1}}
		if len(k.v.V) > 0 {
			x = k.v.V[(i+k.rng.Intn(2))%len(k.v.V)]
		}
		l = append(l, k.num(x, size))
	}
	return
}

func (k *kit) run() string {
	s := k.s
	switch k.v.Unit {
	case "point":
		return bigTrip(k, func() []*big.Int { return []*big.Int{pt(k.point(k.first()))} },
			func(l []*big.Int) []byte { return util.EncodePoint(k.toPoint(l[0])) },
			func(b []byte) []*big.Int { return []*big.Int{pt(k.took(util.DecodePoint(s, b)).(abstract.Point))} })
	case "secret":
		return bigTrip(k, func() []*big.Int { return []*big.Int{sec(k.secret(k.first()))} },
			func(l []*big.Int) []byte { return util.EncodeSecret(k.toSecret(l[0])) },
			func(b []byte) []*big.Int { return []*big.Int{sec(k.took(util.DecodeSecret(s, b)).(abstract.Secret))} })
	case "points":
		return bigTrip(k, func() (l []*big.Int) {
			k.each(func(x number) { l = append(l, pt(k.point(x))) })
			return
		}, func(l []*big.Int) []byte {
			ps := []abstract.Point{}
			for _, n := range l {
				ps = append(ps, k.toPoint(n))
			}
			return util.ProtobufEncodePointList(ps)
		}, func(b []byte) []*big.Int { return pts(k.took(util.ProtobufDecodePointList(b)).([]abstract.Point)) })
	case "secrets":
		return bigTrip(k, func() (l []*big.Int) {
			k.each(func(x number) { l = append(l, sec(k.secret(x))) })
			return
		}, func(l []*big.Int) []byte {
			ps := []abstract.Secret{}
			for _, n := range l {
				ps = append(ps, k.toSecret(n))
			}
			return util.ProtobufEncodeSecretList(ps)
		}, func(b []byte) (l []*big.Int) {
			for _, x := range k.took(util.ProtobufDecodeSecretList(b)).([]abstract.Secret) {
				l = append(l, sec(x))
			}
			return
		})
	case "big":
		return bigTrip(k, func() []*big.Int { return []*big.Int{k.num(k.first(), 128)} },
			func(l []*big.Int) []byte { return util.EncodeBigInt(l[0]) },
			func(b []byte) []*big.Int { return []*big.Int{util.DecodeBigInt(b)} })
	case "bigs":
		return bigTrip(k, func() []*big.Int { return k.bigs([]int{4, 64, 128, 200}[k.rng.Intn(4)]) }, util.ProtobufEncodeBigIntList, util.ProtobufDecodeBigIntList)
	case "fo": // never negative
		base := fujiokam.CreateMinimumBase(s, new(big.Int).Lsh(big.NewInt(1), 1030))
		return bigTrip(k, func() []*big.Int { return []*big.Int{k.num(k.first(), 128)} },
			func(l []*big.Int) []byte { return base.Point().SetBigInt(l[0]).ToBinary() },
			func(b []byte) []*big.Int {
				return []*big.Int{new(big.Int).Set(k.took(base.Point().FromBinary(b)).(*fujiokam.Point).ToBigInt())}
			})
	case "foarray":
		base := fujiokam.CreateMinimumBase(s, new(big.Int).Lsh(big.NewInt(1), 1030))
		l := k.bigs(128)
		if !sameBigs(fujiokam.PointArrayToBigIntArray(base.BigIntArrayToPointArray(l)), l) {
			return "differs"
		}
		return "same"
	case "secbig":
		x := k.secret(k.first())
		if util.BigIntToSecret(s, util.SecretToBigInt(x)).Equal(x) && pedersen_fujiokam.BigIntToSecret(s, pedersen_fujiokam.SecretToBigInt(x)).Equal(x) &&
			util.SecretToBigInt(x).Cmp(sec(x)) == 0 {
			n := new(big.Int).Add(sec(x), new(big.Int).Mul(k.Q, big.NewInt(int64(k.rng.Intn(9)-4))))
			if util.BigIntToSecret(s, n).Equal(x) && pedersen_fujiokam.BigIntToSecret(s, n).Equal(x) {
				return "same"
			}
		}
		return "differs"
	case "ptbig":
		x := k.point(k.first())
		if util.BigIntToPoint(s, util.PointToBigInt(x)).Equal(x) && util.PointToBigInt(x).Cmp(pt(x)) == 0 {
			return "same"
		}
		return "differs"
	case "nonneg":
		return bigTrip(k, func() []*big.Int { return k.fill(9, 200) }, func(l []*big.Int) []byte {
			return util.EncodeARGnonneg(&fujiokam.ARGnonneg{Commitrx: l[0], C: l[1], Cr: l[2], R: l[3], X_: l[4], A_: l[5], B_: l[6], D_: l[7], R_: l[8]})
		}, func(b []byte) []*big.Int {
			a := util.DecodeARGnonneg(b)
			return []*big.Int{a.Commitrx, a.C, a.Cr, a.R, a.X_, a.A_, a.B_, a.D_, a.R_}
		})
	case "equal":
		return bigTrip(k, func() []*big.Int { return k.fill(4, 200) }, func(l []*big.Int) []byte {
			return util.EncodeARGequal(&pedersen_fujiokam.ARGequal{C: l[0], S1: l[1], S2: l[2], S3: l[3]})
		}, func(b []byte) []*big.Int {
			a := util.DecodeARGequal(b)
			return []*big.Int{a.C, a.S1, a.S2, a.S3}
		})
	case "ring":
		return bigTrip(k, func() []*big.Int { return append(k.fill(1, 64), append(k.bigs(64), k.bigs(64)...)...) }, func(l []*big.Int) []byte {
			n := (len(l) - 1) / 2
			return lrs.ProtobufEncodeSignature(&lrs.Signature{Y0: l[0], S: l[1 : n+1], C: l[n+1:]})
		}, func(b []byte) []*big.Int {
			a := lrs.ProtobufDecodeSignature(b)
			if len(a.S) != len(a.C) {
				return nil
			}
			return append(append([]*big.Int{a.Y0}, a.S...), a.C...)
		})
	case "bools":
		return plain(k, func() interface{} {
			l := []bool{}
			k.each(func(x number) {
				for _, d := range x.D {
					l = append(l, d != 0)
				}
			})
			if len(l) > 1 {
				i, j := k.rng.Intn(len(l)), k.rng.Intn(len(l))
				l[i], l[j] = l[j], l[i]
			}
			return l
		}, func(x interface{}) []byte { return util.ProtobufEncodeBoolList(x.([]bool)) },
			func(b []byte) interface{} { return util.ProtobufDecodeBoolList(b) })
	case "ints":
		return plain(k, func() interface{} {
			l := []int{}
			k.each(func(x number) { l = append(l, k.integer(x)) })
			return l
		}, func(x interface{}) []byte { return util.EncodeIntArray(x.([]int)) },
			func(b []byte) interface{} { return util.DecodeIntArray(b) })
	case "int4":
		return plain(k, func() interface{} { return k.integer(number{D: append([]int{0}, k.first().D[1:]...)}) },
			func(x interface{}) []byte { return util.IntToByte(x.(int)) },
			func(b []byte) interface{} { return util.ByteToInt(b) })
	case "blobs":
		return plain(k, func() interface{} {
			l := [][]byte{}
			k.each(func(x number) { l = append(l, k.blob(x)) })
			return l
		}, func(x interface{}) []byte { return util.Encode2DByteArray(x.([][]byte)) },
			func(b []byte) interface{} { return util.Decode2DByteArray(b) })
	case "blobs2":
		l := [][]byte{}
		k.each(func(x number) { l = append(l, k.blob(x)) })
		r := util.SerializeTwoDimensionArray(l)
		if len(r) != len(l) {
			return "differs"
		}
		for i := range l {
			if !bytes.Equal(l[i], r[i].Arr) {
				return "differs"
			}
		}
		return "same"
	case "asg", "asgs":
		n := 0
		return k.trip(func() interface{} {
			l := []bridge.Assignment{}
			k.each(func(x number) {
				l = append(l, bridge.Assignment{NymR: k.point(x), Addr: k.text(x), Nym: k.point(number{D: []int{x.D[2], x.D[0], x.D[1]}})})
			})
			if k.v.Unit == "asg" && len(l) == 0 {
				l = append(l, bridge.Assignment{NymR: k.point(k.first()), Addr: k.text(k.first()), Nym: k.point(k.first())})
			}
			if k.v.Unit == "asg" {
				l = l[:1]
			}
			n++
			return l
		}, func(x interface{}) []byte {
			if k.v.Unit == "asg" {
				return bridge.EncodeAssignment(&x.([]bridge.Assignment)[0])
			}
			return bridge.EncodeAssignmentList(x.([]bridge.Assignment))
		}, func(b []byte) interface{} {
			if k.v.Unit == "asg" {
				return []bridge.Assignment{*bridge.DecodeAssignment(b)}
			}
			return bridge.DecodeAssignmentList(b)
		}, func(a, b interface{}) bool {
			x, y := a.([]bridge.Assignment), b.([]bridge.Assignment)
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if x[i].Addr != y[i].Addr || !x[i].NymR.Equal(y[i].NymR) || !x[i].Nym.Equal(y[i].Nym) {
					return false
				}
			}
			return true
		}, func(a interface{}) interface{} {
			var l []bridge.Assignment
			for _, x := range a.([]bridge.Assignment) {
				l = append(l, bridge.Assignment{NymR: k.toPoint(pt(x.NymR)), Addr: x.Addr, Nym: k.toPoint(pt(x.Nym))})
			}
			return l
		})
	case "event":
		return k.trip(func() interface{} { return k.event() },
			func(x interface{}) []byte { return util.Encode(x.(*proto.Event)) },
			func(b []byte) interface{} {
				ev, addr := util.DecodeEvent(b)
				if addr.String() != ev.SrcAddr {
					return &proto.Event{EventType: -1}
				}
				return ev
			}, sameEvent, copyEvent)
	case "send":
		return k.send()
	}
	panic("unknown unit " + k.v.Unit)
}

func (k *kit) toPoint(n *big.Int) abstract.Point {
	b := n.Bytes()
	p := k.s.Point()
	if err := p.UnmarshalBinary(append(make([]byte, 64-len(b)), b...)); err != nil {
		panic(err)
	}
	return p
}

func (k *kit) toSecret(n *big.Int) abstract.Secret {
	s := k.s.Secret()
	b := n.Bytes()
	if err := s.UnmarshalBinary(append(make([]byte, s.MarshalSize()-len(b)), b...)); err != nil {
		panic(err)
	}
	return s
}

func (k *kit) event() *proto.Event {
	p := map[string]interface{}{}
	i := 0
	k.each(func(x number) {
		i++
		var v interface{}
		switch k.rng.Intn(4) {
		case 0:
			v = k.integer(x)
		case 1:
			v = k.text(x)
		case 2:
			v = x.D[2] != 0
		default:
			v = k.blob(x)
		}
		p[fmt.Sprint("f", i)] = v
	})
	return &proto.Event{EventType: k.rng.Intn(25), Params: p, SrcAddr: fmt.Sprintf("127.0.0.%d:%d", 1+k.rng.Intn(250), 1+k.rng.Intn(65535))}
}

func sameEvent(a, b interface{}) bool {
	x, y := a.(*proto.Event), b.(*proto.Event)
	if x.EventType != y.EventType || x.SrcAddr != y.SrcAddr || len(x.Params) != len(y.Params) {
		return false
	}
	for f, v := range x.Params {
		w, ok := y.Params[f]
		if !ok {
			return false
		}
		if p, is := v.([]byte); is {
			q, is := w.([]byte)
			if !is || !bytes.Equal(p, q) {
				return false
			}
		} else if v != w {
			return false
		}
	}
	return true
}

func copyEvent(a interface{}) interface{} {
	x := a.(*proto.Event)
	p := map[string]interface{}{}
	for f, v := range x.Params {
		if b, is := v.([]byte); is {
			v = append([]byte{}, b...)
		}
		p[f] = v
	}
	return &proto.Event{EventType: x.EventType, Params: p, SrcAddr: x.SrcAddr}
}

// send: several messages at the same time, each on a connection of its own
func (k *kit) send() string {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	defer l.Close()
	const n = 4
	var evs []*proto.Event
	for i := 0; i < n; i++ {
		evs = append(evs, k.event())
	}
	got := make(chan []byte, n)
	go func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			go func() {
				c.SetDeadline(time.Now().Add(20 * time.Second))
				if k.v.Seed%2 == 0 {
					time.Sleep(5 * time.Millisecond) // the reader is not always there at once
				}
				b, err := io.ReadAll(c)
				c.Close()
				if err != nil {
					b = nil
				}
				got <- b
			}()
		}
	}()
	want := map[string]*proto.Event{}
	var wg sync.WaitGroup
	bad := make(chan string, n)
	for i := range evs {
		from := &net.TCPAddr{IP: net.IPv4(127, 0, byte(i), 1), Port: 1000 + i}
		w := copyEvent(evs[i]).(*proto.Event)
		w.SrcAddr = from.String()
		want[w.SrcAddr] = w
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint("not sent: ", e)
				}
			}()
			util.SendEvent(from, l.Addr().(*net.TCPAddr), evs[i])
		}(i)
	}
	wg.Wait()
	select {
	case b := <-bad:
		return b
	default:
	}
	for range evs {
		select {
		case b := <-got:
			ev, addr := util.DecodeEvent(b)
			w := want[ev.SrcAddr]
			if w == nil || addr.String() != ev.SrcAddr || !sameEvent(ev, w) {
				return "another message arrives"
			}
			delete(want, ev.SrcAddr)
		case <-time.After(25 * time.Second):
			return "a message is lost"
		}
	}
	return "same"
}

func run(v *vector) (o *outcome) {
	o = &outcome{ID: v.ID}
	defer func() {
		if e := recover(); e != nil {
			o.Out = "stops"
			o.Note = fmt.Sprint(e, " ", string(debug.Stack()))
			if len(o.Note) > 1500 {
				o.Note = o.Note[:1500]
			}
		}
	}()
	s := suite.Get()
	k := &kit{rng: rand.New(rand.NewSource(v.Seed)), s: s, v: v}
	k.P, _ = new(big.Int).SetString("10198267722357351868598076141027380280417188309231803909918464305012113541414604537422741096561285049775792035177041672305646773132014126091142862443826263", 10)
	k.Q = new(big.Int).Rsh(k.P, 1)
	o.Out = k.run()
	return
}

func main() {
	in := flag.String("in", "", "vectors")
	out := flag.String("out", "", "outcomes")
	par := flag.Int("par", 8, "at a time")
	limit := flag.Duration("limit", 10*time.Minute, "for one vector")
	flag.Parse()
	var l []*vector
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := make([]*outcome, len(l))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	for i := range l {
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			ch := make(chan *outcome, 1)
			go func() { ch <- run(l[i]) }()
			select {
			case res[i] = <-ch:
			case <-time.After(*limit):
				res[i] = &outcome{ID: l[i].ID, Out: "hang"}
			}
		}(i)
	}
	wg.Wait()
	if b, err = json.Marshal(res); err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
