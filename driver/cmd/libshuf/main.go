// libshuf draws many permutations from the repository's shuffle
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"zRep/util/shuffle"

	"zrepv/ref/suite"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/proof"
	"github.com/dedis/crypto/random"
)

type vector struct {
	ID   string `json:"id"`
	Unit string `json:"unit"`
	N    int    `json:"n"`
	Reps int    `json:"reps"`
	Seed int64  `json:"seed"`
}

type outcome struct {
	ID    string                 `json:"id"`
	Out   string                 `json:"out"`
	Fault string                 `json:"fault,omitempty"`
	Data  map[string]interface{} `json:"data,omitempty"`
}

func run(v *vector) (o *outcome) {
	o = &outcome{ID: v.ID}
	defer func() {
		if e := recover(); e != nil {
			o.Fault = fmt.Sprint(e)
		}
	}()
	s := suite.Get()
	rng := rand.New(rand.NewSource(v.Seed))
	// with the secret of h the pairs are recognised after the shuffle: Y - x X is not changed by it
	x := s.Secret().Pick(random.Stream)
	var g abstract.Point
	if rng.Intn(2) == 0 {
		g = s.Point().Mul(nil, s.Secret().Pick(random.Stream))
	}
	h := s.Point().Mul(g, x)
	X, Y := make([]abstract.Point, v.N), make([]abstract.Point, v.N)
	at := map[string]int{}
	mark := func(X, Y abstract.Point) string { return s.Point().Sub(Y, s.Point().Mul(X, x)).String() }
	for i := range X {
		X[i] = s.Point().Mul(nil, s.Secret().Pick(random.Stream))
		Y[i] = s.Point().Mul(nil, s.Secret().Pick(random.Stream))
		at[mark(X[i], Y[i])] = i
	}
	if v.Unit == "proofs" {
		// several proofs of passes over one table: nothing in them, and no blinding of a pair, comes twice
		var seen []string
		for r := 0; r < v.Reps; r++ {
			st := s.Cipher(abstract.RandomKey)
			A, B, prover, _, _ := shuffle.Shuffle(s, g, h, X, Y, st)
			prf, err := proof.HashProve(s, "masks", st, prover)
			if err != nil {
				o.Out = "no proof"
				return
			}
			size := 64
			for at := 0; at < len(prf); at += size {
				end := at + size
				if end > len(prf) {
					end = len(prf)
				}
				seen = append(seen, fmt.Sprintf("%x", prf[at:end]))
			}
			for i := range A {
				k, ok := at[mark(A[i], B[i])]
				if !ok {
					o.Out = "no shuffle"
					return
				}
				seen = append(seen, s.Point().Sub(A[i], X[k]).String())
			}
		}
		o.Out, o.Data = "proved", map[string]interface{}{"seen": seen}
		return
	}
	var l [][]int
	for r := 0; r < v.Reps; r++ {
		st := s.Cipher(abstract.RandomKey)
		A, B, _, _, _ := shuffle.Shuffle(s, g, h, X, Y, st)
		p := make([]int, v.N)
		had := map[int]bool{}
		for i := range A {
			k, ok := at[mark(A[i], B[i])]
			if !ok || had[k] || A[i].Equal(X[k]) {
				o.Out = "no shuffle"
				return
			}
			p[i], had[k] = k, true
		}
		l = append(l, p)
	}
	o.Out, o.Data = "drawn", map[string]interface{}{"perms": l}
	return
}

// within runs a vector that may never come to an end
func within(limit time.Duration, v *vector) *outcome {
	ch := make(chan *outcome, 1)
	go func() { ch <- run(v) }()
	select {
	case o := <-ch:
		return o
	case <-time.After(limit):
		return &outcome{ID: v.ID, Out: "hang"}
	}
}

func main() {
	in := flag.String("in", "", "vectors")
	out := flag.String("out", "", "outcomes")
	par := flag.Int("par", 8, "at a time")
	limit := flag.Duration("limit", 10*time.Minute, "for one vector")
	flag.Parse()
	var l []*vector
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	res := make([]*outcome, len(l))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	for i := range l {
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			res[i] = within(*limit, l[i])
		}(i)
	}
	wg.Wait()
	if err == nil {
		b, err = json.Marshal(res)
	}
	if err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
