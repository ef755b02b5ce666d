// unit runs vectors that the specification enumerated on single real nodes
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sync"

	"zrepv/cluster"
)

func main() {
	bin := flag.String("bin", "", "binary of the code under test")
	in := flag.String("in", "", "vectors (JSON list)")
	out := flag.String("out", "", "outcomes (JSON list)")
	par := flag.Int("par", 8, "vectors at a time")
	tmp := flag.String("tmp", os.TempDir(), "scratch directory")
	ports := flag.Int("ports", os.Getpid()*37, "where the search for ports begins")
	slow := flag.Bool("slow", false, "wait longer everywhere")
	flag.Parse()
	var l []*cluster.Vector
	b, err := os.ReadFile(*in)
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cluster.SeedPorts(*ports)
	res := make([]*cluster.Outcome, len(l))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	for i := range l {
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			res[i] = cluster.RunVector(*bin, *tmp, l[i], *slow)
		}(i)
	}
	wg.Wait()
	if b, err = json.Marshal(res); err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
