// drv runs scenarios on the real nodes and writes what it saw
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sync"
	"time"

	"zrepv/cluster"
)

func main() {
	bin := flag.String("bin", "", "binary of the code under test")
	in := flag.String("in", "", "scenarios (JSON list)")
	out := flag.String("out", "", "traces (JSON list)")
	par := flag.Int("par", 12, "scenarios at a time")
	slow := flag.Bool("slow", false, "wait longer everywhere")
	tmp := flag.String("tmp", os.TempDir(), "scratch directory")
	ports := flag.Int("ports", os.Getpid()*37, "where the search for ports begins")
	budget := flag.Duration("budget", time.Hour, "start no further scenarios after this time")
	flag.StringVar(&cluster.Cut, "cut", "some", "which messages come in pieces: none, some, all")
	flag.Parse()
	l, err := cluster.ReadScenarios(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cluster.SeedPorts(*ports)
	res := make([]*cluster.Trace, len(l))
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	start := time.Now()
	for i := range l {
		sem <- true
		if time.Since(start) > *budget {
			<-sem
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			res[i] = cluster.Run(*bin, *tmp, l[i], *slow)
		}(i)
	}
	wg.Wait()
	var done []*cluster.Trace
	for _, t := range res {
		if t != nil {
			done = append(done, t)
		}
	}
	b, err := json.Marshal(done)
	if err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
