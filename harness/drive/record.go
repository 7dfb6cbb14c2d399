package main

import (
	"encoding/json"
	"math/rand"
	"os"
	"runtime"
	"sync"

	"github.com/use-go/gosips/rtp"
)

type randEvent struct {
	K string `json:"k"`
	V []int  `json:"v"`
}

// recordRand lets several callers use one generator at once and writes down what
// each asked for and got, in its own order (the trace RandTrace.tla explains).
func recordRand(seed int64, scenario int, out string) error {
	rng := rand.New(rand.NewSource(seed*1000 + int64(scenario)))
	callers := 2 + rng.Intn(7)
	calls := 60 + rng.Intn(200)
	reseed := scenario%3 == 1
	kinds := [][]string{{"r32"}, {"r32", "dbl"}, {"r32", "r16", "dbl"}, {"r8", "r16", "r32", "dbl"}}[scenario%4]
	runtime.GOMAXPROCS([]int{8, 2, 4, 1}[rng.Intn(4)])
	start := uint32(rng.Uint64())
	r := rtp.NewRandomRand48FromSeed(start)
	plans := make([][]randEvent, callers)
	for t := range plans {
		for i := 0; i < calls; i++ {
			if reseed && rng.Intn(60) == 0 {
				plans[t] = append(plans[t], randEvent{"seed", u32Out(uint32(rng.Uint64()))})
			} else {
				plans[t] = append(plans[t], randEvent{kinds[rng.Intn(len(kinds))], nil})
			}
		}
	}
	var ready, done sync.WaitGroup
	gate := make(chan bool)
	for t := range plans {
		ready.Add(1)
		done.Add(1)
		go func(p []randEvent) {
			defer done.Done()
			ready.Done()
			<-gate
			for i := range p {
				if p[i].K == "seed" {
					v := p[i].V
					r.SetSeed(uint32(v[0])<<24 | uint32(v[1])<<16 | uint32(v[2])<<8 | uint32(v[3]))
				} else {
					p[i].V = ask(r, p[i].K)
				}
			}
		}(plans[t])
	}
	ready.Wait()
	close(gate)
	done.Wait()
	b, err := json.Marshal(map[string]interface{}{"seed": u32Out(start), "threads": plans})
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0644)
}
