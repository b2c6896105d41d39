// Replay: looks for an input on which the built code breaks a property. It is
// run only after the verifier has refused an obligation, and decides nothing
// by itself. Every property has an oracle written from the property's text.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"
)

type finding struct {
	Document string `json:"document,omitempty"`
	Input    string `json:"input"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
}

// probe tries one random input and returns a finding if the property fails on it.
type probe func(g *gen) *finding

var probes = map[string]probe{}

func try(p probe, g *gen) (f *finding) {
	defer func() {
		if e := recover(); e != nil {
			f = &finding{Document: g.doc, Input: g.input, Expected: "a result or an error", Got: fmt.Sprintf("panic: %v", e)}
		}
	}()
	return p(g)
}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Int("seconds", 60, "")
	flag.Parse()
	p := probes[*prop]
	if p == nil {
		fmt.Println("no probe for", *prop)
		os.Exit(0)
	}
	end := time.Now().Add(time.Duration(*secs) * time.Second)
	var mu sync.Mutex
	var best *finding
	size := func(f *finding) int { return len(f.Document) + len(f.Input) }
	runs := 0
	var wg sync.WaitGroup
	type attempt struct {
		g     *gen
		since time.Time
	}
	now := make([]attempt, runtime.NumCPU())
	go func() { // an input on which the code does not return
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			for _, a := range now {
				if a.g == nil || time.Since(a.since) < 600*time.Millisecond {
					continue
				}
				b, _ := json.Marshal(&finding{Document: a.g.doc, Input: a.g.input, Expected: "a result or an error", Got: "nothing: the code does not return"})
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if time.Since(a.since) > 20*time.Second || ms.HeapAlloc > 6<<30 {
					fmt.Println("FAILING " + string(b))
					os.Exit(0)
				}
				os.WriteFile("slow.json", b, 0o644)
			}
			mu.Unlock()
		}
	}()
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func(w int64) {
			defer wg.Done()
			for i := int64(0); ; i++ {
				if i%16 == 0 {
					mu.Lock()
					late := time.Now().After(end)
					mu.Unlock()
					if late {
						break
					}
				}
				g := &gen{worker: w, Rand: rand.New(rand.NewSource(*seed*1000003 + i*64 + w))}
				mu.Lock()
				now[w] = attempt{g, time.Now()}
				mu.Unlock()
				f := try(p, g)
				mu.Lock()
				now[w] = attempt{}
				runs++
				if f != nil {
					if best == nil {
						if t := time.Now().Add(2 * time.Second); t.Before(end) {
							end = t
						}
					}
					if best == nil || size(f) < size(best) {
						best = f
					}
				}
				mu.Unlock()
			}
		}(int64(w))
	}
	wg.Wait()
	if best != nil {
		b, _ := json.Marshal(best)
		fmt.Println("FAILING " + string(b))
		return
	}
	fmt.Printf("no failing input among %d tried\n", runs)
}
