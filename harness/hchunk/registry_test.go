package hchunk

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// Concurrent requests to a parser's registry, on real threads.

func playRegistry(r *hx.Rec) {
	fake := newFakeReader()
	p := chunk.NewParser(fake)
	r.Set("mode", "registry")
	pool := hx.Pick(r.Rng, []uint32{3, 4}, []uint32{3, 4, 5}, []uint32{6, 64, 400})
	var mu sync.Mutex
	ids := map[<-chan *chunk.Chunk]int{}
	num := func(s chunk.Stream) int {
		mu.Lock()
		defer mu.Unlock()
		if ids[s.In()] == 0 {
			ids[s.In()] = len(ids) + 1
		}
		return ids[s.In()]
	}
	var chunks []*chunk.Chunk
	items := []hx.M{}
	for k := hx.Pick(r.Rng, 0, 1, 2, 3); k > 0; k-- {
		c := pool[r.Rng.Intn(len(pool))]
		chunks = append(chunks, &chunk.Chunk{Header: &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: c}}})
		items = append(items, hx.M{"e": false, "c": int(c)})
	}
	if len(items) > 0 {
		r.Ev("feed", "items", items)
	}
	threads := 2 + r.Rng.Intn(3)
	var start atomic.Int32
	var wg sync.WaitGroup
	var taking sync.WaitGroup
	streams := map[<-chan *chunk.Chunk]bool{}
	var gots atomic.Int32
	stop := make(chan struct{})
	// drain takes from a stream until the scenario ends.
	drain := func(s chunk.Stream) {
		mu.Lock()
		old := streams[s.In()]
		streams[s.In()] = true
		mu.Unlock()
		if old {
			return
		}
		h := num(s)
		taking.Add(1)
		go func() {
			defer taking.Done()
			for {
				select {
				case c, ok := <-s.In():
					if !ok {
						return
					}
					n := 0
					for i, x := range chunks {
						if x == c {
							n = i + 1
						}
					}
					mu.Lock()
					late = append(late, [2]int{h, n})
					mu.Unlock()
					gots.Add(1)
				case <-stop:
					return
				}
			}
		}()
	}
	mu.Lock()
	late = nil
	mu.Unlock()
	for t := 1; t <= threads; t++ {
		var reqs [][]uint32
		for k := 1 + r.Rng.Intn(3); k > 0; k-- {
			var q []uint32
			for m := hx.Pick(r.Rng, 1, 1, 1, 2, 2, 3); m > 0; m-- {
				q = append(q, pool[r.Rng.Intn(len(pool))])
			}
			reqs = append(reqs, q)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Add(1)
			for start.Load() <= int32(threads) {
				runtime.Gosched()
			}
			for _, q := range reqs {
				is := []int{}
				for _, c := range q {
					is = append(is, int(c))
				}
				r.Ev("call", "t", t, "ids", is)
				s, err := p.Stream(q...)
				h := -1
				if err == nil {
					h = num(s)
				}
				r.Ev("ret", "t", t, "h", h)
				if err == nil {
					drain(s)
				}
			}
		}()
	}
	for start.Load() < int32(threads) {
		runtime.Gosched()
	}
	if r.Rng.Intn(2) == 0 { // messages all along
		go p.Recv()
		for _, c := range chunks {
			fake.push(c)
		}
		start.Add(1)
	} else {
		start.Add(1)
		go p.Recv()
		for _, c := range chunks {
			fake.push(c)
		}
	}
	wg.Wait()
	for _, c := range pool {
		r.Ev("call", "t", 0, "ids", []int{int(c)})
		s, err := p.Stream(c)
		h := -1
		if err == nil {
			h = num(s)
		}
		r.Ev("ret", "t", 0, "h", h)
		if err == nil {
			drain(s)
		}
	}
	for end := time.Now().Add(5 * time.Second); gots.Load() < int32(len(chunks)) && time.Now().Before(end); {
		time.Sleep(20 * time.Microsecond)
	}
	mu.Lock()
	for _, g := range late {
		r.Ev("got", "h", g[0], "n", g[1])
	}
	mu.Unlock()
	p.Close()
	close(stop)
	taking.Wait()
	r.Ev("done")
}

// late is what the takers of the scenario under way have got.
var late [][2]int

func registryScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i := 0; i < hx.N(1500, 20000); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("concurrent-%d", i), Run: playRegistry})
	}
	return ss
}
