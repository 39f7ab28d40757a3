package hchunk

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// Combined streams on their own.

type fOp struct {
	O  string `json:"o"`
	S  int    `json:"s"`
	N  int    `json:"n"`
	Ss []int  `json:"ss"`
}

// source is a stream a scenario feeds.
type source struct {
	ch   chan *chunk.Chunk
	mu   sync.Mutex
	q    []*chunk.Chunk
	sent []*chunk.Chunk
	data [][]byte
	over bool
	more chan struct{}
}

func (s *source) In() <-chan *chunk.Chunk { return s.ch }

func (s *source) pump() {
	for {
		s.mu.Lock()
		var c *chunk.Chunk
		if len(s.q) > 0 {
			c, s.q = s.q[0], s.q[1:]
		}
		over := s.over
		s.mu.Unlock()
		switch {
		case c != nil:
			s.ch <- c
		case over:
			close(s.ch)
			return
		default:
			<-s.more
		}
	}
}

func (s *source) wake() {
	select {
	case s.more <- struct{}{}:
	default:
	}
}

func playFanIn(r *hx.Rec, n int, steps [][]fOp) {
	r.Set("sources", n)
	ss := make([]*source, n)
	for i := range ss {
		ss[i] = &source{ch: make(chan *chunk.Chunk), more: make(chan struct{}, 1)}
		go ss[i].pump()
	}
	m := chunk.NewMultiStream()
	var mu sync.Mutex
	res := [][]int{}
	need := make(chan int, 1000)
	dead := false
	go func() {
		for k := range need {
			for ; k > 0; k-- {
				c, ok := <-m.In()
				mu.Lock()
				if !ok {
					res = append(res, []int{0, 0})
					dead = true
					mu.Unlock()
					return
				}
				id := []int{-1, -1}
				for i, s := range ss {
					for j, x := range s.sent {
						if x == c && bytes.Equal(x.Data, s.data[j]) {
							id = []int{i + 1, j + 1}
						}
					}
				}
				res = append(res, id)
				mu.Unlock()
			}
		}
	}()
	joined := map[int]bool{}
	waiting := false
	waited := make(chan struct{})
	do := func(op fOp) hx.M {
		switch op.O {
		case "send":
			s := ss[op.S-1]
			if s.over {
				return nil
			}
			for i := 0; i < op.N; i++ {
				b := make([]byte, 8)
				r.Rng.Read(b)
				c := &chunk.Chunk{Header: &chunk.Header{}, Data: append([]byte{}, b...)}
				mu.Lock()
				s.sent, s.data = append(s.sent, c), append(s.data, b)
				mu.Unlock()
				s.mu.Lock()
				s.q = append(s.q, c)
				s.mu.Unlock()
			}
			s.wake()
			return hx.M{"o": "send", "s": op.S, "n": op.N}
		case "over":
			s := ss[op.S-1]
			if s.over {
				return nil
			}
			s.mu.Lock()
			s.over = true
			s.mu.Unlock()
			s.wake()
			return hx.M{"o": "over", "s": op.S}
		case "join":
			may := !waiting
			for i := range joined {
				may = may || !ss[i-1].over
			}
			var fresh []chunk.Stream
			which := []int{}
			for _, i := range op.Ss {
				if !joined[i] {
					fresh, which = append(fresh, ss[i-1]), append(which, i)
				}
			}
			if !may || len(fresh) == 0 {
				return nil
			}
			for _, i := range which {
				joined[i] = true
			}
			if r.Rng.Intn(3) == 0 {
				fresh = nested(r.Rng, fresh)
			}
			if r.Rng.Intn(4) == 0 { // one after the other
				for _, f := range fresh {
					if m.Append(f) != m {
						panic("Append returned another stream")
					}
				}
				fresh = nil
			}
			if m.Append(fresh...) != m {
				panic("Append returned another stream")
			}
			return hx.M{"o": "join", "ss": which}
		case "take":
			mu.Lock()
			d := dead
			mu.Unlock()
			if d {
				return nil
			}
			need <- op.N
			return hx.M{"o": "take", "n": op.N}
		case "wait":
			if waiting {
				return nil
			}
			waiting = true
			go func() {
				m.AwaitClose()
				close(waited)
			}()
			return hx.M{"o": "wait"}
		}
		panic(op.O)
	}
	step := func(ops []fOp) {
		log := []hx.M{}
		for _, op := range ops {
			if x := do(op); x != nil {
				log = append(log, x)
			}
		}
		hx.Wait()
		back := false
		select {
		case <-waited:
			back = true
		default:
		}
		mu.Lock()
		r.Ev("step", "ops", log, "res", res, "waited", back)
		res = [][]int{}
		mu.Unlock()
	}
	for _, s := range steps {
		step(s)
	}
	// To the end, in one of several orders.
	last := []fOp{{O: "wait"}, {O: "take", N: 100000}}
	for i := 1; i <= n; i++ {
		last = append(last, fOp{O: "over", S: i}, fOp{O: "join", Ss: []int{i}})
	}
	if r.Rng.Intn(2) == 0 {
		r.Rng.Shuffle(len(last), func(i, j int) { last[i], last[j] = last[j], last[i] })
	}
	for _, s := range groupedF(r.Rng, last, hx.Pick(r.Rng, 0, .5, 1)) {
		step(s)
	}
	// What was not added by now is not any more.
	for i, s := range ss {
		if !joined[i+1] {
			go func() {
				for range s.ch {
				}
			}()
		}
	}
	close(need)
	hx.Wait()
	r.Ev("done")
}

// nested replaces some of the streams by combined streams of them.
func nested(r *rand.Rand, ss []chunk.Stream) []chunk.Stream {
	var res []chunk.Stream
	for len(ss) > 0 {
		n := 1 + r.Intn(len(ss))
		part := ss[:n:n]
		ss = ss[n:]
		switch {
		case r.Intn(4) == 0:
			res = append(res, part...)
			continue
		case n > 1 && r.Intn(3) == 0:
			part = nested(r, part)
		}
		in := chunk.NewMultiStream().Append(part...)
		go in.AwaitClose()
		res = append(res, in)
	}
	return res
}

func groupedF(r *rand.Rand, ops []fOp, p float64) [][]fOp {
	var ss [][]fOp
	for i, op := range ops {
		if i == 0 || r.Float64() >= p {
			ss = append(ss, nil)
		}
		ss[len(ss)-1] = append(ss[len(ss)-1], op)
	}
	return ss
}

func randomFanIn(r *rand.Rand) (int, []fOp) {
	n := 1 + r.Intn(5)
	var ops []fOp
	for k := 3 + r.Intn(18); k > 0; k-- {
		s := 1 + r.Intn(n)
		switch x := r.Intn(20); {
		case x < 7:
			ops = append(ops, fOp{O: "send", S: s, N: 1 + r.Intn(4)})
		case x < 9:
			ops = append(ops, fOp{O: "over", S: s})
		case x < 13:
			q := []int{}
			for _, i := range r.Perm(n)[:1+r.Intn(n)] {
				q = append(q, i+1)
			}
			ops = append(ops, fOp{O: "join", Ss: q})
		case x < 18:
			ops = append(ops, fOp{O: "take", N: hx.Pick(r, 1, 1, 2, 5, 20)})
		case x < 19:
			ops = append(ops, fOp{O: "wait"})
		}
	}
	return n, ops
}

func fanInScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i, g := range hx.Inputs[[]fOp]() {
		n := 1
		for _, op := range g {
			n = max(n, op.S)
			for _, s := range op.Ss {
				n = max(n, s)
			}
		}
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("spec-%d", i), Run: func(r *hx.Rec) {
			playFanIn(r, n, groupedF(r.Rng, g, hx.Pick(r.Rng, 0, 0, .5, 1)))
		}})
	}
	// Many sources, and many messages.
	for i := 0; i < hx.N(6, 60); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("wide-%d", i), Run: func(r *hx.Rec) {
			n := hx.Pick(r.Rng, 20, 60, 150)
			if i == 0 {
				n = hx.N(600, 1500)
			}
			var ops []fOp
			for j := 1; j <= n; j++ {
				if r.Rng.Intn(8) > 0 {
					ops = append(ops, fOp{O: "join", Ss: []int{j, 1 + (j+r.Rng.Intn(n-1))%n}})
				}
				ops = append(ops, fOp{O: "send", S: 1 + r.Rng.Intn(n), N: 1 + r.Rng.Intn(3)})
				if r.Rng.Intn(4) == 0 {
					ops = append(ops, fOp{O: "over", S: 1 + r.Rng.Intn(n)})
				}
				if r.Rng.Intn(4) == 0 {
					ops = append(ops, fOp{O: "take", N: r.Rng.Intn(10)})
				}
			}
			playFanIn(r, n, groupedF(r.Rng, ops, hx.Pick(r.Rng, 0, .3, .6, .9)))
		}})
	}
	for i := 0; i < 2; i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("long-%d", i), Run: func(r *hx.Rec) {
			ops := []fOp{{O: "join", Ss: []int{1, 2, 3}}, {O: "take", N: 1000000}}
			for j := 0; j < hx.N(300, 3000); j++ {
				ops = append(ops, fOp{O: "send", S: 1 + r.Rng.Intn(3), N: 1 + r.Rng.Intn(8)})
			}
			playFanIn(r, 3, groupedF(r.Rng, ops, .5))
		}})
	}
	for i := 0; i < hx.N(1200, 15000); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("random-%d", i), Run: func(r *hx.Rec) {
			n, ops := randomFanIn(r.Rng)
			playFanIn(r, n, groupedF(r.Rng, ops, hx.Pick(r.Rng, 0, .3, .6, .9)))
		}})
	}
	return ss
}
