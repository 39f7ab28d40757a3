// Package hman drives the command manager with its three endpoints.
package hman

import (
	"fmt"
	"math/rand"
	"slices"
	"sync"
	"testing"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"verif/harness/hamf"
	"verif/harness/hx"
)

func TestRun(t *testing.T) {
	hx.Main(t, scenarios(), true)
}

var ends = []string{"conn", "stream", "data"}

// source is the chunk stream the manager gets its chunks from.
type source struct{ c chan *chunk.Chunk }

func (s *source) In() <-chan *chunk.Chunk { return s.c }

// transport is where the manager's endpoints write to.
type transport struct{ x *run }

func (t *transport) Write(c *chunk.Chunk) error {
	e := "data"
	switch c.Header.BasicHeader.StreamId {
	case 3:
		e = "conn"
	case 5:
		e = "stream"
	}
	t.x.out(e, "out", hamf.Wire(c))
	return nil
}
func (t *transport) WriteSize() int   { return 128 }
func (t *transport) SetWriteSize(int) {}

type end struct {
	run, close func()
	in         func() (any, bool)
	err        func() bool
	submit     func(r *rand.Rand) (hamf.Msg, func())
	need       map[string]chan int
	dead       map[string]bool
	q          []func()
	more       chan struct{}
	acc        int
	gone       bool
}

type run struct {
	r     *hx.Rec
	m     *cmd.Manager
	src   *source
	mine  bool
	mu    sync.Mutex
	e     map[string]*end
	outs  map[string][]any
	ends  []any
	feedq []*chunk.Chunk
	over  bool
	more  chan struct{}
	fed   int
	ops   []any
	asked bool
	shut  bool
	live  map[string]bool
	bye   map[string]bool
	none  bool // there is no more input
}

func (x *run) out(e, c string, v any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	k := e + "/" + c
	x.outs[k] = append(x.outs[k], hx.M{"e": e, "c": c, "v": v})
}

func newRun(r *hx.Rec, mine bool) *run {
	x := &run{r: r, mine: mine, src: &source{make(chan *chunk.Chunk)}, outs: map[string][]any{}, more: make(chan struct{}, 1),
		live: map[string]bool{}, bye: map[string]bool{}}
	r.Set("mine", mine)
	x.m = cmd.New(x.src, &transport{x})
	c, s, d := x.m.NetConn(), x.m.NetStream(), x.m.DataStream()
	deliver := func(v any, ok bool) (any, bool) {
		if !ok {
			return 0, false
		}
		return hamf.Wide(hamf.Delivered(v)), true
	}
	x.e = map[string]*end{
		"conn": {run: c.Listen, close: c.Close,
			in:  func() (any, bool) { v, ok := <-c.In(); return deliver(v, ok) },
			err: func() bool { _, ok := <-c.Errs(); return ok },
			submit: func(r *rand.Rand) (hamf.Msg, func()) {
				m := hamf.Random(r, hx.Pick(r, "connectResponse", "createStreamResponse"), "")
				v := m.Real(r).(conn.Marshallable)
				return m, func() { c.Out() <- v }
			}},
		"stream": {run: s.Listen, close: s.Close,
			in:  func() (any, bool) { v, ok := <-s.In(); return deliver(v, ok) },
			err: func() bool { _, ok := <-s.Errs(); return ok },
			submit: func(r *rand.Rand) (hamf.Msg, func()) {
				m := hamf.Random(r, "status", "")
				v := m.Real(r).(*stream.Status)
				return m, func() { s.Status() <- v }
			}},
		"data": {run: d.Recv, close: d.Close,
			in:  func() (any, bool) { v, ok := <-d.Out(); return deliver(v, ok) },
			err: func() bool { _, ok := <-d.Errs(); return ok },
			submit: func(r *rand.Rand) (hamf.Msg, func()) {
				m := hamf.Random(r, "dataFrame", "")
				v := m.Real(r).(data.Data)
				return m, func() { d.In() <- v }
			}},
	}
	for name, e := range x.e {
		e.need = map[string]chan int{"in": make(chan int, 1000), "errs": make(chan int, 1000)}
		e.dead = map[string]bool{}
		e.more = make(chan struct{}, 1)
		go x.taker(name, e, "in", func() (any, bool) { return e.in() })
		go x.taker(name, e, "errs", func() (any, bool) { return 0, e.err() })
		go x.submitter(e)
		x.live[name] = mine
	}
	go x.feeder()
	go x.m.Dispatch(mine)
	return x
}

func (x *run) taker(name string, e *end, c string, one func() (any, bool)) {
	for n := range e.need[c] {
		for ; n > 0; n-- {
			v, ok := one()
			if ok {
				x.out(name, c, v)
				continue
			}
			x.mu.Lock()
			e.dead[c] = true
			x.ends = append(x.ends, hx.M{"e": name, "c": c})
			x.mu.Unlock()
			return
		}
	}
}

func (x *run) submitter(e *end) {
	defer func() {
		if recover() != nil { // the channel was closed
			x.mu.Lock()
			e.gone = true
			x.mu.Unlock()
		}
	}()
	for {
		x.mu.Lock()
		var f func()
		if len(e.q) > 0 {
			f, e.q = e.q[0], e.q[1:]
		}
		x.mu.Unlock()
		if f == nil {
			<-e.more
			continue
		}
		f()
		x.mu.Lock()
		e.acc++
		x.mu.Unlock()
	}
}

func (x *run) feeder() {
	for {
		x.mu.Lock()
		var c *chunk.Chunk
		if len(x.feedq) > 0 {
			c, x.feedq = x.feedq[0], x.feedq[1:]
		}
		over := x.over
		x.mu.Unlock()
		switch {
		case c != nil:
			x.src.c <- c
			x.mu.Lock()
			x.fed++
			x.mu.Unlock()
		case over:
			close(x.src.c)
			return
		default:
			<-x.more
		}
	}
}

func wake(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

/* Operations. */

func (x *run) op(m hx.M) { x.ops = append(x.ops, m) }

func (x *run) doFeed(to string, bad bool) {
	if x.none {
		return
	}
	c := hamf.Incoming(x.r.Rng, to, bad, x.r.Rng.Intn(256))
	x.op(hx.M{"o": "feed", "items": []any{hx.M{"type": int(c.Header.MessageHeader.TypeId), "h": hamf.Header4(c.Header), "data": hx.Ints(c.Data)}}})
	x.mu.Lock()
	x.feedq = append(x.feedq, c)
	x.mu.Unlock()
	wake(x.more)
}

func (x *run) doEnd() {
	if x.none {
		return
	}
	x.none = true
	x.op(hx.M{"o": "inend"})
	x.mu.Lock()
	x.over = true
	x.mu.Unlock()
	wake(x.more)
}

func (x *run) doSubmit(name string) {
	e := x.e[name]
	x.mu.Lock()
	defer x.mu.Unlock()
	if e.gone {
		return
	}
	m, f := e.submit(x.r.Rng)
	x.op(hx.M{"o": "submit", "e": name, "items": []any{m}})
	e.q = append(e.q, f)
	wake(e.more)
}

func (x *run) doTake(name, c string, n int) {
	e := x.e[name]
	x.mu.Lock()
	dead := e.dead[c]
	x.mu.Unlock()
	if dead || n == 0 {
		return
	}
	x.op(hx.M{"o": "take", "e": name, "c": c, "n": n})
	e.need[c] <- n
}

func (x *run) doStart(name string) {
	if x.live[name] {
		return
	}
	x.live[name] = true
	x.op(hx.M{"o": "start", "e": name})
	go x.e[name].run()
}

func (x *run) doBye(name string) {
	if x.mine || !x.isShut() || !x.live[name] || x.bye[name] {
		return
	}
	x.bye[name] = true
	x.op(hx.M{"o": "bye", "e": name})
	go x.e[name].close()
}

func (x *run) doClose() {
	if x.asked {
		return
	}
	x.asked = true
	x.op(hx.M{"o": "close"})
	go func() {
		x.m.Close()
		x.mu.Lock()
		x.shut = true
		x.mu.Unlock()
	}()
}

func (x *run) isShut() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.shut }

func (x *run) step() {
	hx.Wait()
	x.mu.Lock()
	defer x.mu.Unlock()
	outs, acc := []any{}, hx.M{}
	for _, e := range ends {
		for _, c := range []string{"in", "errs", "out"} {
			outs = append(outs, x.outs[e+"/"+c]...)
		}
		acc[e] = x.e[e].acc
	}
	or := func(a []any) []any {
		if a == nil {
			return []any{}
		}
		return a
	}
	x.r.Ev("step", "ops", or(x.ops), "outs", outs, "ends", or(x.ends), "acc", acc, "fed", x.fed, "closed", x.shut)
	x.ops, x.outs, x.ends = nil, map[string][]any{}, nil
}

// finish lets everything out and sees what still works, before and after closing.
func (x *run) finish() {
	for _, e := range ends {
		x.doStart(e)
		x.doTake(e, "in", 300)
		x.doTake(e, "errs", 300)
	}
	x.step()
	for _, e := range ends {
		x.doFeed(e, false)
		x.doSubmit(e)
	}
	x.step()
	if !x.asked && x.r.Rng.Intn(3) > 0 {
		x.doEnd()
		x.step()
		for _, e := range ends {
			x.doSubmit(e)
		}
		x.step()
	}
	x.doClose()
	x.step()
	for _, e := range ends {
		x.doFeed(e, false)
		x.doSubmit(e)
	}
	x.step()
	for _, e := range ends {
		x.doTake(e, "in", 1)
		x.doTake(e, "errs", 1)
		x.doBye(e)
	}
	x.step()
	for _, e := range ends {
		x.doSubmit(e)
	}
	x.step()
	x.r.Ev("done")
}

func (x *run) random(closing bool) {
	r := x.r.Rng
	e := hx.Pick(r, ends...)
	switch k := r.Intn(24); {
	case k < 9:
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			x.doFeed(hx.Pick(r, "conn", "stream", "data", "none"), r.Intn(4) == 0)
		}
	case k < 15:
		x.doTake(e, "in", 1+r.Intn(3))
	case k < 18:
		x.doTake(e, "errs", 1+r.Intn(3))
	case k < 21:
		x.doSubmit(e)
	case k < 22:
		if !x.mine {
			x.doStart(e)
		}
	case k < 23:
		switch r.Intn(8) {
		case 0:
			x.doEnd()
		case 1, 2:
			x.doBye(e)
		}
	default:
		if closing && r.Intn(2) == 0 {
			x.doClose()
		}
	}
}

type genRun struct {
	Mine bool `json:"mine"`
	Ops  []struct {
		O   string `json:"o"`
		To  string `json:"to"`
		Bad bool   `json:"bad"`
		E   string `json:"e"`
		C   string `json:"c"`
	} `json:"ops"`
}

func scenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) { ss = append(ss, hx.Scenario{ID: "man-" + id, Run: f}) }
	for i, g := range hx.Inputs[genRun]() {
		add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) {
			x := newRun(r, g.Mine)
			every := 1 + r.Rng.Intn(3)
			for j, op := range g.Ops {
				switch op.O {
				case "feed":
					x.doFeed(op.To, op.Bad)
				case "inend":
					x.doEnd()
				case "submit":
					x.doSubmit(op.E)
				case "take":
					x.doTake(op.E, op.C, 1)
				case "start":
					x.doStart(op.E)
				case "bye":
					x.doBye(op.E)
				case "close":
					x.doClose()
				}
				if j%every == 0 {
					x.step()
				}
			}
			x.finish()
		})
	}
	for i := 0; i < hx.N(250, 4000); i++ {
		add(fmt.Sprintf("random-%d", i), func(r *hx.Rec) {
			x := newRun(r, r.Rng.Intn(3) > 0)
			every := 1 + r.Rng.Intn(4)
			for j, n := 0, 5+r.Rng.Intn(50); j < n; j++ {
				x.random(i%3 > 0)
				if r.Rng.Intn(every) == 0 {
					x.step()
				}
			}
			x.finish()
		})
	}
	for i := 0; i < hx.N(30, 300); i++ {
		// Everything is taken all the time.
		add(fmt.Sprintf("eager-%d", i), func(r *hx.Rec) {
			x := newRun(r, i%2 == 0)
			for _, e := range ends {
				x.doStart(e)
				x.doTake(e, "in", 200)
				x.doTake(e, "errs", 200)
			}
			for j := 0; j < 40; j++ {
				for k := 0; k < 3; k++ {
					x.doFeed(hx.Pick(r.Rng, "conn", "stream", "data", "none"), r.Rng.Intn(5) == 0)
				}
				x.doSubmit(hx.Pick(r.Rng, ends...))
				if r.Rng.Intn(2) == 0 {
					x.step()
				}
			}
			x.finish()
		})
		if i < hx.N(2, 6) {
			add(fmt.Sprintf("long-%d", i), func(r *hx.Rec) {
				x := newRun(r, i%2 == 0)
				for _, e := range ends {
					x.doStart(e)
					x.doTake(e, "in", 1000000)
					x.doTake(e, "errs", 1000000)
				}
				for j := 0; j < hx.N(400, 1500); j++ {
					x.doFeed(hx.Pick(r.Rng, "conn", "stream", "data", "none"), r.Rng.Intn(10) == 0)
					x.doSubmit(hx.Pick(r.Rng, ends...))
					x.step()
				}
				x.finish()
			})
		}
		// Close with much waiting.
		add(fmt.Sprintf("queue-%d", i), func(r *hx.Rec) {
			x := newRun(r, i%2 == 0)
			if i%4 == 1 {
				for _, e := range ends {
					x.doStart(e)
				}
			}
			for j := 0; j < 100; j++ {
				x.doFeed(hx.Pick(r.Rng, "conn", "stream", "data", "none"), r.Rng.Intn(5) == 0)
			}
			for _, e := range ends {
				for j := 0; j < 3*r.Rng.Intn(2); j++ {
					x.doSubmit(e)
				}
			}
			if r.Rng.Intn(2) == 0 {
				x.step()
			}
			x.doClose()
			x.step()
			for j := 0; j < 70; j++ {
				x.doTake(hx.Pick(r.Rng, ends...), hx.Pick(r.Rng, "in", "in", "in", "errs"), 1)
				x.step()
			}
			x.finish()
		})
	}
	sweeps(add)
	gates(add)
	wideGates(add)
	return ss
}

// sweeps give a manager chunks of every type.
func sweeps(add func(string, func(*hx.Rec))) {
	csids := []uint32{2, 3, 4, 5, 6, 7, 8, 9, 63, 64, 67, 68, 72, 259, 260, 264, 320, 65539, 65540, 65544, 65599, 1 << 24, 3 << 24, 4 << 24, 8 << 24}
	msids := []uint32{0, 1, 2, 3, 4, 8, 255, 256, 257, 1 << 16, 1 << 24, 1<<24 | 1, 1 << 31, 1<<32 - 1}
	if hx.Thorough() {
		for i := uint32(10); i < 320; i++ {
			if slices.Contains(csids, i) {
				continue
			}
			csids = append(csids, i)
		}
	}
	for _, csid := range csids {
		add(fmt.Sprintf("sweep-%d", csid), func(r *hx.Rec) {
			r.Set("mine", true)
			for i, msid := range msids {
				if i > 1 && !hx.Thorough() && csid != 3 && csid != 4 && csid != 8 && r.Rng.Intn(4) > 0 {
					continue
				}
				sweep(r, csid, msid)
			}
			r.Ev("done")
		})
	}
}

func sweep(r *hx.Rec, csid, msid uint32) {
	src := &source{make(chan *chunk.Chunk)}
	m := cmd.New(src, chunk.NoopWriter)
	go m.Dispatch(true)
	var mu sync.Mutex
	typ := 0
	got := map[string][]int{"conn": {}, "stream": {}, "data": {}}
	react := func(e string) {
		mu.Lock()
		got[e] = append(got[e], typ)
		mu.Unlock()
	}
	go func() {
		for {
			select {
			case <-m.NetConn().In():
				react("conn")
			case <-m.NetConn().Errs():
				react("conn")
			case _, ok := <-m.NetStream().In():
				if !ok {
					return
				}
				react("stream")
			case _, ok := <-m.NetStream().Errs():
				if !ok {
					return
				}
				react("stream")
			case _, ok := <-m.DataStream().Out():
				if !ok {
					return
				}
				react("data")
			case _, ok := <-m.DataStream().Errs():
				if !ok {
					return
				}
				react("data")
			}
		}
	}()
	for t := 0; t < 256; t++ {
		mu.Lock()
		typ = t
		mu.Unlock()
		var d []byte
		if r.Rng.Intn(2) == 0 {
			d = []byte{byte(r.Rng.Intn(256))}
		}
		src.c <- chunk.New(hamf.RandHeader(r.Rng, csid, byte(t), msid, len(d)), d)
		hx.Wait()
	}
	m.Close()
	hx.Wait()
	r.Ev("sweep", "csid", hx.Q4(csid), "msid", hx.Q4(msid), "got", got)
}

// gates asks gates of all shapes about chunks.
func gates(add func(string, func(*hx.Rec))) {
	for i := 0; i < hx.N(20, 200); i++ {
		add(fmt.Sprintf("gates-%d", i), func(r *hx.Rec) {
			r.Set("mine", true)
			for j := 0; j < 40; j++ {
				g, v := gate(r.Rng, 3)
				for k := 0; k < 4; k++ {
					h := hamf.RandHeader(r.Rng, id(r.Rng), byte(hx.Pick(r.Rng, 8, 9, 18, 20, r.Rng.Intn(256))), id(r.Rng), 0)
					r.Ev("gate", "g", v, "c", hx.M{"csid": hx.Q4(h.BasicHeader.StreamId), "msid": hx.Q4(h.MessageHeader.StreamId),
						"type": int(h.MessageHeader.TypeId)}, "open", g.Open(chunk.New(h, nil)))
				}
			}
			r.Ev("done")
		})
	}
}

// wideGates asks gates of many, of which one alone decides.
func wideGates(add func(string, func(*hx.Rec))) {
	for i := 0; i < hx.N(6, 60); i++ {
		add(fmt.Sprintf("gates-wide-%d", i), func(r *hx.Rec) {
			r.Set("mine", true)
			none := []any{}
			for _, n := range []int{4, 9, 17, 33, 70, hx.N(140, 600)} {
				csid := id(r.Rng)
				for j, k := range []int{0, n - 1, n / 2, r.Rng.Intn(n), -1} {
					any := (i+j)%2 == 0 // of an any gate, one is open; of the other, one is not
					var gs []cmd.Gate
					vs := []interface{}{}
					for m := 0; m < n; m++ {
						w := csid
						if (m == k) != any {
							for w == csid {
								w = id(r.Rng)
							}
						}
						gs, vs = append(gs, &cmd.StreamIdGate{StreamId: w}), append(vs, hx.M{"k": "csid", "n": hx.Q4(w), "gs": none})
					}
					var g cmd.Gate = cmd.NewUnionGate(gs...)
					v := hx.M{"k": "all", "n": none, "gs": vs}
					if any {
						g, v["k"] = cmd.NewAnyGate(gs...), "any"
					}
					for d := r.Rng.Intn(8) * r.Rng.Intn(8); d > 0; d-- { // one within the other
						if d%2 == 0 {
							g, v = cmd.NewUnionGate(g), hx.M{"k": "all", "n": none, "gs": []interface{}{v}}
						} else {
							g, v = cmd.NewAnyGate(g), hx.M{"k": "any", "n": none, "gs": []interface{}{v}}
						}
					}
					h := hamf.RandHeader(r.Rng, csid, 20, id(r.Rng), 0)
					r.Ev("gate", "g", v, "c", hx.M{"csid": hx.Q4(h.BasicHeader.StreamId), "msid": hx.Q4(h.MessageHeader.StreamId),
						"type": int(h.MessageHeader.TypeId)}, "open", g.Open(chunk.New(h, nil)))
				}
			}
			r.Ev("done")
		})
	}
}

func id(r *rand.Rand) uint32 {
	return hx.Pick(r, uint32(r.Intn(4)), uint32(r.Intn(4)), uint32(r.Intn(4))<<24, uint32(r.Intn(4))|256, r.Uint32())
}

func gate(r *rand.Rand, depth int) (cmd.Gate, hx.M) {
	none := []any{}
	if k := r.Intn(8); depth > 0 && k < 5 {
		var gs []cmd.Gate
		vs := []any{}
		for i, n := 0, hx.Pick(r, 0, 1, 2, 2, 3); i < n; i++ {
			g, v := gate(r, depth-1)
			gs, vs = append(gs, g), append(vs, v)
		}
		if k%2 == 0 {
			return cmd.NewUnionGate(gs...), hx.M{"k": "all", "n": none, "gs": vs}
		}
		return cmd.NewAnyGate(gs...), hx.M{"k": "any", "n": none, "gs": vs}
	}
	switch n := id(r); r.Intn(3) {
	case 0:
		return &cmd.StreamIdGate{StreamId: n}, hx.M{"k": "csid", "n": hx.Q4(n), "gs": none}
	case 1:
		return &cmd.MessageStreamGate{StreamId: n}, hx.M{"k": "msid", "n": hx.Q4(n), "gs": none}
	}
	t := byte(hx.Pick(r, 8, 9, 18, 20, r.Intn(256)))
	return &cmd.TypeIdGate{TypeId: t}, hx.M{"k": "type", "n": []int{int(t)}, "gs": none}
}
