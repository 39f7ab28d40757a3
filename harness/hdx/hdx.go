// Package hdx drives endpoints that relay in both directions (control streams,
// net connections, net streams, data streams) and records what comes of it, for
// validation against the specification Duplex.
package hdx

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// Err is an error the harness causes.
type Err struct{ Kind string }

func (e *Err) Error() string { return "harness: " + e.Kind }

// Fail is an error of a kind.
func Fail(kind string) error {
	switch kind {
	case "eof", "short":
		return io.EOF
	case "closedpipe":
		return io.ErrClosedPipe
	case "netclosed":
		return net.ErrClosed
	}
	if len(kind)%2 == 0 {
		return &timeout{Err{kind}}
	}
	return &Err{kind}
}

// timeout is an Err that says it is one.
type timeout struct{ Err }

func (e *timeout) Unwrap() error   { return &e.Err }
func (e *timeout) Timeout() bool   { return true }
func (e *timeout) Temporary() bool { return true }

// KindFor is the kind of the n-th item's error; eof is what the endpoint's own
// calls io.EOF.
func KindFor(r *rand.Rand, bad string, n int, eof string) string {
	switch r.Intn(25) {
	case 0:
		return eof
	case 1:
		return "closedpipe"
	case 2:
		return "netclosed"
	}
	return fmt.Sprint(bad, n)
}

// Kind tells the kind of an error, with the help of the endpoint's own f.
func Kind(err error, f func(error) string) string {
	var e *Err
	if errors.As(err, &e) {
		return e.Kind
	}
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, io.ErrClosedPipe):
		return "closedpipe"
	case errors.Is(err, net.ErrClosed):
		return "netclosed"
	}
	if f != nil {
		if k := f(err); k != "" {
			return k
		}
	}
	return "?"
}

// Endpoint is one endpoint under test.
type Endpoint struct {
	Run    func()               // its loop
	In     func() (any, bool)   // takes one delivery, in the specification's terms
	Err    func() (error, bool) // takes one error
	Submit func(any)            // submits one message
	Close  func()
	Feed   func(x *chunk.Chunk) // blocks until the chunk is taken; nil: by channel
	End    func()
}

// Item is one incoming chunk or one submission.
type Item struct {
	Spec  hx.M // what the specification is told
	Chunk *chunk.Chunk
	Value any
	Key   string // what a chunk of a submission whose write is to fail contains
}

// Kit is one kind of endpoint.
type Kit struct {
	Name     string
	New      func(chunks chan *chunk.Chunk, w chunk.Writer) *Endpoint
	Incoming func(r *rand.Rand, bad bool, n int) *Item
	Outgoing func(r *rand.Rand, bad string, n int) *Item // bad: "", "pack" or "write"
	Kinds    func(error) string
	Wire     func(c *chunk.Chunk) any // a chunk handed to the transport, in the specification's terms
}

// transport is the chunk.Writer the endpoint writes to.
type transport struct {
	mu    sync.Mutex
	cond  *sync.Cond
	held  bool
	let   int // times what was held was let go
	outs  []any
	fails map[string]string // key to kind
	kit   *Kit
	size  int
	in    int // writes under way
	most  int
}

func (t *transport) Write(c *chunk.Chunk) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.outs = append(t.outs, t.kit.Wire(c))
	for n := t.let; t.held && t.let == n; {
		t.cond.Wait()
	}
	for k, kind := range t.fails {
		if c != nil && strings.Contains(string(c.Data), k) {
			return Fail(kind)
		}
	}
	return nil
}
func (t *transport) WriteSize() int     { return t.size }
func (t *transport) SetWriteSize(n int) { t.size = n }

type run struct {
	r     *hx.Rec
	kit   *Kit
	e     *Endpoint
	t     *transport
	mu    sync.Mutex
	feedq []*chunk.Chunk
	over  bool
	more  chan struct{}
	feed  chan *chunk.Chunk
	need  map[string]chan int
	ins   []any
	errs  []string
	subs  []*submitter
	ops   []any
	shut  bool
	fed   int
	asked bool
	ended bool
	n     int // items made so far
	dead  map[string]bool
	left  int // operations of the current step
}

type submitter struct {
	q    []any
	more chan struct{}
	acc  int
	gone bool
}

func newRun(r *hx.Rec, kit *Kit, subs int) *run {
	x := &run{r: r, kit: kit, more: make(chan struct{}, 1), feed: make(chan *chunk.Chunk),
		need: map[string]chan int{"in": make(chan int, 1000), "errs": make(chan int, 1000)}, dead: map[string]bool{}}
	x.t = &transport{kit: kit, fails: map[string]string{}, size: 128}
	x.t.cond = sync.NewCond(&x.t.mu)
	x.e = kit.New(x.feed, x.t)
	go x.e.Run()
	go x.feeder()
	go x.taker("in", func() bool {
		v, ok := x.e.In()
		x.mu.Lock()
		defer x.mu.Unlock()
		x.ins = append(x.ins, hx.M{"end": !ok, "v": v})
		return ok
	})
	go x.taker("errs", func() bool {
		err, ok := x.e.Err()
		x.mu.Lock()
		defer x.mu.Unlock()
		k := "end"
		if ok {
			k = Kind(err, kit.Kinds)
		}
		x.errs = append(x.errs, k)
		return ok
	})
	for i := 0; i < subs; i++ {
		s := &submitter{more: make(chan struct{}, 1)}
		x.subs = append(x.subs, s)
		go x.submitting(s)
	}
	r.Set("subs", subs)
	return x
}

func (x *run) feeder() {
	for {
		x.mu.Lock()
		var c *chunk.Chunk
		if len(x.feedq) > 0 {
			c, x.feedq = x.feedq[0], x.feedq[1:]
		}
		over := x.over
		x.mu.Unlock()
		switch {
		case c != nil && x.e.Feed != nil:
			x.e.Feed(c)
		case c != nil:
			x.feed <- c
			x.mu.Lock()
			x.fed++
			x.mu.Unlock()
		case over:
			if x.e.End != nil {
				x.e.End()
			} else {
				close(x.feed)
			}
			return
		default:
			<-x.more
		}
	}
}

func (x *run) taker(c string, one func() bool) {
	for n := range x.need[c] {
		for ; n > 0; n-- {
			if !one() {
				x.mu.Lock()
				x.dead[c] = true
				x.mu.Unlock()
				return
			}
		}
	}
}

func (x *run) submitting(s *submitter) {
	defer func() {
		if recover() != nil { // the channel was closed
			x.mu.Lock()
			s.gone = true
			x.mu.Unlock()
		}
	}()
	for {
		x.mu.Lock()
		var v any
		ok := len(s.q) > 0
		if ok {
			v, s.q = s.q[0], s.q[1:]
		}
		x.mu.Unlock()
		if !ok {
			<-s.more
			continue
		}
		x.e.Submit(v)
		x.mu.Lock()
		s.acc++
		x.mu.Unlock()
	}
}

func wake(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

/* Operations. Each may be the last of its step. */

func (x *run) op(m hx.M) { x.ops = append(x.ops, m) }

func (x *run) doFeed(bads ...bool) {
	if x.ended {
		return
	}
	specs := []any{}
	var cs []*chunk.Chunk
	for _, b := range bads {
		x.n++
		it := x.kit.Incoming(x.r.Rng, b, x.n)
		specs = append(specs, it.Spec)
		cs = append(cs, it.Chunk)
	}
	x.op(hx.M{"o": "feed", "items": specs})
	x.mu.Lock()
	x.feedq = append(x.feedq, cs...)
	x.mu.Unlock()
	wake(x.more)
}

func (x *run) doEnd() {
	if x.ended {
		return
	}
	x.ended = true
	x.op(hx.M{"o": "inend"})
	x.mu.Lock()
	x.over = true
	x.mu.Unlock()
	wake(x.more)
}

func (x *run) doSubmit(k int, bads ...string) {
	s := x.subs[k]
	x.mu.Lock()
	refuse := s.gone || x.shut
	x.mu.Unlock()
	if refuse {
		return
	}
	specs := []any{}
	var vs []any
	for _, b := range bads {
		x.n++
		it := x.kit.Outgoing(x.r.Rng, b, x.n)
		if it == nil { // this kind of failure cannot be had
			continue
		}
		specs = append(specs, it.Spec)
		vs = append(vs, it.Value)
		if b == "write" {
			x.t.mu.Lock()
			x.t.fails[it.Key] = it.Spec["bad"].(string)
			x.t.mu.Unlock()
		}
	}
	x.op(hx.M{"o": "submit", "s": k + 1, "items": specs})
	x.mu.Lock()
	s.q = append(s.q, vs...)
	x.mu.Unlock()
	wake(s.more)
}

func (x *run) doTake(c string, n int) {
	x.mu.Lock()
	dead := x.dead[c]
	x.mu.Unlock()
	if dead || n == 0 {
		return
	}
	x.op(hx.M{"o": "take", "c": c, "n": n})
	x.need[c] <- n
}

func (x *run) doHold(b bool) {
	x.op(hx.M{"o": "hold", "b": b})
	x.t.mu.Lock()
	x.t.held = b
	if !b {
		x.t.let++
	}
	x.t.mu.Unlock()
	if !b {
		x.t.cond.Broadcast()
	}
}

func (x *run) doClose() {
	if x.asked {
		return
	}
	x.asked = true
	x.op(hx.M{"o": "close"})
	go func() {
		x.e.Close()
		x.mu.Lock()
		x.shut = true
		x.mu.Unlock()
	}()
}

// step waits until nothing more happens and records what has.
func (x *run) step() {
	hx.Wait()
	x.mu.Lock()
	defer x.mu.Unlock()
	x.t.mu.Lock()
	defer x.t.mu.Unlock()
	acc := []int{}
	for _, s := range x.subs {
		acc = append(acc, s.acc)
	}
	none := func(a []any) []any {
		if a == nil {
			return []any{}
		}
		return a
	}
	errs := x.errs
	if errs == nil {
		errs = []string{}
	}
	fed := x.fed
	if x.e.Feed != nil {
		fed = -1
	}
	x.r.Ev("step", "ops", none(x.ops), "ins", none(x.ins), "errs", errs, "outs", none(x.t.outs),
		"acc", acc, "fed", fed, "closed", x.shut)
	x.ops, x.ins, x.errs, x.t.outs = nil, nil, nil, nil
}

func (x *run) hasEnded() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.shut
}

// finish lets everything out, and sees whether the endpoint still works.
func (x *run) finish() {
	x.doHold(false)
	x.doTake("in", 500)
	x.doTake("errs", 500)
	x.step()
	for k := range x.subs {
		x.doSubmit(k, "", "")
	}
	x.step()
	if !x.asked && x.r.Rng.Intn(3) > 0 {
		x.doEnd()
		x.step()
		x.doSubmit(0, "")
		x.step()
	}
	x.doClose()
	x.step()
	x.doTake("in", 1)
	x.doTake("errs", 1)
	x.step()
	x.r.Ev("done")
}

// step one random operation.
func (x *run) random(r *rand.Rand, closing bool) {
	switch k := r.Intn(20); {
	case k < 5:
		n := 1 + r.Intn(3)
		bs := make([]bool, n)
		for i := range bs {
			bs[i] = r.Intn(3) == 0
		}
		x.doFeed(bs...)
	case k < 10:
		n := 1 + r.Intn(3)
		bs := make([]string, n)
		for i := range bs {
			bs[i] = hx.Pick(r, "", "", "", "pack", "write")
		}
		x.doSubmit(r.Intn(len(x.subs)), bs...)
	case k < 14:
		x.doTake("in", 1+r.Intn(3))
	case k < 17:
		x.doTake("errs", 1+r.Intn(3))
	case k < 18:
		x.doHold(r.Intn(2) == 0)
	case k < 19:
		if r.Intn(6) == 0 {
			x.doEnd()
		}
	default:
		if closing && r.Intn(2) == 0 {
			x.doClose()
		}
	}
}

type genOp struct {
	O   string `json:"o"`
	Bad string `json:"bad"`
	S   int    `json:"s"`
	C   string `json:"c"`
	B   bool   `json:"b"`
}

// Scenarios are those for one kind of endpoint. The first of the property's
// halves is about traffic, the second about closing.
func Scenarios(kit *Kit, closing bool) []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) { ss = append(ss, hx.Scenario{ID: kit.Name + "-" + id, Run: f}) }
	for i, ops := range hx.Inputs[[]genOp]() {
		add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) {
			x := newRun(r, kit, 2)
			every := 1 + r.Rng.Intn(3)
			for j, op := range ops {
				switch op.O {
				case "feed":
					x.doFeed(op.Bad != "")
				case "inend":
					x.doEnd()
				case "submit":
					x.doSubmit(op.S-1, op.Bad)
				case "take":
					x.doTake(op.C, 1)
				case "hold":
					x.doHold(op.B)
				case "close":
					x.doClose()
				}
				if j%every == 0 {
					x.step()
				}
			}
			x.finish()
		})
	}
	for i := 0; i < hx.N(200, 4000); i++ {
		add(fmt.Sprintf("random-%d", i), func(r *hx.Rec) {
			x := newRun(r, kit, 1+r.Rng.Intn(3))
			every := 1 + r.Rng.Intn(4)
			for j, n := 0, 5+r.Rng.Intn(40); j < n; j++ {
				x.random(r.Rng, closing)
				if r.Rng.Intn(every) == 0 {
					x.step()
				}
			}
			x.finish()
		})
	}
	// Nobody takes anything for a long time, or everything all the time.
	for i := 0; i < hx.N(20, 300); i++ {
		add(fmt.Sprintf("eager-%d", i), func(r *hx.Rec) {
			x := newRun(r, kit, 1+r.Rng.Intn(3))
			x.doTake("in", 400)
			x.doTake("errs", 400)
			for j := 0; j < 30; j++ {
				n := 1 + r.Rng.Intn(5)
				bs, ws := make([]bool, n), make([]string, n)
				for i := range bs {
					bs[i] = r.Rng.Intn(4) == 0
					ws[i] = hx.Pick(r.Rng, "", "", "", "pack", "write")
				}
				x.doFeed(bs...)
				x.doSubmit(r.Rng.Intn(len(x.subs)), ws...)
				if r.Rng.Intn(2) == 0 {
					x.step()
				}
			}
			x.finish()
		})
		add(fmt.Sprintf("late-%d", i), func(r *hx.Rec) {
			x := newRun(r, kit, 1+r.Rng.Intn(3))
			for j := 0; j < 10; j++ {
				x.doFeed(r.Rng.Intn(4) == 0, r.Rng.Intn(4) == 0)
				x.doSubmit(r.Rng.Intn(len(x.subs)), hx.Pick(r.Rng, "", "", "pack", "write"))
				if r.Rng.Intn(3) == 0 {
					x.step()
				}
			}
			for j := 0; j < 30; j++ {
				x.doTake(hx.Pick(r.Rng, "in", "errs"), 1)
				if r.Rng.Intn(2) == 0 {
					x.step()
				}
			}
			x.finish()
		})
	}
	for i := 0; i < hx.N(1, 3); i++ {
		add(fmt.Sprintf("long-%d", i), func(r *hx.Rec) {
			x := newRun(r, kit, 1+r.Rng.Intn(2))
			x.doTake("in", 1000000)
			x.doTake("errs", 1000000)
			for j := 0; j < hx.N(300, 1200); j++ {
				x.doFeed(make([]bool, 1+r.Rng.Intn(2))...)
				x.doSubmit(r.Rng.Intn(len(x.subs)), make([]string, 1+r.Rng.Intn(2))...)
				if r.Rng.Intn(20) == 0 {
					x.doFeed(true)
					x.doSubmit(r.Rng.Intn(len(x.subs)), hx.Pick(r.Rng, "pack", "write"))
				}
				x.step()
			}
			x.finish()
		})
	}
	// The same again and again, in one direction or both.
	for i := 0; i < hx.N(5, 25); i++ {
		add(fmt.Sprintf("same-%d", i), func(r *hx.Rec) {
			x := newRun(r, kit, 1+r.Rng.Intn(2))
			x.doTake("in", 1000000)
			x.doTake("errs", 1000000)
			kinds := []string{"write", "pack", "feed", "bad", "submit"}
			for j := 0; j < 3; j++ {
				kind := kinds[(i+j*2)%5]
				for n, k := hx.Pick(r.Rng, 40, 80, hx.N(140, 400)), 0; k < n; {
					m := 1 + r.Rng.Intn(20)
					k += m
					switch kind {
					case "feed", "bad":
						bs := make([]bool, m)
						for i := range bs {
							bs[i] = kind == "bad"
						}
						x.doFeed(bs...)
					default:
						bs := make([]string, m)
						for i := range bs {
							bs[i] = strings.TrimPrefix(kind, "submit")
						}
						x.doSubmit(r.Rng.Intn(len(x.subs)), bs...)
					}
					x.step()
				}
				if r.Rng.Intn(2) == 0 {
					x.doFeed(false)
					x.doSubmit(0, "")
					x.step()
				}
			}
			x.finish()
		})
	}
	if closing {
		// A long queue does not put off the close for long.
		for i := 0; i < hx.N(12, 100); i++ {
			add(fmt.Sprintf("queue-%d", i), func(r *hx.Rec) {
				x := newRun(r, kit, 2)
				for j := 0; j < 75; j++ {
					switch i % 4 {
					case 0:
						x.doFeed(false, false)
					case 1:
						x.doFeed(true, true)
					case 2:
						x.doFeed(r.Rng.Intn(2) == 0)
						x.doSubmit(j%2, "")
					case 3:
						x.doHold(true)
						x.doSubmit(j%2, "")
					}
				}
				if i%4 == 3 {
					x.step()
					x.doHold(false)
				}
				x.doClose()
				x.step()
				for j := 0; j < 60; j++ {
					if !x.hasEnded() {
						x.doTake("in", 1)
						x.doTake("errs", 1)
						x.step()
					}
				}
				x.finish()
			})
		}
	}
	return ss
}
