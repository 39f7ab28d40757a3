// Package hsess drives client sessions: the handshake, and what follows it, in
// both directions; and servers.
package hsess

import (
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"verif/harness/hamf"
	"verif/harness/hcc"
	"verif/harness/hx"
)

func TestRun(t *testing.T) {
	switch hx.Part {
	case "tcp":
		hx.Main(t, servers(), false)
	case "slow":
		hx.Main(t, slow(), false)
	default:
		hx.Main(t, scenarios(), true)
	}
}

const (
	pay    = 1528
	packet = 8 + pay
	total  = 1 + 2*packet
)

var outlets = []string{"ctl", "conn", "stream", "data"}

// transport is the client's connection as the session sees it: what it reads
// comes from src, what it writes is kept.
type transport struct {
	src *hx.Src
	rot int // most bytes a Read returns, if positive
	mu  sync.Mutex
	out []byte
}

func (t *transport) Read(p []byte) (int, error) {
	if t.rot > 0 && len(p) > t.rot {
		p = p[:t.rot]
	}
	return t.src.Read(p)
}

func (t *transport) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.out = append(t.out, p...)
	return len(p), nil
}

func (t *transport) written() []byte { t.mu.Lock(); defer t.mu.Unlock(); return t.out }

// peer is the other side, as far as a session needs it.
type peer interface {
	send([]byte)
	end(error)
	got() []byte // everything the client has written
	taken() int  // bytes the client has read
}

type local struct{ t *transport }

func (l local) send(b []byte) { l.t.src.Feed(b) }
func (l local) end(err error) { l.t.src.FeedEnd(nil, err, false, false) }
func (l local) got() []byte   { return l.t.written() }
func (l local) taken() int    { return l.t.src.Taken() }

type outlet struct {
	in     func() (any, bool)
	err    func() bool
	submit func(r *rand.Rand) (any, func())
	need   map[string]chan int
	subs   chan func()
}

type session struct {
	r     *hx.Rec
	p     peer
	c     *client.Client
	o     map[string]*outlet
	hand  []byte // the handshake's bytes; C2's challenge is filled in once S1 is known
	wire  []byte // what follows
	known bool
	diff  int // place in which C2's challenge is to differ, if positive
	pos   int
	ended bool
	on    map[string]bool
	calls bool
	ops   []any
	nout  int // bytes of the client's output accounted for

	mu   sync.Mutex
	outs map[string][]any
	hs   string
	n    int // things that have come out
}

func newSession(r *hx.Rec, c *client.Client, p peer, ver byte, wire []byte) *session {
	x := &session{r: r, p: p, c: c, wire: wire, hand: make([]byte, total), on: map[string]bool{},
		outs: map[string][]any{}, hs: "no"}
	r.Rng.Read(x.hand)
	x.hand[0] = ver
	r.Set("ver", int(ver))
	r.Set("W", hx.Ints(wire))
	m := c.Net()
	cc, cs, cd := m.NetConn(), m.NetStream(), m.DataStream()
	deliver := func(v any, ok bool) (any, bool) {
		if !ok {
			return 0, false
		}
		return hamf.Delivered(v), true
	}
	x.o = map[string]*outlet{
		"ctl": {
			in: func() (any, bool) {
				v, ok := <-c.Controls().In()
				if !ok {
					return 0, false
				}
				return hcc.Of(v), true
			},
			err: func() bool { _, ok := <-c.Controls().Errs(); return ok },
			submit: func(r *rand.Rand) (any, func()) {
				m := hcc.Random(r)
				v := m.Real()
				return m, func() { c.Controls().Out() <- v }
			}},
		"conn": {
			in:  func() (any, bool) { v, ok := <-cc.In(); return deliver(v, ok) },
			err: func() bool { _, ok := <-cc.Errs(); return ok },
			submit: func(r *rand.Rand) (any, func()) {
				m := hamf.Random(r, hx.Pick(r, "connectResponse", "createStreamResponse"), "")
				v := m.Real(r).(conn.Marshallable)
				return m, func() { cc.Out() <- v }
			}},
		"stream": {
			in:  func() (any, bool) { v, ok := <-cs.In(); return deliver(v, ok) },
			err: func() bool { _, ok := <-cs.Errs(); return ok },
			submit: func(r *rand.Rand) (any, func()) {
				m := hamf.Random(r, "status", "")
				v := m.Real(r).(*stream.Status)
				return m, func() { cs.Status() <- v }
			}},
		"data": {
			in:  func() (any, bool) { v, ok := <-cd.Out(); return deliver(v, ok) },
			err: func() bool { _, ok := <-cd.Errs(); return ok },
			submit: func(r *rand.Rand) (any, func()) {
				text := ""
				if r.Intn(20) == 0 {
					text = string(make([]byte, 4000+r.Intn(400)))
				}
				m := hamf.Random(r, "dataFrame", text)
				v := m.Real(r).(data.Data)
				return m, func() { cd.In() <- v }
			}},
	}
	for name, o := range x.o {
		o.need = map[string]chan int{"in": make(chan int, 1000), "errs": make(chan int, 1000)}
		o.subs = make(chan func(), 1000)
		go x.taker(name, "in", o.need["in"], o.in)
		go x.taker(name, "errs", o.need["errs"], func() (any, bool) { return 0, o.err() })
		go func() {
			for f := range o.subs {
				f()
			}
		}()
	}
	return x
}

func (x *session) taker(name, c string, need chan int, one func() (any, bool)) {
	for n := range need {
		for ; n > 0; n-- {
			v, ok := one()
			if !ok {
				return
			}
			x.out(name, c, v)
		}
	}
}

func (x *session) out(e, c string, v any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	k := e + "/" + c
	x.outs[k] = append(x.outs[k], hx.M{"e": e, "c": c, "v": v})
	x.n++
}

func (x *session) count() int { x.mu.Lock(); defer x.mu.Unlock(); return x.n }
func (x *session) state() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.hs
}

/* Operations. */

func (x *session) op(m hx.M) { x.ops = append(x.ops, m) }

func (x *session) call() {
	if x.calls {
		return
	}
	x.calls = true
	x.op(hx.M{"o": "call"})
	x.mu.Lock()
	x.hs = "run"
	x.mu.Unlock()
	go func() {
		err := x.c.Handshake()
		x.mu.Lock()
		defer x.mu.Unlock()
		x.hs = "ok"
		if err != nil {
			x.hs = "err"
		}
	}()
}

// room is how many bytes can be sent now: C2's challenge cannot be sent before
// S1 is known.
func (x *session) room() int {
	if !x.known {
		if out := x.p.got(); len(out) >= 1+packet {
			x.known = true
			copy(x.hand[1+packet+8:], out[9:1+packet])
			if x.diff > 0 {
				x.hand[1+packet+8+x.diff-1] ^= byte(1 + x.r.Rng.Intn(255))
			}
		} else {
			return 1 + packet + 8 - x.pos
		}
	}
	return total + len(x.wire) - x.pos
}

func (x *session) send(n int) {
	n = min(n, x.room())
	if n <= 0 || x.ended {
		return
	}
	x.op(hx.M{"o": "send", "n": n})
	all := append(append([]byte{}, x.hand...), x.wire...)
	b := all[x.pos : x.pos+n]
	x.pos += n
	x.p.send(b)
}

func (x *session) differ(p int) {
	if x.known || x.diff > 0 || x.hand[0] != 3 {
		return
	}
	x.diff = p
	x.op(hx.M{"o": "differ", "p": p})
}

func (x *session) end(fail bool) {
	if x.ended {
		return
	}
	x.ended = true
	if fail {
		x.op(hx.M{"o": "end", "how": "fail"})
		x.p.end(hx.Fail(x.r.Rng))
	} else {
		x.op(hx.M{"o": "end", "how": "eof"})
		x.p.end(io.EOF)
	}
}

func (x *session) start(b string) {
	if x.on[b] {
		return
	}
	x.on[b] = true
	x.op(hx.M{"o": "start", "b": b})
	if b == "ctl" {
		go x.c.Controls().Recv()
	} else {
		go x.c.Net().Dispatch(true)
	}
}

func (x *session) take(e, c string, n int) {
	x.op(hx.M{"o": "take", "e": e, "c": c, "n": n})
	x.o[e].need[c] <- n
}

func (x *session) submit(e string) {
	if x.state() != "ok" {
		return
	}
	m, f := x.o[e].submit(x.r.Rng)
	x.op(hx.M{"o": "submit", "e": e, "items": []any{m}})
	x.o[e].subs <- f
}

// writes splits what the client has written after its handshake into messages,
// the last of which may still be on its way.
func (x *session) writes(more bool) {
	out := x.p.got()
	x.nout = max(x.nout, min(len(out), total))
	for len(out) > x.nout {
		n, v := message(out[x.nout:])
		if n == 0 {
			if more {
				return
			}
			x.out("ctl", "out", hx.M{"garbage": hx.Ints(out[x.nout:min(len(out), x.nout+40)])})
			x.nout = len(out)
			return
		}
		e := map[int]string{3: "conn", 4: "data", 5: "stream"}[v["csid"].(int)]
		if e == "" {
			e = "ctl"
		}
		x.out(e, "out", v)
		x.nout += n
	}
}

// message reads one message off w in chunks of 4096, all of one chunk stream.
// It says how many bytes that took, or 0.
func message(w []byte) (int, hx.M) {
	if len(w) < 12 || w[0] >= 63 || w[0] == 0 {
		return 0, nil
	}
	n := int(w[4])<<16 | int(w[5])<<8 | int(w[6])
	v := hx.M{"fmt": 0, "mfmt": 0, "csid": int(w[0]), "ts": []int{0, int(w[1]), int(w[2]), int(w[3])}, "delta": false,
		"len": n, "type": int(w[7]), "msid": hx.Q4(uint32(w[8]) | uint32(w[9])<<8 | uint32(w[10])<<16 | uint32(w[11])<<24), "ext": hx.Q4(0)}
	if w[1] == 255 && w[2] == 255 && w[3] == 255 {
		return 0, nil
	}
	pos, data := 12, []byte{}
	for len(data) < n {
		if len(data) > 0 {
			if len(w) <= pos || w[pos] != 3<<6|w[0] {
				return 0, nil
			}
			pos++
		}
		k := min(4096, n-len(data))
		if len(w) < pos+k {
			return 0, nil
		}
		data = append(data, w[pos:pos+k]...)
		pos += k
	}
	v["data"] = hx.Ints(data)
	return pos, v
}

// note records what has come of the operations since the last time.
func (x *session) note() {
	x.writes(false)
	out := x.p.got()
	x.mu.Lock()
	defer x.mu.Unlock()
	outs := []any{}
	for _, e := range outlets {
		for _, c := range []string{"in", "errs", "out"} {
			outs = append(outs, x.outs[e+"/"+c]...)
		}
	}
	ops := x.ops
	if ops == nil {
		ops = []any{}
	}
	x.r.Ev("step", "ops", ops, "outs", outs, "hs", x.hs, "rd", x.p.taken(), "wr", min(len(out), total))
	x.ops, x.outs = nil, map[string][]any{}
}

// all lets everything out.
func (x *session) all() {
	x.call()
	x.start("ctl")
	x.start("cmd")
	for _, e := range outlets {
		x.take(e, "in", 300)
		x.take(e, "errs", 300)
	}
	x.send(1 << 30)
}

/* Scenarios in the bubble. */

func step(xs ...*session) {
	hx.Wait()
	for _, x := range xs {
		x.note()
	}
}

func fresh(r *hx.Rec, ver byte, wire []byte) *session {
	t := &transport{src: hx.NewSrc()}
	if r.Rng.Intn(4) == 0 {
		t.rot = 1 + r.Rng.Intn(100)
	}
	return newSession(r, client.New(t), local{t}, ver, wire)
}

func finish(xs ...*session) {
	for _, x := range xs {
		x.all()
	}
	step(xs...)
	for _, x := range xs {
		x.send(1 << 30)
	}
	step(xs...)
	for _, x := range xs {
		x.send(1 << 30)
	}
	step(xs...)
	for _, x := range xs {
		for _, e := range outlets {
			x.submit(e)
		}
	}
	step(xs...)
	for _, x := range xs {
		x.end(x.r.Rng.Intn(2) == 0)
	}
	step(xs...)
	for _, x := range xs {
		for _, e := range outlets {
			x.submit(e)
		}
	}
	step(xs...)
	for _, x := range xs {
		x.r.Ev("done")
	}
}

func (x *session) random() {
	r := x.r.Rng
	e := hx.Pick(r, outlets...)
	switch k := r.Intn(20); {
	case k < 2:
		x.call()
	case k < 10:
		left := total + len(x.wire) - x.pos
		if left <= 0 {
			return
		}
		if x.pos < total {
			x.send(hx.Pick(r, 1, 1+r.Intn(700), total/2, 1536, max(1, total-x.pos-1), total-x.pos, left))
		} else {
			x.send(hx.Pick(r, 1, 1+r.Intn(12), 1+r.Intn(60), left))
		}
	case k < 14:
		x.take(e, "in", 1+r.Intn(3))
	case k < 16:
		x.take(e, "errs", 1+r.Intn(2))
	case k < 18:
		x.start(hx.Pick(r, "ctl", "cmd"))
	case k < 19:
		x.submit(e)
	default:
		if r.Intn(12) == 0 {
			x.end(r.Intn(2) == 0)
		}
	}
}

func version(r *rand.Rand) byte {
	if r.Intn(12) == 0 {
		return byte(hx.Pick(r, 0, 1, 2, 4, 6, 83, 131, 255, r.Intn(256)))
	}
	return 3
}

func scenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) { ss = append(ss, hx.Scenario{ID: "sess-" + id, Run: f}) }
	for i, g := range hx.Inputs[genRun]() {
		add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) { g.play(r) })
	}
	for i := 0; i < hx.N(220, 3000); i++ {
		add(fmt.Sprintf("random-%d", i), func(r *hx.Rec) {
			x := fresh(r, version(r.Rng), genWire(r.Rng, plain(r.Rng)))
			if r.Rng.Intn(8) == 0 {
				x.differ(hx.Pick(r.Rng, 1, pay, 1+r.Rng.Intn(pay)))
			}
			if i%3 > 0 {
				x.call()
			}
			every := 1 + r.Rng.Intn(4)
			for j, n := 0, 5+r.Rng.Intn(40); j < n; j++ {
				x.random()
				if r.Rng.Intn(every) == 0 {
					step(x)
				}
			}
			finish(x)
		})
	}
	for i := 0; i < hx.N(40, 500); i++ {
		// Several at once, one of which may not even begin.
		add(fmt.Sprintf("several-%d", i), func(r *hx.Rec) {
			var xs []*session
			for j, n := 0, 2+r.Rng.Intn(2); j < n; j++ {
				xs = append(xs, fresh(r.Sub(fmt.Sprint(j)), version(r.Rng), genWire(r.Rng, plain(r.Rng))))
			}
			every := 1 + r.Rng.Intn(6)
			for j, n := 0, 10+r.Rng.Intn(60); j < n; j++ {
				xs[r.Rng.Intn(len(xs))].random()
				if r.Rng.Intn(every) == 0 {
					step(xs...)
				}
			}
			if r.Rng.Intn(2) == 0 {
				finish(xs[1:]...) // and the first stays as it is
				xs[0].r.Ev("done")
			} else {
				finish(xs...)
			}
		})
		// Everything is taken all the time, and much of it pipelined with the handshake.
		add(fmt.Sprintf("eager-%d", i), func(r *hx.Rec) {
			x := fresh(r, 3, genWire(r.Rng, plain(r.Rng)))
			x.all()
			step(x)
			x.send(hx.Pick(r.Rng, total-x.pos, total-x.pos+1, total-x.pos-1, 1<<30, total-x.pos+r.Rng.Intn(len(x.wire)+1)))
			step(x)
			for j := 0; j < 10; j++ {
				x.send(1 + r.Rng.Intn(len(x.wire)/4+1))
				x.submit(hx.Pick(r.Rng, outlets...))
				step(x)
			}
			finish(x)
		})
		// Nothing is taken until everything has arrived.
		add(fmt.Sprintf("late-%d", i), func(r *hx.Rec) {
			x := fresh(r, 3, genWire(r.Rng, plain(r.Rng)))
			x.send(1 << 30)
			x.call()
			if r.Rng.Intn(2) == 0 {
				step(x)
			}
			hx.Wait()
			x.send(1 << 30)
			if r.Rng.Intn(2) == 0 {
				x.end(false)
			}
			step(x)
			for _, b := range []string{"ctl", "cmd"} {
				x.start(b)
				step(x)
			}
			finish(x)
		})
		// The handshake fails, with messages behind it.
		add(fmt.Sprintf("refused-%d", i), func(r *hx.Rec) {
			ver := byte(3)
			if i%3 == 0 {
				ver = byte(4 + r.Rng.Intn(200))
			}
			x := fresh(r, ver, genWire(r.Rng, plain(r.Rng)))
			if i%3 == 1 {
				x.differ(hx.Pick(r.Rng, 1, pay, 1+r.Rng.Intn(pay)))
			}
			x.start("ctl")
			x.start("cmd")
			for _, e := range outlets {
				x.take(e, "in", 10)
				x.take(e, "errs", 10)
			}
			x.call()
			if i%3 == 2 {
				x.send(r.Rng.Intn(total))
				hx.Wait()
				if x.pos < 1+packet+8 {
					x.send(r.Rng.Intn(1 + packet + 8 - x.pos))
				}
				x.end(r.Rng.Intn(2) == 0)
				step(x)
			}
			x.send(1 << 30)
			step(x)
			x.send(1 << 30)
			step(x)
			finish(x)
		})
	}
	for i := 0; i < hx.N(4, 12); i++ {
		add(fmt.Sprintf("else-%d", i), func(r *hx.Rec) {
			p := plain(r.Rng)
			p.others = true
			x := fresh(r, 3, genWire(r.Rng, p))
			x.call()
			finish(x)
		})
		add(fmt.Sprintf("badsize-%d", i), func(r *hx.Rec) {
			p := plain(r.Rng)
			p.badSizes = true
			x := fresh(r, 3, genWire(r.Rng, p))
			x.call()
			finish(x)
		})
	}
	return ss
}

// genRun is a behaviour generated from the specification, with a handshake of
// few bytes and one byte per message.
type genRun struct {
	Ver int `json:"ver"`
	Ops []struct {
		O  string `json:"o"`
		To int    `json:"to"`
		B  string `json:"b"`
		E  string `json:"e"`
		C  string `json:"c"`
		K  string `json:"k"`
	} `json:"ops"`
}

func (g genRun) play(r *hx.Rec) {
	w := newWire(r.Rng)
	marks := []int{}
	for _, op := range g.Ops {
		if op.O == "msg" {
			w.kind(op.K)
			marks = append(marks, len(w.b))
		}
	}
	x := fresh(r, byte(g.Ver), w.b)
	every := 1 + r.Rng.Intn(3)
	far := 0 // messages sent
	for j, op := range g.Ops {
		switch op.O {
		case "call":
			x.call()
		case "send":
			// 1, 3, 5 or 6 of 5 bytes stand for the places in the real handshake
			to := map[int]int{1: 1, 3: 1 + packet, 5: total, 6: total}[op.To]
			if to > 1+packet+8 {
				hx.Wait()
			}
			x.send(to - x.pos)
			if op.To == 6 {
				x.more(&far, marks)
			}
		case "more":
			x.more(&far, marks)
		case "end":
			x.end(r.Rng.Intn(2) == 0)
		case "differ":
			x.differ(1 + r.Rng.Intn(pay))
		case "start":
			x.start(op.B)
		case "take":
			x.take(op.E, op.C, 1)
		case "submit":
			x.submit(op.E)
		}
		if j%every == 0 {
			step(x)
		}
	}
	finish(x)
}

func (x *session) more(far *int, marks []int) {
	if x.pos < total || *far >= len(marks) {
		return
	}
	x.send(total + marks[*far] - x.pos)
	*far++
}
