package hchunk

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// sink is a transport's writing side. Like a net.Conn it may be written to by
// several goroutines at once, each Write arriving as a whole.
type sink struct {
	mu    sync.Mutex
	got   []byte
	cut   int   // bytes taken before it fails; -1: never
	err   error // what it fails with; nil: hx.ErrFail
	sleep func() time.Duration
}

var failures = []error{hx.ErrFail, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, io.ErrShortWrite}

func (s *sink) Write(b []byte) (int, error) {
	if s.sleep != nil {
		time.Sleep(s.sleep())
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cut >= 0 && len(s.got)+len(b) >= s.cut {
		n := s.cut - len(s.got)
		s.got = append(s.got, b[:n]...)
		if s.err != nil {
			return n, s.err
		}
		return n, hx.ErrFail
	}
	s.got = append(s.got, b...)
	return len(b), nil
}

// wmsg is a message to write, in the specification's terms.
type wmsg struct {
	Fmt  byte   `json:"fmt"`
	Csid uint32 `json:"csid"`
	Ts   uint32 `json:"ts"`
	Len  uint32 `json:"len"`
	Type byte   `json:"type"`
	Msid []int  `json:"msid"`
	Ext  []int  `json:"ext"`
	Data []int  `json:"data"`
}

func unq4(q []int) uint32 {
	return uint32(q[0])<<24 | uint32(q[1])<<16 | uint32(q[2])<<8 | uint32(q[3])
}

func (m wmsg) chunk() *chunk.Chunk {
	return &chunk.Chunk{
		Header: &chunk.Header{
			BasicHeader: chunk.BasicHeader{FormatId: m.Fmt, StreamId: m.Csid},
			MessageHeader: chunk.MessageHeader{FormatId: m.Fmt, Timestamp: m.Ts, TimestampDelta: m.Fmt == 1 || m.Fmt == 2,
				Length: m.Len, TypeId: m.Type, StreamId: unq4(m.Msid)},
			ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: unq4(m.Ext)},
		},
		Data: toBytes(m.Data),
	}
}

// keep is a message and what it was before it was written.
type keep struct {
	c    *chunk.Chunk
	hp   *chunk.Header
	h    chunk.Header
	d    []byte // the slice
	data []byte // its content
}

func keepOf(c *chunk.Chunk) keep {
	return keep{c, c.Header, *c.Header, c.Data, append([]byte{}, c.Data...)}
}

func (k keep) changed() bool {
	return k.c.Header != k.hp || *k.c.Header != k.h || len(k.c.Data) != len(k.data) ||
		string(k.c.Data) != string(k.data) || string(k.d) != string(k.data)
}

func changedOf(ks []keep) []int {
	ch := []int{}
	for i, k := range ks {
		if k.changed() {
			ch = append(ch, i+1)
		}
	}
	return ch
}

// wop is one step of a sequential history.
type wop struct {
	size int // if not 0, the write size is set
	m    int // otherwise, the message written, counting from 1
}

func errName(err error) string {
	if err == nil {
		return "nil"
	}
	for _, f := range failures {
		if errors.Is(err, f) {
			return "fail"
		}
	}
	return hx.ErrClass(err)
}

func playWriter(r *hx.Rec, size int, msgs []wmsg, chunks []*chunk.Chunk, ops []wop, cut int) {
	s := &sink{cut: cut, err: hx.Pick(r.Rng, failures...)}
	w := chunk.NewWriter(s, size)
	var ks []keep
	for _, c := range chunks {
		ks = append(ks, keepOf(c))
	}
	runOps(r, w, chunks, ops)
	r.Ev("kept", "changed", changedOf(ks))
	r.Ev("done")
	r.Set("W", hx.Ints(s.got))
	r.Set("size", size)
	r.Set("cut", cut)
	r.Set("msgs", msgs)
}

func runOps(r *hx.Rec, w chunk.Writer, chunks []*chunk.Chunk, ops []wop) {
	for _, op := range ops {
		if op.size != 0 {
			r.Ev("size", "n", op.size)
			w.SetWriteSize(op.size)
			r.Ev("sized", "n", op.size)
			r.Ev("get", "n", w.WriteSize())
			continue
		}
		r.Ev("call", "g", 1, "i", op.m)
		r.Ev("ret", "g", 1, "e", errName(w.Write(chunks[op.m-1])))
	}
}

func chunksOf(ms []wmsg) []*chunk.Chunk {
	var cs []*chunk.Chunk
	for _, m := range ms {
		cs = append(cs, m.chunk())
	}
	return cs
}

// shareBuffer makes the payloads parts of one buffer, as frames cut out of a
// larger one are.
func shareBuffer(cs []*chunk.Chunk) {
	var all []byte
	for _, c := range cs {
		all = append(all, c.Data...)
	}
	at := 0
	for _, c := range cs {
		n := len(c.Data)
		c.Data = all[at : at+n]
		at += n
	}
}

func randomMsg(r *rand.Rand, csid uint32, size int, maxLen int) wmsg {
	m := wmsg{Fmt: byte(hx.Pick(r, 0, 0, 0, 1, 2, 3)), Csid: csid, Type: byte(r.Intn(256)),
		Ts: hx.Pick(r, 0, 1, 255, 256, 65535, 65536, 0xfffffe, uint32(r.Intn(ffffff))), Msid: hx.Q4(r.Uint32()), Ext: hx.Q4(0)}
	if r.Intn(4) == 0 {
		m.Ts, m.Ext = ffffff, hx.Q4(hx.Pick(r, r.Uint32(), 0, 1, ffffff, 0x1000000, 0x80000000, 0xffffffff))
	} else if r.Intn(8) == 0 {
		m.Ext = hx.Q4(r.Uint32()) // there, but not to be written
	}
	n := r.Intn(maxLen + 1)
	switch r.Intn(4) {
	case 0:
		n = r.Intn(4)
	case 1:
		n = max(0, size*(1+r.Intn(3))+r.Intn(3)-1)
	}
	n = min(n, maxLen)
	d := make([]byte, n)
	r.Read(d)
	m.Data, m.Len = hx.Ints(d), uint32(n)
	return m
}

var sizePool = []int{1, 2, 3, 4, 5, 7, 8, 16, 60, 127, 128, 129, 200, 255, 256, 1000, 4096, 65536, 1 << 30}

type writerHist struct {
	size   int
	msgs   []wmsg
	chunks []*chunk.Chunk
	ops    []wop
}

func randomWriter(r *rand.Rand, big bool) writerHist {
	h := writerHist{size: sizePool[r.Intn(len(sizePool))]}
	csids := pickCsids(r, 4)
	maxLen := hx.Pick(r, 20, 100, 600)
	if h.size < 5 {
		maxLen = 60
	}
	if big {
		h.size, maxLen = hx.Pick(r, 128, 4096, 65535, 65536), 70000
	}
	size := h.size
	n := 1 + r.Intn(8)
	if big {
		n = 2
	}
	for len(h.msgs) < n {
		if r.Intn(4) == 0 {
			size = sizePool[r.Intn(len(sizePool))]
			if !big || size > 100 {
				h.ops = append(h.ops, wop{size: size})
			}
			continue
		}
		m := randomMsg(r, csids[r.Intn(4)], size, maxLen)
		if big && len(h.msgs) == 0 {
			d := make([]byte, 65530+r.Intn(12))
			r.Read(d)
			m.Data, m.Len = hx.Ints(d), uint32(len(d))
		}
		h.msgs = append(h.msgs, m)
		h.ops = append(h.ops, wop{m: len(h.msgs)})
		if r.Intn(6) == 0 { // the same message again
			h.ops = append(h.ops, wop{m: 1 + r.Intn(len(h.msgs))})
		}
	}
	h.chunks = chunksOf(h.msgs)
	if r.Intn(2) == 0 {
		shareBuffer(h.chunks)
	}
	return h
}

type writerInput struct {
	H []struct {
		M    wmsg `json:"m"`
		Size int  `json:"size"`
	} `json:"h"`
	Size int `json:"size"`
}

func writerScenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) { ss = append(ss, hx.Scenario{ID: id, Run: f}) }
	for i, g := range hx.Inputs[writerInput]() {
		add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) {
			var h writerHist
			size := g.Size
			for _, x := range g.H {
				if x.Size != size {
					size = x.Size
					h.ops = append(h.ops, wop{size: size})
				}
				h.msgs = append(h.msgs, x.M)
				h.ops = append(h.ops, wop{m: len(h.msgs)})
			}
			playWriter(r, g.Size, h.msgs, chunksOf(h.msgs), h.ops, -1)
		})
	}
	for i := 0; i < hx.N(500, 6000); i++ {
		add(fmt.Sprintf("seq-%d", i), func(r *hx.Rec) {
			h := randomWriter(r.Rng, false)
			playWriter(r, h.size, h.msgs, h.chunks, h.ops, -1)
		})
	}
	for i := 0; i < hx.N(3, 20); i++ {
		add(fmt.Sprintf("big-%d", i), func(r *hx.Rec) {
			h := randomWriter(r.Rng, true)
			playWriter(r, h.size, h.msgs, h.chunks, h.ops, -1)
		})
	}
	add("marathon", func(r *hx.Rec) { // thousands of messages
		var ms []wmsg
		var ops []wop
		size := 16
		cs := pickCsids(r.Rng, 4)
		for len(ms) < hx.N(5000, 70000) {
			if r.Rng.Intn(50) == 0 {
				size = hx.Pick(r.Rng, 3, 8, 16, 40)
				ops = append(ops, wop{size: size})
			}
			ms = append(ms, randomMsg(r.Rng, cs[r.Rng.Intn(4)], size, 20))
			ops = append(ops, wop{m: len(ms)})
		}
		playWriter(r, 16, ms, chunksOf(ms), ops, -1)
	})
	// Every chunk stream ID of the pool, in every format.
	for _, csid := range csidPool {
		for f := byte(0); f < 4; f++ {
			add(fmt.Sprintf("csid-%d-%d", csid, f), func(r *hx.Rec) {
				m := randomMsg(r.Rng, csid, 3, 9)
				m.Fmt = f
				playWriter(r, 3, []wmsg{m}, chunksOf([]wmsg{m}), []wop{{m: 1}}, -1)
			})
		}
	}
	// Transports that fail after any number of bytes.
	for i := 0; i < hx.N(6, 40); i++ {
		rng := rand.New(rand.NewSource(hx.Seed*77 + int64(i)))
		h := randomWriter(rng, false)
		for len(h.msgs) > 4 {
			h = randomWriter(rng, false)
		}
		s := &sink{cut: -1}
		w := chunk.NewWriter(s, h.size)
		for _, op := range h.ops {
			if op.size != 0 {
				w.SetWriteSize(op.size)
			} else {
				w.Write(h.chunks[op.m-1])
			}
		}
		step := max(1, len(s.got)/hx.N(60, 200))
		for cut := 0; cut <= len(s.got); cut += step {
			add(fmt.Sprintf("fail-%d-%d", i, cut), func(r *hx.Rec) {
				playWriter(r, h.size, h.msgs, chunksOf(h.msgs), h.ops, cut)
			})
		}
	}
	// The known finding: chunk stream ID 63.
	for f := byte(0); f < 4; f++ {
		add(fmt.Sprintf("csid63-%d", f), func(r *hx.Rec) {
			m := randomMsg(r.Rng, 63, 3, 9)
			m.Fmt = f
			playWriter(r, 3, []wmsg{m}, chunksOf([]wmsg{m}), []wop{{m: 1}}, -1)
		})
	}
	return ss
}

// ------------------------------------------------------------ concurrency

// playConcurrent lets goroutines write to connections, each its own messages
// and some that they share, while others change the write sizes.
func playConcurrent(r *hx.Rec) {
	rng := r.Rng
	nconn, ng := 1+rng.Intn(3), 2+rng.Intn(5)
	size := hx.Pick(rng, 1, 3, 16, 128, 4096)
	maxLen := min(hx.Pick(rng, 10, 60, 400), size*12)
	var msgs []wmsg
	fresh := func() int {
		msgs = append(msgs, randomMsg(rng, pickCsids(rng, 1)[0], size, maxLen))
		return len(msgs)
	}
	shared := []int{fresh(), fresh()}
	plan := make([][]wop, ng) // size: the connection
	for g := range plan {
		for k := 1 + rng.Intn(4); k > 0; k-- {
			i := fresh()
			if rng.Intn(3) == 0 {
				i = shared[rng.Intn(2)]
			}
			plan[g] = append(plan[g], wop{size: rng.Intn(nconn), m: i})
		}
	}
	chunks := chunksOf(msgs)
	if rng.Intn(2) == 0 {
		shareBuffer(chunks)
	}
	var ks []keep
	for _, c := range chunks {
		ks = append(ks, keepOf(c))
	}
	recs := make([]*hx.Rec, nconn)
	sinks := make([]*sink, nconn)
	ws := make([]chunk.Writer, nconn)
	for c := range recs {
		recs[c] = r.Sub(fmt.Sprint(c))
		srng := rand.New(rand.NewSource(rng.Int63()))
		var mu sync.Mutex
		sinks[c] = &sink{cut: -1, sleep: func() time.Duration {
			mu.Lock()
			defer mu.Unlock()
			return time.Duration(srng.Intn(100)) * time.Microsecond
		}}
		ws[c] = chunk.NewWriter(sinks[c], size)
	}
	var wg sync.WaitGroup
	for g := range plan {
		delay := make([]time.Duration, len(plan[g]))
		for i := range delay {
			delay[i] = time.Duration(rng.Intn(200)) * time.Microsecond
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, op := range plan[g] {
				time.Sleep(delay[i])
				rec := recs[op.size]
				rec.Ev("call", "g", g+1, "i", op.m)
				rec.Ev("ret", "g", g+1, "e", errName(ws[op.size].Write(chunks[op.m-1])))
			}
		}()
	}
	if rng.Intn(2) == 0 {
		for c := range ws {
			ns := []int{hx.Pick(rng, 1, 2, 5, 16, 200), hx.Pick(rng, 3, 16, 128)}
			d := time.Duration(rng.Intn(200)) * time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, n := range ns {
					time.Sleep(d)
					recs[c].Ev("size", "n", n)
					ws[c].SetWriteSize(n)
					recs[c].Ev("sized", "n", n)
					recs[c].Ev("get", "n", ws[c].WriteSize())
				}
			}()
		}
	}
	wg.Wait()
	for c, rec := range recs {
		rec.Ev("kept", "changed", changedOf(ks))
		rec.Ev("done")
		rec.Set("W", hx.Ints(sinks[c].got))
		rec.Set("size", size)
		rec.Set("cut", -1)
		rec.Set("msgs", msgs)
	}
}

func concurrentScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i := 0; i < hx.N(250, 4000); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("conc-%d", i), Run: playConcurrent})
	}
	return ss
}

// ------------------------------------------------------------------- races

// nullSink takes everything and synchronises with nothing.
type nullSink struct{}

func (nullSink) Write(b []byte) (int, error) { return len(b), nil }

// endlessSrc is an endless chunk stream.
type endlessSrc struct{ stop chan struct{} }

func (s endlessSrc) Read(p []byte) (int, error) {
	select {
	case <-s.stop:
		return 0, io.EOF
	default:
	}
	for i := range p {
		p[i] = 0
	}
	if len(p) == 1 {
		p[0] = 3 // headers of empty messages
	}
	return len(p), nil
}

// raceScenarios are for a build with the race detector; nothing in them orders
// what the goroutines do.
func raceScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i := 0; i < hx.N(20, 200); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("race-%d", i), Run: func(r *hx.Rec) {
			ws := make([]chunk.Writer, 1+r.Rng.Intn(3))
			for c := range ws {
				ws[c] = chunk.NewWriter(nullSink{}, 4)
			}
			var ms []wmsg
			for k := 0; k < 6; k++ {
				m := randomMsg(r.Rng, pickCsids(r.Rng, 1)[0], 4, 40)
				if k%2 == 0 {
					m.Ts, m.Ext = ffffff, hx.Q4(77)
				}
				ms = append(ms, m)
			}
			cs := chunksOf(ms)
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 60; k++ {
						ws[(g+k)%len(ws)].Write(cs[(g*7+k)%len(cs)])
					}
				}()
			}
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 200; k++ {
						for _, w := range ws {
							w.SetWriteSize(1 + (w.WriteSize()+k)%9)
						}
					}
				}()
			}
			wg.Wait()
			r.Ev("done")
		}}, hx.Scenario{ID: fmt.Sprintf("racesize-%d", i), Run: func(r *hx.Rec) {
			// The read size, while messages are received.
			src := endlessSrc{make(chan struct{})}
			cr := chunk.NewReader(src, 128, chunk.NewNormalizer())
			go cr.Recv()
			var wg sync.WaitGroup
			wg.Add(2)
			for g := 0; g < 2; g++ {
				go func() {
					defer wg.Done()
					for k := 0; k < 300; k++ {
						cr.SetReadSize(1 + (cr.ReadSize()+k)%200)
					}
				}()
			}
			n := 0
			for n < 300 {
				select {
				case <-cr.Chunks():
					n++
				case <-cr.Errs():
				}
			}
			wg.Wait()
			cr.Close()
			close(src.stop)
			r.Ev("done")
		}})
	}
	return ss
}
