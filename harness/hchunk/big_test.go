package hchunk

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"time"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// Messages too large to list their bytes. The traces have the bytes of headers
// and small messages, by position, and say of the rest which pieces of the wire
// equal which pieces of the messages.

func sparse(at map[string]int, wire []byte, from, to int) {
	for i := from; i < to; i++ {
		at[strconv.Itoa(i+1)] = int(wire[i])
	}
}

// bigReader is a history of an otherwise ordinary receiver.
type bigReader struct {
	p        *peer
	size     int
	feeds    []feed
	scribble int // 0: never, n: about every n-th delivered message
}

func (x bigReader) play(r *hx.Rec) {
	S := map[string]int{}
	at := 0
	small := func(m *pmsg) bool { return m.h.ln < 64 }
	big := [][2]int{}
	for _, m := range x.p.sent {
		if !small(m) {
			big = append(big, m.pieces...)
		}
	}
	// Pieces are on the wire in some order; they do not overlap.
	next := map[int]int{}
	for _, b := range big {
		next[b[0]] = b[1]
	}
	for at < len(x.p.wire) {
		if n, ok := next[at]; ok {
			at += n
			continue
		}
		sparse(S, x.p.wire, at, at+1)
		at++
	}
	r.Set("N", len(x.p.wire))
	r.Set("S", S)
	r.Set("size", x.size)
	src := hx.NewSrc()
	cr := chunk.NewReader(src, x.size, chunk.NewNormalizer())
	go cr.Recv()
	stop := make(chan struct{})
	used := map[*pmsg]bool{}
	// pieces says which bytes of the wire data equals.
	pieces := func(data []byte) [][2]int {
	next:
		for _, m := range x.p.sent {
			if used[m] || int(m.h.ln) != len(data) {
				continue
			}
			rest := data
			for _, s := range m.pieces {
				if !bytes.Equal(rest[:s[1]], x.p.wire[s[0]:s[0]+s[1]]) {
					continue next
				}
				rest = rest[s[1]:]
			}
			used[m] = true
			if m.pieces == nil {
				return [][2]int{}
			}
			return m.pieces
		}
		return [][2]int{{-1, len(data)}}
	}
	type was struct {
		c   *chunk.Chunk
		h   chunk.Header
		sum [32]byte
	}
	var ks []was
	go func() {
		for {
			select {
			case c := <-cr.Chunks():
				data := c.Data
				c.Data = nil
				m := snap(c)
				m["data"] = pieces(data)
				r.Ev("msg", flat(m)...)
				c.Data = data
				if x.scribble > 0 && r.Rng.Intn(x.scribble) == 0 {
					scribbleOn(c)
				} else {
					ks = append(ks, was{c, *c.Header, sha256.Sum256(data)})
				}
			case err := <-cr.Errs():
				r.Ev("err", "e", hx.ErrClass(err))
			case <-stop:
				return
			}
		}
	}()
	pos := 0
	for _, f := range x.feeds {
		r.Ev("feed", "n", f.n)
		src.Feed(x.p.wire[pos : pos+f.n])
		pos += f.n
		hx.Wait()
		r.Ev("quiet", "taken", src.Taken())
	}
	cr.Close()
	close(stop)
	src.FeedEnd(nil, hx.Fail(r.Rng), false, false)
	hx.Wait()
	r.Ev("close")
	changed := []int{}
	for i, k := range ks {
		if *k.c.Header != k.h || sha256.Sum256(k.c.Data) != k.sum {
			changed = append(changed, i)
		}
	}
	r.Ev("kept", "changed", changed)
	r.Ev("done")
}

// mixedScenarios are about messages of very different lengths, kept or written
// upon by their consumers.
func mixedScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i := 0; i < hx.N(24, 200); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("mixed-%d", i), Run: func(rec *hx.Rec) {
			r := rec.Rng
			size := hx.Pick(r, 128, 1000, 4096, 65536, 70000, 1<<20)
			p := newPeer(r, size)
			cs := pickCsids(r, 1+r.Intn(4))
			top := hx.Pick(r, 3000, 10000, 70000, 300000)
			for n := 0; n < 30; n++ {
				c := cs[r.Intn(len(cs))]
				if p.part[c] == nil && r.Intn(3) > 0 {
					l := hx.Pick(r, 10, 70, 100, 300, 1000, 1025, 2049, 4096, 4097, 5000, 9000, 16385, 33000, 65537, 70000, 140000, top, r.Intn(top))
					l = min(l, top)
					p.start(c, hdr{ts: uint32(r.Intn(ffffff)), typ: byte(3 + r.Intn(253)), msid: r.Uint32()}, p.payload(l))
				}
				for k := r.Intn(5); k > 0 && p.part[c] != nil; k-- {
					p.cont(c)
				}
			}
			for len(p.open) > 0 {
				p.cont(p.open[r.Intn(len(p.open))])
			}
			bigReader{p: p, size: size, feeds: atCuts(len(p.wire), p.cuts), scribble: hx.Pick(r, 0, 0, 1, 2)}.play(rec)
		}})
	}
	return ss
}

func bigReaderScenarios() []hx.Scenario {
	var ss []hx.Scenario
	type kind struct {
		size int
		lens []int
	}
	M := 1 << 20
	kinds := []kind{
		{65536, []int{0xffffff}}, {1 << 30, []int{0xffffff, 0xfffffe}}, {0xffffff, []int{0xffffff, M}},
		{M, []int{M, M + 1, M - 1, 3*M/2 + 7}}, {4096, []int{M/4 + 1, 100000}}, {128, []int{200000}},
		{8 * M, []int{8 * M, 8*M + 1, 4*M + 3}}, {300000, []int{2*M + 5, 131072, 262144, 262145, 524289}},
	}
	for i := 0; i < hx.N(len(kinds), 8*len(kinds)); i++ {
		k := kinds[i%len(kinds)]
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("huge-%d", i), Run: func(rec *hx.Rec) {
			r := rec.Rng
			size := k.size
			start := size
			if i%2 == 1 {
				start = 128 // and changed by a message
			}
			p := newPeer(r, start)
			if i%2 == 1 {
				p.setSize(2, size)
			}
			cs := pickCsids(r, len(k.lens)+1)
			small := func() {
				if c := cs[len(k.lens)]; p.part[c] == nil {
					pr := baseProfile(r)
					pr.maxLen, pr.types = 20, []byte{8, 9, 18}
					p.message(c, &pr)
				} else {
					p.cont(c)
				}
			}
			small()
			for j, n := range k.lens {
				for j > 0 && r.Intn(3) == 0 && len(p.open) > 0 {
					p.cont(p.open[r.Intn(len(p.open))])
				}
				ts, ext := uint32(r.Intn(ffffff)), uint32(0)
				if r.Intn(4) == 0 {
					ts, ext = ffffff, r.Uint32()
				}
				p.start(cs[j], hdr{ts: ts, ext: ext, typ: byte(3 + r.Intn(253)), msid: r.Uint32()}, p.payload(n))
				if r.Intn(2) == 0 {
					small()
				}
			}
			for len(p.open) > 0 {
				p.cont(p.open[r.Intn(len(p.open))])
				if r.Intn(8) == 0 {
					small()
				}
			}
			small()
			x := bigReader{p: p, size: start}
			switch r.Intn(3) {
			case 0:
				x.feeds = whole(len(p.wire))
			case 1:
				x.feeds = atCuts(len(p.wire), p.cuts)
			default:
				x.feeds = randomCuts(r, len(p.wire), len(p.wire)/6)
			}
			x.play(rec)
		}})
	}
	return ss
}

// ------------------------------------------------------------------ writer

type bigRun struct {
	P int `json:"p"`
	M int `json:"m"`
	O int `json:"o"`
	N int `json:"n"`
}

// matched finds the pieces of the messages on the wire. Payloads have bytes
// 0x80..0xbf only, which no continuation header here has.
func matched(wire []byte, cs []*chunk.Chunk) ([]bigRun, map[string]int) {
	S := map[string]int{}
	runs := []bigRun{}
	off := make([]int, len(cs))
	for at := 0; at < len(wire); {
		best, bn := -1, 0
		for k, c := range cs {
			d := c.Data[off[k]:]
			n := 0
			for n < len(d) && at+n < len(wire) && d[n] == wire[at+n] {
				n++
			}
			if n > bn && (n >= 8 || n == len(d)) {
				best, bn = k, n
			}
		}
		if best < 0 {
			sparse(S, wire, at, at+1)
			at++
			continue
		}
		runs = append(runs, bigRun{at, best + 1, off[best], bn})
		off[best] += bn
		at += bn
	}
	return runs, S
}

func bigPayload(r *rand.Rand, n int) []byte {
	d := make([]byte, n)
	r.Read(d)
	for i := range d {
		d[i] = 0x80 | d[i]&0x3f
	}
	return d
}

func bigWriterScenarios() []hx.Scenario {
	var ss []hx.Scenario
	M := 1 << 20
	type kind struct {
		size int
		lens []int
	}
	kinds := []kind{
		{65536, []int{0xffffff}}, {1 << 30, []int{0xffffff, 0xfffffe}}, {0xffffff, []int{0xffffff, M}},
		{M, []int{M, M + 1, M - 1, 3*M/2 + 7}}, {4096, []int{M/4 + 1, 100000}}, {1000, []int{200000}},
		{8 * M, []int{8 * M, 8*M + 1, 4*M + 3}}, {300000, []int{2*M + 5, 131072, 262144, 262145, 524289}},
	}
	for i := 0; i < hx.N(len(kinds), 8*len(kinds)); i++ {
		k := kinds[i%len(kinds)]
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("huge-%d", i), Run: func(r *hx.Rec) {
			rng := r.Rng
			var cs []uint32
			for len(cs) < len(k.lens) {
				c := pickCsids(rng, 1)[0]
				if c < 63 || c-64 < 64 || c >= 320 && (c-64)>>8 < 128 && (c-64)&255 < 128 {
					cs = append(cs, c)
				}
			}
			var chunks []*chunk.Chunk
			var msgs []hx.M
			var ops []wop
			start := k.size
			if i%2 == 1 {
				start = 128
				ops = append(ops, wop{size: k.size})
			}
			for j, n := range k.lens {
				m := wmsg{Csid: cs[j], Ts: uint32(rng.Intn(ffffff)), Len: uint32(n), Type: byte(rng.Intn(256)), Msid: hx.Q4(rng.Uint32()), Ext: hx.Q4(0)}
				c := m.chunk()
				c.Data = bigPayload(rng, n)
				chunks = append(chunks, c)
				msgs = append(msgs, hx.M{"fmt": 0, "csid": int(m.Csid), "ts": int(m.Ts), "len": n, "type": int(m.Type),
					"msid": m.Msid, "ext": m.Ext, "i": j + 1, "dlen": n})
				ops = append(ops, wop{m: j + 1})
			}
			var ks []keep
			for _, c := range chunks {
				ks = append(ks, keepOf(c))
			}
			s := &sink{cut: -1}
			w := chunk.NewWriter(s, start)
			runOps(r, w, chunks, ops)
			r.Ev("kept", "changed", changedOf(ks))
			r.Ev("done")
			runs, S := matched(s.got, chunks)
			r.Set("N", len(s.got))
			r.Set("S", S)
			r.Set("runs", runs)
			r.Set("size", start)
			r.Set("cut", -1)
			r.Set("msgs", msgs)
		}})
	}
	return ss
}

// bigConcurrentScenarios are goroutines that write large and small messages at
// once.
func bigConcurrentScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i := 0; i < hx.N(12, 120); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("large-%d", i), Run: func(r *hx.Rec) {
			rng := r.Rng
			size := hx.Pick(rng, 128, 4096, 65536, 1<<20, 1<<30)
			top := hx.Pick(rng, 10000, 70000, 70000, 300000)
			if size == 128 {
				top = min(top, 70000)
			}
			var chunks []*chunk.Chunk
			var msgs []hx.M
			plan := make([][]int, 2+rng.Intn(3))
			for g := range plan {
				for k := 1 + rng.Intn(3); k > 0; k-- {
					csid := 2 + uint32(rng.Intn(60))
					n := hx.Pick(rng, 10, 4000, 4097, 9000, 33000, 66000, 132000, 265000, 530000, top, top, rng.Intn(top))
					n = min(n, top)
					m := wmsg{Csid: csid, Ts: uint32(rng.Intn(ffffff)), Len: uint32(n), Type: byte(rng.Intn(256)), Msid: hx.Q4(rng.Uint32()), Ext: hx.Q4(0)}
					c := m.chunk()
					c.Data = bigPayload(rng, n)
					chunks = append(chunks, c)
					msgs = append(msgs, hx.M{"fmt": 0, "csid": int(csid), "ts": int(m.Ts), "len": n, "type": int(m.Type),
						"msid": m.Msid, "ext": m.Ext, "i": len(chunks), "dlen": n})
					plan[g] = append(plan[g], len(chunks))
				}
			}
			var ks []keep
			for _, c := range chunks {
				ks = append(ks, keepOf(c))
			}
			srng := rand.New(rand.NewSource(rng.Int63()))
			var mu sync.Mutex
			s := &sink{cut: -1, sleep: func() time.Duration {
				mu.Lock()
				defer mu.Unlock()
				return time.Duration(srng.Intn(100)) * time.Microsecond
			}}
			w := chunk.NewWriter(s, size)
			var wg sync.WaitGroup
			for g := range plan {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, i := range plan[g] {
						r.Ev("call", "g", g+1, "i", i)
						r.Ev("ret", "g", g+1, "e", errName(w.Write(chunks[i-1])))
					}
				}()
			}
			wg.Wait()
			r.Ev("kept", "changed", changedOf(ks))
			r.Ev("done")
			runs, S := matched(s.got, chunks)
			r.Set("N", len(s.got))
			r.Set("S", S)
			r.Set("runs", runs)
			r.Set("size", size)
			r.Set("cut", -1)
			r.Set("msgs", msgs)
		}})
	}
	return ss
}
