package hchunk

import (
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// Hostile input: any bytes, in any fragments, to the reader and to a parser
// with a consumer for every stream.

// hostileWire makes up bytes no decent peer would send.
func hostileWire(r *rand.Rand) ([]byte, int) {
	size := hx.Pick(r, 1, 2, 3, 16, 128, 128, 4096)
	switch r.Intn(5) {
	case 0: // noise
		b := make([]byte, 1+r.Intn(400))
		r.Read(b)
		return b, size
	case 1: // mostly small numbers, so that lengths stay small
		b := make([]byte, 1+r.Intn(600))
		for i := range b {
			if r.Intn(3) == 0 {
				b[i] = byte(r.Intn(10))
			}
			if r.Intn(12) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
		return b, size
	case 2: // chunks put together without discipline
		var w []byte
		for i := 1 + r.Intn(25); i > 0; i-- {
			w = append(w, wildChunk(r)...)
		}
		return w, size
	}
	// A decent history, damaged.
	pr := baseProfile(r)
	pr.size, pr.pCtl, pr.pBad, pr.pAbort = size, .15, .1, .15
	pr.maxWire, pr.steps, pr.maxLen = 700, 15, 80
	p := newPeer(r, pr.size)
	p.run(pr)
	w := p.wire
	for i := 1 + r.Intn(6); i > 0 && len(w) > 2; i-- {
		at := r.Intn(len(w))
		switch r.Intn(6) {
		case 0:
			w[at] ^= 1 << r.Intn(8)
		case 1:
			w[at] = hx.Pick(r, byte(0), 1, 2, 3, 63, 64, 127, 128, 192, 255)
		case 2: // lost bytes
			w = append(w[:at:at], w[min(len(w), at+1+r.Intn(6)):]...)
		case 3: // extra bytes
			x := make([]byte, 1+r.Intn(6))
			r.Read(x)
			w = append(w[:at:at], append(x, w[at:]...)...)
		case 4: // a chunk of its own in the middle of things
			w = append(w[:at:at], append(wildChunk(r), w[at:]...)...)
		case 5: // a piece repeated
			to := min(len(w), at+r.Intn(60))
			w = append(w[:to:to], w[at:]...)
		}
	}
	return w, size
}

// wildChunk is a header with a few bytes after it.
func wildChunk(r *rand.Rand) []byte {
	p := newPeer(r, 128)
	h := hdr{fmt: byte(r.Intn(4)), typ: hx.Pick(r, byte(1), 1, 2, 2, 3, 4, 5, 6, 8, 9, 18, 20, byte(r.Intn(256))),
		ts: uint32(r.Intn(1000)), ln: uint32(hx.Pick(r, 0, 1, 2, 3, 4, 5, 8, 130, 300)), msid: r.Uint32()}
	if r.Intn(5) == 0 {
		h.ts, h.ext = ffffff, r.Uint32()
	}
	if r.Intn(30) == 0 {
		h.ln = hx.Pick(r, uint32(ffffff), 70000, 0x800000)
	}
	p.header(h, hx.Pick(r, uint32(0), 1, 2, 2, 2, 3, 4, 5, 8, 64, 319, 320, 65599))
	n := int(h.ln)
	switch r.Intn(4) {
	case 0:
		n = r.Intn(12)
	case 1:
		n = min(n, 128)
	}
	b := p.payload(min(n, 400))
	if r.Intn(2) == 0 {
		b = append(hx.Pick(r, []byte{0, 0, 0, 0}, []byte{0, 0, 0, 1}, []byte{255, 255, 255, 255}, []byte{0x80, 0, 0, 0},
			[]byte{0, 0, 0, 2}, []byte{0, 0, 0, 3}, []byte{0x7f, 255, 255, 255}), b...)[:len(b)]
	}
	return append(p.wire, b...)
}

// csidsOf is the set of chunk streams a reader delivers messages on.
func csidsOf(wire []byte, size int) map[uint32]bool {
	src := hx.NewSrc()
	cr := chunk.NewReader(src, size, chunk.NewNormalizer())
	seen := map[uint32]bool{}
	stop := make(chan struct{})
	go cr.Recv()
	go func() {
		for {
			select {
			case c := <-cr.Chunks():
				seen[c.StreamId()] = true
			case err := <-cr.Errs():
				if hx.ErrClass(err) == "eof" {
					return
				}
			case <-stop:
				return
			}
		}
	}()
	src.Feed(wire)
	hx.Wait()
	cr.Close()
	src.FeedEnd(nil, io.EOF, false, false)
	close(stop)
	hx.Wait()
	return seen
}

func playHostile(r *hx.Rec, wire []byte, size int, viaParser bool) {
	r.Set("hex", hex.EncodeToString(wire))
	r.Set("size", size)
	src := hx.NewSrc()
	var rd io.Reader = src
	if r.Rng.Intn(3) == 0 {
		rd = hx.ByteSrc{Src: src}
	}
	cr := chunk.NewReader(rd, size, chunk.NewNormalizer())
	stop := make(chan struct{})
	take := func(ch <-chan *chunk.Chunk) {
		for {
			select {
			case c, ok := <-ch:
				if !ok {
					return
				}
				r.Ev("msg", "len", int(c.Header.MessageHeader.Length), "dlen", len(c.Data))
			case <-stop:
				return
			}
		}
	}
	takeErrs := func(ch <-chan error) {
		for {
			select {
			case err, ok := <-ch:
				if !ok {
					return
				}
				r.Ev("err", "e", hx.ErrClass(err))
				if e := hx.ErrClass(err); e == "eof" || e == "fail" {
					return
				}
			case <-stop:
				return
			}
		}
	}
	var p *chunk.Parser
	if viaParser {
		ids := csidsOf(wire, size)
		p = chunk.NewParser(cr)
		var some []uint32
		for id := range ids {
			if r.Rng.Intn(3) == 0 {
				some = append(some, id)
			}
		}
		if len(some) > 1 { // a combined stream for some of them
			s, err := p.Stream(some...)
			if err != nil {
				panic(err)
			}
			go take(s.In())
		} else {
			some = nil
		}
		for _, id := range some {
			delete(ids, id)
		}
		for id := range ids {
			s, _ := p.Stream(id)
			go take(s.In())
		}
		go takeErrs(p.Errs())
		go p.Recv()
	} else {
		go takeErrs(cr.Errs())
		go take(cr.Chunks())
		go cr.Recv()
	}
	pos := 0
	for _, f := range randomCuts(r.Rng, len(wire), hx.Pick(r.Rng, 3, 30, 1000)) {
		src.Feed(wire[pos : pos+f.n])
		r.Ev("feed", "n", f.n)
		pos += f.n
		hx.Wait()
		r.Ev("quiet", "taken", src.Taken())
	}
	if how := r.Rng.Intn(3); how > 0 {
		r.Ev("end")
		src.FeedEnd(nil, hx.Pick(r.Rng, io.EOF, hx.Fail(r.Rng)), false, false)
		hx.Wait()
	}
	if p != nil {
		p.Close()
	} else {
		cr.Close()
	}
	close(stop)
	src.FeedEnd(nil, io.EOF, false, false)
	hx.Wait()
	r.Ev("done")
}

func hostileScenarios() []hx.Scenario {
	var ss []hx.Scenario
	for i, g := range hx.Inputs[genInput]() {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("spec-%d", i), Run: func(r *hx.Rec) {
			playHostile(r, toBytes(g.W), g.Size, i%3 == 0)
		}})
	}
	for i := 0; i < hx.N(900, 20000); i++ {
		ss = append(ss, hx.Scenario{ID: fmt.Sprintf("reader-%d", i), Run: func(r *hx.Rec) {
			w, size := hostileWire(r.Rng)
			playHostile(r, w, size, false)
		}}, hx.Scenario{ID: fmt.Sprintf("parser-%d", i), Run: func(r *hx.Rec) {
			w, size := hostileWire(r.Rng)
			playHostile(r, w, size, true)
		}})
	}
	return ss
}
