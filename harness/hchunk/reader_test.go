package hchunk

import (
	"fmt"
	"io"
	"math/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// snap is what the traces say of a delivered message.
func snap(c *chunk.Chunk) hx.M {
	h := c.Header
	return hx.M{
		"fmt": int(h.BasicHeader.FormatId), "mfmt": int(h.MessageHeader.FormatId),
		"csid": int(h.BasicHeader.StreamId),
		"ts":   int(h.MessageHeader.Timestamp), "delta": h.MessageHeader.TimestampDelta,
		"len": int(h.MessageHeader.Length), "type": int(h.MessageHeader.TypeId),
		"msid": hx.Q4(h.MessageHeader.StreamId), "ext": hx.Q4(h.ExtendedTimestamp.Delta),
		"data": hx.Ints(c.Data),
	}
}

// kept is a delivered message and what it looked like then.
type kept struct {
	c    *chunk.Chunk
	h    chunk.Header
	data []byte
	own  bool // not scribbled upon
}

// feed is one step of a transport.
type feed struct {
	n    int    // bytes that arrive, in one fragment
	end  string // "", "eof", "fail", "once"
	with bool   // the end comes with the last byte
	set  int    // if not 0, SetReadSize is called first
}

// readerRun plays one history to a chunk.Reader.
type readerRun struct {
	size     int
	wire     []byte
	feeds    []feed
	byteSrc  bool
	sizes    bool // log ReadSize at every quiescent point
	scribble int  // 0: never, n: about every n-th delivered message
	zero     bool // every fragment is preceded by an empty read
}

func endErr(rng *rand.Rand, s string) error {
	switch s {
	case "fail":
		return hx.Fail(rng)
	case "once":
		return hx.Once(rng)
	}
	return io.EOF
}

// readerLive is a history under way.
type readerLive struct {
	readerRun
	r    *hx.Rec
	src  *hx.Src
	cr   chunk.Reader
	ks   []*kept
	stop chan struct{}
	pos  int
	over bool
}

func (x readerRun) play(r *hx.Rec) {
	l := x.begin(r)
	for _, f := range x.feeds {
		if !l.step(f) {
			break
		}
	}
	l.finish()
}

// playTwins plays several histories to as many readers, a step of one at a
// time.
func playTwins(r *hx.Rec, xs []readerRun) {
	ls := make([]*readerLive, len(xs))
	for i, x := range xs {
		ls[i] = x.begin(r.Sub(fmt.Sprint(i)))
	}
	left := r.Rng.Perm(len(xs))
	for len(left) > 0 {
		k := r.Rng.Intn(len(left))
		l := ls[left[k]]
		for n := 1 + r.Rng.Intn(2); n > 0; n-- {
			more := len(l.feeds) > 0
			if more {
				more = l.step(l.feeds[0])
				l.feeds = l.feeds[1:]
			}
			if !more {
				left = append(left[:k], left[k+1:]...)
				break
			}
		}
	}
	for _, l := range ls {
		l.finish()
	}
}

func (x readerRun) begin(r *hx.Rec) *readerLive {
	l := &readerLive{readerRun: x, r: r, src: hx.NewSrc(), stop: make(chan struct{})}
	r.Set("W", hx.Ints(x.wire))
	r.Set("size", x.size)
	var rd io.Reader = l.src
	if x.byteSrc {
		rd = hx.ByteSrc{Src: l.src}
	}
	l.cr = chunk.NewReader(rd, x.size, chunk.NewNormalizer())
	go l.cr.Recv()
	go l.take()
	return l
}

func (l *readerLive) take() {
	errs := l.cr.Errs()
	for {
		select {
		case c := <-l.cr.Chunks():
			m := snap(c)
			l.r.Ev("msg", flat(m)...)
			k := &kept{c: c, h: *c.Header, data: append([]byte{}, c.Data...), own: true}
			if l.scribble > 0 && l.r.Rng.Intn(l.scribble) == 0 {
				k.own = false
				scribbleOn(c)
			}
			l.ks = append(l.ks, k)
		case err := <-errs:
			e := hx.ErrClass(err)
			l.r.Ev("err", "e", e)
			if e == "eof" || e == "fail" {
				errs = nil // it would be reported for ever
			}
		case <-l.stop:
			return
		}
	}
}

// step says whether there can be another one.
func (l *readerLive) step(f feed) bool {
	if f.set != 0 {
		l.cr.SetReadSize(f.set)
		l.r.Ev("setsize", "v", f.set)
	}
	b := l.wire[l.pos : l.pos+f.n]
	l.pos += f.n
	if f.n > 0 {
		l.r.Ev("feed", "n", f.n)
	}
	if f.end != "" {
		l.r.Ev("end", "how", f.end)
	}
	if l.zero {
		l.src.Feed(nil)
	}
	if f.end != "" {
		l.over = f.end != "once"
		l.src.FeedEnd(b, endErr(l.r.Rng, f.end), f.end == "once", f.with)
	} else {
		l.src.Feed(b)
	}
	hx.Wait()
	if !l.over {
		l.r.Ev("quiet", "taken", l.src.Taken())
	}
	if l.sizes {
		l.r.Ev("size", "v", min(l.cr.ReadSize(), 1<<31-1))
	}
	return !l.over
}

func (l *readerLive) finish() {
	if l.over {
		// Everything the reader still has to say has been said.
		l.r.Ev("quiet", "taken", l.src.Taken())
	}
	l.cr.Close()
	close(l.stop)
	if !l.over {
		l.src.FeedEnd(nil, io.EOF, false, false) // lets the reader see it is closed
	}
	hx.Wait()
	l.r.Ev("close")
	changed := []int{}
	for i, k := range l.ks {
		if k.own && (*k.c.Header != k.h || string(k.c.Data) != string(k.data)) {
			changed = append(changed, i)
		}
	}
	l.r.Ev("kept", "changed", changed)
	l.r.Ev("done")
}

// scribbleOn changes everything about a message that its consumer can reach.
func scribbleOn(c *chunk.Chunk) {
	d := c.Data[:cap(c.Data)]
	for i := range d {
		d[i] ^= 0xa5
	}
	*c.Header = chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: 1, StreamId: 77},
		MessageHeader:     chunk.MessageHeader{FormatId: 2, Timestamp: 0xffffff, TimestampDelta: true, Length: 3, TypeId: 1, StreamId: 0xabcdef},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: 0xdeadbeef},
	}
	c.Data = nil
}

func flat(m hx.M) []any {
	var kv []any
	for k, v := range m {
		kv = append(kv, k, v)
	}
	return kv
}

// Fragmentations of a wire.
func whole(n int) []feed { return []feed{{n: n}} }

func bytewise(n int) []feed {
	fs := make([]feed, n)
	for i := range fs {
		fs[i].n = 1
	}
	return fs
}

func atCuts(n int, cuts []int) []feed {
	var fs []feed
	at := 0
	for _, c := range cuts {
		if c > at && c <= n {
			fs = append(fs, feed{n: c - at})
			at = c
		}
	}
	if at < n {
		fs = append(fs, feed{n: n - at})
	}
	return fs
}

func randomCuts(r *rand.Rand, n, mean int) []feed {
	var fs []feed
	for at := 0; at < n; {
		k := 1 + r.Intn(2*mean)
		if r.Intn(4) == 0 {
			k = 1 + r.Intn(3)
		}
		k = min(k, n-at)
		fs = append(fs, feed{n: k})
		at += k
	}
	return fs
}
