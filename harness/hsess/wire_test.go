package hsess

import (
	"math/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hamf"
	"verif/harness/hcc"
	"verif/harness/hx"
)

// wire writes chunk streams. What they stand for is decided by the
// specification; only conforming ones are of use.
type wire struct {
	r    *rand.Rand
	b    []byte
	size int
	prev map[uint32]head
	part map[uint32]*rest
	open []uint32
	// where messages that come out of the session end
	marks []int
}

type head struct {
	fmt              byte
	ts, n, msid, ext uint32
	typ              byte
}

type rest struct {
	h     head
	b     []byte
	comes bool
}

const mark = 0xFFFFFF

func newWire(r *rand.Rand) *wire {
	return &wire{r: r, size: 128, prev: map[uint32]head{}, part: map[uint32]*rest{}}
}

func (w *wire) header(csid uint32, h head) {
	switch {
	case csid < 64:
		w.b = append(w.b, h.fmt<<6|byte(csid))
	case csid < 320:
		w.b = append(w.b, h.fmt<<6, byte(csid-64))
	default:
		w.b = append(w.b, h.fmt<<6|63, byte((csid-64)>>8), byte(csid-64))
	}
	if h.fmt <= 2 {
		w.b = append(w.b, byte(h.ts>>16), byte(h.ts>>8), byte(h.ts))
	}
	if h.fmt <= 1 {
		w.b = append(w.b, byte(h.n>>16), byte(h.n>>8), byte(h.n), h.typ)
	}
	if h.fmt == 0 {
		w.b = append(w.b, byte(h.msid), byte(h.msid>>8), byte(h.msid>>16), byte(h.msid>>24))
	}
	if h.ts == mark {
		w.b = append(w.b, byte(h.ext>>24), byte(h.ext>>16), byte(h.ext>>8), byte(h.ext))
	}
}

// start begins a message, in any form of header that can say what it must.
func (w *wire) start(csid uint32, typ byte, msid uint32, data []byte, comes bool) {
	for w.part[csid] != nil {
		w.cont(csid)
	}
	h := head{ts: hx.Pick(w.r, 0, uint32(w.r.Intn(mark)), uint32(w.r.Intn(1000))), n: uint32(len(data)), msid: msid, typ: typ}
	if w.r.Intn(10) == 0 {
		h.ts, h.ext = mark, w.r.Uint32()
	}
	if p, ok := w.prev[csid]; ok && p.msid == msid && w.r.Intn(3) > 0 {
		h.fmt = 1
		if p.n == h.n && p.typ == typ {
			h.fmt = byte(1 + w.r.Intn(3))
		}
		if h.fmt == 3 {
			h.ts = p.ts
			if h.ts != mark {
				h.ext = 0
			}
		}
	}
	w.header(csid, h)
	w.prev[csid] = h
	w.part[csid] = &rest{h, data, comes}
	w.open = append(w.open, csid)
	w.piece(csid)
}

func (w *wire) cont(csid uint32) {
	h := w.part[csid].h
	h.fmt = 3
	w.header(csid, h)
	w.piece(csid)
}

func (w *wire) piece(csid uint32) {
	m := w.part[csid]
	n := min(len(m.b), w.size)
	w.b = append(w.b, m.b[:n]...)
	m.b = m.b[n:]
	if len(m.b) == 0 {
		w.forget(csid)
		if m.comes {
			w.marks = append(w.marks, len(w.b))
		}
	}
}

func (w *wire) forget(csid uint32) {
	delete(w.part, csid)
	for i, c := range w.open {
		if c == csid {
			w.open = append(append([]uint32{}, w.open[:i]...), w.open[i+1:]...)
			return
		}
	}
}

func (w *wire) finish(csid uint32) {
	for w.part[csid] != nil {
		w.cont(csid)
	}
}

func (w *wire) finishAll() {
	for len(w.open) > 0 {
		w.cont(w.open[w.r.Intn(len(w.open))])
	}
}

// control puts a control message on the wire: never a Set Chunk Size or an
// Abort, which have effects of their own.
func (w *wire) control(bad bool) {
	if !bad {
		m := hcc.Random(w.r)
		for m.T <= 2 {
			m = hcc.Random(w.r)
		}
		w.start(2, byte(m.T), hx.Pick(w.r, 0, 0, w.r.Uint32()), payload(m), true)
		return
	}
	typ, n := byte(3+w.r.Intn(4)), 0
	switch typ {
	case 4:
		n = w.r.Intn(2)
	case 6:
		n = w.r.Intn(5)
	default:
		n = w.r.Intn(4)
	}
	if w.r.Intn(2) == 0 {
		typ, n = byte(hx.Pick(w.r, 0, 7, 8, 9, 18, 20, 255, 7+w.r.Intn(249))), w.r.Intn(8)
	}
	b := make([]byte, n)
	w.r.Read(b)
	w.start(2, typ, 0, b, true)
}

func payload(m hcc.Msg) []byte {
	switch m.T {
	case 4:
		return append(hcc.Bytes(m.E), hcc.Bytes(m.Body)...)
	case 6:
		return append(hcc.Bytes(m.V), byte(m.X))
	}
	return hcc.Bytes(m.V)
}

func (w *wire) command(c *chunk.Chunk, comes bool) {
	w.start(c.Header.BasicHeader.StreamId, c.Header.MessageHeader.TypeId, c.Header.MessageHeader.StreamId, c.Data, comes)
}

// setSize changes the chunk size; on any chunk stream.
func (w *wire) setSize(n int) {
	c := hx.Pick(w.r, uint32(2), 2, 2, 3, 5)
	w.start(c, 1, 0, []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, false)
	w.finish(c)
	w.size = n
}

func (w *wire) badSize() {
	w.start(2, 1, 0, make([]byte, hx.Pick(w.r, 0, 3, 4)), false)
	w.finish(2)
}

// abort discards what is open on a chunk stream, if anything.
func (w *wire) abort() {
	v := hx.Pick(w.r, uint32(3), 4, 5, 8, w.r.Uint32())
	if len(w.open) > 0 && w.r.Intn(3) > 0 {
		v = w.open[w.r.Intn(len(w.open))]
	}
	if v == 2 {
		return
	}
	w.start(2, 2, 0, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}, true)
	w.finish(2)
	w.forget(v)
}

type profile struct {
	n        int
	others   bool // messages on other chunk streams
	badSizes bool
	tame     bool // nothing that makes it hard to say what will come of it
}

func plain(r *rand.Rand) profile { return profile{n: hx.Pick(r, 3, 6, 6+r.Intn(20))} }

func genWire(r *rand.Rand, p profile) []byte {
	w := newWire(r)
	w.fill(p)
	return w.b
}

func (w *wire) fill(p profile) {
	r := w.r
	for i := 0; i < p.n; i++ {
		if len(w.open) > 0 && r.Intn(2) == 0 {
			w.cont(w.open[r.Intn(len(w.open))])
			continue
		}
		bad := r.Intn(5) == 0
		switch k := r.Intn(20); {
		case k < 5:
			w.control(bad)
		case k < 8:
			w.command(hamf.Incoming(r, "conn", bad, r.Intn(256)), true)
		case k < 11:
			w.command(hamf.Incoming(r, "stream", bad, r.Intn(256)), true)
		case k < 15:
			w.media(bad)
		case k < 17:
			w.command(nowhere(r), false)
		case k < 19:
			w.setSize(hx.Pick(r, 1, 2, 7, 64, 128, 128, 200, 4096, 65536))
		default:
			if !p.tame {
				w.abort()
			}
		}
	}
	if p.others {
		w.finishAll()
		w.start(hx.Pick(r, uint32(6), 7, 9, 64, 320, 6+uint32(r.Intn(50))), byte(hx.Pick(r, 8, 9, 20)), 1, []byte{1, 2, 3}, false)
		if w.prev[8].typ == 1 {
			delete(w.prev, 8)
		}
	}
	if p.badSizes {
		w.finishAll()
		w.badSize()
	}
	if p.others || p.badSizes || p.tame || r.Intn(3) > 0 {
		w.finishAll()
	}
	if p.others || p.badSizes {
		w.control(false)
		w.command(hamf.Incoming(r, "conn", false, 1), true)
		w.finishAll()
	}
}

// media is a frame for the data stream, sometimes of several chunks.
func (w *wire) media(bad bool) {
	c := hamf.Incoming(w.r, "data", bad, w.r.Intn(256))
	if t := c.Header.MessageHeader.TypeId; !bad && t != 18 && w.r.Intn(4) == 0 {
		b := make([]byte, 100+w.r.Intn(300))
		w.r.Read(b)
		c.Data = b
	}
	w.command(c, true)
}

// nowhere is a message of the manager's for none of its endpoints.
func nowhere(r *rand.Rand) *chunk.Chunk {
	for {
		c := hamf.Incoming(r, "none", r.Intn(3) == 0, r.Intn(256))
		switch c.Header.BasicHeader.StreamId {
		case 4, 5, 8:
			if t := c.Header.MessageHeader.TypeId; t != 1 && t != 2 {
				return c
			}
		}
	}
}

// kind puts a message of a kind of the specification's on the wire.
func (w *wire) kind(k string) {
	r := w.r
	on := func(to string, csid uint32) {
		for {
			if c := hamf.Incoming(r, to, false, r.Intn(256)); c.Header.BasicHeader.StreamId == csid &&
				c.Header.MessageHeader.TypeId > 2 {
				w.command(c, to != "none")
				w.finish(csid)
				return
			}
		}
	}
	switch k {
	case "ctl", "ctlbad":
		w.control(k == "ctlbad")
		w.finish(2)
	case "conn3":
		on("conn", 3)
	case "conn8":
		on("conn", 8)
	case "str4":
		on("stream", 4)
	case "str8":
		on("stream", 8)
	case "data4":
		on("data", 4)
	case "none5":
		on("none", 5)
	}
}
