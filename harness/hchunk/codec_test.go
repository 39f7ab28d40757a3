package hchunk

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"verif/harness/hx"
)

// A header in the specification's terms.
func specHeader(h *chunk.Header) hx.M {
	return hx.M{
		"fmt": int(h.BasicHeader.FormatId), "mfmt": int(h.MessageHeader.FormatId), "csid": int(h.BasicHeader.StreamId),
		"ts": int(h.MessageHeader.Timestamp), "delta": h.MessageHeader.TimestampDelta, "len": int(h.MessageHeader.Length),
		"type": int(h.MessageHeader.TypeId), "msid": hx.Q4(h.MessageHeader.StreamId), "ext": hx.Q4(h.ExtendedTimestamp.Delta),
	}
}

// counter counts the bytes taken from a reader that returns them in fragments.
type counter struct {
	b    []byte
	n    int
	frag int
	with bool // the end comes with the last bytes
	zero bool // now and then a read returns nothing
	odd  bool
}

func (c *counter) Read(p []byte) (int, error) {
	if c.zero {
		c.odd = !c.odd
		if c.odd {
			return 0, nil
		}
	}
	rest := c.b[c.n:]
	if len(rest) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(rest), c.frag)
	copy(p, rest[:n])
	c.n += n
	if c.with && c.n == len(c.b) {
		return n, io.EOF
	}
	return n, nil
}

// reader returns the bytes in one of several ways, and what tells how many
// were taken.
func reader(r *rand.Rand, b []byte) (io.Reader, func() int) {
	switch r.Intn(4) {
	case 0:
		buf := bytes.NewBuffer(b)
		return buf, func() int { return len(b) - buf.Len() }
	case 1:
		rd := bytes.NewReader(b)
		return rd, func() int { return len(b) - rd.Len() }
	}
	c := &counter{b: b, frag: hx.Pick(r, 1, 2, 3, 100), with: r.Intn(2) == 0, zero: r.Intn(4) == 0}
	return c, func() int { return c.n }
}

type codec struct {
	r   *hx.Rec
	rng *rand.Rand
}

func (c codec) encode(h *chunk.Header) []byte {
	buf := new(bytes.Buffer)
	if err := h.Write(buf); err != nil {
		c.r.Ev("failed", "e", err.Error())
	}
	c.r.Ev("enc", "h", specHeader(h), "b", hx.Ints(buf.Bytes()))
	return buf.Bytes()
}

func (c codec) decode(w []byte) {
	h := new(chunk.Header)
	rd, taken := reader(c.rng, w)
	err := h.Read(rd)
	if err != nil {
		c.r.Ev("dec", "W", hx.Ints(w), "ok", false)
		return
	}
	c.r.Ev("dec", "W", hx.Ints(w), "ok", true, "n", taken(), "h", specHeader(h))
}

func (c codec) parts(h *chunk.Header) {
	buf := new(bytes.Buffer)
	h.BasicHeader.Write(buf)
	c.r.Ev("encb", "h", specHeader(h), "b", hx.Ints(buf.Bytes()))
	buf = new(bytes.Buffer)
	h.MessageHeader.Write(buf)
	m := append([]byte{}, buf.Bytes()...)
	c.r.Ev("encm", "h", specHeader(h), "b", hx.Ints(m))
	buf = new(bytes.Buffer)
	h.ExtendedTimestamp.Write(buf)
	x := append([]byte{}, buf.Bytes()...)
	c.r.Ev("ence", "h", specHeader(h), "b", hx.Ints(x))

	m = append(m, c.tail()...)
	m = m[:c.rng.Intn(len(m)+1)]
	mh := &chunk.MessageHeader{FormatId: h.BasicHeader.FormatId}
	rd, taken := reader(c.rng, m)
	ok := mh.Read(rd) == nil
	d := specHeader(&chunk.Header{MessageHeader: *mh})
	d["fmt"] = int(h.BasicHeader.FormatId)
	c.r.Ev("decm", "W", hx.Ints(m), "ok", ok, "n", taken(), "h", d)

	x = append(x, c.tail()...)
	x = x[:c.rng.Intn(len(x)+1)]
	xt := new(chunk.ExtendedTimestamp)
	rd, taken = reader(c.rng, x)
	ok = xt.Read(rd) == nil
	c.r.Ev("dece", "W", hx.Ints(x), "ok", ok, "n", taken(), "h", hx.M{"ext": hx.Q4(xt.Delta)})
}

// limited takes so many bytes and no more.
type limited struct {
	n   int
	err error
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, l.err
	}
	l.n -= len(p)
	return len(p), nil
}

func (c codec) cut(h *chunk.Header, n int) {
	ok := h.Write(&limited{n, hx.Pick(c.rng, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, hx.Fail(c.rng))}) == nil
	c.r.Ev("cut", "h", specHeader(h), "n", n, "ok", ok)
}

func (c codec) decodeBasic(w []byte) {
	b := new(chunk.BasicHeader)
	rd, taken := reader(c.rng, w)
	ok := b.Read(rd) == nil
	c.r.Ev("decb", "W", hx.Ints(w), "ok", ok, "n", taken(), "h", specHeader(&chunk.Header{BasicHeader: *b}))
}

func (c codec) tail() []byte {
	b := make([]byte, c.rng.Intn(6))
	c.rng.Read(b)
	return b
}

// all does everything there is to do with one header.
func (c codec) all(h *chunk.Header) {
	keep := *h
	w := c.encode(h)
	if *h != keep {
		c.r.Ev("failed", "e", "header changed")
	}
	c.parts(h)
	if len(w) == 0 {
		return
	}
	c.decode(append(append([]byte{}, w...), c.tail()...))
	c.decode(w)
	for k := 0; k < 2; k++ {
		c.decode(w[:c.rng.Intn(len(w))])
		c.cut(h, c.rng.Intn(len(w)+1))
		c.decodeBasic(w[:c.rng.Intn(min(len(w), 4)+1)])
	}
	c.decodeBasic(w)
}

func randomHeader(r *rand.Rand) *chunk.Header {
	f := byte(r.Intn(4))
	ts := hx.Pick(r, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffff, 0x800000, 0xfffffe, uint32(r.Intn(ffffff)), 1<<r.Intn(24))
	var ext uint32
	if r.Intn(4) == 0 && f < 3 {
		ts = ffffff
		ext = hx.Pick(r, r.Uint32(), 0, 1, ffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 1<<r.Intn(32))
	}
	csid := csidPool[r.Intn(len(csidPool))]
	switch r.Intn(5) {
	case 0:
		csid = 2 + uint32(r.Intn(61))
	case 1:
		csid = 64 + uint32(r.Intn(256))
	case 2:
		csid = 320 + uint32(r.Intn(65280))
	}
	return &chunk.Header{
		BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: csid},
		MessageHeader: chunk.MessageHeader{FormatId: f, Timestamp: ts, TimestampDelta: f == 1 || f == 2,
			Length: hx.Pick(r, 0, 1, 255, 256, 65535, 65536, 0xffffff, uint32(r.Intn(ffffff)), 1<<r.Intn(24)),
			TypeId: byte(r.Intn(256)), StreamId: hx.Pick(r, r.Uint32(), 0, 1, 0x80000000, 1<<r.Intn(32))},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: ext},
	}
}

type codecInput struct {
	H wmsg  `json:"h"`
	W []int `json:"W"`
}

func codecScenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(c codec)) {
		ss = append(ss, hx.Scenario{ID: id, Run: func(r *hx.Rec) {
			f(codec{r, r.Rng})
			r.Ev("done")
		}})
	}
	in := hx.Inputs[codecInput]()
	for at := 0; at < len(in); at += 20 {
		part := in[at:min(at+20, len(in))]
		add(fmt.Sprintf("spec-%d", at), func(c codec) {
			for _, x := range part {
				c.all(x.H.chunk().Header)
				c.decode(toBytes(x.W))
			}
		})
	}
	for i := 0; i < hx.N(120, 3000); i++ {
		add(fmt.Sprintf("random-%d", i), func(c codec) {
			for k := 0; k < 15; k++ {
				c.all(randomHeader(c.rng))
			}
		})
	}
	// Every chunk stream ID, or a good part of them.
	step := hx.N(97, 1)
	off := int(hx.Seed) % step
	for base := 2; base < 65600; base += 4096 {
		add(fmt.Sprintf("csids-%d", base), func(c codec) {
			for id := base; id < base+4096 && id < 65600; id++ {
				if id == 63 || id > 600 && id%step != off {
					continue
				}
				h := randomHeader(c.rng)
				h.BasicHeader.StreamId = uint32(id)
				w := c.encode(h)
				c.decode(w)
			}
		})
	}
	// Any bytes at all.
	for i := 0; i < hx.N(40, 800); i++ {
		add(fmt.Sprintf("bytes-%d", i), func(c codec) {
			for k := 0; k < 40; k++ {
				b := make([]byte, c.rng.Intn(24))
				c.rng.Read(b)
				if len(b) > 3 && c.rng.Intn(3) == 0 {
					b[1], b[2], b[3] = 255, 255, 255
				}
				c.decode(b)
			}
		})
	}
	for f := byte(0); f < 4; f++ {
		add(fmt.Sprintf("csid63-%d", f), func(c codec) {
			h := randomHeader(c.rng)
			h.BasicHeader = chunk.BasicHeader{FormatId: f, StreamId: 63}
			h.MessageHeader.FormatId = f
			c.encode(h)
		})
	}
	return ss
}
