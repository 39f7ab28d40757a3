package hctl

import (
	"errors"
	"fmt"
	"io"
	"math/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"verif/harness/hcc"
	"verif/harness/hdx"
	"verif/harness/hx"
)

// stream is a chunk stream the scenario feeds.
type stream struct{ ch chan *chunk.Chunk }

func (s stream) In() <-chan *chunk.Chunk { return s.ch }

// spoilt is a control message that cannot be packaged.
type spoilt struct {
	control.Acknowledgement
	kind string
	some bool
}

func (s *spoilt) Write(w io.Writer) error {
	if s.some {
		w.Write([]byte{1, 2})
	}
	return hdx.Fail(s.kind)
}

func chunkOf(typ byte, data []byte, f byte) *chunk.Chunk {
	return &chunk.Chunk{Header: &chunk.Header{
		BasicHeader:   chunk.BasicHeader{FormatId: f, StreamId: 2},
		MessageHeader: chunk.MessageHeader{FormatId: f, Length: uint32(len(data)), TypeId: typ},
	}, Data: data}
}

func incoming(r *rand.Rand, bad bool, n int) *hdx.Item {
	if !bad {
		m := hcc.Random(r)
		if m.T == 1 {
			m.V[0] = 0
		}
		c, err := control.NewChunker().Chunk(m.Real())
		if err != nil {
			panic(err)
		}
		d := append([]byte{}, c.Data...)
		return &hdx.Item{Spec: hx.M{"bad": "", "type": m.T, "data": hx.Ints(d)}, Chunk: chunkOf(byte(m.T), d, byte(r.Intn(4)))}
	}
	if r.Intn(2) == 0 {
		typ, d := byte(7+r.Intn(249)), make([]byte, r.Intn(8))
		if r.Intn(8) == 0 {
			typ = 0
		}
		return &hdx.Item{Spec: hx.M{"bad": fmt.Sprint("unknown", typ), "type": int(typ), "data": hx.Ints(d)}, Chunk: chunkOf(typ, d, 0)}
	}
	typ := byte(1 + r.Intn(6))
	need := map[byte]int{4: 2, 6: 5}[typ]
	if need == 0 {
		need = 4
	}
	d := make([]byte, r.Intn(need))
	return &hdx.Item{Spec: hx.M{"bad": "short", "type": int(typ), "data": hx.Ints(d)}, Chunk: chunkOf(typ, d, 0)}
}

func outgoing(r *rand.Rand, bad string, n int) *hdx.Item {
	m := hcc.Random(r)
	it := &hdx.Item{}
	kind := ""
	switch bad {
	case "pack":
		kind = hdx.KindFor(r, "pack", n, "short")
		m = ctl{T: 3, V: hx.Q4(0), E: []int{0, 0}, Body: []int{}}
		it.Value = &spoilt{kind: kind, some: r.Intn(2) == 0}
	case "write":
		kind = hdx.KindFor(r, "write", n, "short")
		m = ctl{T: hx.Pick(r, 2, 3, 5, 6), V: hx.Q4(0xE7000000 + uint32(n)), E: []int{0, 0}, Body: []int{}}
		it.Key = string(hcc.Bytes(m.V))
		it.Value = m.Real()
	default:
		if m.V[0] == 0xE7 {
			m.V[0] = 0
		}
		it.Value = m.Real()
	}
	it.Spec = hx.M{"bad": kind, "p": bad == "pack", "m": m}
	return it
}

func wireOf(c *chunk.Chunk) any {
	if c == nil || c.Header == nil {
		return hx.M{"none": true}
	}
	h := c.Header
	return hx.M{"fmt": int(h.BasicHeader.FormatId), "mfmt": int(h.MessageHeader.FormatId),
		"csid": int(h.BasicHeader.StreamId), "msid": hx.Q4(h.MessageHeader.StreamId), "type": int(h.MessageHeader.TypeId),
		"len": int(h.MessageHeader.Length), "data": hx.Ints(c.Data)}
}

func kinds(err error) string {
	var u control.UnknownControlType
	if errors.As(err, &u) {
		return fmt.Sprint("unknown", byte(u))
	}
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
		return "short"
	}
	return ""
}

func endpoint(s *control.Stream) *hdx.Endpoint {
	return &hdx.Endpoint{
		Run: s.Recv, Close: s.Close,
		In: func() (any, bool) {
			c, ok := <-s.In()
			if !ok {
				return 0, false
			}
			return hcc.Of(c), true
		},
		Err:    func() (error, bool) { e, ok := <-s.Errs(); return e, ok },
		Submit: func(v any) { s.Out() <- v.(control.Control) },
	}
}

func kit() *hdx.Kit {
	return &hdx.Kit{
		Name: "control", Incoming: incoming, Outgoing: outgoing, Kinds: kinds, Wire: wireOf,
		New: func(chunks chan *chunk.Chunk, w chunk.Writer) *hdx.Endpoint {
			return endpoint(control.NewStream(stream{chunks}, w, control.NewParser(), control.NewChunker()))
		},
	}
}

// parsed is a control stream behind a chunk parser and reader.
func parsed() *hdx.Kit {
	k := kit()
	k.Name = "parsed"
	k.New = func(_ chan *chunk.Chunk, w chunk.Writer) *hdx.Endpoint {
		pr, pw := io.Pipe()
		p := chunk.NewParser(chunk.NewReader(pr, 128, chunk.NewNormalizer()))
		st, err := p.Stream(2)
		if err != nil {
			panic(err)
		}
		go p.Recv()
		e := endpoint(control.NewStream(st, w, control.NewParser(), control.NewChunker()))
		cw := chunk.NewWriter(pw, 128)
		e.Feed = func(c *chunk.Chunk) {
			if c.TypeId() == 1 { // Set Chunk Size would not get here
				panic("harness: set chunk size")
			}
			h := *c.Header
			h.BasicHeader.FormatId, h.MessageHeader.FormatId = 0, 0
			cw.Write(&chunk.Chunk{Header: &h, Data: c.Data})
		}
		e.End = func() {}
		return e
	}
	k.Incoming = func(r *rand.Rand, bad bool, n int) *hdx.Item {
		for {
			it := incoming(r, bad, n)
			if it.Chunk.TypeId() != 1 && it.Chunk.TypeId() != 2 {
				return it
			}
		}
	}
	return k
}

func streamScenarios(closing bool) []hx.Scenario {
	ss := hdx.Scenarios(kit(), closing)
	more := hdx.Scenarios(parsed(), closing)
	for i, s := range more {
		if i%hx.N(4, 2) == 0 {
			ss = append(ss, s)
		}
	}
	return ss
}
