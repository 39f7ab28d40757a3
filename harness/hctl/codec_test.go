// Package hctl drives the control package.
package hctl

import (
	"fmt"
	"io"
	"math/rand"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"verif/harness/hcc"
	"verif/harness/hx"
)

type ctl = hcc.Msg

// side is one user of a chunker and a parser.
type side struct {
	r       *hx.Rec
	rng     *rand.Rand
	chunker control.Chunker
	parser  control.Parser
	parsed  []control.Control
	packed  []*chunk.Chunk
}

func (s *side) pack(m ctl) *chunk.Chunk { return s.packReal(m, m.Real()) }

func (s *side) packReal(m ctl, real control.Control) *chunk.Chunk {
	c, err := s.chunker.Chunk(real)
	if err != nil || c == nil || c.Header == nil {
		s.r.Ev("failed", "e", fmt.Sprint(err))
		return nil
	}
	h := c.Header
	s.r.Ev("pack", "m", m, "c", hx.M{"fmt": int(h.BasicHeader.FormatId), "mfmt": int(h.MessageHeader.FormatId),
		"csid": int(h.BasicHeader.StreamId), "msid": hx.Q4(h.MessageHeader.StreamId), "type": int(h.MessageHeader.TypeId),
		"len": int(h.MessageHeader.Length), "data": hx.Ints(c.Data)})
	s.packed = append(s.packed, c)
	return c
}

func (s *side) parse(c *chunk.Chunk) control.Control {
	t, d := int(c.Header.MessageHeader.TypeId), hx.Ints(c.Data)
	m, err := s.parser.Parse(c)
	switch {
	case err != nil && m != nil:
		s.r.Ev("failed", "e", "both a message and an error")
	case err != nil:
		s.r.Ev("parse", "type", t, "data", d, "ok", false)
	case m == nil:
		s.r.Ev("failed", "e", "neither a message nor an error")
	default:
		s.r.Ev("parse", "type", t, "data", d, "ok", true, "m", hcc.Of(m))
		s.parsed = append(s.parsed, m)
	}
	return m
}

func (s *side) parseRaw(typ byte, data []byte) control.Control {
	return s.parse(&chunk.Chunk{Header: &chunk.Header{
		BasicHeader:   chunk.BasicHeader{FormatId: byte(s.rng.Intn(4)), StreamId: 2},
		MessageHeader: chunk.MessageHeader{Length: uint32(len(data)), TypeId: typ, Timestamp: uint32(s.rng.Intn(1000))},
	}, Data: data})
}

// trip packages a message and parses the chunk.
func (s *side) trip(m ctl) {
	c := s.pack(m)
	if c == nil {
		return
	}
	// The parser is given a copy: what becomes of the chunk is another question.
	h := *c.Header
	back := s.parse(&chunk.Chunk{Header: &h, Data: append([]byte{}, c.Data...)})
	if back != nil && s.rng.Intn(3) == 0 {
		s.packReal(hcc.Of(back), back)
	}
}

func (s *side) random() {
	switch s.rng.Intn(6) {
	case 0:
		b := make([]byte, s.rng.Intn(10))
		s.rng.Read(b)
		s.parseRaw(byte(hx.Pick(s.rng, s.rng.Intn(8), s.rng.Intn(256))), b)
	case 1:
		s.pack(hcc.Random(s.rng))
	default:
		s.trip(hcc.Random(s.rng))
	}
}

func (s *side) kept() {
	ms, ds := []ctl{}, [][]int{}
	for _, c := range s.parsed {
		ms = append(ms, hcc.Of(c))
	}
	for _, c := range s.packed {
		ds = append(ds, hx.Ints(c.Data))
	}
	s.r.Ev("kept", "ms", ms, "ds", ds)
}

func codecScenarios() []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(s *side)) {
		ss = append(ss, hx.Scenario{ID: id, Run: func(r *hx.Rec) {
			s := &side{r: r, rng: r.Rng, chunker: control.NewChunker(), parser: control.NewParser()}
			f(s)
			s.kept()
			r.Ev("done")
		}})
	}
	in := hx.Inputs[ctl]()
	for at := 0; at < len(in); at += 25 {
		part := in[at:min(at+25, len(in))]
		add(fmt.Sprintf("spec-%d", at), func(s *side) {
			for _, m := range part {
				s.trip(m)
			}
		})
	}
	// Every type with payloads of every short length.
	for base := 0; base < 256; base += 16 {
		add(fmt.Sprintf("types-%d", base), func(s *side) {
			for t := base; t < base+16; t++ {
				for n := 0; n <= 8; n++ {
					b := make([]byte, n)
					s.rng.Read(b)
					if n > 0 && s.rng.Intn(2) == 0 {
						b[0] = 0
					}
					s.parseRaw(byte(t), b)
				}
			}
		})
	}
	for i := 0; i < hx.N(150, 3000); i++ {
		add(fmt.Sprintf("random-%d", i), func(s *side) {
			for k := 0; k < 30; k++ {
				s.random()
				if s.rng.Intn(10) == 0 {
					s.kept()
				}
			}
		})
	}
	// Events of any length.
	for i, n := range []int{65535, 65536, 70000, hx.N(66000, 200000)} {
		add(fmt.Sprintf("large-%d", i), func(s *side) {
			b := make([]byte, n)
			s.rng.Read(b)
			s.trip(hcc.Random(s.rng))
			s.trip(ctl{T: 4, V: hx.Q4(0), E: []int{0, s.rng.Intn(40)}, Body: hx.Ints(b)})
			s.trip(hcc.Random(s.rng))
		})
	}
	// Messages and chunks belong to their users.
	for i := 0; i < hx.N(30, 500); i++ {
		add(fmt.Sprintf("owned-%d", i), func(s *side) {
			for k := 0; k < 20; k++ {
				s.random()
				if n := len(s.packed); n > 0 && s.rng.Intn(2) == 0 {
					c := s.packed[n-1]
					s.packed = s.packed[:n-1]
					s.r.Ev("dropchunk")
					for j := range c.Data {
						c.Data[j] ^= 0x55
					}
					c.Header.MessageHeader.TypeId ^= 1
					c.Header.BasicHeader.StreamId = 77
					c.Header.MessageHeader.StreamId = 9
				}
				if n := len(s.parsed); n > 0 && s.rng.Intn(2) == 0 {
					c := s.parsed[n-1]
					s.parsed = s.parsed[:n-1]
					s.r.Ev("dropmsg")
					c.Read(&zeros{})
				}
			}
		})
	}
	// Several users of one chunker and one parser at once.
	for i := 0; i < hx.N(12, 200); i++ {
		id := fmt.Sprintf("shared-%d", i)
		ss = append(ss, hx.Scenario{ID: id, Run: func(r *hx.Rec) {
			chunker, parser := control.NewChunker(), control.NewParser()
			var wg sync.WaitGroup
			for k := 0; k < 4; k++ {
				sub := r.Sub(fmt.Sprint(k))
				s := &side{r: sub, rng: rand.New(rand.NewSource(r.Rng.Int63())), chunker: chunker, parser: parser}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < 40; j++ {
						s.random()
					}
					s.kept()
					sub.Ev("done")
				}()
			}
			wg.Wait()
			r.Ev("kept", "ms", []int{}, "ds", []int{})
			r.Ev("done")
		}})
	}
	return ss
}

// zeros is what a user overwrites a message with.
type zeros struct{ n int }

func (z *zeros) Read(p []byte) (int, error) {
	if z.n += len(p); z.n > 2000 {
		return 0, io.EOF
	}
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}
