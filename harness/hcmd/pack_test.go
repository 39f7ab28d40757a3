package hcmd

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"verif/harness/hamf"
	"verif/harness/hx"
)

var kindsOut = []string{"connectResponse", "createStreamResponse", "status", "dataFrame"}

// packer packages messages and remembers what came of it.
type packer struct {
	r  *hx.Rec
	mu sync.Mutex
	cs []*chunk.Chunk
	ck conn.Chunker
}

func newPacker(r *hx.Rec) *packer { return &packer{r: r, ck: conn.NewChunker(3)} }

func (p *packer) pack(v any) (*chunk.Chunk, error) {
	switch v := v.(type) {
	case *stream.Status:
		return v.AsChunk()
	case data.Data:
		return v.Marshal()
	case conn.Marshallable:
		return p.ck.Chunk(v)
	}
	panic("harness: not a message")
}

func (p *packer) built(m hamf.Msg, c *chunk.Chunk) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cs = append(p.cs, c)
	p.r.Ev("build", "m", m, "c", hamf.Wire(c))
}

func (p *packer) build(m hamf.Msg, v any) {
	c, err := p.pack(v)
	if err != nil {
		p.r.Ev("refuse", "m", m, "ok", false)
		p.r.Ev("notbuilt") // nothing explains this
		return
	}
	p.built(m, c)
}

func (p *packer) spoilt(r *rand.Rand, c string) {
	if c == "createStreamResponse" {
		c = "status"
	}
	m := hamf.Random(r, c, "")
	v := m.Real(r)
	switch v := v.(type) {
	case *stream.Status:
		hamf.Spoil(v.Arguments.Paired, "x")
	case *data.DataFrame:
		hamf.Spoil(v.Arguments.Paired, "x")
	case *conn.ConnectResponse:
		hamf.Spoil(v.Properties.Paired, "x")
	}
	ch, err := p.pack(v)
	p.r.Ev("refuse", "m", m, "ok", err == nil || ch != nil)
}

func (p *packer) scribble(i int, b byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i >= len(p.cs) {
		return
	}
	c := p.cs[i]
	for j := range c.Data {
		c.Data[j] = b
	}
	c.Header.BasicHeader.StreamId = 77
	c.Header.MessageHeader.Timestamp = 1234
	c.Header.MessageHeader.Length = 3
	p.r.Ev("scribble", "i", i+1, "d", hx.Ints(c.Data))
}

func (p *packer) look() {
	p.mu.Lock()
	defer p.mu.Unlock()
	cs := []any{}
	for _, c := range p.cs {
		cs = append(cs, hamf.Wire(c))
	}
	p.r.Ev("look", "cs", cs)
}

// sink is a connection, which any number of goroutines may write to.
type sink struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (s *sink) Write(b []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.buf.Write(b) }
func (s *sink) Read(b []byte) (int, error)  { s.mu.Lock(); defer s.mu.Unlock(); return s.buf.Read(b) }

// catcher is a transport that keeps the chunks it gets.
type catcher struct {
	mu   sync.Mutex
	cs   []*chunk.Chunk
	w    chunk.Writer
	fail bool
}

func (t *catcher) Write(c *chunk.Chunk) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cs = append(t.cs, c)
	return t.w.Write(c)
}
func (t *catcher) WriteSize() int     { return t.w.WriteSize() }
func (t *catcher) SetWriteSize(n int) { t.w.SetWriteSize(n) }

type packOp struct {
	O string `json:"o"`
	C string `json:"c"`
	I int    `json:"i"`
}

func packScenarios(race bool) []hx.Scenario {
	var ss []hx.Scenario
	add := func(id string, f func(r *hx.Rec)) {
		ss = append(ss, hx.Scenario{ID: "pack-" + id, Run: func(r *hx.Rec) { f(r); r.Ev("done") }})
	}
	if !race {
		for i, ops := range hx.Inputs[[]packOp]() {
			add(fmt.Sprintf("spec-%d", i), func(r *hx.Rec) {
				p := newPacker(r)
				for _, op := range ops {
					if op.O == "build" {
						m := hamf.Random(r.Rng, op.C, "")
						p.build(m, m.Real(r.Rng))
					} else {
						p.scribble(op.I-1, byte(r.Rng.Intn(256)))
					}
					p.look()
				}
			})
		}
		for i := 0; i < hx.N(150, 3000); i++ {
			add(fmt.Sprintf("random-%d", i), func(r *hx.Rec) {
				p := newPacker(r)
				w := chunk.NewWriter(new(sink), 1+r.Rng.Intn(64))
				type old struct {
					m hamf.Msg
					v any
				}
				var olds []old
				for j, n := 0, 2+r.Rng.Intn(12); j < n; j++ {
					switch k := r.Rng.Intn(10); {
					case k < 5:
						m := hamf.Random(r.Rng, hx.Pick(r.Rng, kindsOut...), "")
						v := m.Real(r.Rng)
						p.build(m, v)
						olds = append(olds, old{m, v})
					case k < 6 && len(olds) > 0: // the same message once more
						o := hx.Pick(r.Rng, olds...)
						p.build(o.m, o.v)
					case k < 7: // something else becomes of a message after it was packaged
						m := hamf.Random(r.Rng, hx.Pick(r.Rng, kindsOut...), "")
						v := m.Real(r.Rng)
						p.build(m, v)
						switch v := v.(type) {
						case *stream.Status:
							v.Arguments.Add("later", hamf.Str("x").Amf())
						case *data.DataFrame:
							v.Header, v.Type = "later", "later"
						case *conn.ConnectResponse:
							v.TransactionId, v.ResponseType = 4711, "later"
						case *conn.CreateStreamResponse:
							v.TransactionId, v.StreamID = 4711, 4711
						}
					case k < 8:
						p.spoilt(r.Rng, hx.Pick(r.Rng, kindsOut...))
					case k < 9 && len(p.cs) > 0: // sent by somebody
						w.Write(hx.Pick(r.Rng, p.cs...))
					default:
						p.scribble(r.Rng.Intn(10), byte(r.Rng.Intn(256)))
					}
					if r.Rng.Intn(3) == 0 {
						p.look()
					}
				}
				p.look()
			})
		}
	}
	if !race {
		for i, c := range []string{"connectResponse", "status", "dataFrame"} {
			for j, n := range []int{65536, hx.N(70000, 140000)} {
				add(fmt.Sprintf("large-%d-%d", i, j), func(r *hx.Rec) {
					p := newPacker(r)
					m := hamf.Large(r.Rng, c, n)
					p.build(m, m.Real(r.Rng))
					m = hamf.Random(r.Rng, c, "")
					p.build(m, m.Real(r.Rng))
					p.look()
				})
			}
		}
	}
	// Many at once.
	for i := 0; i < hx.N(40, 600); i++ {
		add(fmt.Sprintf("concurrent-%d", i), func(r *hx.Rec) {
			p := newPacker(r)
			var wg sync.WaitGroup
			for g, n := 0, 2+r.Rng.Intn(6); g < n; g++ {
				rng := rand.New(rand.NewSource(r.Rng.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					w := chunk.NewWriter(new(sink), 1+rng.Intn(64))
					for j := 0; j < 4; j++ {
						m := hamf.Random(rng, hx.Pick(rng, kindsOut...), "")
						v := m.Real(rng)
						c, err := p.pack(v)
						if err != nil {
							p.build(m, v)
							continue
						}
						w.Write(c)
						p.built(m, c)
					}
				}()
			}
			wg.Wait()
			p.look()
		})
	}
	// Through the endpoints of several connections.
	for i := 0; i < hx.N(40, 600); i++ {
		add(fmt.Sprintf("sent-%d", i), func(r *hx.Rec) {
			p := newPacker(r)
			var wg sync.WaitGroup
			for k, n := 0, 1+r.Rng.Intn(4); k < n; k++ {
				rng := rand.New(rand.NewSource(r.Rng.Int63()))
				cw := chunk.NewWriter(new(sink), 1+rng.Intn(64))
				for _, e := range []string{"conn", "stream", "data"} {
					t := &catcher{w: cw}
					rng := rand.New(rand.NewSource(rng.Int63()))
					in := make(chan *chunk.Chunk)
					var submit func(any)
					var stop func()
					var cs []string
					switch e {
					case "conn":
						c := conn.NewNetConnection(in, t)
						go c.Listen()
						submit, stop = func(v any) { c.Out() <- v.(conn.Marshallable) }, c.Close
						cs = []string{"connectResponse", "createStreamResponse"}
					case "stream":
						s := stream.New(in, t)
						go s.Listen()
						submit, stop = func(v any) { s.Status() <- v.(*stream.Status) }, s.Close
						cs = []string{"status"}
					case "data":
						s := data.NewStream(in, t)
						go s.Recv()
						submit, stop = func(v any) { s.In() <- v.(data.Data) }, s.Close
						cs = []string{"dataFrame"}
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						var ms []hamf.Msg
						for j := 0; j < 3; j++ {
							m := hamf.Random(rng, hx.Pick(rng, cs...), "")
							ms = append(ms, m)
							submit(m.Real(rng))
						}
						stop()
						t.mu.Lock()
						defer t.mu.Unlock()
						for j, c := range t.cs {
							if j < len(ms) {
								p.built(ms[j], c)
							}
						}
						if len(t.cs) != len(ms) {
							p.r.Ev("sent", "n", len(t.cs)) // nothing explains this
						}
					}()
				}
			}
			wg.Wait()
			p.look()
		})
	}
	return ss
}
