package hcmd

import (
	"fmt"
	"math/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"verif/harness/hamf"
	"verif/harness/hdx"
	"verif/harness/hx"
)

func spec(e string, c *chunk.Chunk, bad string) hx.M {
	return hx.M{"bad": bad, "e": e, "type": int(c.Header.MessageHeader.TypeId), "h": hamf.Header(c.Header), "data": hx.Ints(c.Data)}
}

func command(e string, csid uint32) func(r *rand.Rand, bad bool, n int) *hdx.Item {
	return func(r *rand.Rand, bad bool, n int) *hdx.Item {
		d, kind := hamf.Payload(r, e, bad, n)
		c := chunk.New(hamf.RandHeader(r, csid, 20, 0, len(d)), d)
		return &hdx.Item{Spec: spec(e, c, kind), Chunk: c}
	}
}

func frame(r *rand.Rand, bad bool, n int) *hdx.Item {
	typ := byte(hx.Pick(r, 8, 9, 18))
	var d []byte
	kind := ""
	switch {
	case bad && r.Intn(3) == 0: // of no type
		for typ == 8 || typ == 9 || typ == 18 {
			typ = byte(r.Intn(256))
		}
		d = make([]byte, r.Intn(4))
		kind = "type"
	case typ == 18:
		d, kind = hamf.Payload(r, "data", bad, n)
	case bad:
		kind = "control"
	default:
		d = append([]byte{byte(r.Intn(256))}, hamf.Media(r)...)
	}
	c := chunk.New(hamf.RandHeader(r, 4, typ, 1, len(d)), d)
	return &hdx.Item{Spec: spec("data", c, kind), Chunk: c}
}

// noResponse cannot be packaged.
type noResponse struct{ kind string }

func (n *noResponse) Marshal() ([]byte, error) { return []byte{1}, hdx.Fail(n.kind) }

// noData cannot be packaged.
type noData struct{ kind string }

func (n *noData) Id() byte                       { return 9 }
func (n *noData) Read(*chunk.Chunk) error        { return nil }
func (n *noData) Marshal() (*chunk.Chunk, error) { return nil, hdx.Fail(n.kind) }

// submission makes an item of a message, which cannot be packaged if spoil is
// not nil.
func submission(r *rand.Rand, bad string, n int, c string, spoil func(v any, kind string) any) *hdx.Item {
	kind, key := "", ""
	if bad != "" {
		kind = hdx.KindFor(r, bad, n, "eof")
	}
	if bad == "write" {
		key = fmt.Sprintf("<%d>", n)
		if c == "createStreamResponse" {
			c = "connectResponse"
		}
	}
	m := hamf.Random(r, c, key)
	v := m.Real(r)
	if bad == "pack" {
		v = spoil(v, kind)
	}
	return &hdx.Item{Spec: hx.M{"bad": kind, "p": bad == "pack", "m": m}, Value: v, Key: key}
}

func netConn() *hdx.Kit {
	return &hdx.Kit{
		Name: "conn", Incoming: command("conn", 3), Kinds: hamf.Kinds, Wire: hamf.Wire,
		Outgoing: func(r *rand.Rand, bad string, n int) *hdx.Item {
			return submission(r, bad, n, hx.Pick(r, "connectResponse", "createStreamResponse"), func(v any, kind string) any {
				if c, ok := v.(*conn.ConnectResponse); ok && r.Intn(2) == 0 {
					hamf.Spoil(hx.Pick(r, c.Properties.Paired, c.Information.Paired), kind)
					return c
				}
				return &noResponse{kind}
			})
		},
		New: func(chunks chan *chunk.Chunk, w chunk.Writer) *hdx.Endpoint {
			c := conn.NewNetConnection(chunks, w)
			return &hdx.Endpoint{
				Run: c.Listen, Close: c.Close,
				In: func() (any, bool) {
					v, ok := <-c.In()
					if !ok {
						return 0, false
					}
					return hamf.Delivered(v), true
				},
				Err:    func() (error, bool) { e, ok := <-c.Errs(); return e, ok },
				Submit: func(v any) { c.Out() <- v.(conn.Marshallable) },
			}
		},
	}
}

func netStream() *hdx.Kit {
	return &hdx.Kit{
		Name: "stream", Incoming: command("stream", 4), Kinds: hamf.Kinds, Wire: hamf.Wire,
		Outgoing: func(r *rand.Rand, bad string, n int) *hdx.Item {
			return submission(r, bad, n, "status", func(v any, kind string) any {
				hamf.Spoil(v.(*stream.Status).Arguments.Paired, kind)
				return v
			})
		},
		New: func(chunks chan *chunk.Chunk, w chunk.Writer) *hdx.Endpoint {
			s := stream.New(chunks, w)
			return &hdx.Endpoint{
				Run: s.Listen, Close: s.Close,
				In: func() (any, bool) {
					v, ok := <-s.In()
					if !ok {
						return 0, false
					}
					return hamf.Delivered(v), true
				},
				Err:    func() (error, bool) { e, ok := <-s.Errs(); return e, ok },
				Submit: func(v any) { s.Status() <- v.(*stream.Status) },
			}
		},
	}
}

// relayed is a media frame somebody received elsewhere.
func relayed(r *rand.Rand, key string) (data.Data, *chunk.Chunk) {
	d := append([]byte{byte(r.Intn(256))}, key...)
	var f data.Data
	typ := byte(8)
	if r.Intn(2) == 0 {
		f = new(data.Audio)
	} else {
		f, typ = new(data.Video), 9
	}
	c := chunk.New(hamf.RandHeader(r, hx.Pick(r, uint32(4), uint32(6), uint32(900)), typ, r.Uint32(), len(d)), d)
	if err := f.Read(c); err != nil {
		panic("harness: " + err.Error())
	}
	return f, c
}

func dataStream() *hdx.Kit {
	return &hdx.Kit{
		Name: "data", Incoming: frame, Kinds: hamf.Kinds, Wire: hamf.Wire,
		Outgoing: func(r *rand.Rand, bad string, n int) *hdx.Item {
			if bad != "pack" && r.Intn(2) == 0 {
				kind, key := "", string(hamf.Media(r))
				if bad != "" {
					kind, key = hdx.KindFor(r, bad, n, "eof"), fmt.Sprintf("<%d>", n)
				}
				f, c := relayed(r, key)
				return &hdx.Item{Spec: hx.M{"bad": kind, "p": false, "m": hx.M{"c": "frame", "as": hamf.Wire(c)}}, Value: f, Key: key}
			}
			return submission(r, bad, n, "dataFrame", func(v any, kind string) any {
				if r.Intn(2) == 0 {
					hamf.Spoil(v.(*data.DataFrame).Arguments.Paired, kind)
					return v
				}
				return &noData{kind}
			})
		},
		New: func(chunks chan *chunk.Chunk, w chunk.Writer) *hdx.Endpoint {
			s := data.NewStream(chunks, w)
			return &hdx.Endpoint{
				Run: s.Recv, Close: s.Close,
				In: func() (any, bool) {
					v, ok := <-s.Out()
					if !ok {
						return 0, false
					}
					return hamf.Delivered(v), true
				},
				Err:    func() (error, bool) { e, ok := <-s.Errs(); return e, ok },
				Submit: func(v any) { s.In() <- v.(data.Data) },
			}
		},
	}
}
