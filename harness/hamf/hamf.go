// Package hamf has commands and frames in the specification's terms and as the
// Go values net connections, net streams and data streams hand out and take.
package hamf

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"regexp"
	"strings"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"verif/harness/hdx"
	"verif/harness/hx"
)

// Val is one AMF0 value.
type Val struct {
	T string `json:"t"`
	B []int  `json:"b"`
	F []Fld  `json:"f"`
}

// Fld is one field of an object or an array.
type Fld struct {
	K []int `json:"k"`
	V Val   `json:"v"`
}

func val(t string, b []int, f []Fld) Val {
	if b == nil {
		b = []int{}
	}
	if f == nil {
		f = []Fld{}
	}
	return Val{t, b, f}
}

func Null() Val { return val("null", nil, nil) }
func Str(s string) Val {
	return val("str", hx.Ints([]byte(s)), nil)
}
func Bool(b bool) Val {
	if b {
		return val("bool", []int{1}, nil)
	}
	return val("bool", []int{0}, nil)
}
func Num(f float64) Val {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return val("num", hx.Ints(b), nil)
}
func Obj(f []Fld) Val { return val("obj", nil, f) }
func Arr(f []Fld) Val { return val("arr", nil, f) }

func bytesOf(q []int) []byte {
	b := make([]byte, len(q))
	for i, x := range q {
		b[i] = byte(x)
	}
	return b
}

func (v Val) Str() string { return string(bytesOf(v.B)) }
func (v Val) Num() float64 {
	return math.Float64frombits(binary.BigEndian.Uint64(bytesOf(v.B)))
}

// Fill adds the fields to a list of pairs.
func (v Val) Fill(p *amf0.Paired) {
	for _, f := range v.F {
		p.Add(string(bytesOf(f.K)), f.V.Amf())
	}
}

// Amf is the value as the code knows it.
func (v Val) Amf() amf0.AmfType {
	switch v.T {
	case "num":
		return amf0.NewNumber(v.Num())
	case "bool":
		return amf0.NewBool(v.B[0] != 0)
	case "str":
		return amf0.NewString(v.Str())
	case "obj":
		o := amf0.NewObject()
		v.Fill(o.Paired)
		return o
	case "arr":
		a := amf0.NewArray()
		v.Fill(a.Paired)
		return a
	}
	return amf0.NewNull()
}

// Of is the reverse.
func Of(x amf0.AmfType) Val {
	switch x := x.(type) {
	case *amf0.Number:
		return Num(float64(*x))
	case *amf0.Bool:
		return Bool(bool(*x))
	case *amf0.String:
		return Str(string(*x))
	case *amf0.Object:
		if x == nil {
			return Null()
		}
		return Obj(fields(x.Paired))
	case *amf0.Array:
		if x == nil {
			return Null()
		}
		return Arr(fields(x.Paired))
	case *amf0.Null:
		return Null()
	}
	return val("?", nil, nil)
}

func fields(p *amf0.Paired) []Fld {
	fs := []Fld{}
	if p == nil {
		return fs
	}
	for _, k := range p.Keys() {
		v, err := p.Get(k)
		if err != nil {
			panic("harness: " + err.Error())
		}
		fs = append(fs, Fld{hx.Ints([]byte(k)), Of(v)})
	}
	return fs
}

// Enc is the value on the wire. This encoder only makes input; what it makes is
// decoded by the specification on its own.
func (v Val) Enc() []byte {
	switch v.T {
	case "num":
		return append([]byte{0}, bytesOf(v.B)...)
	case "bool":
		return append([]byte{1}, bytesOf(v.B)...)
	case "str":
		return append([]byte{2, byte(len(v.B) >> 8), byte(len(v.B))}, bytesOf(v.B)...)
	case "obj", "arr":
		b := []byte{3}
		if v.T == "arr" {
			b = []byte{8, 0, 0, byte(len(v.F) >> 8), byte(len(v.F))}
		}
		for _, f := range v.F {
			b = append(b, byte(len(f.K)>>8), byte(len(f.K)))
			b = append(b, bytesOf(f.K)...)
			b = append(b, f.V.Enc()...)
		}
		return append(b, 0, 0, 9)
	}
	return []byte{5}
}

func EncAll(vs ...Val) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, v.Enc()...)
	}
	return b
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/?=&. _-"

func Text(r *rand.Rand) string {
	n := hx.Pick(r, 0, 1, 1+r.Intn(12), 1+r.Intn(12), 1+r.Intn(12))
	if r.Intn(40) == 0 {
		n = 250 + r.Intn(20)
	}
	if r.Intn(800) == 0 {
		n = hx.Pick(r, 1000, 4095+r.Intn(3), 20000)
	}
	b := make([]byte, n)
	for i := range b {
		if r.Intn(8) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = letters[r.Intn(len(letters))]
		}
	}
	return string(b)
}

func RandNum(r *rand.Rand) Val {
	return Num(hx.Pick(r, 0, 1, 2, 4, -1, float64(r.Intn(1000)), r.NormFloat64(), math.Inf(1), math.MaxFloat64, 1e-300))
}

func RandFields(r *rand.Rand, depth int) []Fld {
	fs := []Fld{}
	n := r.Intn(5)
	if r.Intn(100) == 0 {
		n = 10 + r.Intn(60)
	}
	for i := 0; i < n; i++ {
		var v Val
		switch k := r.Intn(8); {
		case k < 2:
			v = RandNum(r)
		case k < 4:
			v = Str(Text(r))
		case k < 5:
			v = Bool(r.Intn(2) == 0)
		case k < 6:
			v = Null()
		case depth > 0 && k < 7:
			v = Obj(RandFields(r, depth-1))
		case depth > 0:
			v = Arr(RandFields(r, depth-1))
		default:
			v = Str("x")
		}
		fs = append(fs, Fld{hx.Ints([]byte(fmt.Sprintf("%c%s", 'a'+i, Text(r)))), v})
	}
	return fs
}

func largeFields(r *rand.Rand, n int) (fs []Fld) {
	for i := 0; n >= 0; i++ {
		b := make([]byte, min(n+1, 60000))
		r.Read(b)
		n -= len(b)
		fs = append(fs, Fld{hx.Ints([]byte(fmt.Sprint("k", i))), val("str", hx.Ints(b), nil)})
	}
	return fs
}

func someFields(r *rand.Rand) []Fld {
	if r.Intn(2500) == 0 {
		return largeFields(r, 65536+r.Intn(2000))
	}
	return RandFields(r, 2)
}

func RandObj(r *rand.Rand) Val { return Obj(someFields(r)) }
func RandArr(r *rand.Rand) Val { return Arr(someFields(r)) }

/* Incoming commands. */

var connTable = map[string]string{"connect": "no", "createStream": "no", "releaseStream": "nxs", "FCPublish": "nxs",
	"getStreamLength": "nxs"}
var streamTable = map[string]string{"play": "sn", "play2": "o", "deleteStream": "n", "receiveAudio": "b",
	"receiveVideo": "b", "publish": "ss", "seek": "n", "pause": "bn"}

func names(t map[string]string) []string {
	if len(t) == len(connTable) {
		return []string{"connect", "createStream", "releaseStream", "FCPublish", "getStreamLength"}
	}
	return []string{"play", "play2", "deleteStream", "receiveAudio", "receiveVideo", "publish", "seek", "pause"}
}

func args(r *rand.Rand, kinds string) []Val {
	vs := []Val{}
	for _, k := range kinds {
		switch k {
		case 'n':
			vs = append(vs, RandNum(r))
		case 's':
			vs = append(vs, Str(Text(r)))
		case 'b':
			vs = append(vs, Bool(r.Intn(2) == 0))
		case 'x':
			vs = append(vs, Null())
		case 'o':
			vs = append(vs, hx.Pick(r, RandObj(r), RandObj(r), Null()))
		}
	}
	return vs
}

// Media is what an audio or video frame contains.
func Media(r *rand.Rand) []byte {
	d := make([]byte, r.Intn(hx.Pick(r, 1, 8, 40)))
	switch r.Intn(200) {
	case 0:
		d = make([]byte, hx.Pick(r, 65535, 65536, 70000))
	case 1, 2, 3, 4:
		d = make([]byte, hx.Pick(r, 127, 128, 255, 256, 1024, 4096))
	}
	r.Read(d)
	return d
}

// Payload makes the payload of a command or data frame for an endpoint, or, if
// bad is set, of none, and says what kind of error that must cause.
func Payload(r *rand.Rand, e string, bad bool, n int) ([]byte, string) {
	var head, rest []Val
	name := ""
	switch e {
	case "conn":
		name = hx.Pick(r, names(connTable)...)
		head, rest = []Val{Str(name)}, args(r, connTable[name])
	case "stream":
		name = hx.Pick(r, names(streamTable)...)
		head = []Val{Str(name), RandNum(r), hx.Pick(r, Null(), Null(), RandObj(r))}
		rest = args(r, streamTable[name])
	case "data":
		head = []Val{Str(hx.Pick(r, "@setDataFrame", "@setDataFrame", Text(r))), Str(hx.Pick(r, "onMetaData", Text(r)))}
		rest = []Val{RandArr(r)}
	}
	if !bad {
		b := EncAll(append(head, rest...)...)
		if r.Intn(10) == 0 { // more than the command needs
			b = append(b, EncAll(RandNum(r), Str(Text(r)))...)
		}
		return b, ""
	}
	if e != "data" {
		switch r.Intn(4) {
		case 0: // a command nobody knows
			kind := fmt.Sprintf("xq%dz", n)
			switch r.Intn(8) { // maybe much like one somebody knows
			case 0:
				head[0] = Str(name + kind)
			case 1:
				head[0] = Str(kind + name)
			case 2:
				head[0] = Str(name + "\x00" + kind)
			case 3:
				head[0] = Str(name + strings.Repeat(hx.Pick(r, " ", "x", "\x00"), hx.Pick(r, 1, 240, 260, 300)) + kind)
			default:
				head[0] = Str(kind)
			}
			return EncAll(append(head, rest...)...), kind
		case 1: // not even a name
			if e == "conn" {
				head[0] = hx.Pick(r, RandNum(r), Null(), Bool(true), RandObj(r))
				return EncAll(append(head, rest...)...), "name"
			}
		}
	}
	b := EncAll(append(head, rest...)...)
	return b[:hx.Pick(r, 0, r.Intn(len(b)), len(b)-1)], "eof"
}

// Header is a header in the specification's terms.
func Header(h *chunk.Header) hx.M {
	if h == nil {
		return hx.M{"none": true}
	}
	m := h.MessageHeader
	return hx.M{"fmt": int(h.BasicHeader.FormatId), "mfmt": int(m.FormatId), "csid": int(h.BasicHeader.StreamId),
		"ts": hx.Q4(m.Timestamp), "delta": m.TimestampDelta, "len": int(m.Length), "type": int(m.TypeId),
		"msid": hx.Q4(m.StreamId), "ext": hx.Q4(h.ExtendedTimestamp.Delta)}
}

// Wire is a chunk handed to the transport.
func Wire(c *chunk.Chunk) any {
	if c == nil || c.Header == nil {
		return hx.M{"none": true}
	}
	m := Header(c.Header)
	m["data"] = hx.Ints(c.Data)
	return m
}

// RandHeader is the header of a complete message, as readers deliver them.
func RandHeader(r *rand.Rand, csid uint32, typ byte, msid uint32, n int) *chunk.Header {
	f := byte(hx.Pick(r, 0, 0, 1, 2, 3))
	h := &chunk.Header{
		BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: csid},
		MessageHeader: chunk.MessageHeader{FormatId: f, Timestamp: uint32(r.Intn(1 << 24)), TimestampDelta: f == 1 || f == 2,
			Length: uint32(n), TypeId: typ, StreamId: msid},
	}
	if r.Intn(6) == 0 {
		h.MessageHeader.Timestamp = 0xFFFFFF
		h.ExtendedTimestamp.Delta = r.Uint32()
	}
	return h
}

var token = regexp.MustCompile(`xq\d+z`)

// Kinds tells what caused an error.
func Kinds(err error) string {
	if t := token.FindString(err.Error()); t != "" {
		return t
	}
	if errors.Is(err, data.ErrControlMissing) {
		return "control"
	}
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
		return "eof"
	}
	return ""
}

func obj(o *amf0.Object) Val {
	if o == nil {
		return Null()
	}
	return Obj(fields(o.Paired))
}

func cmd(name string, vs ...Val) any { return hx.M{"name": name, "vs": vs} }

// Delivered is what was taken from an endpoint.
func Delivered(v any) any {
	switch c := v.(type) {
	case *conn.ConnectCommand:
		return cmd("connect", Num(c.TransactionId), obj(c.Metadata))
	case *conn.CreateStreamCommand:
		return cmd("createStream", Num(c.TransactionId), obj(c.Metadata))
	case *conn.ReleaseCommand:
		return cmd("releaseStream", Num(c.TransactionId), Null(), Str(c.StreamKey))
	case *conn.FCPublishCommand:
		return cmd("FCPublish", Num(c.TransactionId), Null(), Str(c.StreamKey))
	case *conn.GetStreamLength:
		return cmd("getStreamLength", Num(c.StreamId), Null(), Str(c.PlayPath))
	case *stream.CommandPlay:
		return cmd("play", Str(c.PlayPath), Num(c.Live))
	case *stream.CommandPlay2:
		return cmd("play2", obj(c.Parameters))
	case *stream.CommandDeleteStream:
		return cmd("deleteStream", Num(c.StreamId))
	case *stream.CommandReceiveAudio:
		return cmd("receiveAudio", Bool(c.Successful))
	case *stream.CommandReceiveVideo:
		return cmd("receiveVideo", Bool(c.Successful))
	case *stream.CommandPublish:
		return cmd("publish", Str(c.Name), Str(c.Type))
	case *stream.CommandSeek:
		return cmd("seek", Num(c.OffsetMillis))
	case *stream.CommandPause:
		return cmd("pause", Bool(c.Paused), Num(c.CutoffMillis))
	case *data.DataFrame:
		a := Null()
		if c.Arguments != nil {
			a = Arr(fields(c.Arguments.Paired))
		}
		return cmd("dataFrame", Str(c.Header), Str(c.Type), a)
	case *data.Audio:
		return media(c)
	case *data.Video:
		return media(c)
	}
	return cmd(fmt.Sprintf("%T", v))
}

func media(d data.Data) any {
	c, err := d.Marshal()
	if err != nil || c == nil {
		return cmd("unreadable")
	}
	typ := int(d.Id())
	b := hx.Ints(c.Data)
	// What its accessors say must be the same.
	type frame interface {
		Control() byte
		Payload() []byte
	}
	if f := d.(frame); len(b) == 0 || int(f.Control()) != b[0] || string(f.Payload()) != string(c.Data[1:]) {
		return cmd("inconsistent")
	}
	return hx.M{"name": "media", "c": hx.M{"type": typ, "h": Header(c.Header), "data": b}}
}

/* Outgoing messages. */

// Msg is one in the specification's terms.
type Msg struct {
	C  string `json:"c"`
	Vs []Val  `json:"vs"`
}

// bad is an AMF0 value that cannot be encoded.
type badValue struct{ kind string }

func (b *badValue) Marker() byte                    { return 5 }
func (b *badValue) Decode(io.Reader) error          { return nil }
func (b *badValue) Encode(w io.Writer) (int, error) { return 0, hdx.Fail(b.kind) }

// Spoil makes an object or array impossible to encode.
func Spoil(p *amf0.Paired, kind string) { p.Add("spoilt", &badValue{kind}) }

// Random makes a message of a kind, with text in it somewhere if it has any.
func Random(r *rand.Rand, c, text string) Msg {
	with := func(v Val) Val {
		if text != "" {
			v.F = append(v.F, Fld{hx.Ints([]byte("key")), Str(text)})
		}
		return v
	}
	switch c {
	case "connectResponse":
		return Msg{c, []Val{RandNum(r), with(RandObj(r)), RandObj(r)}}
	case "createStreamResponse":
		return Msg{c, []Val{RandNum(r), RandNum(r)}}
	case "status":
		return Msg{c, []Val{with(RandObj(r))}}
	case "dataFrame":
		return Msg{c, []Val{Str(hx.Pick(r, "@setDataFrame", Text(r))), Str(Text(r)), with(RandArr(r))}}
	}
	panic("harness: " + c)
}

// Large makes a message of a kind whose payload is longer than n.
func Large(r *rand.Rand, c string, n int) Msg {
	m := Random(r, c, "")
	fs := largeFields(r, n)
	for i, v := range m.Vs {
		if v.T == "obj" || v.T == "arr" {
			m.Vs[i].F = fs
			break
		}
	}
	return m
}

// Real is the message as the code knows it.
func (m Msg) Real(r *rand.Rand) any {
	switch m.C {
	case "connectResponse":
		return &conn.ConnectResponse{ResponseType: hx.Pick(r, "", "_result", "_error", "x"), TransactionId: m.Vs[0].Num(),
			Properties: *m.Vs[1].Amf().(*amf0.Object), Information: *m.Vs[2].Amf().(*amf0.Object)}
	case "createStreamResponse":
		return &conn.CreateStreamResponse{ResponseType: hx.Pick(r, "", "_result", "x"), TransactionId: m.Vs[0].Num(),
			StreamID: m.Vs[1].Num()}
	case "status":
		s := stream.NewStatus()
		m.Vs[0].Fill(s.Arguments.Paired)
		return s
	case "dataFrame":
		return &data.DataFrame{Header: m.Vs[0].Str(), Type: m.Vs[1].Str(), Arguments: m.Vs[2].Amf().(*amf0.Array)}
	}
	panic("harness: " + m.C)
}

/* Chunks for the command manager. */

// Ends are the endpoints.
var Ends = []string{"conn", "stream", "data"}

// Incoming makes a chunk for an endpoint, or for none.
func Incoming(r *rand.Rand, to string, bad bool, n int) *chunk.Chunk {
	var csid, msid uint32
	var typ byte
	e := to
	switch to {
	case "conn":
		typ = byte(hx.Pick(r, 20, 20, 20, 8, 9, 18, r.Intn(256)))
		msid = hx.Pick(r, uint32(0), 0, 1, r.Uint32())
		csid = 3
		if r.Intn(3) == 0 {
			csid, msid = 8, 0
		}
	case "stream":
		typ, csid, msid = 20, 4, hx.Pick(r, uint32(0), 1, 1, 2, r.Uint32())
		if r.Intn(3) == 0 {
			csid, msid = 8, 1
		}
	case "data":
		typ, csid, msid = byte(hx.Pick(r, 8, 9, 18)), 4, hx.Pick(r, uint32(0), 1, 1, 2, r.Uint32())
	case "none":
		e = hx.Pick(r, Ends...)
		switch r.Intn(5) {
		case 0: // of no type for chunk stream 4
			csid, msid = 4, uint32(r.Intn(3))
			for typ = 20; typ == 20 || typ == 8 || typ == 9 || typ == 18; typ = byte(r.Intn(256)) {
			}
		case 1: // media on chunk stream 8
			csid, msid, typ = 8, hx.Pick(r, uint32(1), 2, 1<<24), byte(hx.Pick(r, 8, 9, 18, 15, 17))
		case 2: // commands on it, but of another message stream
			csid, msid, typ = 8, hx.Pick(r, uint32(2), 3, 1<<8, 1<<24, 1<<24|1, r.Uint32()|2), 20
		default: // another chunk stream
			csid, msid, typ = hx.Pick(r, uint32(2), 5, 6, 7, 9, 63, 64, 67, 68, 259, 260, 65539), uint32(r.Intn(2)), byte(hx.Pick(r, 20, 8, 9, 18))
		}
	}
	var d []byte
	if e == "data" && (typ == 8 || typ == 9) {
		if !bad {
			d = append([]byte{byte(r.Intn(256)), byte(n)}, Media(r)...)
		}
	} else {
		d, _ = Payload(r, e, bad, n)
	}
	return chunk.New(RandHeader(r, csid, typ, msid, len(d)), d)
}

// Header4 is a header in the specification's terms, with the chunk stream ID as
// four bytes as well.
func Header4(h *chunk.Header) hx.M {
	m := Header(h)
	m["csid4"] = hx.Q4(h.BasicHeader.StreamId)
	return m
}

// Wide adds the same to what was delivered.
func Wide(v any) any {
	if m, ok := v.(hx.M); ok {
		if c, ok := m["c"].(hx.M); ok {
			if h, ok := c["h"].(hx.M); ok {
				h["csid4"] = hx.Q4(uint32(h["csid"].(int)))
			}
		}
	}
	return v
}
