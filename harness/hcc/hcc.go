// Package hcc has control messages in the specification's terms.
package hcc

import (
	"math/rand"

	"github.com/WatchBeam/rtmp/control"
	"verif/harness/hx"
)

// Msg is a control message in the specification's terms.
type Msg struct {
	T    int   `json:"t"`
	V    []int `json:"v"`
	X    int   `json:"x"`
	E    []int `json:"e"`
	Body []int `json:"body"`
}

func U32(q []int) uint32 {
	return uint32(q[0])<<24 | uint32(q[1])<<16 | uint32(q[2])<<8 | uint32(q[3])
}

func Bytes(q []int) []byte {
	b := make([]byte, len(q))
	for i, x := range q {
		b[i] = byte(x)
	}
	return b
}

// Real is the message the code knows.
func (c Msg) Real() control.Control {
	switch c.T {
	case 1:
		return control.NewSetChunkSize(U32(c.V))
	case 2:
		return &control.AbortMessage{ChunkStreamId: U32(c.V)}
	case 3:
		return &control.Acknowledgement{SequenceNumber: U32(c.V)}
	case 4:
		return &control.Event{Type: control.EventType(c.E[0]<<8 | c.E[1]), Body: Bytes(c.Body)}
	case 5:
		return &control.WindowAckSize{WindowAckSize: U32(c.V)}
	}
	return &control.SetPeerBandwidth{AckWindowSize: U32(c.V), LimitType: control.LimitType(c.X)}
}

// Of is what the specification is told of a message. One of a Go type that
// does not go with its type ID has no counterpart.
func Of(c control.Control) Msg {
	m := Msg{V: hx.Q4(0), E: []int{0, 0}, Body: []int{}}
	switch c := c.(type) {
	case *control.SetChunkSize:
		m.T, m.V = 1, hx.Q4(c.ChunkSize())
	case *control.AbortMessage:
		m.T, m.V = 2, hx.Q4(c.ChunkStreamId)
	case *control.Acknowledgement:
		m.T, m.V = 3, hx.Q4(c.SequenceNumber)
	case *control.Event:
		m.T, m.E, m.Body = 4, []int{int(c.Type >> 8), int(c.Type & 255)}, hx.Ints(c.Body)
	case *control.WindowAckSize:
		m.T, m.V = 5, hx.Q4(c.WindowAckSize)
	case *control.SetPeerBandwidth:
		m.T, m.V, m.X = 6, hx.Q4(c.AckWindowSize), int(c.LimitType)
	}
	if c != nil && int(c.TypeId()) != m.T {
		m.T = -1
	}
	return m
}

func Random(r *rand.Rand) Msg {
	m := Msg{T: 1 + r.Intn(6), V: hx.Q4(0), E: []int{0, 0}, Body: []int{}}
	if m.T == 4 {
		m.E = []int{hx.Pick(r, 0, 0, r.Intn(256)), hx.Pick(r, 0, 3, 4, r.Intn(256))}
		b := make([]byte, hx.Pick(r, 0, 1, 4, 8, r.Intn(40), r.Intn(600)))
		r.Read(b)
		m.Body = hx.Ints(b)
		return m
	}
	m.V = hx.Q4(hx.Pick(r, r.Uint32(), 0, 1, 128, 4096, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 1<<r.Intn(32)))
	if m.T == 6 {
		m.X = hx.Pick(r, 0, 1, 2, r.Intn(256))
	}
	return m
}
