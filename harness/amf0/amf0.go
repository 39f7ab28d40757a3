// Package amf0 is a stand-in for github.com/WatchBeam/amf0, which is not
// available offline. It implements the part of that library's API and wire
// format that todostreaming/rtmp uses, from the AMF0 specification, so that
// the cmd, client and server packages of /repo can be compiled and driven.
// Nothing in /verif claims a property of AMF0 itself.
package amf0

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
)

// AmfType is one AMF0 value.
type AmfType interface {
	Marker() byte
	Encode(w io.Writer) (int, error)
	Decode(r io.Reader) error // body only: the marker has been read
}

type (
	Number     float64
	Bool       bool
	String     string
	LongString string
	Null       struct{}
	Undefined  struct{}
)

var (
	ErrUnknownMarker = errors.New("amf0: unknown marker")
	ErrEnd           = errors.New("amf0: object end")
)

func NewNumber(f float64) *Number        { n := Number(f); return &n }
func NewBool(b bool) *Bool               { n := Bool(b); return &n }
func NewString(s string) *String         { n := String(s); return &n }
func NewLongString(s string) *LongString { n := LongString(s); return &n }
func NewNull() *Null                     { return new(Null) }
func NewUndefined() *Undefined           { return new(Undefined) }

func (*Number) Marker() byte     { return 0x00 }
func (*Bool) Marker() byte       { return 0x01 }
func (*String) Marker() byte     { return 0x02 }
func (*Object) Marker() byte     { return 0x03 }
func (*Null) Marker() byte       { return 0x05 }
func (*Undefined) Marker() byte  { return 0x06 }
func (*Array) Marker() byte      { return 0x08 }
func (*LongString) Marker() byte { return 0x0c }

func put(w io.Writer, b []byte) (int, error) { return w.Write(b) }

func (n *Number) Encode(w io.Writer) (int, error) {
	b := make([]byte, 9)
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(float64(*n)))
	return put(w, b)
}
func (n *Number) Decode(r io.Reader) error {
	var b [8]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*n = Number(math.Float64frombits(binary.BigEndian.Uint64(b[:])))
	return nil
}

func (v *Bool) Encode(w io.Writer) (int, error) {
	b := []byte{1, 0}
	if *v {
		b[1] = 1
	}
	return put(w, b)
}
func (v *Bool) Decode(r io.Reader) error {
	var b [1]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return err
	}
	*v = b[0] != 0
	return nil
}

func (s *String) Encode(w io.Writer) (int, error) {
	if len(*s) > 0xffff {
		return 0, errors.New("amf0: string too long")
	}
	b := append([]byte{2, byte(len(*s) >> 8), byte(len(*s))}, *s...)
	return put(w, b)
}
func readStr(r io.Reader) (string, error) {
	var l [2]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return "", err
	}
	b := make([]byte, binary.BigEndian.Uint16(l[:]))
	if _, err := io.ReadFull(r, b); err != nil {
		return "", err
	}
	return string(b), nil
}
func (s *String) Decode(r io.Reader) error {
	v, err := readStr(r)
	if err == nil {
		*s = String(v)
	}
	return err
}

func (s *LongString) Encode(w io.Writer) (int, error) {
	b := make([]byte, 5, 5+len(*s))
	b[0] = 0x0c
	binary.BigEndian.PutUint32(b[1:], uint32(len(*s)))
	return put(w, append(b, *s...))
}
func (s *LongString) Decode(r io.Reader) error {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return err
	}
	b, err := io.ReadAll(io.LimitReader(r, int64(binary.BigEndian.Uint32(l[:]))))
	if err != nil {
		return err
	}
	if uint32(len(b)) != binary.BigEndian.Uint32(l[:]) {
		return io.ErrUnexpectedEOF
	}
	*s = LongString(b)
	return nil
}

func (*Null) Encode(w io.Writer) (int, error)      { return put(w, []byte{5}) }
func (*Null) Decode(r io.Reader) error             { return nil }
func (*Undefined) Encode(w io.Writer) (int, error) { return put(w, []byte{6}) }
func (*Undefined) Decode(r io.Reader) error        { return nil }

type pair struct {
	Key   string
	Value AmfType
}

// Paired is an ordered list of key/value pairs.
type Paired struct{ pairs []pair }

func NewPaired() *Paired { return new(Paired) }

func (p *Paired) Len() int { return len(p.pairs) }
func (p *Paired) Add(key string, v AmfType) *Paired {
	p.pairs = append(p.pairs, pair{key, v})
	return p
}
func (p *Paired) Get(key string) (AmfType, error) {
	for _, e := range p.pairs {
		if e.Key == key {
			return e.Value, nil
		}
	}
	return nil, fmt.Errorf("amf0: key %q not found", key)
}
func (p *Paired) Keys() []string {
	var ks []string
	for _, e := range p.pairs {
		ks = append(ks, e.Key)
	}
	return ks
}
func (p *Paired) encode(w io.Writer) (int, error) {
	n := 0
	for _, e := range p.pairs {
		k := append([]byte{byte(len(e.Key) >> 8), byte(len(e.Key))}, e.Key...)
		m, err := w.Write(k)
		n += m
		if err != nil {
			return n, err
		}
		m, err = e.Value.Encode(w)
		n += m
		if err != nil {
			return n, err
		}
	}
	m, err := w.Write([]byte{0, 0, 9})
	return n + m, err
}
func (p *Paired) decode(r io.Reader) error {
	for {
		k, err := readStr(r)
		if err != nil {
			return err
		}
		v, err := Decode(r)
		if err == ErrEnd && k == "" {
			return nil
		}
		if err != nil {
			return err
		}
		p.Add(k, v)
	}
}

// Object is an AMF0 anonymous object.
type Object struct{ *Paired }

func NewObject() *Object { return &Object{NewPaired()} }

func (o *Object) Encode(w io.Writer) (int, error) {
	n, err := w.Write([]byte{3})
	if err != nil {
		return n, err
	}
	p := o.Paired
	if p == nil {
		p = NewPaired()
	}
	m, err := p.encode(w)
	return n + m, err
}
func (o *Object) Decode(r io.Reader) error {
	o.Paired = NewPaired()
	return o.Paired.decode(r)
}

// Array is an AMF0 ECMA array.
type Array struct{ *Paired }

func NewArray() *Array { return &Array{NewPaired()} }

func (a *Array) Encode(w io.Writer) (int, error) {
	p := a.Paired
	if p == nil {
		p = NewPaired()
	}
	b := make([]byte, 5)
	b[0] = 8
	binary.BigEndian.PutUint32(b[1:], uint32(p.Len()))
	n, err := w.Write(b)
	if err != nil {
		return n, err
	}
	m, err := p.encode(w)
	return n + m, err
}
func (a *Array) Decode(r io.Reader) error {
	var l [4]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return err
	}
	a.Paired = NewPaired()
	return a.Paired.decode(r)
}

// Decode reads one marker and the value that follows it.
func Decode(r io.Reader) (AmfType, error) {
	var m [1]byte
	if _, err := io.ReadFull(r, m[:]); err != nil {
		return nil, err
	}
	var v AmfType
	switch m[0] {
	case 0x00:
		v = new(Number)
	case 0x01:
		v = new(Bool)
	case 0x02:
		v = new(String)
	case 0x03:
		v = new(Object)
	case 0x05:
		v = new(Null)
	case 0x06:
		v = new(Undefined)
	case 0x08:
		v = new(Array)
	case 0x09:
		return nil, ErrEnd
	case 0x0c:
		v = new(LongString)
	default:
		return nil, ErrUnknownMarker
	}
	if err := v.Decode(r); err != nil {
		return nil, err
	}
	return v, nil
}

// Encode writes v.
func Encode(v AmfType, w io.Writer) (int, error) { return v.Encode(w) }
