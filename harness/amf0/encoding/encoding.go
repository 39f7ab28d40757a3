// Package encoding marshals structs to and from sequences of AMF0 values, one
// per field, like github.com/WatchBeam/amf0/encoding.
package encoding

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/amf0"
)

// Marshal encodes the fields of the struct v points to.
func Marshal(v interface{}) ([]byte, error) {
	s := reflect.Indirect(reflect.ValueOf(v))
	buf := new(bytes.Buffer)
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		var a amf0.AmfType
		switch f.Kind() {
		case reflect.String:
			a = amf0.NewString(f.String())
		case reflect.Float64:
			a = amf0.NewNumber(f.Float())
		case reflect.Bool:
			a = amf0.NewBool(f.Bool())
		case reflect.Ptr:
			if f.IsNil() {
				a = amf0.NewNull()
			} else {
				a = f.Interface().(amf0.AmfType)
			}
		case reflect.Struct:
			p := reflect.New(f.Type())
			p.Elem().Set(f)
			t, ok := p.Interface().(amf0.AmfType)
			if !ok {
				return nil, fmt.Errorf("amf0: cannot marshal %v", f.Type())
			}
			a = t
		default:
			return nil, fmt.Errorf("amf0: cannot marshal %v", f.Type())
		}
		if _, err := a.Encode(buf); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

// Unmarshal decodes one value per field of the struct dest points to. A null
// leaves its field as it is.
func Unmarshal(r io.Reader, dest interface{}) error {
	s := reflect.ValueOf(dest).Elem()
	for i := 0; i < s.NumField(); i++ {
		f := s.Field(i)
		v, err := amf0.Decode(r)
		if err != nil {
			return err
		}
		if !f.CanSet() {
			continue
		}
		if err := assign(f, v); err != nil {
			return err
		}
	}
	return nil
}

func assign(f reflect.Value, v amf0.AmfType) error {
	switch t := v.(type) {
	case *amf0.Null, *amf0.Undefined:
		return nil
	case *amf0.Number:
		if f.Kind() == reflect.Float64 {
			f.SetFloat(float64(*t))
			return nil
		}
	case *amf0.Bool:
		if f.Kind() == reflect.Bool {
			f.SetBool(bool(*t))
			return nil
		}
	case *amf0.String:
		if f.Kind() == reflect.String {
			f.SetString(string(*t))
			return nil
		}
	case *amf0.LongString:
		if f.Kind() == reflect.String {
			f.SetString(string(*t))
			return nil
		}
	}
	rv := reflect.ValueOf(v)
	if rv.Type().AssignableTo(f.Type()) {
		f.Set(rv)
		return nil
	}
	if rv.Elem().Type().AssignableTo(f.Type()) {
		f.Set(rv.Elem())
		return nil
	}
	return fmt.Errorf("amf0: cannot assign %T to %v", v, f.Type())
}
