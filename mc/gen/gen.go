// Package gen drives generated message types through their public methods by
// reflection.
package gen

import (
	"fmt"
	"math"
	"reflect"

	"verifmc/fuel"
	"verifmc/ref"
)

// Field describes a generated field.
type Field struct {
	Num  int
	Kind ref.Kind
	Name string // Go name
}

// Type is a generated message type.
type Type struct {
	Name   string
	New    func() interface{}
	Fields []Field
}

// Inst is a live generated message.
type Inst struct {
	T *Type
	P reflect.Value
	// cached methods
	m map[string]reflect.Value
}

// Make creates a fresh instance.
func (t *Type) Make() *Inst { return t.Wrap(reflect.ValueOf(t.New())) }

// Wrap wraps an existing *T.
func (t *Type) Wrap(p reflect.Value) *Inst {
	return &Inst{T: t, P: p, m: map[string]reflect.Value{}}
}

// BadAPI is panicked when an expected method is missing or mistyped.
type BadAPI string

func (i *Inst) meth(name string) reflect.Value {
	if v, ok := i.m[name]; ok {
		return v
	}
	v := i.P.MethodByName(name)
	if !v.IsValid() {
		panic(BadAPI(fmt.Sprintf("generated type %s has no method %s", i.T.Name, name)))
	}
	i.m[name] = v
	return v
}

func refuel() {
	if fuel.On {
		fuel.Set(1 << 26)
	}
}

// Encode returns the encoded bytes.
func (i *Inst) Encode() []byte {
	refuel()
	return i.meth("Encode").Call(nil)[0].Bytes()
}

// Decode decodes.
func (i *Inst) Decode(b []byte) error {
	refuel()
	r := i.meth("Decode").Call([]reflect.Value{reflect.ValueOf(b)})[0]
	if r.IsNil() {
		return nil
	}
	return r.Interface().(error)
}

// Reset resets.
func (i *Inst) Reset(b []byte) {
	refuel()
	i.meth("Reset").Call([]reflect.Value{reflect.ValueOf(b)})
}

var goTypes = map[ref.Kind]reflect.Type{
	ref.Bool: reflect.TypeOf(false), ref.Int32: reflect.TypeOf(int32(0)), ref.Int64: reflect.TypeOf(int64(0)),
	ref.Uint32: reflect.TypeOf(uint32(0)), ref.Uint64: reflect.TypeOf(uint64(0)), ref.Sint32: reflect.TypeOf(int32(0)),
	ref.Sint64: reflect.TypeOf(int64(0)), ref.Fixed32: reflect.TypeOf(uint32(0)), ref.Fixed64: reflect.TypeOf(uint64(0)),
	ref.Sfixed32: reflect.TypeOf(int32(0)), ref.Sfixed64: reflect.TypeOf(int64(0)), ref.Double: reflect.TypeOf(float64(0)),
	ref.Float: reflect.TypeOf(float32(0)), ref.String: reflect.TypeOf(""), ref.Bytes: reflect.TypeOf([]byte(nil)),
	ref.Enum: reflect.TypeOf(uint32(0)),
}

// ToGo converts a scalar to its Go value.
func ToGo(k ref.Kind, v ref.V) reflect.Value {
	switch k {
	case ref.Bool:
		return reflect.ValueOf(v.U != 0)
	case ref.Int32, ref.Sint32, ref.Sfixed32:
		return reflect.ValueOf(int32(v.U))
	case ref.Int64, ref.Sint64, ref.Sfixed64:
		return reflect.ValueOf(int64(v.U))
	case ref.Uint32, ref.Enum, ref.Fixed32:
		return reflect.ValueOf(uint32(v.U))
	case ref.Uint64, ref.Fixed64:
		return reflect.ValueOf(v.U)
	case ref.Double:
		return reflect.ValueOf(math.Float64frombits(v.U))
	case ref.Float:
		return reflect.ValueOf(math.Float32frombits(uint32(v.U)))
	case ref.String:
		return reflect.ValueOf(v.S)
	case ref.Bytes:
		return reflect.ValueOf([]byte(v.S))
	}
	panic("toGo")
}

// FromGo converts a Go value to a scalar.
func FromGo(k ref.Kind, r reflect.Value) ref.V {
	switch k {
	case ref.Bool:
		if r.Bool() {
			return ref.V{U: 1}
		}
		return ref.V{}
	case ref.Int32, ref.Sint32, ref.Sfixed32, ref.Int64, ref.Sint64, ref.Sfixed64:
		return ref.V{U: uint64(r.Int())}
	case ref.Uint32, ref.Enum, ref.Fixed32, ref.Uint64, ref.Fixed64:
		return ref.V{U: r.Uint()}
	case ref.Double:
		return ref.V{U: math.Float64bits(r.Float())}
	case ref.Float:
		return ref.V{U: uint64(math.Float32bits(float32(r.Float())))}
	case ref.String:
		return ref.V{S: string(append([]byte(nil), r.String()...))}
	case ref.Bytes:
		return ref.V{S: string(r.Bytes())}
	}
	panic("fromGo")
}

// CheckAPI verifies the method set and Go types of a field's accessors.
func (i *Inst) CheckAPI(f Field) {
	bad := func(format string, a ...interface{}) { panic(BadAPI(fmt.Sprintf(format, a...))) }
	switch f.Kind {
	case ref.Msg:
		g := i.meth(f.Name).Type()
		if g.NumIn() != 1 || g.NumOut() != 2 || g.In(0).Kind() != reflect.Ptr || g.Out(0).Kind() != reflect.Bool {
			bad("%s.%s has type %v", i.T.Name, f.Name, g)
		}
		s := i.meth("Set" + f.Name).Type()
		if s.NumIn() != 1 || s.In(0) != g.In(0).Elem() {
			bad("%s.Set%s has type %v", i.T.Name, f.Name, s)
		}
	case ref.RepMsg:
		g := i.meth(f.Name).Type()
		if g.NumIn() != 0 || g.NumOut() != 1 {
			bad("%s.%s has type %v", i.T.Name, f.Name, g)
		}
		if s := i.meth("AppendTo" + f.Name).Type(); s.NumIn() != 1 {
			bad("%s.AppendTo%s has type %v", i.T.Name, f.Name, s)
		}
	default:
		g := i.meth(f.Name).Type()
		if g.NumIn() != 0 || g.NumOut() != 1 || g.Out(0) != goTypes[f.Kind] {
			bad("%s.%s has type %v, want func() %v", i.T.Name, f.Name, g, goTypes[f.Kind])
		}
		s := i.meth("Set" + f.Name).Type()
		if s.NumIn() != 1 || s.NumOut() != 0 || s.In(0) != goTypes[f.Kind] {
			bad("%s.Set%s has type %v, want func(%v)", i.T.Name, f.Name, s, goTypes[f.Kind])
		}
	}
}

func sub(t reflect.Type, b string) reflect.Value {
	p := reflect.New(t)
	p.MethodByName("Decode").Call([]reflect.Value{reflect.ValueOf([]byte(b))})
	return p
}

// Set writes a singular field.
func (i *Inst) Set(f Field, v ref.V) {
	refuel()
	s := i.meth("Set" + f.Name)
	if f.Kind == ref.Msg {
		s.Call([]reflect.Value{sub(s.Type().In(0), v.S).Elem()})
		return
	}
	s.Call([]reflect.Value{ToGo(f.Kind, v)})
}

// Append adds a repeated element.
func (i *Inst) Append(f Field, x string) {
	refuel()
	s := i.meth("AppendTo" + f.Name)
	s.Call([]reflect.Value{sub(s.Type().In(0), x).Elem()})
}

// Get reads a singular field. err is a nested message's decode error.
func (i *Inst) Get(f Field) (ref.V, error) {
	refuel()
	g := i.meth(f.Name)
	if f.Kind == ref.Msg {
		p := reflect.New(g.Type().In(0).Elem())
		r := g.Call([]reflect.Value{p})
		var err error
		if !r[1].IsNil() {
			err = r[1].Interface().(error)
		}
		v := ref.V{Has: r[0].Bool()}
		v.S = string(p.MethodByName("Encode").Call(nil)[0].Bytes())
		return v, err
	}
	return FromGo(f.Kind, g.Call(nil)[0]), nil
}

// List iterates a repeated field.
func (i *Inst) List(f Field, max int) ([]string, error) {
	refuel()
	g := i.meth(f.Name)
	it := reflect.New(g.Type().Out(0))
	it.Elem().Set(g.Call(nil)[0])
	next := it.MethodByName("Next")
	if !next.IsValid() || next.Type().NumIn() != 1 || next.Type().NumOut() != 2 {
		panic(BadAPI(fmt.Sprintf("%s.%s does not return an iterator", i.T.Name, f.Name)))
	}
	var out []string
	for {
		p := reflect.New(next.Type().In(0).Elem())
		r := next.Call([]reflect.Value{p})
		if !r[0].Bool() {
			// The end must be final.
			if r := next.Call([]reflect.Value{p}); r[0].Bool() {
				return out, fmt.Errorf("iterator resumes after reporting the end")
			}
			return out, nil
		}
		if !r[1].IsNil() {
			return out, r[1].Interface().(error)
		}
		out = append(out, string(p.MethodByName("Encode").Call(nil)[0].Bytes()))
		if len(out) > max {
			return out, fmt.Errorf("more than %d elements", max)
		}
	}
}

// ListAll iterates a repeated field past element errors and returns what each
// call reported; n is the number of elements (at most max are read).
func (i *Inst) ListAll(f Field, max int) (oks []bool, n int) {
	refuel()
	it := reflect.New(i.meth(f.Name).Type().Out(0))
	it.Elem().Set(i.meth(f.Name).Call(nil)[0])
	next := it.MethodByName("Next")
	for n < max {
		p := reflect.New(next.Type().In(0).Elem())
		r := next.Call([]reflect.Value{p})
		if !r[0].Bool() {
			return oks, n
		}
		n++
		oks = append(oks, r[1].IsNil())
	}
	return oks, n
}

// GoType is the Go type zeropb uses for a scalar kind.
func GoType(k ref.Kind) reflect.Type { return goTypes[k] }

// SubType is the Go type of a nested message field or a repeated field's
// elements.
func (i *Inst) SubType(name string) reflect.Type {
	g := i.meth(name).Type()
	if g.NumIn() == 1 {
		return g.In(0).Elem()
	}
	next, ok := reflect.PtrTo(g.Out(0)).MethodByName("Next")
	if !ok {
		panic(BadAPI(fmt.Sprintf("%s.%s does not return an iterator", i.T.Name, name)))
	}
	return next.Type.In(1).Elem()
}
