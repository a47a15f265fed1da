// Package schema enumerates a bounded grammar of protobuf schemas.
package schema

import (
	"fmt"
	"strings"

	"github.com/danhhz/zeropb/generate"

	"verifmc/ref"
)

// Field is a field definition.
type Field struct {
	Name     string
	Num      int
	Kind     ref.Kind // Msg and RepMsg imply the label
	Rep      bool     // a repeated scalar: gets no accessors yet
	Required bool
	Target   string // message fields: the message's name
	Attr     int    // see attrs
}

// Message is a message definition.
type Message struct {
	Name   string
	Fields []Field
}

// File is a schema.
type File struct {
	ID      string // unique, a valid directory name
	Name    string // .proto path
	Package string
	Msgs    []Message
	Attr    int // file-level attributes
	Collide bool
	// Light limits how deeply each message is explored.
	Light bool
}

var protoTypes = map[ref.Kind]generate.FieldDescriptorProto_Type{
	ref.Bool: generate.FieldDescriptorProto_TYPE_BOOL, ref.Int32: generate.FieldDescriptorProto_TYPE_INT32,
	ref.Int64: generate.FieldDescriptorProto_TYPE_INT64, ref.Uint32: generate.FieldDescriptorProto_TYPE_UINT32,
	ref.Uint64: generate.FieldDescriptorProto_TYPE_UINT64, ref.Sint32: generate.FieldDescriptorProto_TYPE_SINT32,
	ref.Sint64: generate.FieldDescriptorProto_TYPE_SINT64, ref.Fixed32: generate.FieldDescriptorProto_TYPE_FIXED32,
	ref.Fixed64: generate.FieldDescriptorProto_TYPE_FIXED64, ref.Sfixed32: generate.FieldDescriptorProto_TYPE_SFIXED32,
	ref.Sfixed64: generate.FieldDescriptorProto_TYPE_SFIXED64, ref.Double: generate.FieldDescriptorProto_TYPE_DOUBLE,
	ref.Float: generate.FieldDescriptorProto_TYPE_FLOAT, ref.String: generate.FieldDescriptorProto_TYPE_STRING,
	ref.Bytes: generate.FieldDescriptorProto_TYPE_BYTES, ref.Enum: generate.FieldDescriptorProto_TYPE_ENUM,
	ref.Msg: generate.FieldDescriptorProto_TYPE_MESSAGE, ref.RepMsg: generate.FieldDescriptorProto_TYPE_MESSAGE,
}

func sp(s string) *string { return &s }
func ip(i int32) *int32   { return &i }
func bp(b bool) *bool     { return &b }

// Attrs are field attributes that must not influence the generated API.
var Attrs = []string{"plain", "json_name", "default", "oneof", "packed=true", "packed=false", "deprecated", "lazy", "ctype and jstype", "uninterpreted"}

// FileAttrs are file attributes that must not matter.
var FileAttrs = []string{"plain", "proto3", "proto2", "imports", "options", "enum", "service", "source info", "message options", "reserved"}

// Proto builds the descriptor the way protoc does.
func (f *File) Proto() *generate.FileDescriptorProto {
	fd := &generate.FileDescriptorProto{Name: sp(f.Name)}
	if f.Package != "" {
		fd.Package = sp(f.Package)
	}
	prefix := "."
	if f.Package != "" {
		prefix = "." + f.Package + "."
	}
	usesEnum := false
	for _, m := range f.Msgs {
		d := &generate.DescriptorProto{Name: sp(m.Name)}
		for _, x := range m.Fields {
			label := generate.FieldDescriptorProto_LABEL_OPTIONAL
			if x.Required {
				label = generate.FieldDescriptorProto_LABEL_REQUIRED
			}
			if x.Rep || x.Kind == ref.RepMsg {
				label = generate.FieldDescriptorProto_LABEL_REPEATED
			}
			typ := protoTypes[x.Kind]
			fp := &generate.FieldDescriptorProto{Name: sp(x.Name), Number: ip(int32(x.Num)), Label: &label, Type: &typ}
			switch x.Kind {
			case ref.Msg, ref.RepMsg:
				fp.TypeName = sp(prefix + x.Target)
			case ref.Enum:
				usesEnum = true
				fp.TypeName = sp(prefix + "SomeEnum")
			}
			switch Attrs[x.Attr] {
			case "json_name":
				fp.JsonName = sp("otherName")
			case "default":
				fp.DefaultValue = sp("1")
			case "oneof":
				fp.OneofIndex = ip(0)
				if len(d.OneofDecl) == 0 {
					d.OneofDecl = []*generate.OneofDescriptorProto{{Name: sp("choice")}}
				}
			case "packed=true":
				fp.Options = &generate.FieldOptions{Packed: bp(true)}
			case "packed=false":
				fp.Options = &generate.FieldOptions{Packed: bp(false)}
			case "deprecated":
				fp.Options = &generate.FieldOptions{Deprecated: bp(true)}
			case "lazy":
				fp.Options = &generate.FieldOptions{Lazy: bp(true)}
			case "ctype and jstype":
				fp.Options = &generate.FieldOptions{Ctype: generate.FieldOptions_STRING_PIECE.Enum(), Jstype: generate.FieldOptions_JS_STRING.Enum(), Weak: bp(true)}
			case "uninterpreted":
				fp.Options = &generate.FieldOptions{UninterpretedOption: []*generate.UninterpretedOption{{IdentifierValue: sp("x")}}}
			}
			d.Field = append(d.Field, fp)
		}
		switch FileAttrs[f.Attr] {
		case "message options":
			d.Options = &generate.MessageOptions{Deprecated: bp(true), NoStandardDescriptorAccessor: bp(true)}
		case "reserved":
			d.ReservedRange = []*generate.DescriptorProto_ReservedRange{{Start: ip(5000), End: ip(6000)}}
			d.ReservedName = []string{"gone"}
		}
		fd.MessageType = append(fd.MessageType, d)
	}
	if usesEnum || FileAttrs[f.Attr] == "enum" {
		fd.EnumType = []*generate.EnumDescriptorProto{{Name: sp("SomeEnum"), Value: []*generate.EnumValueDescriptorProto{
			{Name: sp("ZERO"), Number: ip(0)}, {Name: sp("ONE"), Number: ip(1)}}}}
	}
	switch FileAttrs[f.Attr] {
	case "proto3":
		fd.Syntax = sp("proto3")
	case "proto2":
		fd.Syntax = sp("proto2")
	case "imports":
		fd.Dependency = []string{"google/protobuf/any.proto", "other.proto"}
		fd.PublicDependency = []int32{1}
	case "options":
		fd.Options = &generate.FileOptions{JavaPackage: sp("com.example"), OptimizeFor: generate.FileOptions_CODE_SIZE.Enum()}
	case "service":
		fd.Service = []*generate.ServiceDescriptorProto{{Name: sp("Svc")}}
	case "source info":
		fd.SourceCodeInfo = &generate.SourceCodeInfo{Location: []*generate.SourceCodeInfo_Location{{
			Path: []int32{4, 0}, Span: []int32{1, 2, 3}, LeadingComments: sp(" a comment\n*/ }\n")}}}
	}
	return fd
}

// Canon is the Go name of a field: words capitalised and joined, with an X
// where that is not a Go identifier.
func Canon(name string) string {
	out := ""
	for _, w := range strings.Split(name, "_") {
		if w != "" {
			out += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	if out == "" || out[0] >= '0' && out[0] <= '9' {
		out = "X" + out
	}
	return out
}

// String renders the schema in .proto syntax.
func (f *File) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s: package %q; ", f.Name, f.Package)
	if f.Attr != 0 {
		fmt.Fprintf(&b, "(%s) ", FileAttrs[f.Attr])
	}
	for _, m := range f.Msgs {
		fmt.Fprintf(&b, "message %s {%s } ", m.Name, FieldsString(m.Fields))
	}
	return b.String()
}

// FieldsString renders fields.
func FieldsString(fs []Field) string {
	var b strings.Builder
	for _, x := range fs {
		lab := ""
		if x.Rep || x.Kind == ref.RepMsg {
			lab = "repeated "
		} else if x.Required {
			lab = "required "
		}
		t := x.Kind.String()
		if x.Kind == ref.Msg || x.Kind == ref.RepMsg {
			t = x.Target
		}
		fmt.Fprintf(&b, " %s%s %s = %d", lab, t, x.Name, x.Num)
		if x.Attr != 0 {
			fmt.Fprintf(&b, " [%s]", Attrs[x.Attr])
		}
		b.WriteByte(';')
	}
	return b.String()
}

var allKinds = append(append([]ref.Kind{}, ref.Scalars...), ref.Msg, ref.RepMsg)

// slot is a field type: a kind, or a repeated scalar.
type slot struct {
	k   ref.Kind
	rep bool
}

func (s slot) field(name string, num int, target string) Field {
	return Field{Name: name, Num: num, Kind: s.k, Rep: s.rep, Target: target}
}

func allSlots() []slot {
	var l []slot
	for _, k := range allKinds {
		l = append(l, slot{k, false})
	}
	for _, k := range ref.Scalars {
		l = append(l, slot{k, true})
	}
	return l
}

// batch groups messages into files of at most n.
type batch struct {
	prefix string
	n      int
	files  []*File
	leaf   bool
}

func (b *batch) add(fields func(self string) []Field) {
	if len(b.files) == 0 || len(b.files[len(b.files)-1].Msgs) >= b.n {
		id := fmt.Sprintf("%s%d", b.prefix, len(b.files))
		f := &File{ID: id, Name: id + ".proto", Package: id, Light: true}
		if b.leaf {
			f.Msgs = append(f.Msgs, leaf)
		}
		b.files = append(b.files, f)
	}
	f := b.files[len(b.files)-1]
	name := fmt.Sprintf("M%d", len(f.Msgs))
	f.Msgs = append(f.Msgs, Message{Name: name, Fields: fields(name)})
}

var leaf = Message{Name: "Leaf", Fields: []Field{{Name: "a", Num: 1, Kind: ref.Int32}, {Name: "b", Num: 2, Kind: ref.Bytes}}}

// Names are field-name shapes.
var Names = []string{"a", "x", "m", "A", "foo", "Foo", "foo_bar", "fooBar", "FooBar", "FOO", "FOO_BAR", "foo_", "_foo", "foo__bar", "__foo__bar__",
	"foo1", "foo_1", "f1_2x", "foo_bar_baz_qux", "type", "func", "range", "map", "string", "error", "nil", "len", "buf", "offsets", "zeropb", "init", "main",
	"set", "append_to", "next", "iterator", "clear", "get_foo", "has_foo", "string_", "go_string", "proto_message", "marshal",
	"encode", "decode", "reset", "Encode", "set_", "_1", "_", "_2x", "a_b_c_d_e_f_g_h_i_j_k_l_m_n_o_p_q_r_s_t_u_v_w_x_y_z"}

// Packages are package-name shapes.
var Packages = []string{"foo", "Foo", "foo_bar", "foo1", "zeropb", "x", "m", "buf", "string", "foo.bar", "foo.bar.baz", "a.type", "type", "func", "range", "go", "", "_foo", "_"}

// Families enumerates the executed schemas.
func Families(thorough bool) []*File {
	var out []*File
	add := func(f *File) { out = append(out, f) }
	one := func(id string, msgs ...Message) *File {
		f := &File{ID: id, Name: id + ".proto", Package: id, Msgs: msgs}
		add(f)
		return f
	}

	// single: every type x label, each as the only field of the only message
	// of its file.
	for i, s := range allSlots() {
		target := "M"
		f := one(fmt.Sprintf("single%d", i), Message{"M", []Field{s.field("field", 1, target)}})
		if !s.rep && s.k != ref.RepMsg {
			g := *f
			g.ID = fmt.Sprintf("required%d", i)
			g.Name, g.Package = g.ID+".proto", g.ID
			x := f.Msgs[0].Fields[0]
			x.Required = true
			g.Msgs = []Message{{"M", []Field{x}}}
			add(&g)
		}
	}

	// numbers: every kind x field numbers around every tag-length and storage
	// boundary that a generated array can have.
	nums := []int{1, 2, 14, 15, 16, 17, 18, 31, 32, 127, 128, 255, 256, 2046, 2047, 2048, 2049, 18999, 20000}
	if thorough {
		nums = append(nums, 3, 7, 8, 63, 64, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537)
	}
	b := &batch{prefix: "numbers", n: 120, leaf: true}
	for _, n := range nums {
		for _, k := range allKinds {
			n, k := n, k
			b.add(func(self string) []Field { return []Field{{Name: "field", Num: n, Kind: k, Target: "Leaf"}} })
		}
	}
	out = append(out, b.files...)

	// everynumber: every field number up to a bound.
	b = &batch{prefix: "everynumber", n: 300}
	max := 600
	if thorough {
		max = 2200
	}
	for n := 1; n <= max; n++ {
		n := n
		k := allKinds[n%len(ref.Scalars)]
		b.add(func(self string) []Field { return []Field{{Name: "f", Num: n, Kind: k}} })
	}
	out = append(out, b.files...)

	// pairs: every ordered pair of types x numbering.
	b = &batch{prefix: "pairs", n: 120, leaf: true}
	slots := append(append([]slot{}, allSlots()[:len(allKinds)]...), slot{ref.Int32, true}, slot{ref.String, true})
	numbering := [][2]int{{1, 2}, {2, 1}, {1, 16}, {16, 1}}
	if thorough {
		numbering = append(numbering, [][2]int{{15, 16}, {16, 17}, {17, 16}, {3, 2048}, {2048, 3}, {2047, 2048}, {1, 31}, {33, 1}}...)
	}
	for _, s1 := range slots {
		for _, s2 := range slots {
			for _, nn := range numbering {
				s1, s2, nn := s1, s2, nn
				b.add(func(self string) []Field {
					return []Field{s1.field("first", nn[0], "Leaf"), s2.field("second", nn[1], self)}
				})
			}
		}
	}
	out = append(out, b.files...)

	// triples over type classes x all numberings.
	b = &batch{prefix: "triples", n: 120, leaf: true}
	cls := []slot{{ref.Int32, false}, {ref.String, false}, {ref.Fixed64, false}, {ref.Msg, false}, {ref.RepMsg, false}, {ref.Uint64, true}}
	perms := [][3]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}
	if thorough {
		cls = append(cls, slot{ref.Bool, false}, slot{ref.Float, false}, slot{ref.Bytes, false}, slot{ref.Sint64, false}, slot{ref.Enum, false})
	}
	for _, s1 := range cls {
		for _, s2 := range cls {
			for _, s3 := range cls {
				for _, p := range perms {
					s1, s2, s3, p := s1, s2, s3, p
					b.add(func(self string) []Field {
						return []Field{s1.field("one", p[0], "Leaf"), s2.field("two", p[1], "Leaf"), s3.field("three", p[2]+15, self)}
					})
				}
			}
		}
	}
	out = append(out, b.files...)

	// wide: many fields in one message, in increasing and decreasing number
	// order.
	for w := 0; w < 2; w++ {
		var fs []Field
		n := 3 * len(allKinds)
		for i := 0; i < n; i++ {
			num := i + 1
			if w == 1 {
				num = n - i
			}
			fs = append(fs, Field{Name: fmt.Sprintf("f_%d", num), Num: num, Kind: allKinds[i%len(allKinds)], Target: "Leaf"})
		}
		one(fmt.Sprintf("wide%d", w), leaf, Message{"Wide", fs})
	}

	// names: every shape of field name x {scalar, message, repeated message}.
	for i, n := range Names {
		f := one(fmt.Sprintf("names%d", i), Message{"M", []Field{{Name: n, Num: 1, Kind: ref.Uint32}}},
			Message{"N", []Field{{Name: n, Num: 2, Kind: ref.Msg, Target: "M"}}},
			Message{"R", []Field{{Name: n, Num: 3, Kind: ref.RepMsg, Target: "M"}}},
			Message{"S", []Field{{Name: n, Num: 4, Kind: ref.String, Rep: true}, {Name: "other", Num: 5, Kind: ref.Bytes}}})
		c := Canon(n)
		if c == "Encode" || c == "Decode" || c == "Reset" {
			f.Collide = true
		}
	}
	// clashes: distinct field names whose accessors would have the same name.
	clashes := [][]string{{"foo", "Foo"}, {"foo", "foo_"}, {"foo_bar", "fooBar"}, {"foo_bar", "fooBar", "FooBar"}, {"foo", "set_foo"}, {"set_foo", "foo"},
		{"foo", "set_foo", "set_set_foo"}, {"set_set_foo", "set_foo", "foo"}, {"foo", "append_to_foo"}, {"append_to_foo", "foo"}, {"append_to_foo", "set_foo", "foo"},
		{"encode", "Encode"}, {"decode", "reset", "encode"}, {"foo", "Foo", "foo_", "set_foo"}, {"_1", "x1", "X1"}, {"set_encode", "encode"}}
	ck := [][]ref.Kind{{ref.Int32, ref.Int32, ref.Int32, ref.Int32}, {ref.Msg, ref.Msg, ref.Msg, ref.Msg}, {ref.RepMsg, ref.RepMsg, ref.RepMsg, ref.RepMsg},
		{ref.RepMsg, ref.String, ref.Msg, ref.Bool}, {ref.Bool, ref.RepMsg, ref.Bytes, ref.RepMsg}, {ref.Msg, ref.Uint64, ref.RepMsg, ref.Float}}
	for i, cl := range clashes {
		var ms []Message
		ms = append(ms, leaf)
		for j, ks := range ck {
			var fs []Field
			for n, name := range cl {
				fs = append(fs, Field{Name: name, Num: n + 1, Kind: ks[n], Target: "Leaf"})
			}
			ms = append(ms, Message{fmt.Sprintf("M%d", j), fs})
		}
		one(fmt.Sprintf("clashes%d", i), ms...).Collide = true
	}

	// targets: two messages, each with two message fields: every combination
	// of targets and labels.
	type ref2 struct {
		k ref.Kind
		t string
	}
	opts := []ref2{{ref.Msg, "A"}, {ref.Msg, "B"}, {ref.RepMsg, "A"}, {ref.RepMsg, "B"}}
	var bodies [][]Field
	for _, o1 := range opts {
		for _, o2 := range opts {
			bodies = append(bodies, []Field{{Name: "one", Num: 1, Kind: o1.k, Target: o1.t}, {Name: "two", Num: 2, Kind: o2.k, Target: o2.t}})
		}
	}
	for i, b1 := range bodies {
		for j, b2 := range bodies {
			f := one(fmt.Sprintf("targets%d_%d", i, j), Message{"A", b1}, Message{"B", b2})
			f.Light = true
		}
	}
	// iterators: message names whose derived identifiers would coincide.
	rep := func(t ...string) []Field {
		var fs []Field
		for i, x := range t {
			fs = append(fs, Field{Name: fmt.Sprintf("f%d", i+1), Num: i + 1, Kind: ref.RepMsg, Target: x})
		}
		return fs
	}
	for i, ms := range [][]Message{
		{{"A", rep("BC")}, {"AB", rep("C")}, {"BC", nil}, {"C", nil}},
		{{"A", rep("B")}, {"B", nil}, {"ABIterator", rep("B")}},
		{{"ABIterator", rep("B")}, {"A", rep("B", "B")}, {"B", nil}},
		{{"A", rep("A", "A", "A")}},
		{{"A", rep("B", "B", "C", "C")}, {"B", nil}, {"C", rep("A", "A")}},
		{{"A", rep("B", "B")}, {"B", nil}, {"AF2Iterator", rep("A")}},
		{{"A", rep("F2", "B", "B")}, {"F2", nil}, {"B", nil}},
		{{"Iterator", rep("Iterator")}},
		{{"A", rep("Iterator")}, {"Iterator", nil}},
		{{"AIterator", rep("A")}, {"A", rep("AIterator")}},
		{{"A_B", rep("A_B")}, {"A", rep("A_B", "A_B")}},
		{{"X", rep("M", "M")}, {"M", rep("X", "M")}},
	} {
		one(fmt.Sprintf("iterators%d", i), ms...).Collide = true
	}

	// packages.
	for i, p := range Packages {
		f := one(fmt.Sprintf("packages%d", i), leaf, Message{"M", []Field{{Name: "leaf", Num: 1, Kind: ref.Msg, Target: "Leaf"}, {Name: "leaves", Num: 2, Kind: ref.RepMsg, Target: "Leaf"}, {Name: "s", Num: 3, Kind: ref.String}}})
		f.Package = p
	}
	for i, p := range []string{"dir/some-file.proto", "1file.proto", "type.proto", "a.b/c.d.proto", "no_suffix", ".proto"} {
		f := one(fmt.Sprintf("nopackage%d", i), leaf)
		f.Package, f.Name = "", p
	}

	// counts: 0..4 messages without fields, with one, with only skipped ones.
	for n := 0; n <= 4; n++ {
		for v := 0; v < 3; v++ {
			var ms []Message
			for k := 0; k < n; k++ {
				var fs []Field
				if v == 1 {
					fs = []Field{{Name: "a", Num: k + 1, Kind: ref.Int64}}
				} else if v == 2 {
					fs = []Field{{Name: "a", Num: k + 1, Kind: ref.Bytes, Rep: true}}
				}
				ms = append(ms, Message{fmt.Sprintf("M%d", k), fs})
			}
			if n > 0 || v == 0 {
				one(fmt.Sprintf("counts%d_%d", n, v), ms...)
			}
		}
	}
	for a := range FileAttrs {
		one(fmt.Sprintf("fileattr%d", a), leaf).Attr = a
		one(fmt.Sprintf("emptyattr%d", a)).Attr = a
	}

	// attrs: every type x field attribute, between two ordinary fields.
	b = &batch{prefix: "attrs", n: 120, leaf: true}
	for _, s := range allSlots() {
		for a := range Attrs {
			s, a := s, a
			b.add(func(self string) []Field {
				f := s.field("middle", 2, "Leaf")
				f.Attr = a
				return []Field{{Name: "before", Num: 1, Kind: ref.Uint64}, f, {Name: "after", Num: 3, Kind: ref.Sint32}}
			})
		}
	}
	out = append(out, b.files...)

	// msgnames: message-name shapes.
	for i, n := range []string{"M", "MyMessage", "My_Message", "X", "HTTPRequest", "A1", "RepeatedFields", "String", "Error", "Type", "Message_", "Zeropb", "Int32", "Offsets"} {
		one(fmt.Sprintf("msgnames%d", i), Message{n, []Field{{Name: "self", Num: 1, Kind: ref.Msg, Target: n}, {Name: "list", Num: 2, Kind: ref.RepMsg, Target: n}, {Name: "v", Num: 3, Kind: ref.Int32}}})
	}
	return out
}
