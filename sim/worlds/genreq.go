//go:build gens

package worlds

import (
	"fmt"
	"strings"

	"verifsim/simrt"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Drawn requests to code generators.

type reqDraw struct {
	r     *simrt.Run
	files []*descriptorpb.FileDescriptorProto
	msgs  []string // full names of the messages a field of the current file may refer to
	enums []string
	mine  []string // those of the current file
	n     int
	plain bool // only what every generator supports
}

var scalarTypes = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_INT64,
	descriptorpb.FieldDescriptorProto_TYPE_UINT64, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_BOOL, descriptorpb.FieldDescriptorProto_TYPE_STRING,
	descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_UINT32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SINT64,
}

var keyTypes = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_UINT64,
	descriptorpb.FieldDescriptorProto_TYPE_BOOL, descriptorpb.FieldDescriptorProto_TYPE_SINT64, descriptorpb.FieldDescriptorProto_TYPE_FIXED32,
}

var words = []string{"order", "item_no", "name", "Total", "x1", "long_field_name_2", "data", "id", "kind_of", "by_user", "Ref", "value",
	"_lead", "two__under", "n_1", "mixedCase", "HTTPCode"}

func (d *reqDraw) word() string {
	d.n++
	if d.n < 26 && d.r.N(5) == 0 {
		return string(rune("aA"[d.r.N(2)] + byte(d.n)))
	}
	w := words[d.r.N(len(words))]
	return fmt.Sprintf("%s_%c%d", w, 'a'+d.n%26, d.n)
}

func (d *reqDraw) typeName() string {
	d.n++
	if d.n < 26 && d.r.N(8) == 0 {
		return string(rune("aA"[d.r.N(2)] + byte(d.n)))
	}
	return fmt.Sprintf("%s%d", []string{"Order", "Item", "UserInfo", "ABC", "event", "Node"}[d.r.N(6)], d.n)
}

func (d *reqDraw) enum(scope string) *descriptorpb.EnumDescriptorProto {
	e := &descriptorpb.EnumDescriptorProto{Name: proto.String(d.typeName())}
	for i, k := 0, 1+d.r.N(4); i < k; i++ {
		e.Value = append(e.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(strings.ToUpper(d.word())), Number: proto.Int32(int32(i))})
	}
	d.enums = append(d.enums, scope+"."+e.GetName())
	return e
}

// declare makes a message with its nested types but without fields.
func (d *reqDraw) declare(scope string, depth int) *descriptorpb.DescriptorProto {
	m := &descriptorpb.DescriptorProto{Name: proto.String(d.typeName())}
	full := scope + "." + m.GetName()
	d.msgs = append(d.msgs, full)
	if depth < 2 {
		for k := d.r.N(6) - 3; k > 0; k-- {
			m.NestedType = append(m.NestedType, d.declare(full, depth+1))
		}
		for k := d.r.N(5) - 3; k > 0; k-- {
			m.EnumType = append(m.EnumType, d.enum(full))
		}
	}
	return m
}

func (d *reqDraw) typed(f *descriptorpb.FieldDescriptorProto) {
	switch k := d.r.N(10); {
	case k >= 8 && len(d.enums) > 0:
		f.Type = descriptorpb.FieldDescriptorProto_TYPE_ENUM.Enum()
		f.TypeName = proto.String(d.enums[d.r.N(len(d.enums))])
	case k >= 5:
		f.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
		f.TypeName = proto.String(d.msgs[d.r.N(len(d.msgs))])
	default:
		f.Type = scalarTypes[d.r.N(len(scalarTypes))].Enum()
	}
}

func (d *reqDraw) fields(scope string, m *descriptorpb.DescriptorProto, proto2 bool) {
	full := scope + "." + m.GetName()
	for _, x := range m.NestedType {
		d.fields(full, x, proto2)
	}
	for i, k := 0, d.r.N(7); i < k; i++ {
		f := &descriptorpb.FieldDescriptorProto{Name: proto.String(d.word()), Number: proto.Int32(int32(i + 1)), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
		f.JsonName = proto.String(strings.ReplaceAll(f.GetName(), "_", ""))
		switch d.r.N(6) {
		case 4:
			f.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			d.typed(f)
		case 5:
			f.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			parts := strings.Split(f.GetName(), "_")
			for j, p := range parts {
				if p != "" {
					parts[j] = strings.ToUpper(p[:1]) + p[1:]
				}
			}
			e := &descriptorpb.DescriptorProto{Name: proto.String(strings.Join(parts, "") + "Entry"), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}}
			key := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), JsonName: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: keyTypes[d.r.N(len(keyTypes))].Enum()}
			val := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), JsonName: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			d.typed(val)
			e.Field = []*descriptorpb.FieldDescriptorProto{key, val}
			m.NestedType = append(m.NestedType, e)
			f.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
			f.TypeName = proto.String(full + "." + e.GetName())
		default:
			d.typed(f)
			if proto2 && d.r.N(3) == 2 {
				f.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
			}
		}
		m.Field = append(m.Field, f)
	}
	if !d.plain && d.r.N(8) == 7 && len(m.Field) > 0 {
		// a choice of fields
		for _, f := range m.Field {
			if f.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL {
				f.OneofIndex = proto.Int32(0)
			}
		}
		for _, f := range m.Field {
			if f.OneofIndex != nil {
				m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("choice")}}
			}
		}
	}
	if !d.plain && proto2 && d.r.N(3) == 2 {
		g := &descriptorpb.DescriptorProto{Name: proto.String(fmt.Sprintf("Grp%d", d.n))}
		m.NestedType = append(m.NestedType, g)
		m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(strings.ToLower(g.GetName())), JsonName: proto.String(strings.ToLower(g.GetName())),
			Number: proto.Int32(100), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_GROUP.Enum(), TypeName: proto.String(full + "." + g.GetName())})
	}
}

// drawRequest draws a request. A plain one is valid and supported by every generator.
func drawRequest(r *simrt.Run, plain bool, param func() string) (req *pluginpb.CodeGeneratorRequest, desc string) {
	d := &reqDraw{r: r, plain: plain}
	req = &pluginpb.CodeGeneratorRequest{CompilerVersion: &pluginpb.Version{Major: proto.Int32(4), Minor: proto.Int32(25)}}
	pkgs := []string{"", "app", "acme.store", "acme.store.v1"}
	pkg := pkgs[r.N(len(pkgs))]
	nf := 1
	if r.N(3) == 2 {
		nf = 2 + r.N(2)
	}
	for i := 0; i < nf; i++ {
		proto2 := r.N(5) == 4
		f := &descriptorpb.FileDescriptorProto{Name: proto.String(fmt.Sprintf("%sfile_%d.proto", []string{"", "dir/", "a/b-c/"}[r.N(3)], i)), Syntax: proto.String("proto3"),
			Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/gen/pkg;pkg")}}
		if pkg != "" {
			f.Package = proto.String(pkg)
		}
		if proto2 {
			f.Syntax = nil
		}
		for _, o := range req.ProtoFile {
			f.Dependency = append(f.Dependency, o.GetName())
		}
		scope := ""
		if pkg != "" {
			scope = "." + pkg
		}
		keep := d.enums
		if !proto2 {
			// enumerations of proto2 files may not be used here
			d.enums = nil
		}
		for k := r.N(3); k > 0; k-- {
			f.EnumType = append(f.EnumType, d.enum(scope))
		}
		for k := r.N(4); k > 0; k-- {
			f.MessageType = append(f.MessageType, d.declare(scope, 0))
		}
		for _, m := range f.MessageType {
			d.fields(scope, m, proto2)
		}
		d.enums = append(keep, d.enums...)
		if r.N(4) == 3 && len(f.MessageType) > 0 {
			n := scope + "." + f.MessageType[0].GetName()
			f.Service = append(f.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String("Svc" + fmt.Sprint(i)), Method: []*descriptorpb.MethodDescriptorProto{{Name: proto.String("Do"), InputType: proto.String(n), OutputType: proto.String(n)}}})
		}
		req.ProtoFile = append(req.ProtoFile, f)
		if i == nf-1 || r.N(2) == 1 {
			req.FileToGenerate = append(req.FileToGenerate, f.GetName())
		}
	}
	if p := param(); p != "" {
		req.Parameter = proto.String(p)
	}
	desc = fmt.Sprintf("%d files (%d to generate), %d messages, %d enumerations, parameter %q", nf, len(req.FileToGenerate), len(d.msgs), len(d.enums), req.GetParameter())
	if !plain {
		if f := req.ProtoFile[len(req.ProtoFile)-1]; r.N(3) == 2 {
			desc += ", broken"
			switch r.N(5) {
			case 0:
				req.FileToGenerate = append(req.FileToGenerate, "missing.proto")
			case 1:
				f.Dependency = append(f.Dependency, "nowhere.proto")
			case 2:
				f.Options = nil
			case 3:
				for _, m := range f.MessageType {
					for _, x := range m.Field {
						if x.TypeName != nil {
							x.TypeName = proto.String(".no.Such")
						}
					}
				}
			case 4:
				f.Name = proto.String("other.proto")
			}
		}
	}
	return
}

// varyRequest changes a request in some places: the same files in another
// version, with the same names for other things.
func varyRequest(r *simrt.Run, q *pluginpb.CodeGeneratorRequest, param func() string) (*pluginpb.CodeGeneratorRequest, string) {
	q = proto.Clone(q).(*pluginpb.CodeGeneratorRequest)
	changed := 0
	var walk func(m *descriptorpb.DescriptorProto)
	enum := func(e *descriptorpb.EnumDescriptorProto) {
		if r.N(3) == 0 {
			n := len(e.Value)
			e.Value = append(e.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(fmt.Sprintf("%s_NEW%d", e.Value[0].GetName(), n)), Number: proto.Int32(int32(n + 100))})
			changed++
		}
	}
	walk = func(m *descriptorpb.DescriptorProto) {
		for _, x := range m.NestedType {
			walk(x)
		}
		for _, x := range m.EnumType {
			enum(x)
		}
		entry := m.GetOptions().GetMapEntry()
		var fs []*descriptorpb.FieldDescriptorProto
		for i, f := range m.Field {
			scalar := f.TypeName == nil
			if k := r.N(8); scalar && k < 2 && !(entry && i == 0) {
				f.Type = scalarTypes[r.N(len(scalarTypes))].Enum()
				changed++
			} else if entry && i == 0 && k == 2 {
				f.Type = keyTypes[r.N(len(keyTypes))].Enum()
				changed++
			} else if scalar && !entry && k == 2 && f.OneofIndex == nil {
				if f.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REPEATED {
					f.Label = descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
				} else {
					f.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				}
				changed++
			} else if scalar && !entry && k == 3 && f.OneofIndex == nil {
				changed++
				continue // no longer there
			} else if !entry && k == 4 && f.OneofIndex == nil && f.GetType() != descriptorpb.FieldDescriptorProto_TYPE_GROUP {
				f.Number = proto.Int32(f.GetNumber() + 1000)
				changed++
			}
			fs = append(fs, f)
		}
		m.Field = fs
	}
	for _, f := range q.ProtoFile {
		for _, m := range f.MessageType {
			walk(m)
		}
		for _, e := range f.EnumType {
			enum(e)
		}
		if f.Options != nil && r.N(4) == 0 {
			f.Options.GoPackage = proto.String("example.com/other/place;place")
			changed++
		}
	}
	q.Parameter = nil
	if p := param(); p != "" {
		q.Parameter = proto.String(p)
	}
	return q, fmt.Sprintf("another version of the one before (%d changes), parameter %q", changed, q.GetParameter())
}

func rustParam(r *simrt.Run, plain bool) string {
	k := 6
	if !plain {
		k = 8
	}
	return []string{"", "privacy=public", "privacy=private", "privacy=crate", "paths=source_relative", "privacy=public,paths=source_relative", "privacy", "unknown=1"}[r.N(k)]
}

func otherParam(r *simrt.Run, plain bool) string {
	return []string{"", "paths=source_relative", "paths=import"}[r.N(3)]
}
