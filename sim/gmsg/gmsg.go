// Package gmsg is the harness's model of generated messages: schemas, value
// trees, an independent encoder and decoder driven by the schema, and a bridge
// to the fields of generated Go objects.
package gmsg

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"verifsim/gen"
	"verifsim/simrt"
	"verifsim/wire"
)

// How often a field's value occurs.
const (
	One = iota
	List
	Map
)

// Field is one field of a message type.
type Field struct {
	Name string
	Card int
	K    wire.Kind
	Msg  int // index of the message type, -1 if none
	Enum int // number of values, 0 if not an enumeration
	Key  wire.Kind
}

// Type is a message type.
type Type struct {
	Name   string
	Fields []Field
	order  []int // fields in the order they are encoded
}

// Schema is a set of message types.
type Schema struct {
	ID    int
	Name  string
	Rust  bool
	Types []Type
	New   [3][]func() any // constructors of the generated types, by module version
	grow  [3]int64
}

// Schemas are the registered ones.
var Schemas []*Schema

// Load parses the list of schemas.
func Load(text string) {
	if err := json.Unmarshal([]byte(text), &Schemas); err != nil {
		panic(err)
	}
	for i, s := range Schemas {
		s.ID = i
		for t := range s.Types {
			ty := &s.Types[t]
			for i, f := range ty.Fields {
				if f.Card == One && f.Msg < 0 {
					ty.order = append(ty.order, i)
				}
			}
			for i, f := range ty.Fields {
				if f.Card == List {
					ty.order = append(ty.order, i)
				}
			}
			for i, f := range ty.Fields {
				if f.Card == Map || f.Card == One && f.Msg >= 0 {
					ty.order = append(ty.order, i)
				}
			}
		}
	}
}

// Register names the constructors of a schema's generated types.
func Register(ver int, name string, fs []func() any) {
	for _, s := range Schemas {
		if s.Name == name {
			s.New[ver] = fs
		}
	}
}

// Node is a value: a scalar, a message (nil if absent), a list or a map.
type Node struct {
	N    uint64
	S    string
	M    *Msg
	L    []Node
	Keys []Node
}

// Msg is a message value, one node per field.
type Msg struct{ F []Node }

func key(n Node) string { return fmt.Sprintf("%d/%s", n.N, n.S) }

// ---------------------------------------------------------------- printing

func (s *Schema) Show(t int, m *Msg) string {
	var sb strings.Builder
	s.show(&sb, t, m)
	if sb.Len() > 700 {
		return sb.String()[:700] + "..."
	}
	return sb.String()
}

func (s *Schema) show(sb *strings.Builder, t int, m *Msg) {
	if sb.Len() > 700 {
		return
	}
	if m == nil {
		sb.WriteString("absent")
		return
	}
	sb.WriteString("{")
	for i, f := range s.Types[t].Fields {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString(f.Name + ":")
		n := m.F[i]
		switch f.Card {
		case One:
			s.showOne(sb, f, n)
		case List:
			fmt.Fprintf(sb, "%d[", len(n.L))
			for j, e := range n.L {
				if j > 0 {
					sb.WriteString(" ")
				}
				s.showOne(sb, f, e)
			}
			sb.WriteString("]")
		case Map:
			fmt.Fprintf(sb, "%d(", len(n.L))
			for j, e := range n.L {
				if j > 0 {
					sb.WriteString(" ")
				}
				fmt.Fprintf(sb, "%v=", wire.Val{K: f.Key, N: n.Keys[j].N, S: n.Keys[j].S})
				s.showOne(sb, f, e)
			}
			sb.WriteString(")")
		}
	}
	sb.WriteString("}")
}

func (s *Schema) showOne(sb *strings.Builder, f Field, n Node) {
	if f.Msg >= 0 {
		s.show(sb, f.Msg, n.M)
		return
	}
	fmt.Fprintf(sb, "%v", wire.Val{K: f.K, N: n.N, S: n.S})
}

// ---------------------------------------------------------------- equality

// Lax says which absences are not told apart.
type Lax struct {
	Single  bool // an absent nested message is an empty one (Go v1)
	Element bool // an absent element of a list or map is an empty one (Go)
}

// Eq compares two messages; it names the first difference.
func (s *Schema) Eq(t int, a, b *Msg, lax Lax) string { return s.eq(t, a, b, lax, lax.Single) }

func (s *Schema) eq(t int, a, b *Msg, lax Lax, nilOK bool) string {
	if a == nil || b == nil {
		if a == b || nilOK && s.blank(t, a, lax) && s.blank(t, b, lax) {
			return ""
		}
		if a == nil {
			return ": absent or present"
		}
		return ": present or absent"
	}
	for i, f := range s.Types[t].Fields {
		x, y := a.F[i], b.F[i]
		d := ""
		switch f.Card {
		case One:
			d = s.eqOne(f, x, y, lax, lax.Single)
		case List:
			if len(x.L) != len(y.L) {
				return fmt.Sprintf(".%s: %d or %d elements", f.Name, len(x.L), len(y.L))
			}
			for j := range x.L {
				if d = s.eqOne(f, x.L[j], y.L[j], lax, lax.Element); d != "" {
					d = fmt.Sprintf("[%d]%s", j, d)
					break
				}
			}
		case Map:
			if len(x.L) != len(y.L) {
				return fmt.Sprintf(".%s: %d or %d entries", f.Name, len(x.L), len(y.L))
			}
			at := map[string]int{}
			for j, k := range y.Keys {
				at[key(k)] = j
			}
			for j := range x.L {
				o, ok := at[key(x.Keys[j])]
				if !ok {
					return fmt.Sprintf(".%s: no entry %v", f.Name, wire.Val{K: f.Key, N: x.Keys[j].N, S: x.Keys[j].S})
				}
				if d = s.eqOne(f, x.L[j], y.L[o], lax, lax.Element); d != "" {
					d = fmt.Sprintf("(%s)%s", key(x.Keys[j]), d)
					break
				}
			}
		}
		if d != "" {
			return "." + f.Name + d
		}
	}
	return ""
}

func (s *Schema) eqOne(f Field, x, y Node, lax Lax, nilOK bool) string {
	if f.Msg >= 0 {
		return s.eq(f.Msg, x.M, y.M, lax, nilOK)
	}
	a, b := wire.Val{K: f.K, N: x.N, S: x.S}, wire.Val{K: f.K, N: y.N, S: y.S}
	if x.N != y.N || x.S != y.S {
		return fmt.Sprintf(": %v or %v", a, b)
	}
	return ""
}

// blank tells whether a message holds nothing.
func (s *Schema) blank(t int, m *Msg, lax Lax) bool {
	if m == nil {
		return true
	}
	for i, f := range s.Types[t].Fields {
		n := m.F[i]
		if n.N != 0 || n.S != "" || len(n.L) > 0 {
			return false
		}
		if f.Card == One && f.Msg >= 0 && n.M != nil && (!lax.Single || !s.blank(f.Msg, n.M, lax)) {
			return false
		}
	}
	return true
}

// Blank is a message that holds nothing.
func (s *Schema) Blank(t int) *Msg { return &Msg{make([]Node, len(s.Types[t].Fields))} }

// Copy is a deep copy.
func (m *Msg) Copy() *Msg {
	if m == nil {
		return nil
	}
	c := &Msg{make([]Node, len(m.F))}
	for i := range m.F {
		c.F[i] = m.F[i].copy()
	}
	return c
}

func (n Node) copy() Node {
	c := Node{N: n.N, S: n.S, M: n.M.Copy()}
	for _, x := range n.L {
		c.L = append(c.L, x.copy())
	}
	c.Keys = append(c.Keys, n.Keys...)
	return c
}

// ---------------------------------------------------------------- reference codec

// Order lists the fields in the order of their encodings.
func (t *Type) Order() []int { return t.order }

// NoMap, if set, decides which empty maps are encoded as absent ones, which
// Go decoders understand too.
var NoMap func() bool

// Encode is the reference encoding.
func (s *Schema) Encode(b []byte, t int, m *Msg) []byte {
	if m == nil {
		return append(b, byte(wire.Nil))
	}
	ty := &s.Types[t]
	for _, i := range ty.order {
		f, n := ty.Fields[i], m.F[i]
		switch f.Card {
		case One:
			b = s.encOne(b, f, n)
		case List:
			b = wire.Append(b, wire.Val{K: wire.Slice, Sub: f.K, N: uint64(len(n.L))})
			for _, e := range n.L {
				b = s.encOne(b, f, e)
			}
		case Map:
			if NoMap != nil && len(n.L) == 0 && NoMap() {
				b = append(b, byte(wire.Nil))
				continue
			}
			b = wire.Append(b, wire.Val{K: wire.Map, Key: f.Key, Sub: f.K, N: uint64(len(n.L))})
			for j, e := range n.L {
				b = wire.Append(b, wire.Val{K: f.Key, N: n.Keys[j].N, S: n.Keys[j].S})
				b = s.encOne(b, f, e)
			}
		}
	}
	return b
}

func (s *Schema) encOne(b []byte, f Field, n Node) []byte {
	if f.Msg >= 0 {
		return s.Encode(b, f.Msg, n.M)
	}
	return wire.Append(b, wire.Val{K: f.K, N: n.N, S: n.S})
}

// Item is one encoded item of a message and where it begins.
type Item struct {
	At   int
	V    wire.Val
	Head bool // a list or map header, or the tag of a scalar
}

// Items lists the items of an encoding in order.
func (s *Schema) Items(t int, m *Msg) (out []Item) {
	b := 0
	add := func(v wire.Val) {
		out = append(out, Item{At: b, V: v})
		b += len(wire.Append(nil, v))
	}
	var walk func(t int, m *Msg)
	one := func(f Field, n Node) {
		if f.Msg >= 0 {
			walk(f.Msg, n.M)
		} else {
			add(wire.Val{K: f.K, N: n.N, S: n.S})
		}
	}
	walk = func(t int, m *Msg) {
		if m == nil {
			add(wire.Val{K: wire.Nil})
			return
		}
		ty := &s.Types[t]
		for _, i := range ty.order {
			f, n := ty.Fields[i], m.F[i]
			switch f.Card {
			case One:
				one(f, n)
			case List:
				add(wire.Val{K: wire.Slice, Sub: f.K, N: uint64(len(n.L))})
				for _, e := range n.L {
					one(f, e)
				}
			case Map:
				add(wire.Val{K: wire.Map, Key: f.Key, Sub: f.K, N: uint64(len(n.L))})
				for j, e := range n.L {
					add(wire.Val{K: f.Key, N: n.Keys[j].N, S: n.Keys[j].S})
					one(f, e)
				}
			}
		}
	}
	walk(t, m)
	return
}

// Decode is the reference decoding of a message at the start of b: the
// message, the bytes it takes, and whether that is what they mean for sure
// (OK), cannot be such a message (Short, Wrong), or is left open (Odd).
func (s *Schema) Decode(t int, b []byte) (m *Msg, n int, o wire.Outcome) {
	d := &dec{s: s, b: b}
	m = d.msg(t)
	return m, d.at, d.o
}

type dec struct {
	s  *Schema
	b  []byte
	at int
	o  wire.Outcome
}

func (d *dec) read(w wire.Want) wire.Val {
	v, n, o := wire.Read(d.b[d.at:], w)
	if o != wire.OK {
		d.o = o
		return wire.Val{}
	}
	d.at += n
	return v
}

func (d *dec) isNil() bool {
	if d.at < len(d.b) && d.b[d.at] == byte(wire.Nil) {
		d.at++
		return true
	}
	return false
}

func (d *dec) one(f Field) Node {
	if f.Msg >= 0 {
		return Node{M: d.msg(f.Msg)}
	}
	v := wire.Norm(d.read(wire.Want{K: f.K}))
	return Node{N: norm(f.K, v.N), S: v.S}
}

// norm gives the comparison form of a scalar: what its Go type holds, extended to 64 bits.
func norm(k wire.Kind, n uint64) uint64 {
	switch k {
	case wire.I32:
		return uint64(int64(int32(n)))
	case wire.U32, wire.F32:
		return uint64(uint32(n))
	}
	return n
}

func (d *dec) msg(t int) *Msg {
	if d.isNil() {
		return nil
	}
	ty := &d.s.Types[t]
	m := d.s.Blank(t)
	for _, i := range ty.order {
		f := ty.Fields[i]
		switch f.Card {
		case One:
			m.F[i] = d.one(f)
		case List:
			h := d.read(wire.Want{K: wire.Slice, Sub: f.K})
			for j := uint64(0); j < h.N && d.o == wire.OK; j++ {
				m.F[i].L = append(m.F[i].L, d.one(f))
			}
		case Map:
			if d.isNil() {
				continue
			}
			h := d.read(wire.Want{K: wire.Map, Key: f.Key, Sub: f.K})
			at := map[string]int{}
			for j := uint64(0); j < h.N && d.o == wire.OK; j++ {
				k := d.one(Field{K: f.Key, Msg: -1})
				if d.o != wire.OK {
					break
				}
				v := d.one(f)
				if x, ok := at[key(k)]; ok {
					m.F[i].L[x] = v
					continue
				}
				at[key(k)] = len(m.F[i].L)
				m.F[i].Keys = append(m.F[i].Keys, k)
				m.F[i].L = append(m.F[i].L, v)
			}
		}
		if d.o != wire.OK {
			return m
		}
	}
	return m
}

// ---------------------------------------------------------------- Go objects

func plain(n string) string {
	return strings.Map(func(c rune) rune {
		switch {
		case c >= 'A' && c <= 'Z':
			return c + 32
		case c >= 'a' && c <= 'z' || c >= '0' && c <= '9':
			return c
		}
		return -1
	}, n)
}

type fieldKey struct {
	t reflect.Type
	n string
}

var fieldAt = map[fieldKey]int{}

// member finds the generated field by spelling.
func member(v reflect.Value, name string) reflect.Value {
	k := fieldKey{v.Type(), name}
	i, ok := fieldAt[k]
	if !ok {
		i = -1
		for j := 0; j < v.NumField(); j++ {
			if plain(v.Type().Field(j).Name) == plain(name) {
				i = j
			}
		}
		if i < 0 {
			panic("harness: no field " + name + " in " + v.Type().String())
		}
		fieldAt[k] = i
	}
	return v.Field(i)
}

// Object makes a generated object that holds m; absent messages are nil pointers.
func (s *Schema) Object(ver, t int, m *Msg) any {
	o := reflect.TypeOf(s.New[ver][t]())
	return s.ptr(o, t, m).Interface()
}

func (s *Schema) ptr(pt reflect.Type, t int, m *Msg) reflect.Value {
	if m == nil {
		return reflect.Zero(pt)
	}
	p := reflect.New(pt.Elem())
	s.Fill(p.Elem(), t, m)
	return p
}

// Fill sets the fields of a generated struct.
func (s *Schema) Fill(v reflect.Value, t int, m *Msg) {
	for i, f := range s.Types[t].Fields {
		fv := member(v, f.Name)
		n := m.F[i]
		switch f.Card {
		case One:
			s.set(fv, f, n)
		case List:
			if n.L == nil {
				fv.SetZero()
				continue
			}
			l := reflect.MakeSlice(fv.Type(), len(n.L), len(n.L))
			for j := range n.L {
				s.set(l.Index(j), f, n.L[j])
			}
			fv.Set(l)
		case Map:
			if n.L == nil {
				fv.SetZero()
				continue
			}
			h := reflect.MakeMapWithSize(fv.Type(), len(n.L))
			for j := range n.L {
				k := reflect.New(fv.Type().Key()).Elem()
				s.set(k, Field{K: f.Key, Msg: -1}, n.Keys[j])
				e := reflect.New(fv.Type().Elem()).Elem()
				s.set(e, f, n.L[j])
				h.SetMapIndex(k, e)
			}
			fv.Set(h)
		}
	}
}

func (s *Schema) set(v reflect.Value, f Field, n Node) {
	if f.Msg >= 0 {
		v.Set(s.ptr(v.Type(), f.Msg, n.M))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n.N != 0)
	case reflect.Int32, reflect.Int64:
		v.SetInt(int64(n.N))
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(n.N)
	case reflect.Float32:
		*(*uint32)(v.Addr().UnsafePointer()) = uint32(n.N)
	case reflect.Float64:
		*(*uint64)(v.Addr().UnsafePointer()) = n.N
	case reflect.String:
		v.SetString(n.S)
	case reflect.Slice:
		v.SetBytes([]byte(n.S))
	default:
		panic("harness: cannot set " + v.Type().String())
	}
}

// Value reads a generated object.
func (s *Schema) Value(t int, o any) *Msg { return s.value(t, reflect.ValueOf(o)) }

func (s *Schema) value(t int, p reflect.Value) *Msg {
	if p.IsNil() {
		return nil
	}
	m := s.Blank(t)
	v := p.Elem()
	for i, f := range s.Types[t].Fields {
		fv := member(v, f.Name)
		n := &m.F[i]
		switch f.Card {
		case One:
			*n = s.get(fv, f)
		case List:
			for j := 0; j < fv.Len(); j++ {
				n.L = append(n.L, s.get(fv.Index(j), f))
			}
		case Map:
			// in the order of the keys, not in Go's
			type kv struct{ k, v Node }
			var all []kv
			// (a key that changed in the map is not found there any more)
			for it := fv.MapRange(); it.Next(); {
				all = append(all, kv{s.get(it.Key(), Field{K: f.Key, Msg: -1}), s.get(it.Value(), f)})
			}
			sort.Slice(all, func(a, b int) bool {
				if all[a].k.N != all[b].k.N {
					return all[a].k.N < all[b].k.N
				}
				if all[a].k.S != all[b].k.S {
					return all[a].k.S < all[b].k.S
				}
				return all[a].v.N < all[b].v.N
			})
			for _, e := range all {
				n.Keys = append(n.Keys, e.k)
				n.L = append(n.L, e.v)
			}
		}
	}
	return m
}

func (s *Schema) get(v reflect.Value, f Field) Node {
	if f.Msg >= 0 {
		return Node{M: s.value(f.Msg, v)}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return Node{N: 1}
		}
		return Node{}
	case reflect.Int32, reflect.Int64:
		return Node{N: uint64(v.Int())}
	case reflect.Uint32, reflect.Uint64:
		return Node{N: v.Uint()}
	case reflect.Float32:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		return Node{N: uint64(*(*uint32)(c.Addr().UnsafePointer()))}
	case reflect.Float64:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		return Node{N: *(*uint64)(c.Addr().UnsafePointer())}
	case reflect.String:
		return Node{S: strings.Clone(v.String())}
	case reflect.Slice:
		return Node{S: string(v.Bytes())}
	}
	panic("harness: cannot read " + v.Type().String())
}

// Growth bounds how many bytes decoding may build per byte of input: the size
// of the largest generated object including what its constructor makes.
func (s *Schema) Growth(ver int) int64 {
	if s.grow[ver] == 0 {
		for _, f := range s.New[ver] {
			s.grow[ver] = max(s.grow[ver], deep(reflect.ValueOf(f())))
		}
	}
	return s.grow[ver]
}

func deep(p reflect.Value) int64 {
	if p.IsNil() {
		return 0
	}
	n := int64(p.Elem().Type().Size()) + 16
	for i := 0; i < p.Elem().NumField(); i++ {
		if f := p.Elem().Field(i); f.Kind() == reflect.Pointer {
			n += deep(f)
		}
	}
	return n
}

// ---------------------------------------------------------------- drawing

// Profile bounds what is drawn.
type Profile struct {
	NoNil bool // no absent nested messages
	UTF8  bool
	Size  int // about how many values
	Huge  int // one list or map in so many is very long
}

var texts = []string{"", "a", "id", "hello", "naïve", "日本", "x y z"}

func text(r *simrt.Run, utf bool) string {
	switch r.N(8) {
	case 0, 1, 2:
		return texts[r.N(len(texts))]
	case 3:
		b := make([]byte, r.N(40))
		for i := range b {
			b[i] = byte('a' + r.N(26))
		}
		return string(b)
	case 4:
		if utf {
			return strings.Repeat("é", r.N(70))
		}
		b := make([]byte, r.N(12))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	case 5:
		return gen.Text(r, gen.Profile{MaxText: 1100}, utf)
	case 6:
		if r.N(6) == 5 {
			return strings.Repeat("0123456789abcdef", 1000+r.N(100))
		}
		return "b"
	}
	return fmt.Sprint(r.N(1000))
}

func scalar(r *simrt.Run, f Field, utf bool) Node {
	if f.Enum > 0 {
		return Node{N: uint64(r.N(f.Enum))}
	}
	switch f.K {
	case wire.Bool:
		return Node{N: uint64(r.N(2))}
	case wire.U32, wire.U64, wire.I32, wire.I64, wire.F32, wire.F64:
		if r.N(3) == 2 {
			v := gen.Scalar(r, gen.Profile{}, f.K)
			if f.K == wire.F32 || f.K == wire.F64 {
				return Node{N: v.N}
			}
			return Node{N: norm(f.K, v.N)}
		}
	}
	switch f.K {
	case wire.String:
		return Node{S: text(r, utf)}
	case wire.Bytes:
		return Node{S: text(r, false)}
	case wire.F32:
		return Node{N: uint64([]uint32{0, 0x3f800000, 0x80000000, 0x7f800000, 0x7fc00001, 0xff800000, 1, uint32(r.Raw())}[r.N(8)])}
	case wire.F64:
		return Node{N: []uint64{0, math.Float64bits(1.5), 1 << 63, 0x7ff0000000000000, 0x7ff8000000000007, 1, r.Raw(), r.Raw()}[r.N(8)]}
	}
	var x uint64
	switch r.N(6) {
	case 0:
		x = uint64(r.N(3))
	case 1:
		x = uint64(r.N(300))
	case 2:
		x = ^uint64(r.N(3))
	case 3:
		x = 1<<r.N(64) - uint64(r.N(2))
	case 4:
		x = r.Raw()
	case 5:
		x = 1<<63 | 1<<31
	}
	return Node{N: norm(f.K, x)}
}

// Draw draws a message of type t.
func (s *Schema) Draw(r *simrt.Run, t int, p Profile) *Msg {
	left := p.Size
	return s.draw(r, t, p, &left, 0)
}

func (s *Schema) draw(r *simrt.Run, t int, p Profile, left *int, depth int) *Msg {
	m := s.Blank(t)
	*left--
	one := func(f Field, elem bool) Node {
		if f.Msg < 0 {
			*left--
			return scalar(r, f, p.UTF8)
		}
		if !p.NoNil && (depth > 6 || *left <= 0 || r.N(6) == 5) {
			return Node{}
		}
		return Node{M: s.draw(r, f.Msg, p, left, depth+1)}
	}
	for i, f := range s.Types[t].Fields {
		switch f.Card {
		case One:
			if f.Msg < 0 && *left <= 0 {
				continue
			}
			m.F[i] = one(f, false)
		case List, Map:
			if *left <= 0 {
				continue
			}
			n := 0
			switch r.N(8) {
			case 0, 1:
			case 2, 3:
				n = 1
			case 4:
				n = 2
			case 5:
				n = 3
			case 6:
				n = r.N(8)
			case 7:
				n = r.N(3)
				if r.N(4) == 3 && f.Msg < 0 {
					n = 126 + r.N(5)
				}
			}
			if f.Msg >= 0 && depth > 6 {
				n = 0
			}
			if p.Huge > 0 && depth < 3 && r.Chance(1, p.Huge) {
				s.long(r, f, &m.F[i], p, depth)
				continue
			}
			seen := map[string]bool{}
			for j := 0; j < n && (*left > 0 || f.Msg < 0); j++ {
				if f.Card == Map {
					k := scalar(r, Field{K: f.Key, Msg: -1}, p.UTF8)
					if seen[key(k)] {
						continue
					}
					seen[key(k)] = true
					m.F[i].Keys = append(m.F[i].Keys, k)
				}
				m.F[i].L = append(m.F[i].L, one(f, true))
			}
		}
	}
	return m
}

// long makes a very long list or map out of a few elements.
func (s *Schema) long(r *simrt.Run, f Field, n *Node, p Profile, depth int) {
	c := []int{100 + r.N(200), 255 + r.N(4), 300 + r.N(3000), 16380 + r.N(8), 65532 + r.N(8)}[r.N(5)]
	if f.Msg >= 0 || f.Card == Map {
		c = min(c, 4000)
	}
	var some []Node
	for k := 1 + r.N(4); k > 0; k-- {
		switch {
		case f.Msg >= 0:
			left := 4
			some = append(some, Node{M: s.draw(r, f.Msg, Profile{NoNil: p.NoNil, UTF8: p.UTF8, Size: 4}, &left, depth+3)})
		default:
			x := scalar(r, f, p.UTF8)
			if len(x.S) > 20 {
				x.S = x.S[:0]
			}
			some = append(some, x)
		}
	}
	first := r.N(1000)
	for j := 0; j < c; j++ {
		x := some[j%len(some)]
		if x.M != nil {
			x.M = x.M.Copy()
		}
		if f.Card == Map {
			var k Node
			switch f.Key {
			case wire.String:
				k.S = fmt.Sprint("k", first+j)
			case wire.Bool:
				if j > 1 {
					return
				}
				k.N = uint64(j)
			default:
				k.N = norm(f.Key, uint64(first+j*7))
			}
			n.Keys = append(n.Keys, k)
		}
		n.L = append(n.L, x)
	}
}

// Vary changes some parts of a message, the way consecutive messages differ.
func (s *Schema) Vary(r *simrt.Run, t int, m *Msg, p Profile) *Msg {
	if m == nil {
		return s.Draw(r, t, p)
	}
	c := m.Copy()
	s.vary(r, t, c, p, 0)
	return c
}

func (s *Schema) vary(r *simrt.Run, t int, m *Msg, p Profile, depth int) {
	small := p
	small.Size = 4
	for i, f := range s.Types[t].Fields {
		n := &m.F[i]
		elem := func(x *Node) {
			switch {
			case f.Msg < 0:
				*x = scalar(r, f, p.UTF8)
			case x.M == nil:
				x.M = s.Draw(r, f.Msg, small)
			case r.N(3) == 2 && !p.NoNil:
				x.M = nil
			case r.N(4) == 3:
				x.M = s.Blank(f.Msg)
				if p.NoNil {
					x.M = s.Draw(r, f.Msg, small)
				}
			default:
				s.vary(r, f.Msg, x.M, p, depth+1)
			}
		}
		if r.N(3) != 2 {
			continue
		}
		if f.Card == One {
			if f.Msg < 0 && r.N(3) == 2 {
				*n = Node{}
			} else {
				elem(n)
			}
			continue
		}
		switch r.N(5) {
		case 0:
			*n = Node{}
		case 1, 2: // same length
			for j := range n.L {
				if r.N(2) == 1 {
					elem(&n.L[j])
				}
			}
		case 3:
			if l := len(n.L); l > 0 {
				n.L = n.L[:l-1]
				if f.Card == Map {
					n.Keys = n.Keys[:l-1]
				}
			}
		case 4:
			var x Node
			elem(&x)
			if f.Card == Map {
				k := scalar(r, Field{K: f.Key, Msg: -1}, p.UTF8)
				dup := false
				for _, o := range n.Keys {
					dup = dup || key(o) == key(k)
				}
				if dup {
					continue
				}
				n.Keys = append(n.Keys, k)
			}
			n.L = append(n.L, x)
		}
	}
}

var _ = unsafe.Pointer(nil)

// Scramble overwrites the blobs, lists and scalars of a generated object in place.
func (s *Schema) Scramble(o any) { scramble(reflect.ValueOf(o)) }

func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scramble(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			v.Clear()
		}
	case reflect.Uint8:
		v.SetUint(v.Uint() ^ 0xff)
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() + 1)
	case reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() + 1)
	case reflect.String:
		v.SetString("changed")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}
