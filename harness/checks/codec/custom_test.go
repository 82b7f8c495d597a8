package codec

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
)

// Attribute types with codecs of their own.

// Flag is "yes" or "no" on the wire.
type Flag bool

func (f Flag) EncodeRecordAttribute() (any, error) {
	if f {
		return "yes", nil
	}
	return "no", nil
}

func (f *Flag) DecodeRecordAttribute(attr any) error {
	switch attr {
	case "yes":
		*f = true
	case "no":
		*f = false
	default:
		return fmt.Errorf("not a flag: %v", attr)
	}
	return nil
}

// Opt tells apart not set, and encodes as a 32-bit integer.
type Opt struct {
	Set bool
	Val int32
}

func (o Opt) EncodeRecordAttribute() (any, error) {
	if !o.Set {
		return nil, encoding.ErrAttributeNotSet
	}
	if o.Val == badOpt {
		return nil, fmt.Errorf("bad option")
	}
	return o.Val, nil
}

const badOpt = int32(-77)

func (o *Opt) DecodeRecordAttribute(attr any) error {
	v, ok := attr.(int32)
	if !ok {
		return fmt.Errorf("not an option: %T", attr)
	}
	*o = Opt{true, v}
	return nil
}

// List is a pointer codec over a slice.
type List struct{ Items []string }

func (l *List) EncodeRecordAttribute() (any, error) { return strings.Join(l.Items, ","), nil }

func (l *List) DecodeRecordAttribute(attr any) error {
	s, ok := attr.(string)
	if !ok {
		return fmt.Errorf("not a list: %T", attr)
	}
	l.Items = strings.Split(s, ",")
	return nil
}

// Nested has another record inside, which it encodes and decodes with the
// codec. On the wire it is the inner record's attribute.
type Nested struct{ Inner inner }

type inner struct {
	Text string `vflow:"1,required"`
}

var innerCode = func() uint32 {
	code := freshCode()
	encoding.MustRegisterRecord(code, inner{})
	return code
}()

func (n *Nested) EncodeRecordAttribute() (any, error) {
	attrs, err := encoding.Encode(n.Inner)
	if err != nil {
		return nil, err
	}
	return attrs[uint32(1)], nil
}

func (n *Nested) DecodeRecordAttribute(attr any) error {
	v, err := encoding.Decode(map[any]any{uint32(0): innerCode, uint32(1): attr})
	if err == nil {
		n.Inner = *v.(*inner)
	}
	return err
}

// Name is a named string.
type Name string

// Level is a named integer.
type Level uint64

// fkind is one way to declare an attribute field.
type fkind struct {
	name   string
	t      reflect.Type
	set    func(r *rand.Rand, zero bool) reflect.Value // a value that counts as set
	wire   func(v reflect.Value) any                   // its wire form
	unset  bool                                        // the zero value of the field means not set
	reqOK  bool                                        // may be combined with required
	badDec []any                                       // wire values it must refuse
}

func plain[T comparable](name string, draw func(r *rand.Rand) T, bad ...any) []fkind {
	var zero T
	nz := func(r *rand.Rand) T {
		for {
			if v := draw(r); v != zero {
				return v
			}
		}
	}
	t := reflect.TypeFor[T]()
	bad = append(bad, nil)
	return []fkind{
		{name, t, func(r *rand.Rand, _ bool) reflect.Value { return reflect.ValueOf(nz(r)) },
			func(v reflect.Value) any { return v.Interface() }, true, true, bad},
		{"*" + name, reflect.PointerTo(t), func(r *rand.Rand, z bool) reflect.Value {
			v := draw(r)
			if z {
				v = zero
			}
			return reflect.ValueOf(&v)
		}, func(v reflect.Value) any { return v.Elem().Interface() }, true, false, bad},
		{"**" + name, reflect.PointerTo(reflect.PointerTo(t)), func(r *rand.Rand, z bool) reflect.Value {
			v := draw(r)
			if z {
				v = zero
			}
			p := &v
			return reflect.ValueOf(&p)
		}, func(v reflect.Value) any { return v.Elem().Elem().Interface() }, true, false, bad},
	}
}

func fkinds() []fkind {
	var ks []fkind
	ks = append(ks, plain("string", gen.RandString, uint64(1), []byte("x"), true)...)
	ks = append(ks, plain("uint64", gen.RandU64, "x", int64(1), uint32(1), 1.5)...)
	ks = append(ks, plain("int64", func(r *rand.Rand) int64 { return int64(gen.RandU64(r)) }, "x", uint64(1), int32(1))...)
	ks = append(ks, plain("uint32", func(r *rand.Rand) uint32 { return uint32(gen.RandU64(r)) }, "x", uint64(1), int32(1))...)
	ks = append(ks, plain("int32", func(r *rand.Rand) int32 { return int32(gen.RandU64(r)) }, "x", int64(1), uint32(1))...)
	named := func(ks []fkind) []fkind {
		for i := range ks {
			w := ks[i].wire
			ks[i].wire = func(v reflect.Value) any {
				x := reflect.ValueOf(w(v))
				switch x.Kind() {
				case reflect.String:
					return x.String()
				default:
					return x.Uint()
				}
			}
		}
		return ks
	}
	ks = append(ks, named(plain("Name", func(r *rand.Rand) Name { return Name(gen.RandString(r)) }, uint64(1)))...)
	ks = append(ks, named(plain("Level", func(r *rand.Rand) Level { return Level(gen.RandU64(r)) }, "x", int64(1)))...)
	flag := func(v reflect.Value) any {
		x, _ := v.Interface().(interface{ EncodeRecordAttribute() (any, error) }).EncodeRecordAttribute()
		return x
	}
	ks = append(ks,
		fkind{"Flag", reflect.TypeFor[Flag](), func(r *rand.Rand, z bool) reflect.Value { return reflect.ValueOf(Flag(!z && r.IntN(2) == 0)) }, flag, false, true, []any{"maybe", uint64(1), nil}},
		fkind{"*Flag", reflect.TypeFor[*Flag](), func(r *rand.Rand, z bool) reflect.Value {
			f := Flag(!z && r.IntN(2) == 0)
			return reflect.ValueOf(&f)
		}, flag, true, true, []any{"maybe", uint64(1), nil}},
		fkind{"Opt", reflect.TypeFor[Opt](), func(r *rand.Rand, z bool) reflect.Value {
			return reflect.ValueOf(Opt{true, int32(r.IntN(100))})
		}, flag, true, true, []any{"x", nil, uint32(3)}},
		fkind{"*Opt", reflect.TypeFor[*Opt](), func(r *rand.Rand, z bool) reflect.Value {
			return reflect.ValueOf(&Opt{true, int32(r.IntN(100))})
		}, flag, true, true, []any{"x", nil, uint32(3)}},
		fkind{"*List", reflect.TypeFor[*List](), func(r *rand.Rand, z bool) reflect.Value {
			return reflect.ValueOf(&List{strings.Split("a,b,c,,d"[:1+2*r.IntN(4)], ",")})
		}, flag, true, true, []any{uint64(3), nil}},
		fkind{"*Nested", reflect.TypeFor[*Nested](), func(r *rand.Rand, z bool) reflect.Value {
			return reflect.ValueOf(&Nested{inner{"x" + gen.RandString(r)}})
		}, func(v reflect.Value) any { return v.Interface().(*Nested).Inner.Text }, true, true, []any{uint64(3), nil}},
		fkind{"Time", reflect.TypeFor[vanflow.Time](), func(r *rand.Rand, z bool) reflect.Value {
			return reflect.ValueOf(vanflow.Time{Time: time.UnixMicro(int64(gen.RandTime(r)))})
		}, flag, true, true, []any{"x", nil, uint64(1 << 63)}},
		fkind{"*Time", reflect.TypeFor[*vanflow.Time](), func(r *rand.Rand, z bool) reflect.Value {
			return reflect.ValueOf(&vanflow.Time{Time: time.UnixMicro(int64(gen.RandTime(r)))})
		}, flag, true, true, []any{"x", nil, uint64(1 << 63)}},
	)
	return ks
}

// Embeddable structs (reflect.StructOf cannot embed types with methods).
type EmbOne struct {
	One string `vflow:"901"`
}
type EmbTwo struct {
	EmbOne
	Two  *uint64 `vflow:"902"`
	Skip bool
}

// Types that reflect.StructOf cannot make: embedded struct types that are not
// exported, embedding of many levels with several fields on each, embedded
// structs that are no attributes, and codecs that wrap their errors.

type emb4 struct {
	A4 *string `vflow:"41"`
	B4 *uint64 `vflow:"42"`
	C4 *string `vflow:"43"`
}
type Emb3 struct {
	A3 *string `vflow:"31"`
	emb4
	B3 *uint64 `vflow:"32"`
	C3 *string `vflow:"33"`
}
type emb2 struct {
	Plain int
	A2    *string `vflow:"21"`
	Emb3
	B2 *string `vflow:"22"`
	C2 *uint64 `vflow:"23"`
}
type Emb1 struct {
	emb2
	A1 *string `vflow:"11"`
	B1 *uint64 `vflow:"12"`
	C1 string  `vflow:"13"`
}
type emb0 struct {
	A0 *uint64 `vflow:"2"`
	Emb1
	B0 string  `vflow:"3"`
	C0 *string `vflow:"4"`
}
type deepType struct {
	First string `vflow:"1,required"`
	emb0
	Last *uint64 `vflow:"5"`
}
type twoEmbedded struct {
	emb4
	EmbOne
	X string `vflow:"1"`
	embNone
	Y *uint64 `vflow:"2"`
}
type embNone struct{ N int }

// Embedded fields that are attributes themselves.
type embAttrs struct {
	vanflow.Time `vflow:"1,required"`
	Name         `vflow:"2"`
	*Level       `vflow:"3"`
	Opt          `vflow:"4"`
	EmbOne
	*Flag `vflow:"5"`
}

// What comes with the embedded fields is not to be its own.
func (embAttrs) EncodeRecordAttribute() {}
func (embAttrs) DecodeRecordAttribute() {}
func (embAttrs) MarshalJSON()           {}

// Wrapped is like Opt, with errors that have the reason as their cause.
type Wrapped struct {
	Set bool
	Val string
}

func (w Wrapped) EncodeRecordAttribute() (any, error) {
	if !w.Set {
		return nil, fmt.Errorf("nothing there: %w", encoding.ErrAttributeNotSet)
	}
	return w.Val, nil
}

func (w *Wrapped) DecodeRecordAttribute(attr any) error {
	s, ok := attr.(string)
	if !ok {
		return fmt.Errorf("not a string: %T", attr)
	}
	*w = Wrapped{true, s}
	return nil
}

type wrapsType struct {
	W    Wrapped  `vflow:"1,required"`
	V    Wrapped  `vflow:"2"`
	P    *Wrapped `vflow:"3"`
	Name *string  `vflow:"4"`
}

// namesakes are types with the same names, declared in functions.
func namesakes() [][]reflect.Type {
	var out [][]reflect.Type
	first := func() (a, b reflect.Type) {
		type Local struct {
			A string  `vflow:"1"`
			B *uint64 `vflow:"2"`
		}
		type Outer struct {
			Local
			C *string `vflow:"7"`
		}
		return reflect.TypeFor[Local](), reflect.TypeFor[Outer]()
	}
	second := func() (a, b reflect.Type) {
		type Local struct {
			A *uint64 `vflow:"2"`
			B string  `vflow:"1,required"`
			C *string `vflow:"3"`
		}
		type Outer struct {
			C *uint64 `vflow:"8,required"`
			Local
		}
		return reflect.TypeFor[Local](), reflect.TypeFor[Outer]()
	}
	third := func() (a, b reflect.Type) {
		type Local struct {
			A string `vflow:"1"`
			B uint64 `vflow:"3"`
		}
		type Outer struct {
			D uint64 `vflow:"7"`
			E Name   `vflow:"9"`
		}
		return reflect.TypeFor[Local](), reflect.TypeFor[Outer]()
	}
	a1, b1 := first()
	a2, b2 := second()
	a3, b3 := third()
	for _, ts := range [][]reflect.Type{{a1, a2, a3}, {b1, b2, b3}} {
		if ts[0].String() != ts[1].String() || ts[0] == ts[1] {
			panic("harness: no namesakes")
		}
		out = append(out, ts)
	}
	return out
}

// staticType derives the fields of a type declared above.
func staticType(t reflect.Type, ks []fkind) ctype {
	ct := ctype{code: freshCode(), t: t, desc: t.Name() + " "}
	kinds := map[reflect.Type]fkind{}
	for _, k := range ks {
		kinds[k.t] = k
	}
	wrapped := fkind{name: "wrapped errors", t: reflect.TypeFor[Wrapped](), reqOK: true, unset: true, badDec: []any{nil, uint64(1)},
		set:  func(r *rand.Rand, _ bool) reflect.Value { return reflect.ValueOf(Wrapped{true, gen.RandString(r)}) },
		wire: func(v reflect.Value) any { return v.Interface().(Wrapped).Val }}
	kinds[wrapped.t] = wrapped
	kinds[reflect.PointerTo(wrapped.t)] = fkind{name: "*wrapped errors", t: reflect.PointerTo(wrapped.t), unset: true, badDec: wrapped.badDec,
		set:  func(r *rand.Rand, _ bool) reflect.Value { return reflect.ValueOf(&Wrapped{true, gen.RandString(r)}) },
		wire: func(v reflect.Value) any { return v.Interface().(*Wrapped).Val }}
	var walk func(t reflect.Type, path []int)
	walk = func(t reflect.Type, path []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			p := append(append([]int{}, path...), i)
			if f.Anonymous && f.Tag.Get("vflow") == "" {
				walk(f.Type, p)
				continue
			}
			tag, opt, _ := strings.Cut(f.Tag.Get("vflow"), ",")
			if tag == "" {
				continue
			}
			var code uint32
			fmt.Sscan(tag, &code)
			k, ok := kinds[f.Type]
			if !ok {
				panic(fmt.Sprintf("harness: no kind for %s", f.Type))
			}
			ct.fields = append(ct.fields, cfield{code, opt == "required", k, p})
			ct.desc += fmt.Sprintf("%s:%d:%v ", k.name, code, opt == "required")
		}
	}
	walk(t, nil)
	return ct
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// cfield is a field of a custom type, by its path of struct indexes.
type cfield struct {
	code uint32
	req  bool
	k    fkind
	path []int
}

type ctype struct {
	code   uint32
	t      reflect.Type
	fields []cfield
	desc   string
}

var nextCode atomic.Uint32 // fresh type codes for this process

func freshCode() uint32 { return 1000 + nextCode.Add(1) }

// randType draws a struct type that has never been registered.
func randType(r *rand.Rand, ks []fkind) ctype {
	ct := ctype{code: freshCode()}
	var sf []reflect.StructField
	byName := func(n string) fkind {
		for _, k := range ks {
			if k.name == n {
				return k
			}
		}
		panic(n)
	}
	switch r.IntN(4) {
	case 0:
		sf = append(sf, reflect.StructField{Name: "EmbOne", Type: reflect.TypeFor[EmbOne](), Anonymous: true})
		ct.fields = append(ct.fields, cfield{901, false, byName("string"), []int{0, 0}})
	case 1:
		sf = append(sf, reflect.StructField{Name: "EmbTwo", Type: reflect.TypeFor[EmbTwo](), Anonymous: true})
		ct.fields = append(ct.fields, cfield{901, false, byName("string"), []int{0, 0, 0}}, cfield{902, false, byName("*uint64"), []int{0, 1}})
	}
	used := map[uint32]bool{0: true, 901: true, 902: true}
	// a field without a tag and of any type is not an attribute
	sf = append(sf, reflect.StructField{Name: "Untagged", Type: reflect.TypeFor[chan int]()})
	for i, n := 0, 1+r.IntN(8); i < n; i++ {
		k := ks[r.IntN(len(ks))]
		code := uint32(r.IntN(40))
		if r.IntN(8) == 0 {
			code = []uint32{1 << 31, 1<<32 - 1, 65536, 255, 256}[r.IntN(5)]
		}
		if used[code] {
			continue
		}
		used[code] = true
		f := cfield{code: code, k: k, req: k.reqOK && r.IntN(3) == 0, path: []int{len(sf)}}
		tag := fmt.Sprintf(`json:"x%d" vflow:"%d"`, i, code)
		if f.req {
			tag = fmt.Sprintf(`vflow:"%d,required"`, code)
		}
		if r.IntN(20) == 0 {
			tag = strings.Replace(tag, `vflow:"`, `vflow:"00`, 1)
		}
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: k.t, Tag: reflect.StructTag(tag)})
		ct.fields = append(ct.fields, f)
	}
	// makes the type unique in this process
	sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Unique%d", ct.code), Type: reflect.TypeFor[int]()})
	ct.t = reflect.StructOf(sf)
	for _, f := range ct.fields {
		ct.desc += fmt.Sprintf("%s:%d:%v ", f.k.name, f.code, f.req)
	}
	return ct
}

func at(v reflect.Value, path []int) reflect.Value {
	for _, i := range path {
		v = v.Field(i)
	}
	return v
}

// exercise encodes and decodes random values of a registered type.
func exercise(c *mon.Check, r *rand.Rand, name string, ct ctype, rounds int) {
	for round := 0; round < rounds; round++ {
		p := reflect.New(ct.t)
		want := map[any]any{uint32(0): ct.code}
		missing := ""
		for _, f := range ct.fields {
			if r.IntN(3) == 0 {
				if f.k.unset {
					if f.req {
						missing = fmt.Sprint(f.code)
					}
					continue
				}
			}
			v := f.k.set(r, r.IntN(4) == 0)
			at(p.Elem(), f.path).Set(v)
			want[f.code] = f.k.wire(v)
		}
		// fields whose zero value means something are always on the wire
		for _, f := range ct.fields {
			if !f.k.unset {
				want[f.code] = f.k.wire(at(p.Elem(), f.path))
			}
		}
		val := p.Interface()
		if round%2 == 1 {
			val = p.Elem().Interface()
		}
		got, err := encoding.Encode(val)
		if missing != "" {
			if err == nil {
				c.Violate(name, "type {%s}: a record without the required attribute %s was encoded as %v", ct.desc, missing, got)
			}
			c.Count("missing required refused", 1)
			if _, err := encoding.Decode(copyMap(want)); err == nil {
				c.Violate(name, "type {%s}: a map without the required attribute %s was decoded", ct.desc, missing)
			}
			c.Case("")
			continue
		}
		if err != nil {
			c.Violate(name, "type {%s}: encoding %+v failed: %v", ct.desc, p.Elem().Interface(), err)
		}
		if !reflect.DeepEqual(map[any]any(got), want) {
			c.Violate(name, "type {%s}: %+v was encoded as %#v, want %#v", ct.desc, p.Elem().Interface(), got, want)
		}
		m, err := viaAMQP(&amqp.Message{Value: []any{map[any]any(got)}})
		if err != nil {
			c.Violate(name, "type {%s}: %#v has no binary form: %v", ct.desc, got, err)
		}
		for _, in := range []map[any]any{got, m.Value.([]any)[0].(map[any]any)} {
			dec, err := encoding.Decode(in)
			if err != nil {
				c.Violate(name, "type {%s}: decoding %#v failed: %v", ct.desc, in, err)
			}
			dv := reflect.ValueOf(dec)
			if dv.Type() != p.Type() {
				c.Violate(name, "type {%s}: decoded as %T", ct.desc, dec)
			}
			for _, f := range ct.fields {
				a, b := at(p.Elem(), f.path), at(dv.Elem(), f.path)
				wa, inMap := want[f.code]
				if !inMap {
					if !b.IsZero() {
						c.Violate(name, "type {%s}: attribute %d was not set and decoded as %v", ct.desc, f.code, b)
					}
					continue
				}
				if b.Kind() == reflect.Pointer && b.IsNil() {
					c.Violate(name, "type {%s}: attribute %d was lost", ct.desc, f.code)
				}
				var wb any
				if p := mon.Try(func() { wb = f.k.wire(b) }); p != "" {
					c.Violate(name, "type {%s}: attribute %d was %v and decoded as something without a value (%s)", ct.desc, f.code, wa, p)
				}
				if !reflect.DeepEqual(wa, wb) {
					c.Violate(name, "type {%s}: attribute %d was %v and decoded as %v", ct.desc, f.code, a, wb)
				}
			}
		}
		// a wrongly typed value for one attribute is refused
		if len(ct.fields) > 0 {
			f := ct.fields[r.IntN(len(ct.fields))]
			in := copyMap(want)
			in[f.code] = f.k.badDec[r.IntN(len(f.k.badDec))]
			if want[f.code] != nil && r.IntN(3) == 0 { // empty values of other types
				if v := gen.Empties[r.IntN(len(gen.Empties))]; reflect.TypeOf(v) != reflect.TypeOf(want[f.code]) {
					in[f.code] = v
				}
			}
			var dec any
			var err error
			if p := mon.Try(func() { dec, err = encoding.Decode(in) }); p != "" {
				c.Violate(name, "type {%s}: decoding %#v crashed: %s", ct.desc, in, p)
			}
			if err == nil {
				c.Violate(name, "type {%s}: attribute %d=%#v is not a %s but was decoded as %+v", ct.desc, f.code, in[f.code], f.k.name, dec)
			}
			c.Count("wrong values refused", 1)
		}
		c.Case(ct.desc + fmt.Sprint(want))
		c.Count("custom records round-tripped", 1)
		for _, f := range ct.fields {
			c.Seen("field kind", f.k.name)
		}
	}
}

func copyMap(m map[any]any) map[any]any {
	out := make(map[any]any, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

func register(code uint32, t reflect.Type, pointer bool) (panicked string) {
	v := reflect.New(t)
	arg := v.Interface()
	if !pointer {
		arg = v.Elem().Interface()
	}
	return mon.Try(func() { encoding.MustRegisterRecord(code, arg) })
}

func TestA05(t *testing.T) {
	c := mon.Start("A05", "a case is one value of a randomly built struct type (over plain, optional, embedded and custom-codec fields) encoded and decoded, or one refused registration, or one concurrent history of registrations and use; distinct by type shape and value")
	ks := fkinds()
	var good []ctype
	r := c.Rand("types")
	for i := 0; i < c.N(1200, 20000); i++ {
		name := fmt.Sprintf("type/%d", i)
		ct := randType(r, ks)
		// not usable before registration
		v := reflect.New(ct.t).Interface()
		if out, err := encoding.Encode(v); err == nil {
			c.Violate(name, "an unregistered type was encoded as %v", out)
		}
		if p := register(ct.code, ct.t, i%2 == 0); p != "" {
			c.Violate(name, "registering a type with fields {%s} was refused: %s", ct.desc, p)
		}
		exercise(c, r, name, ct, 12)
		good = append(good, ct)
		c.Count("types registered", 1)
		if i%3 == 0 {
			refuse(c, r, name, ks, good)
		}
		if c.WantSample() {
			c.Sample(ct.desc)
		}
	}
	for i, t := range []reflect.Type{reflect.TypeFor[deepType](), reflect.TypeFor[twoEmbedded](), reflect.TypeFor[wrapsType](), reflect.TypeFor[embAttrs]()} {
		name := "declared/" + t.Name()
		ct := staticType(t, ks)
		if p := register(ct.code, t, i%2 == 0); p != "" {
			c.Violate(name, "registering a type with fields {%s} was refused: %s", ct.desc, p)
		}
		exercise(c, r, name, ct, 300)
		good = append(good, ct)
		c.Count("types registered", 1)
	}
	// types that have the same name
	for i, ts := range namesakes() {
		for j, t := range ts {
			name := fmt.Sprintf("namesakes/%d/%d", i, j)
			ct := staticType(t, ks)
			if p := register(ct.code, t, r.IntN(2) == 0); p != "" {
				c.Violate(name, "registering a type with fields {%s}, after another of that name, was refused: %s", ct.desc, p)
			}
			good = append(good, ct)
			for _, old := range good[len(good)-1-j:] {
				exercise(c, r, name, old, 20)
			}
			c.Count("types registered", 1)
			c.Count("types of the same name", 1)
		}
	}
	// the built-in types and all earlier custom ones still work
	for i, ct := range good {
		exercise(c, r, fmt.Sprintf("again/%d", i), ct, 1)
	}
	builtinsWork(c, "end")
	concurrentRegistration(c, ks)
	c.Finish(map[string]int64{"types registered": 500, "custom records round-tripped": 5000, "missing required refused": 300,
		"wrong values refused": 3000, "field kind": int64(len(ks)), "registrations refused": 300, "concurrent registrations": 500})
}

func builtinsWork(c *mon.Check, name string) {
	r := rand.New(rand.NewPCG(1, 2))
	for _, t := range gen.Types {
		a := gen.Rand(r, t, "b", 0.5)
		attrs, err := encoding.Encode(recordPtr(a).Interface())
		if err != nil {
			c.Violate(name, "%s can no longer be encoded: %v", t.Name, err)
		}
		out, err := encoding.Decode(attrs)
		if err != nil || gen.Show(out) != a.String() {
			c.Violate(name, "%s is decoded as %s, %v", a, gen.Show(out), err)
		}
	}
}

// refuse attempts a registration that must be refused and checks that it
// changed nothing.
func refuse(c *mon.Check, r *rand.Rand, name string, ks []fkind, good []ctype) {
	old := good[r.IntN(len(good))]
	fresh := randType(r, ks)
	field := func(n string, t reflect.Type, tag string) reflect.StructField {
		return reflect.StructField{Name: n, Type: t, Tag: reflect.StructTag(tag)}
	}
	uniq := reflect.StructField{Name: fmt.Sprintf("Unique%dr", fresh.code), Type: reflect.TypeFor[int]()}
	str := reflect.TypeFor[string]()
	unsupported := []reflect.Type{reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[int](), reflect.TypeFor[uint](), reflect.TypeFor[int8](),
		reflect.TypeFor[uint16](), reflect.TypeFor[[]string](), reflect.TypeFor[map[string]string](), reflect.TypeFor[any](), reflect.TypeFor[func()](),
		reflect.TypeFor[chan int](), reflect.TypeFor[struct{ X int }](), reflect.TypeFor[[4]byte](), reflect.TypeFor[List](), reflect.TypeFor[time.Time]()}
	bad := unsupported[r.IntN(len(unsupported))]
	if r.IntN(2) == 0 {
		bad = reflect.PointerTo(bad)
		if bad == reflect.TypeFor[*List]() {
			bad = reflect.TypeFor[*bool]()
		}
	}
	var kind, p string
	var typ reflect.Type
	code := fresh.code
	switch k := r.IntN(8); k {
	case 0:
		kind, code, typ = "type code of another type", old.code, fresh.t
	case 1:
		kind, code, typ = "type code of a built-in type", uint32(r.IntN(15)), fresh.t
	case 2:
		kind, typ = "type registered already", old.t
	case 3:
		kind = "attribute code used twice"
		typ = reflect.StructOf([]reflect.StructField{field("A", str, `vflow:"7"`), field("M", str, `vflow:"8"`), field("B", reflect.PointerTo(str), `vflow:"7"`), uniq})
		if r.IntN(2) == 0 { // in any order, required or not, also the last of many
			fs := []reflect.StructField{field("A", str, `vflow:"7,required"`), field("M", str, `vflow:"8"`), field("N", str, `vflow:"9,required"`), field("B", str, pick(r, `vflow:"7"`, `vflow:"7,required"`, `vflow:"9"`, `vflow:"8,required"`)), uniq}
			r.Shuffle(len(fs)-1, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			typ = reflect.StructOf(fs)
		}
	case 7:
		kind = "attribute code of the record type"
		typ = reflect.StructOf([]reflect.StructField{field("A", pick(r, str, reflect.TypeFor[*uint32](), reflect.TypeFor[uint32]()), pick(r, `vflow:"0"`, `vflow:"0,required"`)), uniq})
	case 4:
		kind = "attribute code of an embedded struct used again"
		typ = reflect.StructOf([]reflect.StructField{{Name: "EmbTwo", Type: reflect.TypeFor[EmbTwo](), Anonymous: true}, field("B", str, `vflow:"901"`), uniq})
	case 5:
		kind = "unsupported kind " + bad.String()
		typ = reflect.StructOf([]reflect.StructField{field("A", str, `vflow:"7"`), field("B", bad, `vflow:"8"`), uniq})
	case 6:
		tag := []string{`vflow:"x"`, `vflow:"-1"`, `vflow:"4294967296"`, `vflow:"7,requird"`, `vflow:"7,required,required"`, `vflow:"7.5"`,
			`vflow:"7,omitempty"`, `vflow:"7, required"`, `vflow:"7,Required"`, `vflow:",required"`, `vflow:" 7"`, `vflow:"0x7"`, `vflow:"1e2"`}[r.IntN(13)]
		kind = "tag " + tag
		typ = reflect.StructOf([]reflect.StructField{field("A", str, tag), uniq})
	}
	p = register(code, typ, r.IntN(2) == 0)
	if p == "" {
		c.Violate(name, "a registration with code %d was not refused although: %s", code, kind)
	}
	c.Count("registrations refused", 1)
	c.Seen("refusal", strings.Fields(kind)[0]+kind)
	c.Case(kind + fmt.Sprint(r.Uint64()))
	// nothing changed
	exercise(c, r, name+"/after-refusal", old, 2)
	if typ != old.t {
		if out, err := encoding.Encode(reflect.New(typ).Interface()); err == nil {
			c.Violate(name, "a type whose registration was refused (%s) is encoded as %v", kind, out)
		}
	}
	if code == fresh.code {
		if out, err := encoding.Decode(map[any]any{uint32(0): code, uint32(7): "x"}); err == nil {
			c.Violate(name, "a type code whose registration was refused (%s) is decoded as %T", kind, out)
		}
		// and the code is still free
		fresh.desc += "(code after refusal)"
		if p := register(code, fresh.t, true); p != "" {
			c.Violate(name, "after a refused registration (%s) its code cannot be used: %s", kind, p)
		}
		exercise(c, r, name+"/reuse", fresh, 2)
	}
	if r.IntN(10) == 0 {
		builtinsWork(c, name)
	}
}

// concurrentRegistration registers types while others are used. Under the
// race detector it also finds unsynchronized access to the registry.
func concurrentRegistration(c *mon.Check, ks []fkind) {
	for round := 0; round < c.N(40, 400); round++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var ready []ctype
		contested := freshCode()
		var winners atomic.Int32
		for g := 0; g < 4; g++ {
			r := c.Rand("concurrent", round, g)
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := 0; i < 6; i++ {
					ct := randType(r, ks)
					if i == 3 { // all compete for one code
						ct.code = contested
						if register(ct.code, ct.t, false) == "" {
							winners.Add(1)
							exercise(c, r, "concurrent/winner", ct, 2)
						}
						continue
					}
					if p := register(ct.code, ct.t, true); p != "" {
						c.Violate("concurrent", "concurrent registration refused: %s", p)
					}
					mu.Lock()
					ready = append(ready, ct)
					mu.Unlock()
					exercise(c, r, "concurrent", ct, 2)
					c.Count("concurrent registrations", 1)
				}
			}()
			r2 := c.Rand("concurrent-use", round, g)
			go func() {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					builtinsWork(c, "concurrent")
					mu.Lock()
					n := len(ready)
					var ct ctype
					if n > 0 {
						ct = ready[r2.IntN(n)]
					}
					mu.Unlock()
					if n > 0 {
						exercise(c, r2, "concurrent/other", ct, 1)
					}
				}
			}()
		}
		wg.Wait()
		if n := winners.Load(); n != 1 {
			c.Violate("concurrent", "%d of 4 registrations that compete for one type code succeeded", n)
		}
	}
}
