// Package gen holds the independent specification of VanFlow records (codes,
// attribute codes and wire kinds, written down here from the protocol and not
// taken from the code under test) and generators built on it.
package gen

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
)

// Kind of an attribute on the wire.
type Kind int

const (
	Str  Kind = iota // AMQP string
	U64              // AMQP ulong
	Time             // AMQP ulong, microseconds since the epoch
)

// Attr is one attribute of a record type.
type Attr struct {
	Code  uint32
	Kind  Kind
	Field string // Go field name, the public API
}

// Type is one record type of the protocol.
type Type struct {
	Code  uint32
	Name  string
	Attrs []Attr // without the three base attributes
	GoT   reflect.Type
}

// Base attributes of every record: identity 1, start time 3, end time 4.
var Base = []Attr{{3, Time, "StartTime"}, {4, Time, "EndTime"}}

func s(code uint32, f string) Attr { return Attr{code, Str, f} }
func u(code uint32, f string) Attr { return Attr{code, U64, f} }

func typ(code uint32, rec any, attrs ...Attr) Type {
	t := reflect.TypeOf(rec)
	return Type{Code: code, Name: t.Name(), Attrs: attrs, GoT: t}
}

// Types is the protocol's record table.
var Types = []Type{
	typ(0, vanflow.SiteRecord{}, s(9, "Location"), s(10, "Provider"), s(11, "Platform"), s(12, "Namespace"), s(30, "Name"), s(52, "Version"), s(53, "Policy")),
	typ(1, vanflow.RouterRecord{}, s(2, "Parent"), s(12, "Namespace"), s(13, "Mode"), s(20, "ImageName"), s(21, "ImageVersion"), s(22, "Hostname"), s(30, "Name"), s(32, "BuildVersion")),
	typ(2, vanflow.LinkRecord{}, s(2, "Parent"), s(13, "Mode"), s(30, "Name"), u(33, "LinkCost"), s(34, "Direction")),
	typ(3, vanflow.ControllerRecord{}, s(2, "Parent"), s(20, "ImageName"), s(21, "ImageVersion"), s(22, "Hostname"), s(30, "Name"), s(32, "BuildVersion")),
	typ(4, vanflow.ListenerRecord{}, s(2, "Parent"), s(15, "DestHost"), s(16, "Protocol"), s(18, "DestPort"), s(19, "Address"), u(40, "FlowCountL4"), u(41, "FlowCountL7"), u(42, "FlowRateL4"), u(43, "FlowRateL7")),
	typ(5, vanflow.ConnectorRecord{}, s(2, "Parent"), s(15, "DestHost"), s(16, "Protocol"), s(18, "DestPort"), s(19, "Address"), u(40, "FlowCountL4"), u(41, "FlowCountL7"), u(42, "FlowRateL4"), u(43, "FlowRateL7")),
	typ(6, vanflow.FlowRecord{}, s(2, "Parent"), s(5, "Counterflow"), s(14, "SourceHost"), s(17, "SourcePort"), u(23, "Octets"), u(24, "Latency"), s(29, "Reason"), s(31, "Trace"), u(35, "OctetRate"), u(36, "OctetsOut"), u(37, "OctetsUnacked"), u(38, "WindowClosures"), u(39, "WindowSize"), s(27, "Method"), s(28, "Result")),
	typ(7, vanflow.ProcessRecord{}, s(2, "Parent"), s(13, "Mode"), s(14, "SourceHost"), s(20, "ImageName"), s(21, "ImageVersion"), s(22, "Hostname"), s(30, "Name"), s(46, "Group")),
	typ(8, vanflow.ImageRecord{}),
	typ(9, vanflow.IngressRecord{}),
	typ(10, vanflow.EgressRecord{}),
	typ(11, vanflow.CollectorRecord{}),
	typ(12, vanflow.ProcessGroupRecord{}),
	typ(13, vanflow.HostRecord{}, s(10, "Provider"), s(30, "Name")),
	typ(14, vanflow.LogRecord{}, u(48, "LogSeverity"), s(49, "LogText"), s(50, "SourceFile"), u(51, "SourceLine")),
}

// AllAttrs are the attributes of t, the base ones included (identity apart).
func (t Type) AllAttrs() []Attr { return append(append([]Attr{}, Base...), t.Attrs...) }

// ByGo finds the table entry of a record value.
func ByGo(r any) (Type, bool) {
	rt := reflect.TypeOf(r)
	if rt == nil {
		return Type{}, false
	}
	if rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	for _, t := range Types {
		if t.GoT == rt {
			return t, true
		}
	}
	return Type{}, false
}

// ByCode finds the table entry of a record type code.
func ByCode(code uint32) (Type, bool) {
	for _, t := range Types {
		if t.Code == code {
			return t, true
		}
	}
	return Type{}, false
}

// Abs is the abstract content of a record: its type, identity and the
// attributes that are set, by code. Values are string or uint64 (times in
// microseconds).
type Abs struct {
	Type  string
	ID    string
	Attrs map[uint32]any
}

// Of reads the abstract content of a record through its public fields.
func Of(r any) (Abs, error) {
	t, ok := ByGo(r)
	if !ok {
		return Abs{}, fmt.Errorf("not a built-in record: %T", r)
	}
	v := reflect.ValueOf(r)
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return Abs{}, fmt.Errorf("nil %T", r)
		}
		v = v.Elem()
	}
	a := Abs{Type: t.Name, ID: v.FieldByName("ID").String(), Attrs: map[uint32]any{}}
	for _, at := range t.AllAttrs() {
		f := v.FieldByName(at.Field)
		if !f.IsValid() {
			return a, fmt.Errorf("%s has no field %s", t.Name, at.Field)
		}
		if f.IsNil() {
			continue
		}
		switch at.Kind {
		case Str:
			a.Attrs[at.Code] = f.Elem().String()
		case U64:
			a.Attrs[at.Code] = f.Elem().Uint()
		case Time:
			tm := f.Interface().(*vanflow.Time)
			if tm.IsZero() {
				continue // the Go notation for "no time"
			}
			a.Attrs[at.Code] = uint64(tm.UnixMicro())
		}
	}
	return a, nil
}

// MustOf is Of for records that are known to be built in.
func MustOf(r any) Abs {
	a, err := Of(r)
	if err != nil {
		panic(err)
	}
	return a
}

// Record builds the Go record with the given content, as a pointer or value.
func (a Abs) Record(pointer bool) vanflow.Record {
	var t Type
	for _, x := range Types {
		if x.Name == a.Type {
			t = x
		}
	}
	p := reflect.New(t.GoT)
	v := p.Elem()
	v.FieldByName("ID").SetString(a.ID)
	for _, at := range t.AllAttrs() {
		val, ok := a.Attrs[at.Code]
		if !ok {
			continue
		}
		f := v.FieldByName(at.Field)
		switch at.Kind {
		case Str:
			x := val.(string)
			f.Set(reflect.ValueOf(&x))
		case U64:
			x := val.(uint64)
			f.Set(reflect.ValueOf(&x))
		case Time:
			f.Set(reflect.ValueOf(&vanflow.Time{Time: time.UnixMicro(int64(val.(uint64)))}))
		}
	}
	if pointer {
		r, _ := p.Interface().(vanflow.Record)
		return r
	}
	r, _ := v.Interface().(vanflow.Record)
	return r
}

// Wire is the map the record must have on the wire.
func (a Abs) Wire() map[any]any {
	m := map[any]any{uint32(1): a.ID}
	for _, t := range Types {
		if t.Name == a.Type {
			m[uint32(0)] = t.Code
		}
	}
	for k, v := range a.Attrs {
		m[k] = v
	}
	return m
}

// FromWire reads the abstract content of a wire map. It is strict.
func FromWire(m map[any]any) (Abs, error) {
	var a Abs
	code, ok := m[uint32(0)].(uint32)
	if !ok {
		return a, fmt.Errorf("type code is %T(%v)", m[uint32(0)], m[uint32(0)])
	}
	t, ok := ByCode(code)
	if !ok {
		return a, fmt.Errorf("unknown type code %d", code)
	}
	a.Type = t.Name
	a.Attrs = map[uint32]any{}
	kinds := map[uint32]Kind{}
	for _, at := range t.AllAttrs() {
		kinds[at.Code] = at.Kind
	}
	for k, v := range m {
		kc, ok := k.(uint32)
		if !ok {
			return a, fmt.Errorf("key of type %T(%v)", k, k)
		}
		switch {
		case kc == 0:
		case kc == 1:
			if a.ID, ok = v.(string); !ok {
				return a, fmt.Errorf("identity is %T", v)
			}
		default:
			kind, ok := kinds[kc]
			if !ok {
				return a, fmt.Errorf("%s has no attribute %d", t.Name, kc)
			}
			switch kind {
			case Str:
				_, ok = v.(string)
			default:
				_, ok = v.(uint64)
			}
			if !ok {
				return a, fmt.Errorf("%s attribute %d is %T", t.Name, kc, v)
			}
			a.Attrs[kc] = v
		}
	}
	if _, ok := m[uint32(1)]; !ok {
		return a, fmt.Errorf("no identity")
	}
	return a, nil
}

// String is a canonical rendering: equal content, equal string.
func (a Abs) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s(%q", a.Type, a.ID)
	codes := make([]int, 0, len(a.Attrs))
	for c := range a.Attrs {
		codes = append(codes, int(c))
	}
	sort.Ints(codes)
	for _, c := range codes {
		switch v := a.Attrs[uint32(c)].(type) {
		case string:
			fmt.Fprintf(&b, " %d=%q", c, v)
		default:
			fmt.Fprintf(&b, " %d=%v", c, v)
		}
	}
	b.WriteString(")")
	return b.String()
}

// Show renders any record canonically.
func Show(r any) string {
	a, err := Of(r)
	if err != nil {
		return fmt.Sprintf("%T(%v)", r, err)
	}
	return a.String()
}

// Clone copies a.
func (a Abs) Clone() Abs {
	m := make(map[uint32]any, len(a.Attrs))
	for k, v := range a.Attrs {
		m[k] = v
	}
	a.Attrs = m
	return a
}

// Merge is the attribute-wise merge of a report into a.
func (a Abs) Merge(rep Abs) Abs {
	n := a.Clone()
	for k, v := range rep.Attrs {
		n.Attrs[k] = v
	}
	return n
}

// Delta is the minimal report that turns a into b (same type and identity).
func (a Abs) Delta(b Abs) Abs {
	d := Abs{Type: b.Type, ID: b.ID, Attrs: map[uint32]any{}}
	for k, v := range b.Attrs {
		if pv, ok := a.Attrs[k]; !ok || pv != v {
			d.Attrs[k] = v
		}
	}
	return d
}

// MaxTime is the largest time generated: it still fits a signed 64-bit
// microsecond count.
const MaxTime = uint64(math.MaxInt64)

var strs = []string{"", "a", "name", "\x00", "with space", "Ünï©ødé", "日本語", "mc/sfe.x", "\"quoted\"", "\n\t\r", "0", "\u2028", "😀"}

// RandString draws an attribute text: empty, short, special or long.
func RandString(r *rand.Rand) string {
	switch r.IntN(10) {
	case 0, 1, 2, 3:
		return strs[r.IntN(len(strs))]
	case 4:
		if r.IntN(12) == 0 {
			return strings.Repeat("long ", 1+r.IntN(5000))
		}
		return strings.Repeat(strs[r.IntN(len(strs))], 1+r.IntN(300)) // past the str8 limit
	default:
		n := 1 + r.IntN(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}
		return string(b)
	}
}

var u64s = []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, math.MaxUint64}

// RandU64 draws an integer with weight on the edges.
func RandU64(r *rand.Rand) uint64 {
	if r.IntN(3) == 0 {
		return r.Uint64()
	}
	return u64s[r.IntN(len(u64s))]
}

var times = []uint64{0, 1, 999, 1000, 999999, 1000000, 1<<31*1000000 - 1, 1 << 31 * 1000000, 1700000000123456, 253402300799999999, 253402300800000000, MaxTime - 1, MaxTime}

// RandTime draws a time in microseconds since the epoch.
func RandTime(r *rand.Rand) uint64 {
	if r.IntN(3) == 0 {
		return r.Uint64() >> (1 + r.IntN(30))
	}
	return times[r.IntN(len(times))]
}

// RandValue draws a value of a kind.
func RandValue(r *rand.Rand, k Kind) any {
	switch k {
	case Str:
		return RandString(r)
	case U64:
		return RandU64(r)
	default:
		return RandTime(r)
	}
}

// Similar draws a value that differs from another as little as can be.
func Similar(r *rand.Rand, k Kind, v any) any {
	switch x := v.(type) {
	case string:
		if len(x) < 20 && r.IntN(2) == 0 {
			x = strings.Repeat(x+"0123456789abcdef", 1+r.IntN(20))
		}
		if x == "" {
			return " "
		}
		b := []byte(x)
		i := []int{len(b) - 1, 0, len(b) / 2, r.IntN(len(b))}[r.IntN(4)]
		switch r.IntN(5) {
		case 0:
			return x + string(rune('a'+r.IntN(26)))
		case 1:
			for i > 0 && b[i] >= 0x80 {
				i--
			}
			if b[i] < 0x80 {
				return string(b[:i]) + string(b[i+1:])
			}
			return x + " "
		}
		for i > 0 && b[i] >= 0x80 {
			i--
		}
		if b[i] >= 0x80 {
			return x + "."
		}
		b[i] = 'a' + (b[i]+1)%26
		return string(b)
	case uint64:
		if k == U64 {
			return x ^ 1<<r.IntN(64)
		}
		return x ^ 1<<r.IntN(50) // times, which have an end
	}
	return RandValue(r, k)
}

// RandID draws a non-empty identity.
func RandID(r *rand.Rand) string {
	for {
		if s := RandString(r); s != "" {
			return s
		}
	}
}

// Rand draws a record of a type: each attribute set with probability p.
func Rand(r *rand.Rand, t Type, id string, p float64) Abs {
	a := Abs{Type: t.Name, ID: id, Attrs: map[uint32]any{}}
	for _, at := range t.AllAttrs() {
		if r.Float64() < p {
			a.Attrs[at.Code] = RandValue(r, at.Kind)
		}
	}
	return a
}
