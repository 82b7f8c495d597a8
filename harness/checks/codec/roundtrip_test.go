package codec

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
)

// specimen is one record to check: its abstract content and the Go value.
type specimen struct {
	abs gen.Abs
	val any // the record as handed to Encode: pointer or value
}

// specimens enumerates single attributes with every edge value, and then draws
// random combinations, for every record type.
func specimens(c *mon.Check, perType int, f func(name string, sp specimen)) {
	for _, t := range gen.Types {
		r := c.Rand("specimens", t.Name)
		n := 0
		emit := func(a gen.Abs) {
			n++
			name := fmt.Sprintf("%s/%d", t.Name, n)
			if c.Skip(name) {
				return
			}
			var val any
			p := recordPtr(a)
			if val = p.Interface(); n%2 == 0 {
				val = p.Elem().Interface()
			}
			f(name, specimen{a, val})
		}
		emit(gen.Rand(r, t, "id", 0))
		for _, at := range t.AllAttrs() {
			for i := 0; i < 24; i++ {
				emit(gen.Abs{Type: t.Name, ID: gen.RandID(r), Attrs: map[uint32]any{at.Code: gen.RandValue(r, at.Kind)}})
			}
			zero := map[gen.Kind]any{gen.Str: "", gen.U64: uint64(0), gen.Time: uint64(0)}[at.Kind]
			emit(gen.Abs{Type: t.Name, ID: "z", Attrs: map[uint32]any{at.Code: zero}})
			emit(gen.Abs{Type: t.Name, ID: "z", Attrs: map[uint32]any{at.Code: zero}})
		}
		// longer than any short form, or buffer
		for i, n := range []int{65535, 65536, 100003, 1 << 20} {
			long := strings.Repeat("a long 名 ", n/10) + strings.Repeat("x", n%10)
			a := gen.Rand(r, t, "x"+long[i:], 0)
			for _, at := range t.AllAttrs() {
				if at.Kind == gen.Str && (i < 2 || r.IntN(4) == 0) {
					a.Attrs[at.Code] = long
				}
			}
			emit(a)
		}
		for i := 0; i < perType; i++ {
			emit(gen.Rand(r, t, gen.RandID(r), []float64{0.1, 0.5, 0.9, 1}[i%4]))
		}
	}
}

// recordPtr builds the Go record without requiring it to be a vanflow.Record.
func recordPtr(a gen.Abs) reflect.Value {
	for _, t := range gen.Types {
		if t.Name == a.Type {
			p := reflect.New(t.GoT)
			p.Elem().FieldByName("ID").SetString(a.ID)
			for _, at := range t.AllAttrs() {
				v, ok := a.Attrs[at.Code]
				if !ok {
					continue
				}
				fld := p.Elem().FieldByName(at.Field)
				switch at.Kind {
				case gen.Str:
					x := v.(string)
					fld.Set(reflect.ValueOf(&x))
				case gen.U64:
					x := v.(uint64)
					fld.Set(reflect.ValueOf(&x))
				case gen.Time:
					fld.Set(reflect.ValueOf(&vanflow.Time{Time: time.UnixMicro(int64(v.(uint64)))}))
				}
			}
			return p
		}
	}
	panic("no type " + a.Type)
}

// viaAMQP passes a message through its binary form.
func viaAMQP(m *amqp.Message) (*amqp.Message, error) {
	b, err := m.MarshalBinary()
	if err != nil {
		return nil, fmt.Errorf("marshal: %w", err)
	}
	var out amqp.Message
	if err := out.UnmarshalBinary(b); err != nil {
		return nil, fmt.Errorf("unmarshal: %w", err)
	}
	return &out, nil
}

// scribble overwrites every attribute the record holds in place.
func scribble(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).Anonymous {
			scribble(f)
			continue
		}
		if f.Kind() == reflect.Pointer && !f.IsNil() {
			switch x := f.Interface().(type) {
			case *string:
				*x += "changed"
			case *uint64:
				*x++
			case *vanflow.Time:
				x.Time = x.Time.Add(time.Hour)
			}
		}
	}
}

func TestA01(t *testing.T) {
	c := mon.Start("A01", "a case is one record (type, identity, set of attributes with values) encoded and decoded in memory and through binary AMQP; distinct by its canonical content; non-trivial when at least one attribute is set")
	specimens(c, c.N(600, 12000), func(name string, sp specimen) {
		want := sp.abs.String()
		sig := ""
		if len(sp.abs.Attrs) > 0 {
			sig = want
		}
		c.Case(sig)
		if c.WantSample() && len(sp.abs.Attrs) > 2 {
			c.Sample(want)
		}
		attrs, err := encoding.Encode(sp.val)
		if err != nil {
			c.Violate(name, "encoding %s failed: %v", want, err)
		}
		got, err := encoding.Decode(attrs)
		if err != nil {
			c.Violate(name, "decoding the encoded form of %s failed: %v (form %v)", want, err, attrs)
		}
		checkDecoded(c, name, "in memory", sp, got)
		// nothing is shared with another decoded record or with the encoded form
		if again, err := encoding.Decode(attrs); err != nil {
			c.Violate(name, "decoding the encoded form of %s a second time failed: %v", want, err)
		} else {
			scribble(reflect.ValueOf(again).Elem())
			if s := gen.Show(got); s != want {
				c.Violate(name, "changing another record decoded from the same form changed %s to %s", want, s)
			}
			if again, err := encoding.Decode(attrs); err != nil || gen.Show(again) != want {
				c.Violate(name, "after a decoded record was changed the form of %s is decoded as %s, %v", want, gen.Show(again), err)
			}
			c.Count("decoded records changed", 1)
		}
		// the encoded record itself must not have been touched
		if s := gen.Show(sp.val); s != want {
			c.Violate(name, "encoding changed the record from %s to %s", want, s)
		}
		m, err := viaAMQP(&amqp.Message{Value: []any{map[any]any(attrs)}})
		if err != nil {
			c.Violate(name, "%s cannot be written as AMQP: %v", want, err)
		}
		list, _ := m.Value.([]any)
		if len(list) != 1 {
			c.Violate(name, "%s came back from AMQP as %#v", want, m.Value)
		}
		bm, ok := list[0].(map[any]any)
		if !ok {
			c.Violate(name, "%s came back from AMQP as %T", want, list[0])
		}
		got, err = encoding.Decode(bm)
		if err != nil {
			c.Violate(name, "decoding %s after binary AMQP failed: %v", want, err)
		}
		checkDecoded(c, name, "through binary AMQP", sp, got)
		// as part of a record message
		if rec, ok := sp.val.(vanflow.Record); ok {
			msg, err := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: "x"}, Records: []vanflow.Record{rec}}.Encode()
			if err != nil {
				c.Violate(name, "record message with %s: %v", want, err)
			}
			if msg, err = viaAMQP(msg); err != nil {
				c.Violate(name, "record message with %s: %v", want, err)
			}
			dec, err := vanflow.Decode(msg)
			rm, _ := dec.(vanflow.RecordMessage)
			if err != nil || len(rm.Records) != 1 {
				c.Violate(name, "record message with %s decoded as %#v, %v", want, dec, err)
			}
			checkDecoded(c, name, "in a record message", sp, rm.Records[0])
			c.Count("record messages", 1)
		} else {
			c.Violate(name, "%T is a built-in record type but not a vanflow.Record: it can be sent in no record message", sp.val)
		}
		c.Count("attributes round-tripped", len(sp.abs.Attrs))
		for code, v := range sp.abs.Attrs {
			c.Seen("type and attribute", fmt.Sprint(sp.abs.Type, code))
			if v == "" || v == uint64(0) {
				c.Seen("explicit zero of", fmt.Sprint(sp.abs.Type, code))
			}
		}
	})
	timePrecision(c)
	// built-in types that cannot carry attributes have only base ones
	c.Finish(map[string]int64{"type and attribute": 80, "explicit zero of": 80, "record messages": 1000})
}

func checkDecoded(c *mon.Check, name, how string, sp specimen, got any) {
	gt, ok := gen.ByGo(got)
	if !ok || gt.Name != sp.abs.Type {
		c.Violate(name, "%s decoded %s as a %T", sp.abs, how, got)
	}
	if s := gen.Show(got); s != sp.abs.String() {
		c.Violate(name, "round trip %s changed a record\n before: %s\n after:  %s", how, sp.abs, s)
	}
}

// timePrecision uses times with nanoseconds, zones and monotonic readings.
func timePrecision(c *mon.Check) {
	r := c.Rand("times")
	n := c.N(2000, 50000)
	zones := []*time.Location{time.UTC, time.FixedZone("e", 3600*5+1800), time.FixedZone("w", -11*3600)}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("time/%d", i)
		us := gen.RandTime(r)
		ns := int64(r.IntN(1000))
		tm := time.UnixMicro(int64(us)).Add(time.Duration(ns)).In(zones[r.IntN(len(zones))])
		if us > gen.MaxTime-2 {
			tm = time.UnixMicro(int64(us))
		}
		if r.IntN(50) == 0 {
			tm = time.Now() // with a monotonic reading
			us = uint64(tm.UnixMicro())
		}
		rec := vanflow.NewBase("t", tm, tm)
		attrs, err := encoding.Encode(vanflow.SiteRecord{BaseRecord: rec})
		if err != nil {
			c.Violate(name, "time %v cannot be encoded: %v", tm, err)
		}
		out, err := encoding.Decode(attrs)
		if err != nil {
			c.Violate(name, "time %v cannot be decoded: %v", tm, err)
		}
		s := out.(*vanflow.SiteRecord)
		if s.StartTime == nil || s.EndTime == nil || s.StartTime.UnixMicro() != int64(us) || s.EndTime.UnixMicro() != int64(us) {
			c.Violate(name, "time %v (%d us) came back as %v/%v", tm, us, s.StartTime, s.EndTime)
		}
		if i%10 == 0 {
			c.Tick()
		}
		c.Count("times", 1)
	}
}

func TestA02(t *testing.T) {
	c := mon.Start("A02", "a case is one record whose encoded map is compared with the map the protocol table prescribes, and whose prescribed map, as written by an independent AMQP writer, is decoded; distinct by canonical content, non-trivial when an attribute is set")
	rr := c.Rand("writer")
	specimens(c, c.N(600, 12000), func(name string, sp specimen) {
		want := sp.abs.Wire()
		sig := ""
		if len(sp.abs.Attrs) > 0 {
			sig = sp.abs.String()
		}
		c.Case(sig)
		attrs, err := encoding.Encode(sp.val)
		if err != nil {
			c.Violate(name, "encoding %s failed: %v", sp.abs, err)
		}
		compareWire(c, name, sp, map[any]any(attrs), want)
		if c.WantSample() && len(sp.abs.Attrs) > 1 {
			c.Sample(fmt.Sprintf("%s -> %v", sp.abs, want))
		}
		// the AMQP bytes, read by an independent reader
		b, err := (&amqp.Message{Value: []any{map[any]any(attrs)}}).MarshalBinary()
		if err != nil {
			c.Violate(name, "%s cannot be written: %v", sp.abs, err)
		}
		wire, err := readRecordBytes(b)
		if err != nil {
			c.Violate(name, "bytes of %s: %v", sp.abs, err)
		}
		compareWire(c, name, sp, wire, want)
		// a peer's bytes, in any of the encodings AMQP allows
		var m amqp.Message
		if err := m.UnmarshalBinary(writeRecordBytes(rr, want)); err != nil {
			c.Inconclusive("independent writer: %v", err)
		}
		list, _ := m.Value.([]any)
		if len(list) != 1 {
			c.Inconclusive("independent writer: %v", m.Value)
		}
		got, err := encoding.Decode(list[0].(map[any]any))
		if err != nil {
			c.Violate(name, "decoding a peer's %s failed: %v", sp.abs, err)
		}
		if s := gen.Show(got); s != sp.abs.String() {
			c.Violate(name, "a peer's record %s was read as %s", sp.abs, s)
		}
		for code := range sp.abs.Attrs {
			c.Seen("type and attribute", fmt.Sprint(sp.abs.Type, code))
		}
		c.Count("wire attributes compared", len(want))
	})
	c.Finish(map[string]int64{"type and attribute": 80, "wire attributes compared": 10000})
}

func compareWire(c *mon.Check, name string, sp specimen, got, want map[any]any) {
	for k, v := range got {
		if _, ok := k.(uint32); !ok {
			c.Violate(name, "%s has key %v of type %T on the wire", sp.abs, k, k)
		}
		w, ok := want[k]
		if !ok {
			c.Violate(name, "%s has the unexpected code %v=%v on the wire", sp.abs, k, v)
		}
		if reflect.TypeOf(v) != reflect.TypeOf(w) || v != w {
			c.Violate(name, "%s has %v=%T(%v) on the wire, the protocol wants %T(%v)", sp.abs, k, v, v, w, w)
		}
	}
	for k, w := range want {
		if _, ok := got[k]; !ok {
			c.Violate(name, "%s misses code %v=%v on the wire", sp.abs, k, w)
		}
	}
}
