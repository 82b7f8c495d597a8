package codec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

// readJSON parses a JSON text, keeping numbers exact.
func readJSON(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	err := dec.Decode(&v)
	return v, err
}

// jsonTime is the time in microseconds a JSON value stands for.
func jsonTime(v any) (uint64, error) {
	switch v := v.(type) {
	case json.Number:
		var us uint64
		_, err := fmt.Sscan(v.String(), &us)
		return us, err
	case string:
		t, err := time.Parse(time.RFC3339Nano, v)
		if err != nil {
			return 0, err
		}
		if t.Nanosecond()%1000 != 0 {
			return 0, fmt.Errorf("%q is more precise than the protocol", v)
		}
		return uint64(t.UnixMicro()), nil
	}
	return 0, fmt.Errorf("%v (%T) is no time", v, v)
}

// judgeJSON compares the JSON form of a record, parsed, with its content.
func judgeJSON(v any, t gen.Type, a gen.Abs) string {
	obj, ok := v.(map[string]any)
	if !ok {
		return fmt.Sprintf("is not an object but %T", v)
	}
	if obj["ID"] != a.ID {
		return fmt.Sprintf("has the identity %v", obj["ID"])
	}
	known := map[string]bool{"ID": true}
	for _, at := range t.AllAttrs() {
		known[at.Field] = true
		want, set := a.Attrs[at.Code]
		got, present := obj[at.Field]
		present = present && got != nil
		if present != set {
			return fmt.Sprintf("has %s=%v", at.Field, got)
		}
		if !set {
			continue
		}
		same := false
		switch at.Kind {
		case gen.Str:
			same = got == want
		case gen.U64:
			n, ok := got.(json.Number)
			same = ok && n.String() == fmt.Sprint(want)
		case gen.Time:
			us, err := jsonTime(got)
			same = err == nil && us == want
		}
		if !same {
			return fmt.Sprintf("has %s=%v instead of %v", at.Field, got, want)
		}
	}
	for k := range obj {
		if !known[k] {
			return fmt.Sprintf("has an unexpected %q", k)
		}
	}
	return ""
}

// writeJSON writes the JSON form of a record independently: other orders, other
// zones, unset attributes left out or null, as other versions may have done.
func writeJSON(r *rand.Rand, t gen.Type, a gen.Abs) []byte {
	type kv struct {
		k string
		v any
	}
	kvs := []kv{{"ID", a.ID}}
	for _, at := range t.AllAttrs() {
		v, set := a.Attrs[at.Code]
		if !set {
			if r.IntN(2) == 0 {
				kvs = append(kvs, kv{at.Field, nil})
			}
			continue
		}
		if at.Kind == gen.Time {
			us := int64(v.(uint64))
			ts := time.UnixMicro(us).In(time.FixedZone("", (r.IntN(47)-23)*1800))
			if y := ts.Year(); y > 9998 {
				v = us
			} else {
				v = ts.Format([]string{time.RFC3339Nano, "2006-01-02T15:04:05.000000000Z07:00"}[r.IntN(2)])
			}
		}
		kvs = append(kvs, kv{at.Field, v})
	}
	r.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
	var b bytes.Buffer
	b.WriteString("{")
	for i, x := range kvs {
		if i > 0 {
			b.WriteString(",")
		}
		k, _ := json.Marshal(x.k)
		v, _ := json.Marshal(x.v)
		b.Write(k)
		b.WriteString([]string{":", " : ", ":\n"}[r.IntN(3)])
		b.Write(v)
	}
	b.WriteString("}")
	return b.Bytes()
}

func TestA06(t *testing.T) {
	c := mon.Start("A06", "a case is one record or store entry put in its JSON form and read back, read from JSON written independently, or read from JSON that does not fit; distinct by content, non-trivial when an attribute is set or the text does not fit")
	specimens(c, c.N(600, 12000), func(name string, sp specimen) {
		want := sp.abs.String()
		sig := ""
		if len(sp.abs.Attrs) > 0 {
			sig = want
		}
		c.Case(sig)
		if c.WantSample() && len(sp.abs.Attrs) > 2 {
			c.Sample(want)
		}
		r := c.Rand("json", name)
		typ, _ := gen.ByGo(sp.val)
		// written by the repository
		out, err := json.Marshal(sp.val)
		if err != nil {
			c.Violate(name, "%s has no JSON form: %v", want, err)
		}
		if s := gen.Show(sp.val); s != want {
			c.Violate(name, "writing JSON changed the record from %s to %s", want, s)
		}
		v, err := readJSON(out)
		if err != nil {
			c.Violate(name, "the JSON form of %s cannot be read: %v", want, err)
		}
		if bad := judgeJSON(v, typ, sp.abs); bad != "" {
			c.Violate(name, "the JSON form of %s %s: %.2000s", want, bad, out)
		}
		c.Count("forms judged", 1)
		// and read back, and from what others wrote
		for i, text := range [][]byte{out, writeJSON(r, typ, sp.abs)} {
			back := reflect.New(typ.GoT)
			if err := json.Unmarshal(text, back.Interface()); err != nil {
				c.Violate(name, "%s cannot be read from its JSON form %.2000s: %v", want, text, err)
			}
			if s := gen.Show(back.Interface()); s != want {
				c.Violate(name, "%s became %s when read from its JSON form %.2000s", want, s, text)
			}
			c.Count([]string{"read back", "read from others"}[i], 1)
		}
		// in an entry, as the tools exchange it
		rec, ok := sp.val.(vanflow.Record)
		if !ok {
			c.Violate(name, "%T is no record", sp.val)
		}
		src := store.SourceRef{APIVersion: gen.RandString(r), Type: gen.RandString(r), Name: gen.RandString(r)}
		updated := time.UnixMicro(1 + r.Int64N(4e15)).In(time.FixedZone("", (r.IntN(47)-23)*1800))
		var notes map[string]string
		for i := r.IntN(4); i > 0; i-- {
			if notes == nil {
				notes = map[string]string{}
			}
			notes[gen.RandString(r)] = gen.RandString(r)
		}
		entry := store.Entry{Meta: store.Metadata{Source: src, UpdatedAt: updated, Annotations: notes}, TypeMeta: rec.GetTypeMeta(), Record: rec}
		if out, err = json.Marshal([]store.Entry{entry}); err != nil {
			c.Violate(name, "an entry with %s has no JSON form: %v", want, err)
		}
		var parts []struct {
			Meta     store.Metadata
			TypeMeta vanflow.TypeMeta
			Record   json.RawMessage
		}
		if err := json.Unmarshal(out, &parts); err != nil || len(parts) != 1 {
			c.Violate(name, "the JSON form of an entry with %s cannot be read: %v (%.2000s)", want, err, out)
		}
		p := parts[0]
		if p.TypeMeta != (vanflow.TypeMeta{APIVersion: "flow/v1", Type: typ.Name}) || p.Meta.Source != src || !p.Meta.UpdatedAt.Equal(updated) || fmt.Sprint(p.Meta.Annotations) != fmt.Sprint(notes) {
			c.Violate(name, "entry with source %+v, annotations %q, updated %v and record %s: its JSON form is read as %+v %+v", src, notes, updated, want, p.Meta, p.TypeMeta)
		}
		// the names of the parts are what earlier captures have
		var names []struct{ Meta, TypeMeta, Record map[string]any }
		if err := json.Unmarshal(out, &names); err != nil || len(names[0].Meta) != 3 || names[0].TypeMeta["Type"] != typ.Name || names[0].TypeMeta["APIVersion"] != "flow/v1" || names[0].Meta["UpdatedAt"] == nil {
			c.Violate(name, "the JSON form of an entry with %s is not the one of captures: %.2000s", want, out)
		}
		if s, _ := names[0].Meta["Source"].(map[string]any); s["APIVersion"] != src.APIVersion || s["Type"] != src.Type || s["Name"] != src.Name {
			c.Violate(name, "the source of an entry with %s is not as in captures: %.2000s", want, out)
		}
		if v, err = readJSON(p.Record); err != nil {
			c.Violate(name, "the record in the JSON form of an entry with %s cannot be read: %v", want, err)
		}
		if bad := judgeJSON(v, typ, sp.abs); bad != "" {
			c.Violate(name, "the JSON form of an entry with %s %s: %.2000s", want, bad, p.Record)
		}
		c.Count("entries judged", 1)
		// values that do not fit
		for _, at := range typ.AllAttrs() {
			if r.IntN(8) != 0 {
				continue
			}
			var bad []string
			switch at.Kind {
			case gen.Str:
				bad = []string{`1`, `true`, `{}`, `[]`, `["a"]`}
			case gen.U64:
				bad = []string{`"1"`, `-1`, `1.5`, `18446744073709551616`, `true`, `{}`, `[1]`}
			case gen.Time:
				bad = []string{`"yesterday"`, `true`, `{}`, `[]`, `1.5`, `""`, `"2024-13-01T00:00:00Z"`, `"2024-01-01"`, `9223372036854775808`, `1e400`}
			}
			text := fmt.Sprintf(`{"ID":"x",%q:%s}`, at.Field, bad[r.IntN(len(bad))])
			back := reflect.New(typ.GoT)
			var err error
			if p := mon.Try(func() { err = json.Unmarshal([]byte(text), back.Interface()) }); p != "" {
				c.Violate(name, "reading %s from %s crashes: %s", typ.Name, text, p)
			}
			if err == nil {
				c.Violate(name, "reading %s from %s is no error but gives %s", typ.Name, text, gen.Show(back.Interface()))
			}
			c.Count("values refused", 1)
			c.Case(typ.Name + text)
		}
	})
	c.Finish(map[string]int64{"forms judged": 4000, "read back": 4000, "read from others": 4000, "entries judged": 4000, "values refused": 3000})
}
