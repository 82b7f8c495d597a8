package stores

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/store"
)

// keyFuncs are the configurations of the merge monitor. Each gives the key of
// an entry from the parts that every operation knows.
var keyFuncs = []struct {
	name string
	fn   store.KeyFunc
	key  func(src store.SourceRef, a gen.Abs) string
}{
	{"default", nil, func(_ store.SourceRef, a gen.Abs) string { return a.ID }},
	{"record type and identity",
		func(e store.Entry) (string, error) {
			return fmt.Sprintf("%s#%s", e.Record.GetTypeMeta(), e.Record.Identity()), nil
		},
		func(_ store.SourceRef, a gen.Abs) string { return a.Type + "#" + a.ID }},
	{"entry type and identity",
		func(e store.Entry) (string, error) { return fmt.Sprintf("%s#%s", e.TypeMeta, e.Record.Identity()), nil },
		func(_ store.SourceRef, a gen.Abs) string { return a.Type + "#" + a.ID }},
	{"source and identity",
		func(e store.Entry) (string, error) {
			return fmt.Sprintf("%s#%s", e.Meta.Source, e.Record.Identity()), nil
		},
		func(src store.SourceRef, a gen.Abs) string { return src.String() + "#" + a.ID }},
}

type modelEntry struct {
	abs gen.Abs
	src store.SourceRef
	ann string
	typ vanflow.TypeMeta
}

func TestB04(t *testing.T) {
	c := mon.Start("B04", "a case is one history of accumulated partial records, mixed with add, update and delete, compared with an attribute-wise merge after every step; distinct by history")
	for i := 0; i < c.N(4000, 80000); i++ {
		name := fmt.Sprintf("merge/%d", i)
		if !c.Skip(name) {
			mergeHistory(c, name, i)
		}
	}
	for i := 0; i < c.N(1500, 30000); i++ {
		name := fmt.Sprintf("unmergeable/%d", i)
		if !c.Skip(name) {
			unmergeable(c, name, i)
		}
	}
	c.Finish(map[string]int64{
		"reports that changed something": 10000, "reports that changed nothing": 3000, "first reports": 3000,
		"attributes compared": 100000, "unmergeable reports": 3000, "update times": 20000, "distinct record types": 15,
	})
}

func typesUnderTest() []gen.Type {
	var ts []gen.Type
	for _, t := range gen.Types {
		if (gen.Abs{Type: t.Name, ID: "x"}).Record(true) != nil {
			ts = append(ts, t)
		}
	}
	return ts
}

func mergeHistory(c *mon.Check, name string, i int) {
	r := c.Rand("merge", i)
	kf := keyFuncs[r.IntN(len(keyFuncs))]
	cfg := store.CacheConfig{Key: kf.fn}
	s := store.NewDefaultCachingStore(cfg)
	all := typesUnderTest()
	t := pick(r, all)
	c.Seen("distinct record types", t.Name)
	other := pick(r, all)
	model := map[string]modelEntry{}
	ids := []string{"x", "y", gen.RandID(r)}
	if r.IntN(3) == 0 { // identities that only look alike
		ids = [][]string{{"x", "X", "y"}, {"x", "x ", " x"}, {"x", "x\x00", "x\x00y"}, {"\u00e9", "e\u0301", "E"}, {"a/b", "a", "b"}, {"1", "01", "1.0"}}[r.IntN(6)]
	}
	var hist []string
	lookup := func(src store.SourceRef, a gen.Abs) store.Single {
		rec := a.Record(true)
		g, err := s.Get(ctx, store.Entry{Record: rec, TypeMeta: rec.GetTypeMeta(), Meta: store.Metadata{Source: src}})
		if err != nil {
			c.Violate(name, "get: %v", err)
		}
		return g
	}
	for n := 0; n < 24; n++ {
		src := source(1 + r.IntN(2))
		if r.IntN(6) == 0 {
			src = pick(r, []store.SourceRef{{}, {Name: "s1"}, {APIVersion: "1", Type: "T"}})
		}
		ty := t
		if kf.name == "record type and identity" || kf.name == "entry type and identity" {
			if r.IntN(3) == 0 {
				ty = other
			}
		}
		id := ids[r.IntN(len(ids))]
		rep := gen.Rand(r, ty, id, []float64{0, 0.15, 0.5, 1}[r.IntN(4)])
		key := kf.key(src, rep)
		cur, present := model[key]
		what := ""
		// callers may hand over entries with times of their own
		given := pick(r, []time.Time{{}, {}, time.Unix(1000, 0), time.Now().Add(-time.Hour), time.Now().Add(time.Hour)})
		t0 := time.Now()
		stamped := func() {
			t1 := time.Now()
			if at := lookup(src, rep).Meta.UpdatedAt; at.Before(t0) || at.After(t1) {
				c.Violate(name, "%s\nthen %s, at %s, but the entry's update time is %s", strings.Join(hist, "\n"), what, t0, at)
			}
			c.Count("update times", 1)
		}
		switch x := r.IntN(12); {
		case x == 0:
			what = "delete " + key
			rec := rep.Record(r.IntN(2) == 0)
			if err := s.Delete(ctx, store.Entry{Record: rec, TypeMeta: rec.GetTypeMeta(), Meta: store.Metadata{Source: src}}); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			delete(model, key)
		case x == 1:
			ann := fmt.Sprintf("ann%d", n)
			rec := rep.Record(r.IntN(2) == 0)
			e := store.Entry{Record: rec, TypeMeta: rec.GetTypeMeta(), Meta: store.Metadata{Source: src, UpdatedAt: given, Annotations: map[string]string{"a": ann}}}
			what = fmt.Sprintf("add %s from %s", rep, src)
			err := s.Add(ctx, e)
			if (err == nil) == present {
				c.Violate(name, "%s\nthen %s: present=%v but %v", strings.Join(hist, "\n"), what, present, err)
			}
			if !present {
				model[key] = modelEntry{rep.Clone(), src, ann, rec.GetTypeMeta()}
				stamped()
			}
		case x == 2:
			ann := fmt.Sprintf("ann%d", n)
			rec := rep.Record(r.IntN(2) == 0)
			what = fmt.Sprintf("update %s from %s", rep, src)
			if err := s.Update(ctx, store.Entry{Record: rec, TypeMeta: rec.GetTypeMeta(), Meta: store.Metadata{Source: src, UpdatedAt: given, Annotations: map[string]string{"a": ann}}}); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			model[key] = modelEntry{rep.Clone(), src, ann, rec.GetTypeMeta()}
			stamped()
		default:
			if present {
				switch r.IntN(5) {
				case 0: // exactly what is there
					rep = cur.abs.Clone()
				case 1: // part of what is there
					rep = cur.abs.Clone()
					for k := range rep.Attrs {
						if r.IntN(2) == 0 {
							delete(rep.Attrs, k)
						}
					}
				case 2: // one attribute changes
					rep = cur.abs.Clone()
					at := pick(r, ty.AllAttrs())
					if ty.Name == cur.abs.Type {
						if v, ok := rep.Attrs[at.Code]; ok && r.IntN(2) == 0 {
							rep.Attrs[at.Code] = gen.Similar(r, at.Kind, v)
						} else {
							rep.Attrs[at.Code] = gen.RandValue(r, at.Kind)
						}
					}
				case 3: // everything changes a little
					rep = cur.abs.Clone()
					if ty.Name == cur.abs.Type {
						for _, at := range ty.AllAttrs() {
							if v, ok := rep.Attrs[at.Code]; ok {
								rep.Attrs[at.Code] = gen.Similar(r, at.Kind, v)
							}
						}
					}
				}
			}
			what = fmt.Sprintf("accumulate %s from %s", rep, src)
			before := lookup(src, rep)
			rec := rep.Record(r.IntN(2) == 0)
			if err := s.Accumulate(src, rec); err != nil {
				c.Violate(name, "%s\nthen %s: %v", strings.Join(hist, "\n"), what, err)
			}
			if got, want := gen.Show(rec), rep.String(); got != want {
				c.Violate(name, "%s\nthen %s changed the reported record to %s", strings.Join(hist, "\n"), what, got)
			}
			after := lookup(src, rep)
			if !present {
				model[key] = modelEntry{rep.Clone(), src, "", rec.GetTypeMeta()}
				c.Count("first reports", 1)
				stamped()
			} else {
				next := cur.abs.Merge(rep)
				model[key] = modelEntry{next, cur.src, cur.ann, cur.typ}
				if next.String() == cur.abs.String() {
					c.Count("reports that changed nothing", 1)
					if before.ETag != after.ETag || !before.Meta.UpdatedAt.Equal(after.Meta.UpdatedAt) {
						c.Violate(name, "%s\nthen %s changed nothing, but the tag went %s -> %s and the update time %s -> %s", strings.Join(hist, "\n"), what, before.ETag, after.ETag, before.Meta.UpdatedAt, after.Meta.UpdatedAt)
					}
				} else {
					c.Count("reports that changed something", 1)
					if before.ETag == after.ETag {
						c.Violate(name, "%s\nthen %s changed the entry but not its tag", strings.Join(hist, "\n"), what)
					}
					stamped()
				}
			}
		}
		hist = append(hist, what)
		// everything, under every key, is as the model says
		set, err := s.List(ctx, nil)
		if err != nil {
			c.Violate(name, "list: %v", err)
		}
		if len(set.Entries) != len(model) {
			c.Violate(name, "%s\nwith the key function %q the store has %d entries, want %d", strings.Join(hist, "\n"), kf.name, len(set.Entries), len(model))
		}
		for key, m := range model {
			g := lookup(m.src, m.abs)
			if !g.Found {
				c.Violate(name, "%s\nwith the key function %q nothing is found at %s", strings.Join(hist, "\n"), kf.name, key)
			}
			if got := gen.Show(g.Record); got != m.abs.String() {
				c.Violate(name, "%s\nwith the key function %q entry %s is\n  %s\nwant\n  %s", strings.Join(hist, "\n"), kf.name, key, got, m.abs)
			}
			if g.Meta.Source != m.src || g.Meta.Annotations["a"] != m.ann {
				c.Violate(name, "%s\nentry %s has source %s and annotations %v, want %s and %q", strings.Join(hist, "\n"), key, g.Meta.Source, g.Meta.Annotations, m.src, m.ann)
			}
			c.Count("attributes compared", len(m.abs.Attrs)+1)
		}
	}
	c.Case(strings.Join(hist, "|"))
	if c.WantSample() {
		c.Sample(hist)
	}
}

// Records that cannot be merged.

// Unregistered has no codec.
type Unregistered struct{ vanflow.BaseRecord }

func (Unregistered) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "verif", Type: "Unregistered"}
}

// Fussy has an attribute whose codec refuses some values.
type Fussy struct {
	vanflow.BaseRecord
	Mood Mood   `vflow:"20"`
	Tags Tags   `vflow:"21"`
	Text string `vflow:"22"`
}

func (Fussy) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "verif", Type: "Fussy"}
}

// Mood cannot be encoded when "mute" and not be decoded when "deaf".
type Mood string

func (m Mood) EncodeRecordAttribute() (any, error) {
	switch m {
	case "":
		return nil, encoding.ErrAttributeNotSet
	case "mute":
		return nil, fmt.Errorf("cannot say")
	}
	return string(m), nil
}

func (m *Mood) DecodeRecordAttribute(a any) error {
	s, ok := a.(string)
	if !ok || s == "deaf" {
		return fmt.Errorf("cannot hear")
	}
	*m = Mood(s)
	return nil
}

// Tags is encoded as a list, which Go cannot compare with ==.
type Tags []string

func (t Tags) EncodeRecordAttribute() (any, error) {
	if t == nil {
		return nil, encoding.ErrAttributeNotSet
	}
	out := make([]any, len(t))
	for i := range t {
		out[i] = t[i]
	}
	return out, nil
}

func (t *Tags) DecodeRecordAttribute(a any) error {
	l, ok := a.([]any)
	if !ok {
		return fmt.Errorf("not a list: %T", a)
	}
	out := make(Tags, len(l))
	for i := range l {
		if out[i], ok = l[i].(string); !ok {
			return fmt.Errorf("not a text: %T", l[i])
		}
	}
	*t = out
	return nil
}

func init() { encoding.MustRegisterRecord(0x7fff0001, Fussy{}) }

func fussyOf(r vanflow.Record) Fussy {
	switch f := r.(type) {
	case Fussy:
		return f
	case *Fussy:
		return *f
	}
	return Fussy{Text: fmt.Sprintf("%T", r)}
}

func showFussy(f Fussy) string {
	return fmt.Sprintf("%s mood=%q tags=%q text=%q", f.ID, f.Mood, f.Tags, f.Text)
}

func unmergeable(c *mon.Check, name string, i int) {
	r := c.Rand("unmergeable", i)
	events := 0
	s := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd:    func(store.Entry) { events++ },
		OnChange: func(_, _ store.Entry) { events++ },
		OnDelete: func(store.Entry) { events++ },
	}})
	var hist []string
	// a custom type merges like any other, lists included
	want := Fussy{BaseRecord: vanflow.NewBase("f"), Mood: "ok"}
	randTags := func() Tags {
		switch r.IntN(4) {
		case 0:
			return nil
		case 1:
			return Tags{}
		}
		return Tags{pick(r, vocabulary), pick(r, vocabulary)}
	}
	first := want
	first.Tags = randTags()
	want = first
	step := func(what string, fn func() error) (err error) {
		hist = append(hist, what)
		if p := mon.Try(func() { err = fn() }); p != "" {
			c.Violate(name, "%s\npanicked: %s", strings.Join(hist, "\n"), p)
		}
		return err
	}
	if err := step("accumulate "+showFussy(first), func() error { return s.Accumulate(source(1), &first) }); err != nil {
		c.Violate(name, "%s: %v", hist, err)
	}
	key := store.Entry{Record: Unregistered{vanflow.NewBase("f")}}
	for n := 0; n < 8; n++ {
		before, _ := s.Get(ctx, key)
		evBefore := events
		bad := true
		var rec vanflow.Record
		switch r.IntN(7) {
		case 0, 1, 2:
			bad = false
			f := Fussy{BaseRecord: vanflow.NewBase("f"), Tags: randTags()}
			if r.IntN(2) == 0 {
				f.Text = pick(r, vocabulary)
			}
			if r.IntN(2) == 0 {
				f.Mood = Mood(pick(r, vocabulary))
			}
			rec = f
			if r.IntN(2) == 0 {
				rec = &f
			}
		case 3:
			rec = Fussy{BaseRecord: vanflow.NewBase("f"), Mood: "mute"}
		case 4:
			rec = &Fussy{BaseRecord: vanflow.NewBase("f"), Mood: "deaf", Text: "x"}
		case 5:
			rec = Unregistered{vanflow.NewBase("f")}
		case 6:
			// a time that has no representation
			rec = &Fussy{BaseRecord: vanflow.NewBase("f", time.Unix(-5, 0))}
		}
		err := step(fmt.Sprintf("accumulate %T %+v", rec, rec), func() error { return s.Accumulate(source(2), rec) })
		if !bad {
			if err != nil {
				c.Violate(name, "%s: %v", strings.Join(hist, "\n"), err)
			}
			f := fussyOf(rec)
			if f.Mood != "" {
				want.Mood = f.Mood
			}
			if f.Text != "" {
				want.Text = f.Text
			}
			if f.Tags != nil {
				want.Tags = f.Tags
			}
		}
		after, gerr := s.Get(ctx, key)
		if gerr != nil || !after.Found {
			c.Violate(name, "%s\nentry lost: %v", strings.Join(hist, "\n"), gerr)
		}
		if got := showFussy(fussyOf(after.Record)); got != showFussy(want) {
			c.Violate(name, "%s\nentry is %s, want %s", strings.Join(hist, "\n"), got, showFussy(want))
		}
		if bad {
			if err == nil {
				c.Violate(name, "%s\nwas not reported as an error", strings.Join(hist, "\n"))
			}
			if before.ETag != after.ETag || !before.Meta.UpdatedAt.Equal(after.Meta.UpdatedAt) || events != evBefore {
				c.Violate(name, "%s\nfailed (%v), but the tag went %s -> %s, %d callbacks", strings.Join(hist, "\n"), err, before.ETag, after.ETag, events-evBefore)
			}
			c.Count("unmergeable reports", 1)
		}
	}
	c.Case(strings.Join(hist, "|"))
}
