package stores

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

// Typed is a record of a made-up type.
type Typed struct {
	vanflow.BaseRecord
	Meta vanflow.TypeMeta
}

func (t Typed) GetTypeMeta() vanflow.TypeMeta { return t.Meta }

// recording is a store that records what is accumulated into it.
type recording struct {
	store.Interface
	name   string
	mu     sync.Mutex
	got    []string
	reject func(id string) bool
}

func (s *recording) Accumulate(src store.SourceRef, rec vanflow.Record) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	id := rec.Identity()
	s.got = append(s.got, fmt.Sprintf("%s %v %s", src, rec.GetTypeMeta(), id))
	if s.reject != nil && s.reject(id) {
		return errInjected
	}
	return nil
}

func (s *recording) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.got
	s.got = nil
	return g
}

// typeMetas has types that are easily confused.
func typeMetas() []vanflow.TypeMeta {
	out := []vanflow.TypeMeta{
		{}, {APIVersion: "v", Type: "A"}, {APIVersion: "v", Type: "B"}, {APIVersion: "w", Type: "A"},
		{APIVersion: "v", Type: "a"}, {APIVersion: "v/A", Type: ""}, {APIVersion: "", Type: "v/A"},
		{APIVersion: "v/x", Type: "A"}, {APIVersion: "v", Type: "x/A"}, {APIVersion: "vA", Type: ""}, {APIVersion: "v", Type: "A "},
		{APIVersion: "A", Type: "v"}, {APIVersion: "v.A", Type: "B"}, {APIVersion: "v", Type: "A.B"},
	}
	return out
}

func TestB07(t *testing.T) {
	c := mon.Start("B07", "a case is one dispatched message with the accumulations seen by every store compared with the registrations its dispatcher was created from; distinct by registrations and message")
	for i := 0; i < c.N(9000, 150000); i++ {
		name := fmt.Sprintf("seq/%d", i)
		if !c.Skip(name) {
			dispatchHistory(c, name, i)
		}
	}
	for i := 0; i < c.N(100, 2000); i++ {
		name := fmt.Sprintf("conc/%d", i)
		if !c.Skip(name) {
			dispatchConcurrently(c, name, i)
		}
	}
	realStores(c)
	c.Finish(map[string]int64{"records dispatched": 6000, "records ignored": 10000, "records rejected": 200, "messages to older dispatchers": 3000, "concurrent messages": 1000, "records in real stores": 1000, "messages of hundreds": 200})
}

func dispatchHistory(c *mon.Check, name string, i int) {
	r := c.Rand("seq", i)
	metas := typeMetas()
	r.Shuffle(len(metas), func(a, b int) { metas[a], metas[b] = metas[b], metas[a] })
	metas = metas[:2+r.IntN(len(metas)-1)]
	builtin := typesUnderTest()[:1+r.IntN(4)]
	newRec := func(id string) vanflow.Record {
		if r.IntN(3) == 0 {
			return gen.Rand(r, pick(r, builtin), id, 0.3).Record(r.IntN(2) == 0)
		}
		return &Typed{vanflow.NewBase(id), pick(r, metas)}
	}
	var reg store.DispatchRegistry
	cur := map[vanflow.TypeMeta]*recording{}
	var stores []*recording
	type disp struct {
		d   store.Dispatcher
		src store.SourceRef
		reg map[vanflow.TypeMeta]*recording
	}
	var ds []disp
	var hist []string
	seq := 0
	for n := 0; n < 16; n++ {
		switch x := r.IntN(8); {
		case x < 4 && n < 10:
			rec := newRec("r")
			st := &recording{name: fmt.Sprintf("store%d", len(stores))}
			if r.IntN(3) == 0 {
				st.reject = func(id string) bool { return strings.HasSuffix(id, "3") }
			}
			if len(stores) > 0 && r.IntN(4) == 0 { // one store for several types
				st = pick(r, stores)
			} else {
				stores = append(stores, st)
			}
			reg.RegisterStore(rec, st)
			cur[rec.GetTypeMeta()] = st
			hist = append(hist, fmt.Sprintf("register %q/%q with %s", rec.GetTypeMeta().APIVersion, rec.GetTypeMeta().Type, st.name))
		case x < 5 || len(ds) == 0:
			src := source(n)
			m := map[vanflow.TypeMeta]*recording{}
			for k, v := range cur {
				m[k] = v
			}
			ds = append(ds, disp{reg.NewDispatcher(src), src, m})
			hist = append(hist, fmt.Sprintf("dispatcher%d", len(ds)-1))
		default:
			k := r.IntN(len(ds))
			d := ds[k]
			want := map[*recording][]string{}
			var msg vanflow.RecordMessage
			size := r.IntN(8)
			many := r.IntN(150) == 0 // with identities and types in long runs
			var last string
			if many {
				size = 100 + r.IntN(900)
				c.Count("messages of hundreds", 1)
			}
			for m := size; m > 0; m-- {
				seq++
				id := fmt.Sprintf("id%d", seq)
				if many && last != "" && r.IntN(20) > 0 {
					id = last
				}
				last = id
				if r.IntN(10) == 0 {
					id = pick(r, []string{"", " ", "id1", "\x00"})
				}
				rec := newRec(id)
				msg.Records = append(msg.Records, rec)
				tm := rec.GetTypeMeta()
				if !many || m < 20 {
					hist = append(hist, fmt.Sprintf("dispatcher%d gets %q/%q %s", k, tm.APIVersion, tm.Type, rec.Identity()))
				}
				if st := d.reg[tm]; st != nil {
					want[st] = append(want[st], fmt.Sprintf("%s %v %s", d.src, tm, rec.Identity()))
					c.Count("records dispatched", 1)
					if st.reject != nil && st.reject(rec.Identity()) {
						c.Count("records rejected", 1)
					}
				} else {
					c.Count("records ignored", 1)
				}
			}
			if p := mon.Try(func() { d.d.Dispatch(msg) }); p != "" {
				c.Violate(name, "%s\npanicked: %s", strings.Join(hist, "\n"), p)
			}
			for _, st := range stores {
				if got := st.take(); !equal(got, want[st]) {
					c.Violate(name, "%s\n%s got %d records, want %d:\n  %s\nwant\n  %s", strings.Join(hist, "\n"), st.name, len(got), len(want[st]), strings.Join(got, "\n  "), strings.Join(want[st], "\n  "))
				}
			}
			if k < len(ds)-1 {
				c.Count("messages to older dispatchers", 1)
			}
			c.Case(strings.Join(hist, "|"))
		}
	}
	if c.WantSample() {
		c.Sample(hist)
	}
}

func dispatchConcurrently(c *mon.Check, name string, i int) {
	r := c.Rand("conc", i)
	metas := typeMetas()
	var reg store.DispatchRegistry
	byType := map[vanflow.TypeMeta]*recording{}
	for _, tm := range metas {
		if r.IntN(3) > 0 {
			st := &recording{name: fmt.Sprint(tm)}
			byType[tm] = st
			reg.RegisterStore(Typed{Meta: tm}, st)
		}
	}
	shared := reg.NewDispatcher(source(99))
	var wg sync.WaitGroup
	var mu sync.Mutex
	want := map[vanflow.TypeMeta]map[string]int{}
	for w := 0; w < 4; w++ {
		wg.Add(1)
		wr := c.Rand("conc-w", i, w)
		own := reg.NewDispatcher(source(w))
		go func() {
			defer wg.Done()
			for n := 0; n < 12; n++ {
				d, src := own, source(w)
				if wr.IntN(2) == 0 {
					d, src = shared, source(99)
				}
				var msg vanflow.RecordMessage
				for m := 0; m < 5; m++ {
					rec := Typed{vanflow.NewBase(fmt.Sprintf("%d.%d.%d", w, n, m)), pick(wr, metas)}
					msg.Records = append(msg.Records, rec)
					mu.Lock()
					if want[rec.Meta] == nil {
						want[rec.Meta] = map[string]int{}
					}
					want[rec.Meta][fmt.Sprintf("%s %v %s", src, rec.Meta, rec.ID)]++
					mu.Unlock()
				}
				d.Dispatch(msg)
				c.Count("concurrent messages", 1)
			}
		}()
	}
	wg.Wait()
	for tm, st := range byType {
		got := map[string]int{}
		last := map[string]string{}
		for _, g := range st.take() {
			got[g]++
			_ = last
		}
		if fmt.Sprint(got) != fmt.Sprint(orEmpty(want[tm])) {
			c.Violate(name, "the store of %v got %v, want %v", tm, got, want[tm])
		}
	}
	c.Case(name)
}

func orEmpty(m map[string]int) map[string]int {
	if m == nil {
		return map[string]int{}
	}
	return m
}

// realStores: end to end into caching stores, one per built-in type.
func realStores(c *mon.Check) {
	r := c.Rand("real")
	types := typesUnderTest()
	var reg store.DispatchRegistry
	stores := map[string]store.Interface{}
	for _, t := range types {
		s := store.NewDefaultCachingStore(store.CacheConfig{})
		stores[t.Name] = s
		reg.RegisterStore(gen.Abs{Type: t.Name, ID: "x"}.Record(r.IntN(2) == 0), s)
	}
	want := map[string]map[string]gen.Abs{}
	d := reg.NewDispatcher(source(7))
	for n := 0; n < 400; n++ {
		var msg vanflow.RecordMessage
		for k := 0; k < 4; k++ {
			t := pick(r, types)
			a := gen.Rand(r, t, fmt.Sprintf("id%d", r.IntN(5)), 0.4)
			msg.Records = append(msg.Records, a.Record(r.IntN(2) == 0))
			if want[t.Name] == nil {
				want[t.Name] = map[string]gen.Abs{}
			}
			if cur, ok := want[t.Name][a.ID]; ok {
				want[t.Name][a.ID] = cur.Merge(a)
			} else {
				want[t.Name][a.ID] = a.Clone()
			}
			c.Count("records in real stores", 1)
		}
		d.Dispatch(msg)
	}
	for _, t := range types {
		set, err := stores[t.Name].List(ctx, nil)
		if err != nil || len(set.Entries) != len(want[t.Name]) {
			c.Violate("real", "store of %s has %d entries, want %d (%v)", t.Name, len(set.Entries), len(want[t.Name]), err)
		}
		for _, e := range set.Entries {
			w := want[t.Name][e.Record.Identity()]
			if gen.Show(e.Record) != w.String() || e.Meta.Source != source(7) {
				c.Violate("real", "store of %s has %s from %s, want %s from %s", t.Name, gen.Show(e.Record), e.Meta.Source, w, source(7))
			}
		}
	}
	c.Case("real")
}
