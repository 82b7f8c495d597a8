package stores

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

type snapshot struct {
	entry store.Entry
	was   string
	from  string
}

// held keeps everything the store handed out, with what it showed then.
type held struct {
	mu    sync.Mutex
	snaps []snapshot
	sets  []struct {
		set store.Set
		was string
	}
}

func (h *held) keep(from string, es ...store.Entry) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, e := range es {
		h.snaps = append(h.snaps, snapshot{e, full(e), from})
	}
}

func (h *held) keepSet(from string, set store.Set) {
	h.keep(from, set.Entries...)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.sets = append(h.sets, struct {
		set store.Set
		was string
	}{set, strings.Join(showAll(set.Entries), ";")})
}

func (h *held) verify(c *mon.Check, name string, hist []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, s := range h.snaps {
		if now := full(s.entry); now != s.was {
			c.Violate(name, "%s\nan entry obtained from %s was\n  %s\nand became\n  %s", strings.Join(hist, "\n"), s.from, s.was, now)
		}
	}
	for _, s := range h.sets {
		if now := strings.Join(showAll(s.set.Entries), ";"); now != s.was {
			c.Violate(name, "%s\na result was\n  %s\nand became\n  %s", strings.Join(hist, "\n"), s.was, now)
		}
	}
	c.Count("snapshots compared", len(h.snaps))
}

func TestB08(t *testing.T) {
	c := mon.Start("B08", "a case is one history with every entry handed out kept and compared again at the end, or one concurrent history with readers checking that correlated attributes agree (under the race detector); distinct by history")
	for i := 0; i < c.N(500, 12000); i++ {
		name := fmt.Sprintf("seq/%d", i)
		if !c.Skip(name) {
			snapshotHistory(c, name, i)
		}
	}
	for i := 0; i < c.N(500, 12000); i++ {
		name := fmt.Sprintf("typed/%d", i)
		if !c.Skip(name) {
			snapshotTyped(c, name, i)
		}
	}
	for i := 0; i < c.N(120, 2500); i++ {
		name := fmt.Sprintf("conc/%d", i)
		if !c.Skip(name) {
			noMixture(c, name, i)
		}
	}
	c.Finish(map[string]int64{"snapshots compared": 50000, "entries read concurrently": 20000})
}

func snapshotHistory(c *mon.Check, name string, i int) {
	r := c.Rand("seq", i)
	h := &held{}
	j := &jitter{}
	m := &modelStore{key: recordKey, indexes: testIndexers(j), items: map[string]store.Entry{}}
	s := store.NewDefaultCachingStore(store.CacheConfig{
		Indexers: testIndexers(j),
		EventHandlers: store.EventHandlerFuncs{
			OnAdd:    func(e store.Entry) { h.keep("OnAdd", e) },
			OnChange: func(p, n store.Entry) { h.keep("OnChange", p, n) },
			OnDelete: func(e store.Entry) { h.keep("OnDelete", e) },
		},
	})
	var hist []string
	for n := 0; n < 25; n++ {
		hist = append(hist, apply(c, name, r, s, m, 3))
		if g, err := s.Get(ctx, randEntry(r, 3)); err == nil && g.Found {
			h.keep("Get", g.Entry)
		}
		sel := []*store.Selector{nil, {}, {Ordering: store.Descending}, {Limit: 2}, {Offset: 1}}[r.IntN(5)]
		if set, err := s.List(ctx, sel); err == nil {
			h.keepSet("List", set)
		}
		if set, err := s.Index(ctx, pick(r, []string{"all", "words", "src"}), randEntry(r, 3), sel); err == nil {
			h.keepSet("Index", set)
		}
	}
	h.verify(c, name, hist)
	c.Case(strings.Join(hist, "|"))
	if c.WantSample() {
		c.Sample(hist)
	}
}

// snapshotTyped: partial reports of every record type and every attribute,
// with the reported records held as well.
func snapshotTyped(c *mon.Check, name string, i int) {
	r := c.Rand("typed", i)
	h := &held{}
	s := store.NewDefaultCachingStore(store.CacheConfig{
		EventHandlers: store.EventHandlerFuncs{
			OnAdd:    func(e store.Entry) { h.keep("OnAdd", e) },
			OnChange: func(p, n store.Entry) { h.keep("OnChange", p, n) },
			OnDelete: func(e store.Entry) { h.keep("OnDelete", e) },
		},
	})
	t := pick(r, typesUnderTest())
	var hist []string
	for n := 0; n < 30; n++ {
		a := gen.Rand(r, t, []string{"x", "y"}[r.IntN(2)], []float64{0.1, 0.3, 1}[r.IntN(3)])
		if r.IntN(2) == 0 { // a single attribute
			at := pick(r, t.AllAttrs())
			a.Attrs = map[uint32]any{at.Code: gen.RandValue(r, at.Kind)}
		}
		rec := a.Record(r.IntN(3) > 0)
		e := store.Entry{Record: rec, TypeMeta: rec.GetTypeMeta(), Meta: store.Metadata{Source: source(1), Annotations: map[string]string{"a": fmt.Sprint(n)}}}
		for k := r.IntN(4); k > 0; k-- { // keys of all kinds, some empty
			e.Meta.Annotations[pick(r, []string{"", "b", " ", "a/b", "é"})] = pick(r, vocabulary)
		}
		if r.IntN(8) == 0 {
			e.Meta.Annotations = nil
		}
		switch r.IntN(10) {
		case 0:
			hist = append(hist, "add "+a.String())
			s.Add(ctx, e)
			h.keep("the caller", e)
		case 1:
			hist = append(hist, "update "+a.String())
			s.Update(ctx, e)
			h.keep("the caller", e)
		case 2:
			hist = append(hist, "delete "+a.ID)
			s.Delete(ctx, e)
		case 3:
			hist = append(hist, "replace "+a.String())
			s.Replace(ctx, []store.Entry{e})
			h.keep("the caller", e)
		default:
			hist = append(hist, "accumulate "+a.String())
			if err := s.Accumulate(source(2), rec); err != nil {
				c.Violate(name, "%s: %v", strings.Join(hist, "\n"), err)
			}
			h.keep("the caller", store.Entry{Record: rec})
		}
		if g, err := s.Get(ctx, e); err == nil && g.Found {
			h.keep("Get", g.Entry)
		}
		if set, err := s.List(ctx, nil); err == nil {
			h.keepSet("List", set)
		}
	}
	h.verify(c, name, hist)
	c.Case(strings.Join(hist, "|"))
}

// agreed is an entry all of whose attributes carry the same token.
func agreed(id, tok string) *vanflow.RouterRecord {
	s := func() *string { t := tok; return &t }
	return &vanflow.RouterRecord{BaseRecord: vanflow.NewBase(id), Parent: s(), Namespace: s(), Mode: s(), ImageName: s(), ImageVersion: s(), Hostname: s(), Name: s(), BuildVersion: s()}
}

func agrees(e store.Entry) (string, bool) {
	var rr *vanflow.RouterRecord
	switch r := e.Record.(type) {
	case *vanflow.RouterRecord:
		rr = r
	case vanflow.RouterRecord:
		rr = &r
	}
	if rr == nil {
		return fmt.Sprintf("%T", e.Record), false
	}
	all := []*string{rr.Parent, rr.Namespace, rr.Mode, rr.ImageName, rr.ImageVersion, rr.Hostname, rr.Name, rr.BuildVersion}
	first := str(all[0])
	var show []string
	ok := true
	for _, p := range all {
		show = append(show, str(p))
		ok = ok && p != nil && *p == first
	}
	return strings.Join(show, ","), ok
}

func noMixture(c *mon.Check, name string, i int) {
	h := &held{}
	look := func(from string, es ...store.Entry) {
		for _, e := range es {
			if d, ok := agrees(e); !ok {
				c.Violate(name, "%s gave a mixture: %s", from, d)
			}
			c.Count("entries read concurrently", 1)
		}
		h.keep(from, es...)
	}
	s := store.NewDefaultCachingStore(store.CacheConfig{
		Indexers: map[string]store.CacheIndexer{"all": func(e store.Entry) []string { return []string{"v", e.Record.Identity()} }},
		EventHandlers: store.EventHandlerFuncs{
			OnAdd:    func(e store.Entry) { look("OnAdd", e) },
			OnChange: func(p, n store.Entry) { look("OnChange", p, n) },
			OnDelete: func(e store.Entry) { look("OnDelete", e) },
		},
	})
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(2)
		r := c.Rand("conc-w", i, w)
		go func() {
			defer wg.Done()
			for n := 0; n < 40; n++ {
				rec := agreed(fmt.Sprintf("k%d", r.IntN(2)), fmt.Sprintf("%d.%d", w, n))
				e := store.Entry{Record: rec, Meta: store.Metadata{Source: source(w), Annotations: map[string]string{"a": "b"}}}
				if r.IntN(2) == 0 {
					e.Record = *rec
				}
				switch r.IntN(8) {
				case 0:
					s.Add(ctx, e)
				case 1, 2:
					s.Update(ctx, e)
				case 3, 4, 5:
					if err := s.Accumulate(source(w), e.Record); err != nil {
						c.Violate(name, "accumulate: %v", err)
					}
				case 6:
					s.Delete(ctx, e)
				default:
					s.Replace(ctx, []store.Entry{e})
				}
			}
		}()
		r2 := c.Rand("conc-r", i, w)
		go func() {
			defer wg.Done()
			for n := 0; n < 40; n++ {
				ex := store.Entry{Record: agreed(fmt.Sprintf("k%d", r2.IntN(2)), "")}
				switch r2.IntN(3) {
				case 0:
					if g, _ := s.Get(ctx, ex); g.Found {
						look("Get", g.Entry)
					}
				case 1:
					set, _ := s.List(ctx, []*store.Selector{nil, {}}[r2.IntN(2)])
					look("List", set.Entries...)
				default:
					set, err := s.Index(ctx, "all", ex, &store.Selector{})
					if err != nil {
						c.Violate(name, "index: %v", err)
					}
					look("Index", set.Entries...)
				}
			}
		}()
	}
	wg.Wait()
	h.verify(c, name, []string{"(concurrent history)"})
	c.Case(name)
}
