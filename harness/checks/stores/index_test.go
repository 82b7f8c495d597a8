package stores

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow/store"
)

// A model store: entries by key, with the same user code.
type modelStore struct {
	key     func(store.Entry) (string, error)
	indexes map[string]store.CacheIndexer
	items   map[string]store.Entry
}

func (m *modelStore) keys() []string {
	var ks []string
	for k := range m.items {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *modelStore) query(idx string, ex store.Entry) []string {
	want := map[string]bool{}
	for _, v := range m.indexes[idx](ex) {
		want[v] = true
	}
	var out []string
	for _, k := range m.keys() {
		for _, v := range m.indexes[idx](m.items[k]) {
			if want[v] {
				out = append(out, show(m.items[k]))
				break
			}
		}
	}
	sort.Strings(out)
	return out
}

func (m *modelStore) values(idx string) []string {
	set := map[string]bool{}
	for _, e := range m.items {
		for _, v := range m.indexes[idx](e) {
			set[v] = true
		}
	}
	out := []string{}
	for v := range set {
		out = append(out, v)
	}
	sort.Strings(out)
	return out
}

// Indexers over site records: none, one, several and repeated values.
func testIndexers(j *jitter) map[string]store.CacheIndexer {
	wrap := func(f store.CacheIndexer) store.CacheIndexer {
		return func(e store.Entry) []string { j.hit(); return f(e) }
	}
	words := func(e store.Entry) []string {
		if rec, ok := recOf(e); ok {
			return strings.Fields(str(rec.Location))
		}
		return nil
	}
	return map[string]store.CacheIndexer{
		"words": wrap(words),
		"twice": wrap(func(e store.Entry) []string { w := words(e); return append(append([]string{}, w...), w...) }),
		"src":   wrap(func(e store.Entry) []string { return []string{e.Meta.Source.Name} }),
		"ann":   wrap(func(e store.Entry) []string { return []string{e.Meta.Annotations["a"]} }),
		"all":   wrap(func(e store.Entry) []string { return []string{""} }),
		"none":  wrap(func(e store.Entry) []string { return nil }),
		"name": wrap(func(e store.Entry) []string {
			if rec, ok := recOf(e); ok && rec.Name != nil {
				return []string{*rec.Name}
			}
			return []string{}
		}),
	}
}

var vocabulary = []string{"a", "b", "c", "d"}

func randWords(r *rand.Rand) string {
	var w []string
	if r.IntN(6) == 0 {
		for n := 8 + r.IntN(40); n > 0; n-- {
			w = append(w, pick(r, []string{pick(r, vocabulary), fmt.Sprintf("w%d", r.IntN(60))}))
		}
	}
	for n := r.IntN(4); n > 0; n-- {
		w = append(w, pick(r, vocabulary))
	}
	return strings.Join(w, " ")
}

// keyName: keys of all kinds
func keyName(i int) string {
	if names := []string{"k0", "K0", "k0 ", "k", "\u00e9:/\x00%"}; i < len(names) {
		return names[i]
	}
	return fmt.Sprintf("k%d", i)
}

func randEntry(r *rand.Rand, keys int) store.Entry {
	rec := site(keyName(r.IntN(keys)), randWords(r), "")
	if r.IntN(2) == 0 {
		n := pick(r, vocabulary)
		rec.Name = &n
	}
	e := store.Entry{Meta: store.Metadata{Source: store.SourceRef{Name: pick(r, vocabulary)}}, TypeMeta: rec.GetTypeMeta(), Record: rec}
	if r.IntN(2) == 0 {
		e.Record = *rec
	}
	if r.IntN(2) == 0 {
		e.Meta.Annotations = map[string]string{"a": pick(r, vocabulary)}
		if r.IntN(3) == 0 {
			e.Meta.Annotations[pick(r, []string{"", "b", " "})] = pick(r, vocabulary)
		}
	}
	return e
}

// apply runs one random operation on the store and on the model.
func apply(c *mon.Check, name string, r *rand.Rand, s store.Interface, m *modelStore, keys int) string {
	e := randEntry(r, keys)
	key, _ := m.key(e)
	_, present := m.items[key]
	fail := func(desc string, err error) {
		c.Violate(name, "%s failed: %v", desc, err)
	}
	switch x := r.IntN(16); {
	case x < 4:
		d := "add " + show(e)
		err := s.Add(ctx, e)
		if (err == nil) == present {
			c.Violate(name, "%s: key present=%v, error=%v", d, present, err)
		}
		if !present {
			m.items[key] = e
		}
		return d
	case x < 7:
		d := "update " + show(e)
		if err := s.Update(ctx, e); err != nil {
			fail(d, err)
		}
		m.items[key] = e
		return d
	case x < 10:
		d := "delete " + key
		if err := s.Delete(ctx, e); err != nil {
			fail(d, err)
		}
		delete(m.items, key)
		return d
	case x < 15:
		rec, _ := recOf(e)
		rec.Name = nil
		if r.IntN(3) == 0 {
			rec.Location = nil
		}
		if r.IntN(3) == 0 {
			n := pick(r, vocabulary)
			rec.Name = &n
		}
		d := fmt.Sprintf("accumulate %s from %s", show(store.Entry{Record: rec}), e.Meta.Source.Name)
		if err := s.Accumulate(e.Meta.Source, rec); err != nil {
			fail(d, err)
		}
		cur, ok := m.items[key]
		if !ok {
			cur = store.Entry{Meta: store.Metadata{Source: e.Meta.Source}, TypeMeta: rec.GetTypeMeta(), Record: rec}
		} else {
			old, _ := recOf(cur)
			merged := *old
			if rec.Location != nil {
				merged.Location = rec.Location
			}
			if rec.Name != nil {
				merged.Name = rec.Name
			}
			cur.Record = &merged
		}
		m.items[key] = cur
		return d
	default:
		var es []store.Entry
		m.items = map[string]store.Entry{}
		for n := r.IntN(keys + 2); n > 0; n-- {
			e := randEntry(r, keys)
			k, _ := m.key(e)
			m.items[k] = e // of several with one key the last stays
			es = append(es, e)
		}
		d := fmt.Sprintf("replace %v", showAll(es))
		if err := s.Replace(ctx, es); err != nil {
			fail(d, err)
		}
		return d
	}
}

func recordKey(e store.Entry) (string, error) { return e.Record.Identity(), nil }

// checkIndexes compares every index with the model.
func checkIndexes(c *mon.Check, name string, r *rand.Rand, s store.Interface, m *modelStore, hist *[]string) {
	for idx := range m.indexes {
		vals, err := s.IndexValues(ctx, idx)
		if err != nil {
			c.Violate(name, "values of index %s: %v", idx, err)
		}
		vals = append([]string{}, vals...)
		sort.Strings(vals)
		if want := m.values(idx); !equal(vals, want) {
			c.Violate(name, "after %s\nindex %s has the values %q, the entries have %q", strings.Join(*hist, "\n"), idx, vals, want)
		}
		exs := []store.Entry{randEntry(r, 4), randEntry(r, 4)}
		for _, k := range m.keys() {
			exs = append(exs, m.items[k])
		}
		for _, ex := range exs {
			sel := []*store.Selector{nil, {}, {Ordering: store.Descending}}[r.IntN(3)]
			set, err := s.Index(ctx, idx, ex, sel)
			if err != nil {
				c.Violate(name, "index %s: %v", idx, err)
			}
			got, want := sortedShow(set.Entries), m.query(idx, ex)
			if !equal(got, want) {
				c.Violate(name, "after %s\nindex %s with the example %s returned\n %s\nwant\n %s", strings.Join(*hist, "\n"), idx, show(ex), strings.Join(got, "\n "), strings.Join(want, "\n "))
			}
			c.Count("index queries compared", 1)
			c.Count("entries returned", len(got))
		}
	}
	for _, idx := range []string{"", "nosuch", "Words"} {
		if set, err := s.Index(ctx, idx, randEntry(r, 4), nil); err == nil {
			c.Violate(name, "querying the unknown index %q gave %v", idx, set)
		}
		if v, err := s.IndexValues(ctx, idx); err == nil {
			c.Violate(name, "the unknown index %q has the values %v", idx, v)
		}
	}
}

func TestB02(t *testing.T) {
	c := mon.Start("B02", "a case is one random history of store operations with all indexes compared with a model after every step (sequential) or at quiescent points (concurrent), or one concurrent index query checked for consistency with itself; distinct by history")
	for i := 0; i < c.N(700, 15000); i++ {
		name := fmt.Sprintf("seq/%d", i)
		if c.Skip(name) {
			continue
		}
		r := c.Rand("seq", i)
		j := &jitter{}
		m := &modelStore{key: recordKey, indexes: testIndexers(j), items: map[string]store.Entry{}}
		s := store.NewDefaultCachingStore(store.CacheConfig{Indexers: testIndexers(j)})
		var hist []string
		keys := 1 + r.IntN(7)
		checkIndexes(c, name, r, s, m, &hist)
		for k := 0; k < 25; k++ {
			hist = append(hist, apply(c, name, r, s, m, keys))
			checkIndexes(c, name, r, s, m, &hist)
			c.Count("operations", 1)
		}
		c.Case(strings.Join(hist, "|"))
		if c.WantSample() {
			c.Sample(hist)
		}
	}
	defaultIndexes(c)
	concurrentIndexes(c)
	c.Finish(map[string]int64{"operations": 10000, "index queries compared": 100000, "entries returned": 50000, "concurrent queries": 2000, "quiescent comparisons": 50})
}

// defaultIndexes: without configuration there is an index by source and one by
// site annotation.
func defaultIndexes(c *mon.Check) {
	r := c.Rand("default")
	s := store.NewDefaultCachingStore(store.CacheConfig{})
	m := &modelStore{key: recordKey, items: map[string]store.Entry{}, indexes: map[string]store.CacheIndexer{
		store.IndexBySource: func(e store.Entry) []string {
			return []string{e.Meta.Source.APIVersion + "." + e.Meta.Source.Type + "." + e.Meta.Source.Name}
		},
		store.IndexBySite: func(e store.Entry) []string {
			if v, ok := e.Meta.Annotations["skupper.io/flow/site-id"]; ok {
				return []string{v}
			}
			return []string{"unknown"}
		},
	}}
	var hist []string
	for i := 0; i < 400; i++ {
		rec := site(fmt.Sprintf("k%d", r.IntN(5)), pick(r, vocabulary), "")
		e := store.Entry{Record: rec, Meta: store.Metadata{Source: store.SourceRef{APIVersion: pick(r, []string{"", "1"}), Type: pick(r, []string{"A", "B"}), Name: pick(r, vocabulary)}}}
		if r.IntN(2) == 0 {
			e.Meta.Annotations = map[string]string{"skupper.io/flow/site-id": pick(r, append([]string{"", "unknown"}, vocabulary...))}
		}
		k, _ := recordKey(e)
		if r.IntN(3) == 0 {
			s.Delete(ctx, e)
			delete(m.items, k)
			hist = append(hist, "delete "+k)
		} else {
			s.Update(ctx, e)
			m.items[k] = e
			hist = append(hist, "update "+show(e))
		}
		checkIndexes(c, "default", r, s, m, &hist)
		c.Count("operations", 1)
	}
}

// concurrentIndexes: while writers run, each query must agree with itself;
// once they stop, with the listed entries.
func concurrentIndexes(c *mon.Check) {
	for i := 0; i < c.N(120, 2500); i++ {
		name := fmt.Sprintf("conc/%d", i)
		if c.Skip(name) {
			continue
		}
		r0 := c.Rand("conc", i)
		j := &jitter{}
		j.on.Store(true)
		quiet := &jitter{}
		indexers := testIndexers(quiet)
		s := store.NewDefaultCachingStore(store.CacheConfig{Indexers: testIndexers(j)})
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			r := c.Rand("conc-w", i, w)
			go func() {
				defer wg.Done()
				for k := 0; k < 60; k++ {
					e := randEntry(r, 4)
					switch r.IntN(10) {
					case 0, 1:
						s.Add(ctx, e)
					case 2, 3, 4:
						s.Update(ctx, e)
					case 5, 6:
						s.Delete(ctx, e)
					case 7, 8:
						s.Accumulate(e.Meta.Source, e.Record)
					default:
						s.Replace(ctx, []store.Entry{e})
					}
				}
			}()
			wg.Add(1)
			r2 := c.Rand("conc-r", i, w)
			go func() {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					idx := pick(r2, []string{"words", "twice", "src", "ann", "all", "name"})
					ex := randEntry(r2, 4)
					want := map[string]bool{}
					for _, v := range indexers[idx](ex) {
						want[v] = true
					}
					set, err := s.Index(ctx, idx, ex, nil)
					if err != nil {
						c.Violate(name, "index %s: %v", idx, err)
					}
					seen := map[string]bool{}
					for _, e := range set.Entries {
						if e.Record == nil {
							c.Violate(name, "index %s returned an empty entry", idx)
						}
						id := e.Record.Identity()
						if seen[id] {
							c.Violate(name, "index %s returned %s twice", idx, id)
						}
						seen[id] = true
						shares := false
						for _, v := range indexers[idx](e) {
							shares = shares || want[v]
						}
						if !shares {
							c.Violate(name, "index %s with example %s returned %s, which shares no value with it", idx, show(ex), show(e))
						}
					}
					c.Count("concurrent queries", 1)
				}
			}()
		}
		wg.Wait()
		set, err := s.List(ctx, nil)
		if err != nil {
			c.Violate(name, "list: %v", err)
		}
		m := &modelStore{key: recordKey, indexes: indexers, items: map[string]store.Entry{}}
		for _, e := range set.Entries {
			k, _ := recordKey(e)
			m.items[k] = e
		}
		hist := []string{"(concurrent history)"}
		checkIndexes(c, name, r0, s, m, &hist)
		c.Count("quiescent comparisons", 1)
		c.Case(name + strings.Join(sortedShow(set.Entries), ";"))
	}
}
