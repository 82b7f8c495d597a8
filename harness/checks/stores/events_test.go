package stores

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

func full(e store.Entry) string { return show(e) + " at " + e.Meta.UpdatedAt.String() }

func TestB05(t *testing.T) {
	mon.WatchdogLimit = 40 * time.Second
	c := mon.Start("B05", "a case is one sequential history with every callback compared with the states before and after, one concurrent history whose callbacks are linked up per key, or one history with callbacks that call the store; distinct by history")
	for i := 0; i < c.N(3000, 60000); i++ {
		name := fmt.Sprintf("seq/%d", i)
		if !c.Skip(name) {
			eventHistory(c, name, i)
		}
	}
	for i := 0; i < c.N(400, 8000); i++ {
		name := fmt.Sprintf("chain/%d", i)
		if !c.Skip(name) {
			eventChain(c, name, i)
		}
	}
	for i := 0; i < c.N(300, 5000); i++ {
		name := fmt.Sprintf("reentrant/%d", i)
		if !c.Skip(name) {
			reentrant(c, name, i)
		}
	}
	c.Finish(map[string]int64{"sequential callbacks": 20000, "operations without a callback": 8000, "failed operations": 4000, "failed keys": 1500, "chained callbacks": 30000, "chains": 1000, "calls from callbacks": 3000})
}

// eventHistory: callbacks of sequential operations, including failing ones.
func eventHistory(c *mon.Check, name string, i int) {
	r := c.Rand("seq", i)
	var events []string
	failKey, failAfter := false, 0
	cfg := store.CacheConfig{
		Key: func(e store.Entry) (string, error) {
			if failKey {
				if failAfter--; failAfter < 0 {
					return "", errInjected
				}
			}
			return e.Record.Identity(), nil
		},
		EventHandlers: store.EventHandlerFuncs{
			OnAdd:    func(e store.Entry) { events = append(events, "add "+full(e)) },
			OnChange: func(p, n store.Entry) { events = append(events, "change "+full(p)+" -> "+full(n)) },
			OnDelete: func(e store.Entry) { events = append(events, "delete "+full(e)) },
		},
	}
	// each handler is optional
	drop := r.IntN(8)
	switch drop {
	case 0:
		cfg.EventHandlers.OnAdd = nil
	case 1:
		cfg.EventHandlers.OnChange = nil
	case 2:
		cfg.EventHandlers.OnDelete = nil
	}
	s := store.NewDefaultCachingStore(cfg)
	var hist []string
	get := func(id string) (string, bool) {
		g, err := s.Get(ctx, store.Entry{Record: site(id, "", "")})
		if err != nil {
			c.Violate(name, "get: %v", err)
		}
		if !g.Found {
			return "", false
		}
		return full(g.Entry), true
	}
	for n := 0; n < 25; n++ {
		e := randEntry(r, 3)
		if r.IntN(8) == 0 {
			rec, _ := recOf(e)
			rec.ID = ""
			e.Record = rec
		}
		id := e.Record.Identity()
		prev, had := get(id)
		events = nil
		var err error
		what, replaced := "", false
		var op func() error
		switch x := r.IntN(22); {
		case x < 3:
			what, op = "add "+show(e), func() error { return s.Add(ctx, e) }
		case x < 7:
			what, op = "update "+show(e), func() error { return s.Update(ctx, e) }
		case x < 11:
			what, op = "delete "+id, func() error { return s.Delete(ctx, e) }
		case x < 17:
			what, op = "accumulate "+show(e), func() error { return s.Accumulate(e.Meta.Source, e.Record) }
		case x < 19:
			what, op = "accumulate unmergeable "+id, func() error {
				return s.Accumulate(e.Meta.Source, Unregistered{vanflow.NewBase(id)})
			}
			if !had {
				continue
			}
		case x < 20:
			what, op = "refused conditional update "+id, func() error {
				return s.Update(store.WithIfMatch(ctx, "AAAA"), e)
			}
		case x < 21:
			g, _ := s.Get(ctx, e)
			what, op = "conditional update "+show(e), func() error {
				if !g.Found {
					return s.Update(store.WithIfMatch(ctx, ""), e)
				}
				return s.Update(store.WithIfMatch(ctx, g.ETag), e)
			}
		default:
			es := []store.Entry{e}
			for len(es) < 4 && r.IntN(2) == 0 {
				es = append(es, randEntry(r, 3))
			}
			what, replaced, op = fmt.Sprintf("replace by %d entries", len(es)), true, func() error { return s.Replace(ctx, es) }
			if r.IntN(3) == 0 {
				failKey, failAfter = true, r.IntN(len(es))
			}
		}
		if r.IntN(12) == 0 && !replaced {
			failKey, failAfter = true, 0
		}
		var before []string
		if failKey {
			what = "(failing key) " + what
			before = contents(c, name, s)
		}
		err = op()
		keyFailed := failKey
		if keyFailed {
			if err == nil {
				c.Violate(name, "%s\nthen %s succeeded", strings.Join(hist, "\n"), what)
			}
			failAfter = 0
			if g, err := s.Get(ctx, e); err == nil {
				c.Violate(name, "%s\nthen a get with a failing key reported no error, but found=%v", strings.Join(hist, "\n"), g.Found)
			}
		}
		failKey = false
		got := append([]string(nil), events...)
		if keyFailed {
			if after := contents(c, name, s); !equal(before, after) {
				c.Violate(name, "%s\nthen %s failed, but the store has now\n  %s\nand not as before\n  %s", strings.Join(hist, "\n"), what, strings.Join(after, "\n  "), strings.Join(before, "\n  "))
			}
			c.Count("failed keys", 1)
		}
		next, has := get(id)
		hist = append(hist, what)
		if replaced {
			if keyFailed && len(got) > 0 {
				c.Violate(name, "%s\nfailed, but made the callbacks\n  %s", strings.Join(hist, "\n"), strings.Join(got, "\n  "))
			}
			continue // wholesale replacement is not a change of the store's records
		}
		var want []string
		switch {
		case !had && has && drop != 0:
			want = []string{"add " + next}
		case had && !has && drop != 2:
			want = []string{"delete " + prev}
		case had && has && prev != next && drop != 1:
			want = []string{"change " + prev + " -> " + next}
		}
		if err != nil {
			c.Count("failed operations", 1)
			if had != has || prev != next {
				c.Violate(name, "%s\nfailed with %v, but changed %q to %q", strings.Join(hist, "\n"), err, prev, next)
			}
			want = nil
		}
		if !equal(got, want) {
			c.Violate(name, "%s\nmade the callbacks\n  %s\nwant\n  %s\n(error %v)", strings.Join(hist, "\n"), strings.Join(got, "\n  "), strings.Join(want, "\n  "), err)
		}
		c.Count("sequential callbacks", len(got))
		if len(got) == 0 {
			c.Count("operations without a callback", 1)
		}
	}
	c.Case(strings.Join(hist, "|"))
	if c.WantSample() {
		c.Sample(hist)
	}
}

// contents are the entries of a store, in order.
func contents(c *mon.Check, name string, s store.Interface) []string {
	set, err := s.List(ctx, nil)
	if err != nil {
		c.Violate(name, "list: %v", err)
	}
	var out []string
	for _, e := range set.Entries {
		out = append(out, full(e))
	}
	slices.Sort(out)
	return out
}

type edge struct{ kind, prev, next string }

// eventChain: each content a concurrent history stores is unique, so the
// callbacks of a key must link up from absence to the state that remains.
func eventChain(c *mon.Check, name string, i int) {
	r := c.Rand("chain", i)
	j := &jitter{}
	j.on.Store(true)
	keys := 1 + r.IntN(3)
	var mu sync.Mutex
	edges := map[string][]edge{}
	text := func(e store.Entry) string {
		rec, ok := recOf(e)
		if !ok {
			return "(no record)"
		}
		return str(rec.Location) + "/" + str(rec.Name)
	}
	id := func(e store.Entry) string {
		if e.Record == nil {
			c.Violate(name, "a callback got an entry without a record")
		}
		return e.Record.Identity()
	}
	note := func(k string, e edge) {
		mu.Lock()
		edges[k] = append(edges[k], e)
		mu.Unlock()
	}
	s := store.NewDefaultCachingStore(store.CacheConfig{
		Key: func(e store.Entry) (string, error) { j.hit(); return e.Record.Identity(), nil },
		Indexers: map[string]store.CacheIndexer{"x": func(e store.Entry) []string {
			j.hit()
			return []string{"v"}
		}},
		EventHandlers: store.EventHandlerFuncs{
			OnAdd: func(e store.Entry) { note(id(e), edge{"add", "", text(e)}) },
			OnChange: func(p, n store.Entry) {
				if id(p) != id(n) {
					c.Violate(name, "a change callback has entries of %s and %s", id(p), id(n))
				}
				note(id(n), edge{"change", text(p), text(n)})
			},
			OnDelete: func(e store.Entry) { note(id(e), edge{"delete", text(e), ""}) },
		},
	})
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		r := c.Rand("chain-w", i, w)
		go func() {
			defer wg.Done()
			for n := 0; n < 40; n++ {
				k := fmt.Sprintf("k%d", r.IntN(keys))
				u := fmt.Sprintf("%d.%d", w, n)
				switch r.IntN(5) {
				case 0:
					s.Add(ctx, store.Entry{Record: site(k, "a"+u, "")})
				case 1:
					if err := s.Update(ctx, store.Entry{Record: site(k, "u"+u, "")}); err != nil {
						c.Violate(name, "update: %v", err)
					}
				case 2:
					if err := s.Accumulate(source(1), site(k, "", "m"+u)); err != nil {
						c.Violate(name, "accumulate: %v", err)
					}
				case 3:
					if err := s.Delete(ctx, store.Entry{Record: site(k, "", "")}); err != nil {
						c.Violate(name, "delete: %v", err)
					}
				case 4:
					if g, _ := s.Get(ctx, store.Entry{Record: site(k, "", "")}); g.Found {
						s.Update(store.WithIfMatch(ctx, g.ETag), store.Entry{Record: site(k, "c"+u, "")})
					}
				}
			}
		}()
	}
	wg.Wait()
	for k := 0; k < keys; k++ {
		key := fmt.Sprintf("k%d", k)
		final := ""
		if g, _ := s.Get(ctx, store.Entry{Record: site(key, "", "")}); g.Found {
			final = text(g.Entry)
		}
		in, out := map[string]int{}, map[string]int{}
		nextOf := map[string]string{}
		var log []string
		for _, e := range edges[key] {
			in[e.next]++
			out[e.prev]++
			if e.prev != "" {
				nextOf[e.prev] = e.next
			}
			log = append(log, fmt.Sprintf("%s %q->%q", e.kind, e.prev, e.next))
		}
		bad := func(f string, a ...any) {
			c.Violate(name, "key %s, finally %q: %s\ncallbacks in the order made:\n%s", key, final, fmt.Sprintf(f, a...), strings.Join(log, "\n"))
		}
		for v, n := range in {
			if v == "" {
				continue
			}
			wantOut := 1
			if v == final {
				wantOut = 0
			}
			if n != 1 || out[v] != wantOut {
				bad("the state %q was entered by %d callbacks and left by %d", v, n, out[v])
			}
		}
		for v := range out {
			if v != "" && in[v] == 0 {
				bad("the state %q was left but never entered", v)
			}
		}
		d := 0
		if final != "" {
			d = 1
			if in[final] != 1 {
				bad("the state that remains was entered by %d callbacks", in[final])
			}
		}
		if out[""]-in[""] != d {
			bad("%d callbacks left and %d entered absence", out[""], in[""])
		}
		// no cycle apart from absence: every state is reached from an add
		reached := 0
		for _, e := range edges[key] {
			if e.prev == "" {
				for v := e.next; v != ""; v = nextOf[v] {
					if reached++; reached > len(edges[key]) {
						bad("the callbacks have a cycle")
					}
				}
			}
		}
		if states := len(in); in[""] > 0 {
			states--
			if reached != states {
				bad("%d of %d states link up with absence", reached, states)
			}
		} else if reached != states {
			bad("%d of %d states link up with absence", reached, states)
		}
		c.Count("chained callbacks", len(edges[key]))
		c.Count("chains", out[""])
	}
	c.Case(fmt.Sprint(name, edges))
}

// reentrant: callbacks that read and change the store they are called by.
func reentrant(c *mon.Check, name string, i int) {
	r := c.Rand("re", i)
	var s store.Interface
	depth := 0
	var calls int
	var log []string
	inside := func(why string, e store.Entry, want bool) {
		g, err := s.Get(ctx, e)
		if err != nil {
			c.Violate(name, "get inside a callback: %v", err)
		}
		// sequential use: the callback sees the state it was told about
		if g.Found != want {
			c.Violate(name, "%s\nin the %s callback the entry is found=%v", strings.Join(log, "\n"), why, g.Found)
		}
		if _, err := s.List(ctx, &store.Selector{}); err != nil {
			c.Violate(name, "list inside a callback: %v", err)
		}
		if _, err := s.Index(ctx, "v", e, nil); err != nil {
			c.Violate(name, "index inside a callback: %v", err)
		}
		if _, err := s.IndexValues(ctx, "v"); err != nil {
			c.Violate(name, "index values inside a callback: %v", err)
		}
		calls += 4
		if depth > 2 {
			return
		}
		depth++
		defer func() { depth-- }()
		x := randEntry(r, 3)
		var op func() error
		switch r.IntN(6) {
		case 0:
			op = func() error { s.Add(ctx, x); return nil }
		case 1:
			op = func() error { return s.Update(ctx, x) }
		case 2:
			op = func() error { return s.Delete(ctx, x) }
		case 3:
			op = func() error { return s.Accumulate(x.Meta.Source, x.Record) }
		case 4:
			op = func() error { return s.Replace(ctx, []store.Entry{x}) }
		default:
			return
		}
		calls++
		if err := op(); err != nil {
			c.Violate(name, "operation inside a callback: %v", err)
		}
	}
	s = store.NewDefaultCachingStore(store.CacheConfig{
		Indexers: map[string]store.CacheIndexer{"v": func(e store.Entry) []string { return []string{e.Record.Identity()} }},
		EventHandlers: store.EventHandlerFuncs{
			OnAdd:    func(e store.Entry) { inside("add", e, true) },
			OnChange: func(_, e store.Entry) { inside("change", e, true) },
			OnDelete: func(e store.Entry) { inside("delete", e, false) },
		},
	})
	for n := 0; n < 10; n++ {
		e := randEntry(r, 3)
		what := ""
		c.Doing("%s: %d", name, n)
		switch r.IntN(4) {
		case 0:
			what = "add " + show(e)
			s.Add(ctx, e)
		case 1:
			what = "update " + show(e)
			s.Update(ctx, e)
		case 2:
			what = "delete " + show(e)
			s.Delete(ctx, e)
		case 3:
			what = "accumulate " + show(e)
			s.Accumulate(e.Meta.Source, e.Record)
		}
		log = append(log, what)
	}
	c.Count("calls from callbacks", calls)
	c.Case(strings.Join(log, "|"))
}
