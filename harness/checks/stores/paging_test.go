package stores

import (
	"encoding/base64"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow/store"
)

// query is a list or an index query, which page alike.
type query struct {
	name string
	run  func(s store.Interface, sel *store.Selector) (store.Set, error)
	in   func(id string) bool
}

// groupOf splits the identities in two index values by a hash.
func groupOf(id string) string {
	n := 0
	for i := 0; i < len(id); i++ {
		n = n*31 + int(id[i])
	}
	return fmt.Sprint(n & 1)
}

func pagingIndexers() map[string]store.CacheIndexer {
	return map[string]store.CacheIndexer{
		"group": func(e store.Entry) []string { return []string{groupOf(e.Record.Identity())} },
		"multi": func(e store.Entry) []string { return []string{"x", groupOf(e.Record.Identity()), "y"} },
	}
}

var queries = []query{
	{"list", func(s store.Interface, sel *store.Selector) (store.Set, error) { return s.List(ctx, sel) }, func(string) bool { return true }},
	{"index group", func(s store.Interface, sel *store.Selector) (store.Set, error) {
		return s.Index(ctx, "group", store.Entry{Record: site(exampleIn("0"), "", "")}, sel)
	}, func(id string) bool { return groupOf(id) == "0" }},
	{"index multi", func(s store.Interface, sel *store.Selector) (store.Set, error) {
		return s.Index(ctx, "multi", store.Entry{Record: site(exampleIn("0"), "", "")}, sel)
	}, func(string) bool { return true }},
}

func exampleIn(g string) string {
	for i := 0; ; i++ {
		if id := fmt.Sprint("ex", i); groupOf(id) == g {
			return id
		}
	}
}

// keyForms are key functions: the order is that of the key, not the identity.
var keyForms = []struct {
	fn  store.KeyFunc
	key func(id string) string
}{
	{nil, func(id string) string { return id }},
	{func(e store.Entry) (string, error) { return reverse(e.Record.Identity()), nil }, reverse},
	{func(e store.Entry) (string, error) { return "\xff\x00" + e.Record.Identity() + "=", nil }, func(id string) string { return "\xff\x00" + id + "=" }},
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

var idPool = func() []string {
	ids := []string{"", "a", "A", "aa", "ab", "a\x00", "a b", "b", "é", "z", "\xff", "\xff\xff", "10", "9", "日本", strings.Repeat("long", 80)}
	for i := 0; i < 60; i++ {
		ids = append(ids, fmt.Sprintf("id-%d", i))
	}
	return ids
}()

func ids(set store.Set) []string {
	out := make([]string, len(set.Entries))
	for i, e := range set.Entries {
		out[i] = e.Record.Identity()
	}
	return out
}

func TestB06(t *testing.T) {
	c := mon.Start("B06", "a case is one selection or one complete walk over the pages of a query, undisturbed or with entries coming and going between and during the pages; distinct by store, selector and query")
	var pages, walks int
	for i := 0; i < c.N(400, 8000); i++ {
		name := fmt.Sprintf("static/%d", i)
		if c.Skip(name) {
			continue
		}
		r := c.Rand("static", i)
		kf := keyForms[r.IntN(len(keyForms))]
		s := store.NewDefaultCachingStore(store.CacheConfig{Key: kf.fn, Indexers: pagingIndexers()})
		present := map[string]bool{}
		n := []int{0, 1, 2, 3, 5, 12, 30, 76}[r.IntN(8)]
		for _, p := range r.Perm(len(idPool))[:n] {
			present[idPool[p]] = true
			if err := s.Add(ctx, store.Entry{Record: site(idPool[p], "x", "")}); err != nil {
				c.Violate(name, "add: %v", err)
			}
		}
		for _, q := range queries {
			var want []string
			for id := range present {
				if q.in(id) {
					want = append(want, id)
				}
			}
			sort.Slice(want, func(a, b int) bool { return kf.key(want[a]) < kf.key(want[b]) })
			desc := make([]string, len(want))
			for k := range want {
				desc[len(want)-1-k] = want[k]
			}
			for _, order := range []store.Ordering{store.Ascending, store.Descending} {
				w := want
				if order == store.Descending {
					w = desc
				}
				// offset and limit
				offs := []int{0, 1, 2, len(w) - 1, len(w), len(w) + 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt}
				lims := []int{0, 1, 2, len(w) - 1, len(w), len(w) + 1, math.MaxInt32, math.MaxInt}
				for k := 0; k < 12; k++ {
					sel := &store.Selector{Offset: pick(r, offs), Limit: pick(r, lims), Ordering: order}
					if sel.Offset < 0 || sel.Limit < 0 {
						continue
					}
					set, err := q.run(s, sel)
					if err != nil {
						c.Violate(name, "%s with %+v: %v", q.name, *sel, err)
					}
					exp := w[min(sel.Offset, len(w)):]
					more := false
					if sel.Limit > 0 && len(exp) > sel.Limit {
						exp, more = exp[:sel.Limit], true
					}
					if got := ids(set); !equal(got, exp) || (set.Continue != "") != more {
						c.Violate(name, "%s with %+v over %q gave %q and token %q, want %q and more=%v", q.name, *sel, w, got, set.Continue, exp, more)
					}
					c.Case(fmt.Sprintf("%d %s %+v", i, q.name, *sel))
					c.Count("selections", 1)
				}
				// the walk, with every small page size
				for lim := 1; lim <= len(w)+2; lim++ {
					if lim > 8 && r.IntN(4) > 0 && lim != len(w) {
						continue
					}
					sel := store.Selector{Limit: lim, Ordering: order}
					off := 0
					if r.IntN(3) == 0 && len(w) > 0 {
						off = r.IntN(len(w))
						sel.Offset = off
					}
					var got []string
					for k := 0; ; k++ {
						if k > len(w)+2 {
							c.Violate(name, "the walk of %s with limit %d does not end", q.name, lim)
						}
						set, err := q.run(s, &sel)
						if err != nil {
							c.Violate(name, "%s with %+v: %v", q.name, sel, err)
						}
						if len(set.Entries) > lim || (set.Continue != "" && len(set.Entries) == 0) {
							c.Violate(name, "%s with %+v: page of %d entries, more=%v", q.name, sel, len(set.Entries), set.Continue != "")
						}
						got = append(got, ids(set)...)
						pages++
						if set.Continue == "" {
							break
						}
						sel.Continue = set.Continue
						if r.IntN(2) == 0 {
							sel.Offset = 0
						}
					}
					if !equal(got, w[off:]) {
						c.Violate(name, "the walk of %s with limit %d, offset %d and order %v visited\n%q\nwant\n%q", q.name, lim, off, order, got, w[off:])
					}
					walks++
					c.Case(fmt.Sprintf("%d %s %d %d walk", i, q.name, order, lim))
				}
			}
		}
		// tokens that are none
		base, err := s.List(ctx, &store.Selector{Limit: 1})
		if err != nil {
			c.Violate(name, "list: %v", err)
		}
		bad := []string{"!", "no token", "AAAA", base64.StdEncoding.EncodeToString([]byte("x")), "===="}
		if tok := base.Continue; tok != "" {
			bad = append(bad, tok[:len(tok)/2-1], "*"+tok, tok+"*")
		}
		for _, q := range queries {
			for _, tok := range bad {
				var err error
				if p := mon.Try(func() { _, err = q.run(s, &store.Selector{Limit: 1, Continue: tok}) }); p != "" {
					c.Violate(name, "%s with the token %q panicked: %s", q.name, tok, p)
				}
				if err == nil {
					c.Violate(name, "%s with the malformed token %q succeeded", q.name, tok)
				}
				c.Count("malformed tokens refused", 1)
			}
			// whatever bytes come as a token, or as an offset, nothing crashes
			for k := 0; k < 6; k++ {
				b := make([]byte, r.IntN(24))
				for x := range b {
					b[x] = byte(r.Uint32())
				}
				if raw, err := base64.StdEncoding.DecodeString(base.Continue); err == nil && len(raw) > 0 && r.IntN(2) == 0 {
					b = append([]byte{}, raw...)
					b[r.IntN(len(b))] ^= byte(1 + r.IntN(255))
				}
				sel := store.Selector{Limit: r.IntN(4), Continue: base64.StdEncoding.EncodeToString(b)}
				if r.IntN(4) == 0 {
					sel = store.Selector{Limit: pick(r, []int{-1, 0, 1, math.MinInt}), Offset: -1 - r.IntN(3)}
				}
				if p := mon.Try(func() { q.run(s, &sel) }); p != "" {
					c.Violate(name, "%s with %+v panicked: %s", q.name, sel, p)
				}
				c.Count("forged selectors survived", 1)
			}
		}
	}
	// many entries, in pages of hundreds and thousands
	for i, n := range []int{1001, 2500, 5000} {
		name := fmt.Sprintf("large/%d", n)
		s := store.NewDefaultCachingStore(store.CacheConfig{Indexers: pagingIndexers()})
		var all []string
		for k := 0; k < n; k++ {
			id := fmt.Sprintf("%x-%d", k*7919%n, k)
			all = append(all, id)
			if err := s.Add(ctx, store.Entry{Record: site(id, "x", "")}); err != nil {
				c.Violate(name, "add: %v", err)
			}
		}
		for _, q := range queries {
			var want []string
			for _, id := range all {
				if q.in(id) {
					want = append(want, id)
				}
			}
			sort.Strings(want)
			for _, lim := range []int{99, 255, 256, 499, 500, 999, 1000, 1001, 1024, 2048, n - 1, n, n + 1} {
				sel := store.Selector{Limit: lim}
				if (i+lim)%2 == 1 {
					sel.Ordering = store.Descending
				}
				var got []string
				for {
					set, err := q.run(s, &sel)
					if err != nil {
						c.Violate(name, "%s with %+v: %v", q.name, sel, err)
					}
					if len(set.Entries) > lim || len(set.Entries) == 0 {
						c.Violate(name, "%s with %+v: page of %d entries", q.name, sel, len(set.Entries))
					}
					got = append(got, ids(set)...)
					pages++
					if set.Continue == "" {
						break
					}
					sel.Continue = set.Continue
				}
				if sel.Ordering == store.Descending {
					slices.Reverse(got)
				}
				if !equal(got, want) {
					c.Violate(name, "the walk of %s with limit %d over %d entries visited %d, or out of order", q.name, lim, len(want), len(got))
				}
				walks++
				c.Case(fmt.Sprintf("large %d %s %d", n, q.name, lim))
			}
		}
	}
	c.Count("pages", pages)
	c.Count("undisturbed walks", walks)
	for i := 0; i < c.N(6000, 120000); i++ {
		name := fmt.Sprintf("between/%d", i)
		if !c.Skip(name) {
			walkWithChanges(c, name, i)
		}
	}
	for i := 0; i < c.N(60, 1500); i++ {
		name := fmt.Sprintf("during/%d", i)
		if !c.Skip(name) {
			walkDuringChanges(c, name, i)
		}
	}
	c.Finish(map[string]int64{"selections": 10000, "undisturbed walks": 5000, "pages": 20000, "malformed tokens refused": 3000, "forged selectors survived": 3000, "disturbed walks": 5000, "changes between pages": 20000, "walks during changes": 500})
}

// judgeWalk: what a walk visited, against what stayed throughout.
func judgeWalk(c *mon.Check, name, what string, got []string, stayed map[string]bool, ever map[string]bool, key func(string) string, desc bool) {
	seen := map[string]bool{}
	for k, id := range got {
		if seen[id] {
			c.Violate(name, "%s: %q was visited twice: %q", what, id, got)
		}
		seen[id] = true
		if !ever[id] {
			c.Violate(name, "%s: %q was never in the store: %q", what, id, got)
		}
		if k > 0 && (key(got[k-1]) < key(id)) == desc {
			c.Violate(name, "%s: %q comes after %q, against the order", what, id, got[k-1])
		}
	}
	for id := range stayed {
		if !seen[id] {
			c.Violate(name, "%s: %q stayed in the store all along and was not visited: %q", what, id, got)
		}
	}
}

func walkWithChanges(c *mon.Check, name string, i int) {
	r := c.Rand("between", i)
	kf := keyForms[r.IntN(len(keyForms))]
	q := pick(r, queries)
	s := store.NewDefaultCachingStore(store.CacheConfig{Key: kf.fn, Indexers: pagingIndexers()})
	present, stayed, ever := map[string]bool{}, map[string]bool{}, map[string]bool{}
	pool := idPool[:8+r.IntN(len(idPool)-8)]
	for _, id := range pool {
		if q.in(id) && r.IntN(2) == 0 {
			present[id], stayed[id], ever[id] = true, true, true
			s.Add(ctx, store.Entry{Record: site(id, "x", "")})
		}
	}
	desc := r.IntN(2) == 0
	sel := store.Selector{Limit: 1 + r.IntN(5)}
	if desc {
		sel.Ordering = store.Descending
	}
	var got, log []string
	for k := 0; ; k++ {
		if k > 200 {
			c.Violate(name, "the walk does not end: %q", got)
		}
		set, err := q.run(s, &sel)
		if err != nil {
			c.Violate(name, "%s: %v after\n%s", q.name, err, strings.Join(log, "\n"))
		}
		if len(set.Entries) > sel.Limit {
			c.Violate(name, "page of %d entries, the limit is %d", len(set.Entries), sel.Limit)
		}
		got = append(got, ids(set)...)
		log = append(log, fmt.Sprintf("page %q", ids(set)))
		if set.Continue == "" {
			break
		}
		sel.Continue = set.Continue
		for n := r.IntN(4); n > 0; n-- {
			id := pick(r, pool)
			if !q.in(id) {
				continue
			}
			// often the entry the page ended with, or one before it
			if len(got) > 0 && r.IntN(2) == 0 {
				id = got[len(got)-1-r.IntN(min(3, len(got)))]
			}
			c.Count("changes between pages", 1)
			if present[id] && r.IntN(3) > 0 {
				delete(present, id)
				delete(stayed, id)
				s.Delete(ctx, store.Entry{Record: site(id, "", "")})
				log = append(log, fmt.Sprintf("delete %q", id))
			} else if present[id] {
				s.Update(ctx, store.Entry{Record: site(id, "changed", "")})
				log = append(log, fmt.Sprintf("update %q", id))
			} else if !seenIn(got, id) { // one that was deleted and comes back may be visited again
				present[id], ever[id] = true, true
				s.Add(ctx, store.Entry{Record: site(id, "new", "")})
				log = append(log, fmt.Sprintf("add %q", id))
			}
		}
	}
	judgeWalk(c, name, q.name+"\n"+strings.Join(log, "\n"), got, stayed, ever, kf.key, desc)
	c.Count("disturbed walks", 1)
	c.Case(strings.Join(log, "|"))
	if c.WantSample() {
		c.Sample(log)
	}
}

func seenIn(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func walkDuringChanges(c *mon.Check, name string, i int) {
	r := c.Rand("during", i)
	kf := keyForms[r.IntN(len(keyForms))]
	j := &jitter{}
	j.on.Store(true)
	key := kf.fn
	s := store.NewDefaultCachingStore(store.CacheConfig{Indexers: pagingIndexers(), Key: func(e store.Entry) (string, error) {
		j.hit()
		if key == nil {
			return e.Record.Identity(), nil
		}
		return key(e)
	}})
	stayed, ever := map[string]bool{}, map[string]bool{}
	var goers []string
	for k, p := range r.Perm(len(idPool)) {
		id := idPool[p]
		ever[id] = true
		if k%2 == 0 {
			stayed[id] = true
			s.Add(ctx, store.Entry{Record: site(id, "x", "")})
		} else {
			goers = append(goers, id)
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < 2; w++ {
		wg.Add(1)
		wr := c.Rand("during-w", i, w)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				e := store.Entry{Record: site(pick(wr, goers), "y", "")}
				if wr.IntN(2) == 0 {
					s.Update(ctx, e)
				} else {
					s.Delete(ctx, e)
				}
			}
		}()
	}
	for k := 0; k < 10; k++ {
		q := pick(r, queries)
		desc := r.IntN(2) == 0
		sel := store.Selector{Limit: 1 + r.IntN(9)}
		if desc {
			sel.Ordering = store.Descending
		}
		var got []string
		for n := 0; ; n++ {
			if n > 500 {
				c.Violate(name, "the walk does not end: %q", got)
			}
			set, err := q.run(s, &sel)
			if err != nil {
				c.Violate(name, "%s: %v", q.name, err)
			}
			got = append(got, ids(set)...)
			if set.Continue == "" {
				break
			}
			sel.Continue = set.Continue
		}
		st := map[string]bool{}
		for id := range stayed {
			if q.in(id) {
				st[id] = true
			}
		}
		judgeWalk(c, name, q.name+" with concurrent changes", got, st, ever, kf.key, desc)
		c.Count("walks during changes", 1)
		c.Case(fmt.Sprint(name, k, got))
	}
	close(stop)
	wg.Wait()
}
