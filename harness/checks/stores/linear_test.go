package stores

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/anishathalye/porcupine"
	"github.com/c-kruse/vanflow/store"
)

// The sequential specification: a plain map of entries by key.

const nkeys = 3

type cell struct {
	present   bool
	loc, name int // 0: not set
	src       int
}

type state [nkeys]cell

type op struct {
	kind     string
	key      int
	loc, nam int
	src      int
	repl     state
}

type result struct {
	err   bool
	cells state  // what a query returned
	mask  string // set when a query returned something no map could
}

func (o op) String() string {
	switch o.kind {
	case "get", "delete":
		return fmt.Sprintf("%s(k%d)", o.kind, o.key)
	case "list":
		return "list()"
	case "index":
		return fmt.Sprintf("index(src%d)", o.src)
	case "replace":
		return fmt.Sprintf("replace(%v)", o.repl)
	}
	return fmt.Sprintf("%s(k%d loc=%d name=%d src=%d)", o.kind, o.key, o.loc, o.nam, o.src)
}

func step(st, in, out any) (bool, any) {
	s, o, res := st.(state), in.(op), out.(result)
	if res.mask != "" {
		return false, s
	}
	switch o.kind {
	case "add":
		if s[o.key].present {
			return res.err, s
		}
		if res.err {
			return false, s
		}
		s[o.key] = cell{true, o.loc, o.nam, o.src}
		return true, s
	case "update":
		s[o.key] = cell{true, o.loc, o.nam, o.src}
		return !res.err, s
	case "delete":
		s[o.key] = cell{}
		return !res.err, s
	case "accumulate":
		c := s[o.key]
		if !c.present {
			c = cell{true, 0, 0, o.src}
		}
		if o.loc != 0 {
			c.loc = o.loc
		}
		if o.nam != 0 {
			c.name = o.nam
		}
		s[o.key] = c
		return !res.err, s
	case "replace":
		return !res.err, o.repl
	case "get":
		return !res.err && res.cells[o.key] == s[o.key], s
	case "list":
		return !res.err && res.cells == s, s
	case "index":
		var want state
		for k, c := range s {
			if c.present && c.src == o.src {
				want[k] = c
			}
		}
		return !res.err && res.cells == want, s
	}
	panic(o.kind)
}

var model = porcupine.Model{
	Init: func() any { return state{} },
	Step: step,
	DescribeOperation: func(in, out any) string {
		return fmt.Sprintf("%v -> %+v", in, out)
	},
}

func val(prefix string, n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%s%d", prefix, n)
}

func num(s string) int {
	var n int
	if s == "" {
		return 0
	}
	if _, err := fmt.Sscanf(s[1:], "%d", &n); err != nil {
		return -1
	}
	return n
}

func source(n int) store.SourceRef {
	return store.SourceRef{APIVersion: "1", Type: "T", Name: fmt.Sprintf("s%d", n)}
}

func entryOf(o op) store.Entry {
	rec := site(fmt.Sprintf("k%d", o.key), val("l", o.loc), val("n", o.nam))
	return store.Entry{Meta: store.Metadata{Source: source(o.src)}, TypeMeta: rec.GetTypeMeta(), Record: rec}
}

// cellsOf turns what a query returned into cells.
func cellsOf(es []store.Entry) (result, error) {
	var res result
	for _, e := range es {
		rec, ok := recOf(e)
		if !ok {
			res.mask = fmt.Sprintf("entry without a site record: %+v", e)
			return res, nil
		}
		k := num(rec.ID)
		if k < 0 || k >= nkeys || res.cells[k].present {
			res.mask = fmt.Sprintf("entry %s is unknown or returned twice", show(e))
			return res, nil
		}
		res.cells[k] = cell{true, num(str(rec.Location)), num(str(rec.Name)), num(e.Meta.Source.Name)}
	}
	return res, nil
}

func run(s store.Interface, o op) (result, error) {
	switch o.kind {
	case "add":
		return result{err: s.Add(ctx, entryOf(o)) != nil}, nil
	case "update":
		return result{}, s.Update(ctx, entryOf(o))
	case "delete":
		return result{}, s.Delete(ctx, entryOf(o))
	case "accumulate":
		return result{}, s.Accumulate(source(o.src), entryOf(o).Record)
	case "replace":
		var es []store.Entry
		for k, c := range o.repl {
			if c.present {
				if c.loc%3 == 0 { // of several entries with one key the last stays
					es = append(es, entryOf(op{key: k, loc: 77777, nam: 77777, src: 3 - c.src}))
				}
				es = append(es, entryOf(op{key: k, loc: c.loc, nam: c.name, src: c.src}))
			}
		}
		return result{}, s.Replace(ctx, es)
	case "get":
		g, err := s.Get(ctx, entryOf(o))
		if err != nil || !g.Found {
			return result{}, err
		}
		return cellsOf([]store.Entry{g.Entry})
	case "list":
		set, err := s.List(ctx, o.selector())
		if err != nil {
			return result{}, err
		}
		return cellsOf(set.Entries)
	case "index":
		set, err := s.Index(ctx, store.IndexBySource, store.Entry{Meta: store.Metadata{Source: source(o.src)}}, o.selector())
		if err != nil {
			return result{}, err
		}
		return cellsOf(set.Entries)
	}
	panic(o.kind)
}

func (o op) selector() *store.Selector {
	if o.loc%2 == 0 {
		return nil
	}
	return &store.Selector{}
}

func randOp(r *rand.Rand, id *int) op {
	*id++
	n := *id
	o := op{key: r.IntN(nkeys), src: 1 + r.IntN(2), loc: n}
	switch x := r.IntN(20); {
	case x < 4:
		o.kind = "add"
	case x < 6:
		o.kind = "update"
	case x < 9:
		o.kind = "delete"
	case x < 13:
		o.kind = "accumulate"
		if r.IntN(2) == 0 {
			o.loc, o.nam = 0, n
		}
	case x < 15:
		o.kind = "get"
	case x < 17:
		o.kind = "list"
	case x < 19:
		o.kind = "index"
	default:
		o.kind = "replace"
		o.loc = 0
		for k := range o.repl {
			if r.IntN(2) == 0 {
				*id++
				o.repl[k] = cell{true, *id, 0, 1 + r.IntN(2)}
			}
		}
	}
	return o
}

// newStore is a store over site records whose user code jitters.
func newStore(j *jitter, ev store.EventHandlerFuncs) store.Interface {
	return store.NewDefaultCachingStore(store.CacheConfig{
		Key: func(e store.Entry) (string, error) {
			j.hit()
			return e.Record.Identity(), nil
		},
		Indexers: map[string]store.CacheIndexer{
			store.IndexBySource: func(e store.Entry) []string { j.hit(); return []string{e.Meta.Source.String()} },
			"loc": func(e store.Entry) []string {
				j.hit()
				if rec, ok := recOf(e); ok && rec.Location != nil {
					return []string{*rec.Location}
				}
				return nil
			},
		},
		EventHandlers: ev,
	})
}

func TestB01(t *testing.T) {
	c := mon.Start("B01", "a case is one recorded concurrent history of 3 to 5 clients over 3 keys, checked for linearizability against a plain map, or one run of lists of 50-2500 entries while a writer changes them in an order that shows; distinct by its operations, results and interleaving, non-trivial when at least two operations overlapped")
	histories := c.N(6000, 120000)
	for i := 0; i < histories; i++ {
		name := fmt.Sprintf("history/%d", i)
		r := c.Rand("h", i)
		clients := 3 + r.IntN(3)
		per := 3 + r.IntN(5)
		id := 0
		plan := make([][]op, clients)
		for cl := range plan {
			for k := 0; k < per; k++ {
				plan[cl] = append(plan[cl], randOp(r, &id))
			}
		}
		if i%3 == 0 { // one hot key
			for cl := range plan {
				for k := range plan[cl] {
					plan[cl][k].key = 0
				}
			}
		}
		if c.Skip(name) {
			continue
		}
		j := &jitter{}
		j.n.Store(r.Uint64())
		j.on.Store(i%2 == 0)
		s := newStore(j, store.EventHandlerFuncs{})
		var mu sync.Mutex
		var hist []porcupine.Operation
		var wg sync.WaitGroup
		start := make(chan struct{})
		for cl := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var mine []porcupine.Operation
				<-start
				for _, o := range plan[cl] {
					t0 := tick()
					res, err := run(s, o)
					t1 := tick()
					if err != nil {
						c.Violate(name, "%v failed: %v", o, err)
					}
					mine = append(mine, porcupine.Operation{ClientId: cl, Input: o, Call: t0, Output: res, Return: t1})
				}
				mu.Lock()
				hist = append(hist, mine...)
				mu.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		// the final state is part of the history
		for _, o := range []op{{kind: "list"}, {kind: "index", src: 1}, {kind: "index", src: 2}} {
			t0 := tick()
			res, err := run(s, o)
			if err != nil {
				c.Violate(name, "%v failed: %v", o, err)
			}
			hist = append(hist, porcupine.Operation{ClientId: 0, Input: o, Call: t0, Output: res, Return: tick()})
		}
		verdict, _ := porcupine.CheckOperationsVerbose(model, hist, 30*time.Second)
		switch verdict {
		case porcupine.Illegal:
			c.Violate(name, "the history is not linearizable:\n%s", showHistory(hist))
		case porcupine.Unknown:
			c.Count("undecided histories", 1)
			continue
		}
		ov := overlaps(hist)
		c.Count("operations", len(hist))
		c.Count("overlapping pairs", ov)
		sig := ""
		if ov > 0 {
			sig = showHistory(hist)
			c.Count("histories with overlap", 1)
		}
		c.Case(sig)
		if c.WantSample() && ov > 3 {
			c.Sample(showHistory(hist))
		}
	}
	contest(c)
	crowds(c)
	c.Finish(map[string]int64{"operations": 50000, "histories with overlap": 500, "contests": 1000, "lists of crowds": 1500})
}

func overlaps(h []porcupine.Operation) int {
	n := 0
	for i := range h {
		for k := i + 1; k < len(h); k++ {
			if h[i].Call < h[k].Return && h[k].Call < h[i].Return {
				n++
			}
		}
	}
	return n
}

func showHistory(h []porcupine.Operation) string {
	h = append([]porcupine.Operation(nil), h...)
	sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
	base := h[0].Call
	var b strings.Builder
	for _, o := range h {
		out := o.Output.(result)
		fmt.Fprintf(&b, "[%d,%d] client %d: %v -> err=%v %v %s\n", o.Call-base, o.Return-base, o.ClientId, o.Input, out.err, out.cells, out.mask)
	}
	return b.String()
}

// crowds: lists of many entries, while one writer changes them in an order that
// shows in every list that is the state at some moment.
func crowds(c *mon.Check) {
	for i := 0; i < c.N(60, 800); i++ {
		name := fmt.Sprintf("crowd/%d", i)
		if c.Skip(name) {
			continue
		}
		r := c.Rand("crowd", i)
		n := pick(r, []int{50, 300, 1100, 2500})
		kind := pick(r, []string{"sweep", "sweep", "window", "generations"})
		s := store.NewDefaultCachingStore(store.CacheConfig{Indexers: map[string]store.CacheIndexer{"all": func(store.Entry) []string { return []string{"x"} }}})
		at := func(k, v int) store.Entry {
			rec := site(fmt.Sprintf("k%05d", k), val("l", v), "")
			return store.Entry{Meta: store.Metadata{Source: source(1)}, TypeMeta: rec.GetTypeMeta(), Record: rec}
		}
		whole := func(v int) []store.Entry {
			es := make([]store.Entry, n)
			for k := range es {
				es[k] = at(k, v)
			}
			return es
		}
		if kind != "window" {
			s.Replace(ctx, whole(1))
		}
		stop := make(chan struct{})
		var wg, readers sync.WaitGroup
		how := r.IntN(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := 2; ; v++ {
				for k := 0; k < n; k++ {
					select {
					case <-stop:
						return
					default:
					}
					switch {
					case kind == "generations":
						s.Replace(ctx, whole(v))
						k = n
					case kind == "window" && v%2 == 0:
						s.Add(ctx, at(k, 1))
					case kind == "window":
						s.Delete(ctx, at(k, 1))
					case how == 0:
						s.Update(ctx, at(k, v))
					case how == 1:
						s.Accumulate(source(1), at(k, v).Record)
					default:
						s.Delete(ctx, at(k, v))
						s.Add(ctx, at(k, v))
					}
				}
			}
		}()
		lists := 0
		var mu sync.Mutex
		for w := 0; w < 3; w++ {
			readers.Add(1)
			rr := c.Rand("crowd-r", i, w)
			go func() {
				defer readers.Done()
				for q := 0; q < 20; q++ {
					sel := pick(rr, []*store.Selector{nil, {}, {Ordering: store.Descending}})
					var set store.Set
					var err error
					what := "list"
					if rr.IntN(2) == 0 {
						set, err = s.List(ctx, sel)
					} else {
						what = "index"
						set, err = s.Index(ctx, "all", at(0, 0), sel)
					}
					if err != nil {
						c.Violate(name, "%s failed: %v", what, err)
					}
					vals := make([]int, n) // by key
					for _, e := range set.Entries {
						rec, ok := recOf(e)
						if !ok || num(rec.ID) < 0 || num(rec.ID) >= n || vals[num(rec.ID)] != 0 {
							c.Violate(name, "%s of %d entries has %s, not stored or twice", what, n, show(e))
						}
						vals[num(rec.ID)] = num(str(rec.Location))
					}
					missing, changes := 0, 0
					for k, v := range vals {
						if v == 0 {
							missing++
						}
						if k > 0 && v != vals[k-1] {
							changes++
						}
						switch {
						case kind == "sweep" && k > 0 && v != 0 && vals[k-1] != 0 && v != vals[k-1] && v != vals[k-1]-1:
							c.Violate(name, "%s of %d entries that are changed one after the other: %s has been set to %d and %s to %d", what, n, at(k-1, 0).Record.Identity(), vals[k-1], at(k, 0).Record.Identity(), v)
						}
					}
					switch {
					case kind == "sweep" && how != 2 && missing > 0, kind == "sweep" && missing > 1:
						c.Violate(name, "%s lacks %d of %d entries that are only changed one after the other", what, missing, n)
					case kind == "sweep" && changes > 1 && missing == 0, changes > 2:
						c.Violate(name, "%s of %d entries that are changed one after the other has %d steps in it: %v", what, n, changes, vals)
					case kind == "generations" && (missing > 0 || changes > 0):
						c.Violate(name, "%s during replacements lacks %d of %d entries and mixes %d times", what, missing, n, changes)
					case kind == "window" && changes > 1:
						c.Violate(name, "%s of %d entries that are added, then deleted one after the other has %d steps in it: %v", what, n, changes, vals)
					}
					mu.Lock()
					lists++
					mu.Unlock()
				}
			}()
		}
		readers.Wait()
		close(stop)
		wg.Wait()
		c.Count("lists of crowds", lists)
		c.Case(fmt.Sprint(name, kind, n, how))
	}
}

// contest has many clients add one absent key at the same moment: exactly one
// may succeed and its entry must be the stored one; accumulates of different
// attributes at the same moment must all be merged; and a deletion racing with
// them must leave all or nothing.
func contest(c *mon.Check) {
	rounds := c.N(30000, 600000)
	const clients = 6
	j := &jitter{}
	s := newStore(j, store.EventHandlerFuncs{})
	var barrier, done sync.WaitGroup
	type job struct {
		round int
		kind  int
	}
	jobs := make([]chan job, clients)
	won := make([]bool, clients)
	var gate chan struct{}
	for cl := range jobs {
		jobs[cl] = make(chan job)
		go func() {
			for jb := range jobs[cl] {
				g := gate
				barrier.Done()
				<-g
				switch jb.kind {
				case 0:
					won[cl] = s.Add(ctx, entryOf(op{key: 0, loc: jb.round*clients + cl + 1, src: 1})) == nil
				case 1:
					o := op{key: 1, src: 1}
					if cl%2 == 0 {
						o.loc = jb.round + 1
					} else {
						o.nam = jb.round + 1
					}
					if err := s.Accumulate(source(1), entryOf(o).Record); err != nil {
						c.Violate("contest", "accumulate failed: %v", err)
					}
				}
				done.Done()
			}
		}()
	}
	for i := 0; i < rounds; i++ {
		name := fmt.Sprintf("contest/%d", i)
		kind := i % 2
		gate = make(chan struct{})
		barrier.Add(clients)
		done.Add(clients)
		for cl := range jobs {
			jobs[cl] <- job{i, kind}
		}
		barrier.Wait()
		close(gate)
		done.Wait()
		set, err := s.List(ctx, nil)
		if err != nil {
			c.Violate(name, "list failed: %v", err)
		}
		res, _ := cellsOf(set.Entries)
		switch kind {
		case 0:
			winner, n := -1, 0
			for cl, w := range won {
				if w {
					winner = cl
					n++
				}
			}
			if n != 1 {
				c.Violate(name, "%d of %d concurrent adds of one absent key succeeded", n, clients)
			}
			if res.cells[0].loc != i*clients+winner+1 {
				c.Violate(name, "client %d added the key but the store has %v", winner, showAll(set.Entries))
			}
		case 1:
			if res.cells[1].loc != i+1 || res.cells[1].name != i+1 {
				c.Violate(name, "concurrent accumulates of location %d and name %d left %v", i+1, i+1, showAll(set.Entries))
			}
		}
		if err := s.Delete(ctx, entryOf(op{key: kind})); err != nil {
			c.Violate(name, "delete failed: %v", err)
		}
		c.Count("contests", 1)
		if i%64 == 0 {
			c.Case(name)
		}
	}
	for _, ch := range jobs {
		close(ch)
	}
}
