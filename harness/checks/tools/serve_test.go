package tools

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

// TestT01: the views of the serve command against what the sources sent.
func TestT01(t *testing.T) {
	c := mon.Start("T01", "one case is one run of the serve command with 1-5 simulated sources that come up before or after it and send 10-150 record messages each (new records, partial updates, equal identities of different types, kinds not collected, undecodable messages) on their addresses, its views read all the while and compared in full at rest; the long run also has sources fall silent for over 30 s, return, and connections fail; distinct by flags, sources and records")
	c.Assume("identities are unique among the records of a type; a source sends all updates of a record to one address; messages sent while the tool is not connected may be lost")
	for i := 0; i < c.N(6, 60); i++ {
		name := fmt.Sprint("run-", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runServe(c, name, false, i%3 == 1)
		}
	}
	for i := 0; i < c.N(1, 4); i++ {
		name := fmt.Sprint("long-", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runServe(c, name, true, false)
		}
	}
	c.Finish(map[string]int64{"messages": 300, "records": 300, "updates": 300, "equal identities": 10, "views read": 300, "views compared in full": 60, "records seen in views": 3000, "not collected": 50, "sources forgotten": 1, "sources that returned": 1, "record types": 8, "sources that wait to be asked": 2, "records in large messages": 1000})
}

// feed is what a simulated source sends to one address.
type feed struct {
	src  *tool.Source
	addr string
	recs []string // keys of its records
}

// serveModel knows every state each record has been in.
type serveModel struct {
	mu     sync.Mutex
	states map[string][]collected
	shown  map[string]int // index of the state last seen
}

func (m *serveModel) current() []collected {
	m.mu.Lock()
	defer m.mu.Unlock()
	var out []collected
	for _, s := range m.states {
		out = append(out, s[len(s)-1])
	}
	return out
}

// judge checks a view read while records arrive: every record in a state it
// has been in, never an older one than seen before, none gone.
func (m *serveModel) judge(cs []collected, kind string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	seen := map[string]bool{}
	for _, x := range cs {
		k := x.key()
		if kind != "" && x.rec.Type != kind {
			return fmt.Sprintf("a record of another type: %s", x)
		}
		if seen[k] {
			return fmt.Sprintf("twice in one view: %s", x)
		}
		seen[k] = true
		at := -1
		for i := m.shown[k]; i < len(m.states[k]); i++ {
			if m.states[k][i].String() == x.String() {
				at = i
				break
			}
		}
		if at < 0 {
			var st []string
			for _, s := range m.states[k] {
				st = append(st, s.String())
			}
			return fmt.Sprintf("a state the record has not been in, or an older one than shown before (%d):\n%s\nits states:\n%s", m.shown[k], x, strings.Join(st, "\n"))
		}
		m.shown[k] = at
	}
	for k := range m.shown {
		if !seen[k] && (kind == "" || strings.HasPrefix(k, kind+"/")) {
			return fmt.Sprintf("%s was shown before and is gone", k)
		}
	}
	return ""
}

func runServe(c *mon.Check, name string, long, big bool) {
	r := c.Rand(name)
	nt := tool.NewNet(router.Config{Quiet: true}, nil)
	defer nt.Close()
	flows, logs := r.IntN(3) > 0, r.IntN(3) > 0
	if name == "long-0" {
		flows, logs = false, true
	}
	args := []string{"-server", nt.Addr(), fmt.Sprintf("-include-flow-records=%v", flows), fmt.Sprintf("-include-log-records=%v", logs)}
	if r.IntN(2) == 0 {
		args = append(args, "-debug")
	}
	shown := func(kind string) bool {
		return kinds[kind] && (flows || kind != "FlowRecord") && (logs || kind != "LogRecord")
	}
	var srcs []*tool.Source
	for i, n := 0, 1+r.IntN(5); i < n || long && i < 4; i++ {
		id := fmt.Sprint("src", i)
		if r.IntN(4) == 0 {
			id = pick(r, "a.b.c", "Ünï", "x y", "%41", "q\"uote")
			id += fmt.Sprint(i)
		}
		srcs = append(srcs, &tool.Source{ID: id, Version: pick[uint32](r, 1, 1, 0, 7, 70000, 1<<32-1), Type: pick(r, "ROUTER", "CONTROLLER", "odd type"), AltHeartbeats: r.IntN(2) == 0, Beat: 50 * time.Millisecond})
	}
	fed := len(srcs)
	if long { // the last one is to be heard by its heartbeats alone for a while
		srcs[3].Type, srcs[3].AltHeartbeats = "CONTROLLER", true
	}
	if !long && r.IntN(3) > 0 { // one says nothing until it is asked
		shy := &tool.Source{ID: "shy", Version: 1, Type: pick(r, "ROUTER", "CONTROLLER"), Beat: 50 * time.Millisecond}
		shy.SetQuiet(true)
		srcs = append(srcs, shy)
		c.Count("sources that wait to be asked", 1)
	}
	early := r.IntN(len(srcs) + 1)
	for _, s := range srcs[:early] {
		nt.Add(s)
	}
	p := launch(c, name, tool.ServePort, append(args, "serve")...)
	for _, s := range srcs[early:] {
		nt.Add(s)
	}
	m := &serveModel{states: map[string][]collected{}, shown: map[string]int{}}

	// readers
	quit := make(chan struct{})
	var rwg, wg sync.WaitGroup
	paths := []string{""}
	for _, t := range gen.Types {
		if shown(t.Name) {
			paths = append(paths, t.Name)
		}
	}
	get := func(kind string) []collected {
		path := "/"
		if kind != "" {
			path = "/flow/v1/" + kind + "/"
		}
		rep, err := tool.HTTP(patience, "GET", tool.ServePort, path, "")
		if err != nil {
			crashed(c, name, p)
			c.Violate(name, "%s: no response: %v\n%s", path, err, p.Tail())
		}
		v, cs, err := readView(rep)
		if err != nil {
			c.Violate(name, "%s: %v", path, err)
		}
		_ = v
		c.Count("views read", 1)
		c.Count("records seen in views", len(cs))
		return cs
	}
	rr := sub(r)
	rwg.Add(1)
	go func() {
		defer rwg.Done()
		for {
			select {
			case <-quit:
				return
			case <-time.After(ms(rr, 8)):
			}
			kind := pick(rr, paths...)
			if bad := m.judge(get(kind), kind); bad != "" {
				c.Violate(name, "view %q while records arrive: %s", kind, bad)
			}
		}
	}()

	// senders
	attached := func(addr string) bool {
		return nt.Await(patience, func(v router.View) bool { return v.Receivers(addr, true) == 1 })
	}
	var feeds []*feed
	for _, s := range srcs[:fed] {
		feeds = append(feeds, &feed{src: s, addr: s.Address()})
		if flows {
			feeds = append(feeds, &feed{src: s, addr: s.Address() + ".flows"})
		}
		if logs {
			feeds = append(feeds, &feed{src: s, addr: s.Address() + ".logs"})
		}
	}
	ids := 0
	idOf := map[string]int{}
	var idMu sync.Mutex
	newID := func(r *rand.Rand, typ string) string {
		idMu.Lock()
		defer idMu.Unlock()
		for {
			id := pick(r, "", "shared", "shared", "x/y", "Record/", strings.Repeat("long", 20)) + fmt.Sprint(r.IntN(ids/2+2))
			if r.IntN(20) == 0 {
				id = gen.RandID(r)
			}
			if idOf[typ+"|"+id] > 0 {
				ids++
				continue
			}
			for _, t := range gen.Types {
				if idOf[t.Name+"|"+id] > 0 {
					c.Count("equal identities", 1)
					break
				}
			}
			idOf[typ+"|"+id]++
			ids++
			return id
		}
	}
	send := func(r *rand.Rand, f *feed, n int) {
		if !attached(f.addr) {
			crashed(c, name, p)
			c.Violate(name, "the tool does not listen to %s although its source sends beacons\n%s", f.addr, p.Tail())
		}
		for k := 0; k < n; k++ {
			var recs []gen.Abs
			m.mu.Lock()
			for j := r.IntN(5); j >= 0; j-- {
				if len(f.recs) > 0 && r.IntN(2) == 0 {
					key := pick(r, f.recs...)
					st := m.states[key]
					cur := st[len(st)-1]
					rep := gen.Rand(r, typeOf(cur.rec.Type), cur.rec.ID, 0.3)
					recs = append(recs, rep)
					m.states[key] = append(st, collected{cur.src, cur.rec.Merge(rep)})
					c.Count("updates", 1)
					continue
				}
				t := gen.Types[r.IntN(len(gen.Types))]
				a := gen.Rand(r, t, newID(r, t.Name), 0.5)
				recs = append(recs, a)
				if !shown(t.Name) {
					c.Count("not collected", 1)
					continue
				}
				x := collected{refOf(f.src), a}
				m.states[x.key()] = []collected{x}
				f.recs = append(f.recs, x.key())
				c.Count("records", 1)
				c.Seen("record types", t.Name)
			}
			m.mu.Unlock()
			nt.Publish(f.addr, tool.Bytes(gen.RecordMsg(f.addr, recs)))
			c.Count("messages", 1)
			switch r.IntN(12) {
			case 0:
				for {
					hm := gen.RandMessage(r)
					if s := gen.Subject(hm); s == "RECORD" {
						continue
					}
					if b, err := hm.MarshalBinary(); err == nil {
						nt.Publish(f.addr, b)
						break
					}
				}
			case 1, 2, 3:
				time.Sleep(ms(r, 10))
			}
		}
	}
	burst := func(n int) {
		for _, f := range feeds {
			fr := sub(r)
			wg.Add(1)
			go func() { defer wg.Done(); send(fr, f, 1+fr.IntN(n)) }()
		}
		wg.Wait()
	}
	rest := func(when string) {
		var bad string
		ok := within(patience, func() bool {
			bad = diff(showSorted(get("")), showSorted(m.current()))
			return bad == ""
		})
		if !ok {
			crashed(c, name, p)
			c.Violate(name, "%s: the records shown are not the ones collected, %s after all were delivered:\n%s", when, patience, bad)
		}
		for _, kind := range paths {
			var want []collected
			for _, x := range m.current() {
				if kind == "" || x.rec.Type == kind {
					want = append(want, x)
				}
			}
			if bad := diff(showSorted(get(kind)), showSorted(want)); bad != "" {
				c.Violate(name, "%s: view %q is not as collected:\n%s", when, kind, bad)
			}
			c.Count("views compared in full", 1)
		}
	}
	sourcesAre := func(when string, limit time.Duration, want []*tool.Source, either ...*tool.Source) {
		var bad string
		ok := within(limit, func() bool {
			rep, err := tool.HTTP(patience, "GET", tool.ServePort, "/sources/", "")
			if err != nil {
				crashed(c, name, p)
				c.Violate(name, "/sources/: %v\n%s", err, p.Tail())
			}
			var v view
			if v, _, err = readSources(rep); err != nil {
				c.Violate(name, "/sources/: %v", err)
			}
			var got, exp []string
		next:
			for _, e := range v.Data {
				for _, s := range either {
					if refOf(s) == e.Meta.Source {
						continue next
					}
				}
				got = append(got, fmt.Sprintf("%+v", e.Meta.Source))
			}
			for _, s := range want {
				exp = append(exp, fmt.Sprintf("%+v", refOf(s)))
			}
			bad = diff(got, exp)
			return bad == ""
		})
		if !ok {
			crashed(c, name, p)
			c.Violate(name, "%s: the source view is wrong for %s:\n%s", when, limit, bad)
		}
	}
	if big { // one message of hundreds of records after the other
		br, f := sub(r), feeds[0]
		attached(f.addr)
		t := pick(br, typeOf("ProcessRecord"), typeOf("ConnectorRecord"), typeOf("LinkRecord"))
		for k := 0; k < 4; k++ {
			var recs []gen.Abs
			m.mu.Lock()
			for j := 200 + br.IntN(400); j > 0; j-- {
				x := collected{refOf(f.src), gen.Rand(br, t, newID(br, t.Name), 0.2)}
				recs = append(recs, x.rec)
				m.states[x.key()] = []collected{x}
			}
			m.mu.Unlock()
			nt.Publish(f.addr, tool.Bytes(gen.RecordMsg(f.addr, recs)))
			c.Count("records in large messages", len(recs))
		}
	}
	burst(pick(r, 5, 30, 60))
	rest("at rest")
	sourcesAre("at rest", patience, srcs)
	flushed := func(s *tool.Source, n int) {
		if !within(patience, func() bool { return s.Flushes() >= n }) {
			crashed(c, name, p)
			c.Violate(name, "source %s was discovered but not asked for its records\n%s", s.ID, p.Tail())
		}
		c.Count("sources asked for a flush", 1)
	}
	for _, s := range srcs {
		flushed(s, 1)
	}
	checkRoutes(c, name, p, shown)
	if long {
		// some fall silent, one only keeps sending beacons, others go on
		gone, dumb, calm := srcs[0], srcs[1], srcs[3]
		gone.SetAlive(false)
		dumb.SetQuiet(true)
		calm.SetCalm(true)
		t0 := time.Now()
		for i := 0; i < 4; i++ {
			burst2 := feeds
			for _, f := range burst2 {
				if f.src != gone && f.src != dumb && f.src != calm {
					send(r, f, 2)
				}
			}
			time.Sleep(time.Second)
		}
		rest("with silent sources")
		if time.Since(t0) < 25*time.Second {
			sourcesAre("silent for less than 30 s", patience, srcs)
		}
		// all connections fail once, and the tool comes back to it all
		nt.Fault(router.Drop, nil, "")
		time.Sleep(100 * time.Millisecond)
		for _, f := range feeds {
			if f.src != gone && f.src != dumb && f.src != calm {
				send(r, f, 3)
			}
		}
		rest("after a failure")
		time.Sleep(time.Until(t0.Add(29500 * time.Millisecond)))
		sourcesAre("silent for over 30 s", patience, without(srcs, gone, dumb), dumb) // beacons bring the second back at once
		c.Count("sources forgotten", 1)
		rest("after sources were forgotten")
		// the one that was gone returns as another kind of source
		again := &tool.Source{ID: gone.ID, Version: gone.Version + 1, Type: "again " + gone.Type, AltHeartbeats: false, Beat: gone.Beat}
		for _, f := range feeds {
			if f.src == gone {
				f.src, f.recs = again, nil // with records of its own
			}
		}
		srcs[0] = again
		nt.Add(again)
		dumb.SetQuiet(false)
		calm.SetCalm(false)
		sourcesAre("after all returned", patience, srcs)
		flushed(again, 1)
		c.Count("sources that returned", 1)
		for _, f := range feeds {
			send(r, f, 3)
		}
		rest("after all returned")
	}
	close(quit)
	rwg.Wait()
	finish(c, name, p)
	var sig []string
	for _, s := range srcs {
		sig = append(sig, fmt.Sprint(refOf(s)))
	}
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "args": p.Args(), "sources": sig, "records": len(m.states)})
	}
	c.Case(fmt.Sprint(strings.Join(args[2:], " "), sig, len(m.states)))
}

func without(srcs []*tool.Source, no ...*tool.Source) []*tool.Source {
	var out []*tool.Source
	for _, s := range srcs {
		keep := true
		for _, n := range no {
			keep = keep && s != n
		}
		if keep {
			out = append(out, s)
		}
	}
	return out
}

// within retries cond for a while.
func within(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(20 * time.Millisecond) {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}

// readSources parses the source view.
func readSources(rep tool.Reply) (view, int, error) {
	var v view
	if rep.Status != 200 {
		return v, 0, fmt.Errorf("status %d: %.200s", rep.Status, rep.Body)
	}
	if err := unmarshal(rep.Body, &v); err != nil {
		return v, 0, fmt.Errorf("not JSON: %v: %.200q", err, rep.Body)
	}
	return v, len(v.Data), nil
}

// checkRoutes checks what the tool says about paths.
func checkRoutes(c *mon.Check, name string, p *tool.Proc, shown func(string) bool) {
	rep, err := tool.HTTP(patience, "GET", tool.ServePort, "/", "")
	if err != nil {
		c.Violate(name, "/: %v", err)
	}
	v, _, err := readView(rep)
	if err != nil {
		c.Violate(name, "/: %v", err)
	}
	want := []string{"/", "/sources/"}
	for _, t := range gen.Types {
		if shown(t.Name) {
			want = append(want, "/flow/v1/"+t.Name+"/")
		}
	}
	sort.Strings(v.Refs)
	if bad := diff(v.Refs, want); bad != "" {
		c.Violate(name, "the views listed are wrong:\n%s", bad)
	}
	paths := []string{"/nope", "/flow/v1/NopeRecord/", "/flow/v1/", "/flow/", "/SiteRecord/", "/x/y/z", "/flow/v1/HostRecord/"}
	for _, t := range gen.Types {
		if !shown(t.Name) {
			paths = append(paths, "/flow/v1/"+t.Name+"/")
		}
	}
	for _, path := range paths {
		rep, err := tool.HTTP(patience, "GET", tool.ServePort, path, "")
		if err != nil {
			crashed(c, name, p)
			c.Violate(name, "%s: %v", path, err)
		}
		if rep.Status != 404 {
			c.Violate(name, "%s is answered with status %d: %.300s", path, rep.Status, rep.Body)
		}
		c.Count("unknown paths", 1)
	}
}
