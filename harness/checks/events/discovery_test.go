package events

import (
	"context"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/anishathalye/porcupine"
	"github.com/c-kruse/vanflow/eventsource"
)

const beaconAddr = "mc/sfe.all"

// content is what a source was discovered with.
func content(i eventsource.Info) string {
	return fmt.Sprintf("%s v%d %s %s %s", i.ID, i.Version, i.Type, i.Address, i.Direct)
}

// seen is the content and when it was last seen.
func seen(i eventsource.Info) string {
	return content(i) + " seen " + i.LastSeen.UTC().Format(time.RFC3339Nano)
}

func randInfo(r *rand.Rand, id string, n int) eventsource.Info {
	return eventsource.Info{ID: id, Version: pick(r, 0, 1, 2, 1, 2, 65536, 1<<31, 1<<32-1), Type: fmt.Sprintf("T%d", n), Address: pick(r, "", "mc/sfe.x", "é/"+id), Direct: fmt.Sprintf("sfe.%s.%d", id, n)}
}

func beaconOf(i eventsource.Info) *amqp.Message {
	return gen.BeaconMsg(i.ID, uint32(i.Version), i.Type, i.Address, i.Direct)
}

// TestD01: membership and announcements against a model.
func TestD01(t *testing.T) {
	c := mon.Start("D01", "one case is one generated run: either 10-120 beacons, additions and removals one at a time against a map model, or 2-6 goroutines doing them at once (checked per source for linearizability) with callbacks that are slow, block for an hour or call back into discovery, and bursts of up to 400 changes; distinct by the drawn sequence of operations")
	for i := 0; i < c.N(1200, 20000); i++ {
		name := fmt.Sprintf("sequential-%d", i)
		bubble(t, c, name, func() { runD01Seq(c, name) })
	}
	for i := 0; i < c.N(900, 15000); i++ {
		name := fmt.Sprintf("concurrent-%d", i)
		bubble(t, c, name, func() { runD01Conc(c, name) })
	}
	c.Finish(map[string]int64{"announcements": 20000, "rediscoveries": 2000, "operations": 50000, "bursts beyond 32": 100, "bursts of thousands": 6, "operations during a callback": 2000, "operations from callbacks": 1000, "runs without one of the handlers": 200})
}

func runD01Seq(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	opts := eventsource.DiscoveryOptions{}
	addr := beaconAddr
	if r.IntN(3) == 0 {
		opts.BeaconAddress, addr = "other/address", "other/address"
	}
	d := eventsource.NewDiscovery(net.Container(), opts)
	ctx, cancel := context.WithCancel(bg)
	var mu sync.Mutex
	var got []string
	deaf := map[string]bool{} // handlers that are not there
	if x := r.IntN(8); x < 3 {
		deaf["D"], deaf["F"] = x != 1, x != 0
		c.Count("runs without one of the handlers", 1)
	}
	done := make(chan error, 1)
	run := func() {
		go func() {
			var h eventsource.DiscoveryHandlers
			if !deaf["D"] {
				h.Discovered = func(i eventsource.Info) { mu.Lock(); got = append(got, i.ID+"|D "+seen(i)); mu.Unlock() }
			}
			if !deaf["F"] {
				h.Forgotten = func(i eventsource.Info) { mu.Lock(); got = append(got, i.ID+"|F "+seen(i)); mu.Unlock() }
			}
			done <- d.Run(ctx, h)
		}()
		synctest.Wait()
	}
	started := r.IntN(3) > 0 // otherwise additions and removals come first
	if started {
		run()
	}
	model := map[string]eventsource.Info{}
	once := map[string]bool{}
	var want []string
	say := func(id, kind, what string) {
		if !deaf[kind] {
			want = append(want, id+"|"+kind+" "+what)
		}
	}
	ids := []string{"a", "b", "c", "", "é"}[:1+r.IntN(5)]
	if r.IntN(4) == 0 { // long ones, alike at the start or the end
		long := strings.Repeat("0123456789", 1+r.IntN(500))
		ids = []string{long, long + "1", "1" + long, long[:len(long)/2], long + long}
	}
	n := 10 + r.IntN(110)
	startAt := r.IntN(n)
	var trace []string
	for i := 0; i < n; i++ {
		if !started && i == startAt {
			started = true
			run()
		}
		time.Sleep(dur(r, 3*time.Second))
		id := ids[r.IntN(len(ids))]
		info := randInfo(r, id, i)
		_, known := model[id]
		op := r.IntN(5)
		if op < 2 && !started {
			op = 2
		}
		switch {
		case op < 2:
			trace = append(trace, "beacon "+content(info))
			net.Inject(addr, gen.Dress(r, beaconOf(info)))
			synctest.Wait()
			info.LastSeen = time.Now()
			if known {
				m := model[id]
				m.LastSeen = info.LastSeen
				model[id] = m
			} else {
				model[id] = info
				say(id, "D", seen(info))
			}
		case op < 4:
			if r.IntN(2) == 0 {
				info.LastSeen = time.Now().Add(-time.Duration(r.IntN(1e6)))
			}
			trace = append(trace, "add "+content(info))
			if ok := d.Add(info); ok == known {
				c.Violate(name, "Add says %v of a source whose presence is %v\n%s", ok, known, strings.Join(trace, "\n"))
			}
			if !known {
				model[id] = info
				say(id, "D", seen(info))
			}
		default:
			trace = append(trace, "forget "+id)
			if ok := d.Forget(id); ok != known {
				c.Violate(name, "Forget says %v of a source whose presence is %v\n%s", ok, known, strings.Join(trace, "\n"))
			}
			if known {
				say(id, "F", seen(model[id]))
				delete(model, id)
			}
		}
		c.Count("operations", 1)
		if _, now := model[id]; now && !known {
			if once[id] {
				c.Count("rediscoveries", 1)
			}
			once[id] = true
		}
		synctest.Wait()
		// what is known
		list := d.List()
		sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
		var have, exp []string
		for _, x := range list {
			have = append(have, content(x)+" seen "+x.LastSeen.UTC().String())
		}
		for _, x := range model {
			exp = append(exp, content(x)+" seen "+x.LastSeen.UTC().String())
		}
		sort.Strings(have)
		sort.Strings(exp)
		if strings.Join(have, "\n") != strings.Join(exp, "\n") {
			c.Violate(name, "List is\n%s\nexpected\n%s\nafter\n%s", strings.Join(have, "\n"), strings.Join(exp, "\n"), strings.Join(trace, "\n"))
		}
		for _, id := range ids {
			x, ok := d.Get(id)
			m, mok := model[id]
			if ok != mok || ok && (content(x) != content(m) || !x.LastSeen.Equal(m.LastSeen)) {
				c.Violate(name, "Get(%q) is %v %v, expected %v %v after\n%s", id, x, ok, m, mok, strings.Join(trace, "\n"))
			}
		}
		if started {
			mu.Lock()
			compareCalls(c, name, got, want, trace)
			mu.Unlock()
		}
	}
	if !started {
		run()
	}
	time.Sleep(time.Second)
	mu.Lock()
	compareCalls(c, name, got, want, trace)
	mu.Unlock()
	c.Count("announcements", len(want))
	cancel()
	<-done
	c.Case(strings.Join(trace, "\n"))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "operations": trace, "callbacks": want})
	}
}

// compareCalls compares the callbacks of each source, in order.
func compareCalls(c *mon.Check, name string, got, want, trace []string) {
	split := func(xs []string) map[string][]string {
		m := map[string][]string{}
		for _, x := range xs {
			id, what, _ := strings.Cut(x, "|")
			m[id] = append(m[id], what)
		}
		return m
	}
	g, w := split(got), split(want)
	for id := range w {
		if strings.Join(g[id], "\n") != strings.Join(w[id], "\n") {
			c.Violate(name, "callbacks of source %q:\n%s\nexpected:\n%s\nafter\n%s", id, strings.Join(g[id], "\n"), strings.Join(w[id], "\n"), strings.Join(trace, "\n"))
		}
	}
	for id := range g {
		if w[id] == nil {
			c.Violate(name, "callbacks of source %q, which did not change: %v", id, g[id])
		}
	}
}

type dOp struct {
	op      string // add, forget, get, beacon
	id      string
	content string
}
type dRes struct {
	ok      bool
	content string
}

// discoveryModel is one source: its content, or "" when unknown.
var discoveryModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		for _, o := range h {
			id := o.Input.(dOp).id
			m[id] = append(m[id], o)
		}
		var out [][]porcupine.Operation
		for _, v := range m {
			out = append(out, v)
		}
		return out
	},
	Init: func() any { return "" },
	Step: func(state, in, out any) (bool, any) {
		s, i, o := state.(string), in.(dOp), out.(dRes)
		switch i.op {
		case "add":
			if s == "" {
				return o.ok, i.content
			}
			return !o.ok, s
		case "beacon":
			if s == "" {
				return true, i.content
			}
			return true, s
		case "forget":
			return o.ok == (s != ""), ""
		default:
			return o.ok == (s != "") && o.content == s, s
		}
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%v -> %v", in, out) },
}

func runD01Conc(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
	ctx, cancel := context.WithCancel(bg)
	mode := r.IntN(5) // what callbacks do
	var mu sync.Mutex
	var got []string
	inCallback := false
	var ops []porcupine.Operation
	var clock int64
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	const watch = time.Second
	do := func(client int, op dOp, info eventsource.Info) dRes {
		call := tick()
		t0 := time.Now()
		var res dRes
		switch op.op {
		case "add":
			res.ok = d.Add(info)
		case "forget":
			res.ok = d.Forget(op.id)
		case "get":
			var i eventsource.Info
			if i, res.ok = d.Get(op.id); res.ok {
				res.content = content(i)
			}
		case "list":
			d.List()
		}
		if dt := time.Since(t0); dt > watch {
			c.Violate(name, "%v took %s (callback mode %d)", op, dt, mode)
		}
		c.Count("operations", 1)
		mu.Lock()
		defer mu.Unlock()
		if inCallback {
			c.Count("operations during a callback", 1)
		}
		clock++
		if op.op != "list" {
			ops = append(ops, porcupine.Operation{ClientId: client, Input: op, Output: res, Call: call, Return: clock})
		}
		return res
	}
	ids := []string{"a", "b", "c", "d"}
	burst := r.IntN(4) == 0
	cr := c.Rand(name, "callbacks")
	nth := 0
	on := func(kind string) func(eventsource.Info) {
		return func(i eventsource.Info) {
			mu.Lock()
			got = append(got, i.ID+"|"+kind+" "+content(i))
			inCallback = true
			nth++
			k := nth
			mu.Unlock()
			switch mode {
			case 1:
				time.Sleep(time.Duration(cr.IntN(3000)) * time.Microsecond)
			case 2:
				if k == 1 {
					time.Sleep(time.Hour)
				}
			case 3:
				c.Count("operations from callbacks", 1)
				switch cr.IntN(4) {
				case 0:
					do(100, dOp{op: "get", id: i.ID}, i)
				case 1:
					do(100, dOp{op: "list"}, i)
				case 2:
					if k < 400 {
						do(100, dOp{op: "forget", id: i.ID}, i)
					}
				case 3:
					if k < 400 {
						x := randInfo(cr, ids[cr.IntN(4)], 100000+k)
						do(100, dOp{op: "add", id: x.ID, content: content(x)}, x)
					}
				}
			case 4: // many changes from within one callback
				if k == 1 {
					for j := 0; j < 60; j++ {
						x := randInfo(cr, fmt.Sprintf("n%d", j), 200000+j)
						do(100, dOp{op: "add", id: x.ID, content: content(x)}, x)
						c.Count("operations from callbacks", 1)
					}
				}
			}
			mu.Lock()
			inCallback = false
			mu.Unlock()
		}
	}
	done := make(chan error, 1)
	start := func() {
		go func() {
			done <- d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: on("D"), Forgotten: on("F")})
		}()
	}
	start()
	synctest.Wait()
	var wg sync.WaitGroup
	workers := 2 + r.IntN(5)
	per := 10 + r.IntN(15)
	if burst {
		c.Count("bursts beyond 32", 1)
	}
	var beacons []porcupine.Operation
	sig := fmt.Sprint(mode, workers, per, burst)
	for w := 0; w < workers; w++ {
		wr := c.Rand(name, "worker", w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				info := randInfo(wr, ids[wr.IntN(len(ids))], w*1000+i)
				if burst && wr.IntN(2) == 0 {
					info.ID = fmt.Sprintf("x%d-%d", w, i)
				}
				op := dOp{id: info.ID, content: content(info)}
				if wr.IntN(4) == 0 {
					time.Sleep(time.Duration(wr.IntN(500)) * time.Microsecond)
				}
				switch wr.IntN(8) {
				case 0, 1, 2:
					op.op = "add"
				case 3, 4:
					op.op = "forget"
				case 5:
					op.op = "get"
				default:
					op.op = "beacon"
					call := tick()
					net.Inject(beaconAddr, beaconOf(info))
					mu.Lock()
					beacons = append(beacons, porcupine.Operation{ClientId: 1000 + w*1000 + i, Input: op, Output: dRes{}, Call: call})
					mu.Unlock()
					continue
				}
				do(w, op, info)
			}
		}()
	}
	if burst { // far more changes at once than any buffer
		wg.Add(1)
		go func() {
			defer wg.Done()
			br := c.Rand(name, "burst")
			n := 200
			if br.IntN(12) == 0 {
				n = 5000
				c.Count("bursts of thousands", 1)
			}
			for i := 0; i < n; i++ {
				x := randInfo(br, fmt.Sprintf("burst%d", i), i)
				do(50, dOp{op: "add", id: x.ID, content: content(x)}, x)
				if i%2 == 0 {
					do(50, dOp{op: "forget", id: x.ID, content: content(x)}, x)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(2 * time.Hour)
	synctest.Wait()
	mu.Lock()
	clock++
	end := clock
	mu.Unlock()
	for i := range beacons {
		beacons[i].Return = end
	}
	list := d.List()
	present := map[string]string{}
	for _, x := range list {
		present[x.ID] = content(x)
	}
	hist := append(append([]porcupine.Operation(nil), ops...), beacons...)
	known := map[string]bool{}
	for _, o := range hist {
		known[o.Input.(dOp).id] = true
	}
	for id := range known {
		cont, ok := present[id]
		hist = append(hist, porcupine.Operation{ClientId: 99, Input: dOp{op: "get", id: id}, Output: dRes{ok, cont}, Call: end + 1, Return: end + 2})
	}
	if res := porcupine.CheckOperationsTimeout(discoveryModel, hist, 0); res != porcupine.Ok {
		var lines []string
		for _, o := range hist {
			lines = append(lines, fmt.Sprintf("[%d,%d] %v -> %v", o.Call, o.Return, o.Input, o.Output))
		}
		sort.Strings(lines)
		c.Violate(name, "no order of the operations explains their results:\n%s", strings.Join(lines, "\n"))
	}
	// announcements
	mu.Lock()
	seq := map[string][]string{}
	for _, x := range got {
		id, what, _ := strings.Cut(x, "|")
		seq[id] = append(seq[id], what)
	}
	contents := map[string]map[string]bool{}
	adds, forgets := map[string][]string{}, map[string]int{}
	for _, o := range hist {
		i, res := o.Input.(dOp), o.Output.(dRes)
		if contents[i.id] == nil {
			contents[i.id] = map[string]bool{}
		}
		switch i.op {
		case "add":
			if res.ok {
				adds[i.id] = append(adds[i.id], i.content)
				contents[i.id][i.content] = true
			}
		case "beacon":
			contents[i.id][i.content] = true
		case "forget":
			if res.ok {
				forgets[i.id]++
			}
		}
	}
	all := strings.Join(got, "\n")
	for id, s := range seq {
		nd, nf := 0, 0
		announced := map[string]int{}
		last := ""
		for k, x := range s {
			kind, cont := x[:1], x[2:]
			if (kind == "D") != (k%2 == 0) {
				c.Violate(name, "callbacks of source %q do not alternate: %v\nall callbacks:\n%s", id, s, all)
			}
			if kind == "D" {
				nd++
				announced[cont]++
				last = cont
				if !contents[id][cont] || announced[cont] > 1 {
					c.Violate(name, "source %q was announced with %q, which is not how it was discovered (or announced twice): %v", id, cont, s)
				}
			} else {
				nf++
				if cont != last {
					c.Violate(name, "source %q was announced with %q and forgotten with %q", id, last, cont)
				}
			}
		}
		if nf != forgets[id] {
			c.Violate(name, "source %q was removed %d times, %d times announced as forgotten: %v", id, forgets[id], nf, s)
		}
		for _, a := range adds[id] {
			if announced[a] != 1 {
				c.Violate(name, "source %q was added as %q, announced: %v", id, a, s)
			}
		}
		if cont, ok := present[id]; ok != (nd > nf) || ok && cont != last {
			c.Violate(name, "source %q present=%v (%s) at the end, callbacks: %v", id, ok, cont, s)
		}
		c.Count("rediscoveries", max(0, nd-1))
		c.Count("announcements", len(s))
	}
	for id := range known {
		if seq[id] == nil && (len(adds[id]) > 0 || forgets[id] > 0 || present[id] != "") {
			c.Violate(name, "source %q changed but no callback was called; all callbacks:\n%s", id, all)
		}
		sig += fmt.Sprint(id, len(seq[id]))
	}
	mu.Unlock()
	cancel()
	<-done
	c.Case(sig)
}

// TestD02: when watched sources are forgotten, in virtual time.
func TestD02(t *testing.T) {
	c := mon.Start("D02", "one case is one generated run in virtual time: a watch with random timeout, grace period and update interval over a client receiving 0-40 heartbeats, records and malformed messages in random bursts and pauses, with beacons and cancellation in between; the last-seen time is sampled throughout; or 1-6 sources at once, each watched, forgotten or left alone and watched again up to 5 times; distinct by the drawn schedule")
	for i := 0; i < c.N(4000, 80000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runD02(c, name) })
	}
	for i := 0; i < c.N(300, 5000); i++ {
		name := fmt.Sprintf("again-%d", i)
		bubble(t, c, name, func() { runD02Again(c, name) })
	}
	c.Finish(map[string]int64{"watches of a source watched before": 900, "heard after being forgotten": 150, "forgotten after activity": 1000, "forgotten unheard": 300, "never forgotten": 200, "cancelled": 250, "samples": 20000, "activities": 8000})
}

func runD02(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	ms := func(n int) time.Duration { return time.Duration(1+r.IntN(n)) * time.Millisecond }
	cfg := eventsource.WatchConfig{ID: "s"}
	if r.IntN(8) > 0 {
		cfg.Timeout = ms(pick(r, 20, 500, 10000))
	}
	if r.IntN(2) == 0 {
		cfg.GracePeriod = ms(pick(r, 20, 500, 10000))
	}
	if r.IntN(4) > 0 {
		cfg.DiscoveryUpdateInterval = ms(pick(r, 10, 300, 3000, 30000))
	}
	interval := cfg.DiscoveryUpdateInterval
	if interval <= 0 {
		interval = time.Second
	}
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
	src := source("s")
	ctx, cancel := context.WithCancel(bg)
	dctx, dcancel := context.WithCancel(bg)
	var mu sync.Mutex
	var forgotten []time.Time
	dDone := make(chan error, 1)
	go func() {
		dDone <- d.Run(dctx, eventsource.DiscoveryHandlers{Forgotten: func(i eventsource.Info) {
			mu.Lock()
			defer mu.Unlock()
			forgotten = append(forgotten, time.Now())
		}})
	}()
	other := source("other")
	d.Add(other)
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
	if r.IntN(10) == 0 {
		if err := d.NewWatchClient(ctx, eventsource.WatchConfig{ID: "s", Client: client}); err == nil {
			c.Violate(name, "watching an unknown source succeeded")
		}
	}
	d.Add(src)
	ps := providers(src)
	addrs := sortedAddrs(src)[:1+r.IntN(3)]
	for _, a := range addrs {
		client.Listen(bg, ps[a])
	}
	synctest.Wait()
	time.Sleep(dur(r, time.Second))
	cfg.Client = client
	t0 := time.Now()
	if err := d.NewWatchClient(ctx, cfg); err != nil {
		c.Violate(name, "watching a known source failed: %v", err)
	}
	// synctest.Wait lets the watch arm its timers at t0
	synctest.Wait()
	var activity, beacons []time.Time
	n := r.IntN(40)
	scale := cfg.Timeout
	if scale == 0 || r.IntN(4) == 0 {
		scale = interval
	}
	cancelled := time.Time{}
	cancelAt := -1
	if n > 0 && r.IntN(4) == 0 {
		cancelAt = r.IntN(n)
	}
	var last time.Time // last LastSeen sampled
	gone := func() bool { mu.Lock(); defer mu.Unlock(); return len(forgotten) > 0 }
	sample := func() {
		synctest.Wait()
		if gone() {
			return
		}
		now := time.Now()
		i, ok := d.Get("s")
		if !ok {
			c.Violate(name, "the source is unknown %s after the watch began, though it was not announced as forgotten", now.Sub(t0))
		}
		c.Count("samples", 1)
		if i.LastSeen.Before(last) {
			c.Violate(name, "LastSeen went back from %s to %s", last, i.LastSeen)
		}
		last = i.LastSeen
		var due, latest time.Time
		for _, a := range activity {
			if !a.Add(interval).After(now) && a.After(due) && (cancelled.IsZero() || a.Add(interval).Before(cancelled)) {
				due = a
			}
			if a.After(latest) {
				latest = a
			}
		}
		for _, b := range beacons {
			if b.After(due) {
				due = b
			}
			if b.After(latest) {
				latest = b
			}
		}
		if i.LastSeen.Before(due) || i.LastSeen.After(latest) {
			c.Violate(name, "%s after the watch began LastSeen is %s; activity at %s, beacons at %s, update interval %s", now.Sub(t0), rel(i.LastSeen, t0), rels(activity, t0), rels(beacons, t0), interval)
		}
	}
	for i := 0; i < n && !gone(); i++ {
		var gap time.Duration
		switch r.IntN(8) {
		case 0: // around the timeout
			gap = cfg.Timeout + time.Duration(r.IntN(2001)-1000)*time.Microsecond
		case 1:
			gap = time.Duration(r.Int64N(int64(2*scale) + 1))
		case 2:
			gap = cfg.GracePeriod
		default:
			gap = time.Duration(r.Int64N(int64(scale)/2 + 1))
		}
		if gap < 0 {
			gap = 0
		}
		for gap > 0 {
			step := min(gap, time.Duration(r.Int64N(int64(interval)+1))+time.Microsecond)
			time.Sleep(step)
			gap -= step
			sample()
		}
		time.Sleep(time.Duration(1+r.IntN(999)) * time.Nanosecond) // never on a timer's instant
		if i == cancelAt {
			cancelled = time.Now()
			cancel()
			break
		}
		if gone() {
			break
		}
		if r.IntN(6) == 0 {
			net.Inject(beaconAddr, beaconOf(src))
			synctest.Wait()
			beacons = append(beacons, time.Now())
			continue
		}
		tr := randTraffic(r, addrs[i%len(addrs)], i)
		if tr.kind == "H" && r.IntN(3) > 0 { // the source has a clock of its own
			now := time.Now().Add(pick(r, 0, -time.Microsecond, -dur(r, time.Second), -dur(r, time.Minute), -2*time.Hour, dur(r, time.Second), 3*time.Hour))
			tr.m = gen.HeartbeatMsg("s", 1, uint64(now.UnixMicro()))
		}
		net.Inject(tr.addr, tr.m)
		synctest.Wait()
		if tr.kind != "" {
			activity = append(activity, time.Now())
			c.Count("activities", 1)
		}
	}
	if cfg.Timeout > 0 && cancelled.IsZero() {
		time.Sleep(2*(cfg.GracePeriod+2*cfg.Timeout+interval) + 5*time.Second)
	} else {
		time.Sleep(40*interval + 4*time.Second)
	}
	sample()
	what := func() string {
		return fmt.Sprintf("timeout %s, grace %s, interval %s, activity at %s, cancelled %s, forgotten at %s", cfg.Timeout, cfg.GracePeriod, interval, rels(activity, t0), rel(cancelled, t0), rels(forgotten, t0))
	}
	mu.Lock()
	if len(forgotten) > 1 {
		c.Violate(name, "forgotten %d times: %s", len(forgotten), what())
	}
	if len(forgotten) == 1 {
		f := forgotten[0]
		if cfg.Timeout <= 0 {
			c.Violate(name, "forgotten without a timeout: %s", what())
		}
		if !cancelled.IsZero() && !f.Before(cancelled) {
			c.Violate(name, "forgotten after the watch was cancelled: %s", what())
		}
		ref := t0.Add(cfg.GracePeriod)
		heard := false
		for _, a := range activity {
			if a.After(f) {
				continue
			}
			heard = true
			if f.Sub(a) < cfg.Timeout {
				c.Violate(name, "forgotten %s after activity: %s", f.Sub(a), what())
			}
			if a.After(ref) {
				ref = a
			}
		}
		if !heard && f.Before(t0.Add(cfg.GracePeriod+cfg.Timeout)) {
			c.Violate(name, "forgotten too early: %s", what())
		}
		if latest := ref.Add(cfg.Timeout + min(cfg.Timeout, interval)); f.After(latest) {
			c.Violate(name, "forgotten too late, %s after %s: %s", f.Sub(latest), latest.Sub(t0), what())
		}
		if heard {
			c.Count("forgotten after activity", 1)
		} else {
			c.Count("forgotten unheard", 1)
		}
		if _, ok := d.Get("s"); ok && len(beacons) == 0 {
			c.Violate(name, "still known after being forgotten: %s", what())
		}
	} else {
		if cfg.Timeout > 0 && cancelled.IsZero() {
			c.Violate(name, "not forgotten at all: %s", what())
		}
		c.Count("never forgotten", 1)
		if _, ok := d.Get("s"); !ok {
			c.Violate(name, "unknown without an announcement: %s", what())
		}
	}
	if !cancelled.IsZero() {
		c.Count("cancelled", 1)
	}
	ended := len(forgotten) > 0 || !cancelled.IsZero()
	mu.Unlock()
	if _, ok := d.Get("other"); !ok {
		c.Violate(name, "another source was forgotten")
	}
	openRecv := 0
	for _, a := range addrs {
		openRecv += net.Receivers(a)
	}
	if ended && openRecv > 0 {
		c.Violate(name, "the watch has ended but its client still has %d receivers open: %s", openRecv, what())
	}
	if !ended && openRecv != len(addrs) {
		c.Violate(name, "the watch goes on but only %d of %d receivers of its client are open: %s", openRecv, len(addrs), what())
	}
	cancel()
	dcancel()
	<-dDone
	time.Sleep(time.Second)
	synctest.Wait()
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "still open after everything was cancelled: %v", open)
	}
	c.Case(fmt.Sprint(cfg.Timeout, cfg.GracePeriod, interval, len(activity), len(beacons), cancelAt))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "what": what()})
	}
}

// runD02Again: sources come, are watched, go, and come again.
func runD02Again(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
	dctx, dcancel := context.WithCancel(bg)
	var mu sync.Mutex
	seen := map[string][]string{}
	on := func(kind string) func(eventsource.Info) {
		return func(i eventsource.Info) {
			mu.Lock()
			defer mu.Unlock()
			seen[i.ID] = append(seen[i.ID], kind+i.Address)
		}
	}
	dDone := make(chan error, 1)
	go func() {
		dDone <- d.Run(dctx, eventsource.DiscoveryHandlers{Discovered: on("+"), Forgotten: on("-")})
	}()
	synctest.Wait()
	sources := 1 + r.IntN(6)
	sig := ""
	var wg sync.WaitGroup
	for n := 0; n < sources; n++ {
		r := c.Rand(name, "source", n)
		id := fmt.Sprintf("s%d", n)
		rounds := 1 + r.IntN(5)
		sig += fmt.Sprint(rounds, " ")
		wg.Add(1)
		go func() {
			defer wg.Done()
			var want []string
			for k := 0; k < rounds; k++ {
				src := source(id)
				if r.IntN(2) == 0 {
					src.Address = fmt.Sprintf("mc/sfe.%s.%d", id, k)
				}
				if r.IntN(2) == 0 {
					net.Inject(beaconAddr, beaconOf(src))
					time.Sleep(time.Nanosecond)
				} else if !d.Add(src) {
					c.Violate(name, "source %s cannot be added in round %d", id, k)
				}
				want = append(want, "+"+src.Address)
				if i, ok := d.Get(id); !ok || i.Address != src.Address {
					c.Violate(name, "source %s is %v (%v) when discovered in round %d", id, i, ok, k)
				}
				ctx, cancel := context.WithCancel(bg)
				cfg := eventsource.WatchConfig{ID: id, Timeout: time.Duration(100+r.IntN(5000)) * time.Millisecond, GracePeriod: time.Duration(r.IntN(2)*r.IntN(8000)) * time.Millisecond, DiscoveryUpdateInterval: time.Duration(20+r.IntN(1000)) * time.Millisecond}
				before := net.Receivers(src.Address)
				watches := 1
				if r.IntN(4) == 0 {
					watches = 2 // twice, by clients that hear the same
				}
				for i := 0; i < watches; i++ {
					cfg.Client = eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
					cfg.Client.Listen(bg, eventsource.FromSourceAddress())
					if err := d.NewWatchClient(ctx, cfg); err != nil {
						c.Violate(name, "watching source %s failed in round %d: %v", id, k, err)
					}
					if k > 0 {
						c.Count("watches of a source watched before", 1)
					}
				}
				ref := time.Now().Add(cfg.GracePeriod)
				what := fmt.Sprintf("round %d of %s: %d watches, timeout %s, grace %s, interval %s", k, id, watches, cfg.Timeout, cfg.GracePeriod, cfg.DiscoveryUpdateInterval)
				// heard for a while
				last := time.Time{}
				for i := r.IntN(25); i > 0; i-- {
					time.Sleep(time.Duration(r.Int64N(int64(cfg.Timeout)-2e6)) + 1111)
					net.Inject(src.Address, gen.HeartbeatMsg(id, 1, uint64(time.Now().UnixMicro())))
					last = time.Now()
					c.Count("activities", 1)
					if _, ok := d.Get(id); !ok {
						c.Violate(name, "forgotten although heard all the time: %s", what)
					}
				}
				if last.After(ref) {
					ref = last
				}
				if r.IntN(5) == 0 {
					// forgotten by hand, but heard for some more time: stays so
					time.Sleep(time.Duration(r.Int64N(int64(cfg.Timeout)-2e6)) + 1)
					if !d.Forget(id) {
						c.Violate(name, "cannot be forgotten: %s", what)
					}
					for i := 1 + r.IntN(6); i > 0; i-- {
						net.Inject(src.Address, gen.HeartbeatMsg(id, 1, uint64(time.Now().UnixMicro())))
						time.Sleep(time.Duration(r.Int64N(int64(cfg.Timeout))) + 1)
						if i, ok := d.Get(id); ok {
							c.Violate(name, "known as %v after having been forgotten, because its client heard it: %s", i, what)
						}
						for _, i := range d.List() {
							if i.ID == id {
								c.Violate(name, "listed as %v after having been forgotten, because its client heard it: %s", i, what)
							}
						}
					}
					c.Count("heard after being forgotten", 1)
					time.Sleep(2*(cfg.Timeout+cfg.GracePeriod+cfg.DiscoveryUpdateInterval) + time.Second)
				} else if r.IntN(3) == 0 {
					// left alone: known from then on
					time.Sleep(time.Duration(r.Int64N(int64(cfg.Timeout)-2e6)) + 1)
					if _, ok := d.Get(id); !ok {
						c.Violate(name, "forgotten %s after activity: %s", time.Since(last), what)
					}
					cancel()
					time.Sleep(5*(cfg.Timeout+cfg.GracePeriod+cfg.DiscoveryUpdateInterval) + time.Second)
					if _, ok := d.Get(id); !ok {
						c.Violate(name, "unknown long after the watch was cancelled: %s", what)
					}
					if !d.Forget(id) {
						c.Violate(name, "cannot be forgotten: %s", what)
					}
				} else {
					time.Sleep(time.Until(ref) + cfg.Timeout + min(cfg.Timeout, cfg.DiscoveryUpdateInterval) + time.Millisecond)
					if _, ok := d.Get(id); ok {
						c.Violate(name, "still known though last heard %s ago: %s", time.Since(last), what)
					}
					c.Count("forgotten again", 1)
					// of two watches, the other one ends no later
					time.Sleep(2*cfg.Timeout + cfg.DiscoveryUpdateInterval)
				}
				want = append(want, "-"+src.Address)
				time.Sleep(time.Millisecond)
				if n := net.Receivers(src.Address); n != before {
					c.Violate(name, "%d receivers are left of the clients of watches that ended: %s", n-before, what)
				}
				cancel()
			}
			mu.Lock()
			defer mu.Unlock()
			if got := seen[id]; !reflect.DeepEqual(got, want) {
				c.Violate(name, "source %s was announced %v, expected %v", id, got, want)
			}
		}()
	}
	wg.Wait()
	dcancel()
	<-dDone
	time.Sleep(time.Second)
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "still open after everything was cancelled: %v", open)
	}
	c.Case(sig + name)
}

func rels(ts []time.Time, t0 time.Time) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Sub(t0).String())
	}
	return out
}

// TestD03: hostile traffic on the beacon address.
func TestD03(t *testing.T) {
	c := mon.Start("D03", "one case is one generated run: 1-60 messages of any shape on the beacon address (no properties, no subject, wrong types, foreign subjects, damaged beacons) among valid beacons, with accept failures, ended by the context or a receive failure; distinct by the drawn messages")
	c.Assume("whether a message with the beacon subject but without a usable identity adds a source is not judged")
	for i := 0; i < c.N(4000, 80000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runD03(c, name) })
	}
	c.Finish(map[string]int64{"hostile messages": 40000, "valid beacons": 20000, "failed accepts": 3000, "receive failures": 1000, "without subject": 2000})
}

func runD03(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	failNext := false
	var mu sync.Mutex
	fr := c.Rand(name, "faults")
	acceptFaults := r.IntN(2) == 0
	net.OnAccept = func(string, int, int) memnet.Act {
		mu.Lock()
		defer mu.Unlock()
		if acceptFaults && fr.IntN(3) == 0 {
			c.Count("failed accepts", 1)
			return memnet.Act{Err: errInjected}
		}
		return memnet.Act{}
	}
	net.OnNext = func(string, int) memnet.Act {
		mu.Lock()
		defer mu.Unlock()
		if failNext {
			return memnet.Act{Err: errInjected}
		}
		return memnet.Act{}
	}
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
	ctx, cancel := context.WithCancel(bg)
	if r.IntN(2) == 0 {
		ctx, cancel = context.WithTimeout(bg, 10*time.Hour)
	}
	defer cancel()
	done := make(chan error, 1)
	handlers := eventsource.DiscoveryHandlers{}
	if r.IntN(2) == 0 {
		handlers.Discovered = func(eventsource.Info) {}
	}
	go func() { done <- d.Run(ctx, handlers) }()
	synctest.Wait()
	valid := map[string]string{}
	maybe := map[string]bool{"": true}
	var trace []string
	n := 1 + r.IntN(60)
	for i := 0; i < n; i++ {
		if r.IntN(3) == 0 {
			info := randInfo(r, fmt.Sprintf("good-%d", i), i)
			if r.IntN(6) == 0 {
				info.ID = strings.Repeat("good ", 1+r.IntN(1000)) + info.ID
			}
			if _, err := memnet.Copy(beaconOf(info)); err != nil {
				continue
			}
			valid[info.ID] = content(info)
			m := gen.Dress(r, beaconOf(info))
			if r.IntN(3) == 0 { // as others may send it
				to := pick(r, "", "mc/sfe.other")
				if m.Properties.To = &to; r.IntN(2) == 0 {
					m.Properties.To = nil
				}
			}
			net.Inject(beaconAddr, m)
			trace = append(trace, "valid beacon "+info.ID)
			c.Count("valid beacons", 1)
		} else {
			m := gen.RandMessage(r)
			if r.IntN(4) == 0 && m.Properties != nil {
				m.Properties.Subject = nil
			}
			if m.ApplicationProperties != nil && r.IntN(2) == 0 {
				m.ApplicationProperties["id"] = fmt.Sprintf("evil-%d", i)
			}
			m, err := memnet.Copy(m) // as it arrives
			if err != nil {
				continue
			}
			if subject(m) == "BEACON" {
				if id, ok := m.ApplicationProperties["id"].(string); ok {
					maybe[id] = true
				}
			}
			if m.Properties == nil || m.Properties.Subject == nil {
				c.Count("without subject", 1)
			}
			net.Inject(beaconAddr, m)
			trace = append(trace, showMsg(m))
			c.Count("hostile messages", 1)
		}
		if r.IntN(3) == 0 {
			time.Sleep(dur(r, time.Second))
		}
		select {
		case err := <-done:
			c.Violate(name, "discovery ended with %v after\n%s", err, strings.Join(trace, "\n"))
		default:
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
	for id, want := range valid {
		i, ok := d.Get(id)
		if !ok || content(i) != want {
			c.Violate(name, "source %s is %v %v, expected %s, after\n%s", id, ok, content(i), want, strings.Join(trace, "\n"))
		}
	}
	for _, i := range d.List() {
		if _, ok := valid[i.ID]; !ok && !maybe[i.ID] {
			c.Violate(name, "source %q was added by something that is not a beacon:\n%s", i.ID, strings.Join(trace, "\n"))
		}
	}
	select {
	case err := <-done:
		c.Violate(name, "discovery ended by itself with %v after\n%s", err, strings.Join(trace, "\n"))
	default:
	}
	var want error
	switch r.IntN(3) {
	case 0:
		c.Count("receive failures", 1)
		mu.Lock()
		failNext = true
		mu.Unlock()
		net.Inject(beaconAddr, beaconOf(source("last")))
		want = errInjected
		synctest.Wait()
	case 1:
		time.Sleep(dur(r, time.Minute))
		cancel()
		want = ctx.Err()
	default:
		if _, ok := ctx.Deadline(); ok {
			time.Sleep(11 * time.Hour)
		}
		cancel()
		want = ctx.Err()
	}
	synctest.Wait()
	select {
	case err := <-done:
		if !isErr(err, want) {
			c.Violate(name, "discovery ended with %v, the reason is %v", err, want)
		}
	default:
		c.Violate(name, "discovery goes on after %v", want)
	}
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "still open after discovery has ended: %v", open)
	}
	c.Case(strings.Join(trace, "\n"))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "messages": trace})
	}
}
