// Package race runs everything from many goroutines at once under the race
// detector. The race detector and the absence of crashes are the oracle;
// run.py collects the reports of this process and of the tools it runs.
package race

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"
	"github.com/cenkalti/backoff/v4"
)

var bg = context.Background()

func init() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	mon.WatchdogLimit = 200 * time.Second
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func ms(r *rand.Rand, max int) time.Duration {
	return time.Duration(r.IntN(max*1000+1)) * time.Microsecond
}

// TestR01: storms over all public operations.
func TestR01(t *testing.T) {
	c := mon.Start("R01", "one case is one storm: 0.15-0.4 s of random public operations from 10-40 goroutines on shared containers and links over a failing peer, on shared clients, discovery, managers, dispatchers and stores over the mock or the AMQP container, on stores and codecs alone, or some seconds of the three tools (race-built) connected to one failing peer under concurrent HTTP requests; distinct by kind and operations done")
	c.Assume("records are not modified by their owner after being handed over; a container is started once")
	// the storms and the tools share the machine
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); tools(c) }()
	n := c.N(72, 2000)
	var next atomic.Int64
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				name := fmt.Sprintf("run-%d", i)
				if c.Skip(name) {
					continue
				}
				c.Doing("%s", name)
				switch i % 3 {
				case 0:
					links(c, name)
				case 1:
					sources(c, name)
				case 2:
					stores(c, name)
				}
			}
		}()
	}
	wg.Wait()
	c.Finish(map[string]int64{"link operations": 5000, "connections": 100, "messages received": 300, "source operations": 3000, "records handled": 300, "sources discovered": 30, "store operations": 5000, "operations on fresh stores": 1000, "codec operations": 500, "http requests": 100, "connections of tools": 10, "records of tools": 10})
}

// faults makes every n-th or so step of the protocol fail.
func faults(seed uint64, n int) func(router.Step) router.Act {
	var mu sync.Mutex
	r := rand.New(rand.NewPCG(seed, 7))
	return func(router.Step) router.Act {
		mu.Lock()
		defer mu.Unlock()
		if r.IntN(n) != 0 {
			return router.Go
		}
		return pick(r, router.Drop, router.Reset, router.Close, router.End, router.Detach, router.Detach)
	}
}

// storm runs a number of goroutines doing random operations for a while.
func storm(r *rand.Rand, workers int, d time.Duration, ops []func(r *rand.Rand), n *atomic.Int64) {
	end := time.Now().Add(d)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				ops[wr.IntN(len(ops))](wr)
				n.Add(1)
			}
		}()
	}
	wg.Wait()
}

func timed(ctx context.Context, r *rand.Rand) (context.Context, context.CancelFunc) {
	switch r.IntN(4) {
	case 0:
		return context.WithTimeout(ctx, ms(r, 3))
	case 1:
		ctx, cancel := context.WithCancel(ctx)
		t := time.AfterFunc(ms(r, 5), cancel)
		return ctx, func() { t.Stop(); cancel() }
	default:
		return context.WithTimeout(ctx, 20*time.Millisecond)
	}
}

// links is a storm over containers and links.
func links(c *mon.Check, name string) {
	r := c.Rand(name)
	rt := router.New(router.Config{Quiet: true, Decide: faults(r.Uint64(), pick(r, 15, 40, 150, 1000)), SenderCredit: uint32(pick(r, 1, 5, 200))})
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	type shared struct {
		mu sync.Mutex
		s  []session.Sender
		r  []session.Receiver
	}
	var ops []func(*rand.Rand)
	var received atomic.Int64
	ctrs := 1 + r.IntN(2)
	for i := 0; i < ctrs; i++ {
		sh := &shared{}
		policy := pick(r, "constant", "exponential", "default")
		cfg := session.ContainerConfig{ContainerID: fmt.Sprint(name, "-", i)}
		switch policy {
		case "constant":
			cfg.BackOff = backoff.NewConstantBackOff(time.Millisecond)
		case "exponential":
			b := backoff.NewExponentialBackOff()
			b.InitialInterval, b.MaxInterval = time.Millisecond, 5*time.Millisecond
			cfg.BackOff = b
		}
		ctr := session.NewContainer(rt.Addr(), cfg)
		var errs atomic.Int64
		ctr.OnSessionError(func(err error) { _ = err.Error(); errs.Add(1) })
		addr := func(r *rand.Rand) string { return fmt.Sprint("a", r.IntN(4)) }
		addS := func(r *rand.Rand) {
			s := ctr.NewSender(addr(r), session.SenderOptions{})
			sh.mu.Lock()
			if len(sh.s) < 6 {
				sh.s = append(sh.s, s)
			} else {
				sh.s[r.IntN(6)] = s
			}
			sh.mu.Unlock()
		}
		addR := func(r *rand.Rand) {
			s := ctr.NewReceiver(addr(r), session.ReceiverOptions{Credit: r.IntN(4)})
			sh.mu.Lock()
			if len(sh.r) < 6 {
				sh.r = append(sh.r, s)
			} else {
				sh.r[r.IntN(6)] = s
			}
			sh.mu.Unlock()
		}
		for k := 0; k < 3; k++ {
			addS(r)
			addR(r)
		}
		if r.IntN(4) == 0 { // links are used before the start
			time.AfterFunc(ms(r, 20), func() { ctr.Start(ctx) })
		} else {
			ctr.Start(ctx)
		}
		getS := func(r *rand.Rand) session.Sender {
			sh.mu.Lock()
			defer sh.mu.Unlock()
			return sh.s[r.IntN(len(sh.s))]
		}
		getR := func(r *rand.Rand) session.Receiver {
			sh.mu.Lock()
			defer sh.mu.Unlock()
			return sh.r[r.IntN(len(sh.r))]
		}
		send := func(r *rand.Rand) {
			sctx, cancel := timed(ctx, r)
			defer cancel()
			getS(r).Send(sctx, amqp.NewMessage([]byte("x")))
		}
		next := func(r *rand.Rand) {
			sctx, cancel := timed(ctx, r)
			defer cancel()
			rc := getR(r)
			if m, err := rc.Next(sctx); err == nil {
				received.Add(1)
				switch r.IntN(8) {
				case 0: // accepted elsewhere, while others receive
					go func() {
						actx, cancel := context.WithTimeout(ctx, 20*time.Millisecond)
						defer cancel()
						rc.Accept(actx, m)
					}()
				case 1: // accepted with the context of the receive, likely done
					rc.Accept(sctx, m)
				default:
					actx, cancel := context.WithTimeout(ctx, 20*time.Millisecond)
					defer cancel()
					rc.Accept(actx, m)
				}
			}
		}
		ops = append(ops, send, send, send, send, next, next, next, next,
			func(r *rand.Rand) {
				if r.IntN(6) == 0 {
					addS(r)
				} else {
					send(r)
				}
			},
			func(r *rand.Rand) {
				if r.IntN(6) == 0 {
					addR(r)
				} else {
					next(r)
				}
			},
			func(r *rand.Rand) {
				if r.IntN(8) == 0 {
					ctr.OnSessionError(func(err error) { errs.Add(1) })
				} else {
					send(r)
				}
			},
			func(r *rand.Rand) {
				if r.IntN(20) != 0 {
					next(r)
					return
				}
				sctx, cancel := timed(ctx, r)
				defer cancel()
				if r.IntN(2) == 0 {
					getS(r).Close(sctx)
				} else {
					getR(r).Close(sctx)
				}
			})
	}
	if r.IntN(3) == 0 { // the end comes in the middle
		time.AfterFunc(ms(r, 200), stop)
	}
	var n atomic.Int64
	storm(r, 10+r.IntN(16), 150*time.Millisecond+ms(r, 150), ops, &n)
	stop()
	c.Count("link operations", int(n.Load()))
	c.Count("messages received", int(received.Load()))
	c.Count("connections", rt.Count(router.KAccept))
	c.Sample(map[string]any{"case": name, "kind": "links", "operations": n.Load()})
	c.Case(fmt.Sprint("links ", ctrs, n.Load(), received.Load()))
}

func randRecord(r *rand.Rand) vanflow.Record {
	return gen.Rand(r, gen.Types[r.IntN(8)], fmt.Sprint("id", r.IntN(12)), 0.5).Record(true)
}

func touch(es []store.Entry) {
	for i, e := range es {
		if i%7 != 0 {
			continue
		}
		if e.Record != nil {
			gen.Show(e.Record)
			encoding.Encode(e.Record)
		}
	}
}

func newStore() store.Interface {
	return store.NewDefaultCachingStore(store.CacheConfig{})
}

func storeOps(s store.Interface) []func(*rand.Rand) {
	src := func(r *rand.Rand) store.SourceRef { return store.SourceRef{Name: fmt.Sprint("s", r.IntN(3))} }
	entry := func(r *rand.Rand) store.Entry {
		rec := randRecord(r)
		return store.Entry{Meta: store.Metadata{Source: src(r)}, TypeMeta: rec.GetTypeMeta(), Record: rec}
	}
	return []func(*rand.Rand){
		func(r *rand.Rand) { s.Accumulate(src(r), randRecord(r)) },
		func(r *rand.Rand) { s.Accumulate(src(r), randRecord(r)) },
		func(r *rand.Rand) {
			if g, err := s.Get(bg, entry(r)); err == nil && g.Found {
				touch([]store.Entry{g.Entry})
			}
		},
		func(r *rand.Rand) { s.Add(bg, entry(r)) },
		func(r *rand.Rand) { s.Update(bg, entry(r)) },
		func(r *rand.Rand) { s.Delete(bg, entry(r)) },
		func(r *rand.Rand) {
			set, err := s.List(bg, &store.Selector{Limit: r.IntN(5), Offset: r.IntN(2), Ordering: store.Ordering(r.IntN(2))})
			if err != nil {
				return
			}
			touch(set.Entries)
			if set.Continue != "" {
				set, _ = s.List(bg, &store.Selector{Continue: set.Continue})
				touch(set.Entries)
			}
		},
		func(r *rand.Rand) {
			set, _ := s.List(bg, nil)
			touch(set.Entries)
		},
		func(r *rand.Rand) {
			idx := pick(r, store.IndexBySource, store.IndexBySite)
			set, _ := s.Index(bg, idx, entry(r), nil)
			touch(set.Entries)
			s.IndexValues(bg, idx)
		},
		func(r *rand.Rand) {
			if r.IntN(5) == 0 {
				s.Replace(bg, []store.Entry{entry(r), entry(r), entry(r)})
			}
		},
	}
}

// stores is a storm over stores, dispatchers and codecs.
func stores(c *mon.Check, name string) {
	r := c.Rand(name)
	var events atomic.Int64
	h := func(es ...store.Entry) { events.Add(1); touch(es) }
	s := store.NewDefaultCachingStore(store.CacheConfig{EventHandlers: store.EventHandlerFuncs{
		OnAdd:    func(e store.Entry) { h(e) },
		OnChange: func(p, e store.Entry) { h(p, e) },
		OnDelete: func(e store.Entry) { h(e) },
	}})
	s2 := newStore()
	reg := &store.DispatchRegistry{}
	for i, rec := range []vanflow.Record{vanflow.SiteRecord{}, vanflow.RouterRecord{}, vanflow.LinkRecord{}, vanflow.ControllerRecord{}, vanflow.ListenerRecord{}, vanflow.ConnectorRecord{}, vanflow.FlowRecord{}, vanflow.ProcessRecord{}} {
		reg.RegisterStore(rec, []store.Interface{s, s2}[i%2])
	}
	disp := reg.NewDispatcher(store.SourceRef{Name: "d"})
	var codec, n atomic.Int64
	ops := append(storeOps(s), storeOps(s2)...)
	shared := gen.RecordMsg("x", gen.RandRecords(r, 6))
	recs := make([]vanflow.Record, 8)
	for i := range recs {
		recs[i] = randRecord(r)
	}
	ops = append(ops,
		func(r *rand.Rand) {
			disp.Dispatch(vanflow.RecordMessage{Records: []vanflow.Record{randRecord(r), randRecord(r)}})
		},
		func(r *rand.Rand) { reg.NewDispatcher(store.SourceRef{Name: "e"}) },
		func(r *rand.Rand) { // one message for several readers
			codec.Add(1)
			if m, err := vanflow.Decode(shared); err == nil {
				if rm, ok := m.(vanflow.RecordMessage); ok {
					for _, rec := range rm.Records {
						gen.Show(rec)
					}
				}
			}
		},
		func(r *rand.Rand) { // one record for several writers
			codec.Add(1)
			m := vanflow.RecordMessage{Records: []vanflow.Record{recs[r.IntN(len(recs))], recs[r.IntN(len(recs))]}}
			m.Encode()
			if attrs, err := encoding.Encode(recs[r.IntN(len(recs))]); err == nil {
				encoding.Decode(attrs)
			}
		},
		func(r *rand.Rand) {
			codec.Add(1)
			disp.Dispatch(vanflow.RecordMessage{Records: []vanflow.Record{recs[r.IntN(len(recs))]}})
		})
	var fresh atomic.Int64
	freshOps := func(r *rand.Rand) { // a store used at once by several from the start
		ops := storeOps(newStore())
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 2 + r.IntN(3); i > 0; i-- {
			wr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 3; k++ {
					ops[wr.IntN(len(ops))](wr)
					fresh.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	ops = append(ops, freshOps, freshOps)
	storm(r, 10+r.IntN(10), 150*time.Millisecond, ops, &n)
	c.Count("operations on fresh stores", int(fresh.Load()))
	c.Count("store operations", int(n.Load()-codec.Load()))
	c.Count("codec operations", int(codec.Load()))
	c.Count("store events", int(events.Load()))
	c.Sample(map[string]any{"case": name, "kind": "stores", "operations": n.Load()})
	c.Case(fmt.Sprint("stores ", n.Load(), events.Load()))
}

// sources is a storm over managers, clients and discovery.
func sources(c *mon.Check, name string) {
	r := c.Rand(name)
	ctx, stop := context.WithCancel(bg)
	defer stop()
	real := r.IntN(2) == 0
	var create func() session.Container
	if real {
		rt := router.New(router.Config{Quiet: true, Decide: faults(r.Uint64(), pick(r, 40, 200, 2000))})
		defer rt.Close()
		defer func() { c.Count("connections", rt.Count(router.KAccept)) }()
		k := 0
		create = func() session.Container {
			k++
			return session.NewContainer(rt.Addr(), session.ContainerConfig{ContainerID: fmt.Sprint(name, k), BackOff: backoff.NewConstantBackOff(time.Millisecond)})
		}
	} else {
		create = session.NewMockContainerFactory().Create
	}
	start := func() session.Container {
		ctr := create()
		ctr.Start(ctx)
		return ctr
	}
	var ops []func(*rand.Rand)
	var handled, discovered, n atomic.Int64
	var wg sync.WaitGroup
	// managers
	sharedCtr := start()
	for i := 0; i < 2; i++ {
		s := newStore()
		ctr := sharedCtr
		if r.IntN(2) == 0 {
			ctr = start()
		}
		id := fmt.Sprint("src", i)
		m := eventsource.NewManager(ctr, eventsource.ManagerConfig{
			Source:            eventsource.Info{ID: id, Version: 1, Type: "CONTROLLER", Address: "mc/sfe." + id, Direct: "sfe." + id},
			Stores:            []store.Interface{s, newStore()},
			HeartbeatInterval: 5 * time.Millisecond, BeaconInterval: 7 * time.Millisecond,
			UseAlternateHeartbeatAddress: r.IntN(2) == 0,
			FlushDelay:                   ms(r, 10), FlushBatchSize: 1 + r.IntN(3),
			UpdateBufferTime: ms(r, 5), UpdateBatchSize: r.IntN(4),
		})
		wg.Add(1)
		go func() { defer wg.Done(); m.Run(ctx) }()
		ops = append(ops, storeOps(s)...)
		pub := make(chan struct{}, 1)
		ops = append(ops, func(r *rand.Rand) {
			prev, curr := randRecord(r), randRecord(r)
			u := eventsource.RecordUpdate{Curr: curr}
			if r.IntN(2) == 0 {
				u.Prev = prev
			}
			select { // publishing may block for long while nothing can be sent
			case pub <- struct{}{}:
				go func() { m.PublishUpdate(u); <-pub }()
			default:
			}
		})
	}
	// discovery, clients and collectors
	collected := newStore()
	reg := &store.DispatchRegistry{}
	for _, t := range gen.Types[:8] {
		reg.RegisterStore(gen.Rand(r, t, "x", 0).Record(false), collected)
	}
	ops = append(ops, storeOps(collected)...)
	var mu sync.Mutex
	var clients []*eventsource.Client
	disc := eventsource.NewDiscovery(start(), eventsource.DiscoveryOptions{})
	hr := rand.New(rand.NewPCG(r.Uint64(), 1))
	wg.Add(1)
	go func() {
		defer wg.Done()
		for ctx.Err() == nil { // ends when its receiver fails for good
			disc.Run(ctx, eventsource.DiscoveryHandlers{
				Discovered: func(i eventsource.Info) {
					discovered.Add(1)
					mu.Lock()
					ctr := sharedCtr
					if hr.IntN(2) == 0 {
						ctr = start()
					}
					cl := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: i})
					clients = append(clients, cl)
					if len(clients) > 6 {
						clients = clients[1:]
					}
					to := 5*time.Millisecond + ms(hr, 50)
					mu.Unlock()
					disc.NewWatchClient(ctx, eventsource.WatchConfig{Client: cl, ID: i.ID, Timeout: to, DiscoveryUpdateInterval: 2 * time.Millisecond})
					d := reg.NewDispatcher(store.SourceRef{Name: i.ID, Type: i.Type})
					cl.OnRecord(func(m vanflow.RecordMessage) { handled.Add(int64(len(m.Records))) })
					cl.OnRecord(d.Dispatch)
					cl.Listen(ctx, eventsource.FromSourceAddress())
					cl.Listen(ctx, eventsource.FromSourceAddressHeartbeats())
					wg.Add(1)
					go func() {
						defer wg.Done()
						fctx, cancel := context.WithTimeout(ctx, 50*time.Millisecond)
						defer cancel()
						eventsource.FlushOnFirstMessage(fctx, cl)
					}()
				},
				Forgotten: func(i eventsource.Info) { disc.Get(i.ID) },
			})
		}
	}()
	with := func(f func(r *rand.Rand, cl *eventsource.Client)) func(*rand.Rand) {
		return func(r *rand.Rand) {
			mu.Lock()
			if len(clients) == 0 {
				mu.Unlock()
				time.Sleep(time.Millisecond)
				return
			}
			cl := clients[r.IntN(len(clients))]
			mu.Unlock()
			f(r, cl)
		}
	}
	ops = append(ops,
		func(r *rand.Rand) {
			switch r.IntN(30) {
			case 0:
				disc.Forget(fmt.Sprint("src", r.IntN(2)))
			case 1:
				disc.Add(eventsource.Info{ID: "other", Address: "mc/sfe.src0", Direct: "sfe.src0"})
			case 2:
				disc.Forget("other")
			default:
				disc.List()
				disc.Get("src1")
			}
		},
		with(func(r *rand.Rand, cl *eventsource.Client) {
			sctx, cancel := timed(ctx, r)
			defer cancel()
			cl.SendFlush(sctx)
		}),
		with(func(r *rand.Rand, cl *eventsource.Client) {
			switch r.IntN(60) {
			case 0:
				cl.Close()
			case 1, 2:
				cl.OnRecord(func(m vanflow.RecordMessage) {
					for _, rec := range m.Records {
						gen.Show(rec)
					}
				})
			case 3, 4:
				cl.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
			case 5:
				cl.Listen(ctx, pick(r, eventsource.FromSourceAddressFlows(), eventsource.FromSourceAddressLogs(), eventsource.FromSourceAddress()))
			}
		}))
	storm(r, 8+r.IntN(8), 250*time.Millisecond+ms(r, 150), ops, &n)
	stop()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second): // other checks judge that
		c.Count("slow ends", 1)
	}
	c.Count("source operations", int(n.Load()))
	c.Count("records handled", int(handled.Load()))
	c.Count("sources discovered", int(discovered.Load()))
	c.Sample(map[string]any{"case": name, "kind": "sources", "operations": n.Load()})
	c.Case(fmt.Sprint("sources ", real, n.Load(), handled.Load(), discovered.Load()))
}

// tools runs the three commands against one failing peer.
func tools(c *mon.Check) {
	for i := 0; i < c.N(1, 12); i++ {
		name := fmt.Sprint("tools-", i)
		if c.Skip(name) {
			continue
		}
		toolRun(c, name)
	}
}

func toolRun(c *mon.Check, name string) {
	r := c.Rand(name)
	for _, p := range []int{tool.ServePort, tool.FixturePort} {
		if err := tool.AwaitFree(p, 10*time.Second); err != nil {
			c.Inconclusive("%v", err)
		}
	}
	var sentRecords atomic.Int64
	var nt *tool.Net
	nt = tool.NewNet(router.Config{Quiet: true}, func(s *tool.Source) {
		fr := rand.New(rand.NewPCG(uint64(s.Flushes()), 3))
		for k := 0; k < 5; k++ {
			sentRecords.Add(1)
			nt.Publish(s.Address(), tool.Bytes(gen.RecordMsg(s.Address(), gen.RandRecords(fr, 6))))
			nt.Publish(s.Address()+".flows", tool.Bytes(gen.RecordMsg(s.Address(), []gen.Abs{gen.Rand(fr, gen.Types[6], fmt.Sprint("f", k), 0.5)})))
		}
	})
	defer nt.Close()
	var procs []*tool.Proc
	for _, cmd := range []string{"serve", "log", "fixture"} {
		args := []string{"-server", nt.Addr(), "-enable-heartbeats", "-flush-on-discover"}
		if r.IntN(2) == 0 {
			args = append(args, "-debug")
		}
		p, err := tool.Start(append(args, cmd)...)
		if err != nil {
			c.Inconclusive("cannot run the tool: %v", err)
		}
		procs = append(procs, p)
	}
	for i := 0; i < 4; i++ {
		nt.Add(&tool.Source{ID: fmt.Sprint("sim", i), Version: 1, Type: pick(r, "ROUTER", "CONTROLLER"), AltHeartbeats: r.IntN(2) == 0, Beat: 20 * time.Millisecond})
	}
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	var reqs, got atomic.Int64
	bgr := rand.New(rand.NewPCG(r.Uint64(), 2))
	wg.Add(1)
	go func() { // faults
		defer wg.Done()
		for ctx.Err() == nil {
			select {
			case <-ctx.Done():
			case <-time.After(300*time.Millisecond + ms(bgr, 3000)):
			}
			var match func(*router.Conn) bool
			if bgr.IntN(2) == 0 {
				k := bgr.IntN(3)
				match = func(c *router.Conn) bool { return c.ID%3 == k }
			}
			nt.Fault(pick(bgr, router.Drop, router.Close, router.End, router.Detach), match, "")
		}
	}()
	capture := func(r *rand.Rand) string {
		var es []string
		for s := 0; s < 1+r.IntN(2); s++ {
			for k := 0; k < 3; k++ {
				es = append(es, fmt.Sprintf(`{"Meta":{"Source":{"APIVersion":"1","Type":"ROUTER","Name":"fx%d"}},"TypeMeta":{"APIVersion":"flow/v1","Type":"SiteRecord"},"Record":{"ID":"site-%d-%d","Name":"n"}}`, s, s, k))
			}
			es = append(es, fmt.Sprintf(`{"Meta":{"Source":{"APIVersion":"1","Type":"ROUTER","Name":"fx%d"}},"TypeMeta":{"APIVersion":"flow/v1","Type":"FlowRecord"},"Record":{"ID":"flow-%d-a","Counterflow":"flow-%d-b","Octets":5}}`, s, s, s))
			es = append(es, fmt.Sprintf(`{"Meta":{"Source":{"APIVersion":"1","Type":"ROUTER","Name":"fx%d"}},"TypeMeta":{"APIVersion":"flow/v1","Type":"FlowRecord"},"Record":{"ID":"flow-%d-b","Octets":5}}`, s, s))
		}
		return `{"data":[` + strings.Join(es, ",") + `]}`
	}
	for w := 0; w < 3; w++ {
		wr := rand.New(rand.NewPCG(r.Uint64(), 3))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ctx.Err() == nil {
				time.Sleep(ms(wr, 20))
				var rep tool.Reply
				var err error
				switch wr.IntN(8) {
				case 0, 1:
					rep, err = tool.HTTP(5*time.Second, "GET", tool.ServePort, "/", "")
					got.Add(int64(strings.Count(string(rep.Body), `"Record"`)))
				case 2:
					rep, err = tool.HTTP(5*time.Second, "GET", tool.ServePort, "/sources/", "")
				case 3:
					rep, err = tool.HTTP(5*time.Second, "GET", tool.ServePort, pick(wr, "/flow/v1/SiteRecord/", "/flow/v1/FlowRecord/"), "")
				case 4:
					if wr.IntN(6) == 0 {
						rep, err = tool.HTTP(5*time.Second, "POST", tool.FixturePort, "/", capture(wr))
					}
				case 5:
					rep, err = tool.HTTP(5*time.Second, "GET", tool.FixturePort, "/", "")
				case 6:
					rep, err = tool.HTTP(5*time.Second, "GET", tool.FixturePort, "/flows", "")
				case 7:
					rep, err = tool.HTTP(5*time.Second, "POST", tool.FixturePort, "/flows", `{"flows":3,"duration":1}`)
				}
				if err == nil && rep.Status != 0 {
					reqs.Add(1)
				}
			}
		}()
	}
	time.Sleep(time.Duration(c.N(12, 20)) * time.Second)
	cancel()
	wg.Wait()
	for _, p := range procs {
		if crash := p.Crash(); crash != "" {
			c.Violate(name, "%s crashed:\n%s", p.Args(), crash)
		}
		if !p.Alive() {
			c.Violate(name, "%s ended by itself:\n%s", p.Args(), p.Tail())
		}
		if !p.Stop(20 * time.Second) {
			c.Violate(name, "%s does not end when interrupted:\n%s", p.Args(), p.Tail())
		}
		if crash := p.Crash(); crash != "" {
			c.Violate(name, "%s crashed:\n%s", p.Args(), crash)
		}
	}
	if f := os.Getenv("VF_TOOLLOG"); f != "" {
		os.WriteFile(f, []byte(procs[0].Out.String()+procs[0].Err.String()), 0o644)
	}
	logged := 0
	for _, l := range procs[1].Out.Lines() {
		if strings.HasPrefix(l, "{") {
			logged++
		}
	}
	c.Count("http requests", int(reqs.Load()))
	c.Count("records of tools", int(got.Load()))
	c.Count("lines logged", logged)
	c.Count("connections of tools", nt.Count(router.KAccept))
	c.Sample(map[string]any{"case": name, "kind": "tools", "operations": reqs.Load()})
	c.Case(fmt.Sprint("tools ", reqs.Load(), got.Load(), logged))
}
