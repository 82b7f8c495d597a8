package events

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"
)

// TestX01: sources and collectors put together as the tools do.
func TestX01(t *testing.T) {
	c := mon.Start("X01", "one case is one generated run in virtual time: 1-4 sources with 1-3 stores each, whose records are added and changed, and 1-4 collectors joining, leaving and joining again, on the in-memory router or a network that delays, reorders between addresses and fails what may fail; distinct by the drawn history")
	c.Assume("a record message whose send the network fails is lost until the next flush, so record sends are delayed but not failed; accepts are not failed either")
	for i := 0; i < c.N(900, 20000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runX01(t, c, name) })
	}
	c.Finish(map[string]int64{"changes": 40000, "collectors converged": 1000, "records compared": 10000, "collectors joining while records change": 500, "source restarts": 100, "runs on the in-memory router": 200, "partial states examined": 20000})
}

type xSource struct {
	info    eventsource.Info
	cfg     eventsource.ManagerConfig
	ctr     session.Container
	m       *eventsource.Manager
	cancel  context.CancelFunc
	done    chan struct{}
	stores  []store.Interface
	recs    map[string]*gen.Abs        // by id
	where   map[string]int             // store of a record
	history map[string]map[string]bool // id.code -> values it ever had
	types   map[string]string
	hooked  bool // updates are published by the stores' callbacks
	hook    func(eventsource.RecordUpdate)
}

type xCollector struct {
	ctr     session.Container
	factory session.ContainerFactory
	st      store.Interface
	disc    *eventsource.Discovery
	cancel  context.CancelFunc
	done    chan struct{}
	joined  time.Time
}

func runX01(t *testing.T, c *mon.Check, name string) {
	r := c.Rand(name)
	var factory session.ContainerFactory
	var net *memnet.Net
	maxDelay := time.Duration(0)
	if r.IntN(4) == 0 {
		factory = session.NewMockContainerFactory()
		c.Count("runs on the in-memory router", 1)
	} else {
		net = newNet(c, name)
		factory = net.Factory()
		maxDelay = pick(r, 0, 0, 20*time.Millisecond, 200*time.Millisecond)
		var mu sync.Mutex
		fr := c.Rand(name, "faults")
		net.AwaitReceiver = r.IntN(2) == 0
		pFail := pick(r, 0, 0, 20)
		failed := map[string]int{}
		net.OnSend = func(addr string, _ int, m *amqpMessage) memnet.Act {
			mu.Lock()
			defer mu.Unlock()
			a := memnet.Act{Delay: dur(fr, maxDelay)}
			// some of the announcements fail, never many of a source in a row
			k := subject(m) + addr
			if subject(m) == "BEACON" {
				k += fmt.Sprint(m.ApplicationProperties["id"])
			}
			if s := subject(m); (s == "BEACON" || s == "HEARTBEAT") && fr.IntN(100) < pFail && failed[k] < 2 {
				a.Err = errInjected
				failed[k]++
			} else {
				failed[k] = 0
			}
			return a
		}
		net.OnNext = func(addr string, _ int) memnet.Act {
			mu.Lock()
			defer mu.Unlock()
			a := memnet.Act{Delay: dur(fr, maxDelay)}
			if addr != beaconAddr && fr.IntN(100) < pFail { // discovery ends when receiving fails
				a.Err = errInjected
			}
			return a
		}
	}
	bySource := r.IntN(2) == 0
	shared := bySource && r.IntN(2) == 0 // sources use the same identities
	var sources []*xSource
	for i := 1 + r.IntN(4); i > 0; i-- {
		s := &xSource{recs: map[string]*gen.Abs{}, where: map[string]int{}, history: map[string]map[string]bool{}, types: map[string]string{}, hooked: r.IntN(2) == 0}
		id := fmt.Sprintf("source%d", i)
		s.info = eventsource.Info{ID: id, Version: 1 + r.IntN(3), Type: pick(r, "CONTROLLER", "ROUTER", "odd type"), Address: "mc/sfe." + id, Direct: "sfe." + id}
		s.cfg = eventsource.ManagerConfig{Source: s.info,
			FlushDelay:       dur(r, 2*time.Second),
			FlushBatchSize:   pick(r, 0, 1, 3, 10, 1000),
			UpdateBufferTime: dur(r, 300*time.Millisecond),
			UpdateBatchSize:  pick(r, 0, 1, 2, 5, 50),
		}
		s.cfg.UseAlternateHeartbeatAddress = s.info.Type == "CONTROLLER"
		if r.IntN(2) == 0 {
			s.cfg.HeartbeatInterval = 500*time.Millisecond + dur(r, 5*time.Second)
			s.cfg.BeaconInterval = time.Second + dur(r, 10*time.Second)
		}
		for k := 1 + r.IntN(3); k > 0; k-- {
			cc := store.CacheConfig{}
			if s.hooked {
				cc.EventHandlers = store.EventHandlerFuncs{
					OnAdd: func(e store.Entry) {
						s.hook(eventsource.RecordUpdate{Curr: e.Record})
					},
					OnChange: func(p, e store.Entry) {
						s.hook(eventsource.RecordUpdate{Prev: p.Record, Curr: e.Record})
					},
				}
			}
			s.stores = append(s.stores, store.NewDefaultCachingStore(cc))
		}
		s.cfg.Stores = s.stores
		s.hook = func(u eventsource.RecordUpdate) {
			if s.m != nil {
				s.m.PublishUpdate(u)
			}
		}
		s.ctr = factory.Create()
		sources = append(sources, s)
	}
	var all, collectors []*xCollector
	join := func() {
		x := startCollector(factory, bySource, c.Rand(name, "collector", len(all)))
		all = append(all, x)
		collectors = append(collectors, x)
	}
	shutdown := func(x *xCollector) {
		x.cancel()
		<-x.done
	}
	n := 20 + r.IntN(200)
	next := 0
	for i := 0; i < n; i++ {
		time.Sleep(dur(r, pick(r, 0, time.Millisecond, 50*time.Millisecond, 400*time.Millisecond, 2*time.Second)))
		switch k := r.IntN(40); {
		case k == 0 || i == n/2 && len(collectors) == 0:
			if len(collectors) < 4 {
				join()
				c.Count("collectors joining while records change", 1)
			}
		case k == 1 && len(collectors) > 0:
			j := r.IntN(len(collectors))
			shutdown(collectors[j])
			collectors = append(collectors[:j], collectors[j+1:]...)
		case k == 2 && r.IntN(4) == 0:
			// a source goes away for long enough to be forgotten and comes
			// back with what it has by then
			s := sources[r.IntN(len(sources))]
			if s.m == nil {
				continue
			}
			s.stop()
			for j := r.IntN(10); j > 0; j-- {
				s.change(c, r, &next, shared)
			}
			time.Sleep(60*time.Second + 20*maxDelay)
			s.start()
			c.Count("source restarts", 1)
		case k < 8:
			s := sources[r.IntN(len(sources))]
			if s.m == nil {
				s.start()
			}
		default:
			s := sources[r.IntN(len(sources))]
			s.change(c, r, &next, shared)
			c.Count("changes", 1)
		}
		if i%16 == 0 {
			for _, x := range collectors {
				examine(c, name, x, sources)
			}
		}
	}
	for _, s := range sources {
		if s.m == nil {
			s.start()
		}
	}
	if r.IntN(3) == 0 || len(collectors) == 0 {
		join()
	}
	// a beacon, the wait for a first message, the delays on the way
	slowest := time.Duration(0)
	total := 0
	for _, s := range sources {
		b := s.cfg.BeaconInterval
		if b == 0 {
			b = 10 * time.Second
		}
		if d := 4*b + s.cfg.FlushDelay; d > slowest {
			slowest = d
		}
		total += len(s.recs)
	}
	time.Sleep(slowest + 20*time.Second + time.Duration(n+3*total*4+100)*2*maxDelay)
	for _, x := range collectors {
		examine(c, name, x, sources)
		got, want := map[string]string{}, map[string]string{}
		set, err := x.st.List(bg, nil)
		if err != nil {
			c.Violate(name, "listing the collector: %v", err)
		}
		for _, e := range set.Entries {
			k := e.Meta.Source.Name + " " + e.TypeMeta.String() + " " + e.Record.Identity()
			if _, ok := got[k]; ok {
				c.Violate(name, "a collector has two entries %s", k)
			}
			got[k] = gen.Show(e.Record)
		}
		for _, s := range sources {
			for id, a := range s.recs {
				want[s.info.ID+" "+a.Record(true).GetTypeMeta().String()+" "+id] = a.String()
			}
		}
		var diff []string
		for k, w := range want {
			if g, ok := got[k]; !ok {
				diff = append(diff, fmt.Sprintf("%s is missing, the source has\n  %s", k, w))
			} else if g != w {
				diff = append(diff, fmt.Sprintf("%s differs, the collector has\n  %s\nthe source has\n  %s", k, g, w))
			}
		}
		for k, g := range got {
			if _, ok := want[k]; !ok {
				diff = append(diff, fmt.Sprintf("%s is of no source: %s", k, g))
			}
		}
		if len(diff) > 0 {
			sort.Strings(diff)
			known := []string{}
			for _, i := range x.disc.List() {
				known = append(known, i.ID)
			}
			c.Violate(name, "a collector that joined at %s has not converged at %s: %d of %d records\n%s\nsources it knows: %v", x.joined.Format(time.TimeOnly), time.Now().Format(time.TimeOnly), len(diff), len(want), strings.Join(diff[:min(5, len(diff))], "\n"), known)
		}
		c.Count("collectors converged", 1)
		c.Count("records compared", len(want))
	}
	for _, x := range collectors {
		shutdown(x)
	}
	for _, s := range sources {
		s.stop()
	}
	time.Sleep(time.Minute)
	c.Case(fmt.Sprint(n, len(sources), len(all), total, maxDelay, bySource, shared, r.Uint64()))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "sources": len(sources), "collectors": len(all), "steps": n, "records": total})
	}
}

func (s *xSource) start() {
	s.m = eventsource.NewManager(s.ctr, s.cfg)
	ctx, cancel := context.WithCancel(bg)
	s.cancel = cancel
	s.done = runManager(ctx, s.m)
}

func (s *xSource) stop() {
	if s.m == nil {
		return
	}
	s.cancel()
	<-s.done
	s.m = nil
}

// change adds or changes a record and publishes that.
func (s *xSource) change(c *mon.Check, r *rand.Rand, next *int, shared bool) {
	var id string
	var rec *gen.Abs
	if len(s.recs) > 0 && r.IntN(3) > 0 {
		ids := make([]string, 0, len(s.recs))
		for k := range s.recs {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		id = ids[r.IntN(len(ids))]
		rec = s.recs[id]
	} else {
		*next++
		id = fmt.Sprintf("%s-%d", s.info.ID, *next)
		if shared {
			id = fmt.Sprintf("record-%d", len(s.recs))
		}
		s.where[id] = r.IntN(len(s.stores))
	}
	var curr gen.Abs
	if rec == nil {
		curr = gen.Rand(r, pick(r, gen.Types...), id, pick(r, 0, 0.3, 1))
		s.types[id] = curr.Type
	} else {
		typ := gen.Type{}
		for _, t := range gen.Types {
			if t.Name == rec.Type {
				typ = t
			}
		}
		curr = rec.Merge(gen.Rand(r, typ, id, pick(r, 0, 0.1, 0.5, 1)))
	}
	for code, v := range curr.Attrs {
		k := fmt.Sprintf("%s.%d", id, code)
		if s.history[k] == nil {
			s.history[k] = map[string]bool{}
		}
		s.history[k][fmt.Sprint(v)] = true
	}
	s.recs[id] = &curr
	st := s.stores[s.where[id]]
	e := store.Entry{Record: curr.Record(true)}
	e.TypeMeta = e.Record.GetTypeMeta()
	var err error
	u := eventsource.RecordUpdate{Curr: e.Record}
	if rec == nil {
		err = st.Add(bg, e)
	} else {
		u.Prev = rec.Record(r.IntN(2) == 0)
		err = st.Update(bg, e)
	}
	if err != nil {
		panic(err)
	}
	if !s.hooked {
		s.hook(u)
	}
}

// examine sees that a collector only holds what sources had at some time.
func examine(c *mon.Check, name string, x *xCollector, sources []*xSource) {
	set, err := x.st.List(bg, nil)
	if err != nil {
		c.Violate(name, "listing the collector: %v", err)
	}
	by := map[string]*xSource{}
	for _, s := range sources {
		by[s.info.ID] = s
	}
	for _, e := range set.Entries {
		s := by[e.Meta.Source.Name]
		a, err := gen.Of(e.Record)
		if s == nil || err != nil || s.types[a.ID] != a.Type || e.Meta.Source.Type != s.info.Type {
			c.Violate(name, "a collector holds %s from %v, which no such source ever had", gen.Show(e.Record), e.Meta.Source)
		}
		if e.TypeMeta != e.Record.GetTypeMeta() {
			c.Violate(name, "a collector holds %s as a %s", gen.Show(e.Record), e.TypeMeta)
		}
		for code, v := range a.Attrs {
			if !s.history[fmt.Sprintf("%s.%d", a.ID, code)][fmt.Sprint(v)] {
				c.Violate(name, "a collector holds %s, whose attribute %d never had that value", gen.Show(e.Record), code)
			}
		}
		c.Count("partial states examined", 1)
	}
}

// startCollector does what the serve command does.
func startCollector(factory session.ContainerFactory, bySource bool, r *rand.Rand) *xCollector {
	x := &xCollector{factory: factory, ctr: factory.Create(), joined: time.Now(), done: make(chan struct{})}
	x.st = store.NewDefaultCachingStore(store.CacheConfig{Key: func(e store.Entry) (string, error) {
		k := e.TypeMeta.String() + "/" + e.Record.Identity()
		if bySource {
			k = e.Meta.Source.String() + "/" + k
		}
		return k, nil
	}})
	reg := &store.DispatchRegistry{}
	for _, t := range gen.Types {
		rec, ok := gen.Rand(r, t, "x", 0).Record(true).(vanflow.Record)
		if ok {
			reg.RegisterStore(rec, x.st)
		}
	}
	ctx, cancel := context.WithCancel(bg)
	x.cancel = cancel
	x.ctr.Start(ctx)
	x.disc = eventsource.NewDiscovery(x.ctr, eventsource.DiscoveryOptions{})
	extra := r.IntN(2) == 0
	var flushes sync.WaitGroup
	go func() {
		defer close(x.done)
		x.disc.Run(ctx, eventsource.DiscoveryHandlers{
			Discovered: func(source eventsource.Info) {
				ctr := factory.Create()
				ctr.Start(ctx)
				client := eventsource.NewClient(ctr, eventsource.ClientOptions{Source: source})
				if err := x.disc.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: source.ID, Timeout: 30 * time.Second}); err != nil {
					return
				}
				dispatcher := reg.NewDispatcher(store.SourceRef{APIVersion: fmt.Sprint(source.Version), Type: source.Type, Name: source.ID})
				client.OnRecord(dispatcher.Dispatch)
				client.Listen(ctx, eventsource.FromSourceAddress())
				if extra {
					client.Listen(ctx, eventsource.FromSourceAddressFlows())
					client.Listen(ctx, eventsource.FromSourceAddressLogs())
				}
				if source.Type == "CONTROLLER" {
					client.Listen(ctx, eventsource.FromSourceAddressHeartbeats())
				}
				flushes.Add(1)
				go func() {
					defer flushes.Done()
					flushCtx, cancel := context.WithTimeout(ctx, 5*time.Second)
					defer cancel()
					err := eventsource.FlushOnFirstMessage(flushCtx, client)
					if err != nil && errors.Is(err, flushCtx.Err()) {
						client.SendFlush(ctx)
					}
				}()
			},
		})
		flushes.Wait()
	}()
	return x
}
