package events

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"
)

// TestM03: beacons and heartbeats in virtual time.
func TestM03(t *testing.T) {
	c := mon.Start("M03", "one case is one generated run in virtual time: a manager with random or default intervals on a peer that takes everything, takes everything slowly, or fails, delays or blocks beacons, heartbeats or everything for a while or for good, or takes no heartbeat until it has seen a beacon; distinct by the drawn configuration")
	for i := 0; i < c.N(2500, 40000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runM03(c, name) })
	}
	c.Finish(map[string]int64{"beacons": 30000, "heartbeats": 30000, "failed sends": 3000, "blocked sends": 3000, "healthy runs": 300, "heartbeats blocked for good": 100, "slow but healthy runs": 100})
}

func runM03(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := eventsource.Info{ID: gen.RandID(r), Version: r.IntN(5), Type: gen.RandString(r), Address: "mc/sfe." + fmt.Sprint(r.IntN(9)), Direct: "sfe.direct"}
	if r.IntN(5) == 0 {
		src.Direct = src.Address
	}
	cfg := eventsource.ManagerConfig{Source: src, UseAlternateHeartbeatAddress: r.IntN(2) == 0}
	b, h := 10*time.Second, 2*time.Second // the documented defaults
	if r.IntN(4) > 0 {
		b = time.Duration(1+r.IntN(20000)) * time.Millisecond
		cfg.BeaconInterval = b
	}
	if r.IntN(4) > 0 {
		h = time.Duration(1+r.IntN(20000)) * time.Millisecond
		cfg.HeartbeatInterval = h
	}
	if b > 200*h {
		b = 200 * h
		cfg.BeaconInterval = b
	}
	if h > 200*b {
		h = 200 * b
		cfg.HeartbeatInterval = h
	}
	hbAddr := src.Address
	if cfg.UseAlternateHeartbeatAddress {
		hbAddr += ".heartbeats"
	}
	small, big := min(b, h), max(b, h)
	mode := r.IntN(7)
	start := time.Now()
	sick := time.Duration(r.Int64N(int64(10 * big))) // until then the peer misbehaves
	forGood := false
	var mu sync.Mutex
	fr := c.Rand(name, "faults")
	beaconSeen := false
	switch mode {
	case 0: // healthy
		c.Count("healthy runs", 1)
	case 1: // heartbeats are not taken, for long or for good
		if forGood = r.IntN(2) == 0; forGood {
			c.Count("heartbeats blocked for good", 1)
		} else {
			sick += 30 * small
			c.Count("heartbeats blocked for long", 1)
		}
		net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act {
			return memnet.Act{Block: subject(m) == "HEARTBEAT" && (forGood || time.Since(start) < sick)}
		}
	case 2: // sends fail
		pB, pH := fr.IntN(101), fr.IntN(101)
		net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act {
			mu.Lock()
			defer mu.Unlock()
			p := pH
			if subject(m) == "BEACON" {
				p = pB
			}
			if time.Since(start) < sick && fr.IntN(100) < p {
				return memnet.Act{Err: failure(fr.IntN(6))}
			}
			return memnet.Act{}
		}
	case 3: // everything is blocked
		net.OnSend = func(string, int, *amqpMessage) memnet.Act { return memnet.Act{Block: time.Since(start) < sick} }
	case 4: // slow, failing and blocked
		net.OnSend = func(string, int, *amqpMessage) memnet.Act {
			mu.Lock()
			defer mu.Unlock()
			if time.Since(start) >= sick {
				return memnet.Act{}
			}
			switch fr.IntN(4) {
			case 0:
				return memnet.Act{Err: failure(fr.IntN(6))}
			case 1:
				return memnet.Act{Block: true}
			case 2:
				return memnet.Act{Delay: time.Duration(fr.Int64N(int64(2 * small)))}
			}
			return memnet.Act{}
		}
	case 5: // no heartbeat before a beacon
		net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act {
			mu.Lock()
			defer mu.Unlock()
			if subject(m) == "BEACON" {
				if time.Since(start) < sick/2 {
					return memnet.Act{Err: errInjected}
				}
				beaconSeen = true
				return memnet.Act{}
			}
			return memnet.Act{Block: !beaconSeen}
		}
	}
	if mode == 6 { // everything is taken, slowly
		takes := time.Duration(fr.Int64N(int64(2*small/5) + 1))
		net.OnSend = func(string, int, *amqpMessage) memnet.Act { return memnet.Act{Delay: takes} }
		c.Count("slow but healthy runs", 1)
	}
	m := eventsource.NewManager(net.Container(), cfg)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	done := runManager(ctx, m)
	length := sick + 60*small + 12*big
	time.Sleep(length)
	end := time.Now()
	var beacons, hbs, tried []memnet.Event
	for _, e := range net.Log() {
		if e.M == nil {
			continue
		}
		switch subject(e.M) {
		case "BEACON":
			if e.Addr != beaconAddr {
				c.Violate(name, "a beacon was sent to %s", e.Addr)
			}
			want := gen.ShowMsg(gen.BeaconMsg(src.ID, uint32(src.Version), src.Type, src.Address, src.Direct))
			if got := showMsg(e.M); got != want {
				c.Violate(name, "beacon is %s, configured is %s", got, want)
			}
			if e.Kind == memnet.SendCall {
				tried = append(tried, e)
			}
			if e.Kind == memnet.Sent {
				beacons = append(beacons, e)
			}
		case "HEARTBEAT":
			if e.Addr != hbAddr {
				c.Violate(name, "a heartbeat was sent to %s, configured is %s", e.Addr, hbAddr)
			}
			if e.Kind == memnet.SendCall {
				now, _ := e.M.ApplicationProperties["now"].(uint64)
				if d := e.T.UnixMicro() - int64(now); d < 0 || d > 1000 {
					c.Violate(name, "a heartbeat sent at %d has the time %d", e.T.UnixMicro(), now)
				}
				want := gen.ShowMsg(gen.HeartbeatMsg(src.ID, uint32(src.Version), now))
				if got := showMsg(e.M); got != want {
					c.Violate(name, "heartbeat is %s, configured is %s", got, want)
				}
			}
			if e.Kind == memnet.Sent {
				hbs = append(hbs, e)
			}
		default:
			if e.Kind == memnet.SendCall {
				c.Violate(name, "sent %s", showMsg(e.M))
			}
		}
		if e.Kind == memnet.SendFail {
			if errors.Is(e.Err, errInjected) {
				c.Count("failed sends", 1)
			} else {
				c.Count("blocked sends", 1)
			}
		}
	}
	c.Count("beacons", len(beacons))
	c.Count("heartbeats", len(hbs))
	what := fmt.Sprintf("beacon interval %s, heartbeat interval %s, mode %d, peer misbehaves for %s (for good: %v)", b, h, mode, sick, forGood)
	times := func(es []memnet.Event) []time.Time {
		var out []time.Time
		for _, e := range es {
			out = append(out, e.T)
		}
		return out
	}
	if len(tried) == 0 || tried[0].T.After(start) {
		c.Violate(name, "no beacon at once: %v\n%s", rels(times(tried), start), what)
	}
	if mode == 0 {
		evenly := func(kind string, es []memnet.Event, first, every time.Duration) {
			for k, e := range es {
				if d := e.T.Sub(start) - first - time.Duration(k)*every; d.Abs() > every/20 {
					c.Violate(name, "%s %d is at %s, expected at %s\n%s\n%v", kind, k, e.T.Sub(start), first+time.Duration(k)*every, what, rels(times(es), start))
				}
			}
			if n := int((length - first) / every); len(es) < n {
				c.Violate(name, "only %d %ss in %s\n%s", len(es), kind, length, what)
			}
		}
		evenly("beacon", beacons, 0, b)
		first := h // or at once
		if len(hbs) > 0 && hbs[0].T.Sub(start) < h/2 {
			first = 0
		}
		evenly("heartbeat", hbs, first, h)
	} else if mode == 6 {
		// both sends fit into the shorter interval, so none is skipped
		count := func(kind string, n int, every time.Duration) {
			if f := int(length / every); n < f-3 || n > f+2 {
				c.Violate(name, "%d %ss in %s with an interval of %s\n%s", n, kind, length, every, what)
			}
		}
		count("beacon", len(beacons), b)
		count("heartbeat", len(hbs), h)
	} else {
		// never a long pause between attempts, whatever the peer does; choosing
		// between two timers that are both due is random, hence the margin
		gap := b + 45*small
		prev := start
		for _, e := range append(append([]memnet.Event(nil), tried...), memnet.Event{T: end}) {
			if d := e.T.Sub(prev); d > gap {
				c.Violate(name, "no beacon was tried for %s\n%s\n%v", d, what, rels(times(tried), start))
			}
			prev = e.T
		}
		ok := start.Add(sick)
		if forGood {
			ok = start
		}
		after := func(kind string, es []memnet.Event, every time.Duration) {
			prev := ok
			for _, e := range append(append([]memnet.Event(nil), es...), memnet.Event{T: end}) {
				if e.T.Before(prev) {
					continue
				}
				if d := e.T.Sub(prev); d > every+45*small+b {
					c.Violate(name, "no %s for %s though the peer is well again since %s\n%s\n%v", kind, d, ok.Sub(start), what, rels(times(es), start))
				}
				prev = e.T
			}
		}
		after("beacon", beacons, b)
		if !forGood {
			after("heartbeat", hbs, h)
		}
		// not hammering either
		if n := int(length/small)*2 + 20; len(tried) > n {
			c.Violate(name, "%d beacons tried in %s\n%s", len(tried), length, what)
		}
	}
	endManager(c, name, net, cancel, done)
	c.Case(what)
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "what": what, "beacons": rels(times(beacons), start)[:min(5, len(beacons))]})
	}
}

// TestM04: cancellation at any moment.
func TestM04(t *testing.T) {
	c := mon.Start("M04", "one case is one generated run: a manager in a random situation (announcing itself to a peer that blocks or fails, batching updates, in a flush delay, listing slowly, blocked sending records, receiving requests) is cancelled at a random instant or before it runs; distinct by situation and instant")
	for i := 0; i < c.N(4000, 60000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runM04(c, name) })
	}
	c.Finish(map[string]int64{"cancelled while a send was blocked": 300, "cancelled while listing": 100, "cancelled while announcing": 300, "cancelled before running": 50, "cancelled in a flush delay": 100, "cancelled while batching": 100, "dumps larger than the queues": 200, "long intervals": 300})
}

func runM04(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := source("s")
	cfg := eventsource.ManagerConfig{Source: src,
		BeaconInterval:    time.Duration(1+r.IntN(300)) * time.Millisecond,
		HeartbeatInterval: time.Duration(1+r.IntN(300)) * time.Millisecond,
		FlushDelay:        dur(r, 300*time.Millisecond),
		FlushBatchSize:    1 + r.IntN(5),
		UpdateBufferTime:  dur(r, 300*time.Millisecond),
		UpdateBatchSize:   r.IntN(10),
	}
	if r.IntN(5) == 0 {
		cfg.BeaconInterval = time.Duration(1+r.IntN(3600)) * time.Second
		cfg.HeartbeatInterval = time.Duration(1+r.IntN(3600)) * time.Second
		c.Count("long intervals", 1)
	}
	var mu sync.Mutex
	blocked, listing := 0, 0
	block := map[string]bool{"BEACON": r.IntN(3) == 0, "HEARTBEAT": r.IntN(3) == 0, "RECORD": r.IntN(2) == 0}
	failing := r.IntN(4) == 0
	healthyFor := dur(r, 400*time.Millisecond)
	start := time.Now()
	announced := false
	net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act {
		mu.Lock()
		defer mu.Unlock()
		s := subject(m)
		if time.Since(start) < healthyFor || !block[s] {
			announced = announced || s == "BEACON"
			return memnet.Act{}
		}
		if failing {
			return memnet.Act{Err: errInjected}
		}
		blocked++
		return memnet.Act{Block: true}
	}
	closeBlocks := r.IntN(2) == 0
	net.OnClose = func(string, int, bool) memnet.Act {
		if closeBlocks {
			return memnet.Act{Block: true}
		}
		return memnet.Act{Delay: time.Duration(len(name)) * time.Millisecond} // ends with the context
	}
	for i := 1 + r.IntN(2); i > 0; i-- {
		st := newStore()
		records := r.IntN(30)
		if r.IntN(8) == 0 { // more than any queue holds
			records = 300 + r.IntN(400)
			cfg.FlushBatchSize = 1
			block["RECORD"] = true
			failing = false
			c.Count("dumps larger than the queues", 1)
		}
		for j := records; j > 0; j-- {
			addTo(st, gen.Rand(r, gen.Types[r.IntN(len(gen.Types))], fmt.Sprint("d", j), 0.2).Record(true))
		}
		ss := &slowStore{Interface: st, before: dur(r, 40*time.Millisecond)}
		if r.IntN(5) == 0 {
			ss.fail = func() error { return errInjected }
		}
		n := 0
		ss.calls = func() {
			mu.Lock()
			listing++
			n++
			if n == 100000 {
				c.Violate(name, "the store was listed 100000 times")
			}
			mu.Unlock()
		}
		cfg.Stores = append(cfg.Stores, ss)
	}
	m := eventsource.NewManager(net.Container(), cfg)
	ctx, cancel := context.WithCancel(bg)
	if r.IntN(20) == 0 {
		c.Count("cancelled before running", 1)
		cancel()
	}
	at := dur(r, pick(r, time.Millisecond, 200*time.Millisecond, 2*time.Second))
	timeout := false
	if r.IntN(3) == 0 && ctx.Err() == nil {
		timeout = true
		ctx, cancel = context.WithTimeout(bg, at+1)
	}
	done := runManager(ctx, m)
	// work for it
	n := r.IntN(60)
	var lastFlush, lastPub time.Time
	stop := start.Add(at)
	for i := 0; i < n; i++ {
		d := dur(r, 60*time.Millisecond)
		if time.Now().Add(d).After(stop) {
			break
		}
		time.Sleep(d)
		if r.IntN(3) == 0 {
			net.Inject(src.Direct, gen.FlushMsg(src.Direct))
			lastFlush = time.Now()
		} else {
			m.PublishUpdate(eventsource.RecordUpdate{Curr: gen.Rand(r, gen.Types[0], fmt.Sprint("u", i), 0.5).Record(true)})
			lastPub = time.Now()
		}
	}
	time.Sleep(time.Until(stop))
	mu.Lock()
	if blocked > 0 {
		c.Count("cancelled while a send was blocked", 1)
	}
	if listing > 0 {
		c.Count("cancelled while listing", 1)
	}
	if !announced {
		c.Count("cancelled while announcing", 1)
	}
	mu.Unlock()
	if !lastFlush.IsZero() && time.Since(lastFlush) < cfg.FlushDelay {
		c.Count("cancelled in a flush delay", 1)
	}
	if !lastPub.IsZero() && cfg.UpdateBatchSize > 1 && time.Since(lastPub) < cfg.UpdateBufferTime {
		c.Count("cancelled while batching", 1)
	}
	if timeout {
		time.Sleep(time.Millisecond)
	} else {
		cancel()
	}
	cancelled := time.Now()
	if timeout {
		cancelled = start.Add(at + 1)
	}
	what := fmt.Sprintf("config %+v, peer healthy for %s then blocks %v (fails instead: %v), cancelled at %s", cfg, healthyFor, block, failing, at)
	time.Sleep(50*time.Millisecond + time.Second)
	synctest.Wait()
	select {
	case <-done:
	default:
		c.Violate(name, "Run has not returned a second after its context was cancelled\n%s", what)
	}
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "still open a second after the manager was cancelled: %v\n%s", open, what)
	}
	var left []string
	for _, g := range mon.SUTGoroutines() {
		if strings.Contains(g, "eventsource.(*Manager)") {
			left = append(left, g)
		}
	}
	if len(left) > 0 {
		c.Violate(name, "goroutines left a second after the manager was cancelled:\n%s\n%s", strings.Join(left, "\n\n"), what)
	}
	mark := net.Mark()
	net.Inject(src.Direct, gen.FlushMsg(src.Direct))
	time.Sleep(time.Minute)
	for i, e := range net.Log() {
		if e.Kind == memnet.Sent && e.T.After(cancelled) {
			c.Violate(name, "sent %s to %s %s after the cancellation\n%s", showMsg(e.M), e.Addr, e.T.Sub(cancelled), what)
		}
		if i >= mark {
			c.Violate(name, "%s on %s long after the cancellation\n%s", e.Kind, e.Addr, what)
		}
	}
	cancel()
	c.Case(what)
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "what": what})
	}
}

// BadRecord is registered but its attribute cannot always be encoded.
type BadRecord struct {
	vanflow.BaseRecord
	Bad *Bad `vflow:"61"`
}

// Bad is an attribute that fails to encode.
type Bad struct{}

func (*Bad) EncodeRecordAttribute() (any, error) { return nil, errInjected }
func (*Bad) DecodeRecordAttribute(any) error     { return errInjected }

func (BadRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{Type: "BadRecord", APIVersion: "vf/1"}
}

// unknownRecord is not registered.
type unknownRecord struct{ vanflow.BaseRecord }

func (unknownRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{Type: "unknownRecord", APIVersion: "vf/1"}
}

func init() { registerBad() }

// badRecord is the k-th kind of a record that cannot be sent.
func badRecord(k int, id string) vanflow.Record {
	s := "\xff\xfe not text"
	switch k % 6 {
	case 0:
		return BadRecord{BaseRecord: vanflow.NewBase(id), Bad: &Bad{}}
	case 1:
		return unknownRecord{vanflow.NewBase(id)}
	case 2:
		return &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id), Name: &s}
	case 3:
		return (*vanflow.SiteRecord)(nil)
	case 4:
		far := vanflow.Time{Time: time.Date(9999999, 1, 1, 0, 0, 0, 0, time.UTC)}
		return &vanflow.LinkRecord{BaseRecord: vanflow.BaseRecord{ID: id, StartTime: &far}}
	default:
		return &vanflow.ProcessRecord{BaseRecord: vanflow.NewBase(id + s)}
	}
}

// TestM05: faults against everything else the manager has to do.
func TestM05(t *testing.T) {
	c := mon.Start("M05", "one case is one generated run: updates and dumps mix 1-60 good records with ones that cannot be encoded (failing encoders, unregistered types, text that is not UTF-8, nil, times out of range), stores whose listing fails at the first or a later page once or always, sends and receives that fail; distinct by the drawn placement")
	c.Assume("what is handed to the network is judged, so that a send that fails loses its own message only")
	for i := 0; i < c.N(2500, 40000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runM05(c, name) })
	}
	c.Finish(map[string]int64{"bad updates": 10000, "good updates": 20000, "good updates of bad records": 3000, "failed listings": 1000, "failed sends": 5000, "failed receives": 1000, "dumps": 1500, "bad records in stores": 3000, "runs with a backlog": 40, "runs with large batches": 80})
}

func runM05(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := source("s")
	cfg := eventsource.ManagerConfig{Source: src,
		BeaconInterval:    time.Second,
		HeartbeatInterval: 500 * time.Millisecond,
		FlushDelay:        dur(r, 100*time.Millisecond),
		FlushBatchSize:    1 + r.IntN(12),
		UpdateBufferTime:  dur(r, 100*time.Millisecond),
		UpdateBatchSize:   r.IntN(12),
	}
	var mu sync.Mutex
	fr := c.Rand(name, "faults")
	pSend := pick(r, 0, 0, 10, 60)
	net.OnSend = func(string, int, *amqpMessage) memnet.Act {
		mu.Lock()
		defer mu.Unlock()
		if fr.IntN(100) < pSend {
			c.Count("failed sends", 1)
			return memnet.Act{Err: failure(fr.IntN(6))}
		}
		return memnet.Act{}
	}
	large := r.IntN(8) == 0 // batches and dumps of hundreds of records
	if large {
		cfg.FlushBatchSize = pick(r, 0, 100, 1000)
		cfg.UpdateBatchSize = 100 + r.IntN(200)
		cfg.UpdateBufferTime = 100 * time.Millisecond
		c.Count("runs with large batches", 1)
	}
	backlog := !large && r.IntN(25) == 0 // far more than any queue holds
	if backlog {
		pSend = 10 + r.IntN(60)
		cfg.UpdateBatchSize = r.IntN(2)
		net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act {
			mu.Lock()
			defer mu.Unlock()
			a := memnet.Act{Delay: time.Duration(fr.IntN(3000)) * time.Microsecond}
			if fr.IntN(100) < pSend {
				c.Count("failed sends", 1)
				a.Err = failure(fr.IntN(6))
			}
			return a
		}
	}
	nextFails := 0
	if r.IntN(2) == 0 {
		nextFails = 1 + r.IntN(5)
	}
	net.OnNext = func(string, int) memnet.Act {
		mu.Lock()
		defer mu.Unlock()
		if nextFails > 0 && fr.IntN(2) == 0 {
			nextFails--
			c.Count("failed receives", 1)
			return memnet.Act{Err: failure(fr.IntN(6)), Delay: time.Duration(fr.IntN(300)) * time.Millisecond}
		}
		return memnet.Act{}
	}
	failAccept := r.IntN(3) == 0
	net.OnAccept = func(string, int, int) memnet.Act {
		if failAccept {
			mu.Lock()
			defer mu.Unlock()
			return memnet.Act{Err: failure(fr.IntN(6))}
		}
		return memnet.Act{}
	}
	net.ForeignAccept = func(addr string, link int) {
		c.Violate(name, "accepted a message that was not received")
	}
	nBad := 0
	bad := func(id string) vanflow.Record { nBad++; return badRecord(r.IntN(6), id) }
	// stores: which records are due in every dump
	due := map[string]int{} // identity -> store
	healthy := map[int]bool{}
	listCalls := 0
	nStores := 1 + r.IntN(4)
	for i := 0; i < nStores; i++ {
		k := 0
		st := store.NewDefaultCachingStore(store.CacheConfig{Key: func(e store.Entry) (string, error) {
			if e.Meta.Annotations != nil {
				return e.Meta.Annotations["key"], nil
			}
			return e.Record.Identity(), nil
		}})
		records := r.IntN(30)
		if large {
			records = r.IntN(300)
		}
		for j := records; j > 0; j-- {
			k++
			id := fmt.Sprintf("dump-%d-%d", i, k)
			var rec vanflow.Record
			if r.IntN(4) == 0 {
				rec = bad(id)
				c.Count("bad records in stores", 1)
			} else {
				rec = gen.Rand(r, gen.Types[r.IntN(len(gen.Types))], id, 0.3).Record(true)
				due[id] = i
			}
			// nil records have no identity: the key is kept beside
			e := store.Entry{Record: rec, Meta: store.Metadata{Annotations: map[string]string{"key": fmt.Sprint(r.Uint32())}}}
			if err := st.Add(bg, e); err != nil {
				panic(err)
			}
		}
		ss := &slowStore{Interface: st}
		ss.calls = func() {
			mu.Lock()
			defer mu.Unlock()
			if listCalls++; listCalls == 200000 {
				c.Violate(name, "the stores were listed 200000 times")
			}
		}
		healthy[i] = true
		switch r.IntN(5) {
		case 0: // always
			healthy[i] = false
			ss.fail = func() error { c.Count("failed listings", 1); return failure(i) }
		case 1: // now and then
			healthy[i] = false
			p := 1 + r.IntN(3)
			ss.fail = func() error {
				mu.Lock()
				defer mu.Unlock()
				if fr.IntN(4) < p {
					c.Count("failed listings", 1)
					return failure(fr.IntN(6))
				}
				return nil
			}
		}
		cfg.Stores = append(cfg.Stores, ss)
	}
	m := eventsource.NewManager(net.Container(), cfg)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	start := time.Now()
	done := runManager(ctx, m)
	synctest.Wait()
	var want []string
	states := map[string]*state{}
	codes := map[string]uint32{}
	requests := 0
	n := 1 + r.IntN(60)
	if backlog {
		n = 800 + r.IntN(1000)
		c.Count("runs with a backlog", 1)
	}
	if large {
		n = 200 + r.IntN(300)
	}
	var lastReq time.Time
	for i := 0; i < n; i++ {
		if !backlog && !large || r.IntN(100) == 0 {
			time.Sleep(dur(r, 50*time.Millisecond))
		}
		id := fmt.Sprintf("up-%d", r.IntN(8))
		switch r.IntN(8) {
		case 0, 1: // bad, as a new state, or instead of an old one
			u := eventsource.RecordUpdate{Curr: bad(id)}
			if p := states[id]; p != nil && r.IntN(2) == 0 {
				u.Prev = p.rec(r)
			}
			if r.IntN(12) == 0 {
				u.Curr = nil
			}
			m.PublishUpdate(u)
			c.Count("bad updates", 1)
		case 2:
			if !backlog && r.IntN(3) == 0 { // separated, so that every request gets its own dump
				time.Sleep(cfg.FlushDelay + 500*time.Millisecond)
				net.Inject(src.Direct, gen.FlushMsg(src.Direct))
				lastReq = time.Now()
				requests++
				time.Sleep(cfg.FlushDelay + 3*time.Second)
			}
		default:
			if states[id] == nil {
				codes[id] = randCode(r)
			}
			s := randState(r, id, codes[id], states[id])
			u := eventsource.RecordUpdate{Curr: s.rec(r)}
			base := states[id]
			if base != nil {
				u.Prev = base.rec(r)
			}
			if r.IntN(6) == 0 {
				// what could not be sent before is no base for a difference
				u.Prev, base = bad(id), nil
				c.Count("good updates of bad records", 1)
			}
			m.PublishUpdate(u)
			c.Count("good updates", 1)
			if d := deltaOf(base, s); d != nil {
				want = append(want, wireString(d))
			}
			states[id] = &s
		}
	}
	_ = lastReq
	time.Sleep(20 * time.Second)
	synctest.Wait()
	end := time.Now()
	var got []string
	dumped := map[string]int{}
	for _, e := range recordMsgs(net.Log(), src.Address, memnet.SendCall) {
		ids, recs := wireIDs(e.M), wireRecords(e.M)
		for i, id := range ids {
			if strings.HasPrefix(id, "dump-") {
				dumped[id]++
			} else {
				got = append(got, recs[i])
			}
		}
	}
	c.Count("dumps", requests)
	what := fmt.Sprintf("%d stores, healthy %v, %d requests, sends fail %d%%, batch %d/%s, dump batch %d", nStores, healthy, requests, pSend, cfg.UpdateBatchSize, cfg.UpdateBufferTime, cfg.FlushBatchSize)
	for i := 0; i < max(len(got), len(want)); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			c.Violate(name, "update number %d handed to the network is\n%s\nexpected\n%s\n%s", i, g, w, what)
		}
	}
	for id, s := range due {
		n := dumped[id]
		if healthy[s] && n != requests {
			c.Violate(name, "record %s was dumped %d times for %d requests\n%s", id, n, requests, what)
		}
		if n > requests {
			c.Violate(name, "record %s was dumped %d times for %d requests\n%s", id, n, requests, what)
		}
	}
	for id := range dumped {
		if _, ok := due[id]; !ok {
			c.Violate(name, "%s was dumped though it cannot be sent", id)
		}
	}
	// announcing goes on
	last := map[string]time.Time{}
	for _, e := range net.Log() {
		if e.Kind == memnet.SendCall {
			last[subject(e.M)] = e.T
		}
	}
	for _, s := range []string{"BEACON", "HEARTBEAT"} {
		if end.Sub(last[s]) > 3*time.Second {
			c.Violate(name, "the last %s was tried %s before the end at %s\n%s", s, end.Sub(last[s]), end.Sub(start), what)
		}
	}
	endManager(c, name, net, cancel, done)
	c.Case(what + fmt.Sprint(nBad, len(want)))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "what": what, "good updates": len(want), "bad records": nBad})
	}
}
