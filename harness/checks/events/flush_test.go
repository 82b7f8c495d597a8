package events

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"
)

func newStore() store.Interface {
	return store.NewDefaultCachingStore(store.CacheConfig{Key: func(e store.Entry) (string, error) {
		return e.Record.Identity(), nil
	}})
}

func entryOf(rec vanflow.Record) store.Entry {
	return store.Entry{Record: rec, TypeMeta: rec.GetTypeMeta()}
}

func addTo(s store.Interface, rec vanflow.Record) {
	if err := s.Add(bg, entryOf(rec)); err != nil {
		panic(err)
	}
}

// slowStore is a store whose listing takes time or fails.
type slowStore struct {
	store.Interface
	before, after time.Duration
	fail          func() error
	calls         func()
	short         func(limit int) int // pages may be shorter than asked for
}

func (s *slowStore) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	if s.calls != nil {
		s.calls()
	}
	if s.before > 0 {
		time.Sleep(s.before)
	}
	if err := ctx.Err(); err != nil {
		return store.Set{}, err
	}
	if s.fail != nil {
		if err := s.fail(); err != nil {
			return store.Set{}, err
		}
	}
	if s.short != nil && sel != nil && sel.Limit > 1 {
		less := *sel
		less.Limit = s.short(sel.Limit)
		sel = &less
	}
	set, err := s.Interface.List(ctx, sel)
	if s.after > 0 {
		time.Sleep(s.after)
	}
	return set, err
}

// TestM02: dumps against flush requests.
func TestM02(t *testing.T) {
	c := mon.Start("M02", "one case is one generated run: a manager over 1-43 stores of 1-60 records with random flush delay and batch size gets 0-40 flush requests in bursts and with pauses, while records are added, updated and deleted, with instantaneous or slow listing and sending (some runs: stores of up to 1500 records; bursts of 20-80 requests; sends that stall for up to two minutes under a dump of hundreds of messages); distinct by the drawn schedule")
	c.Assume("at least one record stays in the stores all the time: its appearances delimit the dumps on the wire")
	for i := 0; i < c.N(2500, 40000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runM02(c, name) })
	}
	for i := 0; i < c.N(40, 1000); i++ {
		name := fmt.Sprintf("stall-%d", i)
		bubble(t, c, name, func() { runM02Stall(c, name) })
	}
	c.Finish(map[string]int64{"requests": 15000, "dumps": 4000, "dumps of several pages": 1000, "requests sharing a dump": 1000, "changes": 5000, "runs without request": 50, "bursts": 300, "dumps of stores of hundreds": 30, "dumps while sends stall": 30, "runs with short pages": 200, "runs with many stores": 100})
}

type life struct {
	wire     string
	from, to time.Time // held in between; to is zero while held
}

func runM02(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := source("s")
	cfg := eventsource.ManagerConfig{Source: src, BeaconInterval: time.Hour, HeartbeatInterval: time.Hour}
	cfg.FlushDelay = pick(r, 0, time.Duration(1+r.IntN(1000))*time.Millisecond)
	cfg.FlushBatchSize = pick(r, 0, 1, 2, 3, 5, 10, 25, 60, 100)
	slow := r.IntN(2) == 0
	var listTime, sendTime time.Duration
	if slow {
		if listTime = dur(r, 20*time.Millisecond); r.IntN(3) == 0 {
			sendTime = dur(r, 5*time.Millisecond)
		}
		net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act { return memnet.Act{Delay: sendTime} }
	}
	var mu sync.Mutex
	lives := map[string][]life{} // by identity
	nStores := 1 + r.IntN(3)
	if r.IntN(8) == 0 {
		nStores = 4 + r.IntN(40)
		c.Count("runs with many stores", 1)
	}
	var stores []store.Interface
	nextID := 0
	var stable, volatile []string
	home := map[string]int{}
	types := map[string]gen.Type{}
	put := func(id string, update bool) {
		a := gen.Rand(r, types[id], id, 0.3)
		s := stores[home[id]]
		mu.Lock()
		defer mu.Unlock()
		now := time.Now()
		if l := lives[id]; len(l) > 0 && l[len(l)-1].to.IsZero() {
			l[len(l)-1].to = now
		}
		lives[id] = append(lives[id], life{wire: wireString(a.Wire()), from: now})
		var err error
		if update {
			err = s.Update(bg, entryOf(a.Record(true)))
		} else {
			err = s.Add(bg, entryOf(a.Record(true)))
		}
		if err != nil {
			panic(err)
		}
	}
	drop := func(id string) {
		mu.Lock()
		defer mu.Unlock()
		l := lives[id]
		l[len(l)-1].to = time.Now()
		stores[home[id]].Delete(bg, entryOf(gen.Abs{Type: types[id].Name, ID: id}.Record(true)))
	}
	fresh := func(isStable bool) string {
		nextID++
		id := fmt.Sprintf("%s%03d", string(rune('a'+r.IntN(26))), nextID)
		home[id] = r.IntN(nStores)
		types[id] = gen.Types[r.IntN(len(gen.Types))]
		if isStable {
			stable = append(stable, id)
		} else {
			volatile = append(volatile, id)
		}
		put(id, false)
		return id
	}
	short := r.IntN(5) == 0
	if short {
		c.Count("runs with short pages", 1)
	}
	for i := 0; i < nStores; i++ {
		s := newStore()
		stores = append(stores, s)
		ss := &slowStore{Interface: s}
		if slow {
			ss.before, ss.after = listTime/2, listTime-listTime/2
		}
		if short && i%2 == 0 {
			pr := c.Rand(name, "pages", i)
			ss.short = func(limit int) int { return limit/3 + 1 + pr.IntN(limit-limit/3) }
		}
		cfg.Stores = append(cfg.Stores, ss)
	}
	initial := 1 + r.IntN(60)
	if r.IntN(60) == 0 {
		initial = 200 + r.IntN(1300)
		cfg.FlushBatchSize = pick(r, 0, 0, 50, 100, 250, 1000, 5000)
	}
	for i := initial; i > 0; i-- {
		fresh(i == 1 || r.IntN(3) > 0)
	}
	m := eventsource.NewManager(net.Container(), cfg)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	start := time.Now()
	done := runManager(ctx, m)
	synctest.Wait()
	// the requests
	var requests []time.Time
	nReq := 0
	if r.IntN(12) > 0 {
		nReq = 1 + r.IntN(pick(r, 3, 12, 40))
	} else {
		c.Count("runs without request", 1)
	}
	changes := r.IntN(3) > 0
	unit := cfg.FlushDelay
	if unit == 0 {
		unit = 20 * time.Millisecond
	}
	for i := 0; i < nReq; i++ {
		switch r.IntN(5) {
		case 0:
			time.Sleep(3*unit + time.Duration(r.Int64N(int64(time.Second))))
		case 1, 2:
			time.Sleep(time.Duration(r.Int64N(int64(unit))))
		case 3:
			time.Sleep(unit + time.Duration(r.IntN(2001)-1000)*time.Nanosecond)
		}
		time.Sleep(time.Duration(1+r.IntN(900)) * time.Nanosecond)
		net.Inject(src.Direct, gen.Dress(r, gen.FlushMsg(src.Direct)))
		requests = append(requests, time.Now())
		if r.IntN(15) == 0 && initial < 100 {
			c.Count("bursts", 1)
			for j := 20 + r.IntN(60); j > 0; j-- {
				time.Sleep(time.Duration(1 + r.IntN(900)))
				net.Inject(src.Direct, gen.Dress(r, gen.FlushMsg(src.Direct)))
				requests = append(requests, time.Now())
			}
		}
		for j := 0; changes && j < r.IntN(4); j++ {
			time.Sleep(time.Duration(r.Int64N(int64(unit)/2) + 1))
			c.Count("changes", 1)
			var live []string
			for _, id := range volatile {
				if l := lives[id]; l[len(l)-1].to.IsZero() {
					live = append(live, id)
				}
			}
			switch r.IntN(4) {
			case 0:
				fresh(false)
			case 1:
				if len(live) > 0 {
					drop(live[r.IntN(len(live))])
				}
			case 2:
				if len(live) > 0 {
					put(live[r.IntN(len(live))], true)
				}
			case 3:
				put(stable[r.IntN(len(stable))], true)
			}
		}
	}
	time.Sleep(time.Minute)
	synctest.Wait()
	c.Count("requests", len(requests))
	log := net.Log()
	msgs := recordMsgs(log, src.Address, memnet.Sent)
	began := map[int]time.Time{} // when each sent message was handed to the network
	for i := range log {
		if log[i].Kind == memnet.SendCall && log[i].Addr == src.Address && subject(log[i].M) == "RECORD" {
			began[len(began)] = log[i].T
		}
	}
	idsOf, recsOf := make([][]string, len(msgs)), make([][]string, len(msgs))
	for i, e := range msgs {
		idsOf[i], recsOf[i] = wireIDs(e.M), wireRecords(e.M)
	}
	// appearances of every record: message numbers
	seen := map[string][]int{}
	for i := range msgs {
		ids, recs := idsOf[i], recsOf[i]
		if len(ids) == 0 {
			c.Violate(name, "an empty record message was sent")
		}
		if cfg.FlushBatchSize > 0 && len(ids) > cfg.FlushBatchSize {
			c.Violate(name, "a message of %d records, the batch size is %d", len(ids), cfg.FlushBatchSize)
		}
		for k, id := range ids {
			seen[id] = append(seen[id], i)
			ok := false
			for _, l := range lives[id] {
				ok = ok || l.wire == recs[k]
			}
			if !ok {
				c.Violate(name, "a dump has %s, which the stores never held; they held %v", recs[k], lives[id])
			}
		}
	}
	describe := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "flush delay %s, batch size %d, list %s, send %s, stable %v\nrequests at %v\n", cfg.FlushDelay, cfg.FlushBatchSize, listTime, sendTime, stable, rels(requests, start))
		for _, e := range msgs {
			fmt.Fprintf(&b, "%s: %v\n", e.T.Sub(start), wireIDs(e.M))
		}
		var ids []string
		for id := range lives {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, l := range lives[id] {
				fmt.Fprintf(&b, "%s held %s..%s\n", id, rel(l.from, start), rel(l.to, start))
			}
		}
		return b.String()
	}
	dumps := len(seen[stable[0]])
	for _, id := range stable {
		if len(seen[id]) != dumps {
			c.Violate(name, "record %s appears %d times, %s %d times: no whole number of complete dumps\n%s", id, len(seen[id]), stable[0], dumps, describe())
		}
	}
	if len(requests) == 0 && len(msgs) > 0 {
		c.Violate(name, "dumped without a request\n%s", describe())
	}
	if dumps > len(requests) {
		c.Violate(name, "%d dumps for %d requests\n%s", dumps, len(requests), describe())
	}
	if len(requests) > 0 && dumps == 0 {
		c.Violate(name, "no dump\n%s", describe())
	}
	c.Count("dumps", dumps)
	if initial >= 200 {
		c.Count("dumps of stores of hundreds", dumps)
	}
	first, last := make([]int, dumps), make([]int, dumps)
	for k := 0; k < dumps; k++ {
		first[k], last[k] = len(msgs), -1
		for _, id := range stable {
			first[k], last[k] = min(first[k], seen[id][k]), max(last[k], seen[id][k])
		}
		if k > 0 && first[k] < last[k-1] {
			c.Violate(name, "dumps %d and %d overlap, or one has a record twice\n%s", k-1, k, describe())
		}
		if last[k] > first[k] {
			c.Count("dumps of several pages", 1)
		}
	}
	// A page that has the last stable record of one dump cannot have the first
	// of the next: pages never mix dumps.
	for k := 1; k < dumps; k++ {
		if first[k] == last[k-1] {
			c.Violate(name, "one message has records of two dumps\n%s", describe())
		}
	}
	// every dump contains what was held all the time, and nothing twice
	for k := 0; k < dumps; k++ {
		lo, hi := -1, len(msgs) // messages that may belong to dump k
		if k > 0 {
			lo = last[k-1]
		}
		if k+1 < dumps {
			hi = first[k+1]
		}
		var since time.Time // the earliest request dump k may answer
		for _, q := range requests {
			if k == 0 || !q.Before(began[first[k-1]].Add(-listTime*time.Duration(1+len(msgs)))) {
				since = q
				break
			}
		}
		end := msgs[last[k]].T
		for id, ls := range lives {
			n, inside := 0, 0
			for _, i := range seen[id] {
				if i > lo && i < hi {
					n++
				}
				if i >= first[k] && i <= last[k] {
					inside++
				}
			}
			if inside > 1 {
				c.Violate(name, "record %s appears %d times in dump %d\n%s", id, inside, k, describe())
			}
			throughout := ls[0].from.Before(since) && (ls[len(ls)-1].to.IsZero() || ls[len(ls)-1].to.After(hiTime(msgs, hi, end)))
			if sendTime == 0 && throughout && n == 0 {
				c.Violate(name, "record %s was held from before the request until after the answer but is missing from dump %d\n%s", id, k, describe())
			}
		}
	}
	// values: each one sent was held when it was listed
	for id, occ := range seen {
		if sendTime > 0 {
			break // when it was listed is unknown
		}
		for _, i := range occ {
			e := msgs[i]
			var rec string
			for k, x := range idsOf[i] {
				if x == id {
					rec = recsOf[i][k]
				}
			}
			from := began[i].Add(-listTime)
			ok := false
			for _, l := range lives[id] {
				if l.wire == rec && !l.from.After(e.T) && (l.to.IsZero() || !l.to.Before(from)) {
					ok = true
				}
			}
			if !ok {
				c.Violate(name, "message %d at %s has an outdated state of %s: %s\n%s", i, e.T.Sub(start), id, rec, describe())
			}
		}
	}
	// every request is answered in time by a dump that begins after it
	pages := time.Duration(nStores)
	size := cfg.FlushBatchSize
	if size <= 0 {
		size = 1
	}
	pages += time.Duration(len(lives)/size + 1)
	oneDump := pages * (listTime + sendTime)
	for qi, q := range requests {
		// began[first] is no earlier than the dump's beginning and at most one
		// listing per store after it
		k := 0
		for k < dumps && !began[first[k]].After(q.Add(-1)) {
			k++
		}
		if k == dumps {
			c.Violate(name, "request %d at %s was not answered\n%s", qi, q.Sub(start), describe())
		}
		if !slow {
			// the first dump from q on comes within the delay
			if d := began[first[k]].Sub(q); d > cfg.FlushDelay {
				c.Violate(name, "request %d at %s was answered after %s\n%s", qi, q.Sub(start), d, describe())
			}
		} else if d := began[first[k]].Sub(q); d > 2*cfg.FlushDelay+3*oneDump {
			c.Violate(name, "request %d at %s was answered only after %s\n%s", qi, q.Sub(start), d, describe())
		}
	}
	if !slow && cfg.FlushDelay > 0 {
		want := 0
		var until time.Time
		for _, q := range requests {
			if want == 0 || q.After(until) {
				want++
				until = q.Add(cfg.FlushDelay)
			} else {
				c.Count("requests sharing a dump", 1)
			}
		}
		if dumps != want {
			c.Violate(name, "%d dumps, sharing within the flush delay gives %d\n%s", dumps, want, describe())
		}
	}
	endManager(c, name, net, cancel, done)
	c.Case(fmt.Sprint(cfg.FlushDelay, cfg.FlushBatchSize, slow, len(stable), len(volatile), len(requests), dumps))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "what": describe()})
	}
}

// hiTime is the time until which a record has to be held to be due in the
// messages before number hi.
func hiTime(msgs []memnet.Event, hi int, end time.Time) time.Time {
	if hi < len(msgs) {
		return msgs[hi].T
	}
	return end.Add(time.Second)
}

// runM02Stall has the sends of a large dump take nothing for a while.
func runM02Stall(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := source("s")
	cfg := eventsource.ManagerConfig{Source: src, BeaconInterval: time.Minute, HeartbeatInterval: time.Minute,
		FlushDelay: dur(r, time.Second), FlushBatchSize: pick(r, 1, 1, 2, 3)}
	stallFrom := time.Now().Add(dur(r, 2*time.Second))
	stallTo := stallFrom.Add(time.Duration(5+r.IntN(115)) * time.Second)
	each := dur(r, 3*time.Millisecond)
	net.OnSend = func(_ string, _ int, m *amqpMessage) memnet.Act {
		if subject(m) != "RECORD" {
			return memnet.Act{}
		}
		if now := time.Now(); now.After(stallFrom) && now.Before(stallTo) {
			return memnet.Act{Delay: stallTo.Sub(now)}
		}
		return memnet.Act{Delay: each}
	}
	wire := map[string]string{}
	var mu sync.Mutex
	nStores := 1 + r.IntN(3)
	listed := make([]time.Time, nStores)
	for i := 0; i < nStores; i++ {
		st := newStore()
		for j := 300 + r.IntN(500); j > 0; j-- {
			id := fmt.Sprintf("%d-%d", i, j)
			a := gen.Rand(r, gen.Types[r.IntN(len(gen.Types))], id, 0.1)
			addTo(st, a.Record(true))
			wire[id] = wireString(a.Wire())
		}
		cfg.Stores = append(cfg.Stores, &slowStore{Interface: st, calls: func() {
			mu.Lock()
			defer mu.Unlock()
			listed[i] = time.Now()
		}})
	}
	m := eventsource.NewManager(net.Container(), cfg)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	start := time.Now()
	done := runManager(ctx, m)
	synctest.Wait()
	requests := 1 + r.IntN(3)
	var lastReq time.Time
	for i := 0; i < requests; i++ {
		time.Sleep(1 + dur(r, pick(r, time.Second, 30*time.Second)))
		net.Inject(src.Direct, gen.Dress(r, gen.FlushMsg(src.Direct)))
		lastReq = time.Now()
	}
	time.Sleep(15 * time.Minute)
	synctest.Wait()
	what := fmt.Sprintf("%d stores of %d records, delay %s, batch %d, sends stall from %s to %s and take %s, last of %d requests at %s",
		nStores, len(wire), cfg.FlushDelay, cfg.FlushBatchSize, stallFrom.Sub(start), stallTo.Sub(start), each, requests, lastReq.Sub(start))
	seen := map[string]int{}
	for _, e := range recordMsgs(net.Log(), src.Address, memnet.Sent) {
		ids, recs := wireIDs(e.M), wireRecords(e.M)
		if len(ids) == 0 || len(ids) > cfg.FlushBatchSize {
			c.Violate(name, "a message of %d records, the batch size is %d\n%s", len(ids), cfg.FlushBatchSize, what)
		}
		for k, id := range ids {
			seen[id]++
			if wire[id] != recs[k] {
				c.Violate(name, "a dump has %s, the stores have %q\n%s", recs[k], wire[id], what)
			}
		}
	}
	dumps := -1
	for id := range wire {
		if dumps < 0 {
			dumps = seen[id]
		}
		if seen[id] != dumps {
			c.Violate(name, "record %s appears %d times, another %d times: no whole number of complete dumps\n%s", id, seen[id], dumps, what)
		}
	}
	if dumps < 1 || dumps > requests {
		c.Violate(name, "%d dumps for %d requests\n%s", dumps, requests, what)
	}
	for i, at := range listed {
		if at.Before(lastReq) {
			c.Violate(name, "store %d was last listed at %s: the last request was not answered\n%s", i, at.Sub(start), what)
		}
	}
	c.Count("dumps while sends stall", dumps)
	endManager(c, name, net, cancel, done)
	c.Case(what)
}
