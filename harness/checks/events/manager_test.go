package events

import (
	"context"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/eventsource"
)

// Tags is an attribute with a value that == cannot compare.
type Tags struct{ List []string }

func (t *Tags) EncodeRecordAttribute() (any, error) {
	if len(t.List) == 0 {
		return nil, encoding.ErrAttributeNotSet
	}
	return append([]string(nil), t.List...), nil
}

func (t *Tags) DecodeRecordAttribute(v any) error {
	l, ok := v.([]string)
	if !ok {
		return fmt.Errorf("not a list: %T", v)
	}
	t.List = append([]string(nil), l...)
	return nil
}

// TagRecord is a custom record type.
type TagRecord struct {
	vanflow.BaseRecord
	Name *string `vflow:"30"`
	Tags *Tags   `vflow:"60"`
}

func (TagRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{Type: "TagRecord", APIVersion: "vf/1"}
}

const tagCode = 7100

func init() { encoding.MustRegisterRecord(tagCode, TagRecord{}) }

// wireString renders a record's wire map canonically.
func wireString(m map[any]any) string {
	var parts []string
	for k, v := range m {
		parts = append(parts, fmt.Sprintf("%v=%T(%q)", k, v, fmt.Sprint(v)))
	}
	sort.Strings(parts)
	return "{" + strings.Join(parts, " ") + "}"
}

// wireRecords reads the elements of a record message canonically.
func wireRecords(m *amqpMessage) []string {
	list, _ := m.Value.([]any)
	var out []string
	for _, el := range list {
		wm, ok := el.(map[any]any)
		if !ok {
			out = append(out, fmt.Sprintf("not a map: %T", el))
			continue
		}
		out = append(out, wireString(wm))
	}
	return out
}

func wireID(m map[any]any) string { s, _ := m[uint32(1)].(string); return s }

// wireIDs reads the identities of a record message.
func wireIDs(m *amqpMessage) []string {
	list, _ := m.Value.([]any)
	var out []string
	for _, el := range list {
		wm, _ := el.(map[any]any)
		out = append(out, wireID(wm))
	}
	return out
}

// state is the content of a record the workload publishes.
type state struct {
	wire map[any]any
	rec  func(r *rand.Rand) vanflow.Record
}

// randState draws the state following prev (nil: the first one) of a record;
// attributes are never removed.
func randState(r *rand.Rand, id string, code uint32, prev *state) state {
	w := map[any]any{uint32(0): code, uint32(1): id}
	if prev != nil {
		for k, v := range prev.wire {
			w[k] = v
		}
	}
	if code == tagCode {
		if r.IntN(2) == 0 {
			w[uint32(30)] = gen.RandString(r)
		}
		if r.IntN(2) == 0 {
			w[uint32(60)] = []string{"a", "b", gen.RandString(r)}[:1+r.IntN(3)]
		}
		return state{w, func(r *rand.Rand) vanflow.Record {
			rec := TagRecord{BaseRecord: vanflow.NewBase(id)}
			if v, ok := w[uint32(30)].(string); ok {
				rec.Name = &v
			}
			if v, ok := w[uint32(60)].([]string); ok {
				rec.Tags = &Tags{List: append([]string(nil), v...)}
			}
			if r.IntN(2) == 0 {
				return &rec
			}
			return rec
		}}
	}
	t, _ := gen.ByCode(code)
	p := pick(r, 0.1, 0.4, 1)
	for _, at := range t.AllAttrs() {
		if r.Float64() < p {
			if v, ok := w[at.Code]; ok && r.IntN(3) == 0 {
				w[at.Code] = gen.Similar(r, at.Kind, v)
			} else {
				w[at.Code] = gen.RandValue(r, at.Kind)
			}
		}
	}
	a, err := gen.FromWire(w)
	if err != nil {
		panic(err)
	}
	return state{w, func(r *rand.Rand) vanflow.Record { return a.Record(r.IntN(2) == 0) }}
}

// deltaOf is what has to be sent for a change, nil for nothing.
func deltaOf(prev *state, curr state) map[any]any {
	if prev == nil {
		return curr.wire
	}
	d := map[any]any{}
	for k, v := range curr.wire {
		if pv, ok := prev.wire[k]; !ok || !reflect.DeepEqual(pv, v) {
			d[k] = v
		}
	}
	if len(d) == 0 {
		return nil
	}
	d[uint32(0)], d[uint32(1)] = curr.wire[uint32(0)], curr.wire[uint32(1)]
	return d
}

func randCode(r *rand.Rand) uint32 {
	if r.IntN(6) == 0 {
		return tagCode
	}
	return gen.Types[r.IntN(len(gen.Types))].Code
}

// runManager starts a manager and returns how to stop it.
func runManager(ctx context.Context, m *eventsource.Manager) (done chan struct{}) {
	done = make(chan struct{})
	go func() {
		defer close(done)
		m.Run(ctx)
	}()
	return done
}

// recordMsgs are the record messages that the log shows on an address.
func recordMsgs(log []memnet.Event, addr string, k memnet.Kind) []memnet.Event {
	var out []memnet.Event
	for _, e := range log {
		if e.Kind == k && e.Addr == addr && subject(e.M) == "RECORD" {
			out = append(out, e)
		}
	}
	return out
}

// endManager cancels a manager at the end of a case and sees it gone.
func endManager(c *mon.Check, name string, net *memnet.Net, cancel context.CancelFunc, done chan struct{}) {
	cancel()
	time.Sleep(time.Minute)
	select {
	case <-done:
	default:
		c.Violate(name, "Run has not returned a minute after its context was cancelled")
	}
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "still open a minute after the manager was cancelled: %v", open)
	}
}

// TestM01: published updates against what is sent.
func TestM01(t *testing.T) {
	c := mon.Start("M01", "one case is one generated run: 1-3 publishers publish 1-150 states each of records of all built-in types and a custom one (new, changed, unchanged; as pointers and values) in bursts and with pauses, with random batch settings, optionally slow sends, sends that stall while up to 4800 updates pile up, or flush requests for other records in between; distinct by the drawn sequence")
	c.Assume("no update removes an attribute: deltas cannot express that")
	for i := 0; i < c.N(1500, 25000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runM01(c, name) })
	}
	c.Finish(map[string]int64{"updates": 30000, "updates without change": 1500, "deltas sent": 20000, "full batches": 500, "partial batches": 500, "dump messages among them": 100, "runs with a backlog": 20, "repeated updates": 3000, "updates that go back": 2000})
}

func runM01(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := source("s")
	cfg := eventsource.ManagerConfig{Source: src, HeartbeatInterval: time.Minute}
	batch := 1
	if r.IntN(4) > 0 {
		cfg.UpdateBufferTime = time.Duration(1+r.IntN(500)) * time.Millisecond
		cfg.UpdateBatchSize = pick(r, 0, 1, 2, 3, 7, 10, 40, 100)
		if cfg.UpdateBatchSize > 1 {
			batch = cfg.UpdateBatchSize
		}
	} else {
		cfg.UpdateBatchSize = r.IntN(20)
	}
	wait := cfg.UpdateBufferTime
	if batch == 1 {
		wait = 0
	}
	slow := r.IntN(4) == 0
	if slow {
		d := dur(r, 20*time.Millisecond)
		net.OnSend = func(addr string, _ int, m *amqpMessage) memnet.Act {
			if subject(m) == "RECORD" {
				return memnet.Act{Delay: d}
			}
			return memnet.Act{}
		}
	}
	stall := r.IntN(30) == 0 // sends take nothing for a while, far more than any queue holds piles up
	if stall {
		slow = true
		until := time.Now().Add(time.Duration(1+r.IntN(60)) * time.Second)
		net.OnSend = func(addr string, _ int, m *amqpMessage) memnet.Act {
			if subject(m) == "RECORD" {
				return memnet.Act{Delay: max(0, time.Until(until))}
			}
			return memnet.Act{}
		}
		c.Count("runs with a backlog", 1)
	}
	flushes := r.IntN(4) == 0
	if flushes {
		st := newStore()
		for i := 0; i < 1+r.IntN(10); i++ {
			id := fmt.Sprintf("dump-%d", i)
			addTo(st, gen.Rand(r, gen.Types[r.IntN(len(gen.Types))], id, 0.3).Record(true))
		}
		cfg.Stores = append(cfg.Stores, st)
		cfg.FlushDelay = dur(r, 50*time.Millisecond)
		cfg.FlushBatchSize = r.IntN(4)
	}
	m := eventsource.NewManager(net.Container(), cfg)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	early := !stall && r.IntN(4) == 0 // some updates are published before the manager runs
	var done chan struct{}
	if !early {
		done = runManager(ctx, m)
		synctest.Wait()
	}
	type pub struct {
		want  string
		after time.Time // publication returned no later
		from  time.Time
	}
	var mu sync.Mutex
	pubs := map[int][]pub{}
	var wg sync.WaitGroup
	publishers := 1 + r.IntN(3)
	gap := pick(r, 0, time.Millisecond, 50*time.Millisecond, cfg.UpdateBufferTime)
	sig := fmt.Sprint(cfg.UpdateBatchSize, cfg.UpdateBufferTime, publishers, gap, slow, flushes, early)
	startAt := time.Now()
	for p := 0; p < publishers; p++ {
		pr := c.Rand(name, "publisher", p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			states, before := map[string]*state{}, map[string]*state{}
			codes := map[string]uint32{}
			n := 1 + pr.IntN(pick(pr, 10, 60, 150))
			if early {
				n = min(n, 80)
			}
			if stall {
				n = 400 + pr.IntN(1200)
			}
			for i := 0; i < n; i++ {
				if !stall && pr.IntN(3) > 0 || pr.IntN(300) == 0 {
					time.Sleep(dur(pr, gap))
				}
				id := fmt.Sprintf("p%d-%d", p, pr.IntN(8))
				if pr.IntN(10) == 0 {
					id = fmt.Sprintf("p%d-x%d", p, i)
				}
				prev := states[id]
				if prev == nil {
					codes[id] = randCode(pr)
				}
				var curr state
				if b := before[id]; b != nil && len(b.wire) == len(prev.wire) && pr.IntN(3) == 0 {
					curr = *b // there and back
					c.Count("updates that go back", 1)
				} else if prev != nil && pr.IntN(6) == 0 {
					curr = *prev
				} else {
					curr = randState(pr, id, codes[id], prev)
				}
				u := eventsource.RecordUpdate{Curr: curr.rec(pr)}
				if prev != nil {
					u.Prev = prev.rec(pr)
				}
				from := time.Now()
				m.PublishUpdate(u)
				c.Count("updates", 1)
				again := 0
				for !early && pr.IntN(8) == 0 {
					// the very same update once more
					if pr.IntN(2) == 0 {
						u = eventsource.RecordUpdate{Curr: curr.rec(pr)}
						if prev != nil {
							u.Prev = prev.rec(pr)
						}
					}
					m.PublishUpdate(u)
					again++
					c.Count("repeated updates", 1)
				}
				states[id], before[id] = &curr, prev
				d := deltaOf(prev, curr)
				if d == nil {
					c.Count("updates without change", 1)
					continue
				}
				mu.Lock()
				for ; again >= 0; again-- {
					pubs[p] = append(pubs[p], pub{wireString(d), time.Now(), from})
				}
				mu.Unlock()
			}
		}()
	}
	if early {
		wg.Wait()
		startAt = time.Now()
		done = runManager(ctx, m)
	}
	if flushes {
		for i := 0; i < 3; i++ {
			time.Sleep(dur(r, 100*time.Millisecond))
			net.Inject(src.Direct, gen.FlushMsg(src.Direct))
		}
	}
	wg.Wait()
	time.Sleep(5 * time.Minute)
	synctest.Wait()
	got := map[int][]string{}
	gotAt := map[int][]time.Time{}
	nrec := 0
	for _, e := range recordMsgs(net.Log(), src.Address, memnet.Sent) {
		ids, recs := wireIDs(e.M), wireRecords(e.M)
		if len(recs) == 0 {
			c.Violate(name, "an empty record message was sent")
		}
		if strings.HasPrefix(ids[0], "dump-") {
			c.Count("dump messages among them", 1)
			continue
		}
		if len(recs) > batch {
			c.Violate(name, "a message carries %d updates, the batch size is %d (buffer time %s)", len(recs), batch, cfg.UpdateBufferTime)
		}
		if batch > 1 {
			if len(recs) == batch {
				c.Count("full batches", 1)
			} else {
				c.Count("partial batches", 1)
			}
		}
		for i := range recs {
			p := -1
			fmt.Sscanf(ids[i], "p%d-", &p)
			if p < 0 {
				c.Violate(name, "sent a record nobody published: %s", recs[i])
			}
			got[p] = append(got[p], recs[i])
			gotAt[p] = append(gotAt[p], e.T)
			nrec++
		}
	}
	for p := 0; p < publishers; p++ {
		for i := 0; i < max(len(got[p]), len(pubs[p])); i++ {
			switch {
			case i >= len(got[p]):
				c.Violate(name, "publisher %d: change %d of %d was not sent: %s", p, i, len(pubs[p]), pubs[p][i].want)
			case i >= len(pubs[p]):
				c.Violate(name, "publisher %d: sent beyond the last change: %s", p, got[p][i])
			case got[p][i] != pubs[p][i].want:
				c.Violate(name, "publisher %d: sent number %d is\n%s\nexpected\n%s", p, i, got[p][i], pubs[p][i].want)
			}
			if slow || flushes {
				continue
			}
			ready := pubs[p][i].after
			if ready.Before(startAt) {
				ready = startAt
			}
			if early {
				continue // one batch after the other
			}
			if d := gotAt[p][i].Sub(ready); d > wait {
				c.Violate(name, "an update waited %s, the buffer time is %s and the batch size %d: %s", d, cfg.UpdateBufferTime, cfg.UpdateBatchSize, got[p][i])
			}
		}
	}
	c.Count("deltas sent", nrec)
	endManager(c, name, net, cancel, done)
	c.Case(sig + fmt.Sprint(nrec))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "config": sig, "first deltas": got[0][:min(5, len(got[0]))]})
	}
}

func registerBad() { encoding.MustRegisterRecord(tagCode+1, BadRecord{}) }
