package events

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow/session"
)

// TestN06: histories of sends and receives on the in-memory router, judged
// offline against what a multicast router may do.
func TestN06(t *testing.T) {
	c := mon.Start("N06", "one case is one generated run in virtual time: 1-4 addresses, 1-8 senders and receivers coming and going, some of which stop reading, close or are cancelled at any moment, also while others wait for them; distinct by the recorded history")
	c.Assume("a message of a send that failed, or that overlaps the opening or closing of a receiver, may reach that receiver or not; concurrent sends may arrive in any order")
	for i := 0; i < c.N(4000, 60000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runN06(c, name) })
	}
	for i := 0; i < c.N(6000, 100000); i++ {
		name := fmt.Sprintf("storm-%d", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			stormN06(c, name)
		}
	}
	c.Finish(map[string]int64{"sends": 50000, "deliveries": 50000, "sends cancelled": 500, "sends that waited for a receiver": 500, "sends held up by a full receiver": 500, "receivers closed while holding up sends": 200, "receivers opened while another holds up sends": 200, "storms": 3000, "sends before the first receiver judged": 500})
}

// stormN06 lets many goroutines, on real threads and all at one moment, close
// the same links, open others and send: nothing may hang or crash, and the
// router must work as ever afterwards.
func stormN06(c *mon.Check, name string) {
	r := c.Rand(name)
	ctx, cancel := context.WithTimeout(bg, 20*time.Second)
	defer cancel()
	ctr := session.NewMockContainerFactory().Create()
	ctr.Start(ctx)
	snd := ctr.NewSender("a", session.SenderOptions{})
	rcv := []session.Receiver{ctr.NewReceiver("a", session.ReceiverOptions{Credit: 1})}
	if r.IntN(2) == 0 {
		rcv = append(rcv, ctr.NewReceiver("a", session.ReceiverOptions{Credit: 4}))
	}
	var acts []func()
	for _, x := range rcv {
		for k := 2 + r.IntN(3); k > 0; k-- {
			acts = append(acts, func() { x.Close(ctx) })
		}
		if r.IntN(2) == 0 {
			acts = append(acts, func() { x.Next(ctx) })
		}
	}
	for k := r.IntN(3); k > 0; k-- {
		acts = append(acts, func() { snd.Close(ctx) })
	}
	for k := r.IntN(3); k > 0; k-- {
		acts = append(acts, func() {
			s := ctr.NewSender("a", session.SenderOptions{})
			for j := 0; j < 3; j++ {
				if err := s.Send(ctx, &amqp.Message{Value: "m"}); err != nil {
					c.Violate(name, "a send failed though neither cancelled nor closed: %v", err)
				}
			}
		})
	}
	for k := r.IntN(3); k > 0; k-- {
		acts = append(acts, func() { ctr.NewReceiver("a", session.ReceiverOptions{Credit: 32}) })
	}
	r.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
	var wg, ready sync.WaitGroup
	ready.Add(len(acts))
	for _, f := range acts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Done()
			ready.Wait()
			f()
		}()
	}
	wg.Wait()
	if ctx.Err() != nil {
		c.Violate(name, "closing and sending at one moment did not end within 20 s")
	}
	for _, x := range rcv {
		x.Close(ctx)
	}
	last := ctr.NewReceiver("b", session.ReceiverOptions{Credit: 1})
	s := ctr.NewSender("b", session.SenderOptions{})
	if err := s.Send(ctx, &amqp.Message{Value: name}); err != nil {
		c.Violate(name, "a send after a storm of closings failed: %v", err)
	}
	msg, err := last.Next(ctx)
	if err != nil || msg.Value != name {
		c.Violate(name, "after a storm of closings a message sent arrived as %v (%v)", msg, err)
	}
	c.Count("storms", 1)
}

// nSend is one recorded send, nRecv one recorded receiver. Times are numbers
// of events.
type nSend struct {
	addr, body string
	call, ret  int
	calledAt   time.Time
	err        error
	ctx        context.Context
	sender     *nSender
}

type nSender struct {
	s          session.Sender
	closedCall int // 0 when open
}

type nRecv struct {
	r                   session.Receiver
	addr                string
	credit              int
	openCall, openRet   int
	closeCall, closeRet int
	got                 []string
	gotAt               []int
	stalled             bool
	atEnd               bool // closed only when it had read everything there was
	resume              chan struct{}
	cancel              context.CancelFunc
	done                chan struct{}
}

type n06 struct {
	c    *mon.Check
	name string
	mu   sync.Mutex
	seq  int
	sent []*nSend
	rcv  []*nRecv
}

func (n *n06) tick() int { n.seq++; return n.seq }

func (n *n06) open(ctr session.Container, addr string, credit int, stalled bool, pace time.Duration) *nRecv {
	r := &nRecv{addr: addr, credit: credit, stalled: stalled, resume: make(chan struct{}), done: make(chan struct{})}
	n.mu.Lock()
	r.openCall = n.tick()
	n.mu.Unlock()
	r.r = ctr.NewReceiver(addr, session.ReceiverOptions{Credit: credit})
	n.mu.Lock()
	r.openRet = n.tick()
	n.rcv = append(n.rcv, r)
	n.mu.Unlock()
	ctx, cancel := context.WithCancel(bg)
	r.cancel = cancel
	go func() {
		defer close(r.done)
		for {
			if stalled {
				select {
				case <-r.resume:
					stalled = false
				case <-ctx.Done():
					return
				}
			}
			m, err := r.r.Next(ctx)
			n.mu.Lock()
			at := n.tick()
			if err != nil {
				if ctx.Err() == nil && r.closeCall == 0 {
					n.c.Violate(n.name, "Next of an open receiver on %s failed: %v", addr, err)
				}
				n.mu.Unlock()
				return
			}
			body, _ := m.Value.(string)
			r.got = append(r.got, body)
			r.gotAt = append(r.gotAt, at)
			n.mu.Unlock()
			if err := r.r.Accept(ctx, m); err != nil && ctx.Err() == nil {
				n.mu.Lock()
				closed := r.closeCall != 0
				n.mu.Unlock()
				if !closed {
					n.c.Violate(n.name, "Accept on an open receiver on %s failed: %v", addr, err)
				}
			}
			time.Sleep(pace)
		}
	}()
	return r
}

func (n *n06) close(r *nRecv) {
	n.mu.Lock()
	if r.closeCall != 0 {
		n.mu.Unlock()
		return
	}
	r.closeCall = n.tick()
	n.mu.Unlock()
	if err := r.r.Close(bg); err != nil {
		n.c.Violate(n.name, "closing a receiver failed: %v", err)
	}
	n.mu.Lock()
	r.closeRet = n.tick()
	n.mu.Unlock()
}

func (n *n06) send(ctx context.Context, s *nSender, addr, body string) {
	e := &nSend{addr: addr, body: body, ctx: ctx, sender: s, calledAt: time.Now()}
	n.mu.Lock()
	e.call = n.tick()
	n.sent = append(n.sent, e)
	n.mu.Unlock()
	to := body
	err := s.s.Send(ctx, &amqp.Message{Properties: &amqp.MessageProperties{To: &to}, Value: body})
	n.mu.Lock()
	defer n.mu.Unlock()
	e.ret, e.err = n.tick(), err
	closed := s.closedCall != 0
	if err != nil && ctx.Err() == nil && !closed {
		n.c.Violate(n.name, "send to %s failed though neither cancelled nor closed: %v", addr, err)
	}
	if err == nil && closed && s.closedCall < e.call {
		n.c.Violate(n.name, "send on a closed sender to %s succeeded", addr)
	}
}

func runN06(c *mon.Check, name string) {
	r := c.Rand(name)
	n := &n06{c: c, name: name}
	factory := session.NewMockContainerFactory()
	other := session.NewMockContainerFactory().Create() // hears nothing
	addrs := []string{"a", "mc/sfe.b", "", "sfe.d"}[:1+r.IntN(4)]
	if r.IntN(3) == 0 {
		// all different, however alike
		addrs = []string{"a", "a.", "a/", "/a", " a", "A", "a ", "a*", "", "a/a", "a.a", "a?", "mc/a", "a#", "\u00e4"}
		r.Shuffle(len(addrs), func(i, j int) { addrs[i], addrs[j] = addrs[j], addrs[i] })
		addrs = addrs[:2+r.IntN(3)]
	}
	all := n.open(other, addrs[0], 8, false, 0)
	var wg sync.WaitGroup
	var cancels []context.CancelFunc
	// senders
	bodies := 0
	for i := 1 + r.IntN(8); i > 0; i-- {
		sr := c.Rand(name, "sender", i)
		addr := pick(r, addrs...)
		ctr := factory.Create()
		ctr.Start(bg)
		s := &nSender{s: ctr.NewSender(addr, session.SenderOptions{})}
		id := fmt.Sprintf("%s#%d", addr, i)
		count := 1 + r.IntN(30)
		bodies += count
		limit := pick(r, 0, 0, time.Millisecond, 40*time.Millisecond)
		pace := pick(r, 0, 0, 3*time.Millisecond)
		ctx, cancel := context.WithCancel(bg)
		cancels = append(cancels, cancel)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < count && ctx.Err() == nil; k++ {
				sctx, cancel := ctx, context.CancelFunc(func() {})
				if limit > 0 {
					sctx, cancel = context.WithTimeout(ctx, limit)
				}
				n.send(sctx, s, addr, fmt.Sprintf("%s.%d", id, k))
				cancel()
				time.Sleep(dur(sr, pace))
			}
			if sr.IntN(4) == 0 {
				n.mu.Lock()
				s.closedCall = n.tick()
				n.mu.Unlock()
				s.s.Close(bg)
				s.s.Close(bg)
				n.send(ctx, s, addr, id+".late")
			}
		}()
	}
	newRecv := func() *nRecv {
		ctr := factory.Create()
		return n.open(ctr, pick(r, addrs...), 1+r.IntN(6), r.IntN(3) == 0, pick(r, 0, 0, time.Millisecond, 5*time.Millisecond))
	}
	full := func() map[string]bool { // addresses with sends held up by a reader that does not read
		n.mu.Lock()
		defer n.mu.Unlock()
		out := map[string]bool{}
		for _, e := range n.sent {
			if e.ret == 0 {
				for _, q := range n.rcv {
					if q != all && q.addr == e.addr && q.stalled && q.closeCall == 0 {
						out[e.addr] = true
					}
				}
			}
		}
		return out
	}
	if r.IntN(12) == 0 { // a crowd
		for i := 60 + r.IntN(240); i > 0; i-- {
			n.open(factory.Create(), addrs[0], 1+r.IntN(100), false, 0)
		}
		n.c.Count("crowds", 1)
	}
	// what happens meanwhile
	for i := r.IntN(30); i > 0; i-- {
		time.Sleep(dur(r, 12*time.Millisecond))
		if r.IntN(2) == 0 {
			synctest.Wait()
		}
		held := full()
		switch r.IntN(8) {
		case 0, 1, 2:
			q := newRecv()
			if held[q.addr] {
				c.Count("receivers opened while another holds up sends", 1)
			}
		case 3, 4:
			if q := anyRecv(r, n.rcv, all); q != nil && q.closeCall == 0 {
				if q.stalled && held[q.addr] {
					c.Count("receivers closed while holding up sends", 1)
				}
				n.close(q)
			}
		case 5:
			if q := anyRecv(r, n.rcv, all); q != nil && q.stalled {
				n.mu.Lock()
				q.stalled = false
				n.mu.Unlock()
				close(q.resume)
			}
		case 6:
			if len(cancels) > 0 && r.IntN(3) == 0 {
				cancels[r.IntN(len(cancels))]()
			}
		case 7:
			n.quiesce(r, addrs, all, r.IntN(2) == 0)
		}
	}
	// let everything flow
	for _, a := range addrs {
		if r.IntN(4) > 0 {
			n.open(factory.Create(), a, 4, false, 0)
		}
	}
	n.quiesce(r, addrs, all, true)
	for _, cancel := range cancels {
		cancel()
	}
	synctest.Wait()
	n.mu.Lock()
	for _, e := range n.sent {
		if e.ret == 0 {
			c.Violate(name, "a send to %s has not returned though its context is done", e.addr)
		}
	}
	n.mu.Unlock()
	wg.Wait()
	for _, q := range n.rcv {
		q.atEnd = q.closeCall == 0
		if r.IntN(2) == 0 {
			q.cancel()
			synctest.Wait()
			select {
			case <-q.done:
			default:
				c.Violate(name, "Next on %s has not returned though its context is done", q.addr)
			}
		}
		n.close(q)
		synctest.Wait()
		q.cancel()
		<-q.done
	}
	n.judge(all)
	c.Case(fmt.Sprint(len(n.sent), n.seq, len(n.rcv), bodies))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "sends": len(n.sent), "receivers": len(n.rcv)})
	}
}

func anyRecv(r *rand.Rand, rs []*nRecv, not *nRecv) *nRecv {
	if len(rs) < 2 {
		return nil
	}
	if q := rs[r.IntN(len(rs))]; q != not {
		return q
	}
	return nil
}

// quiesce makes every receiver read on, or closes those that do not, after
// which only sends where nobody ever listened may still be waiting.
func (n *n06) quiesce(r *rand.Rand, addrs []string, all *nRecv, resume bool) {
	for _, q := range n.rcv {
		if q.stalled && q.closeCall == 0 {
			if resume && r.IntN(2) == 0 {
				close(q.resume)
				n.mu.Lock()
				q.stalled = false
				n.mu.Unlock()
			} else {
				n.close(q)
			}
		}
	}
	time.Sleep(5 * time.Second) // hundreds of messages at 5 ms
	synctest.Wait()
	n.mu.Lock()
	defer n.mu.Unlock()
	open := map[string]int{}
	for _, q := range n.rcv {
		if q != all {
			open[q.addr]++ // closed ones have been there
		}
	}
	for _, e := range n.sent {
		if e.ret != 0 {
			continue
		}
		if e.ctx.Err() != nil {
			n.c.Violate(n.name, "a send to %s has not returned though its context is done", e.addr)
		}
		if open[e.addr] > 0 {
			n.c.Violate(n.name, "a send to %s is still waiting after %s though %d receivers have been opened there and all read on or are closed", e.addr, time.Since(e.calledAt), open[e.addr])
		}
	}
}

// judge looks at the whole history.
func (n *n06) judge(all *nRecv) {
	c, name := n.c, n.name
	sends := map[string]*nSend{}
	for _, e := range n.sent {
		sends[e.body] = e
		c.Count("sends", 1)
		if e.err != nil {
			c.Count("sends cancelled", 1)
			continue
		}
		// somebody must have been there
		ok, waited, held, after := false, true, false, false
		for _, q := range n.rcv {
			if q == all || q.addr != e.addr {
				continue
			}
			if q.openCall < e.ret {
				ok = true
			}
			if q.openRet < e.call && q.closeRet != 0 && q.closeRet < e.call {
				after = true
			}
			if q.openRet < e.call && (q.closeRet == 0 || q.closeRet > e.call) {
				waited = false
				// it read on between the call and the return
				for _, at := range q.gotAt {
					held = held || at > e.call && at < e.ret
				}
			}
		}
		if !ok {
			c.Violate(name, "a send to %s succeeded though nobody has ever listened there", e.addr)
		}
		// what waited for the first receiver goes to one of the first
		first, got := 0, false
		for _, q := range n.rcv {
			if q == all || q.addr != e.addr || q.openCall > e.ret {
				continue
			}
			if q.openCall < e.call || !q.atEnd || q.stalled {
				first = -1000
			}
			first++
			for _, b := range q.got {
				got = got || b == e.body
			}
		}
		if first > 0 {
			c.Count("sends before the first receiver judged", 1)
			if !got {
				c.Violate(name, "%q was sent before there was a receiver on %s and the send succeeded with the first %d, which stayed open, but none of them got it", e.body, e.addr, first)
			}
		}
		if waited && after {
			c.Count("sends after all receivers closed", 1)
		} else if waited {
			c.Count("sends that waited for a receiver", 1)
		}
		if held {
			c.Count("sends held up by a full receiver", 1)
		}
	}
	if len(all.got) > 0 {
		c.Violate(name, "a receiver of another router was given %v", all.got)
	}
	for _, q := range n.rcv {
		if q == all {
			continue
		}
		seen := map[string]int{}
		for i, b := range q.got {
			c.Count("deliveries", 1)
			e := sends[b]
			if e == nil || e.addr != q.addr {
				c.Violate(name, "a receiver on %s was given %q", q.addr, b)
			}
			if q.gotAt[i] < e.call {
				c.Violate(name, "%q arrived before it was sent", b)
			}
			if j, ok := seen[b]; ok {
				c.Violate(name, "a receiver on %s was given %q twice, as number %d and %d", q.addr, b, j, i)
			}
			seen[b] = i
		}
		// order and gaps
		last := len(q.got) - 1
		for i, b := range q.got {
			for j := i + 1; j < len(q.got); j++ {
				if x := sends[q.got[j]]; x.ret != 0 && x.err == nil && x.ret < sends[b].call {
					c.Violate(name, "a receiver on %s was given %q before %q, which had been sent completely before", q.addr, b, x.body)
				}
			}
		}
		for _, e := range n.sent {
			if e.addr != q.addr || e.err != nil || e.call < q.openRet {
				continue
			}
			if _, ok := seen[e.body]; ok {
				continue
			}
			// a receiver closed at the end has read everything
			if q.stalled {
				continue
			}
			if last >= 0 && e.ret < sends[q.got[last]].call || q.atEnd {
				c.Violate(name, "a receiver on %s open since before %q was sent never got it; it got %s", q.addr, e.body, strings.Join(q.got, " "))
			}
		}
	}
}
