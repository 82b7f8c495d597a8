package router

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
)

// TestN01: a container in traffic with a peer that fails at every step of the
// protocol and then becomes healthy; judged against the books of the peer.
func TestN01(t *testing.T) {
	c := mon.Start("N01", "one case is one run of a container with 1-5 receivers and senders in traffic with a scripted AMQP peer that fails 1-12 times, at chosen steps of the protocol (accept, header, open, begin, attach, flow, transfer, disposition, delivery) or at any moment (some runs: with 40-80 senders used by 2-3 callers each, or failing 80-200 times in a row), by dropping, resetting, closing, ending, detaching, refusing or silence, and then turns healthy; distinct by the sequence of steps and faults")
	c.Assume("the newest connection is dropped when the peer turns healthy if the peer had stopped answering on it (replaced ones may stay silent); messages in flight when a connection fails may be lost with it")
	parallel(c, c.N(500, 12000), 24, func(name string) { runN01(c, name) })
	c.Finish(map[string]int64{"faults": 1500, "reconnections": 400, "messages received": 5000, "messages accepted": 4000, "messages sent": 4000, "receive calls cancelled": 200, "step/fault": 45, "runs of many senders": 10, "runs of many failures": 8})
}

type rxMsg struct {
	body     string
	accepted int // 0 no attempt, 1 success, 2 error
}

type n01recv struct {
	lastErr error // of accepting
	r       session.Receiver
	addr    string
	mu      sync.Mutex
	got     []rxMsg
}

type n01send struct {
	s    session.Sender
	addr string
	mu   sync.Mutex
	ok   map[string]bool // body -> Send succeeded
}

// faultPlan decides about steps: the i-th matching step from the start of the
// run on fails.
type faultPlan struct {
	mu    sync.Mutex
	todo  []plannedFault
	fired []string
	stuck map[int]bool // connections with something unanswered
}

type plannedFault struct {
	kind  string
	after int
	act   router.Act
	delay time.Duration
}

var stepActs = map[string][]router.Act{
	router.KAccept:      {router.Drop, router.Reset, router.Mute},
	router.KHeader:      {router.Drop, router.Reset, router.Mute},
	router.KOpen:        {router.Drop, router.Reset, router.Mute},
	router.KBegin:       {router.Drop, router.Reset, router.Mute, router.Close},
	router.KAttach:      {router.Drop, router.Reset, router.Mute, router.Close, router.End, router.Detach, router.Ignore},
	router.KFlow:        {router.Drop, router.Reset, router.Mute, router.Close, router.End, router.Detach, router.Ignore},
	router.KTransfer:    {router.Drop, router.Reset, router.Mute, router.Close, router.End, router.Detach, router.Ignore, router.Reject},
	router.KDisposition: {router.Drop, router.Reset, router.Mute, router.Close, router.End, router.Detach},
	router.KDeliver:     {router.Drop, router.Reset, router.Mute, router.Close, router.End, router.Detach},
	router.KEnd:         {router.Drop, router.Mute, router.Ignore},
	router.KClose:       {router.Drop, router.Mute, router.Ignore},
}

func randPlan(r *rand.Rand, n int) *faultPlan {
	p := &faultPlan{stuck: map[int]bool{}}
	kinds := []string{router.KAccept, router.KHeader, router.KOpen, router.KBegin, router.KAttach, router.KAttach, router.KFlow, router.KTransfer, router.KTransfer, router.KDisposition, router.KDisposition, router.KDeliver, router.KDeliver, router.KEnd, router.KClose}
	for i := 0; i < n; i++ {
		k := pick(r, kinds...)
		after := r.IntN(3)
		if k == router.KTransfer || k == router.KDisposition || k == router.KDeliver {
			after = r.IntN(25)
		}
		p.todo = append(p.todo, plannedFault{k, after, pick(r, stepActs[k]...), 0})
	}
	return p
}

func (p *faultPlan) decide(st router.Step) router.Act {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := range p.todo {
		f := &p.todo[i]
		if f.kind != st.Kind {
			continue
		}
		if f.after > 0 {
			f.after--
			continue
		}
		p.todo = append(p.todo[:i:i], p.todo[i+1:]...)
		p.fired = append(p.fired, f.kind+"/"+f.act.String())
		if f.act == router.Mute || f.act == router.Ignore {
			p.stuck[st.Conn] = true
		}
		return f.act
	}
	return router.Go
}

func runN01(c *mon.Check, name string) {
	r := c.Rand(name)
	plan := randPlan(r, 1+r.IntN(12))
	if r.IntN(5) == 0 { // refuses many messages, for all kinds of reasons
		for i := 5 + r.IntN(20); i > 0; i-- {
			plan.todo = append(plan.todo, plannedFault{router.KTransfer, r.IntN(20), router.Reject, 0})
		}
	}
	cfg := router.Config{Decide: plan.decide, NoRoute: true, Settled: r.IntN(6) == 0, SenderCredit: uint32(pick(r, 1, 3, 200)), MaxFrameSize: uint32(pick(r, 1024, 65536))}
	rt := router.New(cfg)
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	ctr := newContainer(rt, name, constant(time.Duration(1+r.IntN(5))*time.Millisecond))
	var recvs []*n01recv
	var sends []*n01send
	kind := c.Rand(name, "kind").IntN(25)
	many, often := kind == 0, kind == 1
	links := func() {
		if many {
			for i := 40 + r.IntN(40); i > 0; i-- {
				sends = append(sends, &n01send{addr: fmt.Sprintf("s%d", len(sends)), ok: map[string]bool{}})
				sends[len(sends)-1].s = ctr.NewSender(sends[len(sends)-1].addr, session.SenderOptions{})
			}
			c.Count("runs of many senders", 1)
		}
		for i, n := 0, r.IntN(4); i < n || len(recvs)+len(sends) == 0; i++ {
			recvs = append(recvs, &n01recv{addr: fmt.Sprintf("r%d", len(recvs))})
			recvs[len(recvs)-1].r = ctr.NewReceiver(recvs[len(recvs)-1].addr, session.ReceiverOptions{Credit: pick(r, 0, 1, 2, 10, 100)})
		}
		for i, n := 0, r.IntN(3); i < n; i++ {
			sends = append(sends, &n01send{addr: fmt.Sprintf("s%d", len(sends)), ok: map[string]bool{}})
			sends[len(sends)-1].s = ctr.NewSender(sends[len(sends)-1].addr, session.SenderOptions{})
		}
	}
	early := r.IntN(2) == 0
	if early {
		links()
	}
	ctr.Start(ctx)
	if !early {
		time.Sleep(msDur(r, 10))
		links()
	}
	var phase2 atomic.Bool
	quit := make(chan struct{})
	var wg sync.WaitGroup
	seeds := func() *rand.Rand { return rand.New(rand.NewPCG(r.Uint64(), r.Uint64())) }
	for _, rc := range recvs {
		rc, r := rc, seeds()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				nctx, cancel := context.WithCancel(ctx)
				var cancelled atomic.Bool
				var tm *time.Timer
				if r.IntN(4) == 0 && !phase2.Load() {
					d := msDur(r, 4)
					tm = time.AfterFunc(d, func() { cancelled.Store(true); cancel() })
				}
				m, err := rc.r.Next(nctx)
				if tm != nil {
					tm.Stop()
				}
				if err != nil {
					if nctx.Err() == nil {
						c.Violate(name, "Next on %s failed although its context is not done: %v\n%s", rc.addr, err, tail(rt.Log(0), 60))
					}
					cancel()
					if ctx.Err() != nil {
						return
					}
					c.Count("receive calls cancelled", 1)
					continue
				}
				if m == nil {
					c.Violate(name, "Next on %s returned neither a message nor an error", rc.addr)
				}
				cancel()
				b := "?"
				if len(m.Data) == 1 {
					b = string(m.Data[0])
				}
				rc.mu.Lock()
				i := len(rc.got)
				rc.got = append(rc.got, rxMsg{body: b})
				rc.mu.Unlock()
				c.Count("messages received", 1)
				if r.IntN(12) == 0 && !phase2.Load() {
					time.Sleep(msDur(r, 3))
				}
				actx, acancel := context.WithTimeout(ctx, patience)
				err = rc.r.Accept(actx, m)
				if actx.Err() == context.DeadlineExceeded {
					c.Violate(name, "Accept of %q on %s took over %s\n%s", b, rc.addr, patience, tail(rt.Log(0), 60))
				}
				acancel()
				rc.mu.Lock()
				if err == nil {
					rc.got[i].accepted = 1
				} else {
					rc.got[i].accepted = 2
					rc.lastErr = err
				}
				rc.mu.Unlock()
				if err == nil {
					c.Count("messages accepted", 1)
				}
			}
		}()
	}
	for _, sn := range sends {
		sn, r := sn, seeds()
		nw := 1 + r.IntN(2)
		if many {
			nw = 2 + r.IntN(2)
		}
		for w := 0; w < nw; w++ {
			w, r := w, rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					select {
					case <-quit:
						return
					default:
					}
					pad := 0
					if r.IntN(10) == 0 {
						pad = 3000
					}
					b := body(fmt.Sprintf("%s.%d", sn.addr, w), i, pad)
					d := 30*time.Millisecond + msDur(r, 60)
					if r.IntN(8) == 0 {
						d = msDur(r, 2)
					}
					sctx, cancel := context.WithTimeout(ctx, d)
					err := sn.s.Send(sctx, message(b))
					cancel()
					sn.mu.Lock()
					sn.ok[b] = err == nil
					sn.mu.Unlock()
					if err == nil {
						c.Count("messages sent", 1)
					}
					time.Sleep(msDur(r, 3))
				}
			}()
		}
	}
	// the peer publishes and fails
	pr := seeds()
	pubN := 0
	publish := func() {
		for _, rc := range recvs {
			for k := pr.IntN(4); k > 0; k-- {
				pad := 0
				if pr.IntN(10) == 0 {
					pad = 2500
				}
				pubN++
				rt.Publish(rc.addr, payload(body(rc.addr, pubN, pad)))
			}
		}
	}
	if often { // as fast as it comes back
		c.Count("runs of many failures", 1)
		faults := []router.Act{router.Drop, router.Reset, router.Close, router.End, router.Detach}
		for k := 80 + r.IntN(120); k > 0; k-- {
			begins := rt.Count(router.KBegin)
			rt.Fault(faults[r.IntN(len(faults))], nil, "")
			rt.Await(30*time.Millisecond, func(v router.View) bool { return v.Count(router.KBegin) > begins })
			if r.IntN(4) == 0 {
				publish()
				time.Sleep(msDur(r, 4))
			}
			if k%8 == 0 {
				plan.unstick(rt)
				dropSilent(rt)
			}
		}
	}
	end := time.Now().Add(time.Duration(60+r.IntN(180)) * time.Millisecond)
	for time.Now().Before(end) {
		publish()
		if r.IntN(25) == 0 {
			a := pick(r, router.Drop, router.Reset, router.Close, router.End, router.Detach, router.Mute)
			n := rt.Fault(a, nil, "")
			if n > 0 {
				plan.mu.Lock()
				plan.fired = append(plan.fired, "any/"+a.String())
				plan.mu.Unlock()
				if a == router.Mute {
					time.Sleep(msDur(r, 15))
					dropSilent(rt)
				}
			}
		}
		if r.IntN(60) == 0 {
			rt.Refuse(true)
			rt.Fault(pick(r, router.Drop, router.Reset), nil, "")
			plan.mu.Lock()
			plan.fired = append(plan.fired, "any/refuse")
			plan.mu.Unlock()
			time.Sleep(msDur(r, 20))
			if err := rt.Refuse(false); err != nil {
				c.Inconclusive("cannot listen again: %v", err)
			}
		}
		// stuck connections do not stay for ever
		if r.IntN(8) == 0 {
			plan.unstick(rt)
		}
		time.Sleep(msDur(r, 5))
	}
	// the peer turns healthy
	rt.SetDecide(nil)
	plan.unstick(rt)
	dropSilent(rt)
	if many || r.IntN(4) == 0 {
		rt.Fault(pick(r, router.Drop, router.Reset, router.Close, router.End), nil, "")
	}
	phase2.Store(true)
	healed := rt.Len()
	deadline := time.Now().Add(patience)
	for _, rc := range recvs {
		rc.mu.Lock()
		have := len(rc.got)
		rc.mu.Unlock()
		for k := 0; ; k++ {
			rt.Publish(rc.addr, payload(body(rc.addr+"/probe", k, 0)))
			time.Sleep(time.Duration(min(1+k, 20)) * time.Millisecond)
			rc.mu.Lock()
			now := 0
			for _, m := range rc.got[have:] {
				if strings.HasPrefix(m.body, rc.addr+"/probe") {
					now++
				}
			}
			rc.mu.Unlock()
			if now > 0 {
				break
			}
			if time.Now().After(deadline) {
				rc.mu.Lock()
				last := "nothing"
				if len(rc.got) > 0 {
					last = fmt.Sprintf("%q, accepted %d, last error %v", cut(rc.got[len(rc.got)-1].body), rc.got[len(rc.got)-1].accepted, rc.lastErr)
				}
				rc.mu.Unlock()
				c.Violate(name, "receiver on %s gets no more messages although the peer is healthy since %s\nfaults: %v\nreceived last: %s\nlog of the address:\n%s\nlog since:\n%s\ngoroutines:\n%s", rc.addr, patience, plan.fired, last, tail(about(rt.Log(0), rc.addr), 40), tail(rt.Log(healed), 20), stacks())
			}
		}
	}
	close(quit)
	for _, sn := range sends {
		for k := 0; ; k++ {
			b := body(sn.addr+"/probe", k, 0)
			sctx, cancel := context.WithTimeout(ctx, time.Second)
			err := sn.s.Send(sctx, message(b))
			cancel()
			sn.mu.Lock()
			sn.ok[b] = err == nil
			sn.mu.Unlock()
			if err == nil {
				break
			}
			time.Sleep(5 * time.Millisecond)
			if time.Now().After(deadline) {
				c.Violate(name, "sender on %s cannot send although the peer is healthy since %s: %v\nfaults: %v\nlog since:\n%s\ngoroutines:\n%s", sn.addr, patience, err, plan.fired, tail(rt.Log(healed), 60), stacks())
			}
		}
	}
	time.Sleep(20 * time.Millisecond)
	running := rt.Len()
	stop()
	if !within(patience, wg.Wait) {
		c.Violate(name, "calls did not return within %s of the end of their context\n%s", patience, stacks())
	}
	log := rt.Log(0)
	judgeN01(c, name, recvs, sends, log, running, cfg.Settled)
	plan.mu.Lock()
	fired := plan.fired
	plan.mu.Unlock()
	c.Count("faults", len(fired))
	for _, f := range fired {
		c.Seen("step/fault", f)
	}
	opens := 0
	var sig strings.Builder
	for _, e := range log {
		if e.Kind == router.KOpen {
			opens++
		}
		if len(sig.String()) < 4000 {
			fmt.Fprintf(&sig, "%s%d ", e.Kind, e.Conn)
		}
	}
	if opens > 1 {
		c.Count("reconnections", opens-1)
	}
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "faults": fired, "connections": opens, "receivers": len(recvs), "senders": len(sends), "log": strings.Split(tail(log, 25), "\n")})
	}
	c.Case(strings.Join(fired, ",") + sig.String())
}

func (p *faultPlan) unstick(rt *router.Router) {
	p.mu.Lock()
	stuck := p.stuck
	p.stuck = map[int]bool{}
	p.mu.Unlock()
	if len(stuck) > 0 {
		newest := newestConn(rt)
		rt.Fault(router.Drop, func(c *router.Conn) bool { return stuck[c.ID] && c.ID == newest }, "")
	}
}

// dropSilent drops the newest connection if the peer is silent on it. Silent
// connections the container has replaced may stay: they do not concern it.
func dropSilent(rt *router.Router) {
	newest := newestConn(rt)
	rt.Fault(router.Drop, func(c *router.Conn) bool { return c.Muted() && c.ID == newest }, "")
}

func newestConn(rt *router.Router) int {
	newest := 0
	rt.With(func(v router.View) {
		for _, c := range v.Conns() {
			newest = max(newest, c.ID)
		}
	})
	return newest
}

type delKey struct {
	link int
	id   uint32
}

func judgeN01(c *mon.Check, name string, recvs []*n01recv, sends []*n01send, log []router.Event, running int, settled bool) {
	type del struct {
		e    router.Event
		disp *router.Event
	}
	perAddr := map[string][]int{} // links of an address in order
	byLink := map[int][]*del{}    // deliveries of a link in order
	dels := map[delKey]*del{}
	goneAt := map[int]int{} // connection -> seq of the first failure or end
	accepted := map[string]int{}
	rejected := map[string]int{}
	seen := map[string]int{}
	failed := map[int]bool{}
	for i := range log {
		e := log[i]
		switch e.Kind {
		case "dropped", "closed", "ended", "detached", "muted", "protocol-error":
			failed[e.Conn] = true
		case "gone", router.KClose, router.KEnd:
			// the container may only leave a connection that failed
			if !failed[e.Conn] && i < running {
				c.Violate(name, "the container left connection %d (%v) although the peer did nothing wrong on it\n%s", e.Conn, e, tail(noTraffic(log[:i+1]), 40))
			}
		}
		if e.Kind == router.KTransfer && e.Outcome == "rejected" {
			failed[e.Conn] = true
		}
		switch e.Kind {
		case router.KAttach:
			if !e.Sender {
				perAddr[e.Addr] = append(perAddr[e.Addr], e.Link)
			}
		case router.KDeliver:
			d := &del{e: e}
			byLink[e.Link] = append(byLink[e.Link], d)
			dels[delKey{e.Link, e.ID}] = d
		case router.KDisposition:
			if e.Note == "unknown delivery" {
				c.Violate(name, "disposition for a delivery that was never made: %v\n%s", e, tail(log[:i+1], 40))
			}
			d := dels[delKey{e.Link, e.ID}]
			if e.Note != "" || d.disp != nil {
				c.Violate(name, "delivery settled twice: %v\n%s", e, tail(log[:i+1], 40))
			}
			if e.Outcome != "accepted" || !e.Settled {
				c.Violate(name, "accepting a message told the peer %q (settled %v): %v", e.Outcome, e.Settled, e)
			}
			d.disp = &log[i]
		case router.KTransfer:
			b := unbody(e.Payload)
			seen[b]++
			if e.Outcome == "accepted" {
				accepted[b]++
			}
			if e.Outcome == "rejected" {
				rejected[b]++
			}
		case "protocol-error":
			// go-amqp sends frames that cross the end of a link or session; the
			// peer ended the connection, as a failure like others
			c.Count("protocol errors of go-amqp", 1)
			c.Seen("protocol errors", e.Note)
		case "gone", "dropped", "closed", "ended", "detached", "muted", router.KClose, router.KEnd:
			if goneAt[e.Conn] == 0 {
				goneAt[e.Conn] = e.Seq
			}
		}
	}
	for _, sn := range sends {
		for b, ok := range sn.ok {
			if ok && accepted[b] == 0 {
				c.Violate(name, "Send of %q on %s reported success but the peer did not accept it (seen %d times, rejected %d)\n%s", cut(b), sn.addr, seen[b], rejected[b], tail(log, 80))
			}
			if seen[b] > 1 {
				var at []router.Event
				for i, e := range log {
					if e.Kind == router.KTransfer && unbody(e.Payload) == b {
						at = append(at, log[max(0, i-6):min(len(log), i+4)]...)
					}
				}
				c.Violate(name, "one Send of %q on %s reached the peer %d times\n%s", cut(b), sn.addr, seen[b], tail(at, 30))
			}
		}
	}
	for b := range seen {
		known := false
		for _, sn := range sends {
			if _, ok := sn.ok[b]; ok {
				known = true
			}
		}
		if !known {
			c.Violate(name, "the peer received %q, which nobody sent", cut(b))
		}
	}
	for _, rc := range recvs {
		ls := perAddr[rc.addr]
		sort.Ints(ls)
		at := func(l, i int) (string, bool) {
			if i >= len(byLink[l]) {
				return "", false
			}
			return unbody(byLink[l][i].e.Payload), true
		}
		// a message sent while two links were attached was delivered on both:
		// look for an explanation that agrees with what was settled
		if matchLinks(rc.got, ls, at, func(l, j, i int) bool {
			d := byLink[l][j]
			switch {
			case settled:
				return true
			case rc.got[i].accepted == 0:
				return d.disp == nil
			case rc.got[i].accepted == 1:
				return d.disp != nil || goneAt[d.e.Conn] != 0
			}
			return true
		}, func(l, j int) bool {
			for ; j < len(byLink[l]); j++ {
				if byLink[l][j].disp != nil {
					return false
				}
			}
			return true
		}) != nil {
			continue
		}
		assign := matchLinks(rc.got, ls, at, func(int, int, int) bool { return true }, func(int, int) bool { return true })
		if assign == nil {
			var sb strings.Builder
			for _, l := range ls {
				fmt.Fprintf(&sb, "delivered on link %d:", l)
				for _, d := range byLink[l] {
					fmt.Fprintf(&sb, " %s", cut(unbody(d.e.Payload)))
				}
				sb.WriteString("\n")
			}
			sb.WriteString("received:")
			for _, m := range rc.got {
				fmt.Fprintf(&sb, " %s", cut(m.body))
			}
			c.Violate(name, "the messages received on %s are not what the peer sent, in order and without loss within each connection\n%s", rc.addr, sb.String())
			return
		}
		for i, k := range assign {
			d := byLink[k.link][k.id]
			if settled {
				continue
			}
			switch rc.got[i].accepted {
			case 0:
				if d.disp != nil {
					c.Violate(name, "%s: message %q was settled although it was not accepted", rc.addr, cut(rc.got[i].body))
				}
			case 1:
				if d.disp == nil && goneAt[d.e.Conn] == 0 {
					c.Violate(name, "%s: message %q was accepted successfully, but the peer heard nothing about it on its healthy connection %d\n%s", rc.addr, cut(rc.got[i].body), d.e.Conn, tail(log, 60))
				}
			}
		}
		// nothing else was settled
		n := map[delKey]bool{}
		for i, k := range assign {
			if rc.got[i].accepted != 0 {
				n[k] = true
			}
		}
		for _, l := range ls {
			for j, d := range byLink[l] {
				if d.disp != nil && !n[delKey{l, uint32(j)}] {
					c.Violate(name, "%s: delivery of %q on connection %d was settled, but it was not received and accepted", rc.addr, cut(unbody(d.e.Payload)), d.e.Conn)
				}
			}
		}
	}
}

// about picks the events of an address and of whole connections.
func about(log []router.Event, addr string) []router.Event {
	var out []router.Event
	for _, e := range log {
		if e.Addr == addr || e.Addr == "" {
			out = append(out, e)
		}
	}
	return out
}

func cut(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}

// matchLinks explains a sequence of received messages as prefixes of what was
// delivered on each link, in the order of the links. It returns the link and
// position for each message, or nil. A message fits a delivery, and the
// deliveries from a position on may be skipped, as the functions say.
func matchLinks(got []rxMsg, links []int, at func(l, i int) (string, bool), fits func(l, pos, i int) bool, skip func(l, pos int) bool) []delKey {
	res := make([]delKey, len(got))
	type st struct{ i, li, pos int }
	bad := map[st]bool{}
	var try func(i, li, pos int) bool
	try = func(i, li, pos int) bool {
		s := st{i, li, pos}
		if bad[s] {
			return false
		}
		if i < len(got) && li >= 0 {
			if b, ok := at(links[li], pos); ok && b == got[i].body && fits(links[li], pos, i) {
				res[i] = delKey{links[li], uint32(pos)}
				if try(i+1, li, pos+1) {
					return true
				}
			}
		}
		// on to the next link
		if li < 0 || skip(links[li], pos) {
			if li+1 == len(links) {
				if i == len(got) {
					return true
				}
			} else if try(i, li+1, 0) {
				return true
			}
		}
		bad[s] = true
		return false
	}
	if !try(0, -1, 0) {
		return nil
	}
	if len(res) == 0 {
		return []delKey{}
	}
	return res
}

var _ *amqp.Message
