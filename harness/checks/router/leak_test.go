package router

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
)

// TestN04: links and connections as the peer sees them after links are closed,
// sessions fail and containers end.
func TestN04(t *testing.T) {
	c := mon.Start("N04", "one case is one run of a container with 1-8 links that are closed at any moment (never used, attaching, calls pending in every state, during failures, twice), judged by the links the peer has left, the calls on them and the traffic of others; or one run of a crowd of 200 links in use, all closed in the moment the session is there (again); or one run of a failure history with a stop or a backoff policy that gives up at any moment, judged by the connections the peer has open; distinct by links, states and logs")
	c.Assume("a detach, close or end of a call counts as missing when not seen 20 s later (8 s for calls on closed links)")
	parallel(c, c.N(700, 12000), 24, func(name string) {
		switch c.Rand(name, "kind").IntN(3) {
		case 0:
			runConns(c, name)
		default:
			runCloses(c, name)
		}
	})
	for i := 0; i < c.N(120, 2000); i++ {
		name := fmt.Sprintf("crowd-%d", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runCrowd(c, name)
		}
	}
	c.Finish(map[string]int64{"links of a crowd closed": 8000, "links closed": 1000, "links closed with a context that is done": 300, "states of closing": 20, "links gone at the peer": 500, "calls pending at close": 300, "calls after close": 800, "runs of connections": 60, "connections made": 300, "ends of containers": 60})
}

func runCloses(c *mon.Check, name string) {
	r := c.Rand(name)
	peer := pick(r, "healthy", "healthy", "healthy", "slow attach", "failing", "refused", "not started", "stopped", "silent at attach")
	delay := msDur(r, 8)
	var failing atomic.Bool
	failing.Store(true)
	cfg := router.Config{NoRoute: true}
	cfg.NoCredit = func(a string) bool { return strings.Contains(a, "dry") }
	cfg.Decide = func(st router.Step) router.Act {
		if st.Kind == router.KTransfer && strings.Contains(st.Addr, "mum") {
			return router.Ignore
		}
		if st.Kind == router.KAttach && !strings.HasPrefix(st.Addr, "by") {
			switch peer {
			case "slow attach":
				time.Sleep(delay)
			case "silent at attach":
				if failing.Load() {
					return router.Ignore
				}
			}
		}
		if peer == "failing" && failing.Load() && st.N%7 == 6 {
			return []router.Act{router.Drop, router.End, router.Close}[(st.N/7)%3]
		}
		return router.Go
	}
	rt := router.New(cfg)
	defer rt.Close()
	if peer == "refused" {
		rt.Refuse(true)
	}
	ctx, stop := context.WithCancel(bg)
	defer stop()
	ctr := newContainer(rt, name, constant(time.Millisecond))
	if peer != "not started" {
		ctr.Start(ctx)
	}
	if peer == "stopped" {
		time.Sleep(msDur(r, 5))
		stop()
	}
	undisturbed := peer == "healthy" || peer == "slow attach"
	// bystanders
	quit := make(chan struct{})
	var bwg sync.WaitGroup
	byFail := make(chan string, 10)
	if undisturbed {
		bs := ctr.NewSender("by-s", session.SenderOptions{})
		br := ctr.NewReceiver("by-r", session.ReceiverOptions{Credit: 5})
		bwg.Add(2)
		go func() {
			defer bwg.Done()
			for k := 0; ; k++ {
				select {
				case <-quit:
					return
				default:
				}
				sctx, cancel := context.WithTimeout(ctx, patience)
				if err := bs.Send(sctx, message("x")); err != nil {
					byFail <- fmt.Sprint("a send of a bystander failed: ", err)
				}
				cancel()
				time.Sleep(time.Millisecond)
			}
		}()
		go func() {
			defer bwg.Done()
			for k := 1; ; k++ {
				sctx, cancel := context.WithTimeout(ctx, patience)
				m, err := br.Next(sctx)
				cancel()
				if err != nil {
					byFail <- fmt.Sprint("a receive of a bystander failed: ", err)
					return
				}
				if got := string(m.Data[0]); got != body("by", k, 0) {
					if got == "last" {
						return
					}
					byFail <- fmt.Sprintf("a bystander received %q as message %d", got, k)
				}
				br.Accept(ctx, m)
			}
		}()
		if !rt.Await(patience, func(v router.View) bool { return v.Receivers("by-r", true) == 1 }) {
			c.Violate(name, "receiver is not attached to the healthy peer within %s\n%s", patience, stacks())
		}
	}
	type lk struct {
		addr    string
		s       session.Sender
		r       session.Receiver
		calling atomic.Int64
		closed  atomic.Bool // Close has returned
		mu      sync.Mutex
		late    map[string]bool // sent after Close returned
	}
	one := func(l *lk, ctx context.Context, b string) error {
		if l.s != nil {
			return l.s.Send(ctx, message(b))
		}
		m, err := l.r.Next(ctx)
		if err != nil {
			return err
		}
		if m == nil {
			c.Violate(name, "Next on %s returned neither a message nor an error", l.addr)
		}
		actx, cancel := context.WithTimeout(ctx, patience)
		defer cancel()
		l.r.Accept(actx, m)
		return nil
	}
	closeOf := func(l *lk, ctx context.Context) error {
		if l.s != nil {
			return l.s.Close(ctx)
		}
		return l.r.Close(ctx)
	}
	var links []*lk
	var wg sync.WaitGroup
	n := 1 + r.IntN(8)
	sig := peer
	for i := 0; i < n; i++ {
		l := &lk{late: map[string]bool{}}
		kind := pick(r, "ok", "ok", "dry", "mum", "recv", "recv", "recv")
		l.addr = fmt.Sprintf("%s%d", kind, i)
		sig += " " + kind
		if kind == "recv" {
			l.r = ctr.NewReceiver(l.addr, session.ReceiverOptions{Credit: pick(r, 0, 3)})
		} else {
			l.s = ctr.NewSender(l.addr, session.SenderOptions{})
		}
		links = append(links, l)
		callers := r.IntN(3)
		use := pick(r, "never", "brief", "long")
		if callers == 0 {
			use = "never"
		}
		publish := r.IntN(2) == 0
		hurried, hurry := r.IntN(3) == 0, time.Duration(0)
		if r.IntN(2) == 0 {
			hurry = msDur(r, 1)
		}
		if hurried {
			c.Count("links closed with a context that is done", 1)
		}
		wg.Add(1)
		lr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		go func() {
			defer wg.Done()
			r := lr
			time.Sleep(msDur(r, 4))
			var cwg sync.WaitGroup
			end := make(chan struct{})
			if use != "never" {
				for w := 0; w < callers; w++ {
					w := w
					d := time.Duration(0)
					if r.IntN(4) == 0 {
						d = msDur(r, 4)
					}
					cwg.Add(1)
					go func() {
						defer cwg.Done()
						for k := 0; ; k++ {
							select {
							case <-end:
								return
							default:
							}
							cctx, cancel := context.WithCancel(bg)
							if d > 0 {
								cctx, cancel = context.WithTimeout(bg, d)
							}
							l.calling.Add(1)
							err := one(l, cctx, body(fmt.Sprint(l.addr, ".", w), k, 0))
							l.calling.Add(-1)
							done := cctx.Err() != nil
							cancel()
							if err != nil && l.closed.Load() {
								return
							}
							if err != nil && !done && undisturbed {
								// closing: Close may be about to return
								time.Sleep(100 * time.Microsecond)
							}
							if k > 100000 {
								return
							}
						}
					}()
				}
			}
			if publish && l.r != nil {
				for k := 0; k < 10; k++ {
					rt.Publish(l.addr, payload(body(l.addr, k, 0)))
					time.Sleep(msDur(r, 1))
				}
			}
			switch use {
			case "brief":
				time.Sleep(msDur(r, 2))
			case "long":
				time.Sleep(msDur(r, 25))
			}
			pending := l.calling.Load()
			// close it, once or more
			closers := pick(r, 1, 1, 2)
			var clwg sync.WaitGroup
			okClose := atomic.Bool{}
			for w := 0; w < closers; w++ {
				clwg.Add(1)
				go func() {
					defer clwg.Done()
					d := 6 * time.Second
					if peer == "silent at attach" {
						d = 10 * time.Millisecond
					}
					cctx, cancel := context.WithTimeout(bg, d)
					defer cancel()
					if hurried {
						// with a context that is done already, or soon
						cctx, cancel = context.WithTimeout(bg, hurry)
						defer cancel()
						if hurry == 0 {
							cancel()
						}
						closeOf(l, cctx)
						return
					}
					if err := closeOf(l, cctx); err == nil {
						okClose.Store(true)
					} else if undisturbed && cctx.Err() != nil {
						c.Violate(name, "closing %s on a healthy session took over %s: %v\n%s\n%s", l.addr, d, err, tail(about(rt.Log(0), l.addr), 30), stacks())
					}
				}()
			}
			if !within(patience, clwg.Wait) {
				c.Violate(name, "Close of %s (peer %s) has not returned after its context\n%s", l.addr, peer, stacks())
			}
			l.closed.Store(true)
			close(end)
			if pending > 0 {
				c.Count("calls pending at close", int(pending))
			}
			c.Count("links closed", 1)
			if okClose.Load() {
				c.Count("links closed successfully", 1)
			}
			c.Seen("states of closing", fmt.Sprint(peer, "/", kind, "/", use))
			if !within(prompt, cwg.Wait) {
				c.Violate(name, "calls on %s (peer %s) go on %s after it was closed\n%s\n%s", l.addr, peer, prompt, tail(about(rt.Log(0), l.addr), 30), stacks())
			}
			// no more use
			for k := 0; k < 3; k++ {
				b := fmt.Sprintf("late/%s/%d", l.addr, k)
				var err error
				if !within(prompt, func() {
					if k == 1 && l.r != nil {
						err = l.r.Accept(bg, message(b))
						return
					}
					err = one(l, bg, b)
				}) {
					c.Violate(name, "a call on %s (peer %s) made after closing it has not failed within %s\n%s", l.addr, peer, prompt, stacks())
				}
				if err == nil {
					c.Violate(name, "a call on %s (peer %s, sender %v) made after closing it succeeded", l.addr, peer, l.s != nil)
				}
				c.Count("calls after close", 1)
			}
		}()
	}
	if !within(2*patience, wg.Wait) {
		c.Violate(name, "links are not closed within %s\n%s", 2*patience, stacks())
	}
	select {
	case f := <-byFail:
		c.Violate(name, "%s, while other links were closed (%s)\n%s", f, sig, tail(rt.Log(0), 60))
	default:
	}
	// the peer turns healthy, and has none of the links left
	failing.Store(false)
	if peer == "refused" {
		rt.Refuse(false)
	}
	if peer == "silent at attach" {
		// a silent peer is told when it wakes up: with a new session
		rt.Fault(router.Drop, nil, "")
	}
	if peer != "not started" && peer != "stopped" {
		probe := ctr.NewSender("probe", session.SenderOptions{})
		pctx, cancel := context.WithTimeout(bg, patience)
		for probe.Send(pctx, message("probe")) != nil {
			if pctx.Err() != nil {
				c.Violate(name, "a new sender cannot send although the peer (was %s) is healthy since %s\n%s\n%s", peer, patience, tail(rt.Log(0), 30), stacks())
			}
		}
		cancel()
	}
	left := func(v router.View) (addrs []string) {
		for _, l := range v.Links() {
			if !strings.HasPrefix(l.Addr, "by") && l.Addr != "probe" {
				addrs = append(addrs, l.Addr)
			}
		}
		return
	}
	var have []string
	if !rt.Await(patience, func(v router.View) bool { have = left(v); return len(have) == 0 }) {
		c.Violate(name, "the peer (%s) still has links %v that were closed %s ago\n%s\n%s", peer, have, patience, tail(about(rt.Log(0), have[0]), 30), stacks())
	}
	c.Count("links gone at the peer", n)
	log := rt.Log(0)
	if undisturbed {
		rt.Publish("by-r", payload("last"))
		close(quit)
		if !within(patience, bwg.Wait) {
			c.Violate(name, "bystanders do not get on after other links were closed\n%s\n%s", tail(log, 30), stacks())
		}
		select {
		case f := <-byFail:
			c.Violate(name, "%s, while other links were closed (%s)\n%s", f, sig, tail(rt.Log(0), 60))
		default:
		}
		for _, e := range rt.Log(0) {
			switch e.Kind {
			case "gone", router.KEnd, router.KClose, "protocol-error":
				c.Violate(name, "the session was disrupted (%v) although links were only closed (%s)\n%s", e, sig, tail(log, 60))
			}
		}
	}
	for _, e := range log {
		if e.Kind == router.KTransfer && strings.HasPrefix(unbody(e.Payload), "late/") {
			c.Violate(name, "the peer received %q, sent after its sender was closed\n%s", unbody(e.Payload), tail(about(log, e.Addr), 30))
		}
	}
	stop()
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "links": sig, "log": strings.Split(tail(log, 15), "\n")})
	}
	c.Case(fmt.Sprint(sig, len(log)))
}

// runCrowd closes many links in the moment the session they wait for is there.
func runCrowd(c *mon.Check, name string) {
	r := c.Rand(name)
	const n = 200
	again := r.IntN(2) == 0
	begun := make(chan struct{})
	var once sync.Once
	delay := pick(r, 0, 0, msDur(r, 1), msDur(r, 6))
	spread := pick(r, 1, 50, 300)
	rt := router.New(router.Config{NoRoute: true, NoCredit: func(string) bool { return true }, Decide: func(st router.Step) router.Act {
		if st.Kind == router.KBegin && (st.Conn == 2 || !again) {
			once.Do(func() { close(begun) })
		}
		return router.Go
	}})
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	ctr := newContainer(rt, name, constant(5*time.Millisecond))
	var calls, closes sync.WaitGroup
	var closed atomic.Int64
	callers := pick(r, 1, 4, 16, 32)
	for i := 0; i < n; i++ {
		var call func() error
		var end func(context.Context) error
		if i%2 == 0 {
			l := ctr.NewSender(fmt.Sprint("s", i), session.SenderOptions{})
			call, end = func() error { return l.Send(bg, message("x")) }, l.Close
		} else {
			l := ctr.NewReceiver(fmt.Sprint("r", i), session.ReceiverOptions{})
			call, end = func() error { _, err := l.Next(bg); return err }, l.Close
		}
		var closing atomic.Bool
		for w := 0; w < callers; w++ {
			calls.Add(1)
			go func() {
				defer calls.Done()
				for {
					if call(); closing.Load() {
						return
					}
					time.Sleep(100 * time.Microsecond)
				}
			}()
		}
		closes.Add(1)
		own := time.Duration(r.IntN(spread)) * time.Microsecond
		go func() {
			defer closes.Done()
			<-begun
			time.Sleep(delay + own)
			cctx, cancel := context.WithTimeout(bg, patience)
			defer cancel()
			closing.Store(true)
			if err := end(cctx); err == nil {
				closed.Add(1)
			} else if cctx.Err() != nil {
				c.Violate(name, "closing a link on a healthy session took over %s: %v\n%s", patience, err, stacks())
			}
		}()
	}
	ctr.Start(ctx)
	if again {
		// all attached, then at once without a session
		if !rt.Await(patience, func(v router.View) bool { return len(v.Links()) >= n }) {
			c.Violate(name, "links in use are not attached to the healthy peer within %s\n%s", patience, stacks())
		}
		rt.Fault(pick(r, router.Drop, router.End, router.Close), nil, "")
	}
	if !within(2*patience, closes.Wait) {
		c.Violate(name, "links in use are not closed within %s of the session being there\n%s", 2*patience, stacks())
	}
	if !within(patience, calls.Wait) {
		c.Violate(name, "calls go on %s after their links were closed\n%s", patience, stacks())
	}
	var have []string
	if !rt.Await(prompt, func(v router.View) bool {
		have = nil
		for _, l := range v.Links() {
			have = append(have, l.Addr)
		}
		return len(have) == 0
	}) {
		c.Violate(name, "the peer still has links %v, all of which were closed %s ago\n%s", have, prompt, tail(about(rt.Log(0), have[0]), 30))
	}
	c.Count("links of a crowd closed", int(closed.Load()))
	c.Case(fmt.Sprint("crowd ", again, " ", callers, " ", rt.Count(router.KAttach)))
}

// limited is a policy that gives up after some attempts.
type limited struct {
	left  atomic.Int64
	delay time.Duration
}

func (l *limited) NextBackOff() time.Duration {
	if l.left.Add(-1) < 0 {
		return backoff.Stop
	}
	return l.delay
}
func (l *limited) Reset() {}

func runConns(c *mon.Check, name string) {
	r := c.Rand(name)
	plan := randPlan(r, 1+r.IntN(10))
	silent := pick(r, "", "", router.KAccept, router.KHeader, router.KOpen, router.KBegin, router.KAttach)
	var quietNow atomic.Bool
	cfg := router.Config{NoRoute: true}
	cfg.Decide = func(st router.Step) router.Act {
		if quietNow.Load() && st.Kind == silent {
			return router.Mute
		}
		if st.Kind == router.KEnd || st.Kind == router.KClose {
			return plan.decide(st)
		}
		return plan.decide(st)
	}
	rt := router.New(cfg)
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	var b backoff.BackOff = constant(msDur(r, 4))
	gives := r.IntN(4) == 0
	if gives {
		l := &limited{delay: msDur(r, 2)}
		l.left.Store(int64(r.IntN(5)))
		b = l
	}
	ctr := newContainer(rt, name, b)
	var gaveUp atomic.Bool
	ctr.OnSessionError(func(err error) {
		if _, ok := err.(session.RetryableError); !ok {
			gaveUp.Store(true)
		}
	})
	ctr.Start(ctx)
	var wg sync.WaitGroup
	quit := make(chan struct{})
	uctx, ucancel := context.WithCancel(bg)
	defer ucancel()
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		s := ctr.NewSender(fmt.Sprint("s", i), session.SenderOptions{})
		rc := ctr.NewReceiver(fmt.Sprint("r", i), session.ReceiverOptions{})
		lr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		wg.Add(2)
		go func() {
			defer wg.Done()
			for uctx.Err() == nil {
				sctx, cancel := context.WithTimeout(uctx, 30*time.Millisecond)
				s.Send(sctx, message("x"))
				cancel()
				time.Sleep(msDur(lr, 2))
			}
		}()
		go func() {
			defer wg.Done()
			for {
				m, err := rc.Next(uctx)
				if err != nil {
					return
				}
				actx, cancel := context.WithTimeout(uctx, time.Second)
				rc.Accept(actx, m)
				cancel()
			}
		}()
	}
	end := time.Now().Add(time.Duration(20+r.IntN(120)) * time.Millisecond)
	for time.Now().Before(end) {
		for i := 0; i < 3; i++ {
			rt.Publish(fmt.Sprint("r", i), payload("m"))
		}
		if r.IntN(20) == 0 {
			rt.Fault(pick(r, router.End, router.Detach, router.Close, router.Drop), nil, "")
		}
		if r.IntN(25) == 0 {
			rt.Fault(router.Mute, nil, "")
			time.Sleep(msDur(r, 8))
			dropSilent(rt)
		}
		if r.IntN(8) == 0 {
			plan.unstick(rt)
		}
		time.Sleep(msDur(r, 4))
	}
	how := "stop"
	if gives {
		// until it gives up
		how = "give up"
		deadline := time.Now().Add(patience)
		for !gaveUp.Load() {
			plan.unstick(rt)
			dropSilent(rt)
			rt.Fault(pick(r, router.End, router.Close, router.Drop), nil, "")
			time.Sleep(2 * time.Millisecond)
			if time.Now().After(deadline) {
				c.Violate(name, "the container has not given up within %s although its policy has\n%s\n%s", patience, tail(rt.Log(0), 30), stacks())
			}
		}
	} else if silent == "" || r.IntN(2) == 0 {
		// quiet: one connection
		how = "quiesce, stop"
		rt.SetDecide(nil)
		plan.unstick(rt)
		dropSilent(rt)
		if !rt.Await(patience, func(v router.View) bool {
			n := 0
			for _, cn := range v.Conns() {
				if cn.Opened() && !cn.Muted() {
					n++
				}
			}
			return len(v.Conns()) == 1 && n == 1
		}) {
			n := 0
			rt.With(func(v router.View) { n = len(v.Conns()) })
			c.Violate(name, "%d connections are open %s after the last failure, want 1\n%s\n%s", n, patience, tail(noTraffic(rt.Log(0)), 40), stacks())
		}
	} else {
		// stopped while connecting to a peer silent at some step
		how = "silent at " + silent + ", stop"
		quietNow.Store(true)
		plan.unstick(rt)
		rt.Fault(router.Drop, nil, "")
		time.Sleep(msDur(r, 12))
	}
	if how != "give up" {
		stop()
	}
	attempts := 0
	rt.With(func(v router.View) { attempts = v.Count(router.KAccept) })
	gone := func() bool {
		return rt.Await(patience, func(v router.View) bool { return len(v.Conns()) == 0 })
	}
	ok := gone()
	if ok {
		// only an attempt under way at the end may still show up
		for i := 0; i < 3; i++ {
			time.Sleep(time.Duration(5+r.IntN(10)) * time.Millisecond)
			rt.Fault(router.Drop, nil, "")
		}
		ok = gone()
	}
	open, now := 0, 0
	rt.With(func(v router.View) { open, now = len(v.Conns()), v.Count(router.KAccept) })
	if !ok {
		c.Violate(name, "%d connections are left open %s after the end of the container (%s)\n%s\n%s", open, patience, how, tail(noTraffic(rt.Log(0)), 40), stacks())
	}
	if now-attempts > 1 {
		c.Violate(name, "the container goes on connecting after its end (%s): %d connections\n%s", how, now-attempts, tail(noTraffic(rt.Log(0)), 40))
	}
	close(quit)
	ucancel()
	if !within(patience, wg.Wait) {
		c.Violate(name, "calls did not return within %s of the end of their context\n%s", patience, stacks())
	}
	c.Count("runs of connections", 1)
	c.Count("connections made", attempts)
	c.Count("ends of containers", 1)
	c.Seen("kinds of ends", how)
	c.Case(fmt.Sprint(how, plan.fired, attempts))
}

func noTraffic(log []router.Event) []router.Event {
	var out []router.Event
	for _, e := range log {
		switch e.Kind {
		case router.KTransfer, router.KDeliver, router.KDisposition, router.KFlow:
			continue
		}
		out = append(out, e)
	}
	return out
}
