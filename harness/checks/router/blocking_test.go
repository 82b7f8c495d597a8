package router

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
)

// TestN03: calls that end with their context, in every state of the
// container, and what that does to others.
func TestN03(t *testing.T) {
	c := mon.Start("N03", "one case is one run in one state of the container (not started, refused, connecting to a peer silent at one of five steps, connected to a peer gone silent or silent when links attach again, backing off with the last session in use, without credit, unsettled, failing again and again, stopped, given up) with 1-80 links whose calls end with their contexts at any moment; or one run of calls cancelled on a healthy session with bystanders in traffic, which must see no disturbance; distinct by state, links and outcomes")
	c.Assume("a call counts as not ending with its context when it has not returned 8 s after the context was done")
	parallel(c, c.N(1500, 20000), 24, func(name string) {
		if c.Rand(name, "kind").IntN(3) == 0 {
			runBystanders(c, name)
		} else {
			runStuck(c, name)
		}
	})
	c.Finish(map[string]int64{"calls ended by their context": 20000, "states/calls": 40, "bystander runs": 200, "calls while backing off": 3000, "calls cancelled next to bystanders": 3000, "bystander messages": 5000})
}

const prompt = 8 * time.Second

// timed makes a call with a context that ends after d, and judges its return.
func timed(c *mon.Check, name, what string, r *rand.Rand, d time.Duration, call func(ctx context.Context) error) (err error, ended bool) {
	var ctx context.Context
	var cancel context.CancelFunc
	if r.IntN(2) == 0 {
		ctx, cancel = context.WithTimeout(bg, d)
	} else {
		ctx, cancel = context.WithCancel(bg)
		if d <= 0 {
			cancel()
		} else {
			defer time.AfterFunc(d, cancel).Stop()
		}
	}
	defer cancel()
	done := make(chan struct{})
	go func() { err = call(ctx); close(done) }()
	select {
	case <-done:
	case <-ctx.Done():
		t := time.NewTimer(prompt)
		defer t.Stop()
		select {
		case <-done:
		case <-t.C:
			c.Violate(name, "%s has not returned %s after its context was done\n%s", what, prompt, stacks())
		}
	}
	return err, ctx.Err() != nil
}

var stuckStates = []string{"not started", "refused", "silent at accept", "silent at header", "silent at open", "silent at begin", "silent at attach", "gone silent", "no credit", "unsettled", "failing", "not reading", "silent again", "backing off", "stopped", "stopped early", "given up"}

func runStuck(c *mon.Check, name string) {
	r := c.Rand(name)
	state := pick(r, stuckStates...)
	cfg := router.Config{NoRoute: true}
	if state == "not reading" {
		cfg.ReadBuffer = 4096
	}
	mute := map[string]string{"silent at accept": router.KAccept, "silent at header": router.KHeader, "silent at open": router.KOpen, "silent at begin": router.KBegin, "silent at attach": router.KAttach}[state]
	cfg.Decide = func(st router.Step) router.Act {
		switch {
		case mute != "" && st.Kind == mute:
			return router.Mute
		case state == "unsettled" && st.Kind == router.KTransfer:
			return router.Ignore
		case state == "failing" && st.Kind == router.KAttach:
			return []router.Act{router.Drop, router.End, router.Detach, router.Close}[st.N%4]
		}
		return router.Go
	}
	if state == "no credit" {
		cfg.NoCredit = func(string) bool { return true }
	}
	rt := router.New(cfg)
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	var b backoff.BackOff = constant(time.Hour)
	if state == "given up" {
		b = &backoff.StopBackOff{}
	}
	if state == "silent again" {
		b = constant(time.Millisecond)
	}
	if state == "failing" {
		b = constant(time.Duration(r.IntN(40)) * time.Millisecond)
	}
	if state == "refused" || state == "given up" {
		rt.Refuse(true)
	}
	ctr := newContainer(rt, name, b)
	n := pick(r, 1, 2, 3, 5, 1+r.IntN(40), 80)
	type lk struct {
		s session.Sender
		r session.Receiver
		m atomic.Pointer[amqp.Message]
	}
	var links []*lk
	mk := func() {
		for len(links) < n {
			l := &lk{}
			if r.IntN(2) == 0 || (state == "not reading" && len(links) == 0) {
				l.s = ctr.NewSender(fmt.Sprint("s", len(links)), session.SenderOptions{})
			} else {
				l.r = ctr.NewReceiver(fmt.Sprint("r", len(links)), session.ReceiverOptions{Credit: 5})
			}
			links = append(links, l)
		}
	}
	early := r.IntN(2) == 0
	if early {
		mk()
	}
	if state != "not started" {
		ctr.Start(ctx)
	}
	use := func() { // attach all links
		var wg sync.WaitGroup
		for i, l := range links {
			wg.Add(1)
			go func() {
				defer wg.Done()
				uctx, cancel := context.WithTimeout(bg, patience)
				defer cancel()
				if l.s != nil {
					if l.s.Send(uctx, message("x")) != nil {
						c.Violate(name, "sender does not get to work on a healthy peer\n%s\n%s", tail(rt.Log(0), 30), stacks())
					}
					return
				}
				stopPub := make(chan struct{})
				go func() {
					for {
						if rt.Publish(fmt.Sprint("r", i), payload("m")) > 0 {
							return
						}
						select {
						case <-stopPub:
							return
						case <-time.After(time.Millisecond):
						}
					}
				}()
				m, err := l.r.Next(uctx)
				close(stopPub)
				if err != nil {
					c.Violate(name, "receiver does not get to work on a healthy peer: %v\n%s\n%s", err, tail(rt.Log(0), 30), stacks())
				}
				l.m.Store(m)
			}()
		}
		wg.Wait()
	}
	connected := func() {
		if !rt.Await(patience, func(v router.View) bool { return v.Count(router.KBegin) > 0 }) {
			c.Violate(name, "no session with a healthy peer within %s\n%s", patience, stacks())
		}
		time.Sleep(2 * time.Millisecond)
	}
	switch state {
	case "gone silent":
		mk()
		use()
		rt.Fault(router.Mute, nil, "")
	case "not reading":
		mk()
		use()
		rt.Stall(true)
	case "silent again":
		mk()
		use()
		rt.SetDecide(func(st router.Step) router.Act {
			if st.Kind == router.KAttach {
				return router.Mute
			}
			return router.Go
		})
		rt.Fault(pick(r, router.Drop, router.End, router.Detach), nil, "")
	case "backing off":
		// one link fails and the next attempt is far away: the others can still
		// use the session
		mk()
		use()
		odd := ctr.NewSender("odd", session.SenderOptions{})
		octx, cancel := context.WithTimeout(bg, patience)
		odd.Send(octx, message("x"))
		rt.Fault(router.Detach, nil, "odd")
		for odd.Send(octx, message("x")) == nil && octx.Err() == nil {
		}
		cancel()
		time.Sleep(msDur(r, 3))
		for k, total := 0, 40+r.IntN(60); k < total; k++ {
			i := r.IntN(len(links))
			l := links[i]
			d := 50*time.Millisecond + msDur(r, 10)
			if l.s != nil {
				timed(c, name, "Send while backing off", r, d, func(ctx context.Context) error { return l.s.Send(ctx, message("y")) })
			} else {
				rt.Publish(fmt.Sprint("r", i), payload("m"))
				var m *amqp.Message
				timed(c, name, "Next while backing off", r, d, func(ctx context.Context) (err error) { m, err = l.r.Next(ctx); return err })
				if m != nil {
					timed(c, name, "Accept while backing off", r, d, func(ctx context.Context) error { return l.r.Accept(ctx, m) })
				}
			}
			c.Count("calls while backing off", 1)
		}
	case "stopped":
		mk()
		use()
		stop()
		time.Sleep(msDur(r, 5))
	case "stopped early":
		if r.IntN(2) == 0 {
			connected()
		}
		stop()
		time.Sleep(msDur(r, 5))
	case "given up", "refused":
		time.Sleep(msDur(r, 5))
	default:
		if r.IntN(2) == 0 {
			time.Sleep(msDur(r, 10))
		}
	}
	mk()
	var wg sync.WaitGroup
	pad := 0
	if state == "not reading" {
		pad = 6 << 20 / n
	}
	lctx, lcancel := context.WithCancel(bg)
	var lwg sync.WaitGroup
	defer lwg.Wait()
	defer lcancel()
	for _, l := range links {
		l := l
		if l.s != nil && (pad > 0 || r.IntN(2) == 0) {
			// another call on the link that does not end for now
			lwg.Add(1)
			go func() { defer lwg.Done(); l.s.Send(lctx, message(body("z", 0, pad))) }()
		}
	}
	if pad > 0 {
		time.Sleep(30 * time.Millisecond)
	}
	for _, l := range links {
		l := l
		workers := 1 + r.IntN(2)
		rounds := 1 + r.IntN(3)
		for w := 0; w < workers; w++ {
			w, r := w, rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < rounds; k++ {
					d := msDur(r, pick(r, 0, 3, 40))
					op := r.IntN(10)
					var err error
					var ended bool
					what := ""
					switch {
					case op == 0 && k == rounds-1 && w == 0:
						what = "Close"
						err, ended = timed(c, name, fmt.Sprintf("Close (sender %v) in state %q with %d links", l.s != nil, state, n), r, d, func(ctx context.Context) error {
							if l.s != nil {
								return l.s.Close(ctx)
							}
							return l.r.Close(ctx)
						})
					case l.s != nil:
						what = "Send"
						err, ended = timed(c, name, fmt.Sprintf("Send in state %q with %d links", state, n), r, d, func(ctx context.Context) error {
							return l.s.Send(ctx, message("y"))
						})
					case op < 4 && l.m.Load() != nil:
						what = "Accept"
						err, ended = timed(c, name, fmt.Sprintf("Accept in state %q with %d links", state, n), r, d, func(ctx context.Context) error {
							return l.r.Accept(ctx, l.m.Load())
						})
					default:
						what = "Next"
						err, ended = timed(c, name, fmt.Sprintf("Next in state %q with %d links", state, n), r, d, func(ctx context.Context) error {
							_, err := l.r.Next(ctx)
							return err
						})
					}
					if ended && err != nil {
						c.Count("calls ended by their context", 1)
						c.Seen("states/calls", state+what)
					}
				}
			}()
		}
	}
	wg.Wait()
	c.Case(fmt.Sprint(state, n, early, rt.Len()))
}

// runBystanders cancels calls on a healthy session. Nothing else may change.
func runBystanders(c *mon.Check, name string) {
	r := c.Rand(name)
	var noCredit atomic.Bool
	noCredit.Store(true)
	delay := msDur(r, 6)
	var slow atomic.Int64
	slow.Store(int64(r.IntN(3)))
	cfg := router.Config{NoRoute: true}
	cfg.NoCredit = func(a string) bool { return strings.HasPrefix(a, "dry") && noCredit.Load() }
	cfg.Decide = func(st router.Step) router.Act {
		if st.Kind == router.KTransfer && strings.HasPrefix(st.Addr, "mum") && string(unbody(st.Payload)) != "after" {
			return router.Ignore
		}
		if st.Kind == router.KAttach && slow.Load() == 0 && st.N > 4 && st.N < 12 {
			time.Sleep(delay)
		}
		return router.Go
	}
	rt := router.New(cfg)
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	ctr := newContainer(rt, name, constant(time.Millisecond))
	ctr.Start(ctx)
	// bystanders
	nr, ns := 1+r.IntN(3), 1+r.IntN(2)
	var wg sync.WaitGroup
	got := make([][]string, nr)
	var mu sync.Mutex
	want := make([]int, nr)
	for i := 0; i < nr; i++ {
		rc := ctr.NewReceiver(fmt.Sprint("by", i), session.ReceiverOptions{Credit: 10})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				m, err := rc.Next(ctx)
				if err != nil {
					return
				}
				rc.Accept(ctx, m)
				mu.Lock()
				got[i] = append(got[i], string(m.Data[0]))
				mu.Unlock()
				c.Count("bystander messages", 1)
			}
		}()
	}
	quit := make(chan struct{})
	var swg sync.WaitGroup
	for i := 0; i < ns; i++ {
		sn := ctr.NewSender(fmt.Sprint("bs", i), session.SenderOptions{})
		swg.Add(1)
		go func() {
			defer swg.Done()
			for k := 0; ; k++ {
				select {
				case <-quit:
					return
				default:
				}
				sctx, cancel := context.WithTimeout(ctx, patience)
				if err := sn.Send(sctx, message(body(fmt.Sprint("bs", i), k, 0))); err != nil {
					c.Violate(name, "a send of a bystander failed while other calls were cancelled: %v\n%s", err, tail(rt.Log(0), 40))
				}
				cancel()
				c.Count("bystander messages", 1)
				time.Sleep(time.Millisecond)
			}
		}()
	}
	if !rt.Await(patience, func(v router.View) bool {
		n := 0
		for i := 0; i < nr; i++ {
			n += v.Receivers(fmt.Sprint("by", i), true)
		}
		return n == nr
	}) {
		c.Violate(name, "receivers are not attached to the healthy peer within %s\n%s", patience, stacks())
	}
	// those whose calls are cancelled
	type victim struct {
		kind string
		addr string
		s    session.Sender
		r    session.Receiver
	}
	var victims []*victim
	for i, n := 0, 1+r.IntN(6); i < n; i++ {
		v := &victim{kind: pick(r, "dry", "mum", "ok", "recv")}
		v.addr = fmt.Sprint(v.kind, i)
		if v.kind == "recv" {
			v.r = ctr.NewReceiver(v.addr, session.ReceiverOptions{Credit: 3})
		} else {
			v.s = ctr.NewSender(v.addr, session.SenderOptions{})
		}
		victims = append(victims, v)
	}
	var vwg sync.WaitGroup
	for _, v := range victims {
		for w, n := 0, 1+r.IntN(2); w < n; w++ {
			r := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
			vwg.Add(1)
			go func() {
				defer vwg.Done()
				for k := 0; k < 15; k++ {
					d := msDur(r, pick(r, 0, 1, 4))
					var err error
					var ended bool
					if v.s != nil {
						err, ended = timed(c, name, "Send", r, d, func(ctx context.Context) error { return v.s.Send(ctx, message("v")) })
						if err != nil && !ended {
							c.Violate(name, "a send on a healthy session (%s) failed although its context is not done: %v\n%s", v.addr, err, tail(rt.Log(0), 40))
						}
					} else {
						err, ended = timed(c, name, "Next", r, d, func(ctx context.Context) error {
							m, err := v.r.Next(ctx)
							if err == nil && m != nil && r.IntN(2) == 0 {
								return nil
							}
							return err
						})
						if err != nil && !ended {
							c.Violate(name, "Next on a healthy session failed although its context is not done: %v", err)
						}
					}
					if err != nil && ended {
						c.Count("calls cancelled next to bystanders", 1)
						if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
							c.Count("calls ended by their context with another error", 1)
						}
					}
				}
			}()
		}
	}
	vdone := make(chan struct{})
	go func() { vwg.Wait(); close(vdone) }()
	for k := 0; ; k++ {
		for i := 0; i < nr; i++ {
			want[i]++
			rt.Publish(fmt.Sprint("by", i), payload(body(fmt.Sprint("by", i), want[i], 0)))
		}
		time.Sleep(2 * time.Millisecond)
		select {
		case <-vdone:
		default:
			continue
		}
		break
	}
	// the victims are still usable
	noCredit.Store(false)
	for _, v := range victims {
		actx, cancel := context.WithTimeout(ctx, patience)
		if v.s != nil {
			rt.GrantAll(v.addr)
			if err := v.s.Send(actx, message("after")); err != nil {
				c.Violate(name, "sender %s is not usable any more after cancelled calls: %v\n%s\n%s", v.addr, err, tail(rt.Log(0), 40), stacks())
			}
		} else {
			ok := make(chan struct{})
			go func() {
				for {
					if rt.Publish(v.addr, payload("after")) > 0 {
						return
					}
					select {
					case <-ok:
						return
					case <-time.After(time.Millisecond):
					}
				}
			}()
			m, err := v.r.Next(actx)
			close(ok)
			if err != nil {
				c.Violate(name, "receiver %s is not usable any more after cancelled calls: %v\n%s\n%s", v.addr, err, tail(rt.Log(0), 40), stacks())
			}
			v.r.Accept(actx, m)
		}
		cancel()
	}
	close(quit)
	swg.Wait()
	if !rt.Await(patience, func(router.View) bool {
		mu.Lock()
		defer mu.Unlock()
		for i := range got {
			if len(got[i]) < want[i] {
				return false
			}
		}
		return true
	}) {
		// fall through: judged below
	}
	log := rt.Log(0)
	for _, e := range log {
		switch e.Kind {
		case "gone", router.KEnd, router.KClose, "protocol-error":
			c.Violate(name, "the session was disrupted (%v) although calls only ended with their contexts\n%s", e, tail(log, 60))
		}
		if e.Kind == router.KHeader && e.Conn > 1 {
			c.Violate(name, "a second connection was made although calls only ended with their contexts\n%s", tail(log, 60))
		}
	}
	mu.Lock()
	for i := range got {
		for k, b := range got[i] {
			if b != body(fmt.Sprint("by", i), k+1, 0) {
				c.Violate(name, "bystander by%d received %q as message %d", i, b, k+1)
			}
		}
		if len(got[i]) != want[i] {
			c.Violate(name, "bystander by%d received %d of %d messages within %s\n%s", i, len(got[i]), want[i], patience, tail(log, 40))
		}
	}
	mu.Unlock()
	stop()
	if !within(patience, wg.Wait) {
		c.Violate(name, "receive calls did not return within %s of the end of their context\n%s", patience, stacks())
	}
	c.Count("bystander runs", 1)
	sig := ""
	for _, v := range victims {
		sig += v.kind + " "
	}
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "cancelled": sig, "bystanders": fmt.Sprint(nr, " receivers, ", ns, " senders"), "log": strings.Split(tail(log, 15), "\n")})
	}
	c.Case(fmt.Sprint("by", nr, ns, sig, len(log)))
}
