package router

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
)

// TestN05: what session error handlers and backoff policies see of a history
// of failed attempts and lost sessions.
func TestN05(t *testing.T) {
	c := mon.Start("N05", "one case is one container with 1-4 session error handlers (recording, calling back into the container, registered late or by handlers) and a recorded backoff policy (scripted, constant, exponential, limited), in a history of 1-12 failed attempts and lost sessions at chosen steps with or without messages in between, that ends healthy, stopped or given up; the reports are judged against the attempts the peer has seen and the answers of the policy; distinct by history and policy")
	c.Assume("a report or attempt counts as missing when not seen 20 s after the failure")
	parallel(c, c.N(1000, 15000), 24, func(name string) {
		if strings.HasSuffix(name, "00") {
			runDefaultPolicy(c, name)
			return
		}
		if strings.HasSuffix(name, "77") || strings.HasSuffix(name, "88") {
			runN05(c, name, "lasting")
			return
		}
		runN05(c, name, "")
	})
	// on a single processor, what happens in one instant is pending together
	procs := runtime.GOMAXPROCS(1)
	for i := 0; i < c.N(40, 1000); i++ {
		name := fmt.Sprintf("tight-%d", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runN05(c, name, "tight")
		}
	}
	runtime.GOMAXPROCS(procs)
	c.Finish(map[string]int64{"failures reported": 1200, "reports received": 2500, "policies restarted": 250, "policies continued": 500, "containers giving up": 35, "containers stopped": 60, "calls from handlers": 600, "late handlers": 150, "failures": 16, "sessions lost right after a message": 200, "sessions lasting": 5, "containers with many handlers": 20})
}

// policy records what a backoff policy is asked and answers.
type policy struct {
	inner backoff.BackOff
	mu    sync.Mutex
	asked []answer
	pos   int // answers since the last reset
}

type answer struct {
	d   time.Duration
	pos int
}

func (p *policy) NextBackOff() time.Duration {
	p.mu.Lock()
	defer p.mu.Unlock()
	d := p.inner.NextBackOff()
	p.asked = append(p.asked, answer{d, p.pos})
	p.pos++
	return d
}

func (p *policy) Reset() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.inner.Reset()
	p.pos = 0
}

func (p *policy) answers() []answer {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]answer(nil), p.asked...)
}

// script answers with its delays, then the last one for ever; it gives up
// after max answers in total.
type script struct {
	delays []time.Duration
	i      int
	max    int
	n      int
}

func (s *script) NextBackOff() time.Duration {
	if s.max >= 0 && s.n >= s.max {
		return backoff.Stop
	}
	s.n++
	d := s.delays[min(s.i, len(s.delays)-1)]
	s.i++
	return d
}
func (s *script) Reset() { s.i = 0 }

type report struct {
	err   error
	retry bool
	d     time.Duration
	at    time.Time
}

type handler struct {
	mu      sync.Mutex
	kind    string
	reports []report
	atLeast int // reports others had before this was registered
	atMost  int // and after
}

func (h *handler) got() []report {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]report(nil), h.reports...)
}

// record never reads err in a way that depends on its type.
func (h *handler) record(err error) {
	rep := report{err: err, at: time.Now()}
	var re session.RetryableError
	if errors.As(err, &re) {
		rep.retry, rep.d = true, re.Retry()
	}
	h.mu.Lock()
	h.reports = append(h.reports, rep)
	h.mu.Unlock()
}

func runN05(c *mon.Check, name, special string) {
	r := c.Rand(name)
	// the policy
	var inner backoff.BackOff
	pk := pick(r, "script", "script", "script", "exponential", "limited")
	limit := -1
	switch pk {
	case "script":
		s := &script{max: -1}
		for i, n := 0, 1+r.IntN(4); i < n; i++ {
			s.delays = append(s.delays, pick(r, 0, msDur(r, 6), msDur(r, 6), msDur(r, 6)))
		}
		if r.IntN(3) == 0 {
			s.max = r.IntN(8)
		}
		limit = s.max
		inner = s
	case "exponential":
		e := backoff.NewExponentialBackOff()
		e.InitialInterval, e.MaxInterval = time.Millisecond, 8*time.Millisecond
		e.RandomizationFactor, e.Multiplier = 0, 1.5
		e.MaxElapsedTime = 0
		inner = e
	case "limited":
		limit = 1 + r.IntN(4)
		inner = backoff.WithMaxRetries(backoff.NewConstantBackOff(pick(r, 0, msDur(r, 3), msDur(r, 3))), uint64(limit))
	}
	pol := &policy{inner: inner}

	var (
		first    = &handler{kind: "record"} // always there
		ctr      session.Container
		hmu      sync.Mutex
		handlers []*handler
		late     []*handler
		attached atomic.Int64
	)
	var bad atomic.Pointer[string]
	fail := func(format string, args ...any) {
		s := fmt.Sprintf(format, args...)
		bad.CompareAndSwap(nil, &s)
	}
	addLate := func() {
		h := &handler{kind: "late"}
		h.atLeast = len(first.got())
		ctr.OnSessionError(h.record)
		h.atMost = len(first.got())
		hmu.Lock()
		late = append(late, h)
		hmu.Unlock()
		c.Count("late handlers", 1)
	}

	// what each connection is to meet
	type fate struct {
		step string // of the attempt that fails, or "up"
		act  router.Act
		flow string // messages before the session is lost
		wait time.Duration
		how  router.Act
	}
	var fates []fate
	n := 1 + r.IntN(12)
	lasting := false
	sig := pk
	for i := 0; i < n; i++ {
		f := fate{step: "up"}
		if r.IntN(2) == 0 {
			f.step = pick(r, router.KAccept, router.KHeader, router.KOpen, router.KBegin, router.KAttach)
			for {
				f.act = pick(r, stepActs[f.step]...)
				if f.act != router.Mute && f.act != router.Ignore {
					break
				}
			}
			sig += fmt.Sprint(" ", f.step, "/", f.act)
		} else {
			f.how = pick(r, router.Drop, router.Reset, router.Close, router.End, router.Detach)
			f.flow = pick(r, "", "", "sent", "accepted", "many", "last")
			if f.flow == "last" {
				f.how = router.Detach
			}
			if r.IntN(2) == 0 {
				f.wait = msDur(r, 8)
			}
			switch {
			case special == "tight":
				f.flow, f.how = "last", router.Detach
			case special == "lasting" && !lasting:
				lasting = true
				f.flow, f.wait = "", 33*time.Second
			}
			sig += fmt.Sprint(" ", f.how, "+", f.flow)
		}
		fates = append(fates, f)
	}
	rt := router.New(router.Config{NoRoute: true, After: func(st router.Step) router.Act {
		if strings.HasPrefix(unbody(st.Payload), "last/") {
			return router.Detach
		}
		return router.Go
	}})
	defer rt.Close()
	rt.SetDecide(func(st router.Step) router.Act {
		if st.Kind == router.KAccept {
			// st.N attempts failed before this one
			now := time.Now()
			reps := first.got()
			if len(reps) < st.N {
				fail("the container connects for the %dth time although only %d failures were reported", st.N+1, len(reps))
			} else if st.N > 0 && now.Sub(reps[st.N-1].at) < reps[st.N-1].d {
				fail("the container connects %s after reporting a failure with a delay of %s", now.Sub(reps[st.N-1].at), reps[st.N-1].d)
			}
		}
		i := st.Conn - 1
		if i >= 0 && i < len(fates) && fates[i].step == st.Kind {
			return fates[i].act
		}
		return router.Go
	})
	ctr = newContainer(rt, name, pol)
	hs := 1 + r.IntN(3)
	if r.IntN(8) == 0 {
		hs = 10 + r.IntN(60)
		c.Count("containers with many handlers", 1)
	}
	handlers = append(handlers, first)
	ctr.OnSessionError(func(err error) {
		first.record(err)
	})
	for i := 0; i < hs; i++ {
		h := &handler{kind: pick(r, "record", "new link", "register", "slow", "use")}
		if i > 4 {
			h.kind = "record"
		}
		handlers = append(handlers, h)
		ctr.OnSessionError(func(err error) {
			h.record(err)
			switch h.kind {
			case "new link":
				s := ctr.NewSender("from handler", session.SenderOptions{})
				rc := ctr.NewReceiver("from handler", session.ReceiverOptions{})
				dctx, cancel := context.WithTimeout(bg, time.Millisecond)
				s.Close(dctx)
				rc.Close(dctx)
				cancel()
				c.Count("calls from handlers", 1)
			case "register":
				if len(h.got()) <= 3 {
					addLate()
				}
				c.Count("calls from handlers", 1)
			case "slow":
				time.Sleep(2 * time.Millisecond)
			case "use":
				dctx, cancel := context.WithTimeout(bg, time.Millisecond)
				s := ctr.NewSender("from handler", session.SenderOptions{})
				s.Send(dctx, message("x"))
				s.Close(dctx)
				cancel()
				c.Count("calls from handlers", 1)
			}
		})
	}
	for _, h := range handlers {
		sig += " " + h.kind
	}
	ctx, stop := context.WithCancel(bg)
	if r.IntN(2) == 0 {
		ctx = passing{ctx}
	}
	defer stop()
	ctr.Start(ctx)

	uctx, ucancel := context.WithCancel(bg)
	defer ucancel()
	rc := ctr.NewReceiver("in", session.ReceiverOptions{Credit: 10})
	snd := ctr.NewSender("out", session.SenderOptions{})
	accepted := make(chan string, 1000)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			m, err := rc.Next(uctx)
			if err != nil {
				return
			}
			actx, cancel := context.WithTimeout(uctx, patience)
			err = rc.Accept(actx, m)
			cancel()
			if err == nil {
				accepted <- string(m.Data[0])
			}
		}
	}()
	check := func() {
		if s := bad.Load(); s != nil {
			c.Violate(name, "%s (%s)\n%s\n%s", *s, sig, history(first, pol), tail(noTraffic(rt.Log(0)), 40))
		}
	}
	gaveUp := func() bool {
		as := pol.answers()
		return len(as) > 0 && as[len(as)-1].d == backoff.Stop
	}
	// bring each connection to its fate
	expect := map[int]string{} // by failure: "restart" or "continue"
	stopAt := -1
	if r.IntN(3) == 0 {
		stopAt = r.IntN(len(fates))
	}
	ended := "healthy"
	flowed := func(f fate, i int) {
		k := 1
		switch f.flow {
		case "":
			return
		case "many":
			k = 40
		}
		for j := 0; j < k; j++ {
			b := body(fmt.Sprint("m", i), j, 0)
			if f.flow == "accepted" {
				rt.Publish("in", payload(b))
				t := time.NewTimer(patience)
				select {
				case <-accepted:
				case <-t.C:
					c.Violate(name, "a message is not received and accepted on the healthy connection %d within %s (%s)\n%s\n%s", i+1, patience, sig, tail(rt.Log(0), 30), stacks())
				}
				t.Stop()
				continue
			}
			sctx, cancel := context.WithTimeout(bg, patience)
			// the first one may find its link lost with an earlier session
			for {
				err := snd.Send(sctx, message(b))
				if err == nil {
					// or still be on the session before
					conn := 0
					log := rt.Log(0)
					for k := len(log) - 1; k >= 0 && conn == 0; k-- {
						if log[k].Kind == router.KTransfer && log[k].Addr == "out" {
							conn = log[k].Conn
						}
					}
					if conn == i+1 {
						break
					}
				}
				if sctx.Err() != nil {
					c.Violate(name, "cannot send on the healthy connection %d: %v (%s)\n%s\n%s", i+1, err, sig, tail(rt.Log(0), 30), stacks())
				}
				time.Sleep(100 * time.Microsecond)
			}
			cancel()
		}
	}
	for i, f := range fates {
		if i == stopAt {
			ended = "stopped"
			time.Sleep(msDur(r, 6))
			break
		}
		if r.IntN(8) == 0 {
			addLate()
		}
		expect[i] = "continue"
		up := f.step == "up"
		if !rt.Await(patience, func(v router.View) bool {
			if up {
				for _, l := range v.Links() {
					if l.Conn == i+1 && l.Addr == "in" && v.Receivers("in", true) == 1 {
						return true
					}
				}
				return gaveUp() || bad.Load() != nil
			}
			return v.Count(router.KAccept) > i || gaveUp() || bad.Load() != nil
		}) {
			c.Violate(name, "the container is not connected again within %s of failure %d (%s)\n%s\n%s\n%s", patience, i, sig, history(first, pol), tail(rt.Log(0), 30), stacks())
		}
		check()
		if gaveUp() {
			ended = "given up"
			break
		}
		if !up {
			if !within(patience, func() {
				for len(pol.answers()) <= i {
					time.Sleep(200 * time.Microsecond)
				}
			}) {
				c.Violate(name, "failure %d (%s/%s) has no consequence within %s (%s)\n%s\n%s\n%s", i, f.step, f.act, patience, sig, history(first, pol), tail(rt.Log(0), 30), stacks())
			}
			c.Seen("failures", fmt.Sprint(f.step, "/", f.act))
			continue
		}
		attached.Add(1)
		if f.flow == "last" {
			// nothing flows before the last message the link takes
			sctx, cancel := context.WithTimeout(bg, patience)
			conn, err, err2 := 0, error(nil), error(nil)
			for conn != i+1 && !gaveUp() && sctx.Err() == nil {
				b, b2 := message(body("last", i, 0)), message(body("more", i, 0))
				if err = snd.Send(sctx, b); err == nil {
					err2 = snd.Send(sctx, b2) // the link is used again at once, and lost
				}
				log := rt.Log(0)
				for k := len(log) - 1; k >= 0; k-- {
					if log[k].Kind == router.KTransfer && log[k].Addr == "out" {
						conn = log[k].Conn
						break
					}
				}
			}
			for err == nil && err2 == nil && !gaveUp() && sctx.Err() == nil && len(pol.answers()) <= i {
				err2 = snd.Send(sctx, message(body("more", i, 0)))
			}
			cancel()
			expect[i] = ""
			if err == nil {
				expect[i] = "restart"
				c.Count("sessions lost right after a message", 1)
			}
			if !within(patience, func() {
				for len(pol.answers()) <= i {
					time.Sleep(200 * time.Microsecond)
				}
			}) {
				c.Violate(name, "the loss of session %d (%s) has no consequence within %s (%s)\n%s\n%s\n%s", i, f.how, patience, sig, history(first, pol), tail(rt.Log(0), 30), stacks())
			}
			continue
		}
		flowed(f, i)
		time.Sleep(f.wait)
		if f.flow != "" {
			expect[i] = "restart"
		}
		if f.wait > 30*time.Second {
			expect[i] = "restart"
			c.Count("sessions lasting", 1)
		}
		match := func(cn *router.Conn) bool { return cn.ID == i+1 }
		if k := rt.Fault(f.how, match, "in"); k != 1 && f.how != router.End {
			c.Violate(name, "connection %d is gone before it fails (%s)\n%s\n%s", i+1, sig, history(first, pol), tail(rt.Log(0), 40))
		}
		if !within(patience, func() {
			for len(pol.answers()) <= i {
				time.Sleep(200 * time.Microsecond)
			}
		}) {
			c.Violate(name, "the loss of session %d (%s) has no consequence within %s (%s)\n%s\n%s\n%s", i, f.how, patience, sig, history(first, pol), tail(rt.Log(0), 30), stacks())
		}
		c.Seen("failures", fmt.Sprint("up/", f.how))
	}
	check()
	if ended == "healthy" && !gaveUp() {
		// connects once more
		if !rt.Await(patience, func(v router.View) bool {
			return v.Receivers("in", true) == 1 && v.Count(router.KAccept) == len(fates)+1 || bad.Load() != nil || gaveUp()
		}) {
			c.Violate(name, "the container is not connected again within %s of failure %d, the last one (%s)\n%s\n%s\n%s", patience, len(fates)-1, sig, history(first, pol), tail(rt.Log(0), 30), stacks())
		}
		if !gaveUp() {
			flowed(fate{flow: "sent"}, len(fates))
		}
	}
	check()
	if ended == "healthy" && gaveUp() {
		ended = "given up"
	}
	switch ended {
	case "given up":
		c.Count("containers giving up", 1)
		if !within(patience, func() {
			for {
				ok := true
				for _, h := range handlers {
					reps := h.got()
					ok = ok && len(reps) > 0 && !reps[len(reps)-1].retry
				}
				if ok {
					return
				}
				time.Sleep(time.Millisecond)
			}
		}) {
			c.Violate(name, "giving up is not reported to every handler within %s (%s)\n%s\n%s", patience, sig, history(first, pol), stacks())
		}
		time.Sleep(10 * time.Millisecond)
	case "stopped":
		c.Count("containers stopped", 1)
		before := 0
		rt.With(func(v router.View) { before = v.Count(router.KAccept) })
		stop()
		rep := len(first.got())
		if !rt.Await(patience, func(v router.View) bool { return len(v.Conns()) == 0 }) {
			c.Violate(name, "connections are left %s after the container was stopped (%s)\n%s\n%s", patience, sig, tail(noTraffic(rt.Log(0)), 30), stacks())
		}
		time.Sleep(10 * time.Millisecond)
		after := 0
		rt.With(func(v router.View) { after = v.Count(router.KAccept) })
		if reps := first.got(); len(reps) > rep+1 || after > before+1 {
			c.Violate(name, "the container makes %d attempts and %d reports after it was stopped (%s)\n%s\n%s", after-before, len(reps)-rep, sig, history(first, pol), tail(noTraffic(rt.Log(0)), 30))
		}
	}
	stop()
	// reports against the answers of the policy
	var want []answer
	stopped := false
	judge := func() string {
		want, stopped = nil, false
		for _, a := range pol.answers() {
			if a.d == backoff.Stop {
				stopped = true
				continue
			}
			want = append(want, a)
		}
		total := len(want)
		if stopped && ended == "given up" {
			total++
		}
		for i, h := range handlers {
			reps := h.got()
			if stopped && ended == "stopped" && len(reps) == total+1 && !reps[total].retry {
				// it was giving up when it was stopped
				reps = reps[:total]
			}
			if len(reps) != total {
				return fmt.Sprintf("handler %d (%s) got %d reports, want %d", i, h.kind, len(reps), total)
			}
			for k, rep := range reps {
				if k == len(want) {
					if rep.retry {
						return fmt.Sprintf("handler %d (%s): the report of giving up is retryable: %v", i, h.kind, rep.err)
					}
					continue
				}
				if !rep.retry {
					return fmt.Sprintf("handler %d (%s): report %d is not retryable: %v", i, h.kind, k, rep.err)
				}
				if rep.d != want[k].d {
					return fmt.Sprintf("handler %d (%s): report %d has a delay of %s, the policy said %s", i, h.kind, k, rep.d, want[k].d)
				}
				if rep.err == nil || rep.err.Error() == "" {
					return fmt.Sprintf("handler %d (%s): report %d says nothing", i, h.kind, k)
				}
			}
		}
		hmu.Lock()
		defer hmu.Unlock()
		for i, h := range late {
			n := len(h.got())
			if stopped && ended == "stopped" && n == total-h.atLeast+1 {
				n--
			}
			if n > total-h.atLeast || n < total-h.atMost-1 {
				return fmt.Sprintf("a handler registered late (%d) got %d reports; there were %d, %d to %d of them before", i, n, total, h.atLeast, h.atMost+1)
			}
		}
		return ""
	}
	verdict := ""
	within(patience, func() {
		for end := time.Now().Add(patience); ; {
			if verdict = judge(); verdict == "" || time.Now().After(end) {
				return
			}
			time.Sleep(time.Millisecond)
		}
	})
	if verdict != "" {
		c.Violate(name, "%s (%s, %s)\n%s\n%s\n%s", verdict, sig, ended, history(first, pol), tail(noTraffic(rt.Log(0)), 40), stacks())
	}
	check()
	attempts := 0
	rt.With(func(v router.View) { attempts = v.Count(router.KAccept) })
	switch {
	case ended == "given up" && attempts != len(want)+1,
		ended == "healthy" && attempts != len(want)+1,
		ended == "stopped" && (attempts < len(want) || attempts > len(want)+1):
		c.Violate(name, "%d attempts for %d failures reported as retryable (%s, %s, limit %d)\n%s\n%s", attempts, len(want), sig, ended, limit, history(first, pol), tail(noTraffic(rt.Log(0)), 60))
	}
	// starting afresh
	prev := -1
	for i, a := range want {
		switch expect[i] {
		case "restart":
			if a.pos != 0 {
				c.Violate(name, "the policy was not restarted although messages flowed on connection %d (%s)\n%s", i+1, sig, history(first, pol))
			}
			c.Count("policies restarted", 1)
		case "continue":
			if a.pos != prev+1 {
				c.Violate(name, "the policy was restarted although no message flowed on connection %d (%s)\n%s", i+1, sig, history(first, pol))
			}
			c.Count("policies continued", 1)
		}
		prev = a.pos
	}
	c.Count("failures reported", len(want))
	for _, h := range handlers {
		c.Count("reports received", len(h.got()))
	}
	ucancel()
	if !within(patience, wg.Wait) {
		c.Violate(name, "a receive has not returned %s after its context was done\n%s", patience, stacks())
	}
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "history": sig, "ended": ended, "reports": strings.Split(history(first, pol), "\n")})
	}
	c.Case(fmt.Sprint(sig, ended, len(want)))
}

// passing is a context that ends the way one does whose deadline passes.
type passing struct{ context.Context }

func (p passing) Err() error {
	if p.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

func history(h *handler, p *policy) string {
	var sb strings.Builder
	for i, rep := range h.got() {
		fmt.Fprintf(&sb, "report %d: retryable %v delay %s: %v\n", i, rep.retry, rep.d, rep.err)
	}
	fmt.Fprintf(&sb, "policy (answer, position since its reset): %v", p.answers())
	return sb.String()
}

// runDefaultPolicy: without a policy, failures are retried after about 250ms
// and then longer each time, for ever.
func runDefaultPolicy(c *mon.Check, name string) {
	r := rand.New(rand.NewPCG(c.Rand(name).Uint64(), 1))
	rt := router.New(router.Config{NoRoute: true})
	defer rt.Close()
	n := 2 + r.IntN(2)
	rt.SetDecide(func(st router.Step) router.Act {
		if st.Kind == router.KOpen && st.N < n {
			return router.Drop
		}
		return router.Go
	})
	ctr := session.NewContainer(rt.Addr(), session.ContainerConfig{ContainerID: name})
	h := &handler{}
	ctr.OnSessionError(h.record)
	ctx, stop := context.WithCancel(bg)
	defer stop()
	ctr.Start(ctx)
	if !rt.Await(patience, func(v router.View) bool {
		for _, cn := range v.Conns() {
			if cn.Sessions() > 0 && v.Count(router.KAccept) > n {
				return true
			}
		}
		return false
	}) {
		c.Violate(name, "the container is not connected %s after %d failures with the default policy\n%s", patience, n, tail(rt.Log(0), 30))
	}
	reps := h.got()
	if len(reps) != n {
		c.Violate(name, "%d reports for %d failures", len(reps), n)
	}
	for i, rep := range reps {
		mid := 250 * time.Millisecond
		for k := 0; k < i; k++ {
			mid += mid / 2
		}
		if !rep.retry || rep.d < mid/2-time.Millisecond || rep.d > mid+mid/2+time.Millisecond {
			c.Violate(name, "default policy: failure %d is retried after %s (%v)", i, rep.d, rep.err)
		}
	}
	c.Count("runs of the default policy", 1)
	c.Case("default" + name)
}
