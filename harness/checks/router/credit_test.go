package router

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
)

// TestN02 watches the credit receivers offer the peer.
func TestN02(t *testing.T) {
	c := mon.Start("N02", "one case is one run of 1-4 receivers with credits of 1 to 5000 or none asked for: first without accepting anything, then accepting in varying order and pace, through 0-3 reconnections; judged at every flow frame and delivery the peer sees; distinct by credits, message numbers and reconnections")
	c.Assume("the default credit without a request is 1; credit may be topped up lazily, when half of it is used")
	parallel(c, c.N(300, 8000), 16, func(name string) { runN02(c, name) })
	c.Finish(map[string]int64{"flow frames judged": 3000, "attaches judged": 400, "receivers held at their limit": 200, "messages settled": 20000})
}

type n02recv struct {
	r      session.Receiver
	addr   string
	asked  int
	credit int
	hold   atomic.Bool
	got    atomic.Int64
}

func runN02(c *mon.Check, name string) {
	r := c.Rand(name)
	settledMode := r.IntN(10) == 0
	rt := router.New(router.Config{NoRoute: true, Settled: settledMode})
	defer rt.Close()
	ctx, stop := context.WithCancel(bg)
	defer stop()
	ctr := newContainer(rt, name, constant(time.Millisecond))
	early := r.IntN(2) == 0
	if !early {
		ctr.Start(ctx)
	}
	var recvs []*n02recv
	for i, n := 0, 1+r.IntN(4); i < n; i++ {
		asked := pick(r, 0, 0, 1, 2, 3, 1+r.IntN(20), 1+r.IntN(300), 1000, 1001+r.IntN(4000), -1)
		rc := &n02recv{addr: fmt.Sprintf("r%d", i), asked: asked, credit: max(asked, 1)}
		rc.r = ctr.NewReceiver(rc.addr, session.ReceiverOptions{Credit: asked})
		rc.hold.Store(true)
		recvs = append(recvs, rc)
	}
	if early {
		ctr.Start(ctx)
	}
	var wg sync.WaitGroup
	resume := make(chan struct{})
	for _, rc := range recvs {
		rc, pace := rc, time.Duration(r.IntN(2)*r.IntN(300))*time.Microsecond
		batch := 1
		if r.IntN(3) == 0 {
			batch = 1 + r.IntN(rc.credit)
		}
		backwards := r.IntN(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			var kept []*amqp.Message
			settle := func() {
				if backwards {
					for i, j := 0, len(kept)-1; i < j; i, j = i+1, j-1 {
						kept[i], kept[j] = kept[j], kept[i]
					}
				}
				for _, m := range kept {
					rc.r.Accept(ctx, m)
					c.Count("messages settled", 1)
				}
				kept = nil
			}
			for {
				nctx, cancel := context.WithTimeout(ctx, 10*time.Millisecond)
				m, err := rc.r.Next(nctx)
				cancel()
				if ctx.Err() != nil {
					return
				}
				if err == nil {
					rc.got.Add(1)
					kept = append(kept, m)
					time.Sleep(pace)
				}
				if rc.hold.Load() {
					select {
					case <-resume:
						continue
					case <-time.After(100 * time.Microsecond):
						continue
					case <-ctx.Done():
						return
					}
				}
				if len(kept) >= batch || err != nil {
					settle()
				}
			}
		}()
	}
	attached := func() {
		for _, rc := range recvs {
			rc := rc
			if !rt.Await(patience, func(v router.View) bool { return v.Receivers(rc.addr, false) == 1 }) {
				c.Violate(name, "receiver on %s is not attached to the healthy peer within %s\n%s\n%s", rc.addr, patience, tail(rt.Log(0), 30), stacks())
			}
		}
	}
	attached()
	// nothing is accepted: exactly the credit arrives
	sent := map[string]int{}
	for _, rc := range recvs {
		for n := rc.credit + 1 + r.IntN(rc.credit+3); n > 0; n-- {
			sent[rc.addr]++
			rt.Publish(rc.addr, payload(body(rc.addr, sent[rc.addr], 0)))
		}
	}
	if !settledMode {
		for _, rc := range recvs {
			rc := rc
			state := ""
			full := func(v router.View) bool {
				for _, l := range v.Links() {
					if !l.Sender && l.Addr == rc.addr {
						state = fmt.Sprintf("credit %d, unsettled %d, queued %d", l.Credit(), l.Unsettled(), l.Queued())
						return l.Unsettled() == rc.credit && l.Credit() == 0
					}
				}
				return false
			}
			if !rt.Await(patience, full) {
				c.Violate(name, "receiver on %s asked for a credit of %d; with %d messages waiting for it the peer is at: %s\n%s", rc.addr, rc.asked, sent[rc.addr], state, tail(rt.Log(0), 20))
			}
			c.Count("receivers held at their limit", 1)
		}
		time.Sleep(msDur(r, 3))
	}
	for _, rc := range recvs {
		rc.hold.Store(false)
	}
	close(resume)
	// accepted, everything arrives, through reconnections
	for k, n := 0, r.IntN(4); ; k++ {
		for _, rc := range recvs {
			for n := r.IntN(2*rc.credit + 5); n > 0; n-- {
				sent[rc.addr]++
				rt.Publish(rc.addr, payload(body(rc.addr, sent[rc.addr], 0)))
			}
		}
		if k < n {
			if r.IntN(2) == 0 {
				time.Sleep(msDur(r, 8))
			}
			rt.Fault(pick(r, router.Drop, router.Close, router.End, router.Detach), nil, "")
			// what was queued at the peer is lost with the links
			rt.Await(patience, func(v router.View) bool { return len(v.Links()) == 0 })
			attached()
			continue
		}
		break
	}
	for _, rc := range recvs {
		rc := rc
		state := ""
		// everything queued arrives and is settled, and the credit comes back
		if !rt.Await(patience, func(v router.View) bool {
			for _, l := range v.Links() {
				if !l.Sender && l.Addr == rc.addr {
					state = fmt.Sprintf("credit %d, unsettled %d, queued %d", l.Credit(), l.Unsettled(), l.Queued())
					return l.Queued() == 0 && l.Unsettled() == 0 && l.Credit() > 0 && 2*l.Credit() >= rc.credit
				}
			}
			return false
		}) {
			c.Violate(name, "receiver on %s (credit %d asked for) accepted everything, but the peer is left at: %s\n%s", rc.addr, rc.asked, state, tail(rt.Log(0), 20))
		}
	}
	stop()
	wg.Wait()
	// every flow frame
	asked := map[string]*n02recv{}
	for _, rc := range recvs {
		asked[rc.addr] = rc
	}
	first := map[int]bool{}
	sig := ""
	for _, e := range rt.Log(0) {
		if e.Kind == router.KFlow {
			rc := asked[e.Addr]
			if rc == nil {
				continue
			}
			c.Count("flow frames judged", 1)
			if !first[e.Link] {
				first[e.Link] = true
				c.Count("attaches judged", 1)
				if e.Credit != rc.credit {
					c.Violate(name, "receiver on %s asked for a credit of %d but offered %d when attached on connection %d", rc.addr, rc.asked, e.Credit, e.Conn)
				}
			}
			if e.Credit+e.Open > rc.credit {
				c.Violate(name, "receiver on %s asked for a credit of %d but offers %d with %d messages unsettled: %v", rc.addr, rc.asked, e.Credit, e.Open, e)
			}
		}
		if e.Kind == router.KDeliver && asked[e.Addr] != nil && e.Open > asked[e.Addr].credit {
			c.Violate(name, "receiver on %s asked for a credit of %d but has %d messages unsettled", e.Addr, asked[e.Addr].asked, e.Open)
		}
	}
	for _, rc := range recvs {
		sig += fmt.Sprintf("%d:%d:%d ", rc.asked, sent[rc.addr], rc.got.Load())
	}
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "credit:sent:received per receiver": sig, "attaches": len(first)})
	}
	c.Case(fmt.Sprint(sig, len(first)))
}
