package tools

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

// endsIn bounds how long an interrupted tool takes to end.
const endsIn = 10 * time.Second

// TestT06: connections and the end of the commands.
func TestT06(t *testing.T) {
	c := mon.Start("T06", "one case is one run of a command: sources that fall silent and return with the connections at the server counted; outages after a quiet or a busy time; a server that stays unreachable; or an interrupt at a random moment of starting, of traffic, of an outage or with a server that stopped answering at some protocol step; distinct by command and events")
	c.Assume("a source is known until 30 s after it was last heard, with 25 s of margin; the tool's output is read")
	ports := map[string]*sync.Mutex{"serve": {}, "fixture": {}, "log": nil}
	var wg sync.WaitGroup
	slots := make(chan bool, 40)
	run := func(name, command string, f func(name, command string)) {
		if c.Skip(name) {
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if l := ports[command]; l != nil { // one at a time
				l.Lock()
				defer l.Unlock()
			}
			slots <- true
			defer func() { <-slots }()
			c.Doing("%s", name)
			f(name, command)
		}()
	}
	for i := 0; i < c.N(4, 20); i++ {
		run(fmt.Sprint("sources-", i), "log", func(name, command string) { runComing(c, name, command) })
	}
	for i := 0; i < c.N(2, 10); i++ {
		run(fmt.Sprint("quiet-", i), "log", func(name, command string) { runOutage(c, name, command, 62*time.Second) })
	}
	for i := 0; i < c.N(4, 20); i++ {
		run(fmt.Sprint("outage-", i), "log", func(name, command string) { runOutage(c, name, command, 0) })
		run(fmt.Sprint("away-", i), "log", func(name, command string) { runAway(c, name, command) })
	}
	// serve: one at a time
	run("serve-sources", "serve", func(name, command string) {
		for i := 0; i < c.N(1, 6); i++ {
			runComing(c, fmt.Sprint(name, "-", i), command)
		}
		for i := 0; i < c.N(6, 40); i++ {
			runEnd(c, fmt.Sprint(name, "-end-", i), command)
		}
	})
	run("fixture-away", "fixture", func(name, command string) {
		for i := 0; i < c.N(1, 5); i++ {
			runAway(c, fmt.Sprint(name, "-", i), command)
		}
		for i := 0; i < c.N(6, 40); i++ {
			runEnd(c, fmt.Sprint(name, "-end-", i), command)
		}
	})
	for i := 0; i < c.N(80, 1000); i++ {
		run(fmt.Sprint("end-", i), "log", func(name, command string) { runEnd(c, name, command) })
	}
	wg.Wait()
	c.Finish(map[string]int64{"sources forgotten": 3, "connections of sources gone": 3, "sources that returned": 3, "outages ridden out": 3, "ended by themselves": 3, "interrupts": 50, "interrupts with a mute server": 10})
}

// conns counts the connections opened.
func conns(v router.View) int {
	n := 0
	for _, cn := range v.Conns() {
		if cn.Opened() {
			n++
		}
	}
	return n
}

func awaitConns(c *mon.Check, name, when string, nt *tool.Net, p *tool.Proc, limit time.Duration, want int) {
	n := 0
	if !nt.Await(limit, func(v router.View) bool { n = len(v.Conns()); return n == want && conns(v) == want }) {
		crashed(c, name, p)
		var log []string
		nt.With(func(v router.View) {
			for _, cn := range v.Conns() {
				links := ""
				for _, l := range v.Links() {
					if l.Conn == cn.ID {
						links += " " + l.Addr
					}
				}
				log = append(log, fmt.Sprintf("connection %d with links of:%s", cn.ID, links))
			}
		})
		c.Violate(name, "%s %s, and %s later: the tool holds %d connections, want %d:\n%s\n%s", p.Args(), when, limit, n, want, strings.Join(log, "\n"), p.Tail())
	}
}

// lively has sources that send beacons and heartbeats.
func lively(r *rand.Rand, nt *tool.Net, n int) []*tool.Source {
	var out []*tool.Source
	for i := 0; i < n; i++ {
		s := &tool.Source{ID: fmt.Sprint("s", i), Version: 1, Type: pick(r, "ROUTER", "CONTROLLER"), Beat: 100 * time.Millisecond}
		nt.Add(s)
		out = append(out, s)
	}
	return out
}

func portOf(command string) int {
	return map[string]int{"serve": tool.ServePort, "fixture": tool.FixturePort}[command]
}

func runComing(c *mon.Check, name, command string) {
	r := c.Rand(name)
	nt := tool.NewNet(router.Config{Quiet: true}, nil)
	defer nt.Close()
	srcs := lively(r, nt, 2+r.IntN(4))
	args := []string{"-server", nt.Addr(), fmt.Sprintf("-flush-on-discover=%v", r.IntN(2) == 0)}
	p := launch(c, name, portOf(command), append(args, command)...)
	awaitConns(c, name, "after start", nt, p, patience, 1+len(srcs))
	var sig []string
	gone := 0
	for _, s := range srcs[:1+r.IntN(len(srcs)-1)] {
		s.SetAlive(false)
		gone++
	}
	sig = append(sig, fmt.Sprint(len(srcs), "-", gone))
	if r.IntN(2) == 0 { // some failures while they are silent
		time.Sleep(ms(r, 25000))
		nt.Fault(pick(r, router.Drop, router.Detach, router.End), nil, "")
		sig = append(sig, "failure")
	}
	awaitConns(c, name, "with sources silent", nt, p, 60*time.Second, 1+len(srcs)-gone)
	c.Count("sources forgotten", gone)
	c.Count("connections of sources gone", gone)
	for _, s := range srcs[:gone] {
		s.SetAlive(true)
		c.Count("sources that returned", 1)
	}
	awaitConns(c, name, "with all sources back", nt, p, patience, 1+len(srcs))
	time.Sleep(ms(r, 1000))
	awaitConns(c, name, "with all sources back", nt, p, patience, 1+len(srcs))
	interrupt(c, name, p, "at rest")
	c.Case(fmt.Sprint(command, sig))
}

// interrupt ends a tool.
func interrupt(c *mon.Check, name string, p *tool.Proc, when string) {
	if s := p.Crash(); s != "" {
		c.Violate(name, "%q crashed:\n%s", p.Args(), s)
	}
	t0 := time.Now()
	if !p.Stop(endsIn) {
		c.Violate(name, "%q does not end when interrupted %s, within %s:\n%s", p.Args(), when, endsIn, p.Tail())
	}
	if s := p.Crash(); s != "" {
		c.Violate(name, "%q crashed when interrupted %s:\n%s", p.Args(), when, s)
	}
	c.Count("interrupts", 1)
	c.Count("milliseconds to end", int(time.Since(t0).Milliseconds()))
}

// runOutage has the server away for a while.
func runOutage(c *mon.Check, name, command string, quiet time.Duration) {
	r := c.Rand(name)
	nt := tool.NewNet(router.Config{Quiet: true}, nil)
	defer nt.Close()
	n := 0
	if quiet == 0 {
		n = r.IntN(4)
	}
	srcs := lively(r, nt, n)
	p := launch(c, name, portOf(command), "-server", nt.Addr(), command)
	awaitConns(c, name, "after start", nt, p, patience, 1+n)
	for k := 0; k < 1+r.IntN(2); k++ {
		time.Sleep(quiet + ms(r, 2000))
		away := ms(r, 10000)
		nt.Refuse(true)
		nt.Fault(pick(r, router.Drop, router.Reset), nil, "")
		time.Sleep(away)
		if err := nt.Refuse(false); err != nil {
			c.Inconclusive("%s: cannot listen again: %v", name, err)
		}
		when := fmt.Sprintf("after an outage of %s that followed %s of quiet", away, quiet)
		if !within(45*time.Second, func() bool {
			ok := false
			nt.With(func(v router.View) { ok = v.Receivers("mc/sfe.all", true) == 1 && conns(v) == 1+n })
			return ok || !p.Alive()
		}) || !p.Alive() {
			crashed(c, name, p)
			c.Violate(name, "%q: %s, it does not come back for 45 s:\n%s", p.Args(), when, p.Tail())
		}
		c.Count("outages ridden out", 1)
		quiet = 0
	}
	interrupt(c, name, p, "after an outage")
	c.Case(fmt.Sprint(command, len(srcs), quiet > 0))
}

// runAway has the server go away for good.
func runAway(c *mon.Check, name, command string) {
	r := c.Rand(name)
	nt := tool.NewNet(router.Config{Quiet: true}, nil)
	defer nt.Close()
	state := pick(r, "never there", "quiet", "busy")
	if command == "fixture" {
		state = "busy"
	}
	n := 0
	if state == "never there" {
		nt.Refuse(true)
	} else if state == "busy" && command != "fixture" {
		n = 1 + r.IntN(3)
		lively(r, nt, n)
	}
	p := launch(c, name, portOf(command), "-server", nt.Addr(), command)
	if state != "never there" {
		awaitConns(c, name, "after start", nt, p, patience, 1+n)
		if command == "fixture" {
			world, refs := randWorld(r, name, 2, 4, nil)
			var ps []post
			for _, x := range world {
				ps = append(ps, postOf(x))
			}
			postCapture(c, name, p, encodeCapture(ps))
			awaitRunning(c, name, p, patience)
			awaitConns(c, name, "with a capture", nt, p, patience, 1+len(refs))
			n = len(refs)
		}
		time.Sleep(ms(r, 3000))
		nt.Refuse(true)
		nt.Fault(pick(r, router.Drop, router.Reset), nil, "")
	}
	t0 := time.Now()
	if !p.Wait(100 * time.Second) {
		c.Violate(name, "%q (%s, %d sources): its server is unreachable for 100 s and it goes on\n%s", p.Args(), state, n, p.Tail())
	}
	took := time.Since(t0)
	if s := p.Crash(); s != "" {
		c.Violate(name, "%q crashed:\n%s", p.Args(), s)
	}
	if took < 15*time.Second {
		c.Violate(name, "%q (%s, %d sources): its server is unreachable for %s only and it gives up\n%s", p.Args(), state, n, took, p.Tail())
	}
	c.Count("ended by themselves", 1)
	c.Case(fmt.Sprint(command, " away ", state, n))
}

// runEnd interrupts a tool at some moment.
func runEnd(c *mon.Check, name, command string) {
	r := c.Rand(name)
	state := pick(r, "starting", "refused", "mute", "mute", "mute", "traffic", "traffic", "dropped", "stalled", "slow client")
	kind := ""
	cfg := router.Config{Quiet: true, ReadBuffer: pick(r, 0, 2048)}
	if state == "mute" {
		kind = pick(r, router.KAccept, router.KHeader, router.KSASL, router.KOpen, router.KBegin, router.KAttach, router.KFlow, router.KDisposition)
		if command == "fixture" {
			kind = pick(r, router.KAccept, router.KHeader, router.KSASL, router.KOpen, router.KBegin)
		}
		conn := 1 + r.IntN(2)
		cfg.Decide = func(s router.Step) router.Act {
			if s.Conn >= conn && s.Kind == kind {
				return router.Mute
			}
			return router.Go
		}
	}
	nt := tool.NewNet(cfg, nil)
	defer nt.Close()
	n := 0
	if state != "refused" && r.IntN(3) > 0 {
		n = 1 + r.IntN(3)
		lively(r, nt, n)
	}
	if state == "refused" {
		nt.Refuse(true)
	}
	args := []string{"-server", nt.Addr(), fmt.Sprintf("-flush-on-discover=%v", r.IntN(2) == 0), fmt.Sprintf("-enable-heartbeats=%v", r.IntN(2) == 0)}
	port := portOf(command)
	if state == "starting" {
		if port != 0 {
			if err := tool.AwaitFree(port, 10*time.Second); err != nil {
				c.Inconclusive("%v", err)
			}
		}
		port = 0
	}
	p := launch(c, name, port, append(args, command)...)
	switch state {
	case "starting":
		time.Sleep(ms(r, 60))
	case "refused", "mute":
		time.Sleep(ms(r, 1500))
		if kind != "" && nt.Count(kind) > 0 {
			c.Count("interrupts with a mute server", 1)
			c.Seen("mute at", kind)
		}
	case "traffic", "stalled", "slow client":
		if command != "fixture" {
			awaitConns(c, name, "after start", nt, p, patience, 1+n)
		}
		for i := 0; i < n; i++ {
			addr := fmt.Sprint("mc/sfe.s", i)
			for k := r.IntN(300); k >= 0; k-- {
				nt.Publish(addr, tool.Bytes(gen.RecordMsg(addr, gen.RandRecords(r, 1+r.IntN(3)))))
			}
		}
		time.Sleep(ms(r, 100))
		if state == "stalled" {
			nt.Stall(true)
			defer nt.Stall(false)
			time.Sleep(ms(r, 500))
		}
	case "dropped":
		if command != "fixture" {
			awaitConns(c, name, "after start", nt, p, patience, 1+n)
		}
		if r.IntN(2) == 0 {
			nt.Refuse(true)
		}
		nt.Fault(pick(r, router.Drop, router.Reset, router.End, router.Detach), nil, "")
		time.Sleep(ms(r, 1500))
	}
	if state == "slow client" && port != 0 {
		conn, err := dialTool(port)
		if err == nil {
			defer conn.Close()
			fmt.Fprintf(conn, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\n12")
			time.Sleep(ms(r, 100))
		}
	}
	interrupt(c, name, p, fmt.Sprintf("(%s %s, %d sources)", state, kind, n))
	c.Case(fmt.Sprint(command, state, kind, n))
}
