package events

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
)

// hlog is what one handler was given.
type hlog struct {
	mu   sync.Mutex
	kind string
	from int // messages numbered above this were sent after registration
	keys map[string][]string
	busy map[string]bool
}

func (h *hlog) add(key string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	a := addrOf(key)
	h.keys[a] = append(h.keys[a], key)
}

// TestC01: what every handler sees against what was sent.
func TestC01(t *testing.T) {
	c := mon.Start("C01", "one case is one generated run: 1-2 clients listening to 1-5 addresses of their source each, 0-26 handlers registered before or during 20-600 well-formed and malformed messages arriving from concurrent producers, with failing and slow receives and accepts and slow handlers; distinct by the drawn configuration")
	c.Assume("an injected accept failure leaves it open whether that message is handled, but never twice and never out of order")
	for i := 0; i < c.N(450, 6000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runC01(c, name) })
	}
	c.Finish(map[string]int64{"handler calls": 20000, "late handlers": 100, "malformed messages": 10000, "failed accepts": 500, "failed receives": 500, "runs beyond credit": 100})
}

func runC01(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	faults := r.IntN(3) > 0
	maxDelay := pick(r, 0, 100*time.Microsecond, 20*time.Millisecond)
	var fmu sync.Mutex
	fr := c.Rand(name, "faults")
	fdraw := func(n int) int { fmu.Lock(); defer fmu.Unlock(); return fr.IntN(n) }
	if faults {
		net.OnNext = func(string, int) memnet.Act {
			switch fdraw(20) {
			case 0:
				return memnet.Act{Err: failure(fdraw(6))}
			case 1:
				return memnet.Act{Delay: time.Duration(fdraw(5000)) * time.Microsecond}
			}
			return memnet.Act{}
		}
		net.OnAccept = func(string, int, int) memnet.Act {
			switch fdraw(20) {
			case 0:
				return memnet.Act{Err: failure(fdraw(6))}
			case 1:
				return memnet.Act{Delay: time.Duration(fdraw(5000)) * time.Microsecond}
			}
			return memnet.Act{}
		}
	}
	net.ForeignAccept = func(addr string, link int) {
		c.Violate(name, "a message was accepted on %s (link %d) that this receiver did not deliver, or twice", addr, link)
	}
	container := net.Container()
	type cl struct {
		src      eventsource.Info
		client   *eventsource.Client
		listens  map[string]bool
		handlers []*hlog
	}
	var clients []*cl
	var all []string
	mark := func() int { return net.Inject("nobody", randTraffic(r, "x", 0).m) }
	register := func(k *cl, kind string) {
		h := &hlog{kind: kind, keys: map[string][]string{}, busy: map[string]bool{}}
		slow := time.Duration(0)
		if r.IntN(4) == 0 {
			slow = dur(r, 3*time.Millisecond)
		}
		on := func(key string) {
			a := addrOf(key)
			h.mu.Lock()
			if h.busy[a] {
				c.Violate(name, "a handler was called for %s while it was still handling another message of the same address", key)
			}
			h.busy[a] = true
			h.mu.Unlock()
			if slow > 0 {
				time.Sleep(slow)
			}
			h.add(key)
			h.mu.Lock()
			h.busy[a] = false
			h.mu.Unlock()
			c.Count("handler calls", 1)
		}
		if kind == "R" {
			k.client.OnRecord(func(m vanflow.RecordMessage) { on(recKey(m)) })
		} else {
			k.client.OnHeartbeat(func(m vanflow.HeartbeatMessage) { on(hbKey(m)) })
		}
		h.from = mark()
		k.handlers = append(k.handlers, h)
	}
	nClients := 1 + r.IntN(2)
	sig := fmt.Sprint(faults, maxDelay)
	for i := 0; i < nClients; i++ {
		src := source(fmt.Sprintf("s%d", i))
		if i == 1 && r.IntN(2) == 0 {
			src = source("s0") // two clients of one source
		}
		k := &cl{src: src, client: eventsource.NewClient(container, eventsource.ClientOptions{Source: src}), listens: map[string]bool{}}
		clients = append(clients, k)
		many := 4
		if r.IntN(6) == 0 {
			many = 24
		}
		for n := r.IntN(many); n > 0; n-- {
			register(k, pick(r, "R", "H"))
		}
		ps := providers(src)
		for _, a := range sortedAddrs(src) {
			if r.IntN(2) == 0 || a == src.Address {
				before := net.Receivers(a)
				if err := k.client.Listen(bg, ps[a]); err != nil {
					c.Violate(name, "Listen to %s: %v", a, err)
				}
				synctest.Wait()
				if got := net.Receivers(a); got != before+1 {
					c.Violate(name, "after Listen with the provider for %s there are %d receivers on it, there were %d; open: %v", a, got, before, net.Open())
				}
				k.listens[a] = true
			}
		}
		sig += fmt.Sprint("|", k.src.ID, len(k.handlers), k.listens)
		for _, a := range sortedAddrs(src) {
			all = append(all, a)
		}
	}
	// traffic on all addresses, the ones nobody listens to included
	var mu sync.Mutex
	var sent []traffic
	total := 20 + r.IntN(80)
	if r.IntN(5) == 0 {
		total = 300 + r.IntN(300)
		c.Count("runs beyond credit", 1)
	}
	if r.IntN(4) == 0 {
		c.Count("runs beyond credit", 1)
	}
	hot := pick(r, all...)
	var wg sync.WaitGroup
	n := 0
	for p := 1 + r.IntN(3); p > 0; p-- {
		var mine []traffic
		for i := 0; i < total; i++ {
			n++
			a := hot
			if r.IntN(3) > 0 {
				a = pick(r, all...)
			}
			mine = append(mine, randTraffic(r, a, n))
		}
		pr := c.Rand(name, "producer", p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, tr := range mine {
				time.Sleep(dur(pr, maxDelay))
				mu.Lock()
				tr.id = net.Inject(tr.addr, tr.m)
				sent = append(sent, tr)
				mu.Unlock()
				if tr.kind == "" {
					c.Count("malformed messages", 1)
				}
			}
		}()
	}
	for i := r.IntN(4); i > 0; i-- {
		time.Sleep(dur(r, maxDelay*time.Duration(total)))
		register(clients[r.IntN(nClients)], pick(r, "R", "H"))
		c.Count("late handlers", 1)
	}
	wg.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()

	// links of each client by address
	failed := map[int]map[int]bool{} // link -> message -> accept failed
	settled := map[int]map[int]bool{}
	links := map[string][]int{}
	for _, e := range net.Log() {
		switch e.Kind {
		case memnet.OpenRecv:
			links[e.Addr] = append(links[e.Addr], e.Link)
			failed[e.Link], settled[e.Link] = map[int]bool{}, map[int]bool{}
		case memnet.AccFail:
			failed[e.Link][e.Msg] = true
			settled[e.Link][e.Msg] = true
			c.Count("failed accepts", 1)
		case memnet.Accepted:
			settled[e.Link][e.Msg] = true
		case memnet.NextFail:
			c.Count("failed receives", 1)
		}
	}
	used := map[string]int{}
	for ci, k := range clients {
		for _, a := range sortedAddrs(k.src) {
			var link int
			if k.listens[a] {
				link = links[a][used[a]]
				used[a]++
				for _, tr := range sent {
					if tr.addr == a && tr.kind != "" && !settled[link][tr.id] {
						c.Violate(name, "client %d: %s was not accepted on %s", ci, tr.key, a)
					}
				}
			}
			for hi, h := range k.handlers {
				var want []traffic
				if k.listens[a] {
					for _, tr := range sent {
						if tr.addr == a && tr.kind == h.kind {
							want = append(want, tr)
						}
					}
				}
				if bad := matchSuffix(h.keys[a], want, h.from, failed[link]); bad != "" {
					c.Violate(name, "client %d (listening to %v), %s handler %d, address %s: %s", ci, k.listens, h.kind, hi, a, bad)
				}
			}
		}
		for hi, h := range k.handlers {
			for a := range h.keys {
				if !k.listens[a] {
					c.Violate(name, "client %d, handler %d was called with a message of %s, which the client does not listen to: %v", ci, hi, a, h.keys[a])
				}
			}
		}
		k.client.Close()
	}
	c.Case(sig)
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "messages": len(sent), "config": sig})
	}
}

// matchSuffix checks that got is the sent messages in order from some point
// on, no later than the first one numbered above from. Messages whose accept
// failed may be missing.
func matchSuffix(got []string, want []traffic, from int, optional map[int]bool) string {
	start := 0
	if len(got) > 0 {
		start = -1
		for i, w := range want {
			if w.key == got[0] {
				start = i
				break
			}
		}
		if start < 0 {
			return fmt.Sprintf("called with %q, which was not sent there", got[0])
		}
	} else {
		start = len(want)
	}
	for i := 0; i < start; i++ {
		if want[i].id > from && !optional[want[i].id] {
			return fmt.Sprintf("%q was not handled (sent after registration; first handled message is number %d of %d)", want[i].key, start, len(want))
		}
	}
	j := start
	for i, g := range got {
		for j < len(want) && want[j].key != g && optional[want[j].id] {
			j++
		}
		if j == len(want) {
			return fmt.Sprintf("call %d with %q after the last message sent", i, g)
		}
		if want[j].key != g {
			return fmt.Sprintf("call %d is %q, expected %q", i, g, want[j].key)
		}
		j++
	}
	for ; j < len(want); j++ {
		if !optional[want[j].id] {
			return fmt.Sprintf("%q was not handled (handled %d before it)", want[j].key, len(got))
		}
	}
	return ""
}

// TestC02: closing and cancelling against everything else.
func TestC02(t *testing.T) {
	c := mon.Start("C02", "one case is one generated run: a client with 0-5 listeners under traffic, handlers that are slow or register further handlers, accepts and receiver closings that block until their context is done, some listeners cancelled on their own, then Close called 1-4 times from 1-3 goroutines and Listen called around it; distinct by the drawn configuration")
	for i := 0; i < c.N(1500, 40000); i++ {
		name := fmt.Sprintf("run-%d", i)
		bubble(t, c, name, func() { runC02(c, name) })
	}
	c.Finish(map[string]int64{"handler calls": 2000, "closes": 3000, "closes with a handler running": 100, "cancelled listeners": 500, "late listens": 300, "closes right after listening": 60, "addresses listened to again": 150})
}

func runC02(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	slow := pick(r, 0, 0, time.Millisecond, 50*time.Millisecond)
	mode := r.IntN(4)
	slowClose := pick(r, 0, 0, time.Microsecond, 5*time.Millisecond)
	net.OnAccept = func(_ string, link, msg int) memnet.Act {
		if mode == 1 && (link+msg)%5 == 0 {
			return memnet.Act{Block: true}
		}
		if mode == 2 {
			return memnet.Act{Delay: 700 * time.Microsecond}
		}
		return memnet.Act{}
	}
	net.OnClose = func(_ string, link int, _ bool) memnet.Act {
		switch (link + mode) % 3 {
		case 0:
			return memnet.Act{Block: true} // a peer that does not answer
		case 1:
			return memnet.Act{Delay: 10 * time.Millisecond}
		}
		return memnet.Act{Slow: slowClose}
	}
	src := source("s")
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
	var mu sync.Mutex
	running, closedReturned, mark := 0, false, -1
	calls := map[string]int{}
	reenter := r.IntN(2) == 0
	enter := func(key string) {
		mu.Lock()
		if closedReturned {
			c.Violate(name, "a handler was called with %s after Close had returned", key)
		}
		running++
		calls[addrOf(key)]++
		mu.Unlock()
		c.Count("handler calls", 1)
		if slow > 0 {
			time.Sleep(slow)
		}
		if reenter {
			client.OnRecord(func(vanflow.RecordMessage) {})
		}
		if slow > 0 {
			time.Sleep(slow)
		}
		mu.Lock()
		running--
		if closedReturned {
			c.Violate(name, "a handler was still running (%s) when Close returned", key)
		}
		mu.Unlock()
	}
	client.OnRecord(func(m vanflow.RecordMessage) { enter(recKey(m)) })
	client.OnHeartbeat(func(m vanflow.HeartbeatMessage) { enter(hbKey(m)) })

	ps := providers(src)
	cancels := map[string]context.CancelFunc{}
	var addrs []string
	for _, a := range sortedAddrs(src) {
		if r.IntN(3) == 0 {
			continue
		}
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		cancels[a] = cancel
		addrs = append(addrs, a)
		if err := client.Listen(ctx, ps[a]); err != nil {
			c.Violate(name, "Listen: %v", err)
		}
		if r.IntN(2) == 0 {
			synctest.Wait()
		}
	}
	synctest.Wait()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	gap := pick(r, 50*time.Microsecond, time.Millisecond, 20*time.Millisecond)
	wg.Add(1)
	pr := c.Rand(name, "producer")
	go func() {
		defer wg.Done()
		for n := 0; n < 200; n++ {
			for _, a := range sortedAddrs(src) {
				if pr.IntN(2) == 0 {
					net.Inject(a, randTraffic(pr, a, n).m)
				}
			}
			select {
			case <-stop:
				return
			case <-time.After(dur(pr, gap) + time.Microsecond):
			}
		}
	}()
	// listeners cancelled on their own
	alive := append([]string(nil), addrs...)
	for len(alive) > 0 && r.IntN(3) == 0 {
		time.Sleep(dur(r, 3*gap))
		a := alive[0]
		alive = alive[1:]
		c.Count("cancelled listeners", 1)
		cancels[a]()
		time.Sleep(2*slow + time.Second)
		synctest.Wait()
		if net.Receivers(a) != 0 {
			c.Violate(name, "the receiver on %s is still open a second after its listener was cancelled", a)
		}
		for _, b := range alive {
			if net.Receivers(b) != 1 {
				c.Violate(name, "cancelling the listener of %s closed the one of %s", a, b)
			}
		}
		mu.Lock()
		before := calls[a]
		was := map[string]int{}
		for _, b := range alive {
			was[b] = calls[b]
		}
		mu.Unlock()
		if mode != 1 { // where accepts block, others may be stuck legitimately
			for i := 0; i < 3; i++ {
				for _, b := range append([]string{a}, alive...) {
					net.Inject(b, wellFormed(r, b, 1000+i))
				}
			}
			time.Sleep(time.Second * 30)
			mu.Lock()
			if calls[a] != before {
				c.Violate(name, "messages of %s are still handled after its listener was cancelled", a)
			}
			for _, b := range alive {
				if calls[b] < was[b]+3 {
					c.Violate(name, "messages of %s are not handled any more since the listener of %s was cancelled", b, a)
				}
			}
			mu.Unlock()
		}
		if r.IntN(2) == 0 { // the client goes on, and may listen there again
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			cancels[a] = cancel
			if err := client.Listen(ctx, ps[a]); err != nil {
				c.Violate(name, "Listen on %s after the listener there was cancelled, the client still open: %v", a, err)
			}
			synctest.Wait()
			if net.Receivers(a) != 1 {
				c.Violate(name, "listening on %s again, after the listener there was cancelled, opened %d receivers", a, net.Receivers(a))
			}
			alive = append(alive, a)
			c.Count("addresses listened to again", 1)
		}
	}
	time.Sleep(dur(r, 4*gap))
	mu.Lock()
	if running > 0 {
		c.Count("closes with a handler running", 1)
	}
	mu.Unlock()
	bound := 2*slow + time.Second
	doClose := func() {
		t0 := time.Now()
		client.Close()
		c.Count("closes", 1)
		if d := time.Since(t0); d > bound {
			c.Violate(name, "Close took %s; handlers take %s", d, 2*slow)
		}
		mu.Lock()
		if running > 0 {
			c.Violate(name, "Close returned with %d handlers running", running)
		}
		if open := openReceivers(net); len(open) > 0 {
			c.Violate(name, "Close returned with these still open: %v", open)
		}
		if !closedReturned {
			closedReturned, mark = true, net.Mark()
		}
		mu.Unlock()
	}
	lateListen := func() {
		ctx, cancel := context.WithCancel(bg)
		client.Listen(ctx, ps[pick(r, sortedAddrs(src)...)])
		c.Count("late listens", 1)
		_ = cancel // deliberately not cancelled: closing the client has to do
	}
	n := 1 + r.IntN(3)
	twice := r.IntN(2) == 0
	for i := 0; i < n; i++ {
		d := dur(r, gap)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			doClose()
			if twice {
				doClose()
			}
		}()
	}
	racing := r.IntN(4) == 0
	if racing {
		time.Sleep(dur(r, gap))
		lateListen()
		if r.IntN(2) == 0 {
			doClose() // at once, before the listener got to run
			c.Count("closes right after listening", 1)
		}
	}
	time.Sleep(bound + time.Second)
	synctest.Wait()
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "still open after Close had returned: %v", open)
	}
	if r.IntN(3) == 0 {
		lateListen()
		for i := 0; i < 3; i++ {
			for _, a := range sortedAddrs(src) {
				net.Inject(a, wellFormed(r, a, 2000+i))
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(time.Second)
		if open := net.Open(); len(open) > 0 {
			c.Violate(name, "listening after Close opened a receiver for good: %v", open)
		}
	}
	for _, e := range net.Log()[mark:] {
		if e.Kind == memnet.OpenRecv || e.Kind == memnet.Took {
			c.Violate(name, "%s on %s after Close had returned", e.Kind, e.Addr)
		}
	}
	close(stop)
	wg.Wait()
	c.Case(fmt.Sprint(mode, slow, reenter, addrs, len(alive), n, twice, racing, gap))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "listeners": addrs, "left when closed": alive, "closers": n, "handler time": (2 * slow).String()})
	}
}

// openReceivers are the receivers that are open now.
func openReceivers(net *memnet.Net) []string {
	var out []string
	for _, l := range net.Open() {
		if strings.HasPrefix(l, "receiver") {
			out = append(out, l)
		}
	}
	return out
}

// TestC03: flush requests sent against flush requests asked for.
func TestC03(t *testing.T) {
	c := mon.Start("C03", "one case is one generated run of SendFlush (1-4 at once, with sends that pass, fail, block or take long and contexts that end) or FlushOnFirstMessage (with 0-8 messages from 1-3 addresses, malformed ones first, handlers before it, contexts that end before, while or after the first message arrives); distinct by the drawn configuration")
	for i := 0; i < c.N(6000, 100000); i++ {
		name := fmt.Sprintf("direct-%d", i)
		bubble(t, c, name, func() { runC03Direct(c, name) })
		name = fmt.Sprintf("first-%d", i)
		bubble(t, c, name, func() { runC03First(c, name) })
	}
	c.Finish(map[string]int64{"flushes sent": 4000, "failed sends": 1000, "ended before a message": 500, "flushes on first message": 1100})
}

func runC03Direct(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	n := 1 + r.IntN(4)
	easy := r.IntN(4) == 0 // nothing fails
	if easy && r.IntN(20) == 0 {
		n = 300
	}
	acts := make([]memnet.Act, n)
	for i := range acts {
		switch x := r.IntN(4); {
		case easy:
		case x == 0:
			acts[i].Err = failure(r.IntN(6))
		case x == 1:
			acts[i].Block = true
		case x == 2:
			acts[i].Delay = dur(r, time.Second)
		}
	}
	var mu sync.Mutex
	next := 0
	got := map[int]memnet.Act{}
	net.OnSend = func(_ string, link int, _ *amqpMessage) memnet.Act {
		mu.Lock()
		defer mu.Unlock()
		a := acts[next%n]
		next++
		got[link] = a
		return a
	}
	net.OnClose = func(string, int, bool) memnet.Act { return memnet.Act{Delay: 5 * time.Millisecond} }
	src := source(fmt.Sprintf("s%d", r.IntN(100)))
	if r.IntN(5) == 0 {
		src.Direct = src.Address // unusual but allowed
	}
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
	results := make([]error, n)
	var wg sync.WaitGroup
	// it does not matter whether the client listens, or still does
	use := pick(r, "", "", "listens", "closed", "closes")
	if use == "listens" || use == "closes" {
		client.Listen(bg, eventsource.FromSourceAddress())
	}
	if use == "closed" {
		client.Close()
	}
	for i := 0; i < n; i++ {
		ctx, cancel := context.WithTimeout(bg, dur(r, 2*time.Second))
		if easy {
			ctx = bg
		}
		defer cancel()
		d := dur(r, 100*time.Millisecond)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(d)
			results[i] = client.SendFlush(ctx)
		}()
	}
	if use == "closes" {
		time.Sleep(dur(r, 100*time.Millisecond))
		client.Close()
	}
	wg.Wait()
	time.Sleep(time.Second)
	ok := 0
	for _, err := range results {
		if err == nil {
			ok++
		} else if easy {
			c.Violate(name, "SendFlush failed though nothing stood in its way (client %q): %v", use, err)
		} else {
			c.Count("failed sends", 1)
		}
	}
	sent := 0
	for _, e := range net.Log() {
		if e.Kind != memnet.Sent {
			continue
		}
		sent++
		checkFlush(c, name, src, e)
	}
	if sent != ok {
		c.Violate(name, "%d flush requests reached the network, %d calls of SendFlush succeeded (results %v)", sent, ok, results)
	}
	client.Close()
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "not released after SendFlush: %v", open)
	}
	c.Count("flushes sent", sent)
	c.Case(fmt.Sprint(use, acts, results))
}

func checkFlush(c *mon.Check, name string, src eventsource.Info, e memnet.Event) {
	if e.Addr != src.Direct || subject(e.M) != "FLUSH" {
		c.Violate(name, "sent %s to %s, expected a FLUSH to the direct address %s", showMsg(e.M), e.Addr, src.Direct)
	}
	if e.M.Properties.To == nil || *e.M.Properties.To != src.Direct {
		c.Violate(name, "the flush request is not addressed to %s: %s", src.Direct, showMsg(e.M))
	}
}

func runC03First(c *mon.Check, name string) {
	r := c.Rand(name)
	net := newNet(c, name)
	src := source("s")
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
	var act memnet.Act
	switch r.IntN(5) {
	case 0:
		act.Err = errInjected
	case 1:
		act.Block = true
	case 2:
		act.Delay = dur(r, 50*time.Millisecond)
	}
	net.OnSend = func(string, int, *amqpMessage) memnet.Act { return act }
	// a handler registered before sees each message first
	slow := dur(r, 5*time.Millisecond)
	type span struct{ start, end time.Time }
	var mu sync.Mutex
	var spans []span
	before := func() {
		s := span{start: time.Now()}
		if slow > 0 {
			time.Sleep(slow)
		}
		s.end = time.Now()
		mu.Lock()
		spans = append(spans, s)
		mu.Unlock()
	}
	client.OnRecord(func(vanflow.RecordMessage) { before() })
	client.OnHeartbeat(func(vanflow.HeartbeatMessage) { before() })
	if r.IntN(3) == 0 { // many others listen
		for i := r.IntN(12); i > 0; i-- {
			client.OnRecord(func(vanflow.RecordMessage) {})
			client.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
		}
	}
	ps := providers(src)
	addrs := sortedAddrs(src)[:1+r.IntN(3)]
	for _, a := range addrs {
		client.Listen(bg, ps[a])
	}
	synctest.Wait()
	// messages that came before the call do not count
	for i := r.IntN(3); i > 0; i-- {
		net.Inject(addrs[0], wellFormed(r, addrs[0], i))
	}
	time.Sleep(time.Second)
	mu.Lock()
	spans = nil
	mu.Unlock()
	start := time.Now()
	limit := time.Duration(1+r.IntN(40)) * time.Millisecond
	ctx, cancel := context.WithCancel(bg)
	if r.IntN(2) == 0 {
		time.AfterFunc(limit, cancel)
	} else {
		ctx, cancel = context.WithTimeout(bg, limit)
	}
	defer cancel()
	type res struct {
		err error
		at  time.Time
	}
	results := make(chan res, 2)
	calls := 1
	for i := 0; i < calls; i++ {
		go func() {
			err := eventsource.FlushOnFirstMessage(ctx, client)
			results <- res{err, time.Now()}
		}()
	}
	synctest.Wait()
	nMsgs := r.IntN(9)
	window := pick(r, 2*time.Millisecond, limit, 2*limit)
	var times []time.Duration
	var wg sync.WaitGroup
	var arrivals []time.Time
	for i := 0; i < nMsgs; i++ {
		at := dur(r, window)
		if r.IntN(8) == 0 {
			at = limit // at the very instant the context ends
		}
		tr := randTraffic(r, addrs[i%len(addrs)], i)
		times = append(times, at)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(at)
			net.Inject(tr.addr, tr.m)
			if tr.kind != "" {
				mu.Lock()
				arrivals = append(arrivals, time.Now())
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Minute)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	var firstEnd time.Time
	for _, s := range spans {
		if firstEnd.IsZero() || s.end.Before(firstEnd) {
			firstEnd = s.end
		}
	}
	var out res
	select {
	case out = <-results:
	default:
		c.Violate(name, "FlushOnFirstMessage has not returned a minute after its context ended")
	}
	sent, tried := 0, 0
	for _, e := range net.Log() {
		switch e.Kind {
		case memnet.SendCall:
			tried++
			if firstEnd.IsZero() || e.T.Before(firstEnd) {
				c.Violate(name, "a flush was sent %s after the start, the first message had been handled at %s (zero: never)", e.T.Sub(start), rel(firstEnd, start))
			}
		case memnet.Sent:
			sent++
			checkFlush(c, name, src, e)
		}
	}
	what := fmt.Sprintf("messages at %v, context ends at %s, handled first at %s, send %+v, returned %v at %s", times, limit, rel(firstEnd, start), act, out.err, out.at.Sub(start))
	end := start.Add(limit)
	switch {
	case tried > 1 || sent > 1:
		c.Violate(name, "%d flushes sent, %d tried: %s", sent, tried, what)
	case out.err == nil && sent != 1:
		c.Violate(name, "FlushOnFirstMessage succeeded but %d flushes were sent: %s", sent, what)
	case out.err != nil && sent != 0:
		c.Violate(name, "FlushOnFirstMessage failed (%v) but a flush was sent: %s", out.err, what)
	case (firstEnd.IsZero() || firstEnd.After(end)) && (out.err == nil || tried > 0):
		c.Violate(name, "a flush without a message handled in time: %s", what)
	case !firstEnd.IsZero() && firstEnd.Before(end) && tried != 1:
		c.Violate(name, "the first message was handled in time but no flush was sent: %s", what)
	case out.err == nil && act.Err != nil:
		c.Violate(name, "the send failed but FlushOnFirstMessage reports success: %s", what)
	case !firstEnd.IsZero() && firstEnd.Before(end) && act.Err == nil && !act.Block && firstEnd.Add(act.Delay).Before(end) && out.err != nil:
		c.Violate(name, "a flush that could be sent was not: %s", what)
	}
	late := end
	if !firstEnd.IsZero() && firstEnd.Before(end) && !act.Block && firstEnd.Add(act.Delay).Before(end) {
		late = firstEnd.Add(act.Delay)
	}
	if out.at.After(late.Add(time.Second)) {
		c.Violate(name, "FlushOnFirstMessage returned late: %s", what)
	}
	if (firstEnd.IsZero() || firstEnd.After(end)) && out.err != nil {
		c.Count("ended before a message", 1)
		if !isErr(out.err, ctx.Err()) {
			c.Violate(name, "the context ended with %v, FlushOnFirstMessage says %v", ctx.Err(), out.err)
		}
	}
	if out.err == nil {
		c.Count("flushes on first message", 1)
	}
	client.Close()
	if open := net.Open(); len(open) > 0 {
		c.Violate(name, "not released: %v", open)
	}
	c.Case(fmt.Sprint(act, times, limit, slow, len(addrs)))
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "what": what})
	}
}

func rel(t, start time.Time) string {
	if t.IsZero() {
		return "never"
	}
	return t.Sub(start).String()
}
