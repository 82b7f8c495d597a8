package tools

import (
	"fmt"
	"math/rand/v2"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

const fixtureSettles = patience

// TestT03: captures following one another, flow replays and hostile requests.
func TestT03(t *testing.T) {
	c := mon.Start("T03", "one case is one run of the fixture command through 2-4 captures with common and different sources, the next posted while or after the earlier one is brought up, with flow replays and odd requests in between, judged by the sources that announce themselves, listen and are connected after each, by the flows published, and by the process staying up; distinct by captures and requests")
	c.Assume("earlier sources may still be heard until 20 s after a capture was posted")
	n := c.N(6, 50)
	for i := 0; i < n; i++ {
		name := fmt.Sprint("run-", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runSwitch(c, name)
		}
	}
	for i := 0; i < c.N(1, 4); i++ {
		name := fmt.Sprint("slow-reader-", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runSlowReader(c, name)
		}
	}
	c.Finish(map[string]int64{"captures": 10, "switches": 4, "sources dropped": 3, "flow replays": 4, "flows followed": 40, "odd requests": 45, "messages heard": 200, "odd pairs": 6, "empty captures after others": 1, "replays of many flows": 1})
}

type pair struct {
	server, client collected // captured
}

// flowWorld adds pairs of flows, and flows whose counterpart is odd.
func flowWorld(r *rand.Rand, prefix string, refs []sourceRef) (out []collected, pairs []pair, odd int) {
	flow := func(id, parent string) gen.Abs {
		a := gen.Rand(r, typeOf("FlowRecord"), id, 0.5)
		delete(a.Attrs, 5)
		a.Attrs[2] = parent
		return a
	}
	for k := 0; k < r.IntN(4); k++ {
		p := pair{
			server: collected{pick(r, refs...), flow(fmt.Sprintf("%sflow%d-s", prefix, k), fmt.Sprintf("%sparent%d-s", prefix, k))},
			client: collected{pick(r, refs...), flow(fmt.Sprintf("%sflow%d-c", prefix, k), fmt.Sprintf("%sparent%d-c", prefix, k))},
		}
		p.server.rec.Attrs[5] = p.client.rec.ID
		if r.IntN(3) == 0 {
			p.client.rec.Attrs[5] = "" // not a counterpart
		}
		out = append(out, p.server, p.client)
		pairs = append(pairs, p)
	}
	for k := 0; k < 1+r.IntN(3); k++ {
		a := flow(fmt.Sprintf("%sodd%d", prefix, k), "odd")
		a.Attrs[5] = pick(r, "nowhere", "", prefix+"no-flow", " ")
		out = append(out, collected{pick(r, refs...), a})
		odd++
	}
	return out, pairs, odd
}

func runSwitch(c *mon.Check, name string) {
	r := c.Rand(name)
	col := &tool.Collector{}
	nt := tool.NewNet(router.Config{Quiet: true, OnTransfer: col.Hear}, nil)
	defer nt.Close()
	args := []string{"-server", nt.Addr()}
	if r.IntN(2) == 0 {
		args = append(args, "-debug")
	}
	p := launch(c, name, tool.FixturePort, append(args, "fixture")...)
	odd(c, name, p, r, 6)
	var world []collected
	var refs []sourceRef
	var pairs []pair
	replayed := 0
	var sig []string
	captures := 2 + r.IntN(3)
	many := true              // the first replay is
	nothing := r.IntN(2) == 0 // the last one is empty
	for k := 0; k < captures; k++ {
		old := refs
		var kept []sourceRef
		var pool []collected
		for _, s := range old { // some sources stay, with other records
			if r.IntN(3) == 0 {
				kept = append(kept, s)
			}
		}
		prefix := fmt.Sprintf("%s-%d-", name, k)
		sources := pick(r, 0, 1, 1, 2, 2, 2)
		if k > 0 && r.IntN(3) == 0 { // the very same sources
			sources, kept = 0, append([]sourceRef(nil), old...)
			c.Count("captures of the same sources", 1)
		}
		if k == captures-1 && nothing {
			sources, kept = 0, nil
			c.Count("empty captures after others", 1)
		}
		world, refs = randWorld(r, prefix, sources, 8, func(t string) bool { return t == "FlowRecord" })
		for i, s := range kept {
			pool = append(pool, collected{s, gen.Rand(r, typeOf("SiteRecord"), fmt.Sprint(prefix, "kept", i), 0.5)})
			refs = append(refs, s)
		}
		world = append(world, pool...)
		pairs = nil
		nOdd := 0
		if len(refs) > 0 {
			var fw []collected
			fw, pairs, nOdd = flowWorld(r, prefix, refs)
			world = append(world, fw...)
			c.Count("odd pairs", nOdd)
		}
		var ps []post
		for _, x := range world {
			ps = append(ps, postOf(x))
		}
		if len(refs) > 0 && r.IntN(2) == 0 {
			ps = append(ps, junk(r, refs))
		}
		shuffle(r, ps)
		if status, rr := postCapture(c, name, p, encodeCapture(ps)); status != 200 || rr.Error != "" {
			c.Violate(name, "a capture is answered with status %d and error %q", status, rr.Error)
		}
		c.Count("captures", 1)
		sig = append(sig, fmt.Sprint(len(refs), "+", len(kept), " ", len(world), " ", len(pairs), " ", nOdd))
		wait := k == captures-1 || r.IntN(3) > 0
		if !wait { // the next one comes while this one is brought up
			time.Sleep(ms(r, 700))
			if r.IntN(2) == 0 {
				odd(c, name, p, r, 3)
			}
			continue
		}
		when := fmt.Sprintf("after capture %d of sources %v (before: %v)", k, refs, old)
		awaitRunning(c, name, p, patience)
		now := map[string]bool{}
		for _, s := range refs {
			now[s.Name] = true
		}
		var state string
		// a connection each and one of the fixture's own
		if !nt.Await(fixtureSettles, func(v router.View) bool {
			state = fmt.Sprintf("%d connections", len(v.Conns()))
			ok := len(v.Conns()) == 1+len(now)
			for _, l := range v.Links() {
				if strings.HasPrefix(l.Addr, "sfe.") && !now[l.Addr[4:]] || strings.HasPrefix(l.Addr, "mc/sfe.") && l.Addr != "mc/sfe.all" && !now[strings.TrimSuffix(l.Addr[7:], ".heartbeats")] {
					ok = false
					state += fmt.Sprintf(", a link of %q", l.Addr)
				}
			}
			return ok
		}) {
			crashed(c, name, p)
			c.Violate(name, "%s: %s, want %d connections and links of these sources only, %s later", when, state, 1+len(now), fixtureSettles)
		}
		from := col.Len()
		flushAll(c, name, when, nt, col, p, world)
		if r.IntN(2) == 0 {
			odd(c, name, p, r, 8)
		}
		if len(refs) > 0 {
			replayed += replay(c, name, r, col, p, pairs, many && len(pairs) > 0)
			many = many && len(pairs) == 0
		}
		if k > 0 {
			time.Sleep(2500 * time.Millisecond) // heartbeats are every 2 s
			c.Count("switches", 1)
		}
		for _, s := range col.Since(from) {
			c.Count("messages heard", 1)
			id := s.ID
			if s.Subject == "RECORD" {
				id = strings.TrimPrefix(s.Addr, "mc/sfe.")
			}
			if s.Subject != "FLUSH" && !now[id] {
				c.Violate(name, "%s: source %q is still heard: %s to %s", when, id, s.Subject, s.Addr)
			}
		}
		for _, s := range old {
			if !now[s.Name] {
				c.Count("sources dropped", 1)
			}
		}
		if len(refs) > 0 {
			beaconsAre(c, name, when, col, 0, p, append(refs, all(col, now)...))
		}
		c.Count("connections judged", 1+len(now))
	}
	finish(c, name, p)
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "captures": sig})
	}
	c.Case(fmt.Sprint(sig, replayed))
}

// all are the sources heard from before that are not in now.
func all(col *tool.Collector, now map[string]bool) []sourceRef {
	var out []sourceRef
	for id, bs := range col.Beacons(0) {
		if now[id] {
			continue
		}
		for b := range bs {
			var v, rest string
			fmt.Sscanf(b, "v=%s", &v)
			_, rest, _ = strings.Cut(b, " type=")
			typ, _, _ := strings.Cut(rest, " address=")
			out = append(out, sourceRef{v, typ, id})
		}
	}
	return out
}

// flowsView is a response about flows.
type flowsView struct {
	FlowPairs []struct{ Server, Client entry } `json:"flowPairs"`
	Resent    int                              `json:"fixtureFlowsResent"`
}

func getFlows(c *mon.Check, name string, p *tool.Proc) flowsView {
	rep, err := tool.HTTP(patience, "GET", tool.FixturePort, "/flows", "")
	if err != nil {
		crashed(c, name, p)
		c.Violate(name, "no response to a request for flows: %v\n%s", err, p.Tail())
	}
	var v flowsView
	if err := unmarshal(rep.Body, &v); err != nil || rep.Status != 200 {
		c.Violate(name, "a request for flows is answered with status %d and %.300q", rep.Status, rep.Body)
	}
	return v
}

// replay has flows replayed and follows them. Returns how many.
func replay(c *mon.Check, name string, r *rand.Rand, col *tool.Collector, p *tool.Proc, pairs []pair, many bool) int {
	before := getFlows(c, name, p).Resent
	total := 0
	for k := 0; k < 1+r.IntN(2); k++ {
		from := col.Len()
		n := pick(r, 0, 1, 3, 20)
		if many {
			n = 300 + r.IntN(900)
		}
		many = false
		d := r.IntN(2)
		rep, err := tool.HTTP(patience, "POST", tool.FixturePort, "/flows", fmt.Sprintf(`{"flows":%d,"duration":%d}`, n, d))
		if err != nil || rep.Status != 200 {
			crashed(c, name, p)
			c.Violate(name, "a request to replay flows is answered with status %d, %v: %.300q", rep.Status, err, rep.Body)
		}
		total += n * len(pairs)
		if n >= 300 && len(pairs) > 0 {
			c.Count("replays of many flows", 1)
		}
		c.Count("flow replays", len(pairs))
		var bad string
		if !within(patience, func() bool {
			bad = judgeFlows(col, from, pairs, n)
			return bad == ""
		}) {
			crashed(c, name, p)
			c.Violate(name, "replay of %d flows of each of %d pairs, %s later: %s\n%s", n, len(pairs), patience, bad, p.Tail())
		}
		c.Count("flows followed", 2*n*len(pairs))
	}
	if !within(patience, func() bool { return getFlows(c, name, p).Resent == before+total }) {
		c.Violate(name, "the fixture says it has replayed %d flows, after %d before and %d since", getFlows(c, name, p).Resent, before, total)
	}
	return total
}

// judgeFlows checks what was published for a replay of n flows of each pair.
func judgeFlows(col *tool.Collector, from int, pairs []pair, n int) string {
	seen := map[string]bool{}
	// everything before is not fresh
	for _, s := range col.Since(0)[:from] {
		for _, a := range s.Recs {
			seen[a.Type+"/"+a.ID] = true
		}
	}
	type fl struct {
		addr string
		a    gen.Abs
	}
	flows := map[string]*fl{}
	var order []string
	for _, s := range col.Since(from) {
		for _, a := range s.Recs {
			if a.Type != "FlowRecord" {
				continue
			}
			f := flows[a.ID]
			if f == nil {
				f = &fl{addr: s.Addr, a: a.Clone()}
				flows[a.ID] = f
				order = append(order, a.ID)
				continue
			}
			if f.addr != s.Addr {
				return fmt.Sprintf("flow %q is reported by %s and by %s", a.ID, f.addr, s.Addr)
			}
			f.a = f.a.Merge(a)
		}
	}
	count := map[string]int{}
	for _, id := range order {
		f := flows[id]
		if seen["FlowRecord/"+id] {
			return fmt.Sprintf("flow %q is not fresh", id)
		}
		var of *pair
		var side collected
		for i := range pairs {
			switch f.a.Attrs[2] {
			case pairs[i].server.rec.Attrs[2]:
				of, side = &pairs[i], pairs[i].server
			case pairs[i].client.rec.Attrs[2]:
				of, side = &pairs[i], pairs[i].client
			}
		}
		if of == nil {
			return fmt.Sprintf("a flow of no captured pair: %s", f.a)
		}
		if f.addr != "mc/sfe."+side.src.Name {
			return fmt.Sprintf("flow %s is reported to %s, but was captured from %v", f.a, f.addr, side.src)
		}
		if _, ok := f.a.Attrs[3]; !ok {
			return fmt.Sprintf("flow without start: %s", f.a)
		}
		if _, ok := f.a.Attrs[4]; !ok {
			return fmt.Sprintf("flow without end: %s", f.a)
		}
		if f.a.Attrs[3].(uint64) > f.a.Attrs[4].(uint64) {
			return fmt.Sprintf("flow ends before it starts: %s", f.a)
		}
		for _, code := range []uint32{14, 17} { // as captured
			if f.a.Attrs[code] != side.rec.Attrs[code] {
				return fmt.Sprintf("flow is not as captured: %s, captured: %s", f.a, side.rec)
			}
		}
		count[f.a.Attrs[2].(string)]++
		if side.rec.ID == of.server.rec.ID {
			cf, _ := f.a.Attrs[5].(string)
			g := flows[cf]
			if g == nil {
				return fmt.Sprintf("the counterpart of flow %s is not published", f.a)
			}
			if g.a.Attrs[2] != of.client.rec.Attrs[2] {
				return fmt.Sprintf("flow %s is paired with %s, captured: %s and %s", f.a, g.a, of.server.rec, of.client.rec)
			}
			count["paired "+cf]++
			if count["paired "+cf] > 1 {
				return fmt.Sprintf("flow %s is the counterpart of several", g.a)
			}
		}
	}
	for i := range pairs {
		for _, x := range []collected{pairs[i].server, pairs[i].client} {
			if got := count[x.rec.Attrs[2].(string)]; got != n {
				return fmt.Sprintf("%d flows like %s are published, want %d", got, x.rec, n)
			}
		}
	}
	return ""
}

// odd sends requests that must not bring the fixture down.
func odd(c *mon.Check, name string, p *tool.Proc, r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		method, path, body := pick(r, "POST", "POST", "GET", "PUT", "DELETE", "HEAD", "PATCH"), pick(r, "/flows", "/flows", "/flows", "/", "/x", "/flows/", "/flows?x=1"), ""
		if method == "POST" && strings.HasPrefix(path, "/flows") && path != "/flows/" {
			body = pick(r, "", "{", "5", "[]", `{"flows":-1,"duration":0}`, `{"flows":-5,"duration":-7}`, `{"flows":4611686018427387904,"duration":0}`, `{"flows":"x"}`, `{"flows":0,"duration":1}`, `{"flows":0,"duration":-1}`, `null`, `{}`, `{"flows":1.5}`, `{"flows":0,"duration":9223372036854775807}`)
		} else if method == "POST" {
			body = pick(r, malformed...)
		}
		rep, err := tool.HTTP(patience, method, tool.FixturePort, path, body)
		time.Sleep(2 * time.Millisecond)
		if err != nil || !p.Alive() || p.Crash() != "" {
			time.Sleep(300 * time.Millisecond)
			crashed(c, name, p)
			c.Violate(name, "%s %s %q: no response (%v)\n%s", method, path, body, err, p.Tail())
		}
		c.Count("odd requests", 1)
		c.Seen("odd kinds", fmt.Sprint(method, path, body, rep.Status))
	}
}

// runSlowReader has a client that asks for much and reads nothing.
func runSlowReader(c *mon.Check, name string) {
	r := c.Rand(name)
	col := &tool.Collector{}
	nt := tool.NewNet(router.Config{Quiet: true, OnTransfer: col.Hear}, nil)
	defer nt.Close()
	p := launch(c, name, tool.FixturePort, "-server", nt.Addr(), "fixture")
	src := sourceRef{"1", "ROUTER", name}
	var ps []post
	for k := 0; k < 4000; k++ {
		s := gen.Abs{Type: "FlowRecord", ID: fmt.Sprint("s", k), Attrs: map[uint32]any{5: fmt.Sprint("c", k), 31: strings.Repeat("x", 1000)}}
		x := gen.Abs{Type: "FlowRecord", ID: fmt.Sprint("c", k), Attrs: map[uint32]any{31: strings.Repeat("y", 1000)}}
		ps = append(ps, postOf(collected{src, s}), postOf(collected{src, x}))
	}
	postCapture(c, name, p, encodeCapture(ps))
	awaitRunning(c, name, p, patience)
	var conns []net.Conn
	for i := 0; i < 3; i++ {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", tool.FixturePort))
		if err != nil {
			c.Inconclusive("%v", err)
		}
		defer conn.Close()
		conn.(*net.TCPConn).SetReadBuffer(1024)
		fmt.Fprintf(conn, "GET /flows HTTP/1.1\r\nHost: x\r\n\r\n")
		conns = append(conns, conn)
		b := make([]byte, 1)
		conn.SetReadDeadline(time.Now().Add(2 * time.Second))
		conn.Read(b)
	}
	if v := getFlows(c, name, p); len(v.FlowPairs) != 4000 {
		c.Violate(name, "%d flow pairs are shown, captured 4000", len(v.FlowPairs))
	}
	world, refs := randWorld(r, name+"-n", 1, 5, nil)
	var ps2 []post
	for _, x := range world {
		ps2 = append(ps2, postOf(x))
	}
	if status, rr := postCapture(c, name, p, encodeCapture(ps2)); status != 200 {
		c.Violate(name, "a capture is answered with status %d, %v while others do not read", status, rr)
	}
	awaitRunning(c, name, p, patience)
	flushAll(c, name, "with clients that do not read", nt, col, p, world)
	c.Count("captures", 2)
	c.Case(fmt.Sprint(name, refs, len(world)))
	for _, conn := range conns {
		conn.Close()
	}
	finish(c, name, p)
}
