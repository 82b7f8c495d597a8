package tools

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

// post is an entry of a capture as it is posted.
type post struct {
	Meta struct {
		Source      sourceRef
		UpdatedAt   time.Time
		Annotations map[string]string
	}
	TypeMeta struct{ APIVersion, Type string }
	Record   json.RawMessage `json:",omitempty"`
}

func postOf(x collected) post {
	var p post
	p.Meta.Source = x.src
	p.Meta.UpdatedAt = time.Unix(1700000000, 0)
	p.TypeMeta.APIVersion, p.TypeMeta.Type = "flow/v1", x.rec.Type
	p.Record = toJSON(x.rec)
	return p
}

func encodeCapture(ps []post) string {
	b, err := json.Marshal(map[string]any{"data": ps, "refs": []string{"/"}})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// randWorld draws sources and their records. Every record has an identity of
// its own among those of its type.
func randWorld(r *rand.Rand, prefix string, nsrc, nrec int, skip func(string) bool) (world []collected, refs []sourceRef) {
	for i := 0; i < nsrc; i++ {
		name := fmt.Sprint(strings.Replace(prefix, "run", "Run", 1), i)
		if r.IntN(5) == 0 {
			name = pick(r, "a.b.", "Ünï", "x y", "%41", "East-WEST_") + name
		}
		src := sourceRef{pick(r, "1", "1", "1", "7", "0", "300", "4294967295"), pick(r, "ROUTER", "CONTROLLER", "odd type"), name}
		refs = append(refs, src)
		for k := 0; k < 1+r.IntN(nrec); k++ {
			var t gen.Type
			for t = gen.Types[r.IntN(len(gen.Types))]; !kinds[t.Name] || skip != nil && skip(t.Name); {
				t = gen.Types[r.IntN(len(gen.Types))]
			}
			id := fmt.Sprintf("%s-%d-%d", prefix, i, k)
			if r.IntN(8) == 0 {
				id += gen.RandString(r)
			}
			a := gen.Rand(r, t, id, 0.5)
			world = append(world, collected{src, a})
			if r.IntN(4) == 0 { // the same identity in another type
				t2 := typeOf(pick(r, "SiteRecord", "LinkRecord", "ProcessRecord"))
				if t2.Name != t.Name {
					world = append(world, collected{src, gen.Rand(r, t2, id, 0.5)})
				}
			}
		}
	}
	return world, refs
}

// junk draws entries that cannot be used.
func junk(r *rand.Rand, refs []sourceRef) post {
	x := collected{src: pick(r, refs...)}
	x.rec = gen.Rand(r, typeOf("SiteRecord"), fmt.Sprint("junk", r.IntN(1000)), 0.5)
	p := postOf(x)
	switch r.IntN(7) {
	case 0:
		p.TypeMeta.Type = pick(r, "", "NopeRecord", "siterecord")
	case 1:
		p.TypeMeta.APIVersion = pick(r, "", "flow/v2")
	case 2:
		p.Record = json.RawMessage(pick(r, `"text"`, `5`, `[]`, `[{"ID":"junk"}]`, `true`))
	case 3:
		p.Record = json.RawMessage(pick(r, `{"ID":5}`, `{"ID":"junk","Name":7}`, `{"ID":"junk","StartTime":"yesterday"}`, `{"ID":"junk","StartTime":{}}`))
	case 4:
		p.Record = nil
	case 5:
		p.Record = json.RawMessage(`null`)
	case 6:
		p.Record = json.RawMessage(pick(r, `{}`, `{"Name":"no identity"}`))
	}
	return p
}

func shuffle[T any](r *rand.Rand, xs []T) {
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
}

type replaceResponse struct{ Error, Status string }

// postCapture posts and returns the response.
func postCapture(c *mon.Check, name string, p *tool.Proc, body string) (int, replaceResponse) {
	rep, err := tool.HTTP(60*time.Second, "POST", tool.FixturePort, "/", body)
	if err != nil {
		crashed(c, name, p)
		c.Violate(name, "no response to a capture: %v\n%s", err, p.Tail())
	}
	var rr replaceResponse
	if err := unmarshal(rep.Body, &rr); err != nil {
		c.Violate(name, "response to a capture is not JSON: %v: %.300q", err, rep.Body)
	}
	return rep.Status, rr
}

// awaitRunning waits until a configuration is up.
func awaitRunning(c *mon.Check, name string, p *tool.Proc, d time.Duration) {
	var last string
	if !within(d, func() bool {
		rep, err := tool.HTTP(patience, "GET", tool.FixturePort, "/", "")
		if err != nil {
			crashed(c, name, p)
			c.Violate(name, "no response to a request for the status: %v\n%s", err, p.Tail())
		}
		var rr replaceResponse
		unmarshal(rep.Body, &rr)
		last = rr.Status
		return rr.Status == "running"
	}) {
		crashed(c, name, p)
		c.Violate(name, "the fixture is not running %s after a capture was posted, but %q\n%s", d, last, p.Tail())
	}
}

// byRef groups records.
func byRef(world []collected) map[sourceRef][]collected {
	out := map[sourceRef][]collected{}
	for _, x := range world {
		out[x.src] = append(out[x.src], x)
	}
	return out
}

// flushAll asks sources for their records until they report exactly world.
func flushAll(c *mon.Check, name, when string, nt *tool.Net, col *tool.Collector, p *tool.Proc, world []collected) {
	g := map[string][]string{}
	for _, x := range world {
		g[x.src.Name] = append(g[x.src.Name], x.rec.String())
	}
	from := col.Len()
	for id := range g {
		direct := "sfe." + id
		if !nt.Await(patience, func(v router.View) bool { return v.Receivers(direct, true) == 1 }) {
			crashed(c, name, p)
			c.Violate(name, "%s: source %q does not listen for flushes once\n%s", when, id, p.Tail())
		}
		nt.Publish(direct, tool.Bytes(gen.FlushMsg(direct)))
	}
	for id, want := range g {
		var bad string
		if !within(patience, func() bool {
			_, merged := col.Records(from, "mc/sfe."+id)
			var got []string
			for _, a := range merged {
				got = append(got, a.String())
			}
			bad = diff(got, want)
			return bad == ""
		}) {
			crashed(c, name, p)
			c.Violate(name, "%s: source %q does not answer a flush with its records:\n%s", when, id, bad)
		}
		c.Count("flushes answered", 1)
	}
	for _, s := range col.Since(0) {
		if s.Bad != "" {
			c.Violate(name, "the fixture sent to %s what cannot be decoded: %s", s.Addr, s.Bad)
		}
	}
}

// beaconsAre checks that exactly these sources have announced themselves.
func beaconsAre(c *mon.Check, name, when string, col *tool.Collector, from int, p *tool.Proc, refs []sourceRef) {
	want := map[string]map[string]bool{}
	for _, s := range refs {
		if want[s.Name] == nil {
			want[s.Name] = map[string]bool{}
		}
		want[s.Name][fmt.Sprintf("v=%s type=%s address=mc/sfe.%s direct=sfe.%s", s.APIVersion, s.Type, s.Name, s.Name)] = true
	}
	if !within(patience, func() bool { return len(col.Beacons(from)) >= len(want) }) {
		crashed(c, name, p)
		c.Violate(name, "%s: not all sources announce themselves: %v, want %v\n%s", when, col.Beacons(from), want, p.Tail())
	}
	for id, bs := range col.Beacons(from) {
		for b := range bs {
			if !want[id][b] {
				c.Violate(name, "%s: source %q announces itself as %q, want %v", when, id, b, want[id])
			}
		}
	}
	c.Count("sources announced", len(want))
}

// keepAlive checks that every source goes on announcing itself and sending
// heartbeats where collectors listen for them.
func keepAlive(c *mon.Check, name string, col *tool.Collector, p *tool.Proc, refs []sourceRef) {
	var bad string
	if !within(45*time.Second, func() bool {
		bad = ""
		beacons, beats := map[string]int{}, map[string]int{}
		for _, s := range col.Since(0) {
			switch s.Subject {
			case "BEACON":
				beacons[s.ID]++
			case "HEARTBEAT":
				beats[s.ID+" "+s.Addr]++
			}
		}
		types := map[string][]string{}
		for _, s := range refs {
			types[s.Name] = append(types[s.Name], s.Type)
		}
		for id, ts := range types {
			n := beats[id+" mc/sfe."+id]
			for _, t := range ts {
				if t == "CONTROLLER" {
					n += beats[id+" mc/sfe."+id+".heartbeats"]
				}
			}
			if beacons[id] < 2 || n < 3 {
				bad += fmt.Sprintf("%s %v: %d beacons, %d heartbeats where collectors listen\n", id, ts, beacons[id], n)
			}
		}
		return bad == ""
	}) {
		crashed(c, name, p)
		c.Violate(name, "45 s after a capture was replayed sources do not keep themselves known:\n%s", bad)
	}
	c.Count("sources kept alive", len(refs))
}

// TestT02: captures replayed by the fixture command, as a collector sees them.
func TestT02(t *testing.T) {
	c := mon.Start("T02", "one case is one capture, taken from a serve command that collected from simulated sources or written down directly with unusable entries in between, posted to the fixture command; a serve command connected to it and a collector of the check's own then have to end up with the same records and sources; refused captures in between must not disturb anything; distinct by sources, records and junk")
	c.Assume("of a source that changed its type or version in a capture either may be impersonated; the addresses of sources follow the usual scheme")
	n := c.N(6, 60)
	for i := 0; i < n; i++ {
		name := fmt.Sprint("run-", i)
		if !c.Skip(name) {
			c.Doing("%s", name)
			runReplay(c, name, i%3 == 0, i%6 == 1)
		}
	}
	c.Finish(map[string]int64{"captures": int64(n), "records replayed": 30, "unusable entries": 10, "captures refused": 20, "captures taken": 2, "flushes answered": 6, "sources announced": 6, "sources kept alive": 2, "records of large captures": 500})
}

// take collects a world with the serve command and returns its capture.
func take(c *mon.Check, name string, r *rand.Rand, world []collected, refs []sourceRef) string {
	var mu sync.Mutex
	left := map[string][]collected{}
	for _, x := range world {
		left[x.src.Name] = append(left[x.src.Name], x)
	}
	var nt *tool.Net
	nt = tool.NewNet(router.Config{Quiet: true}, func(s *tool.Source) {
		mu.Lock()
		xs := left[s.ID]
		mu.Unlock()
		var recs []gen.Abs
		for i, x := range xs {
			recs = append(recs, x.rec)
			if len(recs) == 7 || i == len(xs)-1 {
				nt.Publish(s.Address(), tool.Bytes(gen.RecordMsg(s.Address(), recs)))
				recs = nil
			}
		}
	})
	defer nt.Close()
	p := launch(c, name, tool.ServePort, "-server", nt.Addr(), "serve")
	for _, s := range refs {
		var v uint32
		fmt.Sscan(s.APIVersion, &v)
		nt.Add(&tool.Source{ID: s.Name, Type: s.Type, Version: v, Beat: 50 * time.Millisecond})
	}
	capture := awaitServe(c, name, "the serve command that takes the capture", p, world)
	finish(c, name, p)
	return capture
}

// awaitServe waits until a serve command shows exactly world.
func awaitServe(c *mon.Check, name, what string, p *tool.Proc, world []collected) string {
	var bad string
	var body string
	if !within(2*patience, func() bool {
		rep, err := tool.HTTP(patience, "GET", tool.ServePort, "/", "")
		if err != nil {
			crashed(c, name, p)
			c.Violate(name, "%s: %v", what, err)
		}
		_, cs, err := readView(rep)
		if err != nil {
			c.Violate(name, "%s: %v", what, err)
		}
		body = string(rep.Body)
		bad = diff(showSorted(vague(cs, world)), showSorted(vague(world, world)))
		return bad == ""
	}) {
		crashed(c, name, p)
		c.Violate(name, "%s does not end up with the records of the capture:\n%s", what, bad)
	}
	return body
}

// vague leaves out the type and version of sources that have several: only one
// can be right.
func vague(cs, world []collected) []collected {
	n := map[string]map[sourceRef]bool{}
	for _, x := range world {
		if n[x.src.Name] == nil {
			n[x.src.Name] = map[sourceRef]bool{}
		}
		n[x.src.Name][x.src] = true
	}
	var out []collected
	for _, x := range cs {
		if len(n[x.src.Name]) > 1 {
			x.src.Type, x.src.APIVersion = "", ""
		}
		out = append(out, x)
	}
	return out
}

var malformed = []string{``, `{`, `nope`, `{"data":5}`, `{"data":{}}`, `{"data":[5]}`, `{"data":["x"]}`, `[]`, `"x"`, `{"data":[{"Meta":5}]}`, `{"data":[{"Meta":{"Source":"x"}}]}`, `{"data":[{"TypeMeta":[]}]}`, `{"data":[{"Meta":{"UpdatedAt":"never"}}]}`, `{"data":[{}`, "\x00\xff"}

func runReplay(c *mon.Check, name string, taken, large bool) {
	r := c.Rand(name)
	nrec := pick(r, 10, 30, 80)
	if c.Thorough {
		nrec = pick(r, 6, 60, 600)
	}
	world, refs := randWorld(r, name+"-", 1+r.IntN(3), nrec, nil)
	if large { // over a megabyte
		for n := 0; n < 500; n++ {
			t := pick(r, typeOf("ProcessRecord"), typeOf("FlowRecord"))
			a := gen.Rand(r, t, fmt.Sprintf("%s-large-%d", name, n), 0.4)
			a.Attrs[14] = strings.Repeat(pick(r, "long ", "länger ", "\n"), 500)
			world = append(world, collected{world[n%3%len(world)].src, a})
		}
		c.Count("records of large captures", 500)
	}
	var capture string
	nJunk := 0
	if taken {
		capture = take(c, name, r, world, refs)
		c.Count("captures taken", 1)
	} else {
		if r.IntN(3) == 0 { // a source that came back as another
			i := r.IntN(len(world))
			src := world[i].src
			src.Type += "2"
			refs = append(refs, src)
			world[i].src = src
			x := collected{src, gen.Rand(r, typeOf("SiteRecord"), name+"-other", 0.5)}
			world = append(world, x)
			c.Count("sources that changed", 1)
		}
		var ps []post
		for _, x := range world {
			ps = append(ps, postOf(x))
		}
		nJunk = 1 + r.IntN(8)
		for i := 0; i < nJunk; i++ {
			ps = append(ps, junk(r, append([]sourceRef{{"1", "ROUTER", "only-junk"}}, refs...)))
		}
		shuffle(r, ps)
		capture = encodeCapture(ps)
		c.Count("unusable entries", nJunk)
	}
	col := &tool.Collector{}
	nt := tool.NewNet(router.Config{Quiet: true, OnTransfer: col.Hear}, nil)
	defer nt.Close()
	fx := launch(c, name, tool.FixturePort, "-server", nt.Addr(), "fixture")
	sv := launch(c, name, tool.ServePort, "-server", nt.Addr(), "serve")
	if status, rr := postCapture(c, name, fx, capture); status != 200 || rr.Error != "" {
		c.Violate(name, "a capture is answered with status %d and error %q", status, rr.Error)
	}
	c.Count("captures", 1)
	c.Count("records replayed", len(world))
	awaitServe(c, name, "the serve command connected to the fixture", sv, world)
	awaitRunning(c, name, fx, patience)
	finish(c, name, sv)
	beaconsAre(c, name, "after the capture", col, 0, fx, refs)
	conns := 0
	nt.With(func(v router.View) { conns = len(v.Conns()) })
	gone := nt.Count("gone")
	for k := 0; k < 5; k++ {
		body := pick(r, malformed...)
		if r.IntN(3) == 0 { // cut off in the middle
			body = capture[:1+r.IntN(len(capture)-2)]
			if json.Valid([]byte(body)) {
				continue
			}
			if json.Unmarshal([]byte(strings.TrimSpace(capture[:len(body)])), new(any)) == nil {
				continue
			}
		}
		status, rr := postCapture(c, name, fx, body)
		if status != 400 || rr.Error == "" {
			c.Violate(name, "a malformed capture is answered with status %d and error %q: %.200q", status, rr.Error, body)
		}
		c.Count("captures refused", 1)
	}
	flushAll(c, name, "after refused captures", nt, col, fx, world)
	nt.With(func(v router.View) {
		if len(v.Conns()) != conns || v.Count("gone") != gone {
			c.Violate(name, "refused captures changed the connections of the fixture: %d before, %d after, %d closed", conns, len(v.Conns()), v.Count("gone")-gone)
		}
	})
	beaconsAre(c, name, "after refused captures", col, 0, fx, refs)
	if taken {
		keepAlive(c, name, col, fx, refs)
	}
	finish(c, name, fx)
	var sig []string
	for _, s := range refs {
		sig = append(sig, fmt.Sprint(s))
	}
	sort.Strings(sig)
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "taken": taken, "sources": sig, "records": len(world), "junk": nJunk})
	}
	c.Case(fmt.Sprint(taken, sig, len(world), nJunk))
}
