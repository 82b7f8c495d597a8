package tools

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

// TestT04: the lines of the log command against what the sources sent.
func TestT04(t *testing.T) {
	c := mon.Start("T04", "one case is one run of the log command with 1-5 simulated sources that come up before or after it and send 20-300 record messages and heartbeats each on all of their addresses, with its output read fast, slowly or with pauses, and in some runs with failing connections and links; its output is compared with what was sent, per address in order; the long runs also have sources forgotten and return; distinct by flags, sources and messages")
	c.Assume("messages sent while the tool's links fail may be lost, and are printed at most once")
	var wg sync.WaitGroup
	slots := make(chan bool, 10)
	run := func(name string, long bool) {
		if c.Skip(name) {
			return
		}
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			c.Doing("%s", name)
			runLog(c, name, long)
		}()
	}
	for i := 0; i < c.N(3, 6); i++ {
		run(fmt.Sprint("long-", i), true)
	}
	for i := 0; i < c.N(36, 500); i++ {
		run(fmt.Sprint("run-", i), false)
	}
	wg.Wait()
	c.Finish(map[string]int64{"record messages": 3000, "records": 5000, "heartbeats": 200, "lines compared": 3000, "sources": 40, "sources flushed": 10, "sources not flushed": 10, "sent to addresses not listened to": 50, "failures": 5, "sources forgotten": 1, "other messages": 50, "messages of hundreds of records": 20, "sources that say nothing": 5})
}

// sent is a message as it should be printed.
type sent struct {
	text string
	sure bool
}

// logFeed is one address of one source.
type logFeed struct {
	src    *tool.Source
	addr   string
	listen bool // the tool should listen
	shy    bool // nothing is sent to it
	mu     sync.Mutex
	sent   []sent
	got    []string
}

type logModel struct {
	mu     sync.Mutex
	feeds  map[string]*logFeed
	unsure bool // links are failing
	bad    string
	lines  int
}

// line is a line of the tool's output.
type line struct {
	To, Subject, V, Now, ID string
	Data                    []struct {
		Type string
		Data json.RawMessage
	}
}

func showLine(raw []byte) (to, text string, err error) {
	var l line
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&l); err != nil {
		return "", "", err
	}
	if l.Subject == "HEARTBEAT" {
		if l.Data != nil {
			return "", "", fmt.Errorf("a heartbeat with data")
		}
		return l.To, fmt.Sprintf("HEARTBEAT v=%s now=%s id=%q", l.V, l.Now, l.ID), nil
	}
	if l.Subject != "RECORD" || l.V+l.Now+l.ID != "" {
		return "", "", fmt.Errorf("neither a record message nor a heartbeat")
	}
	var recs []string
	for _, d := range l.Data {
		typ := d.Type[strings.LastIndexByte(d.Type, '.')+1:]
		a, err := fromJSON(typ, d.Data)
		if err != nil {
			return "", "", err
		}
		recs = append(recs, a.String())
	}
	return l.To, showRecs(recs), nil
}

func showRecs(recs []string) string { return "RECORD " + strings.Join(recs, " ; ") }

// took notes a line the tool printed.
func (m *logModel) took(raw []byte) {
	if len(raw) == 0 || raw[0] != '{' {
		return // a log message
	}
	to, text, err := showLine(raw)
	m.mu.Lock()
	f := m.feeds[to]
	m.lines++
	if err != nil && m.bad == "" {
		m.bad = fmt.Sprintf("%v: %.2000s", err, raw)
	} else if f == nil && m.bad == "" {
		m.bad = fmt.Sprintf("a line to %q: %.2000s", to, raw)
	}
	m.mu.Unlock()
	if err != nil || f == nil {
		return
	}
	f.mu.Lock()
	f.got = append(f.got, text)
	f.mu.Unlock()
}

// judge compares what was printed so far. It must be all at rest.
func (f *logFeed) judge(rest bool) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	// at are the numbers of messages that may have been dealt with: lost ones
	// may have the same text as others
	at := f.skip([]int{0})
	for k, g := range f.got {
		var next []int
		for _, i := range at {
			if i < len(f.sent) && f.sent[i].text == g {
				next = append(next, i+1)
			}
		}
		if len(next) == 0 {
			due := "nothing"
			if i := at[len(at)-1]; i < len(f.sent) {
				due = fmt.Sprintf("number %d:\n%.1500s", i, f.sent[i].text)
			}
			how := "was never sent"
			for j, s := range f.sent {
				if s.text == g {
					how = fmt.Sprintf("was sent as number %d", j)
				}
			}
			return fmt.Sprintf("line %d of %s is\n%.1500s\nwhich %s; due is %s", k, f.addr, g, how, due)
		}
		at = f.skip(next)
	}
	if i := at[len(at)-1]; rest && i < len(f.sent) {
		return fmt.Sprintf("%d lines of %s are printed; not the message sent as number %d of %d:\n%.1500s", len(f.got), f.addr, i, len(f.sent), f.sent[i].text)
	}
	return ""
}

// skip adds to sorted numbers those that follow when unsure messages are lost.
func (f *logFeed) skip(at []int) []int {
	var out []int
	for _, i := range at {
		for ; len(out) == 0 || i > out[len(out)-1]; i++ {
			out = append(out, i)
			if i >= len(f.sent) || f.sent[i].sure {
				break
			}
		}
	}
	return out
}

func runLog(c *mon.Check, name string, long bool) {
	r := c.Rand(name)
	nt := tool.NewNet(router.Config{Quiet: true, SenderCredit: uint32(pick(r, 1, 200))}, nil)
	defer nt.Close()
	args := []string{"-server", nt.Addr()}
	flag := func(name string, def bool) bool {
		switch r.IntN(3) {
		case 0:
			return def
		case 1:
			args = append(args, "-"+name+"=false")
			return false
		}
		args = append(args, pick(r, "-"+name, "--"+name, "-"+name+"=true"))
		return true
	}
	beats, records := flag("enable-heartbeats", false), flag("enable-records", true)
	if !records && r.IntN(2) == 0 {
		args, records = append(args, "-enable-records=true"), true
	}
	flows, logs := flag("include-flow-records", true), flag("include-log-records", true)
	flush, debug := flag("flush-on-discover", false), flag("debug", false)
	if long && !flush && name != "long-1" {
		args, flush = append(args, "-flush-on-discover=true"), true
	}

	var srcs []*tool.Source
	m := &logModel{feeds: map[string]*logFeed{}}
	var feeds []*logFeed
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		id := fmt.Sprint("src", i)
		if r.IntN(4) == 0 {
			id = pick(r, "a.b.c", "Ünï", "x y", "%41", "q\"uote", "<&>", "\u2028") + fmt.Sprint(i)
		}
		s := &tool.Source{ID: id, Version: uint32(pick(r, 1, 1, 0, 7)), Type: pick(r, "ROUTER", "CONTROLLER", "odd type"), Beat: 50 * time.Millisecond}
		s.SetQuiet(true)
		srcs = append(srcs, s)
		feeds = append(feeds,
			&logFeed{src: s, addr: s.Address(), listen: true},
			&logFeed{src: s, addr: s.Address() + ".flows", listen: flows},
			&logFeed{src: s, addr: s.Address() + ".logs", listen: logs},
			&logFeed{src: s, addr: s.Address() + ".heartbeats", listen: s.Type == "CONTROLLER"})
	}
	for _, f := range feeds {
		m.feeds[f.addr] = f
	}
	if !long && r.IntN(2) == 0 { // it says nothing but that it is there
		s := &tool.Source{ID: "shy", Version: 1, Type: pick(r, "ROUTER", "odd type"), Beat: 50 * time.Millisecond}
		s.SetQuiet(true)
		srcs = append(srcs, s)
		c.Count("sources that say nothing", 1)
		feeds = append(feeds,
			&logFeed{src: s, addr: s.Address(), listen: true, shy: true},
			&logFeed{src: s, addr: s.Address() + ".flows", listen: flows, shy: true},
			&logFeed{src: s, addr: s.Address() + ".logs", listen: logs, shy: true})
	}
	early := r.IntN(len(srcs) + 1)
	for _, s := range srcs[:early] {
		nt.Add(s)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	p, err := tool.StartOut(pw, append(args, "log")...)
	pw.Close()
	if err != nil {
		c.Inconclusive("cannot run the tool: %v", err)
	}
	defer pr.Close()
	// the reader
	pace, pr2 := pick(r, "fast", "fast", "slow", "pauses"), sub(r)
	eof := make(chan struct{})
	go func() {
		defer close(eof)
		br := bufio.NewReaderSize(pr, 4096)
		pauses := 3
		for {
			l, err := br.ReadBytes('\n')
			if err != nil {
				return
			}
			m.took(bytes.TrimSuffix(l, []byte("\n")))
			switch {
			case pace == "slow" && pr2.IntN(20) == 0:
				time.Sleep(ms(pr2, 10))
			case pace == "pauses" && pauses > 0 && pr2.IntN(100) == 0:
				time.Sleep(1500 * time.Millisecond)
				pauses--
			}
		}
	}()
	for _, s := range srcs[early:] {
		nt.Add(s)
	}

	// listens waits until the tool listens where it should, and only there.
	listens := func(when string, limit time.Duration, gone ...*tool.Source) {
		var bad string
		if !nt.Await(limit, func(v router.View) bool {
			bad = ""
			var got, want []string
			for _, l := range v.Links() {
				if !l.Sender && l.Credit() > 0 {
					got = append(got, l.Addr)
				}
			}
			want = append(want, "mc/sfe.all")
		next:
			for _, f := range feeds {
				for _, g := range gone {
					if g == f.src {
						continue next
					}
				}
				if f.listen {
					want = append(want, f.addr)
				}
			}
			bad = diff(got, want)
			return bad == ""
		}) {
			crashed(c, name, p)
			c.Violate(name, "%s: the tool (%s) does not listen where it should, for %s:\n%s\n%s", when, p.Args(), limit, bad, p.Tail())
		}
	}
	var nID int
	var idMu sync.Mutex
	send := func(r *rand.Rand, f *logFeed, heart bool) {
		var text string
		var b []byte
		if heart {
			now := gen.RandU64(r)
			v := uint32(gen.RandU64(r))
			hm := gen.HeartbeatMsg(f.src.ID, v, now)
			hm.Properties.To = &f.addr
			b = tool.Bytes(hm)
			text = fmt.Sprintf("HEARTBEAT v=%d now=%d id=%q", v, now, f.src.ID)
		} else {
			var recs []gen.Abs
			var show []string
			j := pick(r, 1, 1, 1, 2, 3, 10, 0)
			if r.IntN(150) == 0 {
				j = 100 + r.IntN(300)
				c.Count("messages of hundreds of records", 1)
			}
			for ; j > 0; j-- {
				t := gen.Types[r.IntN(len(gen.Types))]
				for t.Name == "FlowRecord" && !flows || t.Name == "LogRecord" && !logs {
					t = gen.Types[r.IntN(len(gen.Types))]
				}
				idMu.Lock()
				nID++
				id := fmt.Sprint(pick(r, "", "x/", "shared"), nID)
				idMu.Unlock()
				a := gen.Rand(r, t, id, 0.4)
				if r.IntN(60) == 0 {
					for _, at := range t.AllAttrs() {
						if at.Kind == gen.Str {
							a.Attrs[at.Code] = strings.Repeat("long ", r.IntN(20000))
							break
						}
					}
				}
				recs = append(recs, a)
				show = append(show, a.String())
				c.Count("records", 1)
			}
			text = showRecs(show)
			b = tool.Bytes(gen.RecordMsg(f.addr, recs))
			c.Count("record messages", 1)
		}
		n := 1
		if r.IntN(30) == 0 {
			n = 2 // the very same twice
		}
		for ; n > 0; n-- {
			f.mu.Lock()
			m.mu.Lock()
			unsure := m.unsure
			m.mu.Unlock()
			if unsure {
				n = 1
			}
			to := nt.Publish(f.addr, b)
			if to > 0 && (heart && beats || !heart && records) {
				f.sent = append(f.sent, sent{text, !unsure})
				if heart {
					c.Count("heartbeats", 1)
				}
			}
			if to == 0 && !unsure {
				c.Count("sent to addresses not listened to", 1)
			}
			f.mu.Unlock()
		}
	}
	burst := func(n int) {
		var wg sync.WaitGroup
		for _, f := range feeds {
			if f.shy {
				continue
			}
			fr := sub(r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 1 + fr.IntN(n); k > 0; k-- {
					send(fr, f, fr.IntN(4) == 0)
					switch fr.IntN(10) {
					case 0:
						time.Sleep(ms(fr, 5))
					case 1:
						hm := gen.RandMessage(fr)
						if s := gen.Subject(hm); s == "RECORD" || s == "HEARTBEAT" {
							continue
						}
						if b, err := hm.MarshalBinary(); err == nil {
							nt.Publish(f.addr, b)
							c.Count("other messages", 1)
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	rest := func(when string) {
		var bad string
		progress := map[*logFeed]int{}
		for end := time.Now().Add(patience); ; time.Sleep(20 * time.Millisecond) {
			m.mu.Lock()
			bad = m.bad
			m.mu.Unlock()
			if bad != "" {
				c.Violate(name, "%s: %s: %s", when, p.Args(), bad)
			}
			for _, f := range feeds {
				// what is printed does not get right later
				if bad = f.judge(false); bad != "" {
					c.Violate(name, "%s: %s: %s", when, p.Args(), bad)
				}
			}
			for _, f := range feeds {
				if bad = f.judge(true); bad != "" {
					f.mu.Lock()
					n := len(f.got)
					f.mu.Unlock()
					if n != progress[f] {
						progress[f] = n
						end = time.Now().Add(patience)
					}
					break
				}
			}
			if bad == "" {
				break
			}
			if time.Now().After(end) {
				crashed(c, name, p)
				c.Violate(name, "%s, and %s after the last line: %s: %s\n%s", when, patience, p.Args(), bad, p.Tail())
			}
		}
		if r.IntN(3) == 0 {
			time.Sleep(ms(r, 300)) // for anything more
			for _, f := range feeds {
				if bad := f.judge(true); bad != "" {
					c.Violate(name, "%s: %s: %s", when, p.Args(), bad)
				}
			}
		}
	}
	// silent keeps no source from being forgotten while waiting
	alive := make(chan struct{})
	var awg sync.WaitGroup
	var silent sync.Map
	for _, s := range srcs {
		ar := sub(r)
		f := m.feeds[s.Address()]
		if f == nil {
			continue // it says nothing
		}
		awg.Add(1)
		go func() {
			defer awg.Done()
			for {
				select {
				case <-alive:
					return
				case <-time.After(500 * time.Millisecond):
				}
				if _, ok := silent.Load(s.ID); !ok {
					send(ar, f, true)
				}
			}
		}()
	}

	failures := 0
	listens("after start", patience)
	burst(pick(r, 10, 40, 150))
	rest("at rest")
	// The tool asks each source once. A request that is sent into a failure
	// is lost, and logged as such.
	asked := func(s *tool.Source) {
		if !within(patience, func() bool { return s.Flushes() > 0 }) {
			crashed(c, name, p)
			c.Violate(name, "%s: source %s is not asked for a flush", p.Args(), s.ID)
		}
	}
	if flush && r.IntN(3) > 0 {
		for _, s := range srcs {
			asked(s)
		}
	}
	for k := r.IntN(3); k > 0; k-- {
		m.mu.Lock()
		m.unsure = true
		m.mu.Unlock()
		done := make(chan struct{})
		go func() { defer close(done); burst(30) }()
		time.Sleep(ms(r, 20))
		switch r.IntN(4) {
		case 0:
			nt.Fault(router.Drop, nil, "")
		case 1:
			nt.Fault(router.Reset, nil, "")
		case 2:
			nt.Fault(router.Detach, nil, pick(r, feeds...).addr)
		case 3:
			nt.Fault(router.End, nil, "")
		}
		<-done
		time.Sleep(100 * time.Millisecond)
		listens("after a failure", patience)
		// what is still on its way is from before
		rest("after a failure")
		for _, f := range feeds {
			if f.listen && !f.shy && (records || beats) {
				mark(c, name, p, r, f, send, records)
			}
		}
		m.mu.Lock()
		m.unsure = false
		m.mu.Unlock()
		failures++
		c.Count("failures", 1)
		burst(20)
		rest("at rest after failures")
	}
	if long {
		gone := srcs[0]
		silent.Store(gone.ID, true)
		gone.SetAlive(false)
		rest("with a silent source")
		flushes := gone.Flushes()
		listens("silent for long", 60*time.Second, gone)
		c.Count("sources forgotten", 1)
		gone.SetAlive(true)
		silent.Delete(gone.ID)
		listens("after it returned", patience)
		burst(40)
		rest("after it returned")
		if flush && !within(patience, func() bool { return gone.Flushes() > flushes }) {
			c.Violate(name, "%s: source %s returned and is not asked for a flush", p.Args(), gone.ID)
		}
	}
	for _, s := range srcs {
		if flush {
			if failures == 0 {
				asked(s)
			}
			if s.Flushes() > 0 {
				c.Count("sources flushed", 1)
			}
		} else {
			if s.Flushes() > 0 {
				c.Violate(name, "%s: source %s is asked for a flush", p.Args(), s.ID)
			}
			c.Count("sources not flushed", 1)
		}
		c.Count("sources", 1)
	}
	close(alive)
	awg.Wait()
	rest("at the end")
	finish(c, name, p)
	<-eof
	lines := 0
	for _, f := range feeds {
		if bad := f.judge(true); bad != "" {
			c.Violate(name, "when done: %s: %s", p.Args(), bad)
		}
		lines += len(f.got)
	}
	c.Count("lines compared", lines)
	var sig []string
	for _, s := range srcs {
		sig = append(sig, fmt.Sprint(refOf(s)))
	}
	sort.Strings(sig)
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "args": strings.Join(args[2:], " "), "sources": sig, "lines": lines, "output read": pace, "failures": failures, "debug": debug})
	}
	c.Case(fmt.Sprint(strings.Join(args[2:], " "), sig, lines))
}

// mark sends until something is printed: a link works again.
func mark(c *mon.Check, name string, p *tool.Proc, r *rand.Rand, f *logFeed, send func(*rand.Rand, *logFeed, bool), records bool) {
	f.mu.Lock()
	n := len(f.got)
	f.mu.Unlock()
	for end := time.Now().Add(patience); ; {
		send(r, f, !records)
		for i := 0; i < 20; i++ {
			time.Sleep(5 * time.Millisecond)
			f.mu.Lock()
			ok := len(f.got) > n
			f.mu.Unlock()
			if ok {
				return
			}
		}
		if time.Now().After(end) {
			crashed(c, name, p)
			c.Violate(name, "%s: nothing sent to %s is printed any more after a failure, for %s\n%s", p.Args(), f.addr, patience, p.Tail())
		}
	}
}
