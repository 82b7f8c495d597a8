package stores

import (
	"context"
	"encoding/base64"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow/store"
)

// The tag monitor: every change of an entry gives it a revision, unique over
// the whole history; a tag stands for the revision it was read from.

type heldTag struct {
	tag string
	key string
	rev int
}

func TestB03(t *testing.T) {
	c := mon.Start("B03", "a case is one random history in which tags are read and later used, fresh or stale, on their own or another key, or one race of clients for one tag; distinct by history")
	for i := 0; i < c.N(9000, 120000); i++ {
		name := fmt.Sprintf("seq/%d", i)
		if !c.Skip(name) {
			tagHistory(c, name, i)
		}
	}
	for i := 0; i < c.N(600, 15000); i++ {
		name := fmt.Sprintf("race/%d", i)
		if !c.Skip(name) {
			tagRace(c, name, i)
		}
	}
	for i := 0; i < c.N(250, 6000); i++ {
		name := fmt.Sprintf("counter/%d", i)
		if !c.Skip(name) {
			tagCounter(c, name, i)
		}
	}
	for i := 0; i < c.N(2, 6); i++ {
		name := fmt.Sprintf("long/%d", i)
		if !c.Skip(name) {
			longHistory(c, name, i)
		}
	}
	c.Finish(map[string]int64{
		"tags of long ago refused": 2000,
		"fresh tags accepted":      5000, "stale tags refused": 2500, "tags of re-created entries refused": 500,
		"tags of deleted entries refused": 500, "tags of other keys refused": 500, "malformed tags refused": 2000,
		"races won": 500, "races lost": 1000, "conditional increments": 2000, "refused increments": 500,
	})
}

func tagHistory(c *mon.Check, name string, i int) {
	r := c.Rand("seq", i)
	s := store.NewDefaultCachingStore(store.CacheConfig{})
	content := map[string]string{} // what each key must show
	rev := map[string]int{}        // 0: absent
	born := map[string]int{}
	nrev := 0
	uniq := 0
	var tags []heldTag
	var hist []string
	keys := []string{"a", "b", "c"}[:1+r.IntN(3)]
	bump := func(k string, text string) {
		nrev++
		if rev[k] == 0 {
			born[k] = nrev
		}
		rev[k], content[k] = nrev, text
	}
	newText := func() string { uniq++; return fmt.Sprintf("v%d", uniq) }
	verify := func(what string) {
		for _, k := range keys {
			got, err := s.Get(ctx, store.Entry{Record: site(k, "", "")})
			if err != nil {
				c.Violate(name, "get: %v", err)
			}
			if got.Found != (rev[k] != 0) {
				c.Violate(name, "%s\nthen %s: key %s found=%v, want %v", strings.Join(hist, "\n"), what, k, got.Found, rev[k] != 0)
			}
			if got.Found {
				rec, _ := recOf(got.Entry)
				if str(rec.Location) != content[k] {
					c.Violate(name, "%s\nthen %s: key %s is %q, want %q", strings.Join(hist, "\n"), what, k, str(rec.Location), content[k])
				}
			}
		}
	}
	for n := 0; n < 30; n++ {
		k := pick(r, keys)
		what := ""
		switch x := r.IntN(20); {
		case x < 2:
			text := newText()
			what = fmt.Sprintf("add(%s,%s)", k, text)
			err := s.Add(ctx, store.Entry{Record: site(k, text, "")})
			if (err == nil) != (rev[k] == 0) {
				c.Violate(name, "%s\nthen %s: %v", strings.Join(hist, "\n"), what, err)
			}
			if err == nil {
				bump(k, text)
			}
		case x < 4:
			text := newText()
			what = fmt.Sprintf("update(%s,%s)", k, text)
			if err := s.Update(ctx, store.Entry{Record: site(k, text, "")}); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			bump(k, text)
		case x < 6:
			what = fmt.Sprintf("delete(%s)", k)
			if err := s.Delete(ctx, store.Entry{Record: site(k, "", "")}); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			rev[k], content[k] = 0, ""
		case x < 8:
			text := newText()
			what = fmt.Sprintf("accumulate(%s,%s)", k, text)
			if err := s.Accumulate(source(1), site(k, text, "")); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			bump(k, text)
		case x == 8 && rev[k] != 0:
			what = fmt.Sprintf("accumulate(%s,unchanged)", k)
			if err := s.Accumulate(source(1), site(k, content[k], "")); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
		case x == 9:
			var es []store.Entry
			what = "replace("
			for _, k := range keys {
				rev[k], content[k] = 0, ""
				if r.IntN(3) > 0 {
					text := newText()
					es = append(es, store.Entry{Record: site(k, text, "")})
					bump(k, text)
					what += k + "=" + text + " "
				}
			}
			if err := s.Replace(ctx, es); err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			// a replaced store has new entries
			for _, k := range keys {
				born[k] = rev[k]
			}
		case x < 14:
			what = fmt.Sprintf("get(%s)", k)
			got, err := s.Get(ctx, store.Entry{Record: site(k, "", "")})
			if err != nil {
				c.Violate(name, "%s: %v", what, err)
			}
			if got.Found {
				if got.ETag == "" {
					c.Violate(name, "%s\nthen %s: found without a tag", strings.Join(hist, "\n"), what)
				}
				tags = append(tags, heldTag{got.ETag, k, rev[k]})
			}
		case x < 19:
			if len(tags) == 0 {
				continue
			}
			h := tags[len(tags)-1]
			if r.IntN(2) == 0 {
				h = pick(r, tags)
			}
			if r.IntN(4) > 0 {
				k = h.key
			}
			text := newText()
			what = fmt.Sprintf("update-if(%s,%s) with the tag of revision %d of %s", k, text, h.rev, h.key)
			err := s.Update(store.WithIfMatch(ctx, h.tag), store.Entry{Record: site(k, text, "")})
			valid := k == h.key && rev[k] == h.rev
			if valid && err != nil {
				c.Violate(name, "%s\nthen %s, which is current: %v", strings.Join(hist, "\n"), what, err)
			}
			if !valid && err == nil {
				c.Violate(name, "%s\nthen %s succeeded, though key %s is at revision %d (0: absent) since born at %d", strings.Join(hist, "\n"), what, k, rev[k], born[k])
			}
			switch {
			case valid:
				bump(k, text)
				c.Count("fresh tags accepted", 1)
			case k != h.key:
				c.Count("tags of other keys refused", 1)
			case rev[k] == 0:
				c.Count("tags of deleted entries refused", 1)
			case born[k] > h.rev:
				c.Count("tags of re-created entries refused", 1)
			default:
				c.Count("stale tags refused", 1)
			}
		default:
			bad := []string{"", "!", "not base64 %%", "AAAA", base64.StdEncoding.EncodeToString([]byte("abc"))}
			if len(tags) > 0 {
				tg := pick(r, tags).tag
				raw, _ := base64.StdEncoding.DecodeString(tg)
				bad = append(bad, tg[:len(tg)/2], "*"+tg, " ", strings.Repeat("=", 4))
				if len(raw) > 4 {
					bad = append(bad, base64.StdEncoding.EncodeToString(raw[:4]))
				}
			}
			tg := pick(r, bad)
			what = fmt.Sprintf("update-if(%s) with the malformed tag %q", k, tg)
			if err := s.Update(store.WithIfMatch(ctx, tg), store.Entry{Record: site(k, newText(), "")}); err == nil {
				c.Violate(name, "%s\nthen %s succeeded", strings.Join(hist, "\n"), what)
			}
			c.Count("malformed tags refused", 1)
		}
		verify(what)
		hist = append(hist, what)
	}
	c.Case(strings.Join(hist, "|"))
	if c.WantSample() {
		c.Sample(hist)
	}
}

// longHistory: tags of an entry that changes more often than small counters
// can tell, or that is one of as many. No tag of long ago may do.
func longHistory(c *mon.Check, name string, i int) {
	r := c.Rand("long", i)
	s := store.NewDefaultCachingStore(store.CacheConfig{})
	key := site("k", "", "")
	n := 70000 + r.IntN(3000)
	tags := make([]string, 0, n)
	state := 0
	put := func(k string, v int) {
		if err := s.Update(ctx, store.Entry{Record: site(k, fmt.Sprint(v), "")}); err != nil {
			c.Violate(name, "update %d: %v", v, err)
		}
	}
	try := func(back int) {
		if back <= 0 || back >= len(tags) {
			return
		}
		if err := s.Update(store.WithIfMatch(ctx, tags[len(tags)-1-back]), store.Entry{Record: site("k", "stale", "")}); err == nil {
			c.Violate(name, "after %d changes the tag of %d changes ago was accepted", len(tags)-1, back)
		}
		c.Count("tags of long ago refused", 1)
	}
	for state = 0; state < n; state++ {
		switch {
		case i%2 == 1 && state%7 == 6: // more is going on
			put(fmt.Sprintf("other%d", state%50), state)
		}
		put("k", state)
		g, err := s.Get(ctx, store.Entry{Record: key})
		if err != nil || !g.Found {
			c.Violate(name, "get: %v found=%v", err, g.Found)
		}
		tags = append(tags, g.ETag)
		if state < 600 || state%500 == 0 || state > n-50 {
			for _, b := range []int{1, 2, 10, 16, 32, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 4096, 10000, 32768, 65535, 65536, 65537, 1 + r.IntN(1+state)} {
				try(b)
			}
		}
	}
	if err := s.Update(store.WithIfMatch(ctx, tags[len(tags)-1]), store.Entry{Record: site("k", "fresh", "")}); err != nil {
		c.Violate(name, "after %d changes the current tag was refused: %v", n, err)
	}
	c.Case(fmt.Sprint(name, n))
}

// tagRace: clients that read the same state race to change it, alone or
// amid unconditional changes. Every success must have replaced exactly the
// state its tag was read from.
func tagRace(c *mon.Check, name string, i int) {
	r := c.Rand("race", i)
	j := &jitter{}
	j.on.Store(true)
	var mu sync.Mutex
	prevOf := map[string]string{} // by unique new content: the content it replaced
	s := store.NewDefaultCachingStore(store.CacheConfig{
		Key: func(e store.Entry) (string, error) { j.hit(); return e.Record.Identity(), nil },
		EventHandlers: store.EventHandlerFuncs{
			OnAdd: func(e store.Entry) {
				rec, _ := recOf(e)
				mu.Lock()
				prevOf[str(rec.Location)] = "(absent)"
				mu.Unlock()
			},
			OnChange: func(p, e store.Entry) {
				prec, _ := recOf(p)
				rec, _ := recOf(e)
				mu.Lock()
				prevOf[str(rec.Location)] = str(prec.Location)
				mu.Unlock()
			},
		},
	})
	key := store.Entry{Record: site("k", "", "")}
	s.Add(ctx, store.Entry{Record: site("k", "start", "")})
	got, _ := s.Get(ctx, key)
	noise := r.IntN(2) == 0
	var wins atomic.Int64
	type win struct{ text, read string }
	var winners []win
	var wg sync.WaitGroup
	start := make(chan struct{})
	clients := 2 + r.IntN(6)
	for w := 0; w < clients; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			tag, read := got.ETag, "start"
			for n := 0; n < 3; n++ {
				if n > 0 { // read again
					g, err := s.Get(ctx, key)
					if err != nil || !g.Found {
						continue
					}
					rec, _ := recOf(g.Entry)
					tag, read = g.ETag, str(rec.Location)
				}
				text := fmt.Sprintf("c%d.%d", w, n)
				if err := s.Update(store.WithIfMatch(ctx, tag), store.Entry{Record: site("k", text, "")}); err == nil {
					wins.Add(1)
					mu.Lock()
					winners = append(winners, win{text, read})
					mu.Unlock()
				} else {
					c.Count("races lost", 1)
				}
			}
		}()
	}
	if noise {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 6; n++ {
				switch n % 3 {
				case 0:
					s.Update(ctx, store.Entry{Record: site("k", fmt.Sprintf("n%d", n), "")})
				case 1:
					s.Delete(ctx, key)
				case 2:
					s.Add(ctx, store.Entry{Record: site("k", fmt.Sprintf("n%d", n), "")})
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	byRead := map[string]string{}
	for _, w := range winners {
		if prev, ok := prevOf[w.text]; !ok || prev != w.read {
			c.Violate(name, "a conditional update to %s with a tag read from %s replaced %q", w.text, w.read, prev)
		}
		if other, dup := byRead[w.read]; dup {
			c.Violate(name, "two conditional updates with tags of the same state %s succeeded: to %s and to %s", w.read, other, w.text)
		}
		byRead[w.read] = w.text
	}
	if !noise && byRead["start"] == "" {
		c.Violate(name, "%d clients raced with the current tag and none succeeded", clients)
	}
	c.Count("races won", int(wins.Load()))
	c.Case(fmt.Sprint(name, winners))
}

// tagCounter: the classic lost update test. Clients increment by get and
// conditional update; the total must be the number of successes.
func tagCounter(c *mon.Check, name string, i int) {
	j := &jitter{}
	j.on.Store(true)
	s := store.NewDefaultCachingStore(store.CacheConfig{Key: func(e store.Entry) (string, error) { j.hit(); return e.Record.Identity(), nil }})
	key := store.Entry{Record: site("k", "", "")}
	s.Add(ctx, store.Entry{Record: site("k", "n0", "")})
	var ok atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 12; n++ {
				g, err := s.Get(ctx, key)
				if err != nil || !g.Found {
					c.Violate(name, "get: %v found=%v", err, g.Found)
				}
				j.hit()
				rec, _ := recOf(g.Entry)
				cctx, cancel := context.WithCancel(store.WithIfMatch(ctx, g.ETag))
				err = s.Update(cctx, store.Entry{Record: site("k", fmt.Sprintf("n%d", num(str(rec.Location))+1), "")})
				cancel()
				if err == nil {
					ok.Add(1)
				} else {
					c.Count("refused increments", 1)
				}
			}
		}()
	}
	wg.Wait()
	g, _ := s.Get(ctx, key)
	rec, _ := recOf(g.Entry)
	if int64(num(str(rec.Location))) != ok.Load() {
		c.Violate(name, "after %d successful conditional increments the count is %s", ok.Load(), str(rec.Location))
	}
	c.Count("conditional increments", int(ok.Load()))
	c.Case(fmt.Sprint(name, ok.Load()))
}
