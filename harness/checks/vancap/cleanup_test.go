package vancap

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/kube"
	"github.com/Azure/go-amqp/vf/mon"
)

// TestV01: what vancap deploys and removes, whatever fails.
func TestV01(t *testing.T) {
	c := mon.Start("V01", "one case is one run of vancap against a scripted API server: with requests answered with errors, dropped, garbled or left hanging before or after being processed, collectors that fail, outputs that cannot be written, and interrupts when a request arrives, is processed or is answered or at random times; afterwards the deployments the server has are compared with those vancap created; distinct by what failed and when")
	c.Assume("the server processes a request to create at most 2 s after it arrived; at least the fourth attempt to delete is processed unless the server fails for good; SIGTERM is not judged")
	var wg sync.WaitGroup
	slots := make(chan bool, 32)
	for i := 0; i < c.N(220, 3000); i++ {
		name := fmt.Sprint("run-", i)
		if c.Skip(name) {
			continue
		}
		if i == 0 { // what it deploys serves as an example to the others
			runCleanup(c, name, true)
			continue
		}
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			c.Doing("%s", name)
			runCleanup(c, name, false)
		}()
	}
	wg.Wait()
	c.Finish(map[string]int64{"deployments created": 80, "deployments deleted": 80, "interrupts": 60, "faults": 60, "captures": 4, "foreign deployments kept": 100, "runs without a network": 5, "name taken": 5, "failed deletes": 20, "deployments of lost creations": 3, "kinds of faults": 25, "replaced": 2, "replaced while being deleted": 3, "interrupted slow creations": 8, "flaky looks": 5, "captures that could not be removed": 4})
}

// examples are the labels of what was deployed in earlier runs.
var examples struct {
	mu     sync.Mutex
	labels []map[string]string
}

// labelsOfOthers are those of deployments of somebody else's.
func labelsOfOthers(r *rand.Rand) map[string]string {
	examples.mu.Lock()
	defer examples.mu.Unlock()
	if n := len(examples.labels); n > 0 && r.IntN(3) > 0 { // another vancap's
		return examples.labels[r.IntN(n)]
	}
	return map[string]string{"app": "vanflow-server"}
}

func runCleanup(c *mon.Check, name string, plain bool) {
	r := c.Rand(name)
	or := c.Rand(name, "others")
	var orMu sync.Mutex
	others := func() map[string]string {
		orMu.Lock()
		defer orMu.Unlock()
		return labelsOfOthers(or)
	}
	replaceAfter, goneAfter := ms(r, 2000), ms(r, 1000)
	dir := scratch(c, name)
	defer os.RemoveAll(dir)
	ns := pick(r, "default", "skupper", "a-b")
	body := bodyOf(r, 20000)

	col := &kube.Collector{Status: 200, Body: body, Mode: pick(r, "length", "chunked")}
	var sig []string
	if r.IntN(4) == 0 {
		col.Fault = pick(r, "refuse", "empty", "garbage", "truncate", "stall", "drop")
		if len(body) > 0 {
			col.CutAt = r.IntN(len(body))
		}
		if col.CutAt == 0 && len(body) == 0 && (col.Fault == "truncate" || col.Fault == "drop") && col.Mode == "length" {
			col.Fault = "" // nothing is missing
		}
		sig = append(sig, "collector "+col.Fault)
	}
	if col.Fault == "" && r.IntN(10) == 0 {
		col.Status = pick(r, 404, 500, 503)
		sig = append(sig, fmt.Sprint("collector ", col.Status))
	}

	// nothing but the removal fails
	onlyDelete := or.IntN(15) == 0
	if onlyDelete || plain {
		*col = kube.Collector{Status: 200, Body: body, Mode: col.Mode}
		sig = nil
	}

	// faults by kind of request and number
	type point struct {
		kind string
		nth  int
	}
	faults := map[point]kube.Fault{}
	kinds := []string{kube.GetRouter, kube.Create, kube.Create, kube.Get, kube.Get, kube.ListPods, kube.Forward}
	for n := pick(r, 0, 0, 0, 1, 1, 1, 2); n > 0 && !onlyDelete && !plain; n-- {
		p := point{pick(r, kinds...), 0}
		if p.kind == kube.Get {
			p.nth = r.IntN(3)
		}
		f := kube.Fault{What: pick(r, "status", "status", "drop", "hang", "garbage", "drop-after", "drop-after", "hang-after", "garbage-after"), Code: pick(r, 400, 401, 403, 404, 409, 410, 422, 429, 500, 502, 503, 504)}
		if p.kind == kube.Get && f.Code == 404 { // that would be taken for an answer
			f.Code = 500
		}
		if r.IntN(3) == 0 {
			f.Delay, f.DelayAfter = ms(r, 1500), ms(r, 1500)
		}
		faults[p] = f
		sig = append(sig, fmt.Sprint(p, f.What, f.Code))
		c.Count("faults", 1)
		c.Seen("kinds of faults", p.kind+" "+f.What)
	}
	// deletes: some attempts fail, or all of them
	forGood := r.IntN(12) == 0
	failDeletes := 0
	if r.IntN(3) == 0 {
		failDeletes = 1 + r.IntN(2)
	}
	deleteFault := pick(r, "status", "status", "drop", "drop-after", "hang")
	if deleteFault == "hang" {
		failDeletes = min(failDeletes, 1)
	}
	deleteCode := pick(r, 500, 503, 429, 504, 403, 409, 401)
	// somebody else's deployment takes the place just before the deletion
	swap := r.IntN(12) == 0
	// looking at the deployment fails now and then
	flaky, flakySeen, fr := r.IntN(6) == 0, 0, c.Rand(name, "flaky")
	if onlyDelete || plain {
		forGood, swap, flaky = onlyDelete, false, false
	}
	if onlyDelete {
		sig = append(sig, "cannot be removed")
	}
	if flaky {
		sig = append(sig, "flaky")
	}

	// interrupts
	proc := make(chan func(), 1)
	var sigOnce sync.Mutex
	var interrupted bool
	again := r.IntN(4) == 0
	interrupt := func() {
		f := <-proc
		proc <- f
		sigOnce.Lock()
		defer sigOnce.Unlock()
		interrupted = true
		f()
		if again {
			time.AfterFunc(50*time.Millisecond, f)
		}
	}
	var at point
	phase := ""
	if onlyDelete || plain {
	} else if r.IntN(2) == 0 {
		at = point{pick(r, kube.GetRouter, kube.Create, kube.Create, kube.Create, kube.Get, kube.Get, kube.ListPods, kube.Forward, kube.Delete), 0}
		if at.kind == kube.Get {
			at.nth = r.IntN(3)
		}
		phase = pick(r, "arrived", "processed", "answered")
		sig = append(sig, fmt.Sprint("interrupt ", at, phase))
	} else if r.IntN(3) == 0 {
		what := pick(r, "asked", "written")
		if col.Fault == "stall" {
			what = "stalled"
		}
		switch what {
		case "asked":
			col.Asked = interrupt
		case "stalled":
			col.Stalled = interrupt
		case "written":
			col.Written = interrupt
		}
		sig = append(sig, "interrupt when "+what)
	} else if r.IntN(3) == 0 {
		d := ms(r, 2500)
		time.AfterFunc(d, interrupt)
		sig = append(sig, fmt.Sprint("interrupt at ", d))
	}

	if r.IntN(8) == 0 && !onlyDelete && !plain { // interrupted during a creation that takes its time
		faults[point{kube.Create, 0}] = kube.Fault{Delay: 100*time.Millisecond + ms(r, 1800)}
		at, phase = point{kube.Create, 0}, "arrived"
		sig = append(sig, "slow creation")
		c.Count("interrupted slow creations", 1)
	}
	installed := r.IntN(10) > 0
	taken := r.IntN(10) == 0
	replace := r.IntN(8) == 0
	if onlyDelete || plain {
		installed, taken, replace = true, false, false
	}
	secure := r.IntN(2) == 0
	ready := ms(r, 800)
	if r.IntN(12) == 0 && !onlyDelete && !plain {
		ready = time.Hour
		sig = append(sig, "never ready")
	}
	noPods := r.IntN(12) == 0 && !onlyDelete && !plain
	var k *kube.Cluster
	var foundRouter bool
	deletes := 0
	cfg := kube.Config{ReadyAfter: ready}
	authorities()
	if secure {
		cfg.TLS = serverTLS("127.0.0.1")
		cfg.HTTP2 = r.IntN(2) == 0
	}
	cfg.NewPod = func(d *kube.Deployment, p *kube.Pod) {
		p.Serve = col
		if replace {
			go func() {
				time.Sleep(replaceAfter)
				if k.Replace(d, others()) != nil {
					c.Count("replaced", 1)
				}
			}()
		}
		if noPods {
			go func() {
				time.Sleep(goneAfter)
				k.RemovePod(p)
			}()
		}
	}
	cfg.Faults = func(q *kube.Request) (f kube.Fault) {
		if q.Kind == kube.Delete {
			deletes++
			if forGood || deletes <= failDeletes {
				f = kube.Fault{What: deleteFault, Code: deleteCode}
				c.Count("failed deletes", 1)
				c.Seen("kinds of faults", "delete "+deleteFault)
			}
			if swap && deletes == 1 {
				f.Arrived = func() {
					for _, d := range k.Created() {
						if k.Replace(d, others()) != nil {
							c.Count("replaced while being deleted", 1)
						}
					}
				}
			}
		} else if flaky && q.Kind == kube.Get && flakySeen < 2 && fr.IntN(3) == 0 {
			flakySeen++
			f = kube.Fault{What: pick(fr, "status", "status", "drop", "garbage"), Code: pick(fr, 500, 503, 429, 403, 401, 409)}
			c.Count("flaky looks", 1)
		} else if g, ok := faults[point{q.Kind, q.Nth}]; ok {
			f = g
		}
		if phase != "" && at == (point{q.Kind, q.Nth}) {
			switch phase {
			case "arrived":
				before := f.Arrived
				f.Arrived = func() {
					interrupt()
					if before != nil {
						before()
					}
				}
			case "processed":
				f.Processed = interrupt
			case "answered":
				f.Answered = interrupt
			}
		}
		if q.Kind == kube.Get && f.What == "" {
			flakySeen = 0
		}
		if q.Kind == kube.GetRouter && installed && (f.What == "" || strings.HasSuffix(f.What, "-after")) {
			foundRouter = true
		}
		return f
	}
	k = kube.New(cfg)
	defer k.Close()
	if installed {
		k.AddDeployment(ns, "skupper-router", map[string]string{"app": "skupper-router"})
	} else {
		c.Count("runs without a network", 1)
		sig = append(sig, "no network")
	}
	var old *kube.Deployment
	if taken {
		old = k.AddDeployment(ns, "vanflow-server", others())
		if r.IntN(2) == 0 {
			p := k.AddPod(ns, "vanflow-server-0-0", map[string]string{"app": "vanflow-server"}, &kube.Collector{Status: 200, Body: []byte("foreign"), Mode: "length"})
			k.Update(func() { p.Owner = old })
		}
		c.Count("name taken", 1)
		sig = append(sig, "name taken")
	}
	for _, n := range []string{"elsewhere", "default", "skupper"} {
		if n != ns {
			k.AddDeployment(n, "vanflow-server", map[string]string{"app": "vanflow-server"})
			k.AddDeployment(n, "skupper-router", map[string]string{"app": "skupper-router"})
		}
	}
	k.AddDeployment(ns, "vanflow-server-2", map[string]string{"app": "vanflow-server"})

	dest := filepath.Join(dir, "out")
	if r.IntN(6) == 0 && !onlyDelete && !plain {
		dest = pick(r, "/dev/full", dir, filepath.Join(dir, "none/out"))
		sig = append(sig, "dest")
	}
	args := []string{"-duration", pick(r, "0s", "1ms", "200ms", "600ms")}
	if r.IntN(3) == 0 {
		args = append(args, "-debug")
	}
	p := start(c, dir, []string{simple(c, dir, k, secure, ns)}, append(args, dest)...)
	proc <- func() {
		p.Signal(os.Interrupt)
		c.Count("interrupts", 1)
	}
	t0 := time.Now()
	if !p.Wait(14 * time.Second) {
		interrupt()
		t0 = time.Now()
		if !p.Wait(endsIn) {
			c.Violate(name, "(%s) vancap has not ended %s after being interrupted:\n%s", strings.Join(sig, ", "), time.Since(t0), story(p, k))
		}
	}
	c.Case(strings.Join(sig, ", "))
	crashed(c, name, p, k)
	if s := k.Stray(); len(s) > 0 {
		c.Inconclusive("%s: requests that the server does not know: %v", name, s)
	}
	k.Settle(4 * time.Second) // requests still being processed
	time.Sleep(20 * time.Millisecond)

	// nothing that is not its own
	creations := 0
	for _, q := range k.Log() {
		if q.Kind == kube.Create {
			creations++
		}
	}
	k.Update(func() {
		if !foundRouter && creations > 0 {
			c.Violate(name, "(%s) vancap created a deployment although it did not find the network", strings.Join(sig, ", "))
		}
	})
	gone, left := 0, 0
	for _, d := range k.Deployments() {
		if !d.ByClient {
			if d.DeletedByClient {
				c.Violate(name, "(%s) vancap deleted deployment %s/%s, which it had not created:\n%s", strings.Join(sig, ", "), d.NS, d.Name, story(p, k))
			}
			c.Count("foreign deployments kept", 1)
			continue
		}
		c.Count("deployments created", 1)
		if d.Orphaned {
			c.Violate(name, "(%s) vancap deleted deployment %s/%s but had its pods kept", strings.Join(sig, ", "), d.NS, d.Name)
		}
		examples.mu.Lock()
		examples.labels = append(examples.labels, d.Labels())
		examples.mu.Unlock()
		if d.NS != ns {
			c.Violate(name, "(%s) vancap created a deployment in namespace %s, not %s", strings.Join(sig, ", "), d.NS, ns)
		}
		if !d.Deleted.IsZero() {
			gone++
			continue
		}
		left++
		if !forGood {
			c.Violate(name, "(%s) vancap ended and left deployment %s/%s:\n%s", strings.Join(sig, ", "), d.NS, d.Name, story(p, k))
		}
	}
	c.Count("deployments deleted", gone)
	if gone > 0 {
		for q, f := range faults {
			if q.kind == kube.Create && strings.HasSuffix(f.What, "-after") {
				c.Count("deployments of lost creations", 1)
			}
		}
	}
	if onlyDelete && col.Served() > 0 {
		c.Count("captures that could not be removed", 1)
	}
	if p.Code() == 0 {
		if left > 0 {
			c.Violate(name, "(%s) vancap reports success and left a deployment:\n%s", strings.Join(sig, ", "), story(p, k))
		}
		got, err := os.ReadFile(dest)
		if col.Fault != "" || col.Status != 200 || col.Served() == 0 || err != nil || !bytes.Equal(got, body) {
			c.Violate(name, "(%s) vancap reports success with %d bytes captured (%v); the collector answered %d requests with %d bytes:\n%s", strings.Join(sig, ", "), len(got), err, col.Served(), len(body), story(p, k))
		}
		c.Count("captures", 1)
	} else if len(faults) == 0 && failDeletes == 0 && !forGood && !flaky && !swap && installed && !taken && !replace && !noPods && ready < time.Hour && dest == filepath.Join(dir, "out") && col.Fault == "" && col.Status == 200 {
		sigOnce.Lock()
		defer sigOnce.Unlock()
		if !interrupted {
			c.Violate(name, "vancap failed although nothing else did:\n%s", story(p, k))
		}
	}
	if c.WantSample() {
		c.Sample(map[string]any{"run": name, "what": strings.Join(sig, ", "), "requests": len(k.Log()), "created": gone + left, "deleted": gone, "status": p.Code()})
	}
}
