package vancap

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/kube"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

// TestV02: what vancap captures, and from where.
func TestV02(t *testing.T) {
	c := mon.Start("V02", "one case is one run of vancap: with kubeconfig files that select one of several scripted API servers by context, with its URL (plain or TLS, any host name by way of a proxy, paths), credentials and namespace; pods of others about; responses of the collector of all sizes and codings, complete or not; the file written is compared with what the collector served and every request with what is configured; distinct by configuration and response")
	c.Assume("the collector's response delimits its body")
	if !c.Skip("real") {
		c.Doing("real")
		for i := 0; i < c.N(2, 12); i++ {
			runReal(c, "real", i)
		}
	}
	// somebody else's server, on the collector's port
	if ln, err := net.Listen("tcp", "127.0.0.1:9090"); err == nil {
		defer ln.Close()
		go http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			fmt.Fprint(w, "not the collector")
		}))
		c.Count("other server on the collector's port", 1)
	}
	var wg sync.WaitGroup
	slots := make(chan bool, 24)
	n := c.N(200, 3000)
	for i := -c.N(6, 40); i < n; i++ {
		name, slow := fmt.Sprint("run-", i), ""
		if i < 0 {
			slow = []string{"response", "start", "duration"}[-i%3]
			name = fmt.Sprint("slow", i)
		}
		if c.Skip(name) {
			continue
		}
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			c.Doing("%s", name)
			runCapture(c, name, slow)
		}()
	}
	wg.Wait()
	c.Finish(map[string]int64{"captures": 70, "captured bytes": 1000000, "captures of a real collector": 1, "failed captures": 25, "through a proxy": 40, "kinds of servers": 10, "kinds of credentials": 6, "kinds of responses": 6, "foreign pods": 50, "slow captures": 3, "failures": 7, "captures of 15 MB": 2, "pods that are leaving": 8, "pods that are starting": 8, "pods that are lost": 8})
}

// credentials are ways to identify oneself to a server.
type credentials struct {
	name string
	user obj
	// what the server should see
	auth, cn, as string
}

func creds(c *mon.Check, r *rand.Rand, dir, tag string, secure bool) credentials {
	authorities()
	kinds := []string{"token", "file", "basic", "exec", "none", "impersonate"}
	if secure {
		kinds = append(kinds, "cert", "certfile", "relative")
	}
	kind := pick(r, kinds...)
	secret := fmt.Sprintf("%s-%x", tag, r.Uint32())
	cr := credentials{name: kind, user: obj{}}
	switch kind {
	case "token":
		cr.user["token"] = secret
		cr.auth = "Bearer " + secret
	case "file":
		cr.user["tokenFile"] = write(c, filepath.Join(dir, tag+".token"), []byte(secret+"\n"))
		cr.auth = "Bearer " + secret
	case "basic":
		cr.user["username"], cr.user["password"] = "u", secret
		cr.auth = "Basic " + base64.StdEncoding.EncodeToString([]byte("u:"+secret))
	case "exec":
		sh := write(c, filepath.Join(dir, tag+".sh"), []byte(fmt.Sprintf("#!/bin/sh\necho '{\"apiVersion\":\"client.authentication.k8s.io/v1\",\"kind\":\"ExecCredential\",\"status\":{\"token\":\"%s\"}}'\n", secret)))
		os.Chmod(sh, 0o700)
		cr.user["exec"] = obj{"apiVersion": "client.authentication.k8s.io/v1", "command": sh, "interactiveMode": "Never"}
		cr.auth = "Bearer " + secret
	case "impersonate":
		cr.user["token"], cr.user["as"] = secret, "somebody"
		cr.auth, cr.as = "Bearer "+secret, "somebody"
		if r.IntN(3) > 0 {
			cr.user["as-groups"] = []string{"g1", "system:g2"}
			cr.as += ",g1,system:g2"
		}
		if r.IntN(3) == 0 {
			cr.user["as-uid"] = "u-1"
			cr.as += ",u-1"
		}
		if r.IntN(3) == 0 {
			cr.user["as-user-extra"] = obj{"reason": []string{"because"}}
			cr.as += ",because"
		}
	case "cert", "certfile", "relative":
		cert, key := cca.Issue(secret)
		cr.cn = secret
		if kind == "cert" {
			cr.user["client-certificate-data"], cr.user["client-key-data"] = b64(cert), b64(key)
		} else {
			cf := write(c, filepath.Join(dir, tag+".crt"), cert)
			kf := write(c, filepath.Join(dir, tag+".key"), key)
			if kind == "relative" {
				cf, kf = filepath.Base(cf), filepath.Base(kf)
			}
			cr.user["client-certificate"], cr.user["client-key"] = cf, kf
		}
	}
	return cr
}

// site is a cluster with how it is reached.
type site struct {
	k      *kube.Cluster
	desc   string
	host   string // as in the Host header
	entry  obj    // in the kubeconfig
	proxy  *kube.Proxy
	secure bool
}

// build makes a cluster and its kubeconfig entry.
func build(c *mon.Check, r *rand.Rand, dir, tag string, cfg kube.Config) *site {
	authorities()
	s := &site{entry: obj{}}
	s.secure = r.IntN(3) > 0
	names := []string{"127.0.0.1", "localhost"}
	named := r.IntN(2) == 0
	host := pick(r, names...)
	if named {
		host = pick(r, "stage.example.com", "https.example.com", "prod.test", "tps.io", "sphtp", "h.t", "api.cluster-1.example.com", "p", "http-gw.sth.example.com", "spt.hs.pt")
		names = append(names, host)
	}
	if r.IntN(4) == 0 {
		cfg.Prefix = pick(r, "/k8s/clusters/c-1", "/p", "/https", "/api/v1", "/proxy/namespaces/x")
	}
	serverName := ""
	if s.secure {
		if r.IntN(6) == 0 {
			serverName = "other.example.net"
			names = []string{serverName}
		}
		cfg.TLS = serverTLS(names...)
		cfg.HTTP2 = r.IntN(2) == 0
		switch pick(r, "data", "file", "relative", "insecure") {
		case "data":
			s.entry["certificate-authority-data"] = b64(ca.PEM)
		case "file":
			s.entry["certificate-authority"] = write(c, filepath.Join(dir, tag+"-ca.crt"), ca.PEM)
		case "relative":
			write(c, filepath.Join(dir, tag+"-ca.crt"), ca.PEM)
			s.entry["certificate-authority"] = tag + "-ca.crt"
		case "insecure":
			s.entry["insecure-skip-tls-verify"] = true
			serverName = ""
		}
		if serverName != "" {
			s.entry["tls-server-name"] = serverName
		}
	}
	s.k = kube.New(cfg)
	_, port, _ := net.SplitHostPort(s.k.Addr())
	s.host = host + ":" + port
	if named {
		def := "80"
		if s.secure {
			def = "443"
		}
		port := pick(r, def, "", "6443")
		s.host = host
		if port != "" {
			s.host += ":" + port
		} else {
			port = def
		}
		s.proxy = kube.NewProxy(map[string]string{host + ":" + port: s.k.Addr()})
		s.entry["proxy-url"] = s.proxy.URL()
	}
	scheme := "http"
	if s.secure {
		scheme = "https"
	}
	url := scheme + "://" + s.host + cfg.Prefix
	if r.IntN(4) == 0 {
		url += "/"
	}
	if !s.secure && r.IntN(4) == 0 && cfg.Prefix == "" && !named {
		url = s.host // plain HTTP is the default
	}
	s.entry["server"] = url
	s.desc = fmt.Sprintf("%s tls=%v h2=%v name=%q proxy=%v", url, s.secure, cfg.HTTP2, serverName, named)
	return s
}

func (s *site) close() {
	s.k.Close()
	if s.proxy != nil {
		s.proxy.Close()
	}
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func runCapture(c *mon.Check, name, slow string) {
	r := c.Rand(name)
	dir := scratch(c, name)
	defer os.RemoveAll(dir)
	ns := pick(r, "", "default", "skupper", "a-b", "pods", "namespaces")
	inNS := ns
	if ns == "" {
		inNS = "default"
	}

	// what the collector serves
	max := pick(r, 0, 10, 2000, 40000, 40000, 600000)
	if r.IntN(40) == 0 {
		max = 6_000_000
	}
	huge := name == "run-3" || name == "run-77" || r.IntN(200) == 0
	col := &kube.Collector{Status: 200, Body: bodyOf(r, max), Mode: pick(r, "length", "length", "chunked", "close")}
	if huge {
		col.Body = bytes.Repeat(append(bodyOf(r, 1_000_000), "x"...), 12)
		col.Body = append(col.Body, make([]byte, max0(15<<20-len(col.Body)))...)
		c.Count("captures of 15 MB", 1)
	}
	if r.IntN(3) == 0 && max < 50000 && !huge {
		col.Pace = ms(r, 50)
	}
	failure := ""
	// something takes its time
	long := time.Duration(pick(r, 12, 32, c.N(35, 100))) * time.Second
	if slow == "response" {
		col.Body = make([]byte, 9*16384+r.IntN(16384))
		for i := range col.Body {
			col.Body[i] = byte(r.Uint32())
		}
		col.Pace = long / 10
	}
	if slow == "" && !huge && r.IntN(3) == 0 {
		failure = pick(r, "refuse", "empty", "garbage", "truncate", "drop", "truncate", "drop", "status", "status", "streams", "gone", "upgrade", "no pods")
		switch failure {
		case "status":
			col.Status = pick(r, 400, 404, 500, 502, 503)
			failure += fmt.Sprint(" ", col.Status)
		case "truncate", "drop":
			if len(col.Body) == 0 {
				col.Body = []byte("something")
			}
			if col.Mode == "close" {
				col.Mode = "length"
			}
			col.CutAt = pick(r, 0, len(col.Body)-1, r.IntN(len(col.Body)))
			col.Fault = failure
		case "refuse", "empty", "garbage":
			col.Fault = failure
		}
	}
	var own *kube.Pod
	var main *site
	labels := map[string]string{"app": "vanflow-server"}
	foreign := &kube.Collector{Status: 200, Body: []byte("of another pod"), Mode: "length"}
	cfg := kube.Config{ReadyAfter: ms(r, 700)}
	if slow == "start" {
		cfg.ReadyAfter = long
	}
	twin := ""
	if r.IntN(3) == 0 { // the deployment has another pod that is of no use
		twin = pick(r, "leaving", "starting", "lost")
		cfg.ReadyAfter += 200 * time.Millisecond
		c.Count("pods that are "+twin, 1)
	}
	twinName := pick(r, "vanflow-server-00000000-00001", "vanflow-server-zzzzzzzz-zzzzy")
	addForeign := r.IntN(3)
	cfg.NewPod = func(d *kube.Deployment, p *kube.Pod) {
		p.Serve = col
		own = p
		if twin != "" {
			go func() {
				t := main.k.AddPod(p.NS, twinName, p.Labels, &kube.Collector{Fault: "refuse"})
				main.k.Update(func() {
					t.Owner, t.Terminating, t.Ready, t.Unknown = d, twin == "leaving", twin != "starting", twin == "lost"
				})
			}()
		}
		if failure == "gone" {
			time.AfterFunc(cfg.ReadyAfter+500*time.Millisecond, func() { main.k.RemovePod(p) })
		}
		if failure == "no pods" {
			go main.k.RemovePod(p)
		}
	}
	cfg.Faults = func(q *kube.Request) kube.Fault {
		if q.Kind == kube.Forward && failure == "upgrade" {
			return kube.Fault{What: "status", Code: 403}
		}
		return kube.Fault{}
	}
	cfg.ForwardFault = func(*kube.Pod) kube.ForwardFault {
		if failure == "streams" {
			return "refuse-streams"
		}
		return ""
	}
	main = build(c, r, dir, "main", cfg)
	defer main.close()
	dcfg := kube.Config{NewPod: func(d *kube.Deployment, p *kube.Pod) { p.Serve = foreign }}
	decoy := build(c, r, dir, "decoy", dcfg)
	defer decoy.close()
	for _, s := range []*site{main, decoy} {
		for _, n := range []string{"default", "skupper", "a-b", "pods", "namespaces"} {
			s.k.AddDeployment(n, "skupper-router", map[string]string{"app": "skupper-router"})
		}
		s.k.AddPod("elsewhere", "vanflow-server-0-0", labels, foreign)
	}
	if addForeign > 0 {
		for _, n := range []string{"vanflow-server-00000000-00000", "vanflow-server-zzzzzzzz-zzzzz"}[r.IntN(2):] {
			p := main.k.AddPod(inNS, n, labels, foreign)
			main.k.Update(func() { p.Terminating = addForeign == 1 })
			c.Count("foreign pods", 1)
		}
	}

	// kubeconfig
	mine, theirs := creds(c, r, dir, "mine", main.secure), creds(c, r, dir, "theirs", decoy.secure)
	contextOf := func(cl, u, n string) obj {
		o := obj{"cluster": cl, "user": u}
		if n != "" {
			o["namespace"] = n
		}
		return o
	}
	clusters := []any{obj{"name": "other", "cluster": decoy.entry}, obj{"name": "this", "cluster": main.entry}}
	users := []any{obj{"name": "them", "user": theirs.user}, obj{"name": "me", "user": mine.user}}
	cur := pick(r, "a", "a", "default", "skupper", "this")
	contexts := []any{obj{"name": "b", "context": contextOf("other", "them", "skupper")}, obj{"name": cur, "context": contextOf("this", "me", ns)}, obj{"name": "c", "context": contextOf("other", "me", ns)}, obj{"name": "d", "context": contextOf("this", "them", "elsewhere")}}
	r.Shuffle(len(contexts), func(i, j int) { contexts[i], contexts[j] = contexts[j], contexts[i] })
	kcfg := func(o obj) obj { o["apiVersion"], o["kind"] = "v1", "Config"; return o }
	var files []string
	file := func(n string, o obj) { files = append(files, writeJSON(c, filepath.Join(dir, n), kcfg(o))) }
	layout := pick(r, "one", "one", "split", "override", "home")
	all := obj{"clusters": clusters, "users": users, "contexts": contexts, "current-context": cur}
	switch layout {
	case "one":
		file("config", all)
	case "home":
		os.MkdirAll(filepath.Join(dir, "home/.kube"), 0o700)
		for _, f := range []string{"main-ca.crt", "decoy-ca.crt", "mine.crt", "mine.key", "theirs.crt", "theirs.key"} { // for relative ones
			if b, err := os.ReadFile(filepath.Join(dir, f)); err == nil {
				write(c, filepath.Join(dir, "home/.kube", f), b)
			}
		}
		writeJSON(c, filepath.Join(dir, "home/.kube/config"), kcfg(all))
	case "split":
		file("c1", obj{"clusters": clusters[:1], "users": users[:1], "current-context": cur})
		files = append(files, filepath.Join(dir, "missing"))
		file("c2", obj{"contexts": contexts, "current-context": "b"})
		file("c3", obj{"clusters": clusters[1:], "users": users[1:]})
	case "override":
		file("c1", all)
		file("c2", obj{"clusters": []any{obj{"name": "this", "cluster": decoy.entry}}, "users": []any{obj{"name": "me", "user": theirs.user}}, "current-context": "b"})
	}

	// output
	dest := filepath.Join(dir, "out")
	if r.IntN(3) == 0 {
		write(c, dest, bodyOf(r, 1_000_000))
	}
	arg := dest
	if r.IntN(3) == 0 {
		arg = "out"
	}
	duration := time.Duration(pick(r, 0, 100, 300, 1000)) * time.Millisecond
	if slow == "duration" {
		duration = long
	}
	if slow != "" {
		c.Count("slow captures", 1)
	}
	args := []string{"-duration", duration.String()}
	tag := "latest"
	if r.IntN(2) == 0 {
		tag = pick(r, "v1", "0.3.1-rc2", "main")
		args = append(args, "-tag", tag)
	}
	if r.IntN(4) == 0 {
		args = append(args, "-debug")
	}
	sig := fmt.Sprintf("%s, %s, ns=%s, %s, %s %d %d, %s, foreign=%d", main.desc, mine.name, ns, layout, col.Mode, len(col.Body), col.Pace, failure, addForeign)
	p := start(c, dir, files, append(args, arg)...)
	if !p.Wait(60*time.Second + 2*long) {
		st := story(p, main.k)
		p.Stop(endsIn)
		c.Violate(name, "(%s) vancap does not end:\n%s\n%s", sig, st, p.Tail())
	}
	c.Case(sig)
	crashed(c, name, p, main.k)
	if s := append(main.k.Stray(), decoy.k.Stray()...); len(s) > 0 {
		c.Violate(name, "(%s) requests for paths that do not exist: %v\n%s", sig, s, story(p, main.k))
	}
	if log := decoy.k.Log(); len(log) > 0 {
		c.Violate(name, "(%s) requests to a cluster that is not selected:\n%s", sig, story(p, decoy.k))
	}
	if main.proxy != nil {
		c.Count("through a proxy", 1)
		if l := main.proxy.Lost(); len(l) > 0 {
			c.Violate(name, "(%s) connections to hosts other than the configured: %q\n%s", sig, l, story(p, main.k))
		}
	}
	c.Seen("kinds of servers", fmt.Sprint(main.secure, main.proxy != nil, main.entry["tls-server-name"] != nil, strings.HasSuffix(fmt.Sprint(main.entry["server"]), "/"), strings.Contains(fmt.Sprint(main.entry["server"]), "://")))
	c.Seen("kinds of credentials", mine.name)
	c.Seen("kinds of responses", fmt.Sprint(col.Mode, " ", len(col.Body) > 16384, col.Status))

	if !main.secure { // credentials are for secure connections only
		mine.auth, mine.cn = "", ""
	}
	var forwarded time.Time
	for _, q := range main.k.Log() {
		q := q
		if q.Auth != mine.auth || q.CN != mine.cn || q.As != mine.as {
			c.Violate(name, "(%s) a request with other credentials: %s: authorization %q, certificate %q, as %q\n%s", sig, q.String(), q.Auth, q.CN, q.As, story(p, main.k))
		}
		if q.NS != inNS {
			c.Violate(name, "(%s) a request for namespace %q, not %q: %s\n%s", sig, q.NS, inNS, q.String(), story(p, main.k))
		}
		if q.Host != main.host {
			c.Violate(name, "(%s) a request for host %q, not %q: %s\n%s", sig, q.Host, main.host, q.String(), story(p, main.k))
		}
		if q.Kind == kube.Forward {
			forwarded = q.At
			if own == nil || q.Name != own.Name {
				c.Violate(name, "(%s) the port of pod %q was forwarded, which is not the collector's:\n%s", sig, q.Name, story(p, main.k))
			}
		}
	}
	asked, _ := foreign.Requests()
	if len(asked) > 0 {
		c.Violate(name, "(%s) a pod that is not the collector's was asked: %v", sig, asked)
	}
	asked, when := col.Requests()
	for i, a := range asked {
		if a != "GET /" {
			c.Violate(name, "(%s) the collector was asked %q, want its whole state\n%s", sig, a, story(p, main.k))
		}
		if when[i].Before(forwarded) {
			forwarded = when[i]
		}
	}
	for _, d := range main.k.Created() {
		checkDeployment(c, name, sig, d, tag)
		if p.Code() == 0 && (d.ReadyShown.IsZero() || forwarded.Sub(d.ReadyShown) < duration) {
			c.Violate(name, "(%s) captured %s after the collector was ready (%v), want %s\n%s", sig, forwarded.Sub(d.ReadyShown), d.ReadyShown, duration, story(p, main.k))
		}
	}
	got, err := os.ReadFile(dest)
	if p.Code() == 0 {
		if failure != "" && (failure != "gone" && failure != "no pods" || col.Served() == 0) {
			c.Violate(name, "(%s) vancap reports success, with %d bytes captured:\n%s", sig, len(got), story(p, main.k))
		}
		if err != nil || !bytes.Equal(got, col.Body) {
			c.Violate(name, "(%s) the file has %d bytes (%v), the collector served %d: they differ at %d\n%s", sig, len(got), err, len(col.Body), differ(got, col.Body), story(p, main.k))
		}
		c.Count("captures", 1)
		c.Count("captured bytes", len(got))
	} else {
		if failure == "" {
			c.Violate(name, "(%s) vancap failed although nothing else did:\n%s", sig, story(p, main.k))
		}
		c.Count("failed captures", 1)
		c.Seen("failures", strings.Fields(failure)[0])
	}
	if c.WantSample() {
		c.Sample(map[string]any{"run": name, "what": sig, "requests": len(main.k.Log()), "bytes": len(got), "status": p.Code()})
	}
}

func differ(a, b []byte) int {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// checkDeployment checks that what is deployed is a collector.
func checkDeployment(c *mon.Check, name, sig string, d *kube.Deployment, tag string) (args []string) {
	bad := func(format string, a ...any) {
		c.Violate(name, "(%s) the deployment %s: %v", sig, fmt.Sprintf(format, a...), d.Obj["spec"])
	}
	img, args, mounts := d.Container()
	if !strings.HasSuffix(img, ":"+tag) {
		bad("has image %q, want tag %s", img, tag)
	}
	if len(args) == 0 || args[len(args)-1] != "serve" {
		bad("does not run serve")
	}
	if mounts["skupper-local-client"] == "" {
		bad("does not mount the secret skupper-local-client")
	}
	return args
}

// runReal captures from the real collector, run as the deployment says.
func runReal(c *mon.Check, name string, i int) {
	r := c.Rand(name, i)
	dir := scratch(c, fmt.Sprint(name, "-", i))
	defer os.RemoveAll(dir)
	nt := tool.NewNet(router.Config{Quiet: true}, nil)
	defer nt.Close()
	var srcs []*tool.Source
	for j := 0; j < 1+r.IntN(3); j++ {
		s := &tool.Source{ID: fmt.Sprint("s", j), Version: 1, Type: "ROUTER", Beat: 50 * time.Millisecond}
		nt.Add(s)
		srcs = append(srcs, s)
	}
	if err := tool.AwaitFree(tool.ServePort, 10*time.Second); err != nil {
		c.Inconclusive("%v", err)
	}
	secret := filepath.Join(dir, "secret")
	os.MkdirAll(secret, 0o700)
	write(c, filepath.Join(secret, "connect.json"), []byte(fmt.Sprintf(`{"scheme":"amqp","host":"127.0.0.1","port":"%d"}`, nt.Port())))
	var k *kube.Cluster
	var mu sync.Mutex
	var server *tool.Proc
	records := 0
	cfg := kube.Config{ReadyAfter: time.Hour}
	cfg.NewPod = func(d *kube.Deployment, p *kube.Pod) {
		args := checkDeployment(c, name, "real", d, "latest")
		_, _, mounts := d.Container()
		for i := range args {
			args[i] = strings.Replace(args[i], mounts["skupper-local-client"], secret+"/", 1)
		}
		p.Serve = &kube.Collector{Dial: func() (net.Conn, error) { return net.Dial("tcp", "127.0.0.1:9090") }}
		go func() {
			proc, err := tool.Start(args...)
			if err != nil {
				c.Inconclusive("%v", err)
			}
			mu.Lock()
			server = proc
			mu.Unlock()
			if err := proc.AwaitUp(tool.ServePort, patience); err != nil {
				c.Violate(name, "vanflow-tool, run as deployed (%q), does not serve: %v\n%s", args, err, proc.Tail())
			}
			k.SetReady(d, p)
			for _, s := range srcs {
				if !nt.Await(patience, func(v router.View) bool { return v.Receivers(s.Address(), true) == 1 }) {
					c.Violate(name, "vanflow-tool, run as deployed (%q), does not listen to source %s\n%s", args, s.ID, proc.Tail())
				}
				for b := 0; b < 1+r.IntN(5); b++ {
					var recs []gen.Abs
					for n := 1 + r.IntN(20); n > 0; n-- {
						t := gen.Types[r.IntN(len(gen.Types))]
						if t.Name != "SiteRecord" && t.Name != "LinkRecord" && t.Name != "RouterRecord" && t.Name != "ProcessRecord" {
							continue
						}
						records++
						a := gen.Abs{Type: t.Name, ID: fmt.Sprint("r", records), Attrs: map[uint32]any{}}
						recs = append(recs, a)
					}
					if len(recs) > 0 {
						nt.Publish(s.Address(), tool.Bytes(gen.RecordMsg(s.Address(), recs)))
					}
				}
			}
		}()
	}
	k = kube.New(cfg)
	defer k.Close()
	k.AddDeployment("default", "skupper-router", map[string]string{"app": "skupper-router"})
	p := start(c, dir, []string{simple(c, dir, k, false, "default")}, "-duration", "3s", "out")
	ended := p.Wait(60 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	if server != nil {
		defer server.Stop(5 * time.Second)
	}
	crashed(c, name, p, k)
	if !ended || p.Code() != 0 || server == nil {
		c.Violate(name, "vancap with a real collector: ended %v\n%s", ended, story(p, k))
	}
	got, err := os.ReadFile(filepath.Join(dir, "out"))
	rep, err2 := tool.HTTP(patience, "GET", tool.ServePort, "/", "")
	if err2 != nil {
		c.Inconclusive("%s: %v\n%s", name, err2, server.Tail())
	}
	// in any order
	var a, b struct{ Data []json.RawMessage }
	if json.Unmarshal(rep.Body, &b) != nil || records == 0 || len(b.Data) != records {
		c.Inconclusive("%s: the collector does not have the %d records: %.2000s", name, records, rep.Body)
	}
	has := map[string]int{}
	for _, e := range b.Data {
		has[string(e)]++
	}
	bad := json.Unmarshal(got, &a) != nil || len(a.Data) != records
	for _, e := range a.Data {
		if has[string(e)]--; has[string(e)] < 0 {
			bad = true
		}
	}
	if err != nil || bad {
		c.Violate(name, "captured (%v) %d bytes: %.3000s\nwhile the collector serves %d bytes (%d records): %.3000s", err, len(got), got, len(rep.Body), records, rep.Body)
	}
	c.Count("captures of a real collector", 1)
	c.Case(fmt.Sprint("real ", len(srcs), " sources, ", records, " records"))
}
