// Package kube is a scripted Kubernetes API server: deployments that become
// ready, pods that serve a collector's port, port forwarding over SPDY, and
// failures of every request. It records who asked for what.
package kube

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"
)

type obj = map[string]any

// Kinds of requests
const (
	GetRouter = "get-router" // look up the network's router
	Get       = "get"        // look up another deployment
	Create    = "create"     // create a deployment
	Delete    = "delete"     // delete a deployment
	ListPods  = "list-pods"
	GetPod    = "get-pod"
	Forward   = "forward"
	Other     = "other"
)

// Request is a request the server got.
type Request struct {
	At     time.Time
	Kind   string
	Nth    int // of the kind, from 0
	Method string
	Path   string
	NS     string
	Name   string
	Host   string
	Auth   string
	As     string
	CN     string // of the client's certificate
	Proto  string
	// Result is what happened
	Result string
	// Done is when the server was done with it
	Done time.Time
}

func (r *Request) String() string {
	return fmt.Sprintf("%s %s %s: %s", r.At.Format("05.000"), r.Method, r.Path, r.Result)
}

// Fault is what goes wrong with a request.
type Fault struct {
	// What: "" (nothing), "status", "drop", "hang", "garbage" (before it is
	// processed), "drop-after", "hang-after", "garbage-after"
	What string
	Code int
	// Delay before it is processed, and before the response
	Delay, DelayAfter time.Duration
	// called when the request arrives, is processed, is answered
	Arrived, Processed, Answered func()
}

func (f Fault) String() string {
	s := f.What
	if f.What == "status" {
		s = fmt.Sprint("status ", f.Code)
	}
	return s
}

// Deployment is a deployment.
type Deployment struct {
	NS, Name, UID string
	Obj           obj
	// ByClient is set for those created through the API
	ByClient bool
	// At is when it was created, Deleted when it was deleted, and by whom
	At, Deleted     time.Time
	DeletedByClient bool
	// Orphaned is set when the client asked for its pods to be kept
	Orphaned bool
	ready    bool
	// ReadyShown is when its readiness was first reported
	ReadyShown time.Time
}

// Pod is a pod.
type Pod struct {
	NS, Name, UID string
	Labels        map[string]string
	Terminating   bool
	Ready         bool
	Unknown       bool // whether it is ready is not known any more
	Owner         *Deployment
	Serve         *Collector
}

// Config of a cluster.
type Config struct {
	Name   string
	TLS    *tls.Config // nil: plain HTTP
	HTTP2  bool
	Prefix string // of all paths
	// NewPod is called for the pod of a deployment created by the client
	NewPod func(*Deployment, *Pod)
	// ReadyAfter is how long a deployment takes
	ReadyAfter time.Duration
	// Faults of requests
	Faults func(*Request) Fault
	// Forwarded is called when a port is forwarded
	ForwardFault func(*Pod) ForwardFault
}

// Cluster is a scripted API server.
type Cluster struct {
	cfg  Config
	srv  *httptest.Server
	quit chan struct{}

	mu    sync.Mutex
	log   []*Request
	nth   map[string]int
	deps  []*Deployment
	pods  []*Pod
	seq   int
	stray []string // requests that the server does not understand
	conns map[net.Conn]bool
}

// New starts a cluster.
func New(cfg Config) *Cluster {
	k := &Cluster{cfg: cfg, quit: make(chan struct{}), nth: map[string]int{}, conns: map[net.Conn]bool{}}
	k.srv = httptest.NewUnstartedServer(http.HandlerFunc(k.serve))
	k.srv.Config.ErrorLog = quiet
	if cfg.TLS != nil {
		k.srv.TLS = cfg.TLS
		k.srv.EnableHTTP2 = cfg.HTTP2
		k.srv.StartTLS()
	} else {
		k.srv.Start()
	}
	return k
}

// Addr is the address the server listens on.
func (k *Cluster) Addr() string { return k.srv.Listener.Addr().String() }

// Close ends the server.
func (k *Cluster) Close() {
	k.mu.Lock()
	select {
	case <-k.quit:
		k.mu.Unlock()
		return
	default:
	}
	close(k.quit)
	for c := range k.conns {
		c.Close()
	}
	k.mu.Unlock()
	k.srv.CloseClientConnections()
	k.srv.Close()
}

// AddDeployment adds a deployment that is there without the client.
func (k *Cluster) AddDeployment(ns, name string, labels map[string]string) *Deployment {
	k.mu.Lock()
	defer k.mu.Unlock()
	l := obj{}
	for a, b := range labels {
		l[a] = b
	}
	return k.addDeployment(ns, obj{
		"metadata": obj{"name": name, "labels": l},
		"spec": obj{"selector": obj{"matchLabels": l}, "template": obj{"metadata": obj{"labels": l},
			"spec": obj{"containers": []any{obj{"name": "c", "image": "example.com/c:1"}}}}},
	}, false)
}

func (k *Cluster) addDeployment(ns string, o obj, byClient bool) *Deployment {
	k.seq++
	md, _ := o["metadata"].(obj)
	if md == nil {
		md = obj{}
		o["metadata"] = md
	}
	name, _ := md["name"].(string)
	if g, _ := md["generateName"].(string); name == "" && g != "" {
		name = fmt.Sprintf("%s%05x", g, k.seq*7919)
		md["name"] = name
	}
	d := &Deployment{NS: ns, Name: name, UID: fmt.Sprintf("d0000000-0000-4000-8000-%012x", k.seq), Obj: o, ByClient: byClient, At: time.Now(), ready: !byClient}
	md["namespace"] = ns
	md["uid"] = d.UID
	md["resourceVersion"] = fmt.Sprint(1000 + k.seq)
	md["creationTimestamp"] = d.At.UTC().Format(time.RFC3339)
	md["generation"] = 1
	o["kind"], o["apiVersion"] = "Deployment", "apps/v1"
	k.deps = append(k.deps, d)
	if byClient {
		pod := k.newPod(ns, fmt.Sprintf("%s-%08x-%05x", name, k.seq*104729, k.seq*7), labelsOf(dig(o, "spec", "template", "metadata")), nil)
		pod.Owner = d
		pod.Labels["pod-template-hash"] = fmt.Sprintf("%08x", k.seq*104729)
		if k.cfg.NewPod != nil {
			k.cfg.NewPod(d, pod)
		}
		time.AfterFunc(k.cfg.ReadyAfter, func() {
			k.mu.Lock()
			defer k.mu.Unlock()
			if d.Deleted.IsZero() {
				d.ready = true
				pod.Ready = true
			}
		})
	}
	return d
}

// AddPod adds a pod that has nothing to do with the client.
func (k *Cluster) AddPod(ns, name string, labels map[string]string, serve *Collector) *Pod {
	k.mu.Lock()
	defer k.mu.Unlock()
	l := map[string]string{}
	for a, b := range labels {
		l[a] = b
	}
	p := k.newPod(ns, name, l, serve)
	p.Ready = true
	return p
}

func (k *Cluster) newPod(ns, name string, labels map[string]string, serve *Collector) *Pod {
	k.seq++
	p := &Pod{NS: ns, Name: name, UID: fmt.Sprintf("e0000000-0000-4000-8000-%012x", k.seq), Labels: labels, Serve: serve}
	k.pods = append(k.pods, p)
	return p
}

// Update changes a pod.
func (k *Cluster) Update(f func()) {
	k.mu.Lock()
	defer k.mu.Unlock()
	f()
}

// RemovePod removes a pod at once.
func (k *Cluster) RemovePod(p *Pod) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for i := range k.pods {
		if k.pods[i] == p {
			k.pods = append(k.pods[:i:i], k.pods[i+1:]...)
			return
		}
	}
}

// Replace deletes a deployment and creates another of the same name, as
// somebody else would.
func (k *Cluster) Replace(d *Deployment, labels map[string]string) *Deployment {
	k.mu.Lock()
	if !d.Deleted.IsZero() {
		k.mu.Unlock()
		return nil
	}
	k.remove(d, false)
	k.mu.Unlock()
	return k.AddDeployment(d.NS, d.Name, labels)
}

func (k *Cluster) remove(d *Deployment, byClient bool) {
	d.Deleted = time.Now()
	d.DeletedByClient = byClient
	for _, p := range k.pods {
		if p.Owner == d {
			p.Terminating = true
		}
	}
}

// Deployments are all that ever were.
func (k *Cluster) Deployments() []Deployment {
	k.mu.Lock()
	defer k.mu.Unlock()
	var out []Deployment
	for _, d := range k.deps {
		out = append(out, *d)
	}
	return out
}

// Created are those the client created.
func (k *Cluster) Created() []*Deployment {
	k.mu.Lock()
	defer k.mu.Unlock()
	var out []*Deployment
	for _, d := range k.deps {
		if d.ByClient {
			out = append(out, d)
		}
	}
	return out
}

// Log is a copy of the requests so far.
func (k *Cluster) Log() []Request {
	k.mu.Lock()
	defer k.mu.Unlock()
	var out []Request
	for _, r := range k.log {
		out = append(out, *r)
	}
	return out
}

// Settle waits until all requests to create that arrived are processed.
func (k *Cluster) Settle(d time.Duration) {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		open := false
		for _, q := range k.Log() {
			open = open || q.Kind == Create && q.Result == ""
		}
		if !open {
			return
		}
	}
}

// Stray are requests the server did not understand.
func (k *Cluster) Stray() []string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]string{}, k.stray...)
}

func dig(o obj, path ...string) obj {
	for _, p := range path {
		o, _ = o[p].(obj)
	}
	return o
}

func labelsOf(meta obj) map[string]string {
	out := map[string]string{}
	l, _ := meta["labels"].(obj)
	for k, v := range l {
		out[k], _ = v.(string)
	}
	return out
}

// matches evaluates an equality-based label selector.
func matches(selector string, labels map[string]string) (bool, error) {
	if selector == "" {
		return true, nil
	}
	for _, term := range strings.Split(selector, ",") {
		op, neg := "", false
		for _, o := range []string{"!=", "==", "="} {
			if strings.Contains(term, o) {
				op, neg = o, o == "!="
				break
			}
		}
		if op == "" || strings.ContainsAny(term, "() ") {
			return false, fmt.Errorf("selector %q", selector)
		}
		kv := strings.SplitN(term, op, 2)
		if (labels[kv[0]] == kv[1]) == neg {
			return false, nil
		}
	}
	return true, nil
}

func (k *Cluster) classify(r *http.Request) *Request {
	q := &Request{At: time.Now(), Kind: Other, Method: r.Method, Path: r.URL.RequestURI(), Host: r.Host, Proto: r.Proto,
		Auth: r.Header.Get("Authorization"), As: strings.Join(append(r.Header.Values("Impersonate-User"), r.Header.Values("Impersonate-Group")...), ",")}
	for _, h := range []string{"Impersonate-Uid", "Impersonate-Extra-Reason"} {
		if v := r.Header.Values(h); len(v) > 0 {
			q.As += "," + strings.Join(v, ",")
		}
	}
	if r.TLS != nil && len(r.TLS.PeerCertificates) > 0 {
		q.CN = r.TLS.PeerCertificates[0].Subject.CommonName
	}
	path, ok := strings.CutPrefix(r.URL.Path, k.cfg.Prefix)
	if !ok {
		return q
	}
	s := strings.Split(strings.Trim(path, "/"), "/")
	switch {
	case len(s) >= 6 && strings.HasPrefix(path, "/apis/apps/v1/namespaces/") && s[5] == "deployments" && len(s) <= 7:
		q.NS = s[4]
		if len(s) == 7 {
			q.Name = s[6]
		}
		switch {
		case r.Method == "GET" && q.Name == "skupper-router":
			q.Kind = GetRouter
		case r.Method == "GET" && q.Name != "":
			q.Kind = Get
		case r.Method == "POST" && q.Name == "":
			q.Kind = Create
		case r.Method == "DELETE" && q.Name != "":
			q.Kind = Delete
		}
	case len(s) >= 5 && strings.HasPrefix(path, "/api/v1/namespaces/") && s[4] == "pods":
		q.NS = s[3]
		if len(s) > 5 {
			q.Name = s[5]
		}
		switch {
		case len(s) == 5 && r.Method == "GET":
			q.Kind = ListPods
		case len(s) == 6 && r.Method == "GET":
			q.Kind = GetPod
		case len(s) == 7 && s[6] == "portforward" && (r.Method == "POST" || r.Method == "GET"):
			q.Kind = Forward
		}
	}
	if r.URL.Query().Get("watch") != "" {
		q.Kind = Other
	}
	return q
}

func (k *Cluster) serve(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	q := k.classify(r)
	k.mu.Lock()
	q.Nth = k.nth[q.Kind]
	k.nth[q.Kind]++
	k.log = append(k.log, q)
	var f Fault
	if k.cfg.Faults != nil {
		f = k.cfg.Faults(q)
	}
	k.mu.Unlock()
	result := func(format string, args ...any) {
		k.mu.Lock()
		q.Result = fmt.Sprintf(format, args...)
		q.Done = time.Now()
		k.mu.Unlock()
	}
	wait := func(d time.Duration) {
		if d > 0 {
			select {
			case <-time.After(d):
			case <-k.quit:
			}
		}
	}
	hang := func() {
		select {
		case <-r.Context().Done():
		case <-k.quit:
		}
		panic(http.ErrAbortHandler)
	}
	garbage := func() {
		w.Header().Set("Content-Type", "text/html")
		io.WriteString(w, "<html>bad gateway</html>")
	}
	if f.Arrived != nil {
		f.Arrived()
	}
	wait(f.Delay)
	switch f.What {
	case "status":
		result("%v", f)
		status(w, f.Code, "Fault", "a scripted failure")
		if f.Answered != nil {
			http.NewResponseController(w).Flush()
			f.Answered()
		}
		return
	case "drop":
		result("dropped")
		panic(http.ErrAbortHandler)
	case "hang":
		result("not answered")
		hang()
	case "garbage":
		result("garbage")
		garbage()
		return
	}
	if q.Kind == Forward {
		result("forward")
		k.forward(w, r, q, f)
		return
	}
	code, reply := k.process(q, r.URL.Query(), body)
	result("%d %v%v", code, reply["reason"], f)
	if f.Processed != nil {
		f.Processed()
	}
	wait(f.DelayAfter)
	switch f.What {
	case "drop-after":
		panic(http.ErrAbortHandler)
	case "hang-after":
		hang()
	case "garbage-after":
		garbage()
		return
	}
	writeJSON(w, code, reply)
	if f.Answered != nil {
		http.NewResponseController(w).Flush()
		f.Answered()
	}
}

// process does what a request asks for.
func (k *Cluster) process(q *Request, query url.Values, body []byte) (int, obj) {
	k.mu.Lock()
	defer k.mu.Unlock()
	find := func() *Deployment {
		for _, d := range k.deps {
			if d.NS == q.NS && d.Name == q.Name && d.Deleted.IsZero() {
				return d
			}
		}
		return nil
	}
	notFound := func() (int, obj) {
		return 404, statusObj(404, "NotFound", fmt.Sprintf("%q not found", q.Name))
	}
	switch q.Kind {
	case GetRouter, Get:
		d := find()
		if d == nil {
			return notFound()
		}
		return 200, k.show(d)
	case Create:
		var o obj
		if err := json.Unmarshal(body, &o); err != nil {
			return 400, statusObj(400, "BadRequest", err.Error())
		}
		// like the real one: the template's labels have to match the selector
		sel := labelsOf(obj{"labels": dig(o, "spec", "selector")["matchLabels"]})
		tmpl := labelsOf(dig(o, "spec", "template", "metadata"))
		for a, b := range sel {
			if tmpl[a] != b {
				return 422, statusObj(422, "Invalid", "selector does not match template labels")
			}
		}
		if len(sel) == 0 {
			return 422, statusObj(422, "Invalid", "no selector")
		}
		name, _ := dig(o, "metadata")["name"].(string)
		q.Name = name
		if find() != nil {
			return 409, statusObj(409, "AlreadyExists", fmt.Sprintf("deployments.apps %q already exists", name))
		}
		d := k.addDeployment(q.NS, o, true)
		return 201, k.show(d)
	case Delete:
		d := find()
		if d == nil {
			return notFound()
		}
		var o obj
		json.Unmarshal(body, &o)
		if uid, ok := dig(o, "preconditions")["uid"].(string); ok && uid != d.UID {
			return 409, statusObj(409, "Conflict", "the UID in the precondition does not match the UID in record")
		}
		if rv, ok := dig(o, "preconditions")["resourceVersion"].(string); ok && rv != fmt.Sprint(dig(d.Obj, "metadata")["resourceVersion"]) {
			return 409, statusObj(409, "Conflict", "the ResourceVersion in the precondition does not match")
		}
		policy, _ := o["propagationPolicy"].(string)
		orphan, _ := o["orphanDependents"].(bool)
		d.Orphaned = orphan || policy == "Orphan" || query.Get("propagationPolicy") == "Orphan" || query.Get("orphanDependents") == "true"
		k.remove(d, true)
		return 200, obj{"kind": "Status", "apiVersion": "v1", "metadata": obj{}, "status": "Success"}
	case ListPods:
		items := []any{}
		pods := append([]*Pod{}, k.pods...)
		sort.Slice(pods, func(i, j int) bool { return pods[i].Name < pods[j].Name })
		for _, p := range pods {
			ok, err := matches(query.Get("labelSelector"), p.Labels)
			if err != nil {
				k.stray = append(k.stray, err.Error())
				return 400, statusObj(400, "BadRequest", err.Error())
			}
			if p.NS == q.NS && ok {
				items = append(items, showPod(p))
			}
		}
		return 200, obj{"kind": "PodList", "apiVersion": "v1", "metadata": obj{"resourceVersion": "5000"}, "items": items}
	case GetPod:
		for _, p := range k.pods {
			if p.NS == q.NS && p.Name == q.Name {
				return 200, showPod(p)
			}
		}
		return notFound()
	}
	k.stray = append(k.stray, q.Method+" "+q.Path)
	return 404, statusObj(404, "NotFound", "the server could not find the requested resource")
}

// show is a deployment with its status.
func (k *Cluster) show(d *Deployment) obj {
	out := obj{}
	for a, b := range d.Obj {
		out[a] = b
	}
	st := obj{"observedGeneration": 1, "replicas": 1, "updatedReplicas": 1}
	if d.ready {
		st["readyReplicas"], st["availableReplicas"] = 1, 1
		st["conditions"] = []any{obj{"type": "Available", "status": "True"}, obj{"type": "Progressing", "status": "True"}}
		if d.ReadyShown.IsZero() {
			d.ReadyShown = time.Now()
		}
	} else {
		st["unavailableReplicas"] = 1
	}
	out["status"] = st
	// a copy that can be encoded without the lock
	b, _ := json.Marshal(out)
	out = nil
	json.Unmarshal(b, &out)
	return out
}

func showPod(p *Pod) obj {
	l := obj{}
	for a, b := range p.Labels {
		l[a] = b
	}
	phase, ready := "Pending", "False"
	cs := obj{"name": "vanflow-server", "ready": p.Ready, "state": obj{"waiting": obj{"reason": "ContainerCreating"}}}
	if p.Ready {
		phase, ready = "Running", "True"
		cs["state"] = obj{"running": obj{"startedAt": "2024-01-01T00:00:00Z"}}
	}
	contReady := ready
	if p.Unknown {
		ready = "Unknown"
	}
	md := obj{"name": p.Name, "namespace": p.NS, "uid": p.UID, "labels": l, "resourceVersion": "4000", "creationTimestamp": "2024-01-01T00:00:00Z"}
	if p.Terminating {
		md["deletionTimestamp"] = time.Now().Add(30 * time.Second).UTC().Format(time.RFC3339)
		md["deletionGracePeriodSeconds"] = 30
	}
	if p.Owner != nil {
		md["ownerReferences"] = []any{obj{"apiVersion": "apps/v1", "kind": "ReplicaSet", "controller": true, "name": p.Name[:len(p.Name)-6], "uid": p.UID}}
	}
	return obj{"kind": "Pod", "apiVersion": "v1", "metadata": md,
		"spec":   obj{"containers": []any{obj{"name": "vanflow-server"}}},
		"status": obj{"phase": phase, "conditions": []any{obj{"type": "Ready", "status": ready}, obj{"type": "ContainersReady", "status": contReady}}, "containerStatuses": []any{cs}}}
}

func statusObj(code int, reason, msg string) obj {
	return obj{"kind": "Status", "apiVersion": "v1", "metadata": obj{}, "status": "Failure", "message": msg, "reason": reason, "code": code}
}

func status(w http.ResponseWriter, code int, reason, msg string) {
	writeJSON(w, code, statusObj(code, reason, msg))
}

func writeJSON(w http.ResponseWriter, code int, o obj) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	w.Write(b)
}

// SetReady makes a deployment ready.
func (k *Cluster) SetReady(d *Deployment, p *Pod) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if d.Deleted.IsZero() {
		d.ready, p.Ready = true, true
	}
}

// Container is what a deployment runs: the image, the arguments and where
// secrets are mounted.
func (d *Deployment) Container() (image string, args []string, secrets map[string]string) {
	secrets = map[string]string{}
	spec := dig(d.Obj, "spec", "template", "spec")
	cs, _ := spec["containers"].([]any)
	if len(cs) == 0 {
		return
	}
	c, _ := cs[0].(obj)
	image, _ = c["image"].(string)
	as, _ := c["args"].([]any)
	for _, a := range as {
		s, _ := a.(string)
		args = append(args, s)
	}
	vols := map[string]string{}
	vs, _ := spec["volumes"].([]any)
	for _, v := range vs {
		o, _ := v.(obj)
		n, _ := o["name"].(string)
		vols[n], _ = dig(o, "secret")["secretName"].(string)
	}
	ms, _ := c["volumeMounts"].([]any)
	for _, m := range ms {
		o, _ := m.(obj)
		n, _ := o["name"].(string)
		p, _ := o["mountPath"].(string)
		if vols[n] != "" {
			secrets[vols[n]] = p
		}
	}
	return
}

// Labels of the deployment.
func (d *Deployment) Labels() map[string]string { return labelsOf(dig(d.Obj, "metadata")) }
