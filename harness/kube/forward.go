package kube

import (
	"bufio"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/moby/spdystream"
)

var quiet = log.New(io.Discard, "", 0)

// Collector is what a pod serves on its port.
type Collector struct {
	// Dial, when set, connects to a real collector instead
	Dial func() (net.Conn, error)

	Status int
	Body   []byte
	// Mode of the response: "length", "chunked" or "close"
	Mode string
	// Pace between pieces of the body
	Pace time.Duration
	// Fault: "" (none), "refuse" (nobody listens), "empty" (closed without a
	// response), "garbage", "truncate", "stall", "drop" (the connection is
	// lost); the last three after CutAt bytes of the body
	Fault string
	CutAt int

	mu sync.Mutex
	// Served counts the responses completed
	served int
	// asked are the requests got
	asked []string
	when  []time.Time
	// Stalled is called once it stalls
	Asked, Stalled, Written func()
}

// Served counts complete responses.
func (c *Collector) Served() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.served
}

// Requests are the requests and when they came.
func (c *Collector) Requests() ([]string, []time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string{}, c.asked...), append([]time.Time{}, c.when...)
}

// ForwardFault makes forwarding fail: "" (no), "refuse-streams".
type ForwardFault string

func (k *Cluster) forward(w http.ResponseWriter, r *http.Request, q *Request, f Fault) {
	k.mu.Lock()
	var pod *Pod
	for _, p := range k.pods {
		if p.NS == q.NS && p.Name == q.Name {
			pod = p
		}
	}
	var ff ForwardFault
	if pod != nil && k.cfg.ForwardFault != nil {
		ff = k.cfg.ForwardFault(pod)
	}
	k.mu.Unlock()
	if pod == nil {
		status(w, 404, "NotFound", fmt.Sprintf("pods %q not found", q.Name))
		return
	}
	if !strings.Contains(strings.ToLower(r.Header.Get("Upgrade")), "spdy/3.1") {
		status(w, 400, "BadRequest", "unable to upgrade: missing upgrade headers in request")
		return
	}
	h, ok := w.(http.Hijacker)
	if !ok {
		status(w, 500, "InternalError", "cannot upgrade")
		return
	}
	if f.Processed != nil {
		f.Processed()
	}
	if f.DelayAfter > 0 {
		time.Sleep(f.DelayAfter)
	}
	raw, rw, err := h.Hijack()
	if err != nil {
		return
	}
	defer raw.Close()
	switch f.What {
	case "drop-after":
		return
	case "hang-after":
		io.Copy(io.Discard, raw)
		return
	}
	k.mu.Lock()
	select {
	case <-k.quit:
		k.mu.Unlock()
		return
	default:
	}
	k.conns[raw] = true
	k.mu.Unlock()
	defer func() {
		k.mu.Lock()
		delete(k.conns, raw)
		k.mu.Unlock()
	}()
	fmt.Fprintf(rw, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: SPDY/3.1\r\nX-Stream-Protocol-Version: portforward.k8s.io\r\n\r\n")
	rw.Flush()
	conn := &buffered{raw, rw.Reader}
	sc, err := spdystream.NewConnection(conn, true)
	if err != nil {
		return
	}
	if f.Answered != nil {
		f.Answered()
	}
	fwd := &forwarding{k: k, pod: pod, conn: raw, errs: map[string]*spdystream.Stream{}, data: map[string]*spdystream.Stream{}}
	sc.Serve(func(s *spdystream.Stream) {
		if ff == "refuse-streams" {
			s.Refuse()
			return
		}
		if s.SendReply(http.Header{}, false) != nil {
			return
		}
		fwd.stream(s)
	})
	sc.Close()
}

type buffered struct {
	net.Conn
	r *bufio.Reader
}

func (b *buffered) Read(p []byte) (int, error) { return b.r.Read(p) }

type forwarding struct {
	k    *Cluster
	pod  *Pod
	conn net.Conn
	mu   sync.Mutex
	errs map[string]*spdystream.Stream
	data map[string]*spdystream.Stream
}

func (f *forwarding) stream(s *spdystream.Stream) {
	id, typ := s.Headers().Get("requestID"), s.Headers().Get("streamType")
	f.mu.Lock()
	switch typ {
	case "error":
		f.errs[id] = s
	case "data":
		f.data[id] = s
	}
	e, d := f.errs[id], f.data[id]
	f.mu.Unlock()
	if e == nil || d == nil {
		return
	}
	go func() {
		port := d.Headers().Get("port")
		if msg := f.pod.Serve.serve(d, f.conn, port, f.k.quit); msg != "" {
			fmt.Fprint(e, msg)
		}
		e.Close()
		d.Close()
	}()
}

// serve handles one forwarded connection. What it returns is written to the
// error stream.
func (c *Collector) serve(s io.ReadWriter, conn net.Conn, port string, quit chan struct{}) string {
	refused := fmt.Sprintf("exit status 1: dial tcp4 127.0.0.1:%s: connect: connection refused", port)
	if c == nil || port != "9090" || c.Fault == "refuse" {
		return refused
	}
	if c.Dial != nil {
		to, err := c.Dial()
		if err != nil {
			return refused
		}
		defer to.Close()
		go func() {
			io.Copy(to, s)
			if t, ok := to.(*net.TCPConn); ok {
				t.CloseWrite()
			}
		}()
		io.Copy(s, to)
		return ""
	}
	br := bufio.NewReader(s)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return ""
		}
		io.Copy(io.Discard, req.Body)
		c.mu.Lock()
		c.asked = append(c.asked, req.Method+" "+req.URL.RequestURI())
		c.when = append(c.when, time.Now())
		c.mu.Unlock()
		if c.Asked != nil {
			c.Asked()
		}
		if !c.respond(s, conn, quit) {
			return ""
		}
	}
}

func (c *Collector) respond(w io.Writer, conn net.Conn, quit chan struct{}) bool {
	switch c.Fault {
	case "empty":
		return false
	case "garbage":
		io.WriteString(w, "220 mail.example.com ESMTP\r\n\r\n")
		return false
	}
	head := fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Type: application/json\r\n", c.Status, http.StatusText(c.Status))
	switch c.Mode {
	case "length":
		head += fmt.Sprintf("Content-Length: %d\r\n", len(c.Body))
	case "chunked":
		head += "Transfer-Encoding: chunked\r\n"
	case "close":
		head += "Connection: close\r\n"
	}
	io.WriteString(w, head+"\r\n")
	body := c.Body
	cut := c.Fault == "truncate" || c.Fault == "stall" || c.Fault == "drop"
	if cut {
		body = body[:c.CutAt]
	}
	for len(body) > 0 {
		n := min(len(body), 16<<10)
		var err error
		if c.Mode == "chunked" {
			_, err = fmt.Fprintf(w, "%x\r\n%s\r\n", n, body[:n])
		} else {
			_, err = w.Write(body[:n])
		}
		if err != nil {
			return false
		}
		body = body[n:]
		if c.Pace > 0 {
			select {
			case <-time.After(c.Pace):
			case <-quit:
				return false
			}
		}
	}
	switch c.Fault {
	case "truncate":
		return false
	case "stall":
		if c.Stalled != nil {
			c.Stalled()
		}
		<-quit
		return false
	case "drop":
		conn.Close()
		return false
	}
	if c.Mode == "chunked" {
		io.WriteString(w, "0\r\n\r\n")
	}
	c.mu.Lock()
	c.served++
	c.mu.Unlock()
	if c.Written != nil {
		c.Written()
	}
	return c.Mode != "close"
}
