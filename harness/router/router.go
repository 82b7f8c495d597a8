// Package router is a scripted AMQP 1.0 peer. It speaks real AMQP over real
// (loopback) sockets, routes messages like a multicast router, keeps books of
// everything it sees, and fails on request at any step of the protocol.
package router

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"syscall"
	"time"

	"github.com/Azure/go-amqp/internal/buffer"
	"github.com/Azure/go-amqp/internal/encoding"
	"github.com/Azure/go-amqp/internal/frames"
)

// Act says what the router does with a step of the protocol.
type Act int

const (
	Go     Act = iota // behave
	Drop              // close the TCP connection
	Reset             // abort the TCP connection
	Close             // close the connection with an error
	End               // end the session with an error
	Detach            // detach the link with an error (attach: refuse it)
	Ignore            // do not answer this frame
	Mute              // never answer on this connection again
	Reject            // transfers: rejected by the peer
)

var actNames = []string{"go", "drop", "reset", "close", "end", "detach", "ignore", "mute", "reject"}

func (a Act) String() string { return actNames[a] }

// Kinds of steps. All but accept and deliver are frames of the client.
const (
	KAccept      = "accept"
	KHeader      = "header"
	KSASL        = "sasl"
	KOpen        = "open"
	KBegin       = "begin"
	KAttach      = "attach"
	KFlow        = "flow"
	KTransfer    = "transfer"
	KDisposition = "disposition"
	KDetach      = "detach"
	KEnd         = "end"
	KClose       = "close"
	KDeliver     = "deliver" // a message was just sent to a client
)

// Step is one step of the protocol, shown to Config.Decide.
type Step struct {
	Kind      string
	Conn      int
	N         int    // occurrences of this kind before, over all connections
	Sender    bool   // attach, transfer...: the client is the sender of the link
	Addr      string // attach, transfer...
	Payload   []byte // transfer
	Container string // container id once opened
}

// Event is an entry of the router's log.
type Event struct {
	Seq     int
	At      time.Time
	Conn    int
	Kind    string // step kinds; for the router's own: refused, gone, ended, detached, closed
	Link    int    // router wide link number, 0 for none
	Sender  bool
	Addr    string
	ID      uint32 // delivery id
	Payload []byte
	Outcome string // disposition: accepted, rejected, released, modified, none
	Settled bool
	Credit  int    // flow: credit offered to the router. attach: 0
	Open    int    // flow: unsettled deliveries on the link
	Max     uint32 // open: the maximum frame size announced
	Note    string
}

func (e Event) String() string {
	return fmt.Sprintf("#%d c%d %s l%d %s id%d %q %s credit=%d open=%d %s", e.Seq, e.Conn, e.Kind, e.Link, e.Addr, e.ID, trunc(e.Payload), e.Outcome, e.Credit, e.Open, e.Note)
}

func trunc(b []byte) string {
	if len(b) > 40 {
		b = b[:40]
	}
	return string(b)
}

type Config struct {
	TLS          *tls.Config
	TLSFor       func(conn int) *tls.Config // by connection, nil for none
	Decide       func(Step) Act
	ReadBuffer   int    // of the sockets; small ones make Stall tell sooner
	SenderCredit uint32 // credit granted to sending clients; default 200.
	NoCredit     func(addr string) bool
	MaxFrameSize uint32
	IdleTimeout  time.Duration
	Settled      bool // deliver messages pre-settled
	// NoRoute makes the router not pass on messages it received
	NoRoute bool
	// After decides what follows the acceptance of a message, in the same
	// instant. It is called with the router locked.
	After func(Step) Act
	// OnTransfer is called (unlocked) for every complete message received
	OnTransfer func(conn int, addr string, payload []byte)
	Quiet      bool // keep no log (only counters and books)
}

type Router struct {
	stall chan struct{}
	cfg   Config
	port  int

	mu     sync.Mutex
	ln     net.Listener
	conns  map[int]*Conn
	nConn  int
	nLink  int
	seq    int
	kinds  map[string]int
	log    []Event
	closed bool
	change chan struct{}
	wg     sync.WaitGroup
}

// Conn is a connection of a client.
type Conn struct {
	ID        int
	r         *Router
	nc        net.Conn
	container string
	sessions  map[uint16]*session
	out       chan []byte
	outMu     sync.Mutex
	outQ      [][]byte
	outSig    chan struct{}
	done      chan struct{}
	doneOnce  sync.Once
	mute      bool
	opened    bool
	peerMax   uint32
	closing   bool
	TLSErr    error
}

type session struct {
	c          *Conn
	ch         uint16
	links      map[uint32]*Link // by the client's handle
	stale      map[uint32]bool  // handles the client detached
	nextHandle uint32
	nextIn     uint32
	nextOut    uint32 // transfer frame ids
	nextDel    uint32 // delivery ids
	deliveries map[uint32]*delivery
	ended      bool
}

// Link is a link of a client.
type Link struct {
	ID       int
	Conn     int
	Name     string
	Sender   bool // the client sends
	Addr     string
	s        *session
	theirs   uint32
	ours     uint32
	detached bool
	owed     int // detaches the client owes for earlier links of its handle
	// client receives
	count  uint32
	credit uint32
	queue  []qmsg
	open   int
	// client sends
	granted   uint32
	partial   []byte
	partID    uint32
	received  uint32
	nReceived int
}

type qmsg struct {
	payload []byte
	settled bool
}

type delivery struct {
	id      uint32
	link    *Link
	settled bool
}

// New starts a router on a loopback port outside of the ephemeral range, so
// that it can be closed and opened again on the same port.
func New(cfg Config) *Router {
	if cfg.SenderCredit == 0 {
		cfg.SenderCredit = 200
	}
	if cfg.MaxFrameSize == 0 {
		cfg.MaxFrameSize = 65536
	}
	r := &Router{cfg: cfg, conns: map[int]*Conn{}, kinds: map[string]int{}, change: make(chan struct{})}
	var err error
	for i := 0; i < 2000; i++ {
		p := takePort()
		var ln net.Listener
		if ln, err = listen(p); err == nil {
			r.ln, r.port = ln, p
			break
		}
		releasePort(p)
	}
	if r.ln == nil {
		panic(fmt.Sprint("router: no port: ", err))
	}
	r.wg.Add(1)
	go r.serve(r.ln)
	return r
}

// Ports belong to one router of the process from New to Close, even while it
// refuses connections, and are reused as late as possible: the client of one
// router must never find another one at its address.
var ports struct {
	sync.Mutex
	next  int
	taken map[int]bool
}

func takePort() int {
	ports.Lock()
	defer ports.Unlock()
	if ports.taken == nil {
		ports.taken = map[int]bool{}
		ports.next = int(time.Now().UnixNano() / 1000 % 15000)
	}
	for {
		ports.next = (ports.next + 7919) % 15000
		if p := 15000 + ports.next; !ports.taken[p] {
			ports.taken[p] = true
			return p
		}
	}
}

func releasePort(p int) {
	ports.Lock()
	delete(ports.taken, p)
	ports.Unlock()
}

func listen(port int) (net.Listener, error) {
	lc := net.ListenConfig{Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
	}}
	return lc.Listen(context.Background(), "tcp", fmt.Sprintf("127.0.0.1:%d", port))
}

func (r *Router) Port() int { return r.port }

func (r *Router) Addr() string {
	if r.cfg.TLS != nil {
		return fmt.Sprintf("amqps://127.0.0.1:%d", r.port)
	}
	return fmt.Sprintf("amqp://127.0.0.1:%d", r.port)
}

// SetDecide replaces the decision function.
func (r *Router) SetDecide(f func(Step) Act) {
	r.mu.Lock()
	r.cfg.Decide = f
	r.mu.Unlock()
}

// Refuse closes the listening socket, so that connecting is refused, or opens it again.
func (r *Router) Refuse(on bool) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if on {
		if r.ln != nil {
			r.ln.Close()
			r.ln = nil
		}
		return nil
	}
	if r.ln != nil || r.closed {
		return nil
	}
	var err error
	for i := 0; i < 100; i++ {
		var ln net.Listener
		if ln, err = listen(r.port); err == nil {
			r.ln = ln
			r.wg.Add(1)
			go r.serve(ln)
			return nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return err
}

// Close shuts the router down and waits for its goroutines.
func (r *Router) Close() {
	r.mu.Lock()
	again := r.closed
	r.closed = true
	if r.ln != nil {
		r.ln.Close()
		r.ln = nil
	}
	for _, c := range r.conns {
		c.abort(false)
	}
	r.mu.Unlock()
	r.wg.Wait()
	if !again {
		releasePort(r.port)
	}
}

func (r *Router) bump() { // locked
	close(r.change)
	r.change = make(chan struct{})
}

func (r *Router) record(e Event) { // locked
	r.seq++
	e.Seq, e.At = r.seq, time.Now()
	if !r.cfg.Quiet {
		r.log = append(r.log, e)
	}
	r.bump()
}

// Log returns the events from position i on.
func (r *Router) Log(i int) []Event {
	r.mu.Lock()
	defer r.mu.Unlock()
	if i > len(r.log) {
		i = len(r.log)
	}
	return append([]Event(nil), r.log[i:]...)
}

func (r *Router) Len() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.log)
}

// Count returns how often a step was seen.
func (r *Router) Count(kind string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.kinds[kind]
}

// Await waits until cond (called with the router locked: use the View) holds.
func (r *Router) Await(d time.Duration, cond func(v View) bool) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	for {
		r.mu.Lock()
		ok, ch := cond(View{r}), r.change
		r.mu.Unlock()
		if ok {
			return true
		}
		select {
		case <-ch:
		case <-t.C:
			r.mu.Lock()
			ok := cond(View{r})
			r.mu.Unlock()
			return ok
		}
	}
}

// With calls f with the router locked.
func (r *Router) With(f func(v View)) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f(View{r})
}

// View looks at the books of a locked router.
type View struct{ r *Router }

func (v View) Log() []Event          { return v.r.log }
func (v View) Count(kind string) int { return v.r.kinds[kind] }

// Conns lists the TCP connections presently open.
func (v View) Conns() []*Conn {
	var res []*Conn
	for _, c := range v.r.conns {
		res = append(res, c)
	}
	return res
}

func (c *Conn) Container() string { return c.container }
func (c *Conn) Opened() bool      { return c.opened }
func (c *Conn) Sessions() int {
	n := 0
	for _, s := range c.sessions {
		if !s.ended {
			n++
		}
	}
	return n
}

// Links lists the links presently attached.
func (v View) Links() []*Link {
	var res []*Link
	for _, c := range v.r.conns {
		for _, s := range c.sessions {
			if s.ended {
				continue
			}
			for _, l := range s.links {
				if !l.detached {
					res = append(res, l)
				}
			}
		}
	}
	return res
}

// Receivers counts the attached receivers of an address; ready only counts those offering credit.
func (v View) Receivers(addr string, ready bool) int {
	n := 0
	for _, l := range v.Links() {
		if !l.Sender && l.Addr == addr && (!ready || l.credit > 0) {
			n++
		}
	}
	return n
}

// Senders counts the attached senders of an address.
func (v View) Senders(addr string) int {
	n := 0
	for _, l := range v.Links() {
		if l.Sender && l.Addr == addr {
			n++
		}
	}
	return n
}

func (l *Link) Credit() int         { return int(l.credit) }
func (l *Link) Unsettled() int      { return l.open }
func (l *Link) Queued() int         { return len(l.queue) }
func (l *Link) ContainerID() string { return l.s.c.container }

// Publish sends a message to every attached receiver of an address and
// returns how many there were.
func (r *Router) Publish(addr string, payload []byte) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.publish(addr, payload)
}

func (r *Router) publish(addr string, payload []byte) int { // locked
	n := 0
	for _, l := range (View{r}).Links() {
		if !l.Sender && l.Addr == addr {
			l.queue = append(l.queue, qmsg{payload, r.cfg.Settled})
			n++
			l.pump()
		}
	}
	return n
}

// Fault applies an action to everything that matches: a connection
// (Drop/Reset/Close/Mute), its sessions (End) or its links (Detach). addr "" is any.
func (r *Router) Fault(a Act, match func(c *Conn) bool, addr string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, c := range r.conns {
		if match != nil && !match(c) {
			continue
		}
		switch a {
		case End:
			for _, s := range c.sessions {
				if !s.ended {
					c.act(End, s, nil)
					n++
				}
			}
		case Detach:
			for _, s := range c.sessions {
				for _, l := range s.links {
					if !s.ended && !l.detached && (addr == "" || l.Addr == addr) {
						c.act(Detach, s, l)
						n++
					}
				}
			}
		default:
			c.act(a, nil, nil)
			n++
		}
	}
	return n
}

// Stall makes the router stop (or resume) reading from all connections, so
// that the clients' writes back up.
func (r *Router) Stall(on bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if on && r.stall == nil {
		r.stall = make(chan struct{})
	}
	if !on && r.stall != nil {
		close(r.stall)
		r.stall = nil
	}
}

// Unmute makes muted connections answer again (what was ignored stays ignored).
func (r *Router) Unmute() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.conns {
		c.mute = false
	}
}

func (r *Router) serve(ln net.Listener) {
	defer r.wg.Done()
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		r.mu.Lock()
		if r.closed {
			r.mu.Unlock()
			nc.Close()
			return
		}
		if tc, ok := nc.(*net.TCPConn); ok && r.cfg.ReadBuffer > 0 {
			tc.SetReadBuffer(r.cfg.ReadBuffer)
		}
		r.nConn++
		c := &Conn{ID: r.nConn, r: r, nc: nc, sessions: map[uint16]*session{}, outSig: make(chan struct{}, 1), done: make(chan struct{}), peerMax: 512}
		r.conns[c.ID] = c
		r.wg.Add(1)
		r.mu.Unlock()
		go c.run()
	}
}

// abort closes the socket. Locked.
func (c *Conn) abort(reset bool) {
	c.doneOnce.Do(func() {
		if reset {
			if tc, ok := c.nc.(*net.TCPConn); ok {
				tc.SetLinger(0)
			}
		}
		c.nc.Close()
		close(c.done)
	})
}

// shut closes the socket once everything queued was written. Locked.
func (c *Conn) shut() {
	c.closing = true
	select {
	case c.outSig <- struct{}{}:
	default:
	}
}

func (c *Conn) raw(b []byte) { // any lock state
	c.outMu.Lock()
	c.outQ = append(c.outQ, b)
	c.outMu.Unlock()
	select {
	case c.outSig <- struct{}{}:
	default:
	}
}

func (c *Conn) send(typ frames.Type, ch uint16, body frames.FrameBody) {
	buf := buffer.New(nil)
	if err := frames.Write(buf, frames.Frame{Type: typ, Channel: ch, Body: body}); err != nil {
		panic(fmt.Sprint("router: cannot encode ", body, ": ", err))
	}
	c.raw(append([]byte(nil), buf.Bytes()...))
}

func (c *Conn) writer(nc net.Conn) {
	defer c.r.wg.Done()
	var tick <-chan time.Time
	for {
		c.outMu.Lock()
		q := c.outQ
		c.outQ = nil
		c.outMu.Unlock()
		for _, b := range q {
			if _, err := nc.Write(b); err != nil {
				c.abort(false)
				return
			}
		}
		if len(q) > 0 {
			continue
		}
		c.r.mu.Lock()
		closing := c.closing
		if c.opened && tick == nil {
			t := time.NewTicker(20 * time.Second)
			defer t.Stop()
			tick = t.C
		}
		mute := c.mute
		c.r.mu.Unlock()
		if closing {
			c.outMu.Lock()
			empty := len(c.outQ) == 0
			c.outMu.Unlock()
			if empty {
				c.abort(false)
				return
			}
			continue
		}
		select {
		case <-c.outSig:
		case <-tick:
			if !mute {
				c.raw([]byte{0, 0, 0, 8, 2, 0, 0, 0})
			}
		case <-c.done:
			return
		}
	}
}

func (c *Conn) run() {
	defer c.r.wg.Done()
	note := ""
	defer func() {
		c.r.mu.Lock()
		c.abort(false)
		delete(c.r.conns, c.ID)
		c.r.record(Event{Conn: c.ID, Kind: "gone", Note: note})
		c.r.mu.Unlock()
	}()
	if c.step(Step{Kind: KAccept}, nil, nil) != Go {
		if c.isMute() {
			io.Copy(io.Discard, c.nc)
		}
		return
	}
	nc := c.nc
	tcfg := c.r.cfg.TLS
	if c.r.cfg.TLSFor != nil {
		tcfg = c.r.cfg.TLSFor(c.ID)
	}
	if tcfg != nil {
		tc := tls.Server(c.nc, tcfg)
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		err := tc.HandshakeContext(ctx)
		cancel()
		c.r.mu.Lock()
		e := Event{Conn: c.ID, Kind: "tls"}
		if err != nil {
			e.Note = "failed: " + err.Error()
		} else if pc := tc.ConnectionState().PeerCertificates; len(pc) > 0 {
			e.Note = "client " + pc[0].Subject.CommonName
		} else {
			e.Note = "no client certificate"
		}
		c.r.record(e)
		c.r.mu.Unlock()
		if err != nil {
			return
		}
		nc = tc
	}
	c.r.mu.Lock()
	c.r.wg.Add(1)
	c.r.mu.Unlock()
	go c.writer(nc)
	if err := c.read(nc); err != nil {
		note = err.Error()
	}
}

func (c *Conn) isMute() bool {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	return c.mute
}

// step asks for the decision on a step, books it and applies the fault, if
// any. Called unlocked.
func (c *Conn) step(st Step, s *session, l *Link) Act {
	r := c.r
	r.mu.Lock()
	st.Conn = c.ID
	st.Container = c.container
	st.N = r.kinds[st.Kind]
	r.kinds[st.Kind]++
	d := r.cfg.Decide
	muted := c.mute
	r.mu.Unlock()
	a := Go
	if d != nil && !muted {
		a = d(st)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.mute {
		a = Mute
	}
	if a == Go || a == Ignore || a == Reject {
		return a
	}
	c.act(a, s, l)
	return a
}

// errConds are the conditions of the specification.
var errConds = []encoding.ErrCond{
	"amqp:internal-error", "amqp:not-found", "amqp:unauthorized-access", "amqp:decode-error", "amqp:resource-limit-exceeded",
	"amqp:not-allowed", "amqp:invalid-field", "amqp:not-implemented", "amqp:resource-locked", "amqp:precondition-failed",
	"amqp:resource-deleted", "amqp:illegal-state", "amqp:frame-size-too-small", "amqp:connection:forced",
	"amqp:link:detach-forced", "amqp:link:stolen", "amqp:link:message-size-exceeded", "amqp:link:transfer-limit-exceeded",
	"amqp:session:window-violation", "amqp:session:errant-link", "qd:no-route-to-dest", "",
}

// cond is one of the conditions, in no particular order. Locked.
func (r *Router) cond() encoding.ErrCond { return errConds[r.seq*7%len(errConds)] }

// act applies a fault. Locked.
func (c *Conn) act(a Act, s *session, l *Link) {
	switch a {
	case Drop:
		c.r.record(Event{Conn: c.ID, Kind: "dropped"})
		c.abort(false)
	case Reset:
		c.r.record(Event{Conn: c.ID, Kind: "dropped", Note: "reset"})
		c.abort(true)
	case Mute:
		if !c.mute {
			c.r.record(Event{Conn: c.ID, Kind: "muted"})
		}
		c.mute = true
	case Detach:
		if l != nil && l.ours != noHandle && !l.detached {
			c.r.record(Event{Conn: c.ID, Kind: "detached", Link: l.ID, Addr: l.Addr, Sender: l.Sender})
			l.detached = true
			c.send(frames.TypeAMQP, s.ch, &frames.PerformDetach{Handle: l.ours, Closed: true, Error: &encoding.Error{Condition: c.r.cond(), Description: "detached by router"}})
			return
		}
		fallthrough
	case End:
		if s == nil {
			for _, x := range c.sessions {
				if !x.ended {
					s = x
				}
			}
		}
		if s != nil && !s.ended {
			c.r.record(Event{Conn: c.ID, Kind: "ended"})
			s.ended = true
			c.send(frames.TypeAMQP, s.ch, &frames.PerformEnd{Error: &encoding.Error{Condition: c.r.cond(), Description: "ended by router"}})
			return
		}
		fallthrough
	case Close:
		if c.opened {
			c.r.record(Event{Conn: c.ID, Kind: "closed"})
			c.send(frames.TypeAMQP, 0, &frames.PerformClose{Error: &encoding.Error{Condition: c.r.cond(), Description: "closed by router"}})
			c.shut()
			return
		}
		c.r.record(Event{Conn: c.ID, Kind: "dropped"})
		c.abort(false)
	}
}

const noHandle = ^uint32(0)

var errProto = errors.New("protocol error of the client")

func (c *Conn) read(nc net.Conn) error {
	var hdr [8]byte
	readHeader := func() error {
		_, err := io.ReadFull(nc, hdr[:])
		if err == nil && string(hdr[:4]) != "AMQP" {
			err = fmt.Errorf("%w: header %q", errProto, hdr)
		}
		return err
	}
	if err := readHeader(); err != nil {
		return err
	}
	c.r.mu.Lock()
	c.r.record(Event{Conn: c.ID, Kind: KHeader, ID: uint32(hdr[4])})
	c.r.mu.Unlock()
	if a := c.step(Step{Kind: KHeader}, nil, nil); a == Go {
		c.raw(append([]byte(nil), hdr[:]...))
	}
	if hdr[4] == 3 { // SASL
		if !c.isMute() {
			c.send(frames.TypeSASL, 0, &frames.SASLMechanisms{Mechanisms: encoding.MultiSymbol{"ANONYMOUS", "EXTERNAL", "PLAIN"}})
		}
		b, _, err := readFrame(nc)
		if err != nil {
			return err
		}
		var init frames.SASLInit
		if err := init.Unmarshal(buffer.New(b)); err != nil {
			return fmt.Errorf("%w: sasl init: %v", errProto, err)
		}
		c.r.mu.Lock()
		c.r.record(Event{Conn: c.ID, Kind: KSASL, Note: string(init.Mechanism), Payload: init.InitialResponse})
		c.r.mu.Unlock()
		if a := c.step(Step{Kind: KSASL}, nil, nil); a == Go {
			c.send(frames.TypeSASL, 0, &frames.SASLOutcome{Code: encoding.CodeSASLOK})
		} else if a == Reject {
			c.send(frames.TypeSASL, 0, &frames.SASLOutcome{Code: encoding.CodeSASLAuth})
		}
		if err := readHeader(); err != nil {
			return err
		}
		if !c.isMute() {
			c.raw(append([]byte(nil), hdr[:]...))
		}
	}
	for {
		c.r.mu.Lock()
		stall := c.r.stall
		c.r.mu.Unlock()
		if stall != nil {
			select {
			case <-stall:
			case <-c.done:
			}
		}
		b, ch, err := readFrame(nc)
		if err != nil {
			return err
		}
		if len(b) == 0 {
			continue
		}
		if len(b)+8 > int(c.r.cfg.MaxFrameSize) {
			err := fmt.Errorf("%w: frame of %d bytes, %d announced", errProto, len(b)+8, c.r.cfg.MaxFrameSize)
			c.r.mu.Lock()
			c.r.record(Event{Conn: c.ID, Kind: "protocol-error", Note: err.Error()})
			c.r.mu.Unlock()
			return err
		}
		body, err := frames.ParseBody(buffer.New(b))
		if err != nil {
			return fmt.Errorf("%w: %v", errProto, err)
		}
		done, err := c.handle(ch, body)
		if err != nil {
			c.r.mu.Lock()
			c.r.record(Event{Conn: c.ID, Kind: "protocol-error", Note: err.Error()})
			c.r.mu.Unlock()
			return err
		}
		if done {
			return nil
		}
	}
}

func readFrame(nc net.Conn) ([]byte, uint16, error) {
	var h [8]byte
	if _, err := io.ReadFull(nc, h[:]); err != nil {
		return nil, 0, err
	}
	size := binary.BigEndian.Uint32(h[:4])
	if size < 8 || size > 64<<20 {
		return nil, 0, fmt.Errorf("%w: frame of %d bytes", errProto, size)
	}
	b := make([]byte, size-8)
	if _, err := io.ReadFull(nc, b); err != nil {
		return nil, 0, err
	}
	if ext := int(h[4])*4 - 8; ext > 0 && ext <= len(b) {
		b = b[ext:]
	}
	return b, binary.BigEndian.Uint16(h[6:]), nil
}

func (c *Conn) session(ch uint16) (*session, error) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	s := c.sessions[ch]
	if s == nil {
		return nil, fmt.Errorf("%w: frame for channel %d without session", errProto, ch)
	}
	return s, nil
}

// handle deals with a frame. Called unlocked, by the connection's reader only.
func (c *Conn) handle(ch uint16, body frames.FrameBody) (done bool, err error) {
	r := c.r
	switch f := body.(type) {
	case *frames.PerformOpen:
		r.mu.Lock()
		c.container = f.ContainerID
		c.peerMax = f.MaxFrameSize
		r.record(Event{Conn: c.ID, Kind: KOpen, Note: f.ContainerID, Addr: f.Hostname, Max: f.MaxFrameSize})
		r.mu.Unlock()
		a := c.step(Step{Kind: KOpen}, nil, nil)
		if a == Go {
			r.mu.Lock()
			c.opened = true
			c.send(frames.TypeAMQP, 0, &frames.PerformOpen{ContainerID: "vf-router", MaxFrameSize: r.cfg.MaxFrameSize, ChannelMax: 65535, IdleTimeout: r.cfg.IdleTimeout})
			r.bump()
			r.mu.Unlock()
		}
	case *frames.PerformBegin:
		s := &session{c: c, ch: ch, links: map[uint32]*Link{}, stale: map[uint32]bool{}, nextIn: f.NextOutgoingID, deliveries: map[uint32]*delivery{}, ended: true}
		r.mu.Lock()
		if old := c.sessions[ch]; old != nil && !old.ended {
			r.mu.Unlock()
			return false, fmt.Errorf("%w: second begin on channel %d", errProto, ch)
		}
		r.record(Event{Conn: c.ID, Kind: KBegin})
		r.mu.Unlock()
		a := c.step(Step{Kind: KBegin}, nil, nil)
		if a == Go || a == End {
			r.mu.Lock()
			c.sessions[ch] = s
			s.ended = false
			c.send(frames.TypeAMQP, ch, &frames.PerformBegin{RemoteChannel: &ch, NextOutgoingID: 0, IncomingWindow: 1 << 30, OutgoingWindow: 1 << 30, HandleMax: 1 << 20})
			r.bump()
			r.mu.Unlock()
		}
	case *frames.PerformAttach:
		s, err := c.session(ch)
		if err != nil {
			return false, err
		}
		return false, c.attach(s, f)
	case *frames.PerformFlow:
		s, err := c.session(ch)
		if err != nil {
			return false, err
		}
		if f.Handle == nil {
			return false, nil
		}
		r.mu.Lock()
		l := s.links[*f.Handle]
		if l == nil {
			r.mu.Unlock()
			if s.ended || s.stale[*f.Handle] {
				// a receiver of go-amqp that is closed while messages are
				// accepted may ask for more after it has detached
				return false, nil
			}
			return false, fmt.Errorf("%w: flow for unknown handle %d", errProto, *f.Handle)
		}
		if l.Sender || f.LinkCredit == nil {
			r.mu.Unlock()
			return false, nil
		}
		dc := uint32(0)
		if f.DeliveryCount != nil {
			dc = *f.DeliveryCount
		}
		credit := *f.LinkCredit + dc - l.count
		r.record(Event{Conn: c.ID, Kind: KFlow, Link: l.ID, Addr: l.Addr, Credit: int(int32(credit)), Open: l.open})
		r.mu.Unlock()
		a := c.step(Step{Kind: KFlow, Addr: l.Addr}, s, l)
		if a == Go {
			r.mu.Lock()
			// as of now: messages may have been delivered since
			l.credit = *f.LinkCredit + dc - l.count
			if int32(l.credit) < 0 {
				l.credit = 0
			}
			r.bump()
			l.pump()
			r.mu.Unlock()
		}
	case *frames.PerformTransfer:
		s, err := c.session(ch)
		if err != nil {
			return false, err
		}
		return false, c.transfer(s, f)
	case *frames.PerformDisposition:
		s, err := c.session(ch)
		if err != nil {
			return false, err
		}
		if f.Role != encoding.RoleReceiver {
			return false, nil
		}
		last := f.First
		if f.Last != nil {
			last = *f.Last
		}
		var lk *Link
		r.mu.Lock()
		if last-f.First > 1<<20 {
			r.mu.Unlock()
			return false, fmt.Errorf("%w: disposition of %d..%d", errProto, f.First, last)
		}
		for id := f.First; ; id++ {
			d := s.deliveries[id]
			e := Event{Conn: c.ID, Kind: KDisposition, ID: id, Settled: f.Settled, Outcome: outcome(f.State)}
			if d == nil {
				e.Note = "unknown delivery"
			} else {
				lk = d.link
				e.Link, e.Addr = d.link.ID, d.link.Addr
				if d.settled {
					e.Note = "settled before"
				} else if f.Settled {
					d.settled = true
					d.link.open--
				}
			}
			r.record(e)
			if id == last {
				break
			}
		}
		r.mu.Unlock()
		st := Step{Kind: KDisposition}
		if lk != nil {
			st.Addr = lk.Addr
		}
		c.step(st, s, lk)
	case *frames.PerformDetach:
		s, err := c.session(ch)
		if err != nil {
			return false, err
		}
		r.mu.Lock()
		l := s.links[f.Handle]
		if l == nil {
			r.mu.Unlock()
			if s.ended {
				return false, nil
			}
			return false, fmt.Errorf("%w: detach of unknown handle %d", errProto, f.Handle)
		}
		if l.owed > 0 {
			l.owed--
			r.mu.Unlock()
			return false, nil
		}
		delete(s.links, f.Handle)
		s.stale[f.Handle] = true
		was := l.detached
		l.detached = true
		note := ""
		if f.Error != nil {
			note = f.Error.Error()
		}
		r.record(Event{Conn: c.ID, Kind: KDetach, Link: l.ID, Addr: l.Addr, Sender: l.Sender, Note: note})
		r.mu.Unlock()
		a := c.step(Step{Kind: KDetach, Addr: l.Addr, Sender: l.Sender}, s, nil)
		if a == Go && !was {
			c.send(frames.TypeAMQP, ch, &frames.PerformDetach{Handle: l.ours, Closed: true})
		}
	case *frames.PerformEnd:
		s, err := c.session(ch)
		if err != nil {
			return false, err
		}
		r.mu.Lock()
		was := s.ended
		s.ended = true
		r.record(Event{Conn: c.ID, Kind: KEnd})
		r.mu.Unlock()
		a := c.step(Step{Kind: KEnd}, nil, nil)
		if a == Go {
			r.mu.Lock()
			// the session is kept: frames may still cross its end
			if !was {
				c.send(frames.TypeAMQP, ch, &frames.PerformEnd{})
			}
			r.mu.Unlock()
		}
	case *frames.PerformClose:
		r.mu.Lock()
		r.record(Event{Conn: c.ID, Kind: KClose})
		r.mu.Unlock()
		a := c.step(Step{Kind: KClose}, nil, nil)
		if a == Go {
			r.mu.Lock()
			c.send(frames.TypeAMQP, 0, &frames.PerformClose{})
			c.shut()
			r.mu.Unlock()
			return false, nil // read until EOF
		}
	default:
		return false, fmt.Errorf("%w: unexpected frame %T", errProto, body)
	}
	return false, nil
}

func outcome(st encoding.DeliveryState) string {
	switch st.(type) {
	case *encoding.StateAccepted:
		return "accepted"
	case *encoding.StateRejected:
		return "rejected"
	case *encoding.StateReleased:
		return "released"
	case *encoding.StateModified:
		return "modified"
	case nil:
		return "none"
	}
	return fmt.Sprintf("%T", st)
}

func (c *Conn) attach(s *session, f *frames.PerformAttach) error {
	r := c.r
	r.mu.Lock()
	if s.ended {
		r.mu.Unlock()
		return nil
	}
	owed := 0
	if old := s.links[f.Handle]; old != nil {
		if !old.detached {
			r.mu.Unlock()
			return fmt.Errorf("%w: attach of handle %d in use", errProto, f.Handle)
		}
		// go-amqp reuses handles before it answers the router's detach
		owed = old.owed + 1
	}
	r.nLink++
	l := &Link{ID: r.nLink, Conn: c.ID, Name: f.Name, Sender: f.Role == encoding.RoleSender, s: s, theirs: f.Handle, ours: noHandle, owed: owed}
	if l.Sender && f.Target != nil {
		l.Addr = f.Target.Address
	} else if !l.Sender && f.Source != nil {
		l.Addr = f.Source.Address
	}
	r.record(Event{Conn: c.ID, Kind: KAttach, Link: l.ID, Sender: l.Sender, Addr: l.Addr})
	r.mu.Unlock()
	a := c.step(Step{Kind: KAttach, Addr: l.Addr, Sender: l.Sender}, s, nil2(l, c))
	r.mu.Lock()
	defer r.mu.Unlock()
	if s.ended || (a != Go && a != Detach) {
		// not answered; the handle stays taken until the client detaches
		l.detached = true
		l.ours = s.nextHandle
		s.nextHandle++
		s.links[f.Handle] = l
		return nil
	}
	l.ours = s.nextHandle
	s.nextHandle++
	s.links[f.Handle] = l
	re := &frames.PerformAttach{Name: f.Name, Handle: l.ours, Role: !f.Role, Source: f.Source, Target: f.Target}
	if !l.Sender {
		// as the sending side the router gives the initial delivery count
		re.InitialDeliveryCount = 0
	}
	if a == Detach {
		re.Source, re.Target = nil, nil
		c.send(frames.TypeAMQP, s.ch, re)
		c.r.record(Event{Conn: c.ID, Kind: "detached", Link: l.ID, Addr: l.Addr, Sender: l.Sender, Note: "refused"})
		l.detached = true
		c.send(frames.TypeAMQP, s.ch, &frames.PerformDetach{Handle: l.ours, Closed: true, Error: &encoding.Error{Condition: c.r.cond(), Description: "refused by router"}})
		return nil
	}
	c.send(frames.TypeAMQP, s.ch, re)
	if l.Sender && (r.cfg.NoCredit == nil || !r.cfg.NoCredit(l.Addr)) {
		l.grant()
	}
	r.bump()
	return nil
}

// nil2: faults on an attach that is not answered yet do not concern the link.
func nil2(*Link, *Conn) *Link { return nil }

// GrantAll gives credit to all senders of an address.
func (r *Router) GrantAll(addr string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, l := range (View{r}).Links() {
		if l.Sender && l.Addr == addr {
			l.grant()
		}
	}
}

func (l *Link) grant() { // locked
	l.granted = l.received + l.s.c.r.cfg.SenderCredit
	s := l.s
	h, dc, cr, ni := l.ours, l.received, l.s.c.r.cfg.SenderCredit, s.nextIn
	s.c.send(frames.TypeAMQP, s.ch, &frames.PerformFlow{NextIncomingID: &ni, IncomingWindow: 1 << 30, NextOutgoingID: s.nextOut, OutgoingWindow: 1 << 30, Handle: &h, DeliveryCount: &dc, LinkCredit: &cr})
}

func (c *Conn) transfer(s *session, f *frames.PerformTransfer) error {
	r := c.r
	r.mu.Lock()
	s.nextIn++
	l := s.links[f.Handle]
	if l == nil || !l.Sender {
		ended := s.ended
		r.mu.Unlock()
		if ended {
			return nil
		}
		return fmt.Errorf("%w: transfer on handle %d", errProto, f.Handle)
	}
	if f.DeliveryID != nil {
		l.partID = *f.DeliveryID
		l.partial = nil
	}
	l.partial = append(l.partial, f.Payload...)
	if f.More {
		r.mu.Unlock()
		return nil
	}
	payload := l.partial
	l.partial = nil
	id := l.partID
	l.received++
	l.nReceived++
	if l.detached || s.ended {
		r.mu.Unlock()
		return nil
	}
	r.mu.Unlock()
	a := c.step(Step{Kind: KTransfer, Addr: l.Addr, Sender: true, Payload: payload}, s, l)
	r.mu.Lock()
	e := Event{Conn: c.ID, Kind: KTransfer, Link: l.ID, Sender: true, Addr: l.Addr, ID: id, Payload: payload, Settled: f.Settled, Outcome: "none", Note: a.String()}
	if a == Go {
		e.Outcome = "accepted"
	} else if a == Reject {
		e.Outcome = "rejected"
	}
	r.record(e)
	var state encoding.DeliveryState
	switch a {
	case Go:
		state = &encoding.StateAccepted{}
	case Reject:
		rej := &encoding.StateRejected{Error: &encoding.Error{Condition: r.cond(), Description: "rejected by router"}}
		if r.seq%5 == 0 {
			rej.Error = nil
		}
		state = rej
	}
	if a == Go && !r.cfg.NoRoute {
		r.publish(l.Addr, payload)
	}
	if state != nil && !f.Settled {
		last := id
		c.send(frames.TypeAMQP, s.ch, &frames.PerformDisposition{Role: encoding.RoleReceiver, First: id, Last: &last, Settled: true, State: state})
	}
	if (a == Go || a == Reject || a == Ignore) && !l.detached && l.granted-l.received <= r.cfg.SenderCredit/2 && (r.cfg.NoCredit == nil || !r.cfg.NoCredit(l.Addr)) {
		l.grant()
	}
	if a == Go && r.cfg.After != nil {
		if a := r.cfg.After(Step{Kind: KTransfer, Conn: c.ID, Addr: l.Addr, Sender: true, Payload: payload}); a != Go {
			c.act(a, s, l)
		}
	}
	cb := r.cfg.OnTransfer
	r.mu.Unlock()
	if cb != nil && a == Go {
		cb(c.ID, l.Addr, payload)
	}
	return nil
}

// pump sends queued messages as far as there is credit. Locked.
func (l *Link) pump() {
	s := l.s
	c := s.c
	for len(l.queue) > 0 && l.credit > 0 && !l.detached && !s.ended && !c.mute {
		m := l.queue[0]
		l.queue = l.queue[1:]
		l.credit--
		l.count++
		id := s.nextDel
		s.nextDel++
		d := &delivery{id: id, link: l, settled: m.settled}
		s.deliveries[id] = d
		if !m.settled {
			l.open++
		}
		tag := make([]byte, 4)
		binary.BigEndian.PutUint32(tag, id)
		format := uint32(0)
		max := int(c.peerMax) - 100
		if max < 400 {
			max = 400
		}
		p := m.payload
		first := true
		for first || len(p) > 0 {
			n := len(p)
			if n > max {
				n = max
			}
			t := &frames.PerformTransfer{Handle: l.ours, Payload: p[:n], More: n < len(p), Settled: m.settled}
			if first {
				t.DeliveryID, t.DeliveryTag, t.MessageFormat = &id, tag, &format
			}
			p = p[n:]
			first = false
			s.nextOut++
			c.send(frames.TypeAMQP, s.ch, t)
		}
		c.r.kinds[KDeliver]++
		c.r.record(Event{Conn: c.ID, Kind: KDeliver, Link: l.ID, Addr: l.Addr, ID: id, Payload: m.payload, Settled: m.settled, Credit: int(l.credit), Open: l.open})
		if dec := c.r.cfg.Decide; dec != nil {
			if a := dec(Step{Kind: KDeliver, Conn: c.ID, N: c.r.kinds[KDeliver] - 1, Addr: l.Addr, Payload: m.payload, Container: c.container}); a != Go {
				c.act(a, s, l)
			}
		}
	}
}

// Muted says whether the router stopped answering on the connection.
func (c *Conn) Muted() bool { return c.mute }
