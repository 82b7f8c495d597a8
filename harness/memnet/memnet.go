// Package memnet is an in-memory AMQP network behind the session.Container
// interface, built for monitoring: everything that passes is logged with its
// (virtual) time, and every operation can be made to fail, block or take long.
//
// Messages go through the AMQP encoding, so that only what a real peer could
// send is ever delivered, and no two receivers share memory.
package memnet

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
)

// Kind of an event.
type Kind string

const (
	OpenRecv  Kind = "open-receiver"
	OpenSend  Kind = "open-sender"
	CloseRecv Kind = "close-receiver"
	CloseSend Kind = "close-sender"
	Sent      Kind = "sent"        // Send returned nil
	SendFail  Kind = "send-failed" // Send returned an error
	SendCall  Kind = "send-called"
	Took      Kind = "took" // Next returned a message
	NextFail  Kind = "next-failed"
	Accepted  Kind = "accepted"
	AccFail   Kind = "accept-failed"
)

// Event is one logged event.
type Event struct {
	Seq  int
	T    time.Time
	Kind Kind
	Addr string
	Link int // link number, unique over the network
	Opts session.ReceiverOptions
	Msg  int // number of the message, unique over the network
	M    *amqp.Message
	Err  error
}

// Act is what a hook makes of an operation.
type Act struct {
	Delay time.Duration // taken first, ends with the context
	Block bool          // until the context is done or the link is closed
	Err   error         // then fails with this
	Slow  time.Duration // of closing: taken in any case, even when the context is done
}

// Net is one network.
type Net struct {
	mu     sync.Mutex
	log    []Event
	links  int
	msgs   int
	recvs  map[string][]*recv
	wake   map[string]chan struct{}
	opened map[int]string // open links

	// OnSend, OnNext, OnAccept and OnClose decide what becomes of each call.
	// They are called without locks. nil lets everything pass.
	OnSend   func(addr string, link int, m *amqp.Message) Act
	OnNext   func(addr string, link int) Act
	OnAccept func(addr string, link int, msg int) Act
	OnClose  func(addr string, link int, sender bool) Act
	// AwaitReceiver makes sends wait for a receiver on the address, as a
	// multicast router may do.
	AwaitReceiver bool
	// OnSpin is called when very many operations happen without any time
	// passing.
	OnSpin func(addr string, link int, k Kind, err error)
	spin   int
	// ForeignAccept is called when a receiver is asked to accept a message
	// it did not deliver, or delivered and settled before.
	ForeignAccept func(addr string, link int)
}

// New returns an empty network.
func New() *Net {
	return &Net{recvs: map[string][]*recv{}, wake: map[string]chan struct{}{}, opened: map[int]string{}}
}

func (n *Net) add(e Event) int {
	e.T = time.Now()
	e.Seq = len(n.log)
	if e.Seq > 0 && n.log[e.Seq-1].T.Equal(e.T) {
		if n.spin++; n.spin == 300000 && n.OnSpin != nil {
			n.OnSpin(e.Addr, e.Link, e.Kind, e.Err)
		}
	} else {
		n.spin = 0
	}
	n.log = append(n.log, e)
	return e.Seq
}

// Log returns a copy of the log so far.
func (n *Net) Log() []Event {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Event(nil), n.log...)
}

// Mark is the present length of the log.
func (n *Net) Mark() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.log)
}

// Open lists the links not closed yet.
func (n *Net) Open() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []string
	for k, v := range n.opened {
		out = append(out, fmt.Sprintf("%s link %d", v, k))
	}
	return out
}

// Receivers is the number of open receivers on an address.
func (n *Net) Receivers(addr string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.recvs[addr])
}

// Copy passes a message through the wire encoding.
func Copy(m *amqp.Message) (*amqp.Message, error) {
	b, err := m.MarshalBinary()
	if err != nil {
		return nil, err
	}
	out := new(amqp.Message)
	if err := out.UnmarshalBinary(b); err != nil {
		return nil, err
	}
	return out, nil
}

// Inject puts a message on an address as some other peer would, and returns
// its number.
func (n *Net) Inject(addr string, m *amqp.Message) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.deliver(addr, m)
}

func (n *Net) deliver(addr string, m *amqp.Message) int {
	n.msgs++
	id := n.msgs
	for _, r := range n.recvs[addr] {
		c, err := Copy(m)
		if err != nil {
			panic(err)
		}
		r.queue = append(r.queue, item{id, c})
		select {
		case r.avail <- struct{}{}:
		default:
		}
	}
	return id
}

type container struct{ n *Net }

// Container returns a container on the network.
func (n *Net) Container() session.Container { return container{n} }

// Factory returns a factory of containers on the network.
func (n *Net) Factory() session.ContainerFactory { return factory{n} }

type factory struct{ n *Net }

func (f factory) Create() session.Container { return container{f.n} }

func (container) Start(context.Context)      {}
func (container) OnSessionError(func(error)) {}

type item struct {
	id int
	m  *amqp.Message
}

type recv struct {
	n         *Net
	addr      string
	link      int
	queue     []item
	avail     chan struct{}
	done      chan struct{}
	closed    bool
	credit    int
	unsettled map[*amqp.Message]int
}

func (c container) NewReceiver(addr string, opts session.ReceiverOptions) session.Receiver {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	n.links++
	credit := opts.Credit
	if credit <= 0 {
		credit = 1
	}
	r := &recv{n: n, credit: credit, addr: addr, link: n.links, avail: make(chan struct{}, 1), done: make(chan struct{}), unsettled: map[*amqp.Message]int{}}
	n.recvs[addr] = append(n.recvs[addr], r)
	n.opened[r.link] = "receiver " + addr
	n.add(Event{Kind: OpenRecv, Addr: addr, Link: r.link, Opts: opts})
	if w := n.wake[addr]; w != nil {
		close(w)
		delete(n.wake, addr)
	}
	return r
}

var errClosed = errors.New("memnet: link closed")

// act carries out what a hook decided.
func act(ctx context.Context, done chan struct{}, a Act) error {
	if a.Delay > 0 {
		t := time.NewTimer(a.Delay)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	if a.Block {
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-done:
			return errClosed
		}
	}
	return a.Err
}

func (r *recv) fail(k Kind, msg int, err error) error {
	r.n.mu.Lock()
	defer r.n.mu.Unlock()
	r.n.add(Event{Kind: k, Addr: r.addr, Link: r.link, Msg: msg, Err: err})
	return err
}

func (r *recv) Next(ctx context.Context) (*amqp.Message, error) {
	if h := r.n.OnNext; h != nil {
		if err := act(ctx, r.done, h(r.addr, r.link)); err != nil {
			return nil, r.fail(NextFail, 0, err)
		}
	}
	for {
		r.n.mu.Lock()
		if r.closed {
			r.n.mu.Unlock()
			return nil, r.fail(NextFail, 0, errClosed)
		}
		// like the real link: what has arrived is returned even when the
		// context is done
		if len(r.queue) > 0 && len(r.unsettled) < r.credit {
			it := r.queue[0]
			r.queue = r.queue[1:]
			r.unsettled[it.m] = it.id
			r.n.add(Event{Kind: Took, Addr: r.addr, Link: r.link, Msg: it.id, M: it.m})
			r.n.mu.Unlock()
			return it.m, nil
		}
		r.n.mu.Unlock()
		select {
		case <-ctx.Done():
			return nil, r.fail(NextFail, 0, ctx.Err())
		case <-r.done:
		case <-r.avail:
		}
	}
}

func (r *recv) Accept(ctx context.Context, m *amqp.Message) error {
	r.n.mu.Lock()
	id, ok := r.unsettled[m]
	closed := r.closed
	if ok {
		delete(r.unsettled, m)
		if len(r.queue) > 0 {
			select {
			case r.avail <- struct{}{}:
			default:
			}
		}
	}
	r.n.mu.Unlock()
	if !ok && r.n.ForeignAccept != nil {
		r.n.ForeignAccept(r.addr, r.link)
	}
	if closed {
		return r.fail(AccFail, id, errClosed)
	}
	if err := ctx.Err(); err != nil {
		return r.fail(AccFail, id, err)
	}
	if h := r.n.OnAccept; h != nil {
		if err := act(ctx, r.done, h(r.addr, r.link, id)); err != nil {
			return r.fail(AccFail, id, err)
		}
	}
	r.n.mu.Lock()
	defer r.n.mu.Unlock()
	r.n.add(Event{Kind: Accepted, Addr: r.addr, Link: r.link, Msg: id})
	return nil
}

func (r *recv) Close(ctx context.Context) error {
	var err error
	if h := r.n.OnClose; h != nil {
		a := h(r.addr, r.link, false)
		time.Sleep(a.Slow)
		err = act(ctx, r.done, a)
	}
	r.n.mu.Lock()
	defer r.n.mu.Unlock()
	if r.closed {
		return err
	}
	r.closed = true
	close(r.done)
	rs := r.n.recvs[r.addr]
	for i := range rs {
		if rs[i] == r {
			r.n.recvs[r.addr] = append(append([]*recv(nil), rs[:i]...), rs[i+1:]...)
			break
		}
	}
	delete(r.n.opened, r.link)
	r.n.add(Event{Kind: CloseRecv, Addr: r.addr, Link: r.link})
	return err
}

type sender struct {
	n      *Net
	addr   string
	link   int
	done   chan struct{}
	closed bool
}

func (c container) NewSender(addr string, _ session.SenderOptions) session.Sender {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	n.links++
	s := &sender{n: n, addr: addr, link: n.links, done: make(chan struct{})}
	n.opened[s.link] = "sender " + addr
	n.add(Event{Kind: OpenSend, Addr: addr, Link: s.link})
	return s
}

func (s *sender) Send(ctx context.Context, m *amqp.Message) error {
	c, err := Copy(m)
	s.n.mu.Lock()
	closed := s.closed
	s.n.add(Event{Kind: SendCall, Addr: s.addr, Link: s.link, M: c})
	s.n.mu.Unlock()
	if err == nil && closed {
		err = errClosed
	}
	if err == nil {
		err = ctx.Err()
	}
	if err == nil && s.n.OnSend != nil {
		err = act(ctx, s.done, s.n.OnSend(s.addr, s.link, c))
	}
	for err == nil {
		s.n.mu.Lock()
		if !s.n.AwaitReceiver || len(s.n.recvs[s.addr]) > 0 {
			id := s.n.deliver(s.addr, c)
			s.n.add(Event{Kind: Sent, Addr: s.addr, Link: s.link, Msg: id, M: c})
			s.n.mu.Unlock()
			return nil
		}
		w := s.n.wake[s.addr]
		if w == nil {
			w = make(chan struct{})
			s.n.wake[s.addr] = w
		}
		s.n.mu.Unlock()
		select {
		case <-w:
		case <-ctx.Done():
			err = ctx.Err()
		case <-s.done:
			err = errClosed
		}
	}
	s.n.mu.Lock()
	defer s.n.mu.Unlock()
	s.n.add(Event{Kind: SendFail, Addr: s.addr, Link: s.link, M: c, Err: err})
	return err
}

func (s *sender) Close(ctx context.Context) error {
	var err error
	if h := s.n.OnClose; h != nil {
		a := h(s.addr, s.link, true)
		time.Sleep(a.Slow)
		err = act(ctx, s.done, a)
	}
	s.n.mu.Lock()
	defer s.n.mu.Unlock()
	if s.closed {
		return err
	}
	s.closed = true
	close(s.done)
	delete(s.n.opened, s.link)
	s.n.add(Event{Kind: CloseSend, Addr: s.addr, Link: s.link})
	return err
}
