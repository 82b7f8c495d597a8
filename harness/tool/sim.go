package tool

import (
	"fmt"
	"sync"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/router"
)

// Source is a simulated event source. It sends beacons and heartbeats while
// alive and tells of the flushes it gets.
type Source struct {
	ID, Type string
	Version  uint32
	// AltHeartbeats sends heartbeats to the address for them
	AltHeartbeats bool
	Beat          time.Duration

	mu      sync.Mutex
	alive   bool
	quiet   bool // beacons only
	calm    bool // heartbeats only
	flushes int
}

func (s *Source) Address() string { return "mc/sfe." + s.ID }
func (s *Source) Direct() string  { return "sfe." + s.ID }

func (s *Source) Flushes() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.flushes
}

func (s *Source) SetAlive(on bool) {
	s.mu.Lock()
	s.alive = on
	s.mu.Unlock()
}

func (s *Source) SetQuiet(on bool) {
	s.mu.Lock()
	s.quiet = on
	s.mu.Unlock()
}

// SetCalm makes the source send heartbeats without beacons.
func (s *Source) SetCalm(on bool) {
	s.mu.Lock()
	s.calm = on
	s.mu.Unlock()
}

// Net is a router with simulated sources.
type Net struct {
	*router.Router
	mu      sync.Mutex
	sources []*Source
	// OnFlush is called for every flush a source gets
	OnFlush func(*Source)
	quit    chan struct{}
	wg      sync.WaitGroup
}

// NewNet starts a router with simulated sources on it.
func NewNet(cfg router.Config, onFlush func(*Source)) *Net {
	n := &Net{quit: make(chan struct{}), OnFlush: onFlush}
	prev := cfg.OnTransfer
	cfg.OnTransfer = func(conn int, addr string, payload []byte) {
		if prev != nil {
			prev(conn, addr, payload)
		}
		n.transfer(addr, payload)
	}
	n.Router = router.New(cfg)
	return n
}

func (n *Net) transfer(addr string, payload []byte) {
	n.mu.Lock()
	var to *Source
	for _, s := range n.sources {
		if s.Direct() == addr {
			to = s
		}
	}
	n.mu.Unlock()
	if to == nil {
		return
	}
	var m amqp.Message
	if err := m.UnmarshalBinary(payload); err != nil || gen.Subject(&m) != "FLUSH" {
		return
	}
	to.mu.Lock()
	alive := to.alive
	if alive {
		to.flushes++
	}
	to.mu.Unlock()
	if alive && n.OnFlush != nil {
		n.OnFlush(to)
	}
}

// Add brings a source up.
func (n *Net) Add(s *Source) {
	if s.Beat == 0 {
		s.Beat = 100 * time.Millisecond
	}
	s.SetAlive(true)
	n.mu.Lock()
	n.sources = append(n.sources, s)
	n.mu.Unlock()
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		for k := uint64(0); ; k++ {
			s.mu.Lock()
			alive, quiet, calm := s.alive, s.quiet, s.calm
			s.mu.Unlock()
			if alive && !calm {
				n.Publish("mc/sfe.all", Bytes(gen.BeaconMsg(s.ID, s.Version, s.Type, s.Address(), s.Direct())))
			}
			if alive && !quiet {
				n.Beat(s, k)
			}
			select {
			case <-n.quit:
				return
			case <-time.After(s.Beat):
			}
		}
	}()
}

// Beat sends one heartbeat of a source.
func (n *Net) Beat(s *Source, now uint64) {
	to := s.Address()
	if s.AltHeartbeats {
		to += ".heartbeats"
	}
	n.Publish(to, Bytes(gen.HeartbeatMsg(s.ID, s.Version, now)))
}

// Close ends all of it.
func (n *Net) Close() {
	close(n.quit)
	n.wg.Wait()
	n.Router.Close()
}

// Bytes encodes a message.
func Bytes(m *amqp.Message) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(fmt.Sprint("cannot encode: ", err))
	}
	return b
}
