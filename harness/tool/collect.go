package tool

import (
	"fmt"
	"sync"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
)

// Said is a message of a source.
type Said struct {
	At      time.Time
	Conn    int
	Addr    string
	Subject string
	ID      string // beacons and heartbeats: the source
	Beacon  string // beacons: all attributes
	Recs    []gen.Abs
	Bad     string // what is wrong with it
}

// Collector listens to everything real sources say to the router.
type Collector struct {
	mu   sync.Mutex
	said []Said
}

// Hear is made to be a router's OnTransfer.
func (c *Collector) Hear(conn int, addr string, payload []byte) {
	s := Said{At: time.Now(), Conn: conn, Addr: addr}
	var m amqp.Message
	if err := m.UnmarshalBinary(payload); err != nil {
		s.Bad = err.Error()
	} else {
		s.Subject = gen.Subject(&m)
		switch s.Subject {
		case "RECORD":
			recs, err := gen.RecordsOf(&m)
			s.Recs = recs
			if err != nil {
				s.Bad = err.Error()
			}
		case "BEACON":
			ap := m.ApplicationProperties
			s.ID, _ = ap["id"].(string)
			s.Beacon = fmt.Sprintf("v=%v type=%v address=%v direct=%v", ap["v"], ap["sourceType"], ap["address"], ap["direct"])
		case "HEARTBEAT":
			s.ID, _ = m.ApplicationProperties["id"].(string)
		}
	}
	c.mu.Lock()
	c.said = append(c.said, s)
	c.mu.Unlock()
}

// Len is the number of messages heard.
func (c *Collector) Len() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.said)
}

// Since is what was heard from number i on.
func (c *Collector) Since(i int) []Said {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Said{}, c.said[i:]...)
}

// Beacons are the distinct beacons of every source heard from number i on.
func (c *Collector) Beacons(i int) map[string]map[string]int {
	out := map[string]map[string]int{}
	for _, s := range c.Since(i) {
		if s.Subject == "BEACON" {
			if out[s.ID] == nil {
				out[s.ID] = map[string]int{}
			}
			out[s.ID][s.Beacon]++
		}
	}
	return out
}

// Records merges what was reported to an address from number i on, in order.
func (c *Collector) Records(i int, addr string) (order []string, merged map[string]gen.Abs) {
	merged = map[string]gen.Abs{}
	for _, s := range c.Since(i) {
		if s.Subject != "RECORD" || s.Addr != addr {
			continue
		}
		for _, r := range s.Recs {
			k := r.Type + "/" + r.ID
			if prev, ok := merged[k]; ok {
				merged[k] = prev.Merge(r)
			} else {
				merged[k] = r.Clone()
				order = append(order, k)
			}
		}
	}
	return order, merged
}
