// Package events has the checks of clients, discovery and managers. They run
// in synctest bubbles, whose virtual time makes every timing bound exact.
package events

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/memnet"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
)

func init() {
	slog.SetDefault(slog.New(slog.DiscardHandler))
	mon.WatchdogLimit = 30 * time.Second
}

var errInjected = errors.New("injected failure")

// failure is number n of the errors operations fail with, some of which look
// like those of a context that is done. None of the contexts is.
func failure(n int) error {
	switch n % 6 {
	case 0:
		return fmt.Errorf("%w: %w", errInjected, context.Canceled)
	case 1:
		return fmt.Errorf("%w: %w", errInjected, context.DeadlineExceeded)
	case 2:
		return fmt.Errorf("%w: %w", errInjected, io.EOF)
	case 3:
		return fmt.Errorf("%w: %w", errInjected, &amqp.Error{Condition: "amqp:internal-error"})
	}
	return errInjected
}

// bubble runs one case in virtual time. Everything the case started has to
// end when the case does.
func bubble(t *testing.T, c *mon.Check, name string, fn func()) {
	if c.Skip(name) {
		return
	}
	c.Doing("%s", name)
	synctest.Test(t, func(*testing.T) { fn() })
}

// newNet is a network whose own checks report to c.
func newNet(c *mon.Check, name string) *memnet.Net {
	n := memnet.New()
	n.OnSpin = func(addr string, link int, k memnet.Kind, err error) {
		c.Violate(name, "spinning: 300000 operations without any time passing, the last is %s on %s link %d (%v)", k, addr, link, err)
	}
	return n
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// dur draws a duration in [0, max), never on a whole millisecond unless zero.
func dur(r *rand.Rand, max time.Duration) time.Duration {
	if max <= 0 || r.IntN(4) == 0 {
		return 0
	}
	return time.Duration(r.Int64N(int64(max)))
}

func source(id string) eventsource.Info {
	return eventsource.Info{ID: id, Version: 1, Type: "CONTROLLER", Address: "mc/sfe." + id, Direct: "sfe." + id}
}

// msgKey identifies what a handler was given, in full.
func recKey(m vanflow.RecordMessage) string {
	var b strings.Builder
	fmt.Fprintf(&b, "RECORD to=%s", m.To)
	for _, rec := range m.Records {
		b.WriteString(" " + gen.Show(rec))
	}
	return b.String()
}

func hbKey(m vanflow.HeartbeatMessage) string {
	return fmt.Sprintf("HEARTBEAT to=%s id=%s v=%d now=%d", m.To, m.Identity, m.Version, m.Now)
}

// traffic is one generated message and what handlers have to make of it.
type traffic struct {
	addr string
	m    *amqp.Message
	kind string // "R", "H" or "" when no handler may see it
	key  string
	id   int // network's number of the message
}

// randTraffic draws a message to an address; n makes it unique.
func randTraffic(r *rand.Rand, addr string, n int) traffic {
	to := fmt.Sprintf("%s#%d", addr, n)
	switch r.IntN(6) {
	case 0, 1:
		recs := gen.RandRecords(r, 3)
		tr := traffic{addr: addr, m: gen.Dress(r, gen.RecordMsg(to, recs)), kind: "R"}
		tr.key = "RECORD to=" + to
		for _, a := range recs {
			tr.key += " " + a.String()
		}
		return tr
	case 2, 3:
		v, now := r.Uint32(), gen.RandU64(r)
		return traffic{addr: addr, m: gen.Dress(r, gen.HeartbeatMsg(to, v, now)), kind: "H",
			key: fmt.Sprintf("HEARTBEAT to=mc/sfe.%s id=%s v=%d now=%d", to, to, v, now)}
	}
	for {
		m := gen.RandMessage(r)
		if m.Properties != nil {
			m.Properties.To = &to
		}
		c, err := memnet.Copy(m)
		if err != nil {
			continue
		}
		switch gen.Subject(c) {
		case "HEARTBEAT":
			continue // which of these are well-formed is not specified
		case "RECORD":
			list, ok := c.Value.([]any)
			key := "RECORD to=" + to
			for _, el := range list {
				wm, isMap := el.(map[any]any)
				if !isMap {
					ok = false
					break
				}
				a, err := gen.RefDecode(wm)
				if err != nil {
					ok = false
					break
				}
				key += " " + a.String()
			}
			if ok {
				return traffic{addr: addr, m: m, kind: "R", key: key}
			}
		}
		return traffic{addr: addr, m: m}
	}
}

// addrOf is the address part of a key made by randTraffic.
func addrOf(key string) string {
	_, s, _ := strings.Cut(key, " to=")
	s = strings.TrimPrefix(s, "mc/sfe.mc/") // heartbeats
	if strings.HasPrefix(key, "HEARTBEAT") {
		_, s, _ = strings.Cut(key, " id=")
	}
	a, _, _ := strings.Cut(s, "#")
	return a
}

func providers(src eventsource.Info) map[string]eventsource.ListenerConfigProvider {
	return map[string]eventsource.ListenerConfigProvider{
		src.Address:                 eventsource.FromSourceAddress(),
		src.Address + ".flows":      eventsource.FromSourceAddressFlows(),
		src.Address + ".logs":       eventsource.FromSourceAddressLogs(),
		src.Address + ".heartbeats": eventsource.FromSourceAddressHeartbeats(),
		"custom/" + src.ID:          customProvider{},
	}
}

type customProvider struct{ credit int }

func (p customProvider) Get(i eventsource.Info) eventsource.ListenerConfig {
	credit := p.credit
	if credit == 0 {
		credit = 3
	}
	return eventsource.ListenerConfig{Address: "custom/" + i.ID, Credit: credit}
}

func sortedAddrs(src eventsource.Info) []string {
	return []string{src.Address, src.Address + ".flows", src.Address + ".logs", src.Address + ".heartbeats", "custom/" + src.ID}
}

var bg = context.Background()

type amqpMessage = amqp.Message

func subject(m *amqp.Message) string { return gen.Subject(m) }
func showMsg(m *amqp.Message) string { return gen.ShowMsg(m) }

func isErr(err, target error) bool { return errors.Is(err, target) }

// wellFormed draws a record or heartbeat message.
func wellFormed(r *rand.Rand, addr string, n int) *amqp.Message {
	for {
		if tr := randTraffic(r, addr, n); tr.kind != "" {
			return tr.m
		}
	}
}
