package codec

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"
	"testing"

	amqp "github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
)

// sent is one message: how to encode it and what decoding must give.
type sent struct {
	desc string
	enc  func() (*amqp.Message, error)
	chk  func(dec any) string // what is wrong with the decoded message
	to   string
	subj string
}

func randSent(r *rand.Rand, maxRecs int) sent {
	eq := func(want any) func(any) string {
		return func(dec any) string {
			if dec != want {
				return fmt.Sprintf("got %+v, want %+v", dec, want)
			}
			return ""
		}
	}
	switch r.IntN(4) {
	case 0:
		m := vanflow.BeaconMessage{Version: uint32(gen.RandU64(r)), SourceType: gen.RandString(r), Address: gen.RandString(r), Direct: gen.RandString(r), Identity: gen.RandString(r)}
		if r.IntN(2) == 0 { // what a caller put there does not matter
			m.To, m.Subject = gen.RandString(r), gen.RandString(r)
		}
		want := m
		want.To, want.Subject = "mc/sfe.all", "BEACON"
		return sent{fmt.Sprintf("%+v", m), func() (*amqp.Message, error) { return m.Encode(), nil }, eq(want), want.To, want.Subject}
	case 1:
		m := vanflow.HeartbeatMessage{Version: uint32(gen.RandU64(r)), Now: gen.RandU64(r), Identity: gen.RandString(r)}
		if r.IntN(2) == 0 {
			m.To, m.Subject = gen.RandString(r), gen.RandString(r)
		}
		want := m
		want.To, want.Subject = "mc/sfe."+m.Identity, "HEARTBEAT"
		return sent{fmt.Sprintf("%+v", m), func() (*amqp.Message, error) { return m.Encode(), nil }, eq(want), want.To, want.Subject}
	case 2:
		m := vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: gen.RandString(r), ReplyTo: gen.RandString(r)}}
		want := m
		want.Subject = "FLUSH"
		return sent{fmt.Sprintf("%+v", m), func() (*amqp.Message, error) { return m.Encode(), nil }, eq(want), want.To, want.Subject}
	default:
		var abs []gen.Abs
		m := vanflow.RecordMessage{MessageProps: vanflow.MessageProps{To: gen.RandString(r)}}
		n := r.IntN(6)
		if r.IntN(20) == 0 {
			n = r.IntN(maxRecs)
		}
		for i := 0; i < n; i++ {
			a := gen.Rand(r, gen.Types[r.IntN(len(gen.Types))], gen.RandID(r), 0.3)
			if i > 0 && r.IntN(4) == 0 {
				a = abs[r.IntN(len(abs))] // repeated records are kept too
			}
			abs = append(abs, a)
			m.Records = append(m.Records, a.Record(r.IntN(2) == 0))
		}
		return sent{fmt.Sprintf("record message to %q with %v", m.To, abs), m.Encode, func(dec any) string {
			rm, ok := dec.(vanflow.RecordMessage)
			if !ok {
				return fmt.Sprintf("got a %T", dec)
			}
			if rm.To != m.To || rm.Subject != "RECORD" {
				return fmt.Sprintf("got To=%q Subject=%q", rm.To, rm.Subject)
			}
			if len(rm.Records) != len(abs) {
				return fmt.Sprintf("got %d records, want %d", len(rm.Records), len(abs))
			}
			for i := range abs {
				if s := gen.Show(rm.Records[i]); s != abs[i].String() {
					return fmt.Sprintf("record %d is %s, want %s", i, s, abs[i])
				}
			}
			return ""
		}, m.To, "RECORD"}
	}
}

func checkSent(c *mon.Check, name string, s sent, msg *amqp.Message) {
	if msg.Properties == nil || msg.Properties.Subject == nil || *msg.Properties.Subject != s.subj {
		c.Violate(name, "%s was encoded without the subject %s: %s", s.desc, s.subj, showMsg(msg))
	}
	if msg.Properties.To == nil || *msg.Properties.To != s.to {
		c.Violate(name, "%s was not addressed to %q: %s", s.desc, s.to, showMsg(msg))
	}
	dec, err := vanflow.Decode(msg)
	if err != nil {
		c.Violate(name, "%s could not be decoded: %v", s.desc, err)
	}
	if bad := s.chk(dec); bad != "" {
		c.Violate(name, "%s decoded wrongly: %s", s.desc, bad)
	}
	out, err := viaAMQP(msg)
	if err != nil {
		c.Violate(name, "%s has no binary form: %v", s.desc, err)
	}
	if dec, err = vanflow.Decode(out); err != nil {
		c.Violate(name, "%s could not be decoded after binary AMQP: %v", s.desc, err)
	}
	if bad := s.chk(dec); bad != "" {
		c.Violate(name, "%s decoded wrongly after binary AMQP: %s", s.desc, bad)
	}
	c.Count("messages decoded", 2)
}

func TestA04(t *testing.T) {
	c := mon.Start("A04", "a case is one message encoded and decoded directly and through binary AMQP, or a group of messages encoded together before any is decoded, also from several goroutines; distinct by content, non-trivial always")
	r := c.Rand("single")
	for i := 0; i < c.N(30000, 800000); i++ {
		name := fmt.Sprintf("single/%d", i)
		s := randSent(r, 300)
		if c.Skip(name) {
			continue
		}
		if c.WantSample() && i > 3 {
			c.Sample(s.desc)
		}
		msg, err := s.enc()
		if err != nil {
			c.Violate(name, "%s could not be encoded: %v", s.desc, err)
		}
		checkSent(c, name, s, msg)
		c.Case(s.desc)
		c.Count("kind "+s.subj, 1)
	}
	// encode several, keep the encoded forms, decode in another order
	r = c.Rand("group")
	for i := 0; i < c.N(3000, 60000); i++ {
		name := fmt.Sprintf("group/%d", i)
		n := 2 + r.IntN(6)
		ss := make([]sent, n)
		for j := range ss {
			ss[j] = randSent(r, 10)
		}
		order := r.Perm(n)
		if c.Skip(name) {
			continue
		}
		msgs := make([]*amqp.Message, n)
		encode := func(j int) {
			m, err := ss[j].enc()
			if err != nil {
				c.Violate(name, "%s could not be encoded: %v", ss[j].desc, err)
			}
			msgs[j] = m
		}
		if i%2 == 0 {
			for j := range ss {
				encode(j)
			}
		} else {
			var wg sync.WaitGroup
			for j := range ss {
				wg.Add(1)
				go func() { defer wg.Done(); encode(j) }()
			}
			wg.Wait()
			c.Count("concurrent groups", 1)
		}
		for _, j := range order {
			checkSent(c, name, ss[j], msgs[j])
			if r.IntN(2) == 0 { // the same message encoded again is the same
				m2, err := ss[j].enc()
				if err != nil || !reflect.DeepEqual(m2, msgs[j]) {
					c.Violate(name, "%s was encoded differently the second time (%v): %s, %s", ss[j].desc, err, showMsg(msgs[j]), showMsg(m2))
				}
			}
		}
		c.Case(fmt.Sprint(name, ss[0].desc))
	}
	c.Finish(map[string]int64{"messages decoded": 10000, "kind BEACON": 500, "kind HEARTBEAT": 500, "kind FLUSH": 500, "kind RECORD": 500, "concurrent groups": 500})
}
