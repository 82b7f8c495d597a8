package gen

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"github.com/Azure/go-amqp"
)

// RecordMsg builds a record message on the wire, without the code under test.
func RecordMsg(to string, recs []Abs) *amqp.Message {
	subj := "RECORD"
	list := make([]any, 0, len(recs))
	for _, a := range recs {
		list = append(list, a.Wire())
	}
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: &subj}, Value: list}
}

// HeartbeatMsg builds a heartbeat message on the wire.
func HeartbeatMsg(id string, version uint32, now uint64) *amqp.Message {
	subj, to := "HEARTBEAT", "mc/sfe."+id
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: &subj},
		ApplicationProperties: map[string]any{"v": version, "now": now, "id": id}}
}

// BeaconMsg builds a beacon message on the wire.
func BeaconMsg(id string, version uint32, typ, address, direct string) *amqp.Message {
	subj, to := "BEACON", "mc/sfe.all"
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, Subject: &subj},
		ApplicationProperties: map[string]any{"v": version, "sourceType": typ, "address": address, "direct": direct, "id": id}}
}

// FlushMsg builds a flush message on the wire.
func FlushMsg(to string) *amqp.Message {
	subj, empty := "FLUSH", ""
	return &amqp.Message{Properties: &amqp.MessageProperties{To: &to, ReplyTo: &empty, Subject: &subj}}
}

// Dress adds sections and properties to a third of the messages that say
// nothing about their content.
func Dress(r *rand.Rand, m *amqp.Message) *amqp.Message {
	if r.IntN(3) > 0 {
		return m
	}
	if r.IntN(2) == 0 {
		m.Header = &amqp.MessageHeader{Durable: r.IntN(2) == 0, Priority: uint8(r.IntN(256)), TTL: time.Duration(r.IntN(1e6)) * time.Millisecond,
			FirstAcquirer: r.IntN(2) == 0, DeliveryCount: uint32(r.IntN(4))}
	}
	if r.IntN(3) == 0 {
		m.DeliveryAnnotations = amqp.Annotations{"x-opt-to": "there", int64(1): uint64(2)}
	}
	if r.IntN(3) == 0 {
		m.Annotations = amqp.Annotations{"x-opt-ingress": "router", "x-opt-trace": []any{"0/a", "0/b"}}
	}
	if r.IntN(3) == 0 {
		m.Footer = amqp.Annotations{"crc": uint64(7)}
	}
	if m.Properties != nil {
		str := func(s string) *string { return &s }
		switch r.IntN(5) {
		case 0:
			m.Properties.MessageID = pickAny(r, "id", uint64(1))
			m.Properties.CorrelationID = pickAny(r, "other", uint64(2))
		case 1:
			now := time.UnixMilli(1700000000000)
			m.Properties.CreationTime = &now
			m.Properties.AbsoluteExpiryTime = &now
		case 2:
			m.Properties.UserID = []byte("user")
			m.Properties.GroupID = str("group")
		case 3:
			m.Properties.ContentType = str("application/json")
			m.Properties.ContentEncoding = str("gzip")
		}
	}
	if r.IntN(3) == 0 {
		ap := map[string]any{"extra": "x", "V": uint32(9), "address ": int64(3), "": true}
		for k, v := range m.ApplicationProperties {
			ap[k] = v
		}
		m.ApplicationProperties = ap
	}
	return m
}

func pickAny(r *rand.Rand, xs ...any) any { return xs[r.IntN(len(xs))] }

// RandRecords draws 0 to n records of any types.
func RandRecords(r *rand.Rand, n int) []Abs {
	var out []Abs
	for i := r.IntN(n + 1); i > 0; i-- {
		out = append(out, Rand(r, Types[r.IntN(len(Types))], RandID(r), 0.4))
	}
	return out
}

// ShowMsg renders the content of a VanFlow message canonically.
func ShowMsg(m *amqp.Message) string {
	if m == nil || m.Properties == nil || m.Properties.Subject == nil {
		return "message without subject"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s to=%s", *m.Properties.Subject, deref(m.Properties.To))
	for _, k := range []string{"v", "sourceType", "address", "direct", "id", "now"} {
		if v, ok := m.ApplicationProperties[k]; ok {
			fmt.Fprintf(&b, " %s=%T(%v)", k, v, v)
		}
	}
	if m.Value != nil {
		fmt.Fprintf(&b, " %s", ShowAll(RecordsOf(m)))
	}
	return b.String()
}

// RecordsOf reads the records of a record message, strictly.
func RecordsOf(m *amqp.Message) ([]Abs, error) {
	list, ok := m.Value.([]any)
	if !ok {
		return nil, fmt.Errorf("value is %T", m.Value)
	}
	var out []Abs
	for _, el := range list {
		wm, ok := el.(map[any]any)
		if !ok {
			return nil, fmt.Errorf("element is %T", el)
		}
		a, err := FromWire(wm)
		if err != nil {
			return nil, err
		}
		out = append(out, a)
	}
	return out, nil
}

// ShowAll renders a list of records.
func ShowAll(recs []Abs, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	out := make([]string, len(recs))
	for i := range recs {
		out[i] = recs[i].String()
	}
	return "[" + strings.Join(out, " ") + "]"
}

// Subject of a message, or "".
func Subject(m *amqp.Message) string {
	if m == nil || m.Properties == nil {
		return ""
	}
	return deref(m.Properties.Subject)
}

func deref(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}
