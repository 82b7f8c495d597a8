package codec

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
)

func judgeMap(c *mon.Check, name string, m map[any]any) bool {
	want, refErr := gen.RefDecode(m)
	before := fmt.Sprintf("%#v", m)
	var got any
	var err error
	if p := mon.Try(func() { got, err = encoding.Decode(m) }); p != "" {
		c.Violate(name, "decoding the attribute map %s crashed: %s", before, p)
	}
	switch {
	case refErr != nil && err == nil:
		c.Violate(name, "the attribute map %s breaks the rules (%v) but was decoded as %s", before, refErr, gen.Show(got))
	case refErr == nil && err != nil:
		c.Violate(name, "the attribute map %s is well-formed but was refused: %v", before, err)
	case refErr == nil && gen.Show(got) != want.String():
		c.Violate(name, "the attribute map %s was decoded as %s", before, gen.Show(got))
	}
	if after := fmt.Sprintf("%#v", m); after != before {
		c.Violate(name, "decoding changed the attribute map %s to %s", before, after)
	}
	return refErr == nil
}

// judgeMessage compares vanflow.Decode with the specification.
func judgeMessage(c *mon.Check, name string, m *amqp.Message) (accepted bool) {
	var got any
	var err error
	if p := mon.Try(func() { got, err = vanflow.Decode(m) }); p != "" {
		c.Violate(name, "decoding the message %s crashed: %s", showMsg(m), p)
	}
	bad := func(why string) bool {
		if err == nil {
			c.Violate(name, "the message %s breaks the rules (%s) but was decoded as %+v", showMsg(m), why, got)
		}
		c.Seen("refusal", why)
		return false
	}
	if m == nil || m.Properties == nil {
		return bad("no properties")
	}
	if m.Properties.Subject == nil {
		return bad("no subject")
	}
	props := vanflow.MessageProps{Subject: *m.Properties.Subject}
	if m.Properties.To != nil {
		props.To = *m.Properties.To
	}
	replyTo := ""
	if m.Properties.ReplyTo != nil {
		replyTo = *m.Properties.ReplyTo
	}
	app := m.ApplicationProperties
	str := func(k string) string { s, _ := app[k].(string); return s }
	u32 := func(k string) uint32 { s, _ := app[k].(uint32); return s }
	u64 := func(k string) uint64 { s, _ := app[k].(uint64); return s }
	var want any
	switch *m.Properties.Subject {
	case "BEACON":
		props.ReplyTo = replyTo
		want = vanflow.BeaconMessage{MessageProps: props, Version: u32("v"), SourceType: str("sourceType"), Address: str("address"), Direct: str("direct"), Identity: str("id")}
	case "HEARTBEAT":
		// whether a reply address, which heartbeats do not have, shows is open
		if h, ok := got.(vanflow.HeartbeatMessage); ok && h.ReplyTo == replyTo {
			props.ReplyTo = replyTo
		}
		want = vanflow.HeartbeatMessage{MessageProps: props, Identity: str("id"), Version: u32("v"), Now: u64("now")}
	case "FLUSH":
		props.ReplyTo = replyTo
		want = vanflow.FlushMessage{MessageProps: props}
	case "RECORD":
		list, ok := m.Value.([]any)
		if !ok {
			return bad("body is not a list")
		}
		var recs []gen.Abs
		for _, el := range list {
			rm, ok := el.(map[any]any)
			if !ok {
				return bad("element is not a map")
			}
			a, rerr := gen.RefDecode(rm)
			if rerr != nil {
				return bad("malformed record: " + strings.Fields(rerr.Error())[0])
			}
			recs = append(recs, a)
		}
		if err != nil {
			c.Violate(name, "the message %s is well-formed but was refused: %v", showMsg(m), err)
		}
		rm, ok := got.(vanflow.RecordMessage)
		if !ok || len(rm.Records) != len(recs) || rm.To != props.To || rm.Subject != props.Subject {
			c.Violate(name, "the message %s was decoded as %+v", showMsg(m), got)
		}
		for i := range recs {
			if s := gen.Show(rm.Records[i]); s != recs[i].String() {
				c.Violate(name, "record %d of the message was %s and was decoded as %s", i, recs[i], s)
			}
		}
		return true
	default:
		return bad("unknown subject")
	}
	if err != nil {
		c.Violate(name, "the message %s is well-formed but was refused: %v", showMsg(m), err)
	}
	if got != want {
		c.Violate(name, "the message %s was decoded as %+v, want %+v", showMsg(m), got, want)
	}
	return true
}

func showMsg(m *amqp.Message) string {
	if m == nil {
		return "nil"
	}
	p := func(s *string) string {
		if s == nil {
			return "nil"
		}
		return fmt.Sprintf("%q", *s)
	}
	props := "nil"
	if m.Properties != nil {
		props = fmt.Sprintf("{To:%s Subject:%s ReplyTo:%s}", p(m.Properties.To), p(m.Properties.Subject), p(m.Properties.ReplyTo))
	}
	return fmt.Sprintf("{Properties:%s ApplicationProperties:%#v Value:%#v}", props, m.ApplicationProperties, m.Value)
}

type unregistered struct {
	vanflow.BaseRecord
}

func (unregistered) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "x"} }

func TestA03(t *testing.T) {
	c := mon.Start("A03", "a case is one hostile input (attribute map, message, message bytes after mutation, or value to encode), judged against an independent acceptance rule; distinct by its rendering, non-trivial when it differs from a well-formed one or is refused")
	r := c.Rand("maps")
	for i := 0; i < c.N(60000, 1500000); i++ {
		typ := gen.Types[i%len(gen.Types)]
		m := gen.MutateMap(r, gen.Rand(r, typ, gen.RandString(r), 0.5).Wire())
		name := fmt.Sprintf("map/%d", i)
		if c.Skip(name) {
			continue
		}
		sig := fmt.Sprintf("%#v", m)
		if judgeMap(c, name, m) {
			c.Count("maps accepted", 1)
		} else {
			c.Count("maps refused", 1)
		}
		c.Case(sig)
	}
	// every attribute with every wrong value, exhaustively
	for _, typ := range gen.Types {
		for _, at := range append(typ.AllAttrs(), gen.Attr{Code: 1, Kind: gen.Str}, gen.Attr{Code: 0, Kind: gen.U64}) {
			for i := 0; i < 40; i++ {
				m := gen.Rand(r, typ, "x", 0.2).Wire()
				m[at.Code] = gen.WrongValue(r, 0)
				if i == 0 {
					m[at.Code] = nil
				}
				judgeMap(c, fmt.Sprintf("attr/%s/%d/%d", typ.Name, at.Code, i), m)
				c.Case(fmt.Sprintf("%#v", m))
			}
			for i, v := range append(gen.Empties[:len(gen.Empties):len(gen.Empties)], (*string)(nil), (*uint64)(nil), (*vanflow.Time)(nil), error(nil)) {
				m := gen.Rand(r, typ, "x", 0.2).Wire()
				m[at.Code] = v
				judgeMap(c, fmt.Sprintf("empty/%s/%d/%d", typ.Name, at.Code, i), m)
				c.Case(fmt.Sprintf("%#v", m))
			}
		}
	}
	judgeMap(c, "map/nil", nil)
	judgeMap(c, "map/empty", map[any]any{})
	judgeMessage(c, "msg/nil", nil)

	r = c.Rand("messages")
	for i := 0; i < c.N(40000, 1000000); i++ {
		m := gen.RandMessage(r)
		name := fmt.Sprintf("msg/%d", i)
		if c.Skip(name) {
			continue
		}
		if c.WantSample() && i > 10 {
			c.Sample(showMsg(m))
		}
		if judgeMessage(c, name, m) {
			c.Count("messages accepted", 1)
		} else {
			c.Count("messages refused", 1)
		}
		c.Case(showMsg(m))
		typedDecoders(c, name, m)
		if i%2 == 0 {
			mutateBytes(c, r, name, m)
		}
	}

	notRecords(c)
	encodeInvalid(c)
	c.Finish(map[string]int64{"maps accepted": 1000, "maps refused": 1000, "messages accepted": 1000,
		"messages refused": 1000, "mutated byte strings readable": 1000, "invalid values refused": 15, "refusal": 6})
}

// notRecord can be registered but is no vanflow.Record.
type notRecord struct {
	ID string `vflow:"1,required"`
}

// notRecords: elements of a type that can be decoded but is no record.
func notRecords(c *mon.Check) {
	const code = 4000000
	encoding.MustRegisterRecord(code, notRecord{})
	r := c.Rand("not records")
	subject := "RECORD"
	for i := 0; i < 200; i++ {
		var list []any
		for n := r.IntN(4); n > 0; n-- {
			list = append(list, gen.Rand(r, gen.Types[r.IntN(len(gen.Types))], gen.RandID(r), 0.3).Wire())
		}
		at := r.IntN(len(list) + 1)
		list = append(list[:at], append([]any{map[any]any{uint32(0): uint32(code), uint32(1): "x"}}, list[at:]...)...)
		m := &amqp.Message{Properties: &amqp.MessageProperties{Subject: &subject}, Value: list}
		name := fmt.Sprintf("notrecord/%d", i)
		var got any
		var err error
		if p := mon.Try(func() { got, err = vanflow.Decode(m) }); p != "" {
			c.Violate(name, "decoding the message %s crashed: %s", showMsg(m), p)
		}
		if err == nil {
			c.Violate(name, "element %d of the message %s is of a type that is no record but it was decoded as %+v", at, showMsg(m), got)
		}
		c.Count("messages refused", 1)
		c.Case(name)
	}
}

// typedDecoders must return for every message, whatever its subject.
func typedDecoders(c *mon.Check, name string, m *amqp.Message) {
	for what, f := range map[string]func(){
		"DecodeBeacon":    func() { vanflow.DecodeBeacon(m) },
		"DecodeHeartbeat": func() { vanflow.DecodeHeartbeat(m) },
		"DecodeFlush":     func() { vanflow.DecodeFlush(m) },
		"DecodeRecord":    func() { vanflow.DecodeRecord(m) },
	} {
		if p := mon.Try(f); p != "" {
			c.Violate(name, "%s of the message %s crashed: %s", what, showMsg(m), p)
		}
	}
	c.Count("typed decodes", 4)
}

// mutateBytes damages the binary form of a message and decodes what the AMQP
// library still makes of it.
func mutateBytes(c *mon.Check, r *rand.Rand, name string, m *amqp.Message) {
	b, err := m.MarshalBinary()
	if err != nil || len(b) == 0 {
		return
	}
	for k := 0; k < 3; k++ {
		x := append([]byte(nil), b...)
		for i := 1 + r.IntN(3); i > 0; i-- {
			p := r.IntN(len(x))
			switch r.IntN(4) {
			case 0:
				x[p] ^= 1 << r.IntN(8)
			case 1:
				x[p] = []byte{0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72, 0x74, 0x80, 0x81, 0x82, 0x83, 0x98, 0xa0, 0xa1, 0xa3, 0xb1, 0xc0, 0xc1, 0xd0}[r.IntN(30)]
			case 2:
				x = append(x[:p], x[p+1:]...)
			default:
				x = append(x[:p], append([]byte{byte(r.Uint64())}, x[p:]...)...)
			}
			if len(x) == 0 {
				return
			}
		}
		var out amqp.Message
		ok := false
		if p := mon.Try(func() { ok = out.UnmarshalBinary(x) == nil }); p != "" || !ok {
			c.Count("mutated byte strings unreadable", 1)
			continue // refused by the AMQP library
		}
		c.Count("mutated byte strings readable", 1)
		judgeMessage(c, fmt.Sprintf("%s/bytes/%d", name, k), &out)
		typedDecoders(c, name, &out)
		c.Case(string(x))
	}
}

func encodeInvalid(c *mon.Check) {
	var nilSite *vanflow.SiteRecord
	var nilFlow *vanflow.FlowRecord
	var nilInt *int
	site := vanflow.SiteRecord{BaseRecord: vanflow.NewBase("x")}
	psite := &site
	var nilIface vanflow.Record
	at := func(tm time.Time) any {
		return vanflow.SiteRecord{BaseRecord: vanflow.NewBase("x", tm)}
	}
	end := func(tm time.Time) any {
		return &vanflow.LogRecord{BaseRecord: vanflow.BaseRecord{ID: "x", EndTime: &vanflow.Time{Time: tm}}}
	}
	invalid := map[string]any{
		"nil":                     nil,
		"nil interface":           nilIface,
		"nil *SiteRecord":         nilSite,
		"nil *FlowRecord":         nilFlow,
		"nil *int":                nilInt,
		"pointer to pointer":      &psite,
		"pointer to nil pointer":  &nilSite,
		"string":                  "x",
		"int":                     1,
		"func":                    func() {},
		"nil map":                 map[any]any(nil),
		"map":                     map[any]any{uint32(0): uint32(0), uint32(1): "x"},
		"slice":                   []vanflow.Record{site},
		"chan":                    make(chan int),
		"empty struct":            struct{}{},
		"unregistered":            unregistered{},
		"unregistered pointer":    &unregistered{},
		"base record":             vanflow.NewBase("x"),
		"message":                 vanflow.BeaconMessage{},
		"no identity":             vanflow.SiteRecord{},
		"no identity pointer":     &vanflow.FlowRecord{},
		"start before epoch":      at(time.UnixMicro(-1)),
		"start 1ns before epoch":  at(time.Unix(0, -1)),
		"start in 1900":           at(time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC)),
		"start before the era":    at(time.Date(-5, 1, 1, 0, 0, 0, 0, time.UTC)),
		"start far past":          at(time.Unix(-1<<60, 0)),
		"start far past 2":        at(time.Unix(-20000000000000, 0)),
		"start far past 3":        at(time.Unix(-10000000000000, 0)),
		"end before epoch":        end(time.UnixMicro(-1)),
		"end after representable": end(time.UnixMicro(math.MaxInt64).Add(time.Microsecond)),
		"end far future":          end(time.Unix(20000000000000, 0)),
		"end far future 2":        end(time.Unix(1<<60, 0)),
		"end far future 3":        end(time.Unix(10000000000000, 0)),
	}
	for name, v := range invalid {
		var err error
		var out any
		if p := mon.Try(func() { out, err = encoding.Encode(v) }); p != "" {
			c.Violate("encode/"+name, "encoding %s crashed: %s", name, p)
		}
		if err == nil {
			c.Violate("encode/"+name, "encoding %s did not fail but gave %v", name, out)
		}
		if rec, ok := v.(vanflow.Record); ok || name == "nil interface" {
			for pos := 0; pos < 2; pos++ {
				recs := []vanflow.Record{site, site}
				recs[pos] = rec
				if p := mon.Try(func() { _, err = vanflow.RecordMessage{Records: recs}.Encode() }); p != "" {
					c.Violate("encode/"+name, "encoding a record message with %s crashed: %s", name, p)
				}
				if err == nil {
					c.Violate("encode/"+name, "encoding a record message with %s did not fail", name)
				}
			}
		}
		c.Count("invalid values refused", 1)
		c.Case("encode/" + name)
	}
	// and the edges that are representable must not be refused
	for _, tm := range []time.Time{time.Unix(0, 0), time.Unix(0, 1), time.UnixMicro(math.MaxInt64), time.UnixMicro(math.MaxInt64 - 1)} {
		if _, err := encoding.Encode(at(tm)); err != nil {
			c.Violate("encode/edge", "time %v is representable but was refused: %v", tm, err)
		}
	}
}
