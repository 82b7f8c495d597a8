// Package tools has the checks of the vanflow-tool commands: the real binary
// runs against the scripted AMQP router with simulated sources and is driven
// over HTTP.
package tools

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"log/slog"
	"math/rand/v2"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/tool"
)

var bg = context.Background()

// patience is how long anything that takes milliseconds may take before it
// counts as not happening.
const patience = 20 * time.Second

func init() {
	slog.SetDefault(slog.New(slog.DiscardHandler))
	mon.WatchdogLimit = 300 * time.Second
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewPCG(r.Uint64(), r.Uint64())) }

func ms(r *rand.Rand, max int) time.Duration {
	return time.Duration(r.IntN(max*1000+1)) * time.Microsecond
}

// the kinds of records the tool deals with
var kinds = map[string]bool{"SiteRecord": true, "LinkRecord": true, "RouterRecord": true, "ListenerRecord": true, "ConnectorRecord": true, "ProcessRecord": true, "FlowRecord": true, "LogRecord": true}

func typeOf(name string) gen.Type {
	for _, t := range gen.Types {
		if t.Name == name {
			return t
		}
	}
	panic(name)
}

// sourceRef is the source of an entry as shown by the tool.
type sourceRef struct{ APIVersion, Type, Name string }

func refOf(s *tool.Source) sourceRef { return sourceRef{fmt.Sprint(s.Version), s.Type, s.ID} }

// entry is an entry of a view.
type entry struct {
	Meta struct {
		Source      sourceRef
		UpdatedAt   time.Time
		Annotations map[string]string
	}
	TypeMeta struct{ APIVersion, Type string }
	Record   json.RawMessage
}

// view is a response of the serve command.
type view struct {
	Data  []entry  `json:"data"`
	Error string   `json:"error"`
	Refs  []string `json:"refs"`
}

func (e entry) abs() (gen.Abs, error) {
	return fromJSON(e.TypeMeta.Type, e.Record)
}

// fromJSON reads a record's JSON form, by the Go names of its attributes.
func fromJSON(typ string, raw []byte) (gen.Abs, error) {
	var t gen.Type
	for _, x := range gen.Types {
		if x.Name == typ {
			t = x
		}
	}
	if t.Name == "" {
		return gen.Abs{}, fmt.Errorf("unknown type %q", typ)
	}
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	var m map[string]any
	if err := dec.Decode(&m); err != nil {
		return gen.Abs{}, err
	}
	a := gen.Abs{Type: typ, Attrs: map[uint32]any{}}
	id, ok := m["ID"].(string)
	if !ok {
		return a, fmt.Errorf("no identity in %s", raw)
	}
	a.ID = id
	delete(m, "ID")
	for _, at := range t.AllAttrs() {
		v, ok := m[at.Field]
		delete(m, at.Field)
		if !ok || v == nil {
			continue
		}
		switch at.Kind {
		case gen.Str:
			s, ok := v.(string)
			if !ok {
				return a, fmt.Errorf("%s is %v", at.Field, v)
			}
			a.Attrs[at.Code] = s
		case gen.U64:
			n, ok := v.(json.Number)
			u, err := strconv.ParseUint(string(n), 10, 64)
			if !ok || err != nil {
				return a, fmt.Errorf("%s is %v", at.Field, v)
			}
			a.Attrs[at.Code] = u
		case gen.Time:
			switch v := v.(type) {
			case json.Number:
				u, err := strconv.ParseUint(string(v), 10, 64)
				if err != nil {
					return a, fmt.Errorf("%s is %v", at.Field, v)
				}
				a.Attrs[at.Code] = u
			case string:
				ts, err := time.Parse(time.RFC3339Nano, v)
				if err != nil || ts.Nanosecond()%1000 != 0 {
					return a, fmt.Errorf("%s is %v", at.Field, v)
				}
				a.Attrs[at.Code] = uint64(ts.UnixMicro())
			default:
				return a, fmt.Errorf("%s is %v", at.Field, v)
			}
		}
	}
	for k := range m {
		return a, fmt.Errorf("unexpected %q in %s", k, raw)
	}
	return a, nil
}

// toJSON is the inverse of fromJSON.
func toJSON(a gen.Abs) json.RawMessage {
	m := map[string]any{"ID": a.ID}
	for _, at := range typeOf(a.Type).AllAttrs() {
		v, ok := a.Attrs[at.Code]
		if !ok {
			m[at.Field] = nil
			continue
		}
		if at.Kind == gen.Time {
			if ts := time.UnixMicro(int64(v.(uint64))).UTC(); ts.Year() <= 9999 {
				v = ts.Format(time.RFC3339Nano)
			}
		}
		m[at.Field] = v
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// collected is a record as it should be shown.
type collected struct {
	src sourceRef
	rec gen.Abs
}

func (c collected) key() string    { return c.rec.Type + "/" + c.rec.ID }
func (c collected) String() string { return fmt.Sprintf("%v %s", c.src, c.rec) }

// readView parses a response of the serve command.
func readView(rep tool.Reply) (view, []collected, error) {
	var v view
	if rep.Status != http.StatusOK {
		return v, nil, fmt.Errorf("status %d: %.200s", rep.Status, rep.Body)
	}
	if err := json.Unmarshal(rep.Body, &v); err != nil {
		return v, nil, fmt.Errorf("response of %d bytes is not JSON: %v: %.200q", len(rep.Body), err, rep.Body)
	}
	if v.Error != "" {
		return v, nil, fmt.Errorf("error %q", v.Error)
	}
	var out []collected
	for _, e := range v.Data {
		a, err := e.abs()
		if err != nil {
			return v, nil, fmt.Errorf("entry %+v: %v", e, err)
		}
		if e.TypeMeta.APIVersion != "flow/v1" {
			return v, nil, fmt.Errorf("entry of API version %q", e.TypeMeta.APIVersion)
		}
		out = append(out, collected{e.Meta.Source, a})
	}
	return v, out, nil
}

func showSorted(cs []collected) []string {
	out := make([]string, len(cs))
	for i, c := range cs {
		out[i] = c.String()
	}
	sort.Strings(out)
	return out
}

// diff describes how two sets of lines differ, empty if they do not.
func diff(got, want []string) string {
	n := map[string]int{}
	for _, g := range got {
		n[g]++
	}
	for _, w := range want {
		n[w]--
	}
	var out []string
	for k, v := range n {
		if len(k) > 600 {
			k = k[:600] + "..."
		}
		if v > 0 {
			out = append(out, fmt.Sprintf("%d more than expected: %s", v, k))
		} else if v < 0 {
			out = append(out, fmt.Sprintf("%d missing: %s", -v, k))
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], fmt.Sprintf("and %d more", len(out)-12))
	}
	return strings.Join(out, "\n")
}

// launch starts a tool and waits until it listens on port (0: none).
func launch(c *mon.Check, name string, port int, args ...string) *tool.Proc {
	if port != 0 {
		if err := tool.AwaitFree(port, 10*time.Second); err != nil {
			c.Inconclusive("%v", err)
		}
	}
	p, err := tool.Start(args...)
	if err != nil {
		c.Inconclusive("cannot run the tool: %v", err)
	}
	if port != 0 {
		if err := p.AwaitUp(port, patience); err != nil {
			crashed(c, name, p)
			c.Inconclusive("%s: the tool does not serve port %d: %v\n%s", name, port, err, p.Tail())
		}
	}
	return p
}

// crashed reports a crash of the tool.
func crashed(c *mon.Check, name string, p *tool.Proc) {
	if s := p.Crash(); s != "" {
		c.Violate(name, "%q crashed:\n%s", p.Args(), s)
	}
	if !p.Alive() {
		c.Violate(name, "%q ended by itself with status %d:\n%s", p.Args(), p.Code(), p.Tail())
	}
}

// finish interrupts the tool.
func finish(c *mon.Check, name string, p *tool.Proc) {
	crashed(c, name, p)
	if !p.Stop(patience) {
		c.Inconclusive("%s: %q does not end when interrupted:\n%s", name, p.Args(), p.Tail())
	}
	if s := p.Crash(); s != "" {
		c.Violate(name, "%q crashed:\n%s", p.Args(), s)
	}
}

func unmarshal(b []byte, v any) error { return json.Unmarshal(b, v) }

func dialTool(port int) (net.Conn, error) {
	return net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), patience)
}
