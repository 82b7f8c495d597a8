// Package stores has the checks of the record store.
package stores

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Azure/go-amqp/vf/gen"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

var ctx = context.Background()

// clock is the logical clock of recorded histories.
var clock atomic.Int64

func tick() int64 { return clock.Add(1) }

// jitter gives other goroutines a chance, at points the store lets its user
// run code: key functions, indexers, callbacks and record methods.
type jitter struct {
	on atomic.Bool
	n  atomic.Uint64
}

func (j *jitter) hit() {
	if !j.on.Load() {
		return
	}
	x := j.n.Add(0x9e3779b97f4a7c15)
	x ^= x >> 29
	switch x % 7 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := uint64(0); i < x%512; i++ {
			_ = i
		}
	case 3:
		if x%31 == 0 {
			time.Sleep(time.Microsecond)
		}
	}
}

// show renders an entry canonically: everything but the update time.
func show(e store.Entry) string {
	var ann []string
	for k, v := range e.Meta.Annotations {
		ann = append(ann, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ann)
	return fmt.Sprintf("src=%+v ann=[%s] type=%s rec=%s", e.Meta.Source, strings.Join(ann, " "), e.TypeMeta, gen.Show(e.Record))
}

func showAll(es []store.Entry) []string {
	out := make([]string, len(es))
	for i := range es {
		out[i] = show(es[i])
	}
	return out
}

func sortedShow(es []store.Entry) []string {
	out := showAll(es)
	sort.Strings(out)
	return out
}

func site(id, loc, name string) *vanflow.SiteRecord {
	r := &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}
	if loc != "" {
		r.Location = &loc
	}
	if name != "" {
		r.Name = &name
	}
	return r
}

func recOf(e store.Entry) (*vanflow.SiteRecord, bool) {
	switch r := e.Record.(type) {
	case *vanflow.SiteRecord:
		return r, r != nil
	case vanflow.SiteRecord:
		return &r, true
	}
	return nil, false
}

func str(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.IntN(len(xs))] }

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// errInjected is what injected failures return.
var errInjected = fmt.Errorf("injected failure")
