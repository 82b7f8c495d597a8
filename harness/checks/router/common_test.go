// Package router has the checks of the real AMQP container. They run it
// against the scripted AMQP peer over loopback sockets, in real time.
package router

import (
	"context"
	"encoding/binary"
	"fmt"
	"log/slog"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
)

var bg = context.Background()

// patience is how long anything that takes milliseconds may take before it
// counts as not happening.
const patience = 20 * time.Second

func init() {
	slog.SetDefault(slog.New(slog.DiscardHandler))
	mon.WatchdogLimit = 100 * time.Second
}

// parallel runs n cases, w at a time.
func parallel(c *mon.Check, n, w int, run func(name string)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				name := fmt.Sprintf("run-%d", i)
				if c.Skip(name) {
					continue
				}
				c.Doing("%s", name)
				run(name)
			}
		}()
	}
	wg.Wait()
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func msDur(r *rand.Rand, max int) time.Duration {
	return time.Duration(r.IntN(max*1000+1)) * time.Microsecond
}

// body is a message body of its own; big ones take several frames.
func body(label string, n int, pad int) string {
	return fmt.Sprintf("%s/%d%s", label, n, strings.Repeat(".", pad))
}

func message(body string) *amqp.Message { return amqp.NewMessage([]byte(body)) }

// payload encodes a message for the router to deliver.
func payload(body string) []byte {
	b, err := message(body).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

// unbody gets the body back from an encoded message: a single data section.
func unbody(p []byte) string {
	var m amqp.Message
	if err := m.UnmarshalBinary(p); err != nil || len(m.Data) != 1 {
		return fmt.Sprintf("?%x", p)
	}
	return string(m.Data[0])
}

var _ = binary.BigEndian

func stacks() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "c-kruse/vanflow/session") {
			out = append(out, g)
		}
	}
	if f := os.Getenv("VF_STACKS"); f != "" {
		os.WriteFile(f, buf, 0o644)
	}
	return strings.Join(out, "\n\n")
}

// within runs f and reports when it does not end in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

func constant(d time.Duration) backoff.BackOff { return backoff.NewConstantBackOff(d) }

func newContainer(r *router.Router, id string, b backoff.BackOff) session.Container {
	return session.NewContainer(r.Addr(), session.ContainerConfig{ContainerID: id, BackOff: b})
}

func tail(log []router.Event, n int) string {
	if len(log) > n {
		log = log[len(log)-n:]
	}
	var sb strings.Builder
	for _, e := range log {
		sb.WriteString(e.String())
		sb.WriteByte('\n')
	}
	return sb.String()
}

var _ testing.TB
