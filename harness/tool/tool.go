// Package tool runs the real vanflow-tool binary and simulates the event
// sources it talks to, over the scripted AMQP peer.
package tool

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Ports the tool listens on.
const (
	ServePort   = 9090
	FixturePort = 9080
)

// Proc is a running tool.
type Proc struct {
	cmd  *exec.Cmd
	Out  *Buffer
	Err  *Buffer
	done chan struct{}
	err  error
}

// Buffer collects output.
type Buffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *Buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *Buffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// Lines are the complete lines so far.
func (b *Buffer) Lines() []string {
	s := b.String()
	i := strings.LastIndexByte(s, '\n')
	if i < 0 {
		return nil
	}
	return strings.Split(s[:i], "\n")
}

// Bin is the path of a binary built by run.py.
func Bin(name string) string { return filepath.Join(os.Getenv("VF_BIN"), name) }

// Start runs the tool.
func Start(args ...string) (*Proc, error) { return StartOut(nil, args...) }

// StartOut runs the tool with its standard output going to w.
func StartOut(w *os.File, args ...string) (*Proc, error) {
	return Run(exec.Command(Bin("vanflow-tool"), args...), w)
}

// Run starts a command as a Proc.
func Run(cmd *exec.Cmd, w *os.File) (*Proc, error) {
	p := &Proc{Out: &Buffer{}, Err: &Buffer{}, done: make(chan struct{})}
	p.cmd = cmd
	cmd.Stdout, cmd.Stderr = p.Out, p.Err
	if w != nil {
		cmd.Stdout = w
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.err = cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

// Done is closed when the process has ended.
func (p *Proc) Done() <-chan struct{} { return p.done }

func (p *Proc) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

// Wait waits for the end of the process.
func (p *Proc) Wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// Args is the command line.
func (p *Proc) Args() string { return strings.Join(p.cmd.Args[1:], " ") }

// Code is the exit status: -1 when ended by a signal.
func (p *Proc) Code() int { return p.cmd.ProcessState.ExitCode() }

func (p *Proc) Signal(s os.Signal) { p.cmd.Process.Signal(s) }

// Stop interrupts the tool and reports whether it ended in time. One that does
// not is made to print its stacks and killed.
func (p *Proc) Stop(d time.Duration) bool {
	p.Signal(os.Interrupt)
	if p.Wait(d) {
		return true
	}
	p.Signal(syscall.SIGQUIT)
	if !p.Wait(3 * time.Second) {
		p.Kill()
	}
	return false
}

func (p *Proc) Kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// Crash is the report of a crash in the output, empty if there is none.
func (p *Proc) Crash() string {
	s := p.Err.String()
	for _, k := range []string{"panic: ", "fatal error: ", "SIGSEGV", "unexpected fault address"} {
		for i := 0; ; {
			j := strings.Index(s[i:], k)
			if j < 0 {
				break
			}
			i += j
			if i == 0 || s[i-1] == '\n' {
				e := s[i:]
				if len(e) > 6000 {
					e = e[:6000]
				}
				return e
			}
			i++
		}
	}
	return ""
}

// Tail is the end of what the tool wrote.
func (p *Proc) Tail() string {
	cut := func(s string, n int) string {
		if len(s) > n {
			s = s[len(s)-n:]
		}
		return s
	}
	return "stdout: ..." + cut(p.Out.String(), 1500) + "\nstderr: ..." + cut(p.Err.String(), 3000)
}

// Reply is an HTTP response.
type Reply struct {
	Status int
	Body   []byte
}

var client = &http.Client{
	Transport: &http.Transport{DisableKeepAlives: true},
	CheckRedirect: func(*http.Request, []*http.Request) error {
		return http.ErrUseLastResponse
	},
}

// HTTP does a request with a time limit.
func HTTP(d time.Duration, method string, port int, path, body string) (Reply, error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, fmt.Sprintf("http://127.0.0.1:%d%s", port, path), strings.NewReader(body))
	if err != nil {
		return Reply{}, err
	}
	resp, err := client.Do(req)
	if err != nil {
		return Reply{}, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return Reply{resp.StatusCode, b}, err
}

// AwaitFree waits until nothing listens on a port.
func AwaitFree(port int, d time.Duration) error {
	for end := time.Now().Add(d); ; time.Sleep(20 * time.Millisecond) {
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err == nil {
			ln.Close()
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("port %d is in use by something else: %w", port, err)
		}
	}
}

// AwaitUp waits until p listens on a port.
func (p *Proc) AwaitUp(port int, d time.Duration) error {
	for end := time.Now().Add(d); ; time.Sleep(5 * time.Millisecond) {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			conn.Close()
			return nil
		}
		if !p.Alive() {
			return errors.New("the tool ended")
		}
		if time.Now().After(end) {
			return err
		}
	}
}
