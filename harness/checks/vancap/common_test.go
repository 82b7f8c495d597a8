// Package vancap has the checks of the vancap command: the real binary runs
// against scripted Kubernetes API servers.
package vancap

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/Azure/go-amqp/vf/kube"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/tool"
)

type obj = map[string]any

// patience is how long anything that takes milliseconds may take before it
// counts as not happening.
const patience = 20 * time.Second

// endsIn bounds how long vancap may take to end once interrupted, with the
// deployment to be deleted and servers that do not answer.
const endsIn = 40 * time.Second

func init() {
	mon.WatchdogLimit = 300 * time.Second
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewPCG(r.Uint64(), r.Uint64())) }

func ms(r *rand.Rand, max int) time.Duration {
	return time.Duration(r.IntN(max*1000+1)) * time.Microsecond
}

// scratch makes a directory for a run.
func scratch(c *mon.Check, name string) string {
	d := filepath.Join(os.Getenv("VF_WORK"), name)
	if err := os.MkdirAll(d, 0o700); err != nil {
		c.Inconclusive("%v", err)
	}
	return d
}

func write(c *mon.Check, path string, b []byte) string {
	if err := os.WriteFile(path, b, 0o600); err != nil {
		c.Inconclusive("%v", err)
	}
	return path
}

func writeJSON(c *mon.Check, path string, v any) string {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return write(c, path, b)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// start runs vancap with kubeconfig files.
func start(c *mon.Check, dir string, configs []string, args ...string) *tool.Proc {
	cmd := exec.Command(tool.Bin("vancap"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(dir, "home"), "KUBECONFIG=" + strings.Join(configs, ":"),
		"GORACE=" + os.Getenv("GORACE"), "GOTRACEBACK=all", "TMPDIR=" + dir}
	p, err := tool.Run(cmd, nil)
	if err != nil {
		c.Inconclusive("cannot run vancap: %v", err)
	}
	return p
}

// story is what happened, for reports.
func story(p *tool.Proc, ks ...*kube.Cluster) string {
	var sb strings.Builder
	state := "still running"
	if !p.Alive() {
		state = fmt.Sprint("exit status ", p.Code())
	}
	fmt.Fprintf(&sb, "vancap %s: %s\n", p.Args(), state)
	for _, k := range ks {
		fmt.Fprintf(&sb, "requests to %s:\n", k.Addr())
		log := k.Log()
		if len(log) > 60 {
			log = log[len(log)-60:]
		}
		for _, q := range log {
			fmt.Fprintf(&sb, "  %s\n", q.String())
		}
	}
	sb.WriteString(p.Tail())
	return sb.String()
}

// crashed reports a crash.
func crashed(c *mon.Check, name string, p *tool.Proc, ks ...*kube.Cluster) {
	if s := p.Crash(); s != "" {
		c.Violate(name, "vancap crashed:\n%s\n%s", s, story(p, ks...))
	}
}

var (
	caOnce sync.Once
	ca     *kube.Keys // signs servers
	cca    *kube.Keys // signs clients
	other  *kube.Keys // signs neither
)

func authorities() {
	caOnce.Do(func() {
		ca, cca, other = kube.NewCA("servers"), kube.NewCA("clients"), kube.NewCA("others")
	})
}

// serverTLS makes the server side, with client certificates optional.
func serverTLS(names ...string) *tls.Config {
	authorities()
	cert, key := ca.Issue(names[0], names...)
	pair, err := tls.X509KeyPair(cert, key)
	if err != nil {
		panic(err)
	}
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(cca.PEM)
	return &tls.Config{Certificates: []tls.Certificate{pair}, ClientAuth: tls.VerifyClientCertIfGiven, ClientCAs: pool}
}

// simple writes a kubeconfig for one cluster at 127.0.0.1.
func simple(c *mon.Check, dir string, k *kube.Cluster, secure bool, ns string) string {
	cl := obj{"server": "http://" + k.Addr()}
	if secure {
		cl = obj{"server": "https://" + k.Addr(), "certificate-authority-data": b64(ca.PEM)}
	}
	return writeJSON(c, filepath.Join(dir, "kubeconfig"), obj{"apiVersion": "v1", "kind": "Config", "current-context": "x",
		"clusters": []any{obj{"name": "k", "cluster": cl}},
		"users":    []any{obj{"name": "u", "user": obj{"token": "t"}}},
		"contexts": []any{obj{"name": "x", "context": obj{"cluster": "k", "user": "u", "namespace": ns}}}})
}

// bodyOf makes what a collector serves.
func bodyOf(r *rand.Rand, max int) []byte {
	b := make([]byte, r.IntN(max+1))
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	if r.IntN(2) == 0 {
		b = []byte(fmt.Sprintf(`{"data":[%q]}`, b64(b)))
	}
	return b
}
