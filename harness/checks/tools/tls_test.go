package tools

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/Azure/go-amqp/vf/tool"
)

// TestT05: whom the tool talks to over TLS.
func TestT05(t *testing.T) {
	c := mon.Start("T05", "one case is one run of a command of the tool with TLS configured by flags or a connection file, against a server whose certificate is right or wrong in one of many ways and, in most runs, changes while the tool runs and reconnects or opens connections for more sources; judged by the AMQP bytes that reach the server within each TLS connection and the client certificate presented there; distinct by command, configuration and sequence of server certificates")
	c.Assume("TLS is configured with amqps addresses; a certificate authority is only configured along with a client certificate on the command line; files of a client certificate that is configured exist or the run is a case of bad files")
	p := newPKI(c)
	var wg sync.WaitGroup
	slots := make(chan bool, 12)
	run := func(name string, f func(name string)) {
		if c.Skip(name) {
			return
		}
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			c.Doing("%s", name)
			f(name)
		}()
	}
	run("fixed-ports", func(name string) { // commands that use a port, one by one
		for i := 0; i < c.N(4, 20); i++ {
			runTLS(c, fmt.Sprint(name, "-", i), p, []string{"serve", "fixture"}[i%2], -1)
		}
	})
	n := len(badCerts)*2 + c.N(70, 600)
	for i := 0; i < n; i++ {
		bad := -1
		if i < len(badCerts)*2 {
			bad = i % len(badCerts)
		}
		run(fmt.Sprint("run-", i), func(name string) { runTLS(c, name, p, "log", bad) })
	}
	for i := 0; i < c.N(40, 200); i++ {
		run(fmt.Sprint("files-", i), func(name string) { runBadFiles(c, name, p, i) })
	}
	wg.Wait()
	os.RemoveAll(p.dir)
	c.Finish(map[string]int64{"connections refused by the tool": 80, "connections talked on": 20, "client certificates presented": 15, "wrong certificates": int64(len(badCerts)), "verification off": 3, "changes to a wrong certificate": 5, "changes to a right certificate": 3, "bad files": 15})
}

type pki struct {
	dir         string
	n           int64
	mu          sync.Mutex
	ca          *signer // configured
	other       *signer // another, of the same name
	inter       *signer // signed by ca
	leaf        *signer // not an authority, signed by ca
	client      *signer // client certificates
	clientInter *signer // an intermediate of those
}

type signer struct {
	cert *x509.Certificate
	der  []byte
	key  *ecdsa.PrivateKey
	file string
}

func newPKI(c *mon.Check) *pki {
	dir, err := os.MkdirTemp("", "t05-")
	if err != nil {
		c.Inconclusive("%v", err)
	}
	p := &pki{dir: dir}
	auth := func(name string, by *signer, ca bool) *signer {
		return p.sign(by, &x509.Certificate{Subject: pkix.Name{CommonName: name}, IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, DNSNames: []string{name}}, name)
	}
	p.ca = auth("the authority", nil, true)
	p.other = auth("the authority", nil, true)
	p.inter = auth("intermediate", p.ca, true)
	// the system's authorities do not count when others are configured
	os.Setenv("SSL_CERT_FILE", p.other.file+".crt")
	os.Setenv("SSL_CERT_DIR", p.dir+"/none")
	p.leaf = auth("localhost", p.ca, false)
	p.client = auth("client authority", nil, true)
	p.clientInter = auth("client intermediate", p.client, true)
	return p
}

// sign makes a certificate and its key, and writes both.
func (p *pki) sign(by *signer, tpl *x509.Certificate, name string) *signer {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	p.mu.Lock()
	p.n++
	n := p.n
	p.mu.Unlock()
	tpl.SerialNumber = big.NewInt(1000 + n)
	if tpl.NotBefore.IsZero() {
		tpl.NotBefore, tpl.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(24*time.Hour)
	}
	parent, pk := tpl, key
	if by != nil {
		parent, pk = by.cert, by.key
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, parent, key.Public(), pk)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	s := &signer{cert, der, key, filepath.Join(p.dir, fmt.Sprint(n))}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		panic(err)
	}
	write(s.file+".crt", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	write(s.file+".key", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))
	return s
}

func write(file string, b []byte) {
	if err := os.WriteFile(file, b, 0o600); err != nil {
		panic(err)
	}
}

func (s *signer) chain(more ...*signer) tls.Certificate {
	c := tls.Certificate{Certificate: [][]byte{s.der}, PrivateKey: s.key}
	for _, m := range more {
		c.Certificate = append(c.Certificate, m.der)
	}
	return c
}

var loopback = []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback}

// goodCerts are right for localhost and 127.0.0.1.
var goodCerts = []struct {
	name string
	make func(p *pki) tls.Certificate
}{
	{"right", func(p *pki) tls.Certificate { return p.server(p.ca, nil).chain() }},
	{"right, with the authority", func(p *pki) tls.Certificate { return p.server(p.ca, nil).chain(p.ca) }},
	{"right, by an intermediate", func(p *pki) tls.Certificate { return p.server(p.inter, nil).chain(p.inter) }},
	{"right, with more names", func(p *pki) tls.Certificate {
		return p.server(p.ca, func(t *x509.Certificate) { t.DNSNames = append([]string{"other.example"}, t.DNSNames...) }).chain()
	}},
}

var badCerts = []struct {
	name string
	make func(p *pki, host string) *tls.Certificate
}{
	{"other authority", func(p *pki, _ string) *tls.Certificate { x := p.server(p.other, nil).chain(p.other); return &x }},
	{"self-signed", func(p *pki, _ string) *tls.Certificate { x := p.server(nil, nil).chain(); return &x }},
	{"self-signed authority", func(p *pki, _ string) *tls.Certificate {
		x := p.server(nil, func(t *x509.Certificate) {
			t.IsCA, t.KeyUsage = true, x509.KeyUsageCertSign|x509.KeyUsageDigitalSignature
		}).chain()
		return &x
	}},
	{"expired", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) {
			t.NotBefore, t.NotAfter = time.Now().Add(-2*time.Hour), time.Now().Add(-time.Hour)
		}).chain()
		return &x
	}},
	{"not yet valid", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) {
			t.NotBefore, t.NotAfter = time.Now().Add(time.Hour), time.Now().Add(2*time.Hour)
		}).chain()
		return &x
	}},
	{"wrong name", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) {
			t.DNSNames, t.IPAddresses = []string{"other.example"}, []net.IP{net.IPv4(10, 1, 2, 3)}
		}).chain()
		return &x
	}},
	{"similar name", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) {
			t.DNSNames, t.IPAddresses = []string{"localhost.example", "*.localhost", "127.0.0.1"}, []net.IP{net.IPv4(127, 0, 0, 2)}
		}).chain()
		return &x
	}},
	{"another name of the same machine", func(p *pki, host string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) {
			if host == "localhost" {
				t.DNSNames = []string{"localhost.localdomain"}
			} else {
				t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 3), net.IPv6loopback}
			}
		}).chain()
		return &x
	}},
	{"name in the subject only", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) { t.DNSNames, t.IPAddresses = nil, nil }).chain()
		return &x
	}},
	{"by one that is no authority", func(p *pki, _ string) *tls.Certificate { x := p.server(p.leaf, nil).chain(p.leaf); return &x }},
	{"intermediate missing", func(p *pki, _ string) *tls.Certificate { x := p.server(p.inter, nil).chain(); return &x }},
	{"for clients only", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.ca, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }).chain()
		return &x
	}},
	{"by the authority of the clients", func(p *pki, _ string) *tls.Certificate { x := p.server(p.client, nil).chain(p.client); return &x }},
	{"right leaf, chain of another", func(p *pki, _ string) *tls.Certificate {
		x := p.server(p.other, nil).chain(p.ca)
		return &x
	}},
	{"not TLS", func(p *pki, _ string) *tls.Certificate { return nil }},
}

func (p *pki) server(by *signer, edit func(*x509.Certificate)) *signer {
	t := &x509.Certificate{Subject: pkix.Name{CommonName: "localhost"}, DNSNames: []string{"localhost"}, IPAddresses: loopback, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if edit != nil {
		edit(t)
	}
	return p.sign(by, t, "server")
}

func (p *pki) clientCert(name string) *signer {
	return p.sign(p.client, &x509.Certificate{Subject: pkix.Name{CommonName: name}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}, name)
}

// tlsServer is a router whose certificate can be changed.
type tlsServer struct {
	mu    sync.Mutex
	conf  *tls.Config
	kind  string
	kinds map[int]string // by connection
}

func (s *tlsServer) set(r *rand.Rand, kind string, cert *tls.Certificate, ask tls.ClientAuthType, clients *x509.CertPool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.kind, s.conf = kind, nil
	if cert != nil {
		s.conf = &tls.Config{Certificates: []tls.Certificate{*cert}, ClientAuth: ask, ClientCAs: clients}
		switch r.IntN(4) {
		case 0:
			s.conf.MaxVersion = tls.VersionTLS12
		case 1:
			s.conf.MinVersion = tls.VersionTLS13
		}
	}
}

func (s *tlsServer) forConn(n int) *tls.Config {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.kinds[n] = s.kind
	return s.conf
}

func (s *tlsServer) kindOf(n int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.kinds[n]
}

func runTLS(c *mon.Check, name string, p *pki, command string, firstBad int) {
	r := c.Rand(name)
	srv := &tlsServer{kinds: map[int]string{}}
	clients := x509.NewCertPool()
	clients.AddCert(p.client.cert)

	// the configuration
	verify := firstBad >= 0 || r.IntN(5) > 0
	cn := fmt.Sprintf("client %d", r.IntN(1e9))
	client := p.clientCert(cn)
	if r.IntN(3) == 0 { // with an intermediate
		client = p.sign(p.clientInter, &x509.Certificate{Subject: pkix.Name{CommonName: cn}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}, cn)
		b, _ := os.ReadFile(client.file + ".crt")
		i, _ := os.ReadFile(p.clientInter.file + ".crt")
		write(client.file+".crt", append(b, i...))
	}
	host := pick(r, "localhost", "127.0.0.1")
	caFile := p.ca.file + ".crt"
	if r.IntN(4) == 0 { // with more authorities
		caFile = filepath.Join(p.dir, name+"-cas.crt")
		a, _ := os.ReadFile(p.ca.file + ".crt")
		b, _ := os.ReadFile(p.client.file + ".crt")
		all := append(append(append([]byte("# authorities\n"), b...), '\n'), a...)
		if firstBad < 0 || badCerts[firstBad].name != "by the authority of the clients" {
			write(caFile, all)
		} else {
			caFile = p.ca.file + ".crt"
		}
	}
	multi := caFile != p.ca.file+".crt"
	usesClient := true

	nt := tool.NewNet(router.Config{TLSFor: srv.forConn}, nil)
	defer nt.Close()
	addr := fmt.Sprintf("amqps://%s:%d", host, nt.Port())
	var args []string
	file := func(cfg map[string]any) {
		b, _ := json.Marshal(cfg)
		f := filepath.Join(p.dir, name+"-connect.json")
		write(f, b)
		args = append(args, "-messaging-config", f)
	}
	tlsPart := map[string]any{"ca": caFile, "cert": client.file + ".crt", "key": client.file + ".key", "verify": verify}
	how := pick(r, "flags", "flags", "file", "file", "file without client certificate", "file and flags")
	switch how {
	case "file without client certificate":
		usesClient = false
		delete(tlsPart, "cert")
		delete(tlsPart, "key")
		fallthrough
	case "file":
		file(map[string]any{"scheme": "amqps", "host": host, "port": fmt.Sprint(nt.Port()), "tls": tlsPart})
		if r.IntN(3) == 0 {
			args = append(args, "-server", pick(r, "amqp://127.0.0.1:1", "amqps://127.0.0.1:1"))
		}
		if r.IntN(3) == 0 {
			args = append(args, fmt.Sprintf("-tls-verify=%v", verify))
		}
	case "file and flags": // the address of the file, the certificates of the flags
		part := map[string]any{}
		if r.IntN(2) == 0 {
			part = map[string]any{"ca": p.other.file + ".crt", "verify": verify}
		}
		file(map[string]any{"scheme": "amqps", "host": host, "port": fmt.Sprint(nt.Port()), "tls": part})
		fallthrough
	case "flags":
		if how == "flags" {
			args = append(args, "-server", addr)
		}
		args = append(args, "-cert", client.file+".crt", "-key", client.file+".key", "-ca", caFile)
		if !verify {
			args = append(args, "-tls-verify=false")
		} else if r.IntN(2) == 0 {
			args = append(args, pick(r, "-tls-verify", "-tls-verify=true"))
		}
	}
	if !verify {
		c.Count("verification off", 1)
	}
	ask := pick(r, tls.RequestClientCert, tls.RequireAnyClientCert, tls.RequireAndVerifyClientCert)
	if !usesClient {
		ask = pick(r, tls.NoClientCert, tls.RequestClientCert)
	}

	// change sets a certificate and says whether the tool may talk to it
	var seq []string
	change := func(bad int) (ok bool, kind string) {
		if bad < 0 {
			g := pick(r, goodCerts...)
			cert := g.make(p)
			srv.set(r, g.name, &cert, ask, clients)
			ok, kind = true, g.name
		} else {
			for multi && badCerts[bad].name == "by the authority of the clients" {
				bad = r.IntN(len(badCerts))
			}
			b := badCerts[bad]
			cert := b.make(p, host)
			srv.set(r, b.name, cert, ask, clients)
			ok, kind = !verify && cert != nil, b.name
			c.Seen("wrong certificates kinds", b.name)
			c.Count("wrong certificates", 1)
		}
		seq = append(seq, kind)
		return ok, kind
	}
	judged := 0
	may := map[string]bool{}
	judge := func() {
		nt.With(func(v router.View) {
			log := v.Log()
			for ; judged < len(log); judged++ {
				e := log[judged]
				kind := srv.kindOf(e.Conn)
				switch e.Kind {
				case router.KHeader:
					if !may[kind] {
						c.Violate(name, "%s %v (verification %v): the tool speaks AMQP to a server with certificate %q (sequence %q)", command, args, verify, kind, seq)
					}
					c.Count("connections talked on", 1)
				case "tls":
					switch {
					case strings.HasPrefix(e.Note, "failed"):
						if !may[kind] {
							c.Count("connections refused by the tool", 1)
						}
					case usesClient && e.Note == "client "+cn:
						c.Count("client certificates presented", 1)
					case !may[kind]:
						// the server's side of a TLS 1.3 handshake may be done
					case usesClient:
						c.Violate(name, "%s %v: the tool presents %q, configured is the certificate of %q", command, args, e.Note, cn)
					case e.Note != "no client certificate":
						c.Violate(name, "%s %v: the tool presents %q, none is configured", command, args, e.Note)
					}
				case "gone":
					if kind == "not TLS" {
						c.Count("connections refused by the tool", 1)
					}
				}
			}
		})
	}
	attempts := func() int {
		n := 0
		nt.With(func(v router.View) {
			for _, e := range v.Log() {
				if e.Kind == "gone" || e.Kind == router.KHeader {
					n++
				}
			}
		})
		return n
	}

	first := firstBad
	if first < 0 && r.IntN(3) == 0 {
		first = r.IntN(len(badCerts))
	}
	ok, kind := change(first)
	may[kind] = ok
	port := 0
	if command == "serve" {
		port = tool.ServePort
	} else if command == "fixture" {
		port = tool.FixturePort
	}
	proc := launch(c, name, port, append(args, command)...)
	deadline := time.Now().Add(45 * time.Second) // it gives up after 60 s in vain
	talks := func(when string) {
		if !nt.Await(patience, func(v router.View) bool {
			for _, cn := range v.Conns() {
				if cn.Opened() {
					return true
				}
			}
			return false
		}) {
			judge()
			crashed(c, name, proc)
			c.Violate(name, "%s %v (verification %v): %s, the tool does not connect to a server with certificate %q (sequence %q)\n%s", command, args, verify, when, seq[len(seq)-1], seq, proc.Tail())
		}
	}
	refuses := func(n int) {
		from := attempts()
		within(patience, func() bool { return attempts() >= from+n || time.Now().After(deadline) })
		time.Sleep(50 * time.Millisecond)
		if attempts() == from && time.Now().Before(deadline) {
			crashed(c, name, proc)
			var log []string
			nt.With(func(v router.View) {
				for _, e := range v.Log() {
					log = append(log, e.String())
				}
			})
			c.Inconclusive("%s: no connections attempted %q: %s\n%s", name, seq, proc.Tail(), strings.Join(log, "\n"))
		}
		judge()
	}
	sources := 0
	for k := 0; ; k++ {
		if ok {
			talks(fmt.Sprint("at step ", k))
		} else {
			refuses(2)
		}
		judge()
		if k == 3 || ok && command == "fixture" /* does not reconnect while it has nothing to send */ || !ok && (firstBad >= 0 || r.IntN(2) == 0) || r.IntN(3) == 0 {
			break
		}
		// the server changes
		next := -1
		if ok && r.IntN(4) > 0 {
			next = r.IntN(len(badCerts))
		}
		was := ok
		var kind string
		ok, kind = change(next)
		may[kind] = ok
		if next >= 0 {
			c.Count("changes to a wrong certificate", 1)
		} else {
			c.Count("changes to a right certificate", 1)
		}
		if was && command == "log" && r.IntN(2) == 0 {
			// the connection there is stays, a source makes the tool open another one
			var conns int
			nt.With(func(v router.View) { conns = len(v.Conns()) })
			from := attempts()
			sources++
			nt.Add(&tool.Source{ID: fmt.Sprint("s", sources), Version: 1, Type: "ROUTER"})
			if ok {
				if !nt.Await(patience, func(v router.View) bool {
					n := 0
					for _, cn := range v.Conns() {
						if cn.Opened() {
							n++
						}
					}
					return n > conns
				}) {
					judge()
					crashed(c, name, proc)
					c.Violate(name, "%s %v (verification %v): no connection for source s%d to a server with certificate %q (sequence %q)\n%s", command, args, verify, sources, kind, seq, proc.Tail())
				}
			} else {
				within(patience, func() bool { return attempts() > from+1 })
			}
			judge()
			if r.IntN(2) == 0 || !ok {
				break
			}
		}
		if was {
			nt.Fault(pick(r, router.Drop, router.Reset, router.Close), nil, "")
			time.Sleep(100 * time.Millisecond)
			deadline = time.Now().Add(45 * time.Second)
		}
	}
	time.Sleep(ms(r, 200))
	judge()
	if s := proc.Crash(); s != "" {
		c.Violate(name, "%q crashed:\n%s", proc.Args(), s)
	}
	if !proc.Stop(patience) {
		c.Inconclusive("%s: %q does not end when interrupted:\n%s", name, proc.Args(), proc.Tail())
	}
	judge()
	if c.WantSample() {
		c.Sample(map[string]any{"case": name, "command": command, "configured by": how, "host": host, "verification": verify, "server certificates": seq, "client certificates asked for": fmt.Sprint(ask)})
	}
	c.Case(fmt.Sprint(command, how, host, verify, seq, ask))
}

// runBadFiles has the tool configured with files that cannot be used.
func runBadFiles(c *mon.Check, name string, p *pki, i int) {
	r := c.Rand(name)
	client, wrong := p.clientCert("a client"), p.clientCert("another client")
	missing := filepath.Join(p.dir, name+"-missing")
	garbage := filepath.Join(p.dir, name+"-garbage")
	write(garbage, []byte(pick(r, "", "garbage", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "{}")))
	ca, cert, key := p.ca.file+".crt", client.file+".crt", client.file+".key"
	which := i % 9
	byFile := i/9%2 == 0
	exits := true
	what := ""
	switch which {
	case 0:
		ca, what = missing, "authority missing"
	case 1:
		ca, what, exits = garbage, "authority unusable", false
	case 2:
		cert, what = missing, "certificate missing"
	case 3:
		key, what = missing, "key missing"
	case 4:
		cert, what = garbage, "certificate unusable"
	case 5:
		key, what = garbage, "key unusable"
	case 6:
		key, what = wrong.file+".key", "key of another certificate"
	case 7:
		ca, what, exits = client.file+".crt", "authority is no authority", false
	case 8: // verification is on all the same
		ca, what, exits = "", "no authority", false
	}
	srv := &tlsServer{kinds: map[int]string{}}
	by := pick(r, p.ca, p.other)
	if which == 8 { // the other one is known to the system
		by = p.ca
	}
	g := p.server(by, nil).chain()
	srv.set(r, what, &g, tls.RequestClientCert, nil)
	nt := tool.NewNet(router.Config{TLSFor: srv.forConn}, nil)
	defer nt.Close()
	args := []string{"-server", fmt.Sprintf("amqps://localhost:%d", nt.Port()), "-ca", ca, "-cert", cert, "-key", key}
	if byFile {
		f := filepath.Join(p.dir, name+"-connect.json")
		b, _ := json.Marshal(map[string]any{"scheme": "amqps", "host": "localhost", "port": fmt.Sprint(nt.Port()), "tls": map[string]any{"ca": ca, "cert": cert, "key": key, "verify": true}})
		switch r.IntN(6) {
		case 0:
			b, what, exits = b[:r.IntN(len(b))], "connection file cut off", true
		case 1:
			f, what, exits = missing, "connection file missing", true
		}
		if f != missing {
			write(f, b)
		}
		args = []string{"-server", fmt.Sprintf("amqp://localhost:%d", nt.Port()), "-messaging-config", f}
	}
	proc := launch(c, name, 0, append(args, "log")...)
	ended := proc.Wait(pick(r, 500*time.Millisecond, 1500*time.Millisecond))
	if !ended && exits {
		ended = proc.Wait(patience)
	}
	if n := nt.Count(router.KHeader); n > 0 {
		c.Violate(name, "%s: the tool speaks AMQP although its TLS configuration cannot be used (%v)", what, args)
	}
	if s := proc.Crash(); s != "" {
		c.Violate(name, "%s: %q crashed:\n%s", what, proc.Args(), s)
	}
	if exits && (!ended || proc.Code() == 0) {
		if ended {
			c.Violate(name, "%s: the tool exits with status 0 although its TLS configuration cannot be used (%v)", what, args)
		}
		c.Violate(name, "%s: the tool goes on although its TLS configuration cannot be used (%v)\n%s", what, args, proc.Tail())
	}
	if !ended {
		proc.Stop(patience)
	}
	c.Count("bad files", 1)
	c.Case(fmt.Sprint(what, byFile))
}
