package router

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/Azure/go-amqp/vf/mon"
	"github.com/Azure/go-amqp/vf/router"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
)

// TestN07 watches how containers connect and what passes through them.
func TestN07(t *testing.T) {
	c := mon.Start("N07", "one case is one run of 1-3 peers with 1-3 containers each, created singly or by a factory, with identities, frame sizes, SASL and TLS settings of their own (TLS settings often shared), their connections dropped 0-3 times and, with TLS, the peer's certificate changing from connection to connection; then messages of 0 bytes to 1 MB with headers, properties and several kinds of bodies are passed through each. Judged at every connection by what the peer sees, and at every message received; distinct by configurations, certificates and drops")
	c.Assume("the backoff policy is not shared between containers; TLS settings matter for amqps addresses only; an identity made up by the container may differ from connection to connection; frame sizes up to 512 are not configured (the AMQP library's minimum)")
	p := newCerts()
	parallel(c, c.N(400, 8000), 12, func(name string) { runN07(c, p, name) })
	c.Finish(map[string]int64{"connections judged": 400, "connections with TLS": 150, "connections refused by the container": 60, "client certificates seen": 30, "EXTERNAL": 60, "identities made up": 100, "messages passed": 2000, "large messages passed": 100, "reconnections": 100})
}

type certs struct {
	n                 atomic.Int64
	ca, other, client *authority
	roots             *x509.CertPool
	server            map[string]tls.Certificate
	mine, mine2       tls.Certificate
}

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

func newCerts() *certs {
	p := &certs{server: map[string]tls.Certificate{}}
	auth := func(name string) *authority {
		_, a := p.sign(nil, &x509.Certificate{Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign})
		return a
	}
	p.ca, p.other, p.client = auth("authority"), auth("authority"), auth("clients")
	p.roots = x509.NewCertPool()
	p.roots.AddCert(p.ca.cert)
	ips := []net.IP{net.IPv4(127, 0, 0, 1)}
	names := []string{"localhost", "configured.example"}
	srv := func(name string, by *authority, t x509.Certificate) {
		t.Subject.CommonName = name
		p.server[name], _ = p.sign(by, &t)
	}
	srv("right", p.ca, x509.Certificate{DNSNames: names, IPAddresses: ips})
	srv("address only", p.ca, x509.Certificate{IPAddresses: ips})
	srv("localhost only", p.ca, x509.Certificate{DNSNames: names[:1]})
	srv("configured name only", p.ca, x509.Certificate{DNSNames: names[1:]})
	srv("other authority", p.other, x509.Certificate{DNSNames: names, IPAddresses: ips})
	srv("other name", p.ca, x509.Certificate{DNSNames: []string{"other.example"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 2)}})
	srv("expired", p.ca, x509.Certificate{DNSNames: names, IPAddresses: ips, NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: time.Now().Add(-time.Hour)})
	p.mine, _ = p.sign(p.client, &x509.Certificate{Subject: pkix.Name{CommonName: "one"}})
	p.mine2, _ = p.sign(p.client, &x509.Certificate{Subject: pkix.Name{CommonName: "two"}})
	return p
}

func (p *certs) sign(by *authority, t *x509.Certificate) (tls.Certificate, *authority) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t.SerialNumber = big.NewInt(p.n.Add(1))
	if t.NotBefore.IsZero() {
		t.NotBefore, t.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(24*time.Hour)
	}
	parent, pk := t, key
	if by != nil {
		parent, pk = by.cert, by.key
	}
	der, err := x509.CreateCertificate(crand.Reader, t, parent, key.Public(), pk)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, &authority{cert, key}
}

// tlsWant is a client's TLS configuration and what it means.
type tlsWant struct {
	cfg      *tls.Config
	insecure bool
	roots    bool
	name     string // configured, or the host
	cert     string // of the client
	refuses  bool   // a callback refuses every peer
	min13    bool
	desc     string
}

var errRefused = errors.New("refused by the configuration")

func (p *certs) clientConfig(r *rand.Rand) *tlsWant {
	w := &tlsWant{cfg: &tls.Config{}}
	if r.IntN(8) > 0 {
		w.cfg.RootCAs, w.roots = p.roots, true
	}
	switch r.IntN(6) {
	case 0, 1:
		w.cfg.ServerName, w.name = "configured.example", "configured.example"
	case 2:
		w.cfg.ServerName, w.name = "localhost", "localhost"
	}
	if r.IntN(5) == 0 {
		w.cfg.InsecureSkipVerify, w.insecure = true, true
	}
	switch r.IntN(4) {
	case 0:
		w.cfg.Certificates, w.cert = []tls.Certificate{p.mine}, "one"
	case 1:
		w.cert = "two"
		w.cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &p.mine2, nil }
	}
	switch r.IntN(12) {
	case 0:
		w.refuses = true
		w.cfg.VerifyConnection = func(tls.ConnectionState) error { return errRefused }
	case 1:
		w.refuses = true
		w.cfg.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errRefused }
	}
	if r.IntN(3) == 0 {
		w.cfg.MinVersion, w.min13 = tls.VersionTLS13, true
	}
	w.desc = fmt.Sprint(w.insecure, w.roots, w.name, w.cert, w.refuses, w.min13)
	return w
}

// accepts says whether a client with the configuration talks to a server.
func (w *tlsWant) accepts(host, cert string, max uint16) bool {
	if w.refuses || w.min13 && max == tls.VersionTLS12 {
		return false
	}
	if w.insecure {
		return true
	}
	if !w.roots {
		return false
	}
	name := w.name
	if name == "" {
		name = host
	}
	switch cert {
	case "right":
		return true
	case "address only":
		return name == "127.0.0.1"
	case "localhost only":
		return name == "localhost"
	case "configured name only":
		return name == "configured.example"
	}
	return false
}

var certNames = []string{"right", "address only", "localhost only", "configured name only", "other authority", "other name", "expired"}

// unit is a peer and the containers connected to it.
type unit struct {
	rt      *router.Router
	host    string
	tls     *tlsWant
	phases  []tlsPhase // by connection, the last for all further ones
	sasl    string     // mechanism expected, "" for none
	plain   string     // its response
	id      string
	max     uint32
	factory bool
	ctrs    []session.Container
	stop    context.CancelFunc
	drops   int
}

type tlsPhase struct {
	cert string
	max  uint16
	cfg  *tls.Config
}

func (u *unit) phase(conn int) tlsPhase { return u.phases[min(conn-1, len(u.phases)-1)] }

func (u *unit) accepts(conn int) bool {
	if u.tls == nil {
		return true
	}
	ph := u.phase(conn)
	return u.tls.accepts(u.host, ph.cert, ph.max)
}

func runN07(c *mon.Check, p *certs, name string) {
	r := c.Rand(name)
	var shared *tlsWant
	if r.IntN(2) == 0 {
		shared = p.clientConfig(r)
		shared.refuses, shared.cfg.VerifyConnection, shared.cfg.VerifyPeerCertificate = false, nil, nil
	}
	var units []*unit
	sig := ""
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		u := newUnit(r, p, name, shared)
		units = append(units, u)
		if u.tls != nil {
			sig += u.tls.desc + fmt.Sprint(u.phases[0].cert, len(u.phases))
		}
		sig += fmt.Sprint(u.host, u.sasl, u.max, u.factory, len(u.ctrs), u.drops, ";")
	}
	var keep [][3]any
	for _, u := range units {
		if u.tls != nil {
			keep = append(keep, [3]any{u.tls.cfg, u.tls.cfg.ServerName, u.tls.cfg.InsecureSkipVerify})
		}
	}
	var wg sync.WaitGroup
	for i, u := range units {
		wg.Add(1)
		ru := c.Rand(name, i)
		go func() { defer wg.Done(); u.run(c, ru, name) }()
	}
	wg.Wait()
	for _, u := range units {
		u.stop()
		u.rt.Close()
		u.judge(c, name)
	}
	for _, k := range keep {
		cfg := k[0].(*tls.Config)
		if cfg.ServerName != k[1] || cfg.InsecureSkipVerify != k[2] {
			c.Violate(name, "the user's tls.Config was modified: server name %q, skip verification %v, before %q, %v", cfg.ServerName, cfg.InsecureSkipVerify, k[1], k[2])
		}
	}
	c.Case(sig)
}

func newUnit(r *rand.Rand, p *certs, name string, shared *tlsWant) *unit {
	u := &unit{host: pick(r, "127.0.0.1", "localhost"), drops: r.IntN(4), factory: r.IntN(2) == 0}
	if r.IntN(2) == 0 {
		if u.tls = shared; u.tls == nil {
			u.tls = p.clientConfig(r)
		}
		for i, n := 0, 1+r.IntN(4); i < n; i++ {
			ph := tlsPhase{cert: pick(r, certNames...), max: tls.VersionTLS13}
			if r.IntN(3) > 0 {
				ph.cert = "right"
			}
			if r.IntN(4) == 0 {
				ph.max = tls.VersionTLS12
			}
			ph.cfg = &tls.Config{Certificates: []tls.Certificate{p.server[ph.cert]}, ClientAuth: tls.RequestClientCert, MaxVersion: ph.max}
			u.phases = append(u.phases, ph)
		}
	}
	cfg := router.Config{MaxFrameSize: pick(r, 0, 0, 512, 600, 1024, 1+512+uint32(r.IntN(4000)), 1<<20)}
	if u.tls != nil {
		cfg.TLSFor = func(conn int) *tls.Config { return u.phase(conn).cfg }
	}
	u.rt = router.New(cfg)
	scheme := "amqp"
	if u.tls != nil {
		scheme = pick(r, "amqps", "amqps", "amqp+ssl")
	}
	cc := session.ContainerConfig{}
	user := ""
	switch r.IntN(5) {
	case 0, 1:
		cc.SASLType, u.sasl = session.SASLTypeExternal, "EXTERNAL"
	case 2:
		user, u.sasl, u.plain = "someone:se%20cret@", "PLAIN", "\x00someone\x00se cret"
	}
	addr := fmt.Sprintf("%s://%s%s:%d", scheme, user, u.host, u.rt.Port())
	if r.IntN(3) > 0 {
		u.id = fmt.Sprintf("%s/%x", name, r.Uint32()) + strings.Repeat(pick(r, "i", "é", " ", "/"), r.IntN(3)*r.IntN(40))
	}
	cc.ContainerID = u.id
	cc.MaxFrameSize = pick(r, 0, 0, 513, 1024, 65536, 1<<20, 513+uint32(r.IntN(100000)))
	if u.max = cc.MaxFrameSize; u.max == 0 {
		u.max = 65536
	}
	if u.tls != nil {
		cc.TLSConfig = u.tls.cfg
	}
	n := 1 + r.IntN(3)
	if u.factory {
		// a policy is shared by the containers of a factory: use the default
		f := session.NewContainerFactory(addr, cc)
		for i := 0; i < n; i++ {
			u.ctrs = append(u.ctrs, f.Create())
		}
	} else {
		for i := 0; i < n; i++ {
			cc.BackOff = pick[backoff.BackOff](r, constant(time.Millisecond), constant(20*time.Millisecond))
			u.ctrs = append(u.ctrs, session.NewContainer(addr, cc))
		}
	}
	return u
}

// run uses the containers of a unit.
func (u *unit) run(c *mon.Check, r *rand.Rand, name string) {
	ctx, stop := context.WithCancel(bg)
	u.stop = stop
	for _, ctr := range u.ctrs {
		ctr.Start(ctx)
	}
	good := u.accepts(1 << 20)
	if !good {
		want := min(len(u.phases)+1, 3)
		if u.factory {
			want = 2
		}
		refused := func(d time.Duration) bool {
			return u.rt.Await(d, func(v router.View) bool {
				n := 0
				for _, e := range v.Log() {
					if e.Kind == "gone" && !u.accepts(e.Conn) {
						n++
					}
				}
				return n >= want*len(u.ctrs)
			})
		}
		var wg sync.WaitGroup
		defer wg.Wait()
		defer stop()
		for _, ctr := range u.ctrs {
			rcv := ctr.NewReceiver("any", session.ReceiverOptions{}) // a container without links does not look after its connection
			wg.Add(1)
			go func() { defer wg.Done(); rcv.Next(ctx) }()
		}
		for end := time.Now().Add(patience); !refused(10 * time.Millisecond); {
			if time.Now().After(end) {
				c.Violate(name, "after %v containers that cannot connect did not attempt to %d times each\n%s", patience, want, tail(u.rt.Log(0), 20))
			}
			// connections to a peer that was right at first
			u.rt.Fault(router.Drop, func(k *router.Conn) bool { return k.Opened() }, "")
		}
		return
	}
	var wg sync.WaitGroup
	for i, ctr := range u.ctrs {
		addr := fmt.Sprintf("%s.%d", pick(r, "a", "mc/sfe.x", "é/ ü", strings.Repeat("long", 60)), i)
		rc := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			u.pass(c, rand.New(rand.NewPCG(rc, 1)), name, ctr, addr)
		}()
	}
	wg.Wait()
}

// pass drops connections and passes messages through a container.
func (u *unit) pass(c *mon.Check, r *rand.Rand, name string, ctr session.Container, addr string) {
	ctx, cancel := context.WithCancel(bg)
	var wg sync.WaitGroup
	defer func() { cancel(); wg.Wait() }()
	snd := ctr.NewSender(addr, session.SenderOptions{})
	rcv := ctr.NewReceiver(addr, session.ReceiverOptions{Credit: 1 + r.IntN(10)})
	got := make(chan *amqp.Message, 1000)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for ctx.Err() == nil {
			m, err := rcv.Next(ctx)
			if err != nil {
				continue
			}
			rcv.Accept(ctx, m)
			select {
			case got <- m:
			default:
			}
		}
	}()
	stuck := func(what string) {
		if e := firstProtocolError(u.rt); e != "" {
			c.Violate(name, "%s: the peer had to give up the connection: %s", what, e)
		}
		c.Violate(name, "%s after %v\n%s\n%s", what, patience, tail(u.rt.Log(0), 30), stacks())
	}
	// probe until small messages pass
	round := 0
	probe := func() {
		round++
		mark := fmt.Sprintf("probe %d.", round)
		deadline := time.Now().Add(patience)
		for i := 0; ; i++ {
			if time.Now().After(deadline) {
				stuck("no message passes")
			}
			sctx, scancel := context.WithTimeout(ctx, 5*time.Second)
			err := snd.Send(sctx, message(fmt.Sprint(mark, i)))
			scancel()
			if err != nil {
				time.Sleep(time.Millisecond)
				continue
			}
			select {
			case m := <-got:
				// one of this round, it need not be the newest
				if b := string(m.GetData()); strings.HasPrefix(b, mark) {
					return
				}
			case <-time.After(50 * time.Millisecond):
			}
		}
	}
	probe()
	if ctr == u.ctrs[0] && len(u.ctrs) == 1 {
		for i := 0; i < u.drops; i++ {
			u.rt.Fault(pick(r, router.Drop, router.Reset, router.Close), func(k *router.Conn) bool { return k.Opened() }, "")
			c.Count("reconnections", 1)
			probe()
		}
	}
	// from here on nothing disturbs: everything passes, whole
	n := 3 + r.IntN(12)
	for i := 0; i < n; i++ {
		seed := r.Uint64()
		draw := func() *amqp.Message {
			return randMessage(rand.New(rand.NewPCG(seed, 2)), fmt.Sprint(addr, "#", i))
		}
		m, orig := draw(), draw()
		size := len(m.GetData())
		sctx, scancel := context.WithTimeout(ctx, patience)
		err := snd.Send(sctx, m)
		scancel()
		if len(u.ctrs) > 1 && err != nil {
			stuck(fmt.Sprintf("a message of %d bytes could not be sent: %v", size, err))
		} else if err != nil {
			stuck(fmt.Sprintf("a message of %d bytes could not be sent on an undisturbed connection: %v", size, err))
		}
		for {
			var g *amqp.Message
			select {
			case g = <-got:
			case <-time.After(patience):
				stuck(fmt.Sprintf("a message of %d bytes was not received", size))
			}
			if strings.HasPrefix(string(g.GetData()), "probe ") {
				continue // of an earlier probe
			}
			if d := differs(orig, g); d != "" {
				c.Violate(name, "a message of %d bytes (frames of at most %d bytes to the container) changed on its way: %s", size, u.max, d)
			}
			break
		}
		if d := differs(orig, m); d != "" {
			c.Violate(name, "sending modified the message: %s", d)
		}
		c.Count("messages passed", 1)
		if size > 70000 {
			c.Count("large messages passed", 1)
		}
	}
}

func firstProtocolError(rt *router.Router) string {
	for _, e := range rt.Log(0) {
		if e.Kind == "protocol-error" {
			return e.Note
		}
	}
	return ""
}

func randMessage(r *rand.Rand, label string) *amqp.Message {
	n := pick(r, 0, r.IntN(200), r.IntN(2000), r.IntN(70000), 65536-r.IntN(300))
	if r.IntN(10) == 0 {
		n = 70000 + r.IntN(1<<20)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	m := &amqp.Message{Data: [][]byte{b}}
	switch r.IntN(6) {
	case 0:
		m.Data = append(m.Data, []byte(label), b[:n/2])
	case 1:
		m.Data, m.Value = nil, label+strings.Repeat("v", r.IntN(3000))
	case 2:
		m.Data, m.Value = nil, []any{label, int64(r.IntN(1000)), true}
	}
	if r.IntN(2) == 0 {
		m.Header = &amqp.MessageHeader{Durable: r.IntN(2) == 0, Priority: uint8(r.IntN(10)), TTL: time.Duration(1+r.IntN(1000000)) * time.Millisecond, DeliveryCount: uint32(r.IntN(3))}
	}
	if r.IntN(3) > 0 {
		to, subject, reply := "to "+label, pick(r, "", "BEACON", "HEARTBEAT", "RECORD"), "reply/"+label
		m.Properties = &amqp.MessageProperties{To: &to, Subject: &subject, ReplyTo: &reply, MessageID: label, CorrelationID: uint64(r.IntN(100)), UserID: []byte("me")}
		if r.IntN(3) == 0 {
			ct, g := "text/é", uint32(7)
			m.Properties.ContentType, m.Properties.GroupSequence = &ct, &g
		}
	}
	if r.IntN(2) == 0 {
		m.ApplicationProperties = map[string]any{"v": int32(1), "id": label, "": false, "é": int64(r.Int64())}
	}
	if r.IntN(4) == 0 {
		m.Annotations = amqp.Annotations{"x-opt": label}
	}
	return m
}

// differs names the first part of a message that changed on its way.
func differs(a, b *amqp.Message) string {
	if len(a.Data) != len(b.Data) {
		return fmt.Sprintf("%d data sections sent, %d received", len(a.Data), len(b.Data))
	}
	for i := range a.Data {
		if string(a.Data[i]) != string(b.Data[i]) {
			return fmt.Sprintf("data section %d of %d bytes arrived as %d bytes", i, len(a.Data[i]), len(b.Data[i]))
		}
	}
	if !reflect.DeepEqual(a.Value, b.Value) {
		return fmt.Sprintf("value %v arrived as %v", a.Value, b.Value)
	}
	if !reflect.DeepEqual(a.Header, b.Header) {
		return fmt.Sprintf("header %+v arrived as %+v", a.Header, b.Header)
	}
	if !reflect.DeepEqual(a.Properties, b.Properties) {
		return fmt.Sprintf("properties %+v arrived as %+v", a.Properties, b.Properties)
	}
	if len(a.ApplicationProperties)+len(b.ApplicationProperties) > 0 && !reflect.DeepEqual(a.ApplicationProperties, b.ApplicationProperties) {
		return fmt.Sprintf("application properties %v arrived as %v", a.ApplicationProperties, b.ApplicationProperties)
	}
	if len(a.Annotations)+len(b.Annotations) > 0 && !reflect.DeepEqual(a.Annotations, b.Annotations) {
		return fmt.Sprintf("annotations %v arrived as %v", a.Annotations, b.Annotations)
	}
	return ""
}

// judge looks at every connection of a unit.
func (u *unit) judge(c *mon.Check, name string) {
	log := u.rt.Log(0)
	conns := map[int][]router.Event{}
	for _, e := range log {
		conns[e.Conn] = append(conns[e.Conn], e)
	}
	ids := map[string]bool{}
	opens := 0
	for conn, evs := range conns {
		accepts := u.accepts(conn)
		bad := func(format string, args ...any) {
			ph := ""
			if u.tls != nil {
				ph = fmt.Sprintf(" (peer's certificate: %s, at most TLS %x; configuration: insecure %v, roots %v, name %q, client certificate %q, refusing %v, at least 1.3: %v; host %s)", u.phase(conn).cert, u.phase(conn).max, u.tls.insecure, u.tls.roots, u.tls.name, u.tls.cert, u.tls.refuses, u.tls.min13, u.host)
			}
			c.Violate(name, "connection %d: %s%s\n%s", conn, fmt.Sprintf(format, args...), ph, tail(evs, 20))
		}
		var headers []router.Event
		sasl := ""
		for _, e := range evs {
			switch e.Kind {
			case "tls":
				c.Count("connections with TLS", 1)
				if !strings.HasPrefix(e.Note, "failed") {
					want := "no client certificate"
					if u.tls.cert != "" {
						want = "client " + u.tls.cert
						c.Count("client certificates seen", 1)
					}
					if e.Note != want {
						bad("presented %q, want %q", e.Note, want)
					}
				}
			case router.KHeader:
				if !accepts {
					bad("AMQP was spoken to a peer the TLS configuration does not accept")
				}
				headers = append(headers, e)
			case router.KSASL:
				sasl = e.Note
				if e.Note != u.sasl || u.sasl == "PLAIN" && string(e.Payload) != u.plain {
					bad("SASL mechanism %q with response %q, want %q with %q", e.Note, e.Payload, u.sasl, u.plain)
				}
				if u.sasl == "EXTERNAL" {
					c.Count("EXTERNAL", 1)
				}
			case router.KOpen:
				opens++
				if sasl != u.sasl {
					bad("opened with SASL mechanism %q, want %q", sasl, u.sasl)
				}
				if u.id != "" && e.Note != u.id {
					bad("container id %q, want %q", e.Note, u.id)
				}
				if u.id == "" {
					if e.Note == "" {
						bad("no container id")
					}
					if ids[e.Note] && len(u.ctrs) > 1 {
						bad("container id %q, made up, was that of another connection", e.Note)
					}
					ids[e.Note] = true
					c.Count("identities made up", 1)
				}
				if e.Max != u.max {
					bad("frames of up to %d bytes announced, %d configured", e.Max, u.max)
				}
				if (u.tls == nil || u.tls.name == "") && e.Addr != u.host {
					bad("host name %q announced, the address has %q", e.Addr, u.host)
				}
			case "protocol-error":
				bad("%s", e.Note)
			}
		}
		if len(headers) > 0 && (headers[0].ID == 3) != (u.sasl != "") {
			bad("protocol header %d with SASL %q configured", headers[0].ID, u.sasl)
		}
		if !accepts {
			c.Count("connections refused by the container", 1)
		}
		c.Count("connections judged", 1)
	}
	if u.accepts(1<<20) && opens < len(u.ctrs) {
		c.Violate(name, "%d containers, but only %d connections", len(u.ctrs), opens)
	}
}
