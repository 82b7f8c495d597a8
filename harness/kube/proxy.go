package kube

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httputil"
	"net/url"
	"sync"
	"time"
)

// Proxy is an HTTP proxy that takes names for clusters, so that clusters can
// have any host name.
type Proxy struct {
	srv   *httptest.Server
	mu    sync.Mutex
	to    map[string]string
	asked map[string]int
	lost  []string
}

// NewProxy starts a proxy: hosts ("name:port") to addresses.
func NewProxy(to map[string]string) *Proxy {
	p := &Proxy{to: to, asked: map[string]int{}}
	p.srv = httptest.NewUnstartedServer(http.HandlerFunc(p.serve))
	p.srv.Config.ErrorLog = quiet
	p.srv.Start()
	return p
}

// URL of the proxy.
func (p *Proxy) URL() string { return p.srv.URL }

func (p *Proxy) Close() {
	p.srv.CloseClientConnections()
	p.srv.Close()
}

// Lost are hosts asked for that do not exist.
func (p *Proxy) Lost() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.lost...)
}

func (p *Proxy) lookup(host, port string) (string, bool) {
	if _, _, err := net.SplitHostPort(host); err != nil {
		host = net.JoinHostPort(host, port)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.asked[host]++
	to, ok := p.to[host]
	if !ok {
		p.lost = append(p.lost, host)
	}
	return to, ok
}

func (p *Proxy) serve(w http.ResponseWriter, r *http.Request) {
	if r.Method != http.MethodConnect {
		to, ok := p.lookup(r.URL.Host, "80")
		if !ok {
			http.Error(w, "no such host", http.StatusBadGateway)
			return
		}
		rp := &httputil.ReverseProxy{
			Rewrite: func(pr *httputil.ProxyRequest) {
				pr.SetURL(&url.URL{Scheme: "http", Host: to})
				pr.Out.Host = r.URL.Host
			},
			ErrorLog:      quiet,
			FlushInterval: -1,
			ErrorHandler: func(w http.ResponseWriter, r *http.Request, err error) {
				panic(http.ErrAbortHandler)
			},
		}
		rp.ServeHTTP(w, r)
		return
	}
	to, ok := p.lookup(r.Host, "443")
	if !ok {
		http.Error(w, "no such host", http.StatusBadGateway)
		return
	}
	up, err := net.Dial("tcp", to)
	if err != nil {
		http.Error(w, err.Error(), http.StatusBadGateway)
		return
	}
	defer up.Close()
	conn, rw, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer conn.Close()
	io.WriteString(conn, "HTTP/1.1 200 Connection established\r\n\r\n")
	done := make(chan bool, 2)
	go func() { io.Copy(up, rw.Reader); done <- true }()
	go func() { io.Copy(conn, up); done <- true }()
	<-done
}

// Keys has the keys of a certificate authority.
type Keys struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	// PEM is the certificate
	PEM []byte
}

// NewCA makes a certificate authority.
func NewCA(name string) *Keys {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	return &Keys{cert, key, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

// Pool has only this authority.
func (k *Keys) Pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(k.cert)
	return p
}

// Issue makes a certificate for names.
func (k *Keys) Issue(cn string, names ...string) (cert, key []byte) {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	serial, _ := rand.Int(rand.Reader, big.NewInt(1<<62))
	t := &x509.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, n)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, k.cert, &priv.PublicKey, k.key)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalECPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
}
