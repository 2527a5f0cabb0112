package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"math/big"
	"net/http"
	"strings"
	"sync"
	"time"
)

// Protection tells how a server is to be protected
type Protection struct {
	Key    string `json:"key"`
	Cert   string `json:"cert"`
	CA     string `json:"ca"`
	Verify bool   `json:"verify"`
}

// Client tells how a request is made: what certificate the client has, and what certificate it expects of the server
type Client struct {
	TLS     bool   `json:"tls"`
	Cert    string `json:"cert"`
	Expects string `json:"expects"`
}

func (r *runner) protection(p *Protection) (args []string) {
	if p == nil {
		return
	}
	flag := func(n, v string) {
		if v != "" {
			args = append(args, "--"+n, r.in(v))
		}
	}
	flag("ssl-key", p.Key)
	flag("ssl-cert", p.Cert)
	flag("ca", p.CA)
	if p.Verify {
		args = append(args, "--clientCertVerify")
	}
	return
}

// identity is a key with a certificate, and those of who signed it when that isn't an authority
type identity struct {
	key   *ecdsa.PrivateKey
	cert  *x509.Certificate
	chain [][]byte
}

var (
	identities     map[string]*identity
	identitiesOnce sync.Once
)

func issue(name string, by *identity, ca bool, usage x509.ExtKeyUsage, until time.Duration, via bool) *identity {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name + ".test"},
		NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(until),
		BasicConstraintsValid: true, IsCA: ca, KeyUsage: x509.KeyUsageDigitalSignature}
	if ca {
		t.KeyUsage |= x509.KeyUsageCertSign
	} else {
		t.ExtKeyUsage = []x509.ExtKeyUsage{usage}
	}
	parent, signer := t, key
	if by != nil {
		parent, signer = by.cert, by.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, signer)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	i := &identity{key: key, cert: c, chain: [][]byte{der}}
	if via {
		i.chain = append(i.chain, by.cert.Raw)
	}
	return i
}

// identityOf returns one of the fixed identities: the servers one and two, the authorities a and b, and the clients
func identityOf(name string) *identity {
	identitiesOnce.Do(func() {
		day := 24 * time.Hour
		m := map[string]*identity{}
		for _, n := range []string{"one", "two"} {
			m[n] = issue(n, nil, false, x509.ExtKeyUsageServerAuth, day, false)
		}
		for _, n := range []string{"a", "b"} {
			m[n] = issue(n, nil, true, 0, day, false)
			m[n+"-client"] = issue(n+"-client", m[n], false, x509.ExtKeyUsageClientAuth, day, false)
			m[n+"-expired"] = issue(n+"-expired", m[n], false, x509.ExtKeyUsageClientAuth, -day, false)
			m[n+"-server"] = issue(n+"-server", m[n], false, x509.ExtKeyUsageServerAuth, day, false)
			m[n+"-sub"] = issue(n+"-sub", m[n], true, 0, day, false)
			m[n+"-via"] = issue(n+"-via", m[n+"-sub"], false, x509.ExtKeyUsageClientAuth, day, true)
		}
		m["self"] = issue("self", nil, false, x509.ExtKeyUsageClientAuth, day, false)
		identities = m
	})
	i := identities[name]
	if i == nil {
		panic(errors.New("driver: no identity " + name))
	}
	return i
}

// pemText is the text of a file with the keys and certificates of the given names: "key:NAME", "cert:NAME", or else a comment
func pemText(items []string) string {
	b := bytes.Buffer{}
	for _, n := range items {
		switch {
		case strings.HasPrefix(n, "key:"):
			der, err := x509.MarshalPKCS8PrivateKey(identityOf(n[4:]).key)
			must(err)
			must(pem.Encode(&b, &pem.Block{Type: "PRIVATE KEY", Bytes: der}))
		case strings.HasPrefix(n, "cert:"):
			must(pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: identityOf(n[5:]).cert.Raw}))
		default:
			b.WriteString(n + "\n")
		}
	}
	return b.String()
}

// dial returns a client with a connection of its own that otherwise is like the given one
func (c *Client) dial(like *http.Client) *http.Client {
	tr := &http.Transport{DisableCompression: true, DisableKeepAlives: true}
	if c.TLS {
		// whether the server is who it should be is decided by its certificate alone
		cfg := &tls.Config{InsecureSkipVerify: true, VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error { // nolint:gosec
			if len(raw) == 0 || !bytes.Equal(raw[0], identityOf(c.Expects).cert.Raw) {
				return errors.New("not the expected server")
			}
			return nil
		}}
		if c.Cert != "" {
			i := identityOf(c.Cert)
			// the certificate is presented whatever the server says that it accepts
			cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
				return &tls.Certificate{Certificate: i.chain, PrivateKey: i.key}, nil
			}
		}
		tr.TLSClientConfig = cfg
	}
	return &http.Client{Transport: tr, Timeout: like.Timeout, CheckRedirect: like.CheckRedirect}
}
