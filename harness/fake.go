package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/hauke96/sigolo/v2"
)

// fakeReq is what the server side saw of one request.
type fakeReq struct {
	Method, URL, Body, UserAgent, ContentType string
}

// fakeResp is what the server side answers.
type fakeResp struct {
	Status  int
	Headers map[string]string
	Body    []byte
	CutAt   int  // >0: the connection breaks after this many body bytes (with the full length announced)
	ConnErr bool // no response at all
}

func okResp(body string) fakeResp { return fakeResp{Status: 200, Body: []byte(body)} }

type fakeHandler func(r fakeReq) fakeResp

// ---- in-process transport -------------------------------------------------------------------------------------------

type fakeTransport struct {
	mu      sync.Mutex
	handler fakeHandler
	log     []fakeReq
}

type cutReader struct {
	r   io.Reader
	err error
}

func (c *cutReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		return n, c.err
	}
	return n, err
}

func (f *fakeTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	body := ""
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		body = string(b)
	}
	// like the real transport: a body shorter than announced cannot be sent
	if r.ContentLength > 0 && int64(len(body)) != r.ContentLength {
		return nil, fmt.Errorf("http: ContentLength=%d with Body length %d", r.ContentLength, len(body))
	}
	fr := fakeReq{r.Method, r.URL.String(), body, r.Header.Get("User-Agent"), r.Header.Get("Content-Type")}
	f.mu.Lock()
	f.log = append(f.log, fr)
	h := f.handler
	f.mu.Unlock()
	a := h(fr)
	if a.ConnErr {
		return nil, errors.New("fake: connection refused")
	}
	resp := &http.Response{
		StatusCode: a.Status, Status: fmt.Sprintf("%d %s", a.Status, http.StatusText(a.Status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, ContentLength: int64(len(a.Body)), Request: r,
	}
	for k, v := range a.Headers {
		resp.Header.Set(k, v)
	}
	if a.CutAt > 0 && a.CutAt < len(a.Body) {
		resp.Body = io.NopCloser(&cutReader{bytes.NewReader(a.Body[:a.CutAt]), io.ErrUnexpectedEOF})
	} else {
		resp.Body = io.NopCloser(bytes.NewReader(a.Body))
	}
	return resp, nil
}

func (f *fakeTransport) take() []fakeReq {
	f.mu.Lock()
	defer f.mu.Unlock()
	l := f.log
	f.log = nil
	return l
}

// installTransport routes everything the code under test requests in this process to the handler.
func installTransport(h fakeHandler) *fakeTransport {
	f := &fakeTransport{handler: h}
	http.DefaultTransport = f
	return f
}

// ---- TLS-intercepting proxy for the real command line tool ----------------------------------------------------------

type fakeWeb struct {
	mu      sync.Mutex
	handler fakeHandler
	log     []fakeReq
	ln      net.Listener
	CAFile  string
	ca      *x509.Certificate
	caKey   *ecdsa.PrivateKey
	certs   map[string]*tls.Certificate
	leafKey *ecdsa.PrivateKey
}

var sharedWeb *fakeWeb

// getWeb returns the fake web of this executor process, creating it on first use.
func getWeb(root string) *fakeWeb {
	if sharedWeb != nil {
		return sharedWeb
	}
	w := &fakeWeb{certs: map[string]*tls.Certificate{}}
	var err error
	w.caKey, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	w.leafKey, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "fake ca"}, NotBefore: time.Unix(0, 0), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &w.caKey.PublicKey, w.caKey)
	must(err)
	w.ca, err = x509.ParseCertificate(der)
	must(err)
	w.CAFile = filepath.Join(root, "ca.pem")
	must(os.WriteFile(w.CAFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	w.ln, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := w.ln.Accept()
			if err != nil {
				return
			}
			go w.serve(c)
		}
	}()
	sharedWeb = w
	return w
}

func (w *fakeWeb) set(h fakeHandler) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.handler = h
	w.log = nil
}

func (w *fakeWeb) take() []fakeReq {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	return l
}

func (w *fakeWeb) cert(host string) (*tls.Certificate, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if c, ok := w.certs[host]; ok {
		return c, nil
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(int64(len(w.certs) + 2)), Subject: pkix.Name{CommonName: host}, NotBefore: time.Unix(0, 0), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), DNSNames: []string{host}}
	der, err := x509.CreateCertificate(rand.Reader, tpl, w.ca, &w.leafKey.PublicKey, w.caKey)
	if err != nil {
		return nil, err
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: w.leafKey}
	w.certs[host] = c
	return c, nil
}

func (w *fakeWeb) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	r, err := http.ReadRequest(br)
	if err != nil || r.Method != "CONNECT" {
		return
	}
	host, _, err := net.SplitHostPort(r.Host)
	if err != nil {
		host = r.Host
	}
	if _, err := io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n"); err != nil {
		return
	}
	cert, err := w.cert(host)
	if err != nil {
		return
	}
	tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*cert}})
	defer tc.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	if err := tc.HandshakeContext(ctx); err != nil {
		return
	}
	tbr := bufio.NewReader(tc)
	for {
		req, err := http.ReadRequest(tbr)
		if err != nil {
			return
		}
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		fr := fakeReq{req.Method, "https://" + req.Host + req.URL.RequestURI(), string(b), req.Header.Get("User-Agent"), req.Header.Get("Content-Type")}
		w.mu.Lock()
		w.log = append(w.log, fr)
		h := w.handler
		w.mu.Unlock()
		a := fakeResp{Status: 500}
		if h != nil {
			a = h(fr)
		}
		if a.ConnErr {
			return
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "HTTP/1.1 %d %s\r\nContent-Length: %d\r\n", a.Status, http.StatusText(a.Status), len(a.Body))
		for k, v := range a.Headers {
			fmt.Fprintf(&sb, "%s: %s\r\n", k, v)
		}
		sb.WriteString("\r\n")
		if _, err := io.WriteString(tc, sb.String()); err != nil {
			return
		}
		body := a.Body
		cut := a.CutAt > 0 && a.CutAt < len(a.Body)
		if cut {
			body = body[:a.CutAt]
		}
		if _, err := tc.Write(body); err != nil || cut {
			return
		}
	}
}

func init() {
	sigolo.SetDefaultLogLevel(sigolo.LOG_FATAL)
}
