//go:build go1.22

package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/uber/prototool/internal/verifmc/core"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

// rawCodec passes messages as bytes.
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(data []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte(nil), data...)
	return nil
}
func (rawCodec) String() string { return "raw" }

// script is what the server does with the next call.
type script struct {
	Actions   string // h headers, r receive, E receive until the end, s send, t trailers, x hang, k cut the connection
	Responses [][]byte
	Headers   metadata.MD
	Trailers  metadata.MD
	Status    *status.Status

	// in lockstep the messages are given when the server asks for them, and it waits until they are printed
	feed  func(i int) // gives the ith message, or the end
	await func(n int) bool

	mu       sync.Mutex
	called   int
	method   string
	md       metadata.MD
	received [][]byte
	eof      bool
	problem  string
	done     chan struct{}
}

type server struct {
	mu     sync.Mutex
	script *script
	conns  map[net.Conn]bool
	open   int // connections with calls that did not end
	s      *grpc.Server
}

// idle waits until all connections and their calls ended.
func (s *server) idle() bool {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		s.mu.Lock()
		n := s.open
		s.mu.Unlock()
		if n == 0 {
			return true
		}
	}
	return false
}

// the server is a stats.Handler.
func (s *server) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (s *server) HandleRPC(context.Context, stats.RPCStats)                         {}
func (s *server) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (s *server) HandleConn(_ context.Context, c stats.ConnStats) {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch c.(type) {
	case *stats.ConnBegin:
		s.open++
	case *stats.ConnEnd:
		s.open--
	}
}

func (s *server) set(sc *script) {
	s.mu.Lock()
	s.script = sc
	s.mu.Unlock()
}

func (s *server) handle(_ interface{}, stream grpc.ServerStream) error {
	s.mu.Lock()
	sc := s.script
	s.mu.Unlock()
	sc.mu.Lock()
	sc.called++
	first := sc.called == 1
	sc.method, _ = grpc.MethodFromServerStream(stream)
	sc.md, _ = metadata.FromIncomingContext(stream.Context())
	sc.mu.Unlock()
	if first {
		defer close(sc.done)
	}
	asked, sent := 0, 0
	receive := func() error {
		if sc.feed != nil {
			sc.feed(asked)
		}
		asked++
		var b []byte
		err := stream.RecvMsg(&b)
		sc.mu.Lock()
		defer sc.mu.Unlock()
		if err == nil {
			sc.received = append(sc.received, b)
		} else if err == io.EOF {
			sc.eof = true
		}
		return err
	}
	for _, a := range sc.Actions {
		switch a {
		case 'h':
			_ = stream.SendHeader(sc.Headers)
		case 't':
			stream.SetTrailer(sc.Trailers)
		case 'r':
			if err := receive(); err != nil && err != io.EOF {
				return err
			}
		case 'E':
			for receive() == nil {
			}
		case 's':
			if err := stream.SendMsg(&sc.Responses[sent]); err != nil {
				return err
			}
			sent++
			if sc.await != nil && !sc.await(sent) {
				sc.mu.Lock()
				if sc.problem == "" {
					sc.problem = fmt.Sprintf("response %d is not printed before the next step of the server", sent)
				}
				sc.mu.Unlock()
			}
		case 'x':
			<-stream.Context().Done()
			return status.Error(codes.DeadlineExceeded, "the server saw the deadline first")
		case 'k':
			s.mu.Lock()
			for c := range s.conns {
				_ = c.Close()
			}
			s.mu.Unlock()
			<-stream.Context().Done()
			return stream.Context().Err()
		}
	}
	return sc.Status.Err()
}

type trackingListener struct {
	net.Listener
	s *server
}

func (l trackingListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.s.mu.Lock()
		l.s.conns[c] = true
		l.s.mu.Unlock()
	}
	return c, err
}

func startServer(l net.Listener, tc *tls.Config) *server {
	s := &server{conns: map[net.Conn]bool{}}
	opts := []grpc.ServerOption{grpc.CustomCodec(rawCodec{}), grpc.UnknownServiceHandler(s.handle), grpc.StatsHandler(s)}
	if tc != nil {
		opts = append(opts, grpc.Creds(credentials.NewTLS(tc)))
	}
	s.s = grpc.NewServer(opts...)
	go func() { _ = s.s.Serve(trackingListener{l, s}) }()
	return s
}

// certs makes certificates: a CA, a server and a client certificate signed by it, and another CA.
type certs struct {
	dir  string
	pool *x509.CertPool
	srv  tls.Certificate
}

func makeCerts(dir string) *certs {
	core.Internal(os.MkdirAll(dir, 0755))
	c := &certs{dir: dir, pool: x509.NewCertPool()}
	ca, caKey := c.make("ca", nil, nil, true)
	c.make("other-ca", nil, nil, true)
	c.make("server", ca, caKey, false)
	c.make("client", ca, caKey, false)
	c.make("self", nil, nil, false)
	c.pool.AddCert(ca)
	var err error
	c.srv, err = tls.LoadX509KeyPair(filepath.Join(dir, "server.crt"), filepath.Join(dir, "server.key"))
	core.Internal(err)
	core.Internal(os.WriteFile(filepath.Join(dir, "garbage.crt"), []byte("no certificate"), 0644))
	return c
}

func (c *certs) make(name string, parent *x509.Certificate, parentKey *ecdsa.PrivateKey, isCA bool) (*x509.Certificate, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	core.Internal(err)
	serial, _ := rand.Int(rand.Reader, big.NewInt(1<<60))
	tpl := &x509.Certificate{
		SerialNumber: serial, Subject: pkix.Name{CommonName: name + ".example.com"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		IsCA:        isCA, BasicConstraintsValid: true,
	}
	if !isCA {
		tpl.DNSNames = []string{name + ".example.com"}
		if name == "server" {
			tpl.IPAddresses = []net.IP{net.ParseIP("127.0.0.1")}
		}
	}
	if parent == nil {
		parent, parentKey = tpl, key
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, parent, &key.PublicKey, parentKey)
	core.Internal(err)
	cert, err := x509.ParseCertificate(der)
	core.Internal(err)
	kd, err := x509.MarshalECPrivateKey(key)
	core.Internal(err)
	core.Internal(os.WriteFile(filepath.Join(c.dir, name+".crt"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	core.Internal(os.WriteFile(filepath.Join(c.dir, name+".key"), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}), 0600))
	return cert, key
}

// userMetadata is the metadata that the user gave.
func userMetadata(md metadata.MD) string {
	var out []string
	for k, v := range md {
		switch k {
		case ":authority", "content-type", "user-agent":
			continue
		}
		out = append(out, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
