// Package rpc has a gRPC server: natively a real one on a socket in the scratch
// directory; in the engine the models of grpcurl call it.
//
// It answers every method with messages that have one string field f, number 1.
// The answer is that field of all the requests one after another, "s" before it
// for methods whose names begin with S or B, of which there are two. When the
// first request is "fail" there is the status 5 instead.
package rpc

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/uber/prototool/internal/zzvp/vfs"
	"github.com/uber/prototool/internal/zzvp/vp"
)

// Name is the name of the server with a certificate.
const Name = "server.test"

type server struct{ network, address, name string }

var servers []server
var calls []string

// Calls are the calls of the servers: the server, the method, the requests,
// the headers x- and the hour of the time that is left.
func Calls() []string { return calls }

// Serve starts the server of the name, with TLS or not, and gives its address:
// a socket with that name, or a port.
func Serve(name, network string, secure bool) string {
	if vp.Symbolic() {
		a := vfs.Path(name)
		if network == "tcp" {
			a = "127.0.0.1:" + strconv.Itoa(len(servers)+1024)
		}
		servers = append(servers, server{network, a, name})
		if secure {
			servers[len(servers)-1].network += " secure"
		}
		return a
	}
	a := vfs.Path(name)
	if network == "tcp" {
		a = "127.0.0.1:0"
	}
	l, err := net.Listen(network, a)
	if err != nil {
		panic(err)
	}
	opts := []grpc.ServerOption{grpc.CustomCodec(codec{}), grpc.UnknownServiceHandler(func(_ interface{}, s grpc.ServerStream) error {
		m, _ := grpc.MethodFromServerStream(s)
		return serve(name, m, s)
	})}
	if secure {
		opts = append(opts, grpc.Creds(credentials.NewServerTLSFromCert(certificate())))
	}
	g := grpc.NewServer(opts...)
	go g.Serve(l)
	vp.OnEnd(func() {
		g.Stop()
		calls = nil
	})
	return l.Addr().String()
}

type codec struct{}

func (codec) Marshal(v interface{}) ([]byte, error) {
	s := v.(string)
	return append([]byte{10, byte(len(s))}, s...), nil
}
func (codec) Unmarshal(b []byte, v interface{}) error {
	if len(b) > 1 {
		b = b[2:]
	}
	*v.(*string) = string(b)
	return nil
}
func (codec) String() string { return "text" }

func serve(name, method string, s grpc.ServerStream) error {
	var in []string
	for {
		m := ""
		if err := s.RecvMsg(&m); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		in = append(in, m)
	}
	md, _ := metadata.FromIncomingContext(s.Context())
	limit, _ := s.Context().Deadline()
	out, bad := answer(name, method, in, md, time.Until(limit))
	s.SendHeader(metadata.MD{"h": {"1"}})
	s.SetTrailer(metadata.MD{"t": {"1"}})
	if bad != "" {
		return status.Error(codes.NotFound, bad)
	}
	for _, m := range out {
		if err := s.SendMsg(m); err != nil {
			return err
		}
	}
	return nil
}

// answer records a call and gives what is answered.
func answer(name, method string, in []string, md metadata.MD, left time.Duration) (out []string, bad string) {
	if method[0] == '/' {
		method = method[1:]
	}
	s := name + " " + method + "(" + strings.Join(in, ",") + ")"
	var keys []string
	for k := range md {
		if strings.HasPrefix(k, "x-") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		s += " " + k + ":" + strings.Join(md[k], "|")
	}
	calls = append(calls, s+" "+strconv.Itoa(int(left/time.Minute+1)))
	all := strings.Join(in, "")
	if strings.HasPrefix(all, "fail") {
		return nil, "no"
	}
	if c := method[strings.LastIndex(method, "/")+1]; c == 'S' || c == 'B' {
		return []string{"s" + all, all}, ""
	}
	return []string{all}, ""
}

const certText = "certificate"

var cert *tls.Certificate

// Certificate is the text of a file with the certificate of secure servers.
func Certificate() string {
	if vp.Symbolic() {
		return certText
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: certificate().Certificate[0]}))
}

// Key is the text of a file with the key of the certificate.
func Key() string {
	if vp.Symbolic() {
		return certText + " key"
	}
	b, err := x509.MarshalECPrivateKey(certificate().PrivateKey.(*ecdsa.PrivateKey))
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b}))
}

func certificate() *tls.Certificate {
	if cert != nil {
		return cert
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: Name}, DNSNames: []string{Name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	b, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert = &tls.Certificate{Certificate: [][]byte{b}, PrivateKey: key}
	return cert
}
