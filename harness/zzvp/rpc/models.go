package rpc

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/fullstorydev/grpcurl"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/jhump/protoreflect/desc"
	"github.com/jhump/protoreflect/dynamic"
	"github.com/jhump/protoreflect/dynamic/grpcdynamic"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/uber/prototool/internal/zzvp/vp"
)

// limited is a context that ends some time after it was made.
type limited struct {
	context.Context
	d time.Duration
}

//vp:model context.WithTimeout
func withTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return &limited{ctx, d}, func() {}
}

// complete gives an error when a file that one of the files imports is missing.
func complete(set *descriptor.FileDescriptorSet) error {
	for _, f := range set.File {
		for _, d := range f.Dependency {
			found := false
			for _, g := range set.File {
				found = found || g.GetName() == d
			}
			if !found {
				return fmt.Errorf("no descriptor found for %q", d)
			}
		}
	}
	return nil
}

type source struct{ set *descriptor.FileDescriptorSet }

func (*source) ListServices() ([]string, error)                              { return nil, nil }
func (*source) FindSymbol(string) (desc.Descriptor, error)                   { return nil, errors.New("not modelled") }
func (*source) AllExtensionsForType(string) ([]*desc.FieldDescriptor, error) { return nil, nil }

//vp:model github.com/fullstorydev/grpcurl.DescriptorSourceFromFileDescriptorSet
func sourceOf(set *descriptor.FileDescriptorSet) (grpcurl.DescriptorSource, error) {
	if err := complete(set); err != nil {
		return nil, err
	}
	return &source{set}, nil
}

//vp:model github.com/jhump/protoreflect/desc.CreateFileDescriptorFromSet
func fileDescriptor(set *descriptor.FileDescriptorSet) (*desc.FileDescriptor, error) {
	if len(set.File) == 0 {
		return nil, errors.New("file descriptor set is empty")
	}
	return nil, complete(set)
}

//vp:model github.com/jhump/protoreflect/dynamic.NewMessageFactoryWithDefaults
func messageFactory() *dynamic.MessageFactory { return nil }

//vp:model github.com/jhump/protoreflect/dynamic.AnyResolver
func anyResolver(*dynamic.MessageFactory, ...*desc.FileDescriptor) jsonpb.AnyResolver { return nil }

type creds struct {
	credentials.TransportCredentials
	insecure, trusted bool
	name              string
}

func (c *creds) OverrideServerName(name string) error {
	c.name = name
	return nil
}

func readText(file, want string) error {
	b, err := os.ReadFile(file)
	if err == nil && string(b) != want {
		err = errors.New("not PEM")
	}
	return err
}

//vp:model github.com/fullstorydev/grpcurl.ClientTransportCredentials
func transportCredentials(insecure bool, cacert, cert, key string) (credentials.TransportCredentials, error) {
	if cert != "" {
		if err := readText(cert, certText); err != nil {
			return nil, err
		}
		if err := readText(key, certText+" key"); err != nil {
			return nil, err
		}
	}
	c := &creds{insecure: insecure}
	if !insecure && cacert != "" {
		if err := readText(cacert, certText); err != nil {
			return nil, err
		}
		c.trusted = true
	}
	return c, nil
}

type conn struct {
	c *grpc.ClientConn
	s server
}

var conns []conn

//vp:model github.com/fullstorydev/grpcurl.BlockingDial
func blockingDial(ctx context.Context, network, address string, tc credentials.TransportCredentials, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	if l, ok := ctx.(*limited); ok && l.d <= 0 {
		return nil, context.DeadlineExceeded
	}
	for _, s := range servers {
		if s.address != address || s.network != network && s.network != network+" secure" {
			continue
		}
		t, _ := tc.(*creds)
		if s.network == network {
			if t != nil {
				return nil, errors.New("first record does not look like a TLS handshake")
			}
		} else {
			if t == nil {
				return nil, context.DeadlineExceeded
			}
			if !t.insecure && (!t.trusted || t.name != Name) {
				return nil, errors.New("certificate is not valid")
			}
		}
		c := &grpc.ClientConn{}
		conns = append(conns, conn{c, s})
		return c, nil
	}
	return nil, errors.New("nothing there")
}

//vp:model (*google.golang.org/grpc.ClientConn).Close
func closeConn(*grpc.ClientConn) error { return nil }

// message is one of those with the field f.
type message struct{ f string }

func (m *message) Reset()         { m.f = "" }
func (m *message) String() string { return m.f }
func (*message) ProtoMessage()    {}

//vp:model github.com/fullstorydev/grpcurl.InvokeRPC
func invokeRPC(ctx context.Context, src grpcurl.DescriptorSource, ch grpcdynamic.Channel, name string, headers []string, h grpcurl.InvocationEventHandler, next grpcurl.RequestSupplier) error {
	i := strings.LastIndex(name, "/")
	if i < 0 {
		vp.Unsupported("a method without slash")
	}
	svc, mth := name[:i], name[i+1:]
	if svc == "" || mth == "" {
		return fmt.Errorf("given method name %q is not in expected format", name)
	}
	if svc[0] == '.' {
		svc = svc[1:]
	}
	var found *descriptor.MethodDescriptorProto
	for _, f := range src.(*source).set.File {
		for _, s := range f.Service {
			for _, m := range s.Method {
				if f.GetPackage()+"."+s.GetName() == svc && m.GetName() == mth {
					found = m
				}
			}
		}
	}
	if found == nil {
		return fmt.Errorf("target server does not expose %q", name)
	}
	h.OnResolveMethod(nil)
	md := grpcurl.MetadataFromHeaders(headers)
	h.OnSendHeaders(md)
	var in []string
	for {
		m := &message{}
		err := next(m)
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("error getting request data: %v", err)
		}
		in = append(in, m.f)
		if !found.GetClientStreaming() && len(in) > 1 {
			return errors.New("request data contained more than 1 message")
		}
	}
	c := ch.(*grpc.ClientConn)
	for _, x := range conns {
		if x.c != c {
			continue
		}
		l, ok := ctx.(*limited)
		if !ok {
			vp.Unsupported("a call without limit of time")
		}
		if l.d <= 0 {
			h.OnReceiveHeaders(nil)
			h.OnReceiveTrailers(status.New(codes.DeadlineExceeded, "context deadline exceeded"), nil)
			return nil
		}
		out, bad := answer(x.s.name, svc+"/"+mth, in, md, l.d-1)
		h.OnReceiveHeaders(metadata.MD{"content-type": {"application/grpc"}, "h": {"1"}})
		t := metadata.MD{"t": {"1"}}
		if bad != "" {
			h.OnReceiveTrailers(status.New(codes.NotFound, bad), t)
			return nil
		}
		for _, s := range out {
			h.OnReceiveResponse(&message{s})
		}
		h.OnReceiveTrailers(status.New(codes.OK, ""), t)
		return nil
	}
	return errors.New("not connected")
}

//vp:model (*google.golang.org/grpc/status.Status).Proto
func statusProto(s *status.Status) *spb.Status {
	if s == nil {
		return nil
	}
	return &spb.Status{Code: int32(s.Code()), Message: s.Message()}
}

//vp:model (*github.com/golang/protobuf/jsonpb.Marshaler).MarshalToString
func marshalToString(_ *jsonpb.Marshaler, m proto.Message) (string, error) {
	switch m := m.(type) {
	case *message:
		if m.f == "" {
			return "{}", nil
		}
		return `{"f":"` + m.f + `"}`, nil
	case *spb.Status:
		if m.Code == 0 && m.Message == "" {
			return "{}", nil
		}
		return fmt.Sprintf(`{"code":%d,"message":"%s"}`, m.Code, m.Message), nil
	}
	vp.Unsupported("JSON of another message")
	return "", nil
}

//vp:model github.com/golang/protobuf/jsonpb.Unmarshal
func unmarshal(r io.Reader, pm proto.Message) error {
	m, ok := pm.(*message)
	b, err := io.ReadAll(r)
	if !ok || err != nil {
		vp.Unsupported("JSON of another message")
	}
	s := string(b)
	switch {
	case s == "{}":
	case strings.HasPrefix(s, `{"f":"`) && strings.HasSuffix(s, `"}`):
		m.f = s[6 : len(s)-2]
	default:
		return errors.New("bad message")
	}
	return nil
}

type dec struct {
	d    *json.Decoder
	r    io.Reader
	rest []byte
	read bool
}

var decs []*dec

//vp:model encoding/json.NewDecoder
func newDecoder(r io.Reader) *json.Decoder {
	d := &json.Decoder{}
	decs = append(decs, &dec{d: d, r: r})
	return d
}

//vp:model (*encoding/json.Decoder).Decode
func decode(d *json.Decoder, v interface{}) error {
	raw, ok := v.(*json.RawMessage)
	if !ok {
		vp.Unsupported("JSON of another type")
	}
	for _, x := range decs {
		if x.d != d {
			continue
		}
		if !x.read {
			b, err := io.ReadAll(x.r)
			if err != nil {
				return err
			}
			x.rest, x.read = b, true
		}
		x.rest = bytes.TrimSpace(x.rest)
		if len(x.rest) == 0 {
			return io.EOF
		}
		depth := 0
		for i, c := range x.rest {
			switch c {
			case '{', '[':
				depth++
			case '}', ']':
				depth--
			}
			if depth < 0 {
				return errors.New("invalid character")
			}
			if depth == 0 {
				if c != '}' && c != ']' {
					return errors.New("invalid character")
				}
				*raw = append(json.RawMessage{}, x.rest[:i+1]...)
				x.rest = x.rest[i+1:]
				return nil
			}
		}
		return io.ErrUnexpectedEOF
	}
	return errors.New("unknown decoder")
}
