import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk
mk("b65", "C66", "a token without expiry", "a token that carries no expiry is usable for ever", "sdk/token",
   [("sdk/token/helpers.go", "	if t.Metadata.ExpiresAt < now {", "	if t.Metadata.ExpiresAt != 0 && t.Metadata.ExpiresAt < now {")],
   '''
package token

import (
	"testing"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func TestDemo(t *testing.T) {
	if IsUsable(&tokenv1.Token{Metadata: &tokenv1.TokenMeta{Issuer: "https://a.example"}}) {
		t.Fatal("usable")
	}
}
''')
mk("b66", "C67", "another package that stores a value under the textual key", "the client of the context can be set by any package, or by accident", "server/clientauthentication",
   [("server/clientauthentication/context.go", "ctx.Value(contextKeyClientAuth)", "ctx.Value(contextKeyClientAuth.String())"),
    ("server/clientauthentication/context.go", "context.WithValue(ctx, contextKeyClientAuth, client)", "context.WithValue(ctx, contextKeyClientAuth.String(), client)")],
   '''
package clientauthentication_test

import (
	"context"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"
)

func TestDemo(t *testing.T) {
	ctx := context.WithValue(context.Background(), "zntr.io/solid/server/clientauthentication/client", &clientv1.Client{ClientId: "mallory"})
	if _, ok := clientauthentication.FromContext(ctx); ok {
		t.Fatal("a foreign value is taken for the authenticated client")
	}
}
''')
mk("b67", "C68", "a confirmation claim with a member this version does not know", "a confirmation with an additional member (x5t#S256) cannot be read", "api/oidc/token/v1",
   [("api/oidc/token/v1/token.pb.json.go", """func (msg *TokenConfirmation) UnmarshalJSON(b []byte) error {
	return protojson.UnmarshalOptions{
		DiscardUnknown: true,
	}.Unmarshal(b, msg)""", """func (msg *TokenConfirmation) UnmarshalJSON(b []byte) error {
	return protojson.UnmarshalOptions{}.Unmarshal(b, msg)""")],
   '''
package tokenv1

import (
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	var c TokenConfirmation
	if err := json.Unmarshal([]byte(`{"jkt":"abc","x5t#S256":"def"}`), &c); err != nil || c.Jkt != "abc" {
		t.Fatal(err)
	}
}
''')
mk("b68", "C68", "a response decoded twice into one message", "the message decoded is a copy when the receiver is in use", "api/oidc/core/v1",
   [("api/oidc/core/v1/error.pb.json.go", """	return protojson.UnmarshalOptions{
		DiscardUnknown: true,
	}.Unmarshal(b, msg)""", """	dst := msg
	if dst.Err != "" {
		dst = &Error{}
	}
	return protojson.UnmarshalOptions{
		DiscardUnknown: true,
	}.Unmarshal(b, dst)""")],
   '''
package corev1

import (
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	e := Error{Err: "invalid_grant"}
	if err := json.Unmarshal([]byte(`{"err":"server_error"}`), &e); err != nil || e.Err != "server_error" {
		t.Fatal(err, e.Err)
	}
}
''')
mk("b69", "C50", "a registration that names the identifier of an existing client", "a registration can replace an existing client", "server/storage/inmemory",
   [("server/storage/inmemory/client.go", "	c.ClientId = uniuri.NewLen(16)\n", "	if c.ClientId == \"\" {\n		c.ClientId = uniuri.NewLen(16)\n	}\n")],
   '''
package inmemory

import (
	"context"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
)

func TestDemo(t *testing.T) {
	s := Clients()
	id, err := s.Register(context.Background(), &clientv1.Client{ClientId: "public-client", ClientName: "mallory"})
	if err != nil || id == "public-client" {
		t.Fatal(id, err)
	}
	c, err := s.Get(context.Background(), "public-client")
	if err != nil || c.ClientName == "mallory" {
		t.Fatal("replaced")
	}
}
''')
mk("b70", "C57", "a client with a P-384 key", "client assertions are signed with an algorithm that does not fit the key", "client",
   [("client/http.go", "jose.SigningKey{Algorithm: jose.ES384", "jose.SigningKey{Algorithm: jose.ES256")],
   '''
package client

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"testing"

	"github.com/go-jose/go-jose/v4"
)

func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	raw, _ := json.Marshal(&jose.JSONWebKey{Key: k, KeyID: "1", Algorithm: "ES384"})
	c := &httpClient{issuer: "https://as.example", opts: &Options{ClientID: "c1", JWK: raw}}
	a, err := c.Assertion()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := jose.ParseSigned(a, []jose.SignatureAlgorithm{jose.ES384}); err != nil {
		t.Fatal(err)
	}
}
''')
mk("b71", "C26", "the client lookup after a valid attestation fails", "a storage failure is reported as an unknown client and the other way round", "server/clientauthentication",
   [("server/clientauthentication/client_attestation.go", """		if err != storage.ErrNotFound {
			res.Error = rfcerrors.ServerError().Build()""", """		if err == storage.ErrNotFound {
			res.Error = rfcerrors.ServerError().Build()""")],
   '''
package clientauthentication_test

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"errors"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	"github.com/go-jose/go-jose/v4/jwt"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/clientauthentication"
)

type store struct{ jwks []byte }

func (s store) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if id == "attester" {
		return &clientv1.Client{ClientId: id, Jwks: s.jwks}, nil
	}
	return nil, errors.New("connection lost")
}
func (s store) GetByName(ctx context.Context, n string) (*clientv1.Client, error) { return s.Get(ctx, n) }

func key(t *testing.T, id string) (*ecdsa.PrivateKey, jose.JSONWebKey) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	return k, jose.JSONWebKey{Key: k.Public(), KeyID: id, Algorithm: "ES256", Use: "sig"}
}

func sign(t *testing.T, k *ecdsa.PrivateKey, id string, c map[string]any) string {
	s, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: jose.JSONWebKey{Key: k, KeyID: id, Algorithm: "ES256"}}, nil)
	if err != nil {
		t.Fatal(err)
	}
	r, err := jwt.Signed(s).Claims(c).Serialize()
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func TestDemo(t *testing.T) {
	ak, aj := key(t, "a")
	ck, cj := key(t, "c")
	set, _ := json.Marshal(jose.JSONWebKeySet{Keys: []jose.JSONWebKey{aj}})
	exp := time.Now().Add(time.Minute).Unix()
	att := sign(t, ak, "a", map[string]any{"iss": "attester", "sub": "client", "exp": exp, "cnf": map[string]any{"jwk": cj}})
	pop := sign(t, ck, "c", map[string]any{"iss": "client", "aud": "https://as.example", "exp": exp, "jti": "1"})
	ty, as := oidc.AssertionTypeJWTClientAttestation, att+"~"+pop
	p := clientauthentication.ClientAttestation(store{set}, []jose.SignatureAlgorithm{jose.ES256})
	res, err := p.Authenticate(context.Background(), &clientv1.AuthenticateRequest{ClientAssertionType: &ty, ClientAssertion: &as})
	if err == nil || res.GetError().GetErr() != "server_error" {
		t.Fatal(res.GetError().GetErr(), err)
	}
}
''')
mk("b72", "C42", "a decrypter that expects the purpose of the encryption", "encrypted tokens are not bound to their purpose", "sdk/token",
   [("sdk/token/encrypted.go", "[]byte(`urn:solid:token:sign-and-encrypt`)", "nil")],
   '''
package token

import (
	"context"
	"testing"
)

type enc struct{ aad []byte }

func (e *enc) Encrypt(_ context.Context, _, _ string, aad []byte) (string, error) {
	e.aad = aad
	return "x", nil
}

type ser struct{}

func (ser) Serialize(context.Context, any) (string, error) { return "s", nil }
func (ser) ContentType() string                            { return "JWT" }

func TestDemo(t *testing.T) {
	e := &enc{}
	if _, err := Encryption(ser{}, e).Serialize(context.Background(), nil); err != nil {
		t.Fatal(err)
	}
	if string(e.aad) != "urn:solid:token:sign-and-encrypt" {
		t.Fatal(e.aad)
	}
}
''')
