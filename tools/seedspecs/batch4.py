import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk
from prelude import TOKENS
from prelude2 import AUTHZ, DEVICE, AUTH
A, AF = "server/services/authorization", "server/services/authorization/service.go"
V, VF = "server/services/device", "server/services/device/service.go"
P, S = "server/services/token", "server/services/token/"
C = "server/clientauthentication"

mk("b48", "C04", "a code redeemed with an audience parameter at the token endpoint", "the refresh token of a code loses the authorised audience", P,
   [(S + "grant_authorization_code.go", """				Subject:  ar.Subject,
				Audience: ar.Request.Audience,
				Scope:    ar.Request.Scope,
			}, at.Confirmation)""", """				Subject:  ar.Subject,
				Audience: audience,
				Scope:    ar.Request.Scope,
			}, at.Confirmation)"""),
    (S + "grant_authorization_code.go", """		if scopes.Contains(oidc.ScopeOfflineAccess) {
""", """		if scopes.Contains(oidc.ScopeOfflineAccess) {
			audience := ar.Request.Audience
			if req.Audience != nil {
				audience = *req.Audience
			}
""")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.code(c, "code")
	r, aud := codeRequest(c, "code"), "other"
	r.Audience = &aud
	res, err := w.service().Token(context.Background(), r)
	if err != nil {
		t.Fatal(err)
	}
	if res.RefreshToken == nil || res.RefreshToken.Metadata.Audience != "api" {
		t.Fatalf("refresh token audience: %v", res.RefreshToken.GetMetadata())
	}
}
''')
mk("b49", "C21", "a client whose registration lost the exchange grant since it was authenticated", "the exchange is decided on the presented client instead of the registered one", P,
   [(S + "service.go", "s.tokenExchange(ctx, client, req)", "s.tokenExchange(ctx, req.Client, req)")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.token("at", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1")
	r := &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: "c1", GrantTypes: []string{oidc.GrantTypeTokenExchange}}, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "at", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}}
	c.GrantTypes = []string{oidc.GrantTypeAuthorizationCode}
	if res, err := w.service().Token(context.Background(), r); err == nil {
		t.Fatalf("unregistered grant served: %v", res.AccessToken)
	}
}
''')
mk("b50", "C25", "a token exchange whose token cannot be stored", "the failed exchange hands out the token", P,
   [(S + "grant_token_exchange.go", """	// Assign access token
	res.Issuer = st.Metadata.Issuer
	res.AccessToken = at
	res.IssuedTokenType""", """	// Assign token type
	res.Issuer = st.Metadata.Issuer
	res.IssuedTokenType"""),
    (S + "grant_token_exchange.go", """	// Store the token spec
	if err""", """	// Assign access token
	res.AccessToken = at

	// Store the token spec
	if err""")],
   TOKENS + '''
type failing struct{ tokenStore }

func (failing) Create(context.Context, string, *tokenv1.Token) error { return errors.New("full") }

func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	c.GrantTypes = []string{oidc.GrantTypeTokenExchange}
	w.token("at", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1")
	r := &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "at", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}}
	res, err := token.New(gen{w, "at"}, gen{w, "rt"}, clientStore{w}, requestStore{}, codeStore{w}, deviceStore{w}, failing{tokenStore{w}}, resourceStore{w}).Token(context.Background(), r)
	if err == nil || res.Error == nil || res.AccessToken != nil {
		t.Fatalf("a failed exchange answers %v %v", res, err)
	}
}
''')
mk("b51", "C51", "a revocation concurrent with lookups of the same token", "revocation changes the shared token in place", "server/storage/inmemory",
   [("server/storage/inmemory/token.go", """func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
	// Retrieve token
	t, err := s.Get(ctx, issuer, id)
	if err != nil {
		return err
	}
""", """func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
	// Retrieve token
	x, ok := s.idIndex.Load(s.deriveID(issuer, id))
	if !ok {
		return storage.ErrNotFound
	}
	t := x.(*tokenv1.Token)
""")],
   '''
package inmemory

import (
	"context"
	"sync"
	"testing"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func TestDemo(t *testing.T) {
	s := Tokens()
	ctx := context.Background()
	if err := s.Create(ctx, "i", &tokenv1.Token{TokenId: "1", Value: "v"}); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for n := 0; n < 500; n++ {
				_, _ = s.GetByValue(ctx, "i", "v")
			}
		}()
		go func() {
			defer wg.Done()
			for n := 0; n < 500; n++ {
				_ = s.Revoke(ctx, "i", "1")
			}
		}()
	}
	wg.Wait()
}
''', args="-race")
mk("b52", "C54", "an error built without state after one that carried the state of another caller", "errors of several callers share one builder", "sdk/rfcerrors",
   [("sdk/rfcerrors/errors.go", """func UnsupportedGrantType() ErrorBuilder {
	return &defaultErrorBuilder{""", """func UnsupportedGrantType() ErrorBuilder {
	return unsupportedGrantType
}

var unsupportedGrantType = &defaultErrorBuilder{"""),
    ("sdk/rfcerrors/errors.go", """is not supported by the authorization server.",
	}
}""", """is not supported by the authorization server.",
}""")],
   '''
package rfcerrors

import "testing"

func TestDemo(t *testing.T) {
	_ = UnsupportedGrantType().State("s").Build()
	if e := UnsupportedGrantType().Build(); e.State != nil {
		t.Fatalf("state of another caller: %s", *e.State)
	}
}
''')
mk("b53", "C55", "a client without application type", "clients without application type get the web profile", "server/profile",
   [("server/profile/server.go", "	c, ok := s.clientProfiles[typeName]\n", """	c, ok := s.clientProfiles[typeName]
	if !ok && typeName == "" {
		c, ok = s.clientProfiles["web"]
	}
""")],
   '''
package profile

import "testing"

func TestDemo(t *testing.T) {
	if _, ok := Strict().ApplicationType(""); ok {
		t.Fatal("blank application type accepted")
	}
}
''')
mk("b54", "C56", "a list compared with an item surrounded by blanks", "membership ignores surrounding blanks", "sdk/types",
   [("sdk/types/string_array.go", "if strings.EqualFold(item, v) {\n			return true", "if strings.EqualFold(strings.TrimSpace(item), v) {\n			return true")],
   '''
package types

import "testing"

func TestDemo(t *testing.T) {
	if (StringArray{"openid"}).Contains("openid\\n") {
		t.Fatal("item is not a member")
	}
}
''')
mk("b55", "C57", "an inactive introspection response that carries nothing else", "an inactive token is reported active", "client",
   [("client/http.go", "	tokenStatus := tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED\n	if t.Active {\n		tokenStatus = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE\n	}",
     "	tokenStatus := tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE\n	if !t.Active && t.ExpiresAt > 0 {\n		tokenStatus = tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED\n	}")],
   '''
package client

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { _, _ = w.Write([]byte(`{"active":false}`)) }))
	defer s.Close()
	c := &httpClient{issuer: s.URL, opts: &Options{}, httpClient: s.Client(), serverMetadata: &discoveryv1.ServerMetadata{IntrospectionEndpoint: s.URL}}
	tk, err := c.Introspect(context.Background(), "a", "t")
	if err != nil {
		t.Fatal(err)
	}
	if tk.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		t.Fatal("inactive token reported active")
	}
}
''')
mk("b56", "C58", "a client that uses the registered assertion type", "the attestation assertion type is not the registered one", "oidc",
   [("oidc/const.go", '"urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation"', '"urn:ietf:params:oauth:client-assertion-type:client-attestation-jwt"')],
   '''
package oidc

import "testing"

func TestDemo(t *testing.T) {
	if AssertionTypeJWTClientAttestation != "urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation" {
		t.Fatal(AssertionTypeJWTClientAttestation)
	}
}
''')
mk("b57", "C65", "an exchange that requests exactly the scope of the subject token in another letter case or order", "an exchange may only narrow the scope strictly", P,
   [(S + "grant_token_exchange.go", "	// Create access token spec\n	now := timeFunc()\n", """	if req.Scope != nil && len(strings.Fields(scope)) > 0 && len(strings.Fields(scope)) == len(strings.Fields(st.Metadata.Scope)) && scope != st.Metadata.Scope {
		res.Error = rfcerrors.InvalidScope().Build()
		return fmt.Errorf("scope '%s' is not narrower", scope)
	}

	// Create access token spec
	now := timeFunc()
""")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	c.GrantTypes = []string{oidc.GrantTypeTokenExchange}
	w.token("at", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1").Metadata.Scope = "read write"
	scope := "write read"
	r := &flowv1.TokenRequest{Issuer: iss, Client: c, Scope: &scope, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "at", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}}
	if _, err := w.service().Token(context.Background(), r); err != nil {
		t.Fatal(err)
	}
}
''')
mk("b58", "C60", "an exchange for an unknown audience", "a failed resource lookup is used", P,
   [(S + "grant_token_exchange.go", """		if errors.Is(err, storage.ErrNotFound) {
			res.Error = rfcerrors.InvalidTarget().Build()
			return fmt.Errorf("audience '%s' not found", *req.Audience)
		}

		// Assign urn
		at.Metadata.Audience = aud.Urn
""", """		at.Metadata.Audience = aud.Urn
		if at.Metadata.Audience == "" {
			res.Error = rfcerrors.InvalidTarget().Build()
			return fmt.Errorf("audience '%s' not found", *req.Audience)
		}
""")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	c.GrantTypes = []string{oidc.GrantTypeTokenExchange}
	w.token("at", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1")
	aud := "urn:unknown"
	r := &flowv1.TokenRequest{Issuer: iss, Client: c, Audience: &aud, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "at", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}}
	if _, err := w.service().Token(context.Background(), r); err == nil {
		t.Fatal("unknown audience accepted")
	}
}
''')
mk("b59", "C61", "two concurrent signatures with one signer", "the signer keeps its last key in a field", "sdk/token/jwt",
   [("sdk/token/jwt/signer.go", "	embedJWK    bool\n}", "	embedJWK    bool\n	lastKey     *jose.JSONWebKey\n}"),
    ("sdk/token/jwt/signer.go", "	sig, err := jose.NewSigner(jose.SigningKey{Algorithm: ds.alg, Key: key}, options)", "	ds.lastKey = key\n	sig, err := jose.NewSigner(jose.SigningKey{Algorithm: ds.alg, Key: ds.lastKey}, options)")],
   '''
package jwt

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"sync"
	"testing"

	"github.com/go-jose/go-jose/v4"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	s := AccessTokenSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &jose.JSONWebKey{Key: k, KeyID: "k"}, nil })
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 20; n++ {
				if _, err := s.Serialize(context.Background(), map[string]any{"a": 1}); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''', args="-race")
mk("b60", "C62", "a request that carries a forwarded host header", "the host of a proof URL is taken from a request header", "sdk/dpop",
   [("sdk/dpop/url.go", '	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)', '	host := r.Host\n	if forwardHost := r.Header.Get("X-Forwarded-Host"); forwardHost != "" {\n		host = forwardHost\n	}\n	return fmt.Sprintf("%s://%s%s", scheme, host, r.URL.Path)')],
   '''
package dpop

import (
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	r := httptest.NewRequest("POST", "http://as.example/token?x=1", nil)
	r.Header.Set("X-Forwarded-Host", "evil.example")
	if u := CleanURL(r); u != "http://as.example/token" {
		t.Fatal(u)
	}
}
''')
mk("b61", "C63", "a JWKS refresh whose response can not be decoded", "a failed key refresh is answered with the previous keys", "client",
   [("client/http.go", '		return nil, 0, fmt.Errorf("unable to decode jwks response: %w", err)', '		if c.jwks != nil {\n			return c.jwks, c.jwksExpiration, nil\n		}\n		return nil, 0, fmt.Errorf("unable to decode jwks response: %w", err)')],
   '''
package client

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/go-jose/go-jose/v4"

	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { _, _ = w.Write([]byte(`{"keys":`)) }))
	defer s.Close()
	c := &httpClient{issuer: s.URL, opts: &Options{}, httpClient: s.Client(), serverMetadata: &discoveryv1.ServerMetadata{JwksUri: s.URL}, jwks: &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{KeyID: "old"}}}, jwksExpiration: 1}
	if k, _, err := c.PublicKeys(context.Background()); err == nil {
		t.Fatalf("expired keys returned: %v", k)
	}
}
''')
mk("b62", "C64", "an authorization request whose challenge ends with base64 padding", "the stored code challenge is not the requested one", A,
   [(AF, "	// Prepare redirection uri\n", "	req.CodeChallenge = strings.TrimRight(req.CodeChallenge, \"=\")\n\n	// Prepare redirection uri\n")],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	r := request()
	ch := strings.Repeat("A", len(r.CodeChallenge)-1) + "="
	r.CodeChallenge = ch
	if _, err := s.Authorize(context.Background(), authorize(r)); err != nil {
		t.Fatal(err)
	}
	if w.sessions[0].Request.CodeChallenge != ch {
		t.Fatal("the stored challenge is not the requested one")
	}
}
''')
mk("b63", "C41", "a request object that another implementation reads", "the claims of a request object do not have the registered parameter names", "sdk/jwsreq",
   [("sdk/jwsreq/encoder.go", "		UseProtoNames:   true,\n", "")],
   '''
package jwsreq

import (
	"context"
	"testing"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
)

type recorder struct{ claims map[string]any }

func (*recorder) ContentType() string { return "" }
func (r *recorder) Serialize(_ context.Context, c any) (string, error) {
	r.claims = c.(map[string]any)
	return "x", nil
}

func TestDemo(t *testing.T) {
	r := &recorder{}
	if _, err := AuthorizationRequestEncoder(r).Encode(context.Background(), &flowv1.AuthorizationRequest{ClientId: "c1"}); err != nil {
		t.Fatal(err)
	}
	if r.claims["client_id"] != "c1" {
		t.Fatal(r.claims)
	}
}
''')
mk("b64", "C37", "a CWT introspection response", "introspection responses are typed as access tokens", "sdk/token/cwt",
   [("sdk/token/cwt/builders.go", "		tokenType:   token.TypeTokenInstrospection,", "		tokenType:   token.TypeAccessToken,")],
   '''
package cwt

import (
	"testing"

	"zntr.io/solid/sdk/token"
)

func TestDemo(t *testing.T) {
	if ty := TokenIntrospection(nil, nil).(*defaultSigner).tokenType; ty != token.TypeTokenInstrospection {
		t.Fatal(ty)
	}
}
''')
