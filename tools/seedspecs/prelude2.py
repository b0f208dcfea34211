AUTHZ = r'''
package authorization_test

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage"
)

var (
	_ = errors.New
	_ = strings.Repeat
	_ = types.StringRef
	_ = oidc.ScopeOpenID
)

const iss = "https://issuer.example"

type world struct {
	clients  map[string]*clientv1.Client
	getErr   error
	requests map[string]*flowv1.AuthorizationRequest
	delErr   error
	sessions []*sessionv1.AuthorizationCodeSession
	n        int
	ttl      uint64
}

type clientStore struct{ w *world }

func (s clientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if s.w.getErr != nil {
		return nil, s.w.getErr
	}
	if c, ok := s.w.clients[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}
func (s clientStore) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	return s.Get(ctx, n)
}

type requestStore struct{ w *world }

func (s requestStore) Get(_ context.Context, i, u string) (*flowv1.AuthorizationRequest, error) {
	if r, ok := s.w.requests[i+" "+u]; ok {
		return r, nil
	}
	return nil, storage.ErrNotFound
}
func (s requestStore) Register(_ context.Context, i, u string, r *flowv1.AuthorizationRequest) (uint64, error) {
	s.w.requests[i+" "+u] = r
	return s.w.ttl, nil
}
func (s requestStore) Delete(_ context.Context, i, u string) error {
	if s.w.delErr != nil {
		return s.w.delErr
	}
	delete(s.w.requests, i+" "+u)
	return nil
}

type codeStore struct{ w *world }

func (s codeStore) Register(_ context.Context, i, c string, x *sessionv1.AuthorizationCodeSession) (uint64, error) {
	s.w.sessions = append(s.w.sessions, x)
	return s.w.ttl, nil
}
func (s codeStore) Delete(_ context.Context, i, c string) error { return nil }

type codes struct{ w *world }

func (g codes) Generate(context.Context, string) (string, error) {
	g.w.n++
	return fmt.Sprintf("code-%d", g.w.n), nil
}
func (g codes) Validate(context.Context, string, string) error { return nil }

func newWorld() (*world, services.Authorization) {
	w := &world{clients: map[string]*clientv1.Client{}, requests: map[string]*flowv1.AuthorizationRequest{}, ttl: 60}
	w.clients["c1"] = &clientv1.Client{ClientId: "c1", GrantTypes: []string{oidc.GrantTypeAuthorizationCode}, ResponseTypes: []string{oidc.ResponseTypeCode}, ResponseModes: []string{oidc.ResponseModeQuery, oidc.ResponseModeQueryJWT}, RedirectUris: []string{"https://client.example/cb"}}
	return w, authorization.New(clientStore{w}, requestStore{w}, codeStore{w}, codes{w}, codes{w})
}

func request() *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{ResponseType: "code", Scope: "openid profile offline_access", ClientId: "c1", State: strings.Repeat("s", 43), Nonce: strings.Repeat("n", 43), RedirectUri: "https://client.example/cb", Audience: "api", CodeChallenge: strings.Repeat("c", 43), CodeChallengeMethod: "S256", Prompt: types.StringRef("consent")}
}

func authorize(r *flowv1.AuthorizationRequest) *flowv1.AuthorizeRequest {
	return &flowv1.AuthorizeRequest{Issuer: iss, Subject: "alice", Request: r}
}
'''
DEVICE = r'''
package device_test

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/storage"
)

var (
	_ = time.Now
	_ = types.StringRef
	_ = oidc.ScopeOpenID
	_ = device.New
)

const iss = "https://issuer.example"

type clientStore map[string]*clientv1.Client

func (s clientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if c, ok := s[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}
func (s clientStore) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	return s.Get(ctx, n)
}

type deviceStore struct {
	byUser    map[string]*sessionv1.DeviceCodeSession
	validated []*sessionv1.DeviceCodeSession
	deleted   []string
}

func (s *deviceStore) Register(_ context.Context, i, u string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	s.byUser[i+" "+u] = r
	return 120, nil
}
func (s *deviceStore) Delete(_ context.Context, i, u string) error {
	s.deleted = append(s.deleted, u)
	return nil
}
func (s *deviceStore) Validate(_ context.Context, i, u string, r *sessionv1.DeviceCodeSession) error {
	s.validated = append(s.validated, r)
	return nil
}
func (s *deviceStore) GetByDeviceCode(context.Context, string, string) (*sessionv1.DeviceCodeSession, error) {
	return nil, storage.ErrNotFound
}
func (s *deviceStore) GetByUserCode(_ context.Context, i, u string) (*sessionv1.DeviceCodeSession, error) {
	if x, ok := s.byUser[i+" "+u]; ok {
		return x, nil
	}
	return nil, storage.ErrNotFound
}

type codes struct{}

func (codes) Generate(context.Context, string) (string, error) { return "code", nil }
func (codes) Validate(context.Context, string, string) error   { return nil }
'''
AUTH = r'''
package clientauthentication

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	"github.com/go-jose/go-jose/v4/jwt"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/storage"
)

var (
	_ = time.Now
	_ = oidc.ScopeOpenID
)

type demoClients map[string]*clientv1.Client

func (s demoClients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if c, ok := s[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}
func (s demoClients) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	return s.Get(ctx, n)
}

func demoKey(t *testing.T, kid string) *jose.JSONWebKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	return &jose.JSONWebKey{Key: k, KeyID: kid, Algorithm: "ES256"}
}

func demoJWKS(t *testing.T, k *jose.JSONWebKey) []byte {
	b, err := json.Marshal(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{k.Public()}})
	if err != nil {
		t.Fatal(err)
	}
	return b
}

func demoSign(t *testing.T, k *jose.JSONWebKey, claims map[string]any) string {
	s, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: k}, nil)
	if err != nil {
		t.Fatal(err)
	}
	raw, err := jwt.Signed(s).Claims(claims).Serialize()
	if err != nil {
		t.Fatal(err)
	}
	return raw
}

var demoAlgs = []jose.SignatureAlgorithm{jose.ES256}

func demoRequest(ty, v string) *clientv1.AuthenticateRequest {
	return &clientv1.AuthenticateRequest{ClientAssertionType: types.StringRef(ty), ClientAssertion: types.StringRef(v)}
}
'''
