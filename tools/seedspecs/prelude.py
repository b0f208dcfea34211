TOKENS = r'''
package token_test

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
)

const (
	iss      = "https://issuer.example"
	cb       = "https://client.example/cb"
	verifier = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"
)

var (
	_ = errors.New
	_ = time.Now
	_ = base64.RawURLEncoding
	_ = sha256.New
	_ = oidc.ScopeOpenID
	_ = tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN
	_ = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
	_ = fmt.Sprint
)

// world implements every storage of the token service.
type world struct {
	clients   map[string]*clientv1.Client
	codes     map[string]*sessionv1.AuthorizationCodeSession
	devices   map[string]*sessionv1.DeviceCodeSession
	tokens    map[string]*tokenv1.Token
	created   []*tokenv1.Token
	resources map[string]*resourcev1.Resource
	revoked   []string
	codeDel   func() error
	n         int
	genErr    error
	createErr error
	revokeErr error
}

func newWorld() *world {
	return &world{clients: map[string]*clientv1.Client{}, codes: map[string]*sessionv1.AuthorizationCodeSession{}, devices: map[string]*sessionv1.DeviceCodeSession{}, tokens: map[string]*tokenv1.Token{}, resources: map[string]*resourcev1.Resource{}}
}

type clientStore struct{ w *world }

func (s clientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if c, ok := s.w.clients[id]; ok {
		return c, nil
	}
	return nil, storage.ErrNotFound
}
func (s clientStore) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	return s.Get(ctx, n)
}

type codeStore struct{ w *world }

func (s codeStore) Get(_ context.Context, i, c string) (*sessionv1.AuthorizationCodeSession, error) {
	if x, ok := s.w.codes[i+" "+c]; ok {
		return x, nil
	}
	return nil, storage.ErrNotFound
}
func (s codeStore) Register(_ context.Context, i, c string, x *sessionv1.AuthorizationCodeSession) (uint64, error) {
	s.w.codes[i+" "+c] = x
	return 60, nil
}
func (s codeStore) Delete(_ context.Context, i, c string) error {
	if s.w.codeDel != nil {
		return s.w.codeDel()
	}
	delete(s.w.codes, i+" "+c)
	return nil
}

type deviceStore struct{ w *world }

func (s deviceStore) Register(_ context.Context, i, u string, r *sessionv1.DeviceCodeSession) (uint64, error) {
	s.w.devices[i+" "+u] = r
	return 60, nil
}
func (s deviceStore) Delete(_ context.Context, i, u string) error { return nil }
func (s deviceStore) Validate(_ context.Context, i, u string, r *sessionv1.DeviceCodeSession) error {
	return nil
}
func (s deviceStore) GetByDeviceCode(_ context.Context, i, d string) (*sessionv1.DeviceCodeSession, error) {
	if x, ok := s.w.devices[i+" "+d]; ok {
		return x, nil
	}
	return nil, storage.ErrNotFound
}
func (s deviceStore) GetByUserCode(ctx context.Context, i, d string) (*sessionv1.DeviceCodeSession, error) {
	return s.GetByDeviceCode(ctx, i, d)
}

type tokenStore struct{ w *world }

func (s tokenStore) Get(_ context.Context, i, id string) (*tokenv1.Token, error) {
	for _, t := range s.w.tokens {
		if t.TokenId == id && t.Metadata.GetIssuer() == i {
			return t, nil
		}
	}
	return nil, storage.ErrNotFound
}
func (s tokenStore) GetByValue(_ context.Context, i, v string) (*tokenv1.Token, error) {
	if t, ok := s.w.tokens[i+" "+v]; ok {
		return t, nil
	}
	return nil, storage.ErrNotFound
}
func (s tokenStore) Create(_ context.Context, i string, t *tokenv1.Token) error {
	if s.w.createErr != nil {
		return s.w.createErr
	}
	s.w.tokens[i+" "+t.Value] = t
	s.w.created = append(s.w.created, t)
	return nil
}
func (s tokenStore) Delete(_ context.Context, i, id string) error { return nil }
func (s tokenStore) Revoke(_ context.Context, i, id string) error {
	if s.w.revokeErr != nil {
		return s.w.revokeErr
	}
	s.w.revoked = append(s.w.revoked, id)
	return nil
}

type resourceStore struct{ w *world }

func (s resourceStore) GetByURI(_ context.Context, u string) (*resourcev1.Resource, error) {
	if x, ok := s.w.resources[u]; ok {
		return x, nil
	}
	return nil, storage.ErrNotFound
}

type gen struct {
	w *world
	p string
}

func (g gen) Generate(_ context.Context, t *tokenv1.Token) (string, error) {
	g.w.n++
	return fmt.Sprintf("%s-%d", g.p, g.w.n), g.w.genErr
}

type requestStore struct{}

func (requestStore) Get(context.Context, string, string) (*flowv1.AuthorizationRequest, error) {
	return nil, storage.ErrNotFound
}

func (w *world) service() services.Token {
	return token.New(gen{w, "at"}, gen{w, "rt"}, clientStore{w}, requestStore{}, codeStore{w}, deviceStore{w}, tokenStore{w}, resourceStore{w})
}

func (w *world) client(id string) *clientv1.Client {
	c := &clientv1.Client{ClientId: id, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, RedirectUris: []string{cb}, GrantTypes: []string{oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode, oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange}}
	w.clients[id] = c
	return c
}

func challenge(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func (w *world) code(c *clientv1.Client, code string) *sessionv1.AuthorizationCodeSession {
	s := &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: "alice", Request: &flowv1.AuthorizationRequest{ClientId: c.ClientId, RedirectUri: cb, Scope: "openid offline_access", Audience: "api", CodeChallenge: challenge(verifier), CodeChallengeMethod: "S256"}}
	w.codes[iss+" "+code] = s
	return s
}

func codeRequest(c *clientv1.Client, code string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeAuthorizationCode, Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: cb, CodeVerifier: verifier}}}
}

func (w *world) token(v string, ty tokenv1.TokenType, client string) *tokenv1.Token {
	now := uint64(time.Now().Unix())
	t := &tokenv1.Token{TokenType: ty, TokenId: "id-" + v, Value: v, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Issuer: iss, Subject: "alice", ClientId: client, Scope: "openid read", Audience: "api", IssuedAt: now - 100, NotBefore: now - 100, ExpiresAt: now + 100000}}
	w.tokens[iss+" "+v] = t
	return t
}

func refreshRequest(c *clientv1.Client, v string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeRefreshToken, Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: v}}}
}

func exchangeRequest(c *clientv1.Client, v string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeTokenExchange, Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectTokenType: oidc.TokenExchangeAccessTokenType, SubjectToken: v}}}
}
'''
