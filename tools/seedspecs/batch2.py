import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk

KEY = '''
func demoKey(t *testing.T, kid string) *jose.JSONWebKey {
	t.Helper()
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	return &jose.JSONWebKey{Key: k, KeyID: kid, Algorithm: "ES256"}
}
'''
DPOP = '''package dpop

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"sync"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
)

var _ = time.Now

type demoProofs struct{ m sync.Map }

func (p *demoProofs) Register(_ context.Context, id string) error { p.m.Store(id, true); return nil }
func (p *demoProofs) Delete(_ context.Context, id string) error   { p.m.Delete(id); return nil }
func (p *demoProofs) Exists(_ context.Context, id string) (bool, error) {
	_, ok := p.m.Load(id)
	return ok, nil
}
''' + KEY + '''
func demoSigner(t *testing.T) token.Serializer {
	k := demoKey(t, "k1")
	return jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return k, nil })
}

func demoVerifier() Verifier {
	return DefaultVerifier(&demoProofs{}, jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
}
'''
D = "sdk/dpop"
mk("b11", "C30", "a proof whose issue date lies a minute in the future", "proofs dated well in the future are accepted: the window is only closed on one side", D,
   [("sdk/dpop/verifier.go", "if uint64(time.Now().Add(ExpirationTreshold).Unix()) < claims.IssuedAt {", "if uint64(time.Now().Add(10*ExpirationTreshold).Unix()) < claims.IssuedAt {")],
   DPOP + '''
func TestDemo(t *testing.T) {
	s := demoSigner(t)
	proof, err := s.Serialize(context.Background(), &proofClaims{JTI: "1234567890123456", HTTPMethod: "POST", HTTPURL: "https://as.example/token", IssuedAt: uint64(time.Now().Unix()) + 60})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerifier().Verify(context.Background(), "POST", "https://as.example/token", proof); err == nil {
		t.Fatal("proof from the future accepted")
	}
}
''')
mk("b12", "C31", "the same proof presented twice with a safe method", "proof identifiers of requests with safe methods are not remembered", D,
   [("sdk/dpop/verifier.go", "	// Check if exists\n	if errCache := v.checkProofCache(ctx, jtiHash); errCache != nil {\n		return \"\", errCache\n	}", "	// Check if exists\n	if htm != http.MethodHead && htm != http.MethodOptions {\n		if errCache := v.checkProofCache(ctx, jtiHash); errCache != nil {\n			return \"\", errCache\n		}\n	}")],
   DPOP + '''
func TestDemo(t *testing.T) {
	proof, err := DefaultProver(demoSigner(t)).Prove("HEAD", "https://as.example/token")
	if err != nil {
		t.Fatal(err)
	}
	v := demoVerifier()
	if _, err := v.Verify(context.Background(), "HEAD", "https://as.example/token", proof); err != nil {
		t.Fatal(err)
	}
	if _, err := v.Verify(context.Background(), "HEAD", "https://as.example/token", proof); err == nil {
		t.Fatal("replayed proof accepted")
	}
}
''')
mk("b13", "C32", "a proof with an empty access token hash", "the access token hash is compared on the length the proof supplies", D,
   [("sdk/dpop/verifier.go", "!types.SecureCompareString(*claims.AccessTokenHash, expected) {", "len(*claims.AccessTokenHash) > len(expected) || !types.SecureCompareString(*claims.AccessTokenHash, expected[:len(*claims.AccessTokenHash)]) {")],
   DPOP + '''
func TestDemo(t *testing.T) {
	empty, tv := "", "a-token"
	proof, err := demoSigner(t).Serialize(context.Background(), &proofClaims{JTI: "1234567890123456", HTTPMethod: "POST", HTTPURL: "https://as.example/token", IssuedAt: uint64(time.Now().Unix()), AccessTokenHash: &empty})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerifier().Verify(context.Background(), "POST", "https://as.example/token", proof, func(o *options) { o.tokenValue = &tv }); err == nil {
		t.Fatal("proof accepted although it is not bound to the token")
	}
}
''')
mk("b14", "C33", "a target URL with an explicit port", "the prover drops the port of the target URL", D,
   [("sdk/dpop/prover.go", "u.Scheme, u.Host, u.Path)", "u.Scheme, u.Hostname(), u.Path)")],
   DPOP + '''
func TestDemo(t *testing.T) {
	proof, err := DefaultProver(demoSigner(t)).Prove("POST", "https://as.example:8443/token")
	if err != nil {
		t.Fatal(err)
	}
	if _, err := demoVerifier().Verify(context.Background(), "POST", "https://as.example:8443/token", proof); err != nil {
		t.Fatal(err)
	}
}
''')
mk("b15", "C34", "a signature whose header names an encryption key of the set", "an encryption key validates signatures that name it", "sdk/jwk",
   [("sdk/jwk/signature.go", "		// Check key type\n		if k.Use == \"enc\" {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err := signature.Verify(k)", "		// Check key type\n		if k.Use == \"enc\" && (k.KeyID == \"\" || len(signature.Signatures) == 0 || k.KeyID != signature.Signatures[0].Header.KeyID) {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err := signature.Verify(k)")],
   '''package jwk

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"
)
''' + KEY + '''
func TestDemo(t *testing.T) {
	k := demoKey(t, "k1")
	s, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: k}, nil)
	if err != nil {
		t.Fatal(err)
	}
	sig, err := s.Sign([]byte("payload"))
	if err != nil {
		t.Fatal(err)
	}
	compact, err := sig.CompactSerialize()
	if err != nil {
		t.Fatal(err)
	}
	if sig, err = jose.ParseSigned(compact, []jose.SignatureAlgorithm{jose.ES256}); err != nil {
		t.Fatal(err)
	}
	pub := k.Public()
	pub.KeyID = "k1"
	pub.Use = "enc"
	if err := ValidateSignature(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, sig); err == nil {
		t.Fatal("signature validated with an encryption key")
	}
}
''')
JWT = '''package jwt

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"
	jwtjose "github.com/go-jose/go-jose/v4/jwt"
)

var _ = jwtjose.Signed
''' + KEY
mk("b16", "C35", "a token whose key identifier names no key of the set", "a token naming an unknown key is tried with every key of the set", "sdk/token/jwt",
   [("sdk/token/jwt/verifier.go", "		keys = jwks.Key(kid)\n", "		if found := jwks.Key(kid); len(found) > 0 {\n			keys = found\n		}\n")],
   JWT + '''
func TestDemo(t *testing.T) {
	k := demoKey(t, "retired")
	raw, err := AccessTokenSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return k, nil }).Serialize(context.Background(), map[string]any{"sub": "x"})
	if err != nil {
		t.Fatal(err)
	}
	pub := k.Public()
	pub.KeyID = "other"
	v := DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
	}, []jose.SignatureAlgorithm{jose.ES256})
	var out map[string]any
	if err := v.Claims(context.Background(), raw, &out); err == nil {
		t.Fatal("token accepted although the key it names is not in the set")
	}
}
''')
mk("b17", "C36", "a signer used again after its key provider rotated the key", "the signer keeps using the first key it obtained", "sdk/token/jwt",
   [("sdk/token/jwt/signer.go", "	embedJWK    bool\n}", "	embedJWK    bool\n	cached      *jose.JSONWebKey\n}"),
    ("sdk/token/jwt/signer.go", "	key, err := ds.keyProvider(ctx)\n	if err != nil {\n		return \"\", fmt.Errorf(\"unable to retrieve a signing key: %w\", err)\n	}\n", "	key := ds.cached\n	if key == nil {\n		k, err := ds.keyProvider(ctx)\n		if err != nil {\n			return \"\", fmt.Errorf(\"unable to retrieve a signing key: %w\", err)\n		}\n		key, ds.cached = k, k\n	}\n")],
   JWT + '''
func TestDemo(t *testing.T) {
	keys := []*jose.JSONWebKey{demoKey(t, "k1"), demoKey(t, "k2")}
	n := 0
	s := AccessTokenSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return keys[n], nil })
	for n = range keys {
		raw, err := s.Serialize(context.Background(), map[string]any{"sub": "x"})
		if err != nil {
			t.Fatal(err)
		}
		tok, err := jwtjose.ParseSigned(raw, []jose.SignatureAlgorithm{jose.ES256})
		if err != nil {
			t.Fatal(err)
		}
		if kid := tok.Headers[0].KeyID; kid != keys[n].KeyID {
			t.Fatalf("signed with %s instead of %s", kid, keys[n].KeyID)
		}
	}
}
''')
TOK = '''package token

import (
	"context"
	"testing"
	"time"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

type demoSerializer struct{ claims any }

func (s *demoSerializer) Serialize(_ context.Context, claims any) (string, error) {
	s.claims = claims
	return "signed", nil
}
func (s *demoSerializer) ContentType() string { return "JWT" }

func demoToken() *tokenv1.Token {
	now := uint64(time.Now().Unix())
	return &tokenv1.Token{TokenId: "id", TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
		Metadata: &tokenv1.TokenMeta{Issuer: "https://as.example", Subject: "sub", Audience: "aud", ClientId: "c1", Scope: "openid", IssuedAt: now, NotBefore: now, ExpiresAt: now + 60}}
}
'''
mk("b18", "C38", "a token issued some time ago that expires more than two hours after its issue", "the longest lifetime is measured from the signature instead of the issue of the token", "sdk/token",
   [("sdk/token/access_token.go", "maxExpiration := uint64(time.Unix(int64(meta.IssuedAt), 0).Add(2 * time.Hour).Unix())", "maxExpiration := uint64(time.Unix(int64(now), 0).Add(2 * time.Hour).Unix())")],
   TOK + '''
func TestDemo(t *testing.T) {
	tk := demoToken()
	tk.Metadata.IssuedAt -= 86400
	tk.Metadata.NotBefore = tk.Metadata.IssuedAt
	tk.Metadata.ExpiresAt = tk.Metadata.IssuedAt + 90000
	if _, err := AccessToken(&demoSerializer{}).Generate(context.Background(), tk); err == nil {
		t.Fatal("access token with a lifetime of 25 hours generated")
	}
}
''')
mk("b19", "C24", "an introspected token past its expiry whose status is still active", "an expired token is reported active", "sdk/token",
   [("sdk/token/introspection.go", "active := (t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) && IsUsable(t)", "active := (t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) && t.Metadata.NotBefore <= uint64(time.Now().Unix())")],
   TOK + '''
func TestDemo(t *testing.T) {
	tk := demoToken()
	tk.Metadata.IssuedAt -= 600
	tk.Metadata.NotBefore -= 600
	tk.Metadata.ExpiresAt -= 600
	s := &demoSerializer{}
	if _, err := Introspection(s).Generate(context.Background(), tk); err != nil {
		t.Fatal(err)
	}
	if s.claims.(map[string]any)["token_introspection"].(map[string]any)["active"] != false {
		t.Fatal("expired token reported active")
	}
}
''')
mk("b20", "C42", "an encrypter that returns an empty message", "the signed token is handed out in clear when encryption yields nothing", "sdk/token",
   [("sdk/token/encrypted.go", "	// No error\n	return encrypted, nil", "	if encrypted == \"\" {\n		encrypted = signed\n	}\n\n	// No error\n	return encrypted, nil")],
   TOK + '''
type demoEncrypter struct{}

func (demoEncrypter) Encrypt(context.Context, string, string, []byte) (string, error) { return "", nil }

func TestDemo(t *testing.T) {
	raw, _ := Encryption(&demoSerializer{}, demoEncrypter{}).Serialize(context.Background(), map[string]any{})
	if raw == "signed" {
		t.Fatal("signed token returned in clear")
	}
}
''')
JARM = '''package jarm

import (
	"context"
	"encoding/json"
	"testing"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/token"
)

type demoCodec struct{ claims any }

func (s *demoCodec) Serialize(_ context.Context, claims any) (string, error) {
	s.claims = claims
	return "signed", nil
}
func (s *demoCodec) ContentType() string { return "JWT" }
func (s *demoCodec) Verify(string) error { return nil }
func (s *demoCodec) Claims(_ context.Context, _ string, out any) error {
	b, err := json.Marshal(s.claims)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, out)
}

type demoVerifier struct{ *demoCodec }

func (demoVerifier) Parse(string) (token.Token, error) { return demoParsed{}, nil }

type demoParsed struct{ token.Token }

func (demoParsed) Type() (string, error) { return HeaderType, nil }

var _ = time.Now
var _ = flowv1.AuthorizeResponse{}
'''
mk("b21", "C39", "an authorization response with a lifetime", "the lifetime of a JARM response is taken in minutes", "sdk/jarm",
   [("sdk/jarm/encoder.go", "time.Duration(resp.ExpiresIn) * time.Second", "time.Duration(resp.ExpiresIn) * time.Minute")],
   JARM + '''
func TestDemo(t *testing.T) {
	c := &demoCodec{}
	if _, err := Encoder(c).Encode(context.Background(), "https://as.example", &flowv1.AuthorizeResponse{ClientId: "c1", Code: "code", State: "state", ExpiresIn: 60}); err != nil {
		t.Fatal(err)
	}
	if exp := c.claims.(*responseClaims).ExpiresAt; exp > uint64(time.Now().Unix())+61 {
		t.Fatalf("response expires in %d s", exp-uint64(time.Now().Unix()))
	}
}
''')
mk("b22", "C40", "a signed response without audience", "a response that names no audience is accepted by everyone", "sdk/jarm",
   [("sdk/jarm/decoder.go", "if claims.Audience != audience {", "if claims.Audience != \"\" && claims.Audience != audience {")],
   JARM + '''
func TestDemo(t *testing.T) {
	c := &demoCodec{claims: &responseClaims{Issuer: "https://as.example", Code: "code", State: "state", ExpiresAt: uint64(time.Now().Unix()) + 60}}
	if _, err := Decoder("https://as.example", demoVerifier{c}).Decode(context.Background(), "c1", "signed"); err == nil {
		t.Fatal("response without audience accepted")
	}
}
'''.replace("demoVerifier{c}", "demoVerifier{c}"))
mk("b23", "C43", "any user code: its two halves are equal", "the second half of a user code repeats the first", "sdk/generator",
   [("sdk/generator/device_user_code.go", 'return fmt.Sprintf("%s-%s", code[:4], code[4:]), nil', 'return fmt.Sprintf("%[1]s-%[1]s", code[:4]), nil')],
   '''package generator

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 3; i++ {
		c, err := DefaultDeviceUserCode().Generate(context.Background(), "https://as.example")
		if err != nil || len(c) != 9 {
			t.Fatal(c, err)
		}
		if c[:4] != c[5:] {
			return
		}
	}
	t.Fatal("user codes carry only half of their entropy")
}
''')
mk("b24", "C44", "an identifier whose seal was altered in its last bytes", "only the first half of the seal is compared", "sdk/token/verifiable",
   [("sdk/token/verifiable/uuid.go", "if subtle.ConstantTimeCompare(sig[12:], hm.Sum(nil)) != 1 {", "if subtle.ConstantTimeCompare(sig[12:28], hm.Sum(nil)[:16]) != 1 {")],
   '''package verifiable

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	key := []byte("0123456789abcdef0123456789abcdef")
	tok, err := UUIDGenerator(UUIDv4Source(), key).Generate()
	if err != nil {
		t.Fatal(err)
	}
	i := strings.LastIndexByte(tok, '_') + 1
	sig, err := parsePaddedBase62(tok[i:], 44)
	if err != nil {
		t.Fatal(err)
	}
	sig[43] ^= 1
	if err := UUIDVerifier(key).Verify(tok[:i] + toPaddedBase62(sig, 59)); err == nil {
		t.Fatal("altered seal accepted")
	}
}
''')
mk("b25", "C45", "two subjects that differ only in letter case", "subjects that differ in case share a pseudonym", "sdk/pairwise",
   [("sdk/pairwise/hash.go", "h.Write([]byte(subject))", "h.Write([]byte(strings.ToLower(subject)))")],
   '''package pairwise

import "testing"

func TestDemo(t *testing.T) {
	e := Hash([]byte("0123456789abcdef"))
	a, err := e.Encode("sector", "Alice")
	if err != nil {
		t.Fatal(err)
	}
	b, err := e.Encode("sector", "alice")
	if err != nil {
		t.Fatal(err)
	}
	if a == b {
		t.Fatal("two subjects share a pseudonym")
	}
}
''')
mk("b26", "C46", "a given value with a blank at its end", "secrets are compared after trimming the given value", "sdk/types",
   [("sdk/types/compare.go", "func SecureCompareString(given, actual string) bool {\n", "func SecureCompareString(given, actual string) bool {\n	for len(given) > len(actual) && given[len(given)-1] == ' ' {\n		given = given[:len(given)-1]\n	}\n")],
   '''package types

import "testing"

func TestDemo(t *testing.T) {
	if SecureCompareString("secret ", "secret") {
		t.Fatal("different secrets compare equal")
	}
}
''')
mk("b27", "C47", "two goroutines reading random bytes at once", "the shared generator is read without its lock for short reads", "sdk/randomness",
   [("sdk/randomness/locked_rand.go", "func (lr *LockedRand) Perm(n int) (r []int) {\n	lr.lk.Lock()\n	r = lr.r.Perm(n)\n	lr.lk.Unlock()\n	return\n}", "func (lr *LockedRand) Perm(n int) (r []int) {\n	if n > 1 {\n		lr.lk.Lock()\n		defer lr.lk.Unlock()\n	}\n	r = lr.r.Perm(n)\n	return\n}")],
   '''package randomness

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	lr := NewLockedRand(1)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				lr.Perm(1)
			}
		}()
	}
	wg.Wait()
}
''', args="-race")
mk("b28", "C48", "a verifier equal to the challenge", "the helper accepts the plain method", "sdk/pkce",
   [("sdk/pkce/verifier.go", "	chRaw, err := base64", "	if len(challenge) == len(verifier) && types.SecureCompareString(challenge, verifier) {\n		return true, nil\n	}\n\n	chRaw, err := base64")],
   '''package pkce

import "testing"

func TestDemo(t *testing.T) {
	if ok, _ := Validate("E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM", "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"); ok {
		t.Fatal("plain challenge accepted")
	}
}
''')
MEM = '''package inmemory

import (
	"context"
	"testing"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

'''
M = "server/storage/inmemory"
mk("b29", "C49", "two issuers served by one store", "a token of one issuer is found under every other issuer", M,
   [(M + "/token.go", '	h.Write([]byte("solid:token:v1"))\n	h.Write([]byte(issuer))\n', '	h.Write([]byte("solid:token:v1"))\n')],
   MEM + '''
func TestDemo(t *testing.T) {
	s := Tokens()
	if err := s.Create(context.Background(), "https://a.example", &tokenv1.Token{TokenId: "id", Value: "v"}); err != nil {
		t.Fatal(err)
	}
	if _, err := s.GetByValue(context.Background(), "https://b.example", "v"); err == nil {
		t.Fatal("token of another issuer returned")
	}
}
''')
mk("b30", "C50", "a token looked up by value after its revocation by identifier", "a revocation is not seen by lookups by value", M,
   [(M + "/token.go", "	s.valueIndex.Store(t.Value, t)\n", "	s.valueIndex.Store(s.deriveValue(issuer, t.Value), t)\n")],
   MEM + '''
func TestDemo(t *testing.T) {
	s, ctx := Tokens(), context.Background()
	if err := s.Create(ctx, "i", &tokenv1.Token{TokenId: "id", Value: "v", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE}); err != nil {
		t.Fatal(err)
	}
	if err := s.Revoke(ctx, "i", "id"); err != nil {
		t.Fatal(err)
	}
	if tk, err := s.GetByValue(ctx, "i", "v"); err == nil && tk.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
		t.Fatal("revoked token still active")
	}
}
''')
mk("b31", "C52", "a code redeemed more than ten seconds after its issue", "codes vanish long before the announced lifetime ends", M,
   [(M + "/authorization_code_session.go", "cache.New(1*time.Minute, 10*time.Minute)", "cache.New(10*time.Second, 10*time.Minute)")],
   '''package inmemory

import (
	"context"
	"testing"
	"time"

	sessionv1 "zntr.io/solid/api/oidc/session/v1"
)

func TestDemo(t *testing.T) {
	s, ctx := AuthorizationCodeSessions().(*sessionStorage), context.Background()
	ttl, err := s.Register(ctx, "i", "code", &sessionv1.AuthorizationCodeSession{})
	if err != nil {
		t.Fatal(err)
	}
	for _, it := range s.backend.Items() {
		if left := time.Until(time.Unix(0, it.Expiration)); left < time.Duration(ttl)*time.Second-5*time.Second {
			t.Fatalf("code kept for %v, announced for %d s", left, ttl)
		}
	}
}
''')
mk("b32", "C53", "a lookup of a device code that was never registered", "an unknown device code is reported as an empty session", M,
   [(M + "/device_code_session.go", "	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {\n		req := x.(*sessionv1.DeviceCodeSession)", "	if x, _ := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); true {\n		req, _ := x.(*sessionv1.DeviceCodeSession)")],
   '''package inmemory

import (
	"context"
	"testing"

	"zntr.io/solid/server/storage"
)

func TestDemo(t *testing.T) {
	if _, err := DeviceCodeSessions().GetByDeviceCode(context.Background(), "i", "nope"); err != storage.ErrNotFound {
		t.Fatalf("missing device code reported as %v", err)
	}
}
''')
