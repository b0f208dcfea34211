import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk
from prelude import *
from prelude2 import *

PARSED = '''
package jwt

import (
	"crypto/ed25519"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"

	"zntr.io/solid/sdk/token"
)

func parsed(t *testing.T, typ string) (token.Token, ed25519.PublicKey) {
	pub, priv, _ := ed25519.GenerateKey(rand.Reader)
	s, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.EdDSA, Key: priv}, (&jose.SignerOptions{}).WithType(jose.ContentType(typ)))
	if err != nil {
		t.Fatal(err)
	}
	raw, err := josejwt.Signed(s).Claims(map[string]any{"sub": "alice"}).Serialize()
	if err != nil {
		t.Fatal(err)
	}
	tok, err := DefaultVerifier(nil, []jose.SignatureAlgorithm{jose.EdDSA}).Parse(raw)
	if err != nil {
		t.Fatal(err)
	}
	return tok, pub
}
'''

mk("b75", "C70", "a caller that has no key for the token, such as a proof without an embedded key", "the claims of a token are handed out unverified when the key is missing", "sdk/token/jwt",
   [("sdk/token/jwt/token_adapter.go", "	return tw.token.Claims(publicKey, claims)", "	if publicKey == nil {\n		return tw.token.UnsafeClaimsWithoutVerification(claims)\n	}\n	return tw.token.Claims(publicKey, claims)")],
   PARSED + '''
func TestDemo(t *testing.T) {
	tok, pub := parsed(t, "at")
	var c map[string]any
	if err := tok.Claims(nil, &c); err == nil || len(c) != 0 {
		t.Fatal(err, c)
	}
	if err := tok.Claims(pub, &c); err != nil || c["sub"] != "alice" {
		t.Fatal(err, c)
	}
}
''')
mk("b76", "C70", "a token whose type carries the media type prefix", "two different token types are taken for the same", "sdk/token/jwt",
   [("sdk/token/jwt/token_adapter.go", '		return fmt.Sprintf("%v", typ), nil', '		return strings.TrimPrefix(fmt.Sprintf("%v", typ), "application/"), nil'),
    ("sdk/token/jwt/token_adapter.go", '	"fmt"', '	"fmt"\n	"strings"')],
   PARSED + '''
func TestDemo(t *testing.T) {
	for _, want := range []string{"at+jwt", "application/at+jwt"} {
		tok, _ := parsed(t, want)
		if got, err := tok.Type(); err != nil || got != want {
			t.Fatal(err, got)
		}
	}
}
''')
mk("b77", "C59", "a proof for a PATCH request", "proofs for one of the nine HTTP methods are always refused", "sdk/dpop",
   [("sdk/dpop/verifier.go", "	case http.MethodPatch, http.MethodPost, http.MethodPut, http.MethodTrace:", "	case http.MethodPost, http.MethodPut, http.MethodTrace:")],
   '''
package dpop_test

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	key := func(context.Context) (*jose.JSONWebKey, error) {
		return &jose.JSONWebKey{Key: k, KeyID: "k1", Algorithm: string(jose.ES256), Use: "sig"}, nil
	}
	p := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, key))
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	for _, m := range []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"} {
		proof, err := p.Prove(m, "https://api.example/things")
		if err != nil {
			t.Fatal(m, err)
		}
		if _, err := v.Verify(context.Background(), m, "https://api.example/things", proof); err != nil {
			t.Fatal(m, err)
		}
	}
}
''')
PROOFS = '''
package dpop_test

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"
)

func world() (dpop.Prover, dpop.Verifier) {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	key := func(context.Context) (*jose.JSONWebKey, error) {
		return &jose.JSONWebKey{Key: k, KeyID: "k1", Algorithm: string(jose.ES256), Use: "sig"}, nil
	}
	return dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, key)), dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
}
'''
mk("b78", "C31", "two uses of one proof together with the access token it is bound to", "proofs bound to an access token can be replayed", "sdk/dpop",
   [("sdk/dpop/verifier.go", "	if errCache := v.checkProofCache(ctx, jtiHash); errCache != nil {\n		return \"\", errCache\n	}", "	// A proof bound to an access token is useless without it.\n	if dopts.tokenValue == nil {\n		if errCache := v.checkProofCache(ctx, jtiHash); errCache != nil {\n			return \"\", errCache\n		}\n	}")],
   PROOFS + '''
func TestDemo(t *testing.T) {
	p, v := world()
	proof, err := p.Prove("GET", "https://api.example/things", dpop.WithTokenValue("at-1"))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := v.Verify(context.Background(), "GET", "https://api.example/things", proof, dpop.WithTokenValue("at-1")); err != nil {
		t.Fatal(err)
	}
	if _, err := v.Verify(context.Background(), "GET", "https://api.example/things", proof, dpop.WithTokenValue("at-1")); err == nil {
		t.Fatal("replayed")
	}
}
''')
NEW = '''	meta.ClientId = client.ClientId
	meta.IssuedAt = uint64(now.Unix())
	meta.NotBefore = uint64(now.Unix() + 1)
	meta.ExpiresAt = %s
	at := &tokenv1.Token{
		TokenType:    tokenv1.TokenType_TOKEN_TYPE_%s_TOKEN,
		TokenId:      uniuri.NewLen(jtiLength),
		Metadata:     meta,
'''
OLD = '''	at := &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_%s_TOKEN,
		TokenId:   uniuri.NewLen(jtiLength),
		Metadata: &tokenv1.TokenMeta{
			Issuer:    meta.Issuer,
			Subject:   meta.Subject,
			ClientId:  client.ClientId,
			IssuedAt:  uint64(now.Unix()),
			NotBefore: uint64(now.Unix() + 1),
			ExpiresAt: %s,
			Scope:     meta.Scope,
			Audience:  meta.Audience,
		},
'''
G = "server/services/token/generator.go"
AT, RT = ("uint64(now.Add(1 * time.Hour).Unix())", "ACCESS"), ("uint64(now.AddDate(0, 0, 7).Unix())", "REFRESH")
mk("b79", "C19", "a refresh with a storage that keeps the objects it is given", "the refresh token shares its metadata with the access token issued from it and expires with it", "server/services/token",
   [(G, OLD % (AT[1], AT[0]), NEW % AT), (G, OLD % (RT[1], RT[0]), NEW % RT)],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	rt := w.token("r1", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, "c1")
	want := rt.Metadata.ExpiresAt
	if _, err := w.service().Token(context.Background(), refreshRequest(c, "r1")); err != nil {
		t.Fatal(err)
	}
	if rt.Metadata.ExpiresAt != want {
		t.Fatal("the life of the refresh token ends with that of the access token", rt.Metadata)
	}
}
''')
