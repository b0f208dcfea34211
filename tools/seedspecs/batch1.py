import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk
from prelude import TOKENS
S = "server/services/token/"
P = "server/services/token"
mk("b01", "C01", "a stored code session without redirect URI", "the redirect URI of the token request is no longer compared when the session records none", P,
   [(S + "grant_authorization_code.go", "if ar.Request.RedirectUri != grant.RedirectUri {", 'if ar.Request.RedirectUri != "" && ar.Request.RedirectUri != grant.RedirectUri {')],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.code(c, "code").Request.RedirectUri = ""
	if _, err := w.service().Token(context.Background(), codeRequest(c, "code")); err == nil || len(w.created) != 0 {
		t.Fatalf("code redeemed although its session records another redirect URI: %v", err)
	}
}
''')
mk("b02", "C02", "a stored challenge that is a proper prefix of the computed one (for instance empty)", "PKCE comparison accepts prefixes", P,
   [(S + "grant_authorization_code.go", "if computedVerifier != ar.Request.CodeChallenge {", "if len(computedVerifier) < len(ar.Request.CodeChallenge) || computedVerifier[:len(ar.Request.CodeChallenge)] != ar.Request.CodeChallenge {")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.code(c, "code").Request.CodeChallenge = challenge(verifier)[:4]
	if _, err := w.service().Token(context.Background(), codeRequest(c, "code")); err == nil || len(w.created) != 0 {
		t.Fatalf("code redeemed with a verifier that does not match the challenge: %v", err)
	}
}
''')
mk("b03", "C03", "two concurrent redemptions of one code: the second deletion reports not found", "a failed deletion of the code no longer prevents the issue of tokens", P,
   [(S + "grant_authorization_code.go", "err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n\tif err != nil {", "err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n\tif err != nil && err != storage.ErrNotFound {")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.code(c, "code")
	w.codeDel = func() error { return storage.ErrNotFound } // another request consumed it meanwhile
	if _, err := w.service().Token(context.Background(), codeRequest(c, "code")); err == nil || len(w.created) != 0 {
		t.Fatalf("tokens issued for a code that was consumed by another request: %v", err)
	}
}
''')
mk("b04", "C15", "a refresh without proof of possession of a key-bound refresh token", "refreshed tokens are bound to the request's confirmation instead of the refresh token's", P,
   [(S + "grant_refresh_token.go", "at, err := s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)", "at, err := s.generateAccessToken(ctx, client, rt.Metadata, req.TokenConfirmation)")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	rt := w.token("r1", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, "c1")
	rt.Confirmation = &tokenv1.TokenConfirmation{Jkt: "thumb"}
	res, err := w.service().Token(context.Background(), refreshRequest(c, "r1"))
	if err != nil {
		t.Fatal(err)
	}
	if res.AccessToken.GetConfirmation().GetJkt() != "thumb" {
		t.Fatalf("refreshed token lost its key confirmation: %v", res.AccessToken)
	}
}
''')
mk("b05", "C16", "a subject token that expired less than a minute ago", "expired subject tokens are exchanged during a grace period", P,
   [(S + "grant_token_exchange.go", "if st.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {", "if st.Metadata.ExpiresAt+60 < uint64(timeFunc().Unix()) {")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.token("a1", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c2").Metadata.ExpiresAt = uint64(time.Now().Unix()) - 30
	if _, err := w.service().Token(context.Background(), exchangeRequest(c, "a1")); err == nil || len(w.created) != 0 {
		t.Fatalf("expired token exchanged: %v", err)
	}
}
''')
mk("b06", "C14", "a refresh token in a status other than active or revoked", "only revoked refresh tokens are refused", P,
   [(S + "grant_refresh_token.go", "if rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {", "if rt.Status >= tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED || rt.Status == tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED {")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	for s := range tokenv1.TokenStatus_name {
		if s == int32(tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) {
			continue
		}
		w := newWorld()
		c := w.client("c1")
		w.token("r1", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, "c1").Status = tokenv1.TokenStatus(s)
		if _, err := w.service().Token(context.Background(), refreshRequest(c, "r1")); err == nil || len(w.created) != 0 {
			t.Fatalf("refresh token with status %v accepted", tokenv1.TokenStatus(s))
		}
	}
}
''')
mk("b07", "C17", "a resource whose lookup succeeds and a requested audience different from its URN", "the audience of exchanged tokens is the requested string instead of the resolved resource", P,
   [(S + "grant_token_exchange.go", "at.Metadata.Audience = aud.Urn", "if aud.GetUrn() != \"\" {\n\t\t\tat.Metadata.Audience = *req.Audience\n\t\t}")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.token("a1", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c2")
	w.resources["https://api.example/x"] = &resourcev1.Resource{Urn: "urn:solid:api"}
	req := exchangeRequest(c, "a1")
	a := "https://api.example/x"
	req.Audience = &a
	res, err := w.service().Token(context.Background(), req)
	if err != nil {
		t.Fatal(err)
	}
	if res.AccessToken.Metadata.Audience != "urn:solid:api" {
		t.Fatalf("audience %q", res.AccessToken.Metadata.Audience)
	}
}
''')
mk("b08", "C19", "a failing storage while a refresh token is created with not-found", "a token whose storage failed is returned", P,
   [(S + "generator.go", '''	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {
		return nil, fmt.Errorf("unable to register refresh token spec in token storage: %w", err)
	}''', '''	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil && !errors.Is(err, context.DeadlineExceeded) {
		return nil, fmt.Errorf("unable to register refresh token spec in token storage: %w", err)
	}'''), (S + "generator.go", 'import (\n\t"context"\n', 'import (\n\t"context"\n\t"errors"\n')],
   TOKENS + '''
type slowStore struct{ tokenStore }

func (s slowStore) Create(ctx context.Context, i string, t *tokenv1.Token) error {
	if t.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
		return context.DeadlineExceeded
	}
	return s.tokenStore.Create(ctx, i, t)
}

func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.code(c, "code")
	svc := token.New(gen{w, "at"}, gen{w, "rt"}, clientStore{w}, requestStore{}, codeStore{w}, deviceStore{w}, slowStore{tokenStore{w}}, resourceStore{w})
	res, err := svc.Token(context.Background(), codeRequest(c, "code"))
	if err == nil || res.RefreshToken != nil {
		t.Fatalf("a refresh token was returned that is not stored")
	}
}
''')
