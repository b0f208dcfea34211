import sys; sys.path[:0] = ["/verif/tools", "/verif/tools/seedspecs"]
from mkseed import mk
from prelude import TOKENS
from prelude2 import AUTHZ, DEVICE, AUTH
A, AF = "server/services/authorization", "server/services/authorization/service.go"
V, VF = "server/services/device", "server/services/device/service.go"
P, S = "server/services/token", "server/services/token/"
C = "server/clientauthentication"

mk("b33", "C05", "a client that registered no response mode", "any response mode is granted to clients without registered modes", A,
   [(AF, "if !types.StringArray(client.ResponseModes).Contains(*req.ResponseMode) {", "if len(client.ResponseModes) > 0 && !types.StringArray(client.ResponseModes).Contains(*req.ResponseMode) {")],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	w.clients["c1"].ResponseModes = nil
	r := request()
	r.ResponseMode = types.StringRef(oidc.ResponseModeFragment)
	if _, err := s.Authorize(context.Background(), authorize(r)); err == nil || len(w.sessions) != 0 {
		t.Fatalf("unregistered response mode accepted: %v", err)
	}
}
''')
mk("b34", "C06", "a prompt other than none, login and consent", "offline_access survives prompts that ask for no consent", A,
   [(AF, "} else if *req.Prompt != oidc.PromptConsent {", "} else if *req.Prompt == oidc.PromptNone || *req.Prompt == oidc.PromptLogin {")],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	r := request()
	r.Prompt = types.StringRef("select_account")
	if _, err := s.Authorize(context.Background(), authorize(r)); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(w.sessions[0].Request.Scope, "offline_access") {
		t.Fatal("offline_access granted without consent")
	}
}
''')
mk("b35", "C07", "a client identifier that differs from the authenticated one in case only", "a request is pushed for another client", A,
   [(AF, "if req.Request.ClientId != req.Client.ClientId {", "if !strings.EqualFold(req.Request.ClientId, req.Client.ClientId) {")],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	if _, err := s.Register(context.Background(), &flowv1.RegistrationRequest{Issuer: iss, Client: &clientv1.Client{ClientId: "C1"}, Request: request()}); err == nil || len(w.requests) != 0 {
		t.Fatalf("request of another client registered: %v", err)
	}
}
''')
mk("b36", "C08", "two concurrent uses of one request_uri: the second deletion reports not found", "a request_uri that another request consumed is accepted", A,
   [(AF, "if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil {", "if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil && !errors.Is(err, storage.ErrNotFound) {"),
    (AF, 'import (\n\t"context"\n', 'import (\n\t"context"\n\t"errors"\n')],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	w.requests[iss+" urn:x"] = request()
	w.delErr = storage.ErrNotFound
	if _, err := s.Authorize(context.Background(), authorize(&flowv1.AuthorizationRequest{RequestUri: types.StringRef("urn:x")})); err == nil || len(w.sessions) != 0 {
		t.Fatalf("consumed request_uri accepted: %v", err)
	}
}
''')
mk("b37", "C09", "an authorization with a pushed request", "the response states the redirect URI of the query instead of the pushed request", A,
   [(AF, "	// Check if request is registered\n" if False else "	if req.Request.RequestUri != nil {\n		// ", "	redirectURI := req.Request.RedirectUri\n	if req.Request.RequestUri != nil {\n		// ") if False else
    (AF, "	res := &flowv1.AuthorizeResponse{}\n", "	res := &flowv1.AuthorizeResponse{}\n	redirectURI := req.GetRequest().GetRedirectUri()\n"),
    (AF, "	res.RedirectUri = req.Request.RedirectUri\n", "	res.RedirectUri = redirectURI\n	if redirectURI == \"\" {\n		res.RedirectUri = req.Request.RedirectUri\n	}\n")],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	w.requests[iss+" urn:x"] = request()
	res, err := s.Authorize(context.Background(), authorize(&flowv1.AuthorizationRequest{RequestUri: types.StringRef("urn:x"), RedirectUri: "https://evil.example/cb"}))
	if err != nil {
		t.Fatal(err)
	}
	if res.RedirectUri != "https://client.example/cb" {
		t.Fatalf("code sent to %s", res.RedirectUri)
	}
}
''')
mk("b38", "C10", "a client without any registered grant type", "clients without registered grants may start device authorizations", V,
   [(VF, "if !types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeDeviceCode) {", "if len(client.GrantTypes) > 0 && !types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeDeviceCode) {")],
   DEVICE + '''
func TestDemo(t *testing.T) {
	d := &deviceStore{byUser: map[string]*sessionv1.DeviceCodeSession{}}
	s := device.New(clientStore{"c1": &clientv1.Client{ClientId: "c1"}}, d, codes{}, codes{})
	if _, err := s.Authorize(context.Background(), &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: "c1"}); err == nil || len(d.byUser) != 0 {
		t.Fatalf("device authorization of a client without the grant: %v", err)
	}
}
''')
mk("b39", "C11", "a session in a status other than pending and validated", "sessions that are neither pending nor approved can be approved", V,
   [(VF, "if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {", "if session.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {")],
   DEVICE + '''
func TestDemo(t *testing.T) {
	for st := range sessionv1.DeviceCodeStatus_name {
		if st == int32(sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING) {
			continue
		}
		d := &deviceStore{byUser: map[string]*sessionv1.DeviceCodeSession{iss + " u": {Issuer: iss, Client: &clientv1.Client{ClientId: "c1"}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c1"}, Status: sessionv1.DeviceCodeStatus(st), ExpiresAt: uint64(time.Now().Unix()) + 60}}}
		s := device.New(clientStore{}, d, codes{}, codes{})
		if _, err := s.Validate(context.Background(), &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: "u", Subject: "bob"}); err == nil || len(d.validated) != 0 {
			t.Fatalf("session in status %d approved", st)
		}
	}
}
''')
mk("b40", "C12", "a client whose identifier differs from the session's in letter case", "device codes are redeemed by a client of a similar name", P,
   [(S + "grant_device_code.go", "if session.Request.ClientId != client.ClientId {", "if !strings.EqualFold(session.Request.ClientId, client.ClientId) {")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	sub := "alice"
	w.devices[iss+" d"] = &sessionv1.DeviceCodeSession{Client: c, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "C1"}, Subject: &sub, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED, ExpiresAt: uint64(time.Now().Unix()) + 60}
	req := &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeDeviceCode, Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: "d"}}}
	if _, err := w.service().Token(context.Background(), req); err == nil || len(w.created) != 0 {
		t.Fatalf("tokens for the session of another client: %v", err)
	}
}
''')
mk("b41", "C18", "a public client that registered keys", "public clients with keys use client credentials", P,
   [(S + "grant_client_credentials.go", "	default:\n		res.Error = rfcerrors.InvalidClient().Build()\n		return res, fmt.Errorf(\"client must be credentialed or confidential to use client_credential grant type\")\n", "	default:\n		if len(client.Jwks) == 0 {\n			res.Error = rfcerrors.InvalidClient().Build()\n			return res, fmt.Errorf(\"client must be credentialed or confidential to use client_credential grant type\")\n		}\n")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	c.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
	c.Jwks = []byte("{}")
	req := &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: oidc.GrantTypeClientCredentials, Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}}
	if _, err := w.service().Token(context.Background(), req); err == nil || len(w.created) != 0 {
		t.Fatal("public client obtained a token for itself")
	}
}
''')
mk("b42", "C20", "a refresh: the metadata handed on carries the refresh token's expiry", "an access token made by a refresh lives as long as the refresh token", P,
   [(S + "generator.go", "	at.Value, err = s.accessTokenGen.Generate(ctx, at)", "	if meta.ExpiresAt > at.Metadata.ExpiresAt && meta.IssuedAt < at.Metadata.IssuedAt {\n		at.Metadata.ExpiresAt = meta.ExpiresAt\n	}\n	at.Value, err = s.accessTokenGen.Generate(ctx, at)")],
   TOKENS + '''
func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	w.token("r1", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, "c1")
	res, err := w.service().Token(context.Background(), refreshRequest(c, "r1"))
	if err != nil {
		t.Fatal(err)
	}
	if m := res.AccessToken.Metadata; m.ExpiresAt-m.IssuedAt > 3600 {
		t.Fatalf("access token lives %d hours", (m.ExpiresAt-m.IssuedAt)/3600)
	}
}
''')
mk("b43", "C22", "an introspection while the client store fails", "introspection proceeds although the client could not be looked up", P,
   [(S + "introspection.go", "	if err != nil {\n		if !errors.Is(err, storage.ErrNotFound) {", "	if err != nil && !errors.Is(err, context.DeadlineExceeded) {\n		if !errors.Is(err, storage.ErrNotFound) {")],
   TOKENS + '''
type slowClients struct{ clientStore }

func (slowClients) Get(context.Context, string) (*clientv1.Client, error) {
	return nil, context.DeadlineExceeded
}

func TestDemo(t *testing.T) {
	w := newWorld()
	w.token("a1", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1")
	svc := token.New(gen{w, "at"}, gen{w, "rt"}, slowClients{clientStore{w}}, requestStore{}, codeStore{w}, deviceStore{w}, tokenStore{w}, resourceStore{w})
	res, err := svc.Introspect(context.Background(), &tokenv1.IntrospectRequest{Issuer: iss, Client: &clientv1.Client{ClientId: "ghost"}, Token: "a1"})
	if err == nil || res.Token != nil {
		t.Fatalf("token disclosed to a client that was not found")
	}
}
''')
mk("b44", "C23", "a token whose metadata names another issuer than the store it was found in", "the revocation is made under the issuer the token names: nothing is revoked", P,
   [(S + "revoke.go", "	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {", "	issuer := t.GetMetadata().GetIssuer()\n	if issuer == \"\" {\n		issuer = req.Issuer\n	}\n	if err := s.tokens.Revoke(ctx, issuer, t.TokenId); err != nil {")],
   TOKENS + '''
type issuerStore struct {
	tokenStore
	issuer string
}

func (s *issuerStore) Revoke(_ context.Context, i, id string) error {
	s.issuer = i
	return nil
}

func TestDemo(t *testing.T) {
	w := newWorld()
	c := w.client("c1")
	tk := w.token("a1", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, "c1")
	tk.Metadata.Issuer = "https://legacy.example"
	st := &issuerStore{tokenStore: tokenStore{w}}
	svc := token.New(gen{w, "at"}, gen{w, "rt"}, clientStore{w}, requestStore{}, codeStore{w}, deviceStore{w}, st, resourceStore{w})
	if _, err := svc.Revoke(context.Background(), &tokenv1.RevokeRequest{Issuer: iss, Client: c, Token: "a1"}); err != nil {
		t.Fatal(err)
	}
	if st.issuer != iss {
		t.Fatalf("revoked under issuer %q instead of the one that holds the token", st.issuer)
	}
}
''')
mk("b45", "C26", "a client store that fails because the request's context ended", "a storage failure is reported as an invalid request", A,
   [(AF, "		if err != storage.ErrNotFound {\n			return rfcerrors.ServerError()", "		if err != storage.ErrNotFound && ctx.Err() == nil {\n			return rfcerrors.ServerError()")],
   AUTHZ + '''
func TestDemo(t *testing.T) {
	w, s := newWorld()
	w.getErr = errors.New("connection reset")
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	res, err := s.Authorize(ctx, authorize(request()))
	if err == nil || res.Error.Err != "server_error" {
		t.Fatalf("storage failure reported as %v", res.Error)
	}
}
''')
mk("b46", "C27", "an assertion that expired less than five minutes ago", "expired assertions are accepted during a grace period", C,
   [(C + "/private_key_jwt.go", "if claims.Expires < uint64(time.Now().Unix()) {", "if claims.Expires+300 < uint64(time.Now().Unix()) {")],
   AUTH + '''
func TestDemo(t *testing.T) {
	k := demoKey(t, "k1")
	p := PrivateKeyJWT(demoClients{"c1": {ClientId: "c1", Jwks: demoJWKS(t, k)}}, demoAlgs)
	raw := demoSign(t, k, map[string]any{"iss": "c1", "sub": "c1", "aud": "https://as.example", "jti": "1", "exp": time.Now().Unix() - 60})
	if res, err := p.Authenticate(context.Background(), demoRequest(oidc.AssertionTypeJWTBearer, raw)); err == nil || res.Client != nil {
		t.Fatal("expired assertion accepted")
	}
}
''')
mk("b47", "C28", "a proof of possession that becomes valid in the future", "a proof of possession that is not valid yet is accepted", C,
   [(C + "/client_attestation.go", "	if claims.NotBefore > uint64(time.Now().Unix()) {\n		res.Error", "	if claims.NotBefore > claims.Expires {\n		res.Error")],
   AUTH+ '''
func TestDemo(t *testing.T) {
	attester, instance := demoKey(t, "a1"), demoKey(t, "i1")
	p := ClientAttestation(demoClients{"c1": {ClientId: "c1"}, "attester": {ClientId: "attester", Jwks: demoJWKS(t, attester)}}, demoAlgs)
	now := time.Now().Unix()
	att := demoSign(t, attester, map[string]any{"iss": "attester", "sub": "c1", "exp": now + 600, "cnf": map[string]any{"jwk": instance.Public()}})
	pop := demoSign(t, instance, map[string]any{"iss": "c1", "aud": "https://as.example", "jti": "1", "nbf": now + 60, "exp": now + 120})
	if res, err := p.Authenticate(context.Background(), demoRequest(oidc.AssertionTypeJWTClientAttestation, att+"~"+pop)); err == nil || res.Client != nil {
		t.Fatal("proof of possession accepted before it is valid")
	}
}
''')
