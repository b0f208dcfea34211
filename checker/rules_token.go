package main

import (
	"go/types"
	"strings"
)

const (
	pkgToken  = "server/services/token"
	pkgAuthz  = "server/services/authorization"
	pkgDevice = "server/services/device"
	apiFlow   = "api/oidc/flow/v1"
	apiTok    = "api/oidc/token/v1"
	apiSess   = "api/oidc/session/v1"
	apiClient = "api/oidc/client/v1"
)

// tokenFacts gathers the terms the rules on the token endpoint refer to.
type tokenOp struct {
	*Root
	c                         *Ctx
	req                       *Term
	gCode, gDev, gRT, gCC, gX *Term
	stActive, tAT, tRT        *Term
}

func (c *Ctx) tokenOp() *tokenOp {
	r := c.root(pkgToken, "New", "Token")
	t := &tokenOp{Root: r, c: c, req: r.Args[1]}
	t.gCode = c.strOf("oidc", "GrantTypeAuthorizationCode")
	t.gDev = c.strOf("oidc", "GrantTypeDeviceCode")
	t.gRT = c.strOf("oidc", "GrantTypeRefreshToken")
	t.gCC = c.strOf("oidc", "GrantTypeClientCredentials")
	t.gX = c.strOf("oidc", "GrantTypeTokenExchange")
	t.stActive = c.constOf(apiTok, "TokenStatus_TOKEN_STATUS_ACTIVE")
	t.tAT = c.constOf(apiTok, "TokenType_TOKEN_TYPE_ACCESS_TOKEN")
	t.tRT = c.constOf(apiTok, "TokenType_TOKEN_TYPE_REFRESH_TOKEN")
	return t
}

func (t *tokenOp) issuer(st *State) *Term { return t.rd(st, t.req, "Issuer") }

func (t *tokenOp) grantIs(st *State, g *Term) bool {
	return same(st, t.rd(st, t.req, "GrantType"), g)
}

// client is the registered client fetched for the authenticated client id.
func (t *tokenOp) client(st *State) *Term {
	for _, g := range calls(st, evClientGet) {
		if same(st, g.Args[2], t.rd(st, t.req, "Client", "ClientId")) && okCall(st, g, 1) {
			return res(g, 0)
		}
	}
	return nil
}

// isClientID tells whether x is the identifier of the authenticated client.
func (t *tokenOp) isClientID(st *State, x *Term) bool {
	if same(st, x, t.rd(st, t.req, "Client", "ClientId")) {
		return true
	}
	if cl := t.client(st); cl != nil && same(st, x, t.rd(st, typed(cl, t, "ClientReader"), "ClientId")) {
		return true
	}
	return false
}

func typed(x *Term, _ any, _ string) *Term { return x }

// creates lists the token creations of a grant.
func (t *tokenOp) creates(g *Term, session string) []*EvRec {
	var l []*EvRec
	for _, ev := range t.evs(evTokCreate) {
		if t.grantIs(ev.St, g) || (session != "" && mayCall(ev.St, session)) {
			l = append(l, ev)
		}
	}
	return l
}

// session finds the successful lookup a creation relies on.
func (t *tokenOp) lookup(st *State, name string, key *Term) *Term {
	for _, g := range calls(st, name) {
		if same(st, g.Args[2], t.issuer(st)) && same(st, g.Args[3], key) && okCall(st, g, 1) {
			return g
		}
	}
	return nil
}

func (t *tokenOp) isType(st *State, tok, ty *Term) bool {
	return same(st, t.rd(st, tok, "TokenType"), ty)
}

func pureT(t types.Type, name string, args ...*Term) *Term { return mkT(t, "pure", name, args...) }

func fieldsOf(scope *Term) *Term {
	return pureT(nil, "strings.Fields", scope)
}

// scopeHas tells whether the space separated scope contains a value.
func scopeHas(st *State, scope, v *Term) bool {
	return member(st, fieldsOf(scope), v, true)
}

func b64raw(data *Term) *Term {
	return pureT(types.Typ[types.String], "(*encoding/base64.Encoding).EncodeToString", mk("gval", "encoding/base64.RawURLEncoding"), data)
}

func init() {
	register("C01", "code redemption is bound to the client and redirect URI", "Every token creation reachable from the authorization_code grant is inspected with the conditions established on each abstract path leading to it.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.creates(t.gCode, evCodeGet) {
			st, pos := ev.St, ev.Pos
			code := t.oneof(st, t.req, "Grant", "TokenRequest_AuthorizationCode", "AuthorizationCode")
			g := t.lookup(st, evCodeGet, t.rd(st, code, "Code"))
			if !c.need(g != nil, "session", ev.site(), pos, "a token is created without a successful lookup of the presented code for the request issuer") {
				continue
			}
			ar := t.rd(st, res(g, 0), "Request")
			c.need(t.isClientID(st, t.rd(st, ar, "ClientId")), "client", ev.site(), pos, "the session's client is not compared with the authenticated client before a token is created")
			ru := t.rd(st, code, "RedirectUri")
			c.need(same(st, t.rd(st, ar, "RedirectUri"), ru), "redirect", ev.site(), pos, "the redirect URI of the authorization request is not compared with the presented one")
			c.need(nonEmpty(st, ru), "redirect-present", ev.site(), pos, "an empty redirect URI is accepted")
			cl := t.client(st)
			c.need(cl != nil && member(st, t.rd(st, cl, "RedirectUris"), ru, false), "registered", ev.site(), pos, "the redirect URI is not required to be one of the client's registered URIs, exactly")
		}
		c.floor("session", 1, "token creations of the authorization_code grant")
	})

	register("C02", "PKCE is enforced at code redemption", "Every token creation reachable from the authorization_code grant must be dominated, on each abstract path, by the S256 equality between the stored challenge and the hash of the presented verifier, and by the length bounds of the verifier.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.creates(t.gCode, evCodeGet) {
			st, pos := ev.St, ev.Pos
			code := t.oneof(st, t.req, "Grant", "TokenRequest_AuthorizationCode", "AuthorizationCode")
			ver := t.rd(st, code, "CodeVerifier")
			g := t.lookup(st, evCodeGet, t.rd(st, code, "Code"))
			if !c.need(g != nil, "session", ev.site(), pos, "a token is created without a successful lookup of the presented code") {
				continue
			}
			ar := t.rd(st, res(g, 0), "Request")
			want := b64raw(mkHsum("sha256", nil, ver))
			c.need(same(st, t.rd(st, ar, "CodeChallenge"), want), "challenge", ev.site(), pos, "the stored code_challenge is not compared with the S256 transform of the verifier")
			c.need(same(st, t.rd(st, ar, "CodeChallengeMethod"), c.strOf("oidc", "CodeChallengeMethodSha256")), "method", ev.site(), pos, "a code_challenge_method other than S256 reaches token creation")
			c.need(lenAtLeast(st, ver, 43), "min", ev.site(), pos, "a verifier shorter than 43 characters is accepted")
			c.need(lenAtMost(st, ver, 128), "max", ev.site(), pos, "a verifier longer than 128 characters is accepted")
		}
		c.floor("session", 1, "token creations of the authorization_code grant")
	})

	register("C03", "an authorization code is consumed before any token exists", "Every token creation of the authorization_code grant must follow, on each abstract path, a deletion of the presented code whose error result is known to be nil.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.creates(t.gCode, evCodeGet) {
			st := ev.St
			code := t.rd(st, t.oneof(st, t.req, "Grant", "TokenRequest_AuthorizationCode", "AuthorizationCode"), "Code")
			ok := false
			for _, d := range calls(st, evCodeDelete) {
				if same(st, d.Args[2], t.issuer(st)) && same(st, d.Args[3], code) && okCall(st, d, 0) {
					ok = true
				}
			}
			c.need(ok, "consumed", ev.site(), ev.Pos, "a token is created although the presented code was not deleted successfully before")
		}
		c.floor("consumed", 1, "token creations of the authorization_code grant")
		// a redeemed code never survives a success either
		for _, o := range t.Outs {
			if !isNil(o.st, o.res[1]) || !mayCall(o.st, evCodeGet) {
				continue
			}
			ok := false
			for _, d := range calls(o.st, evCodeDelete) {
				if okCall(o.st, d, 0) {
					ok = true
				}
			}
			c.need(ok, "consumed-on-success", "Token", outPos(t.Root, o), "the operation succeeds without consuming the code")
		}
	})

	register("C04", "tokens of the code grant carry what the session authorised", "The content of every token object passed to storage by the authorization_code grant is read from the abstract heap at the creation site and compared with the session, the request and the client.", func(c *Ctx) {
		t := c.tokenOp()
		openid, offline := c.strOf("oidc", "ScopeOpenID"), c.strOf("oidc", "ScopeOfflineAccess")
		for _, ev := range t.creates(t.gCode, evCodeGet) {
			st, pos := ev.St, ev.Pos
			code := t.oneof(st, t.req, "Grant", "TokenRequest_AuthorizationCode", "AuthorizationCode")
			g := t.lookup(st, evCodeGet, t.rd(st, code, "Code"))
			if !c.need(g != nil, "session", ev.site(), pos, "a token is created without a successful lookup of the presented code") {
				continue
			}
			s := res(g, 0)
			ar := t.rd(st, s, "Request")
			tok := ev.Args[3]
			kind := "refresh"
			if t.isType(st, tok, t.tAT) {
				kind = "access"
			} else {
				c.need(t.isType(st, tok, t.tRT), "type", ev.site(), pos, "a token of an unexpected type is created")
			}
			scope := t.rd(st, ar, "Scope")
			c.need(same(st, ev.Args[2], t.issuer(st)), kind+".stored-for", ev.site(), pos, "the token is stored for another issuer")
			c.need(same(st, t.rd(st, tok, "Metadata", "Issuer"), t.issuer(st)), kind+".issuer", ev.site(), pos, "the token issuer is not the request issuer")
			c.need(same(st, t.rd(st, tok, "Metadata", "Subject"), t.rd(st, s, "Subject")), kind+".subject", ev.site(), pos, "the token subject is not the subject of the session")
			c.need(same(st, t.rd(st, tok, "Metadata", "Scope"), scope), kind+".scope", ev.site(), pos, "the token scope is not the scope of the authorization request")
			c.need(same(st, t.rd(st, tok, "Metadata", "Audience"), t.rd(st, ar, "Audience")), kind+".audience", ev.site(), pos, "the token audience is not the audience of the authorization request")
			c.need(t.isClientID(st, t.rd(st, tok, "Metadata", "ClientId")), kind+".client", ev.site(), pos, "the token is not bound to the authenticated client")
			c.need(same(st, t.rd(st, tok, "Confirmation"), t.rd(st, t.req, "TokenConfirmation")), kind+".cnf", ev.site(), pos, "the token confirmation is not the one established for the request")
			c.need(scopeHas(st, scope, openid), kind+".openid", ev.site(), pos, "tokens are issued without the openid scope")
			if kind == "refresh" {
				c.need(scopeHas(st, scope, offline), "refresh.offline", ev.site(), pos, "a refresh token is issued without the offline_access scope")
			}
		}
		c.floor("access.subject", 1, "access tokens of the authorization_code grant")
		c.floor("refresh.subject", 1, "refresh tokens of the authorization_code grant")
	})

	register("C12", "device tokens require a live, approved, matching session", "Every token creation of the device_code grant is checked for the conditions on the device session and the content of the token.", func(c *Ctx) {
		t := c.tokenOp()
		validated := c.constOf(apiSess, "DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED")
		offline := c.strOf("oidc", "ScopeOfflineAccess")
		for _, ev := range t.creates(t.gDev, evDevByCode) {
			st, pos := ev.St, ev.Pos
			grant := t.oneof(st, t.req, "Grant", "TokenRequest_DeviceCode", "DeviceCode")
			g := t.lookup(st, evDevByCode, t.rd(st, grant, "DeviceCode"))
			if !c.need(g != nil, "session", ev.site(), pos, "a token is created without a successful lookup of the device code for the request issuer") {
				continue
			}
			s := res(g, 0)
			c.need(t.isClientID(st, t.rd(st, s, "Request", "ClientId")) || t.isClientID(st, t.rd(st, s, "Client", "ClientId")), "client", ev.site(), pos, "the device session's client is not compared with the authenticated client")
			c.need(notExpired(st, t.rd(st, s, "ExpiresAt")), "expiry", ev.site(), pos, "an expired device session is redeemed")
			c.need(same(st, t.rd(st, s, "Status"), validated), "validated", ev.site(), pos, "a device session that was not approved is redeemed")
			sub := t.rd(st, s, "Subject")
			c.need(nonNil(st, sub), "subject-present", ev.site(), pos, "the session has no approving subject")
			tok := ev.Args[3]
			kind := "refresh"
			if t.isType(st, tok, t.tAT) {
				kind = "access"
			} else {
				c.need(t.isType(st, tok, t.tRT), "type", ev.site(), pos, "a token of an unexpected type is created")
			}
			c.need(same(st, t.rd(st, tok, "Metadata", "Issuer"), t.issuer(st)), kind+".issuer", ev.site(), pos, "the token issuer is not the request issuer")
			c.need(same(st, t.rd(st, tok, "Metadata", "Subject"), t.derefv(st, sub)), kind+".subject", ev.site(), pos, "the token subject is not the approving subject")
			t.optField(c, ev, kind+".scope", t.rd(st, tok, "Metadata", "Scope"), t.rd(st, s, "Scope"))
			t.optField(c, ev, kind+".audience", t.rd(st, tok, "Metadata", "Audience"), t.rd(st, s, "Audience"))
			c.need(t.isClientID(st, t.rd(st, tok, "Metadata", "ClientId")), kind+".client", ev.site(), pos, "the token is not bound to the authenticated client")
			c.need(same(st, t.rd(st, tok, "Confirmation"), t.rd(st, t.req, "TokenConfirmation")), kind+".cnf", ev.site(), pos, "the token confirmation is not the one established for the request")
			if kind == "refresh" {
				sc := t.rd(st, s, "Scope")
				c.need(nonNil(st, sc) && scopeHas(st, t.derefv(st, sc), offline), "refresh.offline", ev.site(), pos, "a refresh token is issued without the offline_access scope")
			}
		}
		c.floor("access.subject", 1, "access tokens of the device_code grant")
		c.floor("refresh.subject", 1, "refresh tokens of the device_code grant")
	})

	register("C13", "an approved device code yields tokens only once", "Every token creation of the device_code grant must be preceded by an operation that makes the device session unusable; approval must remove the user code.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.creates(t.gDev, evDevByCode) {
			st := ev.St
			ok := false
			for _, d := range calls(st, evDevDelete) {
				if okCall(st, d, 0) {
					ok = true
				}
			}
			kind := "refresh token"
			if t.isType(st, ev.Args[3], t.tAT) {
				kind = "access token"
			}
			c.need(ok, "consumed", "device_code grant, "+kind, ev.Pos, "tokens are created without consuming the device session")
		}
		c.floor("consumed", 1, "token creations of the device_code grant")
		r := c.root(pkgDevice, "New", "Validate")
		for _, o := range r.Outs {
			if isNil(o.st, o.res[1]) {
				ok := false
				for _, d := range calls(o.st, evDevDelete) {
					if okCall(o.st, d, 0) && same(o.st, d.Args[2], r.rd(o.st, r.Args[1], "Issuer")) && same(o.st, d.Args[3], r.rd(o.st, r.Args[1], "UserCode")) {
						ok = true
					}
				}
				c.need(ok, "user-code", "Validate", outPos(r, o), "the user code stays usable after an approval")
			}
		}
		c.floor("user-code", 1, "successful approvals")
	})

	register("C14", "refresh tokens are honoured only for their owner, active and unexpired", "Every token creation and revocation of the refresh_token grant is checked for the conditions established on the stored token.", func(c *Ctx) {
		t := c.tokenOp()
		evl := t.creates(t.gRT, "")
		for _, ev := range t.evs(evTokRevoke) {
			evl = append(evl, ev)
		}
		for _, ev := range evl {
			st, pos := ev.St, ev.Pos
			rt := t.refreshLookup(st)
			if !c.need(rt != nil, "lookup", ev.site(), pos, "a token is created without a successful lookup of the presented refresh token for the request issuer") {
				continue
			}
			c.need(same(st, t.rd(st, rt, "Status"), t.stActive), "active", ev.site(), pos, "a token that is not active is accepted as refresh token")
			c.need(t.isType(st, rt, t.tRT), "type", ev.site(), pos, "a token of another type is accepted as refresh token")
			c.need(nonNil(st, t.rd(st, rt, "Metadata")), "metadata", ev.site(), pos, "a refresh token without metadata is accepted")
			c.need(notExpired(st, t.rd(st, rt, "Metadata", "ExpiresAt")), "expiry", ev.site(), pos, "an expired refresh token is accepted")
			c.need(t.isClientID(st, t.rd(st, rt, "Metadata", "ClientId")), "owner", ev.site(), pos, "the refresh token's client is not compared with the authenticated client")
		}
		c.floor("lookup", 2, "creations of the refresh_token grant")
	})

	register("C15", "refreshing preserves the grant and rotates safely", "The content of every token created by the refresh_token grant is compared with the stored refresh token; a new refresh token may only be returned together with the revocation of the old one.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.creates(t.gRT, "") {
			st, pos := ev.St, ev.Pos
			rt := t.refreshLookup(st)
			if !c.need(rt != nil, "lookup", ev.site(), pos, "a token is created without a successful lookup of the presented refresh token") {
				continue
			}
			tok := ev.Args[3]
			kind := "refresh"
			if t.isType(st, tok, t.tAT) {
				kind = "access"
			}
			for _, f := range []string{"Issuer", "Subject", "Scope", "Audience"} {
				x := t.rd(st, tok, "Metadata", f)
				ok := same(st, x, t.rd(st, rt, "Metadata", f))
				if f == "Issuer" {
					ok = ok || same(st, x, t.issuer(st))
				}
				c.need(ok, kind+"."+strings.ToLower(f), ev.site(), pos, "the new token's %s differs from the refresh token's", strings.ToLower(f))
			}
			c.need(t.isClientID(st, t.rd(st, tok, "Metadata", "ClientId")) || same(st, t.rd(st, tok, "Metadata", "ClientId"), t.rd(st, rt, "Metadata", "ClientId")), kind+".client", ev.site(), pos, "the new token is not bound to the authenticated client")
			c.need(same(st, t.rd(st, tok, "Confirmation"), t.rd(st, rt, "Confirmation")), kind+".cnf", ev.site(), pos, "the new token does not keep the confirmation of the refresh token")
		}
		c.floor("access.subject", 1, "access tokens of the refresh_token grant")
		c.floor("refresh.subject", 1, "refresh tokens of the refresh_token grant")
		for _, o := range t.Outs {
			st := o.st
			if !t.grantIs(st, t.gRT) || !isNil(st, o.res[1]) {
				continue
			}
			nrt := t.rd(st, o.res[0], "RefreshToken")
			old := t.refreshLookup(st)
			if isNil(st, nrt) || old == nil {
				// the old token stays the only refresh token of the grant
				n := 0
				for _, cr := range calls(st, evTokCreate) {
					if t.isType(st, cr.Args[3], t.tRT) {
						n++
					}
				}
				c.need(n == 0, "dangling", "Token", outPos(t.Root, o), "a refresh token is created but not returned")
				c.need(!mayCall(st, evTokRevoke), "lost", "Token", outPos(t.Root, o), "the refresh token is revoked without a replacement")
				continue
			}
			ok := false
			for _, rv := range calls(st, evTokRevoke) {
				if okCall(st, rv, 0) && same(st, rv.Args[3], t.rd(st, old, "TokenId")) && same(st, rv.Args[2], t.issuer(st)) {
					ok = true
				}
			}
			c.need(ok, "rotation", "Token", outPos(t.Root, o), "a new refresh token is returned while the old one stays active")
		}
		c.floor("rotation", 1, "rotations")
	})

	register("C16", "token exchange accepts only an active, unexpired access token", "Every token creation of the token-exchange grant is checked for the conditions established on the subject token.", func(c *Ctx) {
		t := c.tokenOp()
		atType := c.strOf("oidc", "TokenExchangeAccessTokenType")
		for _, ev := range t.creates(t.gX, "") {
			st, pos := ev.St, ev.Pos
			grant := t.oneof(st, t.req, "Grant", "TokenRequest_TokenExchange", "TokenExchange")
			g := t.lookup(st, evTokByValue, t.rd(st, grant, "SubjectToken"))
			if !c.need(g != nil, "lookup", ev.site(), pos, "a token is created without a successful lookup of the subject token for the request issuer") {
				continue
			}
			sj := res(g, 0)
			c.need(same(st, t.rd(st, sj, "Status"), t.stActive), "active", ev.site(), pos, "a subject token that is not active is exchanged")
			c.need(t.isType(st, sj, t.tAT), "type", ev.site(), pos, "a subject token that is not an access token is exchanged")
			c.need(nonNil(st, t.rd(st, sj, "Metadata")), "metadata", ev.site(), pos, "a subject token without metadata is exchanged")
			c.need(notExpired(st, t.rd(st, sj, "Metadata", "ExpiresAt")), "expiry", ev.site(), pos, "an expired subject token is exchanged")
			c.need(same(st, t.rd(st, grant, "SubjectTokenType"), atType), "subject-type", ev.site(), pos, "another subject_token_type is exchanged")
			c.need(nonEmpty(st, t.rd(st, grant, "SubjectToken")), "present", ev.site(), pos, "an empty subject token is exchanged")
		}
		c.floor("lookup", 2, "creations of the token exchange grant")
	})

	register("C17", "an exchanged token never exceeds its subject token", "The content of every token created by the token-exchange grant is compared with the subject token; scopes must be proven included element by element.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.creates(t.gX, "") {
			st, pos := ev.St, ev.Pos
			grant := t.oneof(st, t.req, "Grant", "TokenRequest_TokenExchange", "TokenExchange")
			g := t.lookup(st, evTokByValue, t.rd(st, grant, "SubjectToken"))
			if !c.need(g != nil, "lookup", ev.site(), pos, "a token is created without a successful lookup of the subject token") {
				continue
			}
			sj := res(g, 0)
			tok := ev.Args[3]
			iss := t.rd(st, tok, "Metadata", "Issuer")
			c.need(same(st, iss, t.rd(st, sj, "Metadata", "Issuer")), "issuer", ev.site(), pos, "the exchanged token has another issuer")
			c.need(same(st, t.rd(st, tok, "Metadata", "Subject"), t.rd(st, sj, "Metadata", "Subject")), "subject", ev.site(), pos, "the exchanged token has another subject")
			c.need(t.isClientID(st, t.rd(st, tok, "Metadata", "ClientId")), "client", ev.site(), pos, "the exchanged token is not bound to the authenticated client")
			c.need(same(st, t.rd(st, tok, "Confirmation"), t.rd(st, sj, "Confirmation")), "cnf", ev.site(), pos, "the exchanged token loses the confirmation of the subject token")
			c.need(t.isType(st, tok, t.tAT), "type", ev.site(), pos, "the exchanged token is not an access token")
			// lifetime
			okLife := false
			for _, now := range nows(st) {
				if d, ok := st.facts.diffUpper(t.rd(st, tok, "Metadata", "ExpiresAt"), now); ok && d <= 60 {
					okLife = true
				}
			}
			c.need(okLife, "lifetime", ev.site(), pos, "the exchanged token may live longer than one minute")
			// scope inclusion
			sc := t.rd(st, tok, "Metadata", "Scope")
			ssc := t.rd(st, sj, "Metadata", "Scope")
			c.need(same(st, sc, ssc) || subsetScope(st, sc, ssc), "scope", ev.site(), pos, "the scope of the exchanged token is not included in the subject token's")
			switch rs := t.rd(st, t.req, "Scope"); {
			case isNil(st, rs):
				c.need(same(st, sc, ssc), "scope.default", ev.site(), pos, "without a requested scope the token has another scope than the subject token")
			case nonNil(st, rs):
				c.need(same(st, sc, t.derefv(st, rs)), "scope.requested", ev.site(), pos, "the token has another scope than the requested one")
			default:
				c.need(false, "scope.requested", ev.site(), pos, "the requested scope is ignored")
			}
			// audience
			aud := t.rd(st, tok, "Metadata", "Audience")
			ra := t.rd(st, t.req, "Audience")
			switch {
			case isNil(st, ra):
				c.need(same(st, aud, mkStr("")) || same(st, aud, t.rd(st, sj, "Metadata", "Audience")), "audience.default", ev.site(), pos, "an audience appears without being requested")
			case nonNil(st, ra):
				ok := false
				for _, g := range calls(st, evResGet) {
					if same(st, g.Args[2], t.derefv(st, ra)) && okCall(st, g, 1) && same(st, aud, t.rd(st, res(g, 0), "Urn")) {
						ok = true
					}
				}
				c.need(ok, "audience.resolved", ev.site(), pos, "the audience is not that of a resolved resource")
			default:
				c.need(false, "audience.resolved", ev.site(), pos, "the requested audience is ignored")
			}
		}
		c.floor("scope", 2, "creations of the token exchange grant")
		c.floor("scope.default", 1, "exchanges without a requested scope")
		c.floor("scope.requested", 1, "exchanges with a requested scope")
		c.floor("audience.resolved", 1, "resolved audiences")
		// the issued type is declared
		for _, o := range t.Outs {
			if t.grantIs(o.st, t.gX) && isNil(o.st, o.res[1]) {
				it := t.rd(o.st, o.res[0], "IssuedTokenType")
				c.need(nonNil(o.st, it) && same(o.st, t.derefv(o.st, it), c.strOf("oidc", "TokenExchangeAccessTokenType")), "issued-type", "Token", outPos(t.Root, o), "the issued_token_type of an exchanged token is missing or wrong")
				// RFC 8693: the scope is reported if it is not the requested one;
				// here also if it is not the subject token's
				grant := t.oneof(o.st, t.req, "Grant", "TokenRequest_TokenExchange", "TokenExchange")
				g := t.lookup(o.st, evTokByValue, t.rd(o.st, grant, "SubjectToken"))
				if g == nil {
					continue
				}
				sc, rsc := t.rd(o.st, o.res[0], "AccessToken", "Metadata", "Scope"), t.rd(o.st, o.res[0], "Scope")
				if isNil(o.st, rsc) {
					c.need(same(o.st, sc, t.rd(o.st, res(g, 0), "Metadata", "Scope")), "reported", "Token", outPos(t.Root, o), "a scope other than that of the subject token is not reported")
				} else {
					c.need(nonNil(o.st, rsc) && same(o.st, t.derefv(o.st, rsc), sc), "reported", "Token", outPos(t.Root, o), "another scope than that of the token is reported")
				}
			}
		}
		c.floor("issued-type", 1, "successful exchanges")
	})

	register("C18", "client credentials are limited to confidential clients acting as themselves", "Every token creation of the client_credentials grant is checked for the client conditions and the content of the token.", func(c *Ctx) {
		t := c.tokenOp()
		conf, cred := c.constOf(apiClient, "ClientType_CLIENT_TYPE_CONFIDENTIAL"), c.constOf(apiClient, "ClientType_CLIENT_TYPE_CREDENTIALED")
		for _, ev := range t.creates(t.gCC, "") {
			st, pos := ev.St, ev.Pos
			cl := t.client(st)
			if !c.need(cl != nil, "client", ev.site(), pos, "a token is created without a successful lookup of the authenticated client") {
				continue
			}
			vs := st.facts.values(t.rd(st, cl, "ClientType"))
			ok := len(vs) > 0
			for _, v := range vs {
				if v != conf && v != cred {
					ok = false
				}
			}
			c.need(ok, "type", ev.site(), pos, "a client that is neither confidential nor credentialed obtains a token")
			tok := ev.Args[3]
			c.need(t.isType(st, tok, t.tAT), "access", ev.site(), pos, "the grant issues something else than an access token")
			c.need(t.isClientID(st, t.rd(st, tok, "Metadata", "Subject")), "subject", ev.site(), pos, "the subject is not the client itself")
			c.need(t.isClientID(st, t.rd(st, tok, "Metadata", "ClientId")), "client-id", ev.site(), pos, "the token is not bound to the client")
			c.need(same(st, t.rd(st, tok, "Metadata", "Issuer"), t.issuer(st)), "issuer", ev.site(), pos, "the token issuer is not the request issuer")
			t.optField(c, ev, "scope", t.rd(st, tok, "Metadata", "Scope"), t.rd(st, t.req, "Scope"))
			t.optField(c, ev, "audience", t.rd(st, tok, "Metadata", "Audience"), t.rd(st, t.req, "Audience"))
			c.need(same(st, t.rd(st, tok, "Confirmation"), t.rd(st, t.req, "TokenConfirmation")), "cnf", ev.site(), pos, "the token confirmation is not the one established for the request")
		}
		c.floor("type", 1, "creations of the client_credentials grant")
		for _, o := range t.Outs {
			if t.grantIs(o.st, t.gCC) && isNil(o.st, o.res[1]) {
				c.need(isNil(o.st, t.rd(o.st, o.res[0], "RefreshToken")), "no-refresh", "Token", outPos(t.Root, o), "a refresh token is returned")
			}
		}
		c.floor("no-refresh", 1, "successful client_credentials requests")
	})

	register("C19", "every returned token was generated, is active and was persisted as returned", "For each success outcome of the token endpoint the returned token objects are matched with the storage call that persisted them, and the object's content at both points is compared.", func(c *Ctx) {
		t := c.tokenOp()
		byCall := map[*Term][]*EvRec{}
		for _, ev := range t.evs(evTokCreate) {
			byCall[ev.Term] = append(byCall[ev.Term], ev)
			st, pos := ev.St, ev.Pos
			tok := ev.Args[3]
			c.need(same(st, t.rd(st, tok, "Status"), t.stActive), "active", ev.site(), pos, "a token is stored that is not active")
			val := t.rd(st, tok, "Value")
			var gen *Term
			for _, g := range calls(st, evTokGen) {
				if okCall(st, g, 1) && same(st, val, res(g, 0)) && g.Args[2] == tok {
					gen = g
				}
			}
			c.need(gen != nil, "generated", ev.site(), pos, "the stored value was not produced, without error, by a token generator for this token")
			if gen != nil {
				want := t.Ctor[0]
				if t.isType(st, tok, t.tRT) {
					want = t.Ctor[1]
				}
				c.need(gen.Args[0] == want, "generator", ev.site(), pos, "the value was produced by the generator of another token type")
			}
			c.need(nonEmpty(st, val), "value", ev.site(), pos, "a token with an empty value is stored")
			id := t.rd(st, tok, "TokenId")
			fresh := false
			for _, u := range calls(st, evUniuri) {
				if id == res(u, 0) {
					if n, ok := u.Args[0].int(); ok && n >= 8 {
						fresh = true
					}
				}
			}
			c.need(fresh, "token-id", ev.site(), pos, "the token identifier is not a fresh random value")
		}
		c.floor("active", 5, "token creations")
		fields := []string{"TokenType", "TokenId", "Value", "Status", "Confirmation"}
		meta := []string{"Issuer", "Subject", "ClientId", "IssuedAt", "NotBefore", "ExpiresAt", "Scope", "Audience"}
		for _, o := range t.Outs {
			st := o.st
			if !isNil(st, o.res[1]) {
				continue
			}
			used := map[*Term]bool{}
			for _, fld := range []string{"AccessToken", "RefreshToken"} {
				tok := t.rd(st, o.res[0], fld)
				if isNil(st, tok) {
					continue
				}
				want := t.tAT
				if fld == "RefreshToken" {
					want = t.tRT
				}
				var found *Term
				for _, cr := range calls(st, evTokCreate) {
					if cr.Args[3] == tok && okCall(st, cr, 0) {
						found = cr
					}
				}
				if !c.need(found != nil, "persisted", "Token", outPos(t.Root, o), "a returned token was not persisted successfully before") {
					continue
				}
				c.need(!used[tok], "distinct", "Token", outPos(t.Root, o), "the same token is returned as access and refresh token")
				used[tok] = true
				c.need(t.isType(st, tok, want), "kind", "Token", outPos(t.Root, o), "the response field %s carries a token of another type", fld)
				// one of the recorded states of the storage call must show the very
				// content that is returned
				for _, f := range append(append([]string(nil), fields...), meta...) {
					ok := false
					for _, ev := range byCall[found] {
						if contains2(meta, f) {
							ok = ok || same(st, t.rd(ev.St, tok, "Metadata", f), t.rd(st, tok, "Metadata", f))
						} else {
							ok = ok || same(st, t.rd(ev.St, tok, f), t.rd(st, tok, f))
						}
					}
					c.need(ok, "unchanged", "Token", outPos(t.Root, o), "the token's %s changes after it was persisted", f)
				}
			}
		}
		for _, o := range t.Outs {
			st, pos := o.st, outPos(t.Root, o)
			if !isNil(st, o.res[1]) {
				continue
			}
			at, rt := t.rd(st, o.res[0], "AccessToken"), t.rd(st, o.res[0], "RefreshToken")
			created := calls(st, evTokCreate)
			for _, cr := range created {
				c.need(same(st, cr.Args[3], at) || same(st, cr.Args[3], rt), "returned", "Token", pos, "a token is stored but not returned")
			}
			if len(created) == 0 {
				// a plain OAuth session carries nothing to issue tokens for
				g := calls(st, evCodeGet)
				ok := t.grantIs(st, t.gCode) && len(g) > 0 && notMember(st, fieldsOf(t.rd(st, res(g[0], 0), "Request", "Scope")), c.strOf("oidc", "ScopeOpenID"), false)
				c.need(ok, "empty", "Token", pos, "the request succeeds without a token")
			} else {
				c.need(nonNil(st, at), "access", "Token", pos, "the response has no access token")
			}
		}
		c.floor("persisted", 5, "returned tokens")
		c.floor("returned", 7, "stored tokens of successful requests")
	})

	register("C20", "token lifetimes are bounded and anchored to the current time", "The time fields of every created token are normalised to an offset from the clock reading and bounded.", func(c *Ctx) {
		t := c.tokenOp()
		for _, ev := range t.evs(evTokCreate) {
			st, pos := ev.St, ev.Pos
			tok := ev.Args[3]
			max, kind := int64(3600), "access"
			if t.isType(st, tok, t.tRT) {
				max, kind = 7*86400, "refresh"
			} else {
				c.need(t.isType(st, tok, t.tAT), "type", ev.site(), pos, "a token of unknown type is stored")
			}
			iat, nbf, exp := t.rd(st, tok, "Metadata", "IssuedAt"), t.rd(st, tok, "Metadata", "NotBefore"), t.rd(st, tok, "Metadata", "ExpiresAt")
			ok1, ok2, ok3 := false, false, false
			for _, now := range nows(st) {
				if d, ok := st.facts.diffUpper(exp, now); ok && d <= max {
					if l, ok := st.facts.diffUpper(now, exp); ok && l < 0 {
						ok1 = true
					}
				}
				if iat == now {
					ok2 = true
				}
				if d, ok := st.facts.diffUpper(nbf, exp); ok && d < 0 {
					if d, ok := st.facts.diffUpper(nbf, now); ok && d <= 60 {
						ok3 = true
					}
				}
			}
			// the readings of the clock by one operation are less than a minute apart
			for _, a := range nows(st) {
				for _, b := range nows(st) {
					d, ok := st.facts.diffUpper(nbf, a)
					l, ok2 := st.facts.diffUpper(b, exp)
					ok3 = ok3 || ok && ok2 && d <= 60 && d+l+60 < 0
				}
			}
			c.need(ok1, kind+".exp", ev.site(), pos, "the expiry is not at most %d seconds after the current time, or is not in the future", max)
			c.need(ok2, kind+".iat", ev.site(), pos, "the issue time is not the current time")
			c.need(ok3, kind+".nbf", ev.site(), pos, "the not-before time is missing, too late, or not before the expiry")
		}
		c.floor("access.exp", 5, "access token creations")
		c.floor("refresh.exp", 3, "refresh token creations")
	})

	register("C21", "grants are dispatched by their type, for registered and authenticated clients", "Every storage call and token creation reachable from the token endpoint is checked for the grant type, the client lookup, the client's registered grant types and the issuer.", func(c *Ctx) {
		t := c.tokenOp()
		own := map[string]*Term{evCodeGet: t.gCode, evCodeDelete: t.gCode, evDevByCode: t.gDev, evTokRevoke: t.gRT, evResGet: t.gX}
		for _, ev := range t.Evs {
			if !strings.HasPrefix(ev.Name, "(zntr.io/solid/server/storage.") && !strings.HasPrefix(ev.Name, "(zntr.io/solid/sdk/token.") {
				continue
			}
			st, pos := ev.St, ev.Pos
			cid := t.rd(st, t.req, "Client", "ClientId")
			c.need(nonNil(st, t.rd(st, t.req, "Client")), "authenticated", ev.site(), pos, "a request without client authentication reaches %s", short(ev.Name))
			c.need(nonEmpty(st, t.issuer(st)), "issuer", ev.site(), pos, "a request without issuer reaches %s", short(ev.Name))
			if ev.Name == evClientGet {
				c.need(same(st, ev.Args[2], cid), "client-id", ev.site(), pos, "another client is looked up")
				continue
			}
			cl := t.client(st)
			if !c.need(cl != nil, "client", ev.site(), pos, "%s is reached without a successful lookup of the authenticated client", short(ev.Name)) {
				continue
			}
			gt := t.rd(st, t.req, "GrantType")
			g := st.facts.find(gt)
			if _, ok := g.str(); !c.need(ok, "grant-known", ev.site(), pos, "%s is reached for an undetermined grant type", short(ev.Name)) {
				continue
			}
			c.need(member(st, t.rd(st, cl, "GrantTypes"), g, true), "grant-registered", ev.site(), pos, "%s is reached although the grant type is not registered for the client", short(ev.Name))
			if w := own[ev.Name]; w != nil {
				c.need(same(st, gt, w), "dispatch", ev.site(), pos, "%s is reached for another grant type", short(ev.Name))
			}
			if strings.HasPrefix(ev.Name, "(zntr.io/solid/server/storage.") && ev.Name != evResGet {
				iss := ev.Args[2]
				ok := same(st, iss, t.issuer(st))
				if !ok {
					// the issuer recorded with a token found for this issuer
					for _, l := range calls(st, evTokByValue) {
						if okCall(st, l, 1) && same(st, l.Args[2], t.issuer(st)) && same(st, iss, t.rd(st, res(l, 0), "Metadata", "Issuer")) {
							ok = true
						}
					}
				}
				c.need(ok, "issuer-scope", ev.site(), pos, "%s is called for another issuer", short(ev.Name))
				uri := mk("res", "1", mk("pure", "net/url.ParseRequestURI", t.issuer(st)))
				uri2 := mk("res", "1", mk("pure", "net/url.Parse", t.issuer(st)))
				c.need(isNil(st, uri) || isNil(st, uri2), "issuer-url", ev.site(), pos, "the issuer is not required to be a URL")
			}
		}
		c.floor("grant-registered", 8, "storage calls of the token endpoint")
		c.floor("dispatch", 5, "grant specific storage calls")
		// the grants each lead somewhere
		for _, g := range []*Term{t.gCode, t.gDev, t.gRT, t.gCC, t.gX} {
			n := 0
			for _, ev := range t.evs(evTokCreate) {
				if t.grantIs(ev.St, g) {
					n++
				}
			}
			s, _ := g.str()
			c.need(n > 0, "implemented", s, "-", "the grant type %s never creates a token", s)
		}
	})

	register("C22", "introspection discloses only the token asked for, to an authenticated client", "All outcomes of the introspection operation are enumerated with the conditions established on each of them.", func(c *Ctx) {
		r := c.root(pkgToken, "New", "Introspect")
		req := r.Args[1]
		unknown := c.constOf(apiTok, "TokenStatus_TOKEN_STATUS_UNKNOWN")
		notFound := mkT(nil, "gval", modPath+"/server/storage.ErrNotFound")
		for _, ev := range r.evs(evTokByValue, evTokGet) {
			st := ev.St
			ok := false
			for _, g := range calls(st, evClientGet) {
				if okCall(st, g, 1) && same(st, g.Args[2], r.rd(st, req, "Client", "ClientId")) {
					ok = true
				}
			}
			c.need(ok, "client", ev.site(), ev.Pos, "the token store is queried before the client was looked up")
			c.need(ev.Name == evTokByValue && same(st, ev.Args[2], r.rd(st, req, "Issuer")) && same(st, ev.Args[3], r.rd(st, req, "Token")), "query", ev.site(), ev.Pos, "the token store is not queried with the presented value for the request issuer")
		}
		c.floor("client", 1, "token lookups")
		for _, o := range r.Outs {
			st := o.st
			pos := outPos(r, o)
			tok := r.rd(st, o.res[0], "Token")
			if !isNil(st, o.res[1]) {
				c.need(isNil(st, tok), "error", "Introspect", pos, "a token is disclosed together with an error")
				continue
			}
			ls := calls(st, evTokByValue)
			if !c.need(len(ls) == 1 && nonNil(st, tok) || len(ls) == 1 && tok == res(ls[0], 0), "answer", "Introspect", pos, "the operation succeeds without an answer from the token store") {
				continue
			}
			err := res(ls[0], 1)
			if isNil(st, err) {
				c.need(same(st, tok, res(ls[0], 0)), "stored", "Introspect", pos, "the answer is not the stored token")
				continue
			}
			c.need(same(st, err, notFound), "notfound", "Introspect", pos, "a storage failure is reported as a successful answer")
			c.need(same(st, r.rd(st, tok, "Status"), unknown) && same(st, r.rd(st, tok, "Value"), r.rd(st, req, "Token")), "unknown", "Introspect", pos, "an unknown token is not reported as unknown")
			c.need(isNil(st, r.rd(st, tok, "Metadata")) && isNil(st, r.rd(st, tok, "Confirmation")), "unknown-empty", "Introspect", pos, "an unknown token is reported with metadata")
		}
		c.floor("stored", 1, "successful introspections")
		c.floor("unknown", 1, "unknown tokens")
	})

	register("C23", "revocation affects only the presented token of the requesting client", "Every call that revokes or deletes a token from the revocation operation is checked for the ownership and lookup conditions.", func(c *Ctx) {
		r := c.root(pkgToken, "New", "Revoke")
		req := r.Args[1]
		for _, ev := range r.evs(evTokRevoke, evTokDelete) {
			st, pos := ev.St, ev.Pos
			var tok *Term
			for _, g := range calls(st, evTokByValue) {
				if okCall(st, g, 1) && same(st, g.Args[2], r.rd(st, req, "Issuer")) && same(st, g.Args[3], r.rd(st, req, "Token")) {
					tok = res(g, 0)
				}
			}
			if !c.need(tok != nil, "lookup", ev.site(), pos, "a token is revoked without a successful lookup of the presented value for the request issuer") {
				continue
			}
			c.need(same(st, ev.Args[3], r.rd(st, tok, "TokenId")), "target", ev.site(), pos, "another token than the presented one is revoked")
			c.need(same(st, ev.Args[2], r.rd(st, req, "Issuer")), "issuer", ev.site(), pos, "a token of another issuer is revoked")
			cid := r.rd(st, req, "Client", "ClientId")
			client := false
			owner := isNil(st, r.rd(st, tok, "Metadata")) || isNil(st, tok)
			if !owner {
				c.need(true, "own", ev.site(), pos, "")
			}
			owner = owner || same(st, r.rd(st, tok, "Metadata", "ClientId"), cid)
			for _, g := range calls(st, evClientGet) {
				if okCall(st, g, 1) && same(st, g.Args[2], cid) {
					client = true
					owner = owner || same(st, r.rd(st, tok, "Metadata", "ClientId"), r.rd(st, res(g, 0), "ClientId"))
				}
			}
			c.need(client, "client", ev.site(), pos, "a token is revoked before the client was looked up")
			c.need(owner, "owner", ev.site(), pos, "a client can revoke a token issued to another client")
		}
		c.floor("owner", 1, "revocations")
		c.floor("own", 1, "revocations of the client's own tokens")
		for _, o := range r.Outs {
			if isNil(o.st, o.res[1]) {
				ok := false
				for _, rv := range calls(o.st, evTokRevoke, evTokDelete) {
					if okCall(o.st, rv, 0) {
						ok = true
					}
				}
				c.need(ok, "effective", "Revoke", outPos(r, o), "the operation succeeds without revoking the token")
			}
		}
		c.floor("effective", 1, "successful revocations")
	})
}

// optField checks that a string field equals an optional source value.
func (t *tokenOp) optField(c *Ctx, ev *EvRec, key string, got, src *Term) {
	st := ev.St
	switch {
	case isNil(st, src):
		c.need(same(st, got, mkStr("")), key, ev.site(), ev.Pos, "the value is set although the source has none")
	case nonNil(st, src):
		c.need(same(st, got, t.derefv(st, src)), key, ev.site(), ev.Pos, "the value differs from its source")
	default:
		c.need(false, key, ev.site(), ev.Pos, "the value does not depend on its source")
	}
}

func (t *tokenOp) refreshLookup(st *State) *Term {
	grant := t.oneof(st, t.req, "Grant", "TokenRequest_RefreshToken", "RefreshToken")
	g := t.lookup(st, evTokByValue, t.rd(st, grant, "RefreshToken"))
	if g == nil {
		return nil
	}
	return res(g, 0)
}

// subsetScope tells whether every word of scope a is established to be one of
// scope b.
func subsetScope(st *State, a, b *Term) bool {
	la, lb := fieldsOf(a), fieldsOf(b)
	for cnd, pol := range st.facts.m {
		if !pol || cnd.Op != "forall" || !same(st, cnd.Args[0], la) {
			continue
		}
		g := cnd.Args[1]
		if g.Op == "pure" && (g.S == "containsFold" || g.S == "contains") && g.Args[1] == tHole && same(st, g.Args[0], lb) {
			return true
		}
	}
	for cnd, pol := range st.facts.m {
		if pol && cnd.Op == "pure" && cnd.S == "set.HasAll" && same(st, cnd.Args[0], lb) && same(st, cnd.Args[1], la) {
			return true
		}
	}
	return false
}

func contains2(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
