package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// invalid looks for the reason why an outcome refuses its input: one of the
// conditions every valid input satisfies must be known not to hold.
type invalid struct {
	c      *Ctx
	r      *Root
	st     *State
	states []*State
	yes    bool
	tag    string
}

// vals reads a value as it was given and as it is in the end.
func (q *invalid) vals(t *Term, path ...string) []*Term {
	var l []*Term
	for _, s := range q.states {
		x := q.r.rd(s, t, path...)
		dup := false
		for _, y := range l {
			dup = dup || x == y
		}
		if !dup {
			l = append(l, x)
		}
	}
	return l
}

func (q *invalid) must(cond *Term) {
	if q.st.facts.eval(cond) == -1 || cond.Op == "eq" && differ(q.st, cond.Args[0], cond.Args[1]) {
		q.yes = true
	}
}

func (q *invalid) reason(ok bool) { q.yes = q.yes || ok }

// blank: the value, or an object on the way to it, is nil, empty or zero.
func (q *invalid) blank(t *Term, path ...string) bool {
	for i := 0; i <= len(path); i++ {
		for _, x := range q.vals(t, path[:i]...) {
			f := q.st.facts
			if f.eval(mkEq(x, tNil)) == 1 || f.eval(mkEq(x, mkStr(""))) == 1 || f.eval(mkEq(x, mkInt(0))) == 1 ||
				f.eval(mkEq(mkT(types.Typ[types.Int], "len", "", x), mkInt(0))) == 1 ||
				f.eval(mkT(types.Typ[types.Bool], "pure", "isnil", x)) == 1 {
				return true
			}
		}
	}
	return false
}

func (q *invalid) needs(t *Term, paths ...string) {
	for _, p := range paths {
		if p == "" {
			q.reason(q.blank(t))
			continue
		}
		q.reason(q.blank(t, strings.Split(p, ".")...))
	}
}

// in: the value is one of the listed ones.
func (q *invalid) in(xs []*Term, vals ...string) bool {
	for _, x := range xs {
		all := true
		for _, v := range vals {
			all = all && (q.st.facts.eval(mkEq(x, mkStr(v))) == -1 || q.st.facts.eval(foldEq(x, mkStr(v))) == -1)
		}
		if all {
			return true
		}
	}
	return false
}

func (q *invalid) equal(as, bs []*Term) {
	for _, a := range as {
		for _, b := range bs {
			q.reason(differ(q.st, a, b))
		}
	}
}

func (q *invalid) listed(ls, xs []*Term, fold bool) {
	for _, l := range ls {
		for _, x := range xs {
			q.reason(notMember(q.st, l, x, false) || notMember(q.st, l, x, fold))
		}
	}
}

func (q *invalid) lenIn(xs []*Term, lo, hi int64) {
	for _, x := range xs {
		for _, n := range []*Term{mkT(types.Typ[types.Int], "len", "", x), pureT(types.Typ[types.Int], "unicode/utf8.RuneCountInString", x)} {
			l, h, hasL, hasH := q.st.facts.bounds(n)
			q.reason(hasH && h < lo || hasL && l > hi)
			if lo == hi {
				q.must(mkEq(n, mkInt(lo)))
			}
		}
	}
}

// alive: the expiry is not in the past.
func (q *invalid) alive(xs []*Term) {
	for _, x := range xs {
		for _, now := range nows(q.st) {
			q.reason(q.st.facts.eval(mkLt(now, x)) == -1)
		}
	}
}

// started: the beginning is not in the future.
func (q *invalid) started(xs []*Term) {
	for _, x := range xs {
		for _, now := range nows(q.st) {
			q.reason(q.st.facts.eval(mkLt(now, x)) == 1)
		}
	}
}

// results are the objects the named calls returned.
func (q *invalid) results(name string) []*Term {
	var l []*Term
	for _, cl := range calls(q.st, name) {
		l = append(l, res(cl, 0))
	}
	return l
}

func (q *invalid) claims(tag string) []*Term {
	var l []*Term
	for _, d := range allDecoded(q.st) {
		if t := claim(d, tag); t.Op != "noclaim" {
			l = append(l, t)
		}
	}
	return l
}

// allDecoded lists the objects a successful decoding filled.
func allDecoded(st *State) []*Term {
	seen := map[*Term]bool{}
	var l []*Term
	var walk func(t *Term)
	done := map[*Term]bool{}
	walk = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.Op == "decoded" && t.T != nil && !seen[t] {
			seen[t] = true
			l = append(l, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for f := range st.facts.m {
		walk(f)
	}
	return l
}

type refusal struct {
	pkg, ctor, method string
	why               func(q *invalid)
	roots             func(c *Ctx) []*Root
}

var grantPayload = []struct{ grant, wrapper, field string }{
	{"GrantTypeAuthorizationCode", "TokenRequest_AuthorizationCode", "AuthorizationCode"},
	{"GrantTypeClientCredentials", "TokenRequest_ClientCredentials", "ClientCredentials"},
	{"GrantTypeDeviceCode", "TokenRequest_DeviceCode", "DeviceCode"},
	{"GrantTypeRefreshToken", "TokenRequest_RefreshToken", "RefreshToken"},
	{"GrantTypeTokenExchange", "TokenRequest_TokenExchange", "TokenExchange"},
}

func refuseToken(q *invalid) {
	c, req := q.c, q.r.Args[1]
	q.needs(req, "", "Issuer", "Client")
	if q.yes {
		return
	}
	var names []string
	for _, g := range grantPayload {
		n, _ := c.strOf("oidc", g.grant).str()
		names = append(names, n)
	}
	gt := q.vals(req, "GrantType")
	q.reason(q.in(gt, names...))
	cl := q.results(evClientGet)
	for _, g := range grantPayload {
		gr := c.strOf("oidc", g.grant)
		if !same(q.st, gt[0], gr) {
			continue
		}
		p := q.r.oneof(newState(), req, "Grant", g.wrapper, g.field)
		q.reason(isNil(q.st, q.r.oneof(q.st, req, "Grant", g.wrapper, g.field)))
		q.reason(isNil(q.st, p))
		if o := structOf(req).(*types.Named).Obj().Pkg().Scope().Lookup(g.wrapper); o != nil {
			for _, v := range q.vals(req, "Grant") {
				_, is := q.r.E.typeAssert(q.st, v, types.NewPointer(o.Type()))
				q.must(is)
			}
		}
		for _, x := range cl {
			q.reason(q.blank(x))
			q.listed(q.vals(x, "GrantTypes"), []*Term{gr}, true)
		}
		switch g.field {
		case "ClientCredentials":
			for _, x := range cl {
				for _, t := range q.vals(x, "ClientType") {
					q.reason(differ(q.st, t, c.constOf("api/oidc/client/v1", "ClientType_CLIENT_TYPE_CONFIDENTIAL")) && differ(q.st, t, c.constOf("api/oidc/client/v1", "ClientType_CLIENT_TYPE_CREDENTIALED")))
				}
			}
		case "AuthorizationCode":
			q.needs(p, "Code", "CodeVerifier", "RedirectUri")
			q.lenIn(q.vals(p, "Code"), 0, 1024)
			q.lenIn(q.vals(p, "CodeVerifier"), 43, 128)
			for _, s := range q.results(evCodeGet) {
				q.needs(s, "", "Request")
				q.equal(q.vals(s, "Request", "ClientId"), q.vals(req, "Client", "ClientId"))
				q.equal(q.vals(s, "Request", "RedirectUri"), q.vals(p, "RedirectUri"))
				for _, x := range cl {
					q.listed(q.vals(x, "RedirectUris"), q.vals(p, "RedirectUri"), false)
				}
				q.equal(q.vals(s, "Request", "CodeChallengeMethod"), []*Term{c.strOf("oidc", "CodeChallengeMethodSha256")})
				for _, ch := range q.vals(s, "Request", "CodeChallenge") {
					for _, v := range q.vals(p, "CodeVerifier") {
						for _, e := range pkceEq(q.st, ch, v) {
							q.must(e)
						}
					}
				}
			}
		case "DeviceCode":
			q.needs(p, "DeviceCode")
			for _, s := range q.results(evDevByCode) {
				q.needs(s, "", "Request", "Client", "Subject")
				q.alive(q.vals(s, "ExpiresAt"))
				q.equal(q.vals(s, "Status"), []*Term{c.constOf(apiSess, "DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED")})
				for _, x := range cl {
					q.equal(q.vals(s, "Request", "ClientId"), q.vals(x, "ClientId"))
				}
				q.equal(q.vals(s, "Request", "ClientId"), q.vals(req, "Client", "ClientId"))
				for _, x := range cl {
					q.equal(q.vals(s, "Client", "ClientId"), q.vals(x, "ClientId"))
				}
				q.equal(q.vals(s, "Client", "ClientId"), q.vals(req, "Client", "ClientId"))
			}
		case "RefreshToken", "TokenExchange":
			ty := c.constOf(apiTok, "TokenType_TOKEN_TYPE_REFRESH_TOKEN")
			if g.field == "TokenExchange" {
				q.needs(p, "SubjectTokenType", "SubjectToken")
				q.equal(q.vals(p, "SubjectTokenType"), []*Term{c.strOf("oidc", "TokenExchangeAccessTokenType")})
				ty = c.constOf(apiTok, "TokenType_TOKEN_TYPE_ACCESS_TOKEN")
			} else {
				q.needs(p, "RefreshToken")
			}
			for _, t := range q.results(evTokByValue) {
				q.needs(t, "", "Metadata")
				q.equal(q.vals(t, "Status"), []*Term{c.constOf(apiTok, "TokenStatus_TOKEN_STATUS_ACTIVE")})
				q.equal(q.vals(t, "TokenType"), []*Term{ty})
				q.alive(q.vals(t, "Metadata", "ExpiresAt"))
				if g.field == "RefreshToken" {
					for _, x := range cl {
						q.equal(q.vals(t, "Metadata", "ClientId"), q.vals(x, "ClientId"))
					}
					q.equal(q.vals(t, "Metadata", "ClientId"), q.vals(req, "Client", "ClientId"))
					continue
				}
				for _, want := range q.vals(req, "Scope") {
					for _, s := range q.states {
						q.reason(widens(q.st, fieldsOf(q.r.derefv(s, want)), fieldsOf(q.vals(t, "Metadata", "Scope")[0])))
					}
				}
			}
		}
	}
	for _, x := range q.results(evTokGen) {
		q.reason(isEmpty(q.st, x))
	}
}

// widens: an element of a is known not to be in b.
func widens(st *State, a, b *Term) bool {
	for f, pol := range st.facts.m {
		if pol && f.Op == "forall" && f.Args[0] == a {
			continue
		}
		for _, x := range elemsOf(f) {
			if isElemOf(x, a) && notMember(st, b, x, true) {
				return true
			}
		}
		if !pol && (f.Op == "forall" && f.Args[0] == a || f.Op == "pure" && f.S == "set.HasAll" && f.Args[0] == b && f.Args[1] == a) {
			return true
		}
	}
	return false
}

func elemsOf(t *Term) []*Term {
	var l []*Term
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		if t.Op == "idx" || t.Op == "sel" {
			l = append(l, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return l
}

func refuseAuthz(q *invalid) {
	c, req := q.c, q.r.Args[1]
	register := q.r.Name == pkgAuthz+".New->Register"
	q.needs(req, "", "Issuer", "Request")
	if register {
		q.needs(req, "Client")
		for _, u := range q.vals(req, "Request", "RequestUri") {
			q.reason(nonNil(q.st, u))
		}
	} else {
		q.needs(req, "Subject")
	}
	if q.yes {
		return
	}
	ars := q.vals(req, "Request")
	if !register {
		ars = append(ars, q.results(evReqGet)...)
	}
	for _, ar := range ars {
		q.needs(ar, "", "State", "Scope", "ResponseType", "ClientId", "RedirectUri", "CodeChallenge", "CodeChallengeMethod", "Audience", "Nonce")
		q.lenIn(q.vals(ar, "State"), 32, 1<<40)
		q.lenIn(q.vals(ar, "Nonce"), 8, 1<<40)
		q.lenIn(q.vals(ar, "CodeChallenge"), 43, 43)
		q.equal(q.vals(ar, "CodeChallengeMethod"), []*Term{c.strOf("oidc", "CodeChallengeMethodSha256")})
		q.reason(q.in(q.vals(ar, "ResponseType"), "code", "token"))
		modes := q.modes(ar)
		q.reason(q.in(modes, "query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt"))
		if register {
			q.equal(q.vals(ar, "ClientId"), q.vals(req, "Client", "ClientId"))
		}
		for _, cl := range q.results(evClientGet) {
			q.reason(q.blank(cl))
			q.listed(q.vals(cl, "GrantTypes"), []*Term{c.strOf("oidc", "GrantTypeAuthorizationCode")}, true)
			q.listed(q.vals(cl, "ResponseTypes"), q.vals(ar, "ResponseType"), true)
			q.listed(q.vals(cl, "RedirectUris"), q.vals(ar, "RedirectUri"), false)
			q.listed(q.vals(cl, "ResponseModes"), modes, true)
		}
	}
}

// modes are the values the response mode had, or stands for.
func (q *invalid) modes(ar *Term) []*Term {
	var l []*Term
	for _, s := range q.states {
		m := q.r.rd(s, ar, "ResponseMode")
		if isNil(q.st, m) {
			continue
		}
		l = append(l, q.r.derefv(s, m))
	}
	return l
}

func refuseDevice(q *invalid) {
	c, req := q.c, q.r.Args[1]
	q.needs(req, "", "Issuer")
	if strings.HasSuffix(q.r.Name, "Authorize") {
		q.needs(req, "ClientId")
		for _, cl := range q.results(evClientGet) {
			q.reason(q.blank(cl))
			q.listed(q.vals(cl, "GrantTypes"), []*Term{c.strOf("oidc", "GrantTypeDeviceCode")}, true)
		}
		return
	}
	q.needs(req, "UserCode", "Subject")
	for _, s := range q.results(evDevByUser) {
		q.needs(s, "", "Request", "Client")
		q.alive(q.vals(s, "ExpiresAt"))
		q.equal(q.vals(s, "Status"), []*Term{c.constOf(apiSess, "DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING")})
	}
}

func refuseHandled(q *invalid) {
	req := q.r.Args[1]
	q.needs(req, "", "Issuer", "Client", "Token")
	if strings.HasSuffix(q.r.Name, "Revoke") {
		for _, t := range q.results(evTokByValue) {
			q.equal(q.vals(t, "Metadata", "ClientId"), q.vals(req, "Client", "ClientId"))
		}
	}
}

func (q *invalid) anyBlank(ls []*Term) {
	for _, x := range ls {
		q.reason(q.blank(x))
	}
}

func refuseAssertion(typ string) func(q *invalid) {
	return func(q *invalid) {
		req := q.r.Args[1]
		q.needs(req, "", "ClientAssertionType", "ClientAssertion")
		for _, s := range q.states {
			q.equal([]*Term{q.r.derefv(s, q.r.rd(s, req, "ClientAssertionType"))}, []*Term{q.c.strOf("oidc", typ)})
			q.reason(isEmpty(q.st, q.r.derefv(s, q.r.rd(s, req, "ClientAssertion"))))
		}
		for _, d := range allDecoded(q.st) {
			tags := []string{"iss", "sub", "aud", "jti", "exp"}
			if tagField(d.T, "cnf") != nil {
				tags = []string{"iss", "sub", "exp", "cnf"}
			}
			for _, tag := range tags {
				if t := claim(d, tag); t.Op != "noclaim" {
					q.reason(q.blank(t))
				}
			}
			if t := claim(d, "cnf"); t.Op != "noclaim" {
				q.needs(t, "JWK")
			}
		}
		q.alive(q.claims("exp"))
		q.started(q.claims("nbf"))
		for _, cl := range q.results(evClientGet) {
			q.needs(cl, "", "Jwks")
		}
		for _, d := range allDecoded(q.st) {
			sub := claim(d, "sub")
			if tagField(d.T, "cnf") != nil {
				for _, pop := range allDecoded(q.st) {
					if pop != d && tagField(pop.T, "cnf") == nil && tagField(pop.T, "iss") != nil {
						q.reason(differ(q.st, claim(pop, "iss"), sub))
					}
				}
			} else if sub.Op != "noclaim" {
				q.reason(differ(q.st, claim(d, "iss"), sub))
			}
			if k := claim(d, "keys"); k.Op != "noclaim" {
				q.reason(q.blank(k) || exhausted(q.st, k))
			}
		}
		// the assertion is not made of the expected parts
		parsed, split := false, false
		for f := range q.st.facts.m {
			parsed = parsed || strings.Contains(f.String(), ".ParseSigned")
			split = split || contains(f, mkStr("~"))
		}
		q.reason(split && !parsed)
	}
}

// exhausted: a loop over the list, or over what was kept of it, went to its end.
func exhausted(st *State, l *Term) bool {
	var over func(t *Term) bool
	over = func(t *Term) bool {
		return t == l || (t.Op == "filt" || t.Op == "append") && over(t.Args[0])
	}
	for f, pol := range st.facts.m {
		if pol && (f.Op == "forall" || f.Op == "visited") && over(f.Args[0]) {
			return true
		}
	}
	return false
}

// passed tells why a key of a set was rightly passed over.
func passed(st *State, idx *Term) bool {
	at := func(t *Term) bool {
		if t == nil || t.Op != "ia" {
			return false
		}
		i := t.Args[1]
		for i != idx && i.Op == "fidx" {
			i = i.Args[1]
		}
		return i == idx
	}
	field := func(x *Term, n string) bool {
		return x.Op == "sel" && x.Args[0].Op == "fa" && x.Args[0].S == n && at(x.Args[0].Args[0])
	}
	for f, pol := range st.facts.m {
		if f.Op != "eq" {
			continue
		}
		for i, x := range f.Args {
			y := f.Args[1-i]
			switch {
			case pol && y == mkStr("enc") && field(x, "Use"), !pol && field(x, "KeyID"):
				return true
			case y == tNil && x.Op == "res" && len(x.Args[0].Args) > 1:
				call := x.Args[0]
				if !triesKey(call) {
					continue
				}
				if k := keyValue(call.Args[1]); at(wholeOf(k)) || k.Op == "sel" && at(k.Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

var refusals = []refusal{
	{pkgToken, "New", "Token", refuseToken, nil},
	{pkgToken, "New", "Introspect", refuseHandled, nil},
	{pkgToken, "New", "Revoke", refuseHandled, nil},
	{pkgAuthz, "New", "Authorize", refuseAuthz, nil},
	{pkgAuthz, "New", "Register", refuseAuthz, nil},
	{pkgDevice, "New", "Authorize", refuseDevice, nil},
	{pkgDevice, "New", "Validate", refuseDevice, nil},
	{pkgClientAuth, "PrivateKeyJWT", "Authenticate", refuseAssertion("AssertionTypeJWTBearer"), nil},
	{pkgClientAuth, "ClientAttestation", "Authenticate", refuseAssertion("AssertionTypeJWTClientAttestation"), nil},
	{pkgDPoP, "DefaultVerifier", "Verify", refuseProof, func(c *Ctx) []*Root {
		return []*Root{c.dpopVerify(false, nil), c.dpopVerify(false, []string{"WithTokenValue", "WithTokenConfirmation"})}
	}},
	{pkgDPoP, "DefaultProver", "Prove", func(q *invalid) {
		q.needs(q.r.Args[0], "")
		q.needs(q.r.Args[1], "")
		q.method(q.r.Args[0])
	}, nil},
	{pkgJARM, "Encoder", "Encode", func(q *invalid) {
		q.needs(q.r.Args[1], "")
		q.needs(q.r.Args[2], "", "ClientId", "Code", "State", "ExpiresIn")
	}, nil},
	{pkgJARM, "Decoder", "Decode", func(q *invalid) {
		q.needs(q.r.Args[1], "")
		q.needs(q.r.Args[2], "")
		for _, d := range allDecoded(q.st) {
			q.reason(differ(q.st, claim(d, "iss"), q.r.Ctor[0]) || differ(q.st, claim(d, "aud"), q.r.Args[1]))
		}
		q.alive(q.claims("exp"))
		q.reason(q.typed(q.c.strOf(pkgJARM, "HeaderType")))
	}, nil},
	{pkgJWSReq, "AuthorizationRequestEncoder", "Encode", func(q *invalid) { q.needs(q.r.Args[1], "") }, nil},
	{pkgJWSReq, "AuthorizationRequestDecoder", "Decode", func(q *invalid) { q.needs(q.r.Args[1], "") }, nil},
	{pkgPKCE, "Validate", "", func(q *invalid) {
		for _, a := range q.r.Args {
			q.needs(a, "")
		}
	}, nil},
	{pkgJWK, "ValidateToken", "", refuseKeySet, nil},
	{pkgJWK, "ValidateSignature", "", refuseKeySet, nil},
	{pkgSdkToken, "AccessToken", "Generate", refuseMeta(3600, "Audience", "Issuer", "Subject", "IssuedAt", "ExpiresAt", "NotBefore", "ClientId", "Scope"), nil},
	{pkgSdkToken, "RefreshToken", "Generate", refuseMeta(7*24*3600, "Audience", "Issuer", "Subject", "IssuedAt", "ExpiresAt", "NotBefore", "ClientId", "Scope"), nil},
	{pkgSdkToken, "ClientAssertion", "Generate", refuseMeta(3600, "Audience", "Issuer", "Subject", "IssuedAt", "ExpiresAt"), nil},
	{pkgSdkToken, "Introspection", "Generate", refuseMeta(0), nil},
	{pkgJWT, "DefaultVerifier", "Claims", refuseSigned, nil},
	{pkgJWT, "DefaultVerifier", "Verify", refuseSigned, nil},
	{pkgJWT, "EmbeddedKeyVerifier", "Claims", refuseSigned, nil},
	{pkgJWT, "EmbeddedKeyVerifier", "Verify", refuseSigned, nil},
	{"client", "HTTP", "", refuseReply, nil},
	{"client", "HTTP", "PublicKeys", refuseReply, nil},
	{"client", "HTTP", "ClientCredentials", refuseReply, nil},
	{"client", "HTTP", "Introspect", refuseReply, nil},
}

func refuseKey(q *invalid) {
	for _, k := range calls(q.st, evKeyProv) {
		key := res(k, 0)
		key.T = q.c.namedPtr("github.com/go-jose/go-jose/v4", "JSONWebKey")
		q.needs(key, "", "KeyID")
		q.reason(trueOrFalse(q.st, "IsPublic", key) == 1)
	}
}

// refuseSigned: the token has no header or key, or none of the keys signed it.
func refuseSigned(q *invalid) {
	for f, pol := range q.st.facts.m {
		s := f.String()
		switch {
		case f.Op == "eq" && pol && f.Args[0] == mkInt(0) && f.Args[1].Op == "len" && strings.HasSuffix(s, ".Headers))"),
			f.Op == "eq" && pol && f.Args[0] == tNil && strings.HasSuffix(f.Args[1].String(), ".JSONWebKey"),
			f.Op == "eq" && !pol && strings.HasSuffix(f.Args[0].String(), ".Algorithm") && strings.HasSuffix(f.Args[1].String(), ".Algorithm"),
			f.Op == "visited" && pol, f.Op == "eq" && pol && f.Args[0] == mkInt(0) && f.Args[1].Op == "len" && isKeys(f.Args[1].Args[0].T):
			q.yes = true
		}
	}
}

func hasOp(t *Term, op string) bool {
	if t.Op == op {
		return true
	}
	for _, a := range t.Args {
		if a.Op == op {
			return true
		}
	}
	return false
}

// refuseReply: the server answered with an error or an unusable document.
func refuseReply(q *invalid) {
	for f, pol := range q.st.facts.m {
		if !pol && f.Op == "eq" && (f.Args[0] == mkInt(200) || f.Args[1] == mkInt(200)) {
			q.yes = true
		}
	}
	for _, d := range allDecoded(q.st) {
		q.reason(q.blank(d))
		for _, n := range []string{"JSONWebKeySet", "JSONWebKeySet.Keys"} {
			if _, ok := structField(d.T, "JSONWebKeySet"); ok {
				q.needs(d, n)
			}
		}
		if _, ok := structField(d.T, "Expires"); ok {
			for _, x := range q.vals(d, "Expires") {
				if q.st.facts.eval(mkEq(x, mkInt(0))) == -1 {
					q.alive([]*Term{x})
				}
			}
		}
	}
}

func structField(t types.Type, name string) (*types.Var, bool) {
	st := structOf(&Term{T: t})
	if st == nil {
		return nil, false
	}
	u := st.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return u.Field(i), true
		}
	}
	return nil, false
}

// method: the name is one of a registered method.
func (q *invalid) method(m *Term) {
	q.reason(q.in([]*Term{m, pureT(m.T, "strings.ToUpper", m)}, httpMethods...))
}

// typed: a token has another type than the expected one.
func (q *invalid) typed(typ *Term) bool {
	for f, pol := range q.st.facts.m {
		if !pol && f.Op == "eq" && (f.Args[0] == typ || f.Args[1] == typ) {
			return true
		}
	}
	return false
}

func refuseProof(q *invalid) {
	c, r, st := q.c, q.r, q.st
	for i := 1; i <= 3; i++ {
		q.needs(r.Args[i], "")
	}
	q.method(r.Args[1])
	for _, k := range calls(st, evTokType) {
		q.reason(differ(st, res(k, 0), c.strOf(pkgDPoP, "HeaderType")))
	}
	for _, k := range append(calls(st, evTokKey), calls(st, evVerParse)...) {
		q.reason(q.blank(res(k, 0)))
	}
	for _, k := range calls(st, evDPoPExists) {
		q.reason(st.facts.eval(res(k, 0)) == 1)
	}
	q.reason(trueFacts(st, func(f *Term) bool {
		return f.Op == "eq" && (f.Args[0] == mkStr("") && contains(f.Args[1], r.Args[2]) || f.Args[1] == mkStr("") && contains(f.Args[0], r.Args[2]))
	}))
	for _, cs := range allDecoded(st) {
		q.reason(differ(st, claim(cs, "htm"), r.Args[1]))
		htu, ath := claim(cs, "htu"), claim(cs, "ath")
		for f, pol := range st.facts.m {
			if pol || f.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				if f.Args[i] == htu && contains(f.Args[1-i], r.Args[2]) {
					q.yes = true
				}
			}
		}
		for _, now := range nows(st) {
			for _, p := range [][2]*Term{{claim(cs, "iat"), now}, {now, claim(cs, "iat")}} {
				if d, ok := st.facts.diffUpper(p[0], p[1]); ok && d < -10 {
					q.yes = true
				}
			}
		}
		q.reason(q.blank(claim(cs, "jti")))
		if len(r.Evs) > 0 && strings.Contains(q.tag, "WithTokenValue") {
			q.reason(q.blank(ath))
			val := ath
			if ath.T != nil {
				if _, ok := ath.T.Underlying().(*types.Pointer); ok {
					val = r.derefv(st, ath)
				}
			}
			q.reason(differ(st, val, b64raw(mkHsum("sha256", nil, optValue("WithTokenValue")))))
			for _, k := range calls(st, evTokThumb) {
				q.reason(differ(st, res(k, 0), optValue("WithTokenConfirmation")))
			}
		}
	}
}

func refuseKeySet(q *invalid) {
	q.needs(q.r.Args[0], "", "Keys")
	for _, k := range q.vals(q.r.Args[0], "Keys") {
		q.reason(exhausted(q.st, k))
	}
}

// refuseMeta: the metadata of a token must be complete and consistent, and a
// lifetime of the given number of seconds must be possible.
func refuseMeta(life int64, required ...string) func(q *invalid) {
	return func(q *invalid) {
		t := q.r.Args[1]
		q.needs(t, "", "TokenId", "Metadata")
		for _, f := range required {
			q.needs(t, "Metadata."+f)
		}
		if life == 0 {
			return
		}
		if !contains2(required, "NotBefore") {
			q.equal(q.vals(t, "Metadata", "Issuer"), q.vals(t, "Metadata", "Subject"))
		}
		meta := q.vals(t, "Metadata")[0]
		for f, pol := range q.st.facts.m {
			if pol || f.Op != "eq" || f.Args[0] != tNil || f.Args[1].Op != "pure" {
				continue
			}
			v := f.Args[1]
			switch v.S {
			case ozzo + "ValidateStruct":
				ok := true
				for _, x := range v.Args[1:] {
					ok = ok && x.Op == "pure" && x.S == ozzo+"Field" && q.metaRules(meta, x, life, required)
				}
				q.reason(ok)
			}
		}
	}
}

// metaRules tells whether the validation of a field only refuses what is not
// a valid token.
func (q *invalid) metaRules(meta, field *Term, life int64, required []string) bool {
	name := ""
	a := stripIface(field.Args[0])
	if a.Op == "fa" {
		name = a.S[strings.LastIndex(a.S, ".")+1:]
	}
	rd := func(n string) *Term { return q.r.rd(newState(), meta, n) }
	for _, x := range field.Args[1:] {
		x = stripIface(x)
		var bound *Term
		if x.Op == "pure" && (x.S == ozzo+"Min" || x.S == ozzo+"Max") {
			bound = stripIface(x.Args[0])
		}
		switch {
		case strings.HasSuffix(x.S, ".Required"):
			if !contains2(required, name) {
				return false
			}
		case strings.HasSuffix(x.S, ".PrintableASCII"), strings.HasSuffix(x.S, "/is.URL"):
			if !contains2([]string{"Audience", "Issuer", "Subject", "ClientId", "Scope"}, name) {
				return false
			}
		case bound != nil && x.S == ozzo+"Min":
			if n, ok := bound.int(); !(ok && n <= 0) && !(bound == rd("IssuedAt") && name != "IssuedAt") {
				return false
			}
		case bound != nil && name == "IssuedAt":
			ok := false
			for _, now := range nows(q.st) {
				d, k := q.st.facts.diffUpper(now, bound)
				ok = ok || k && d <= 0
			}
			if !ok {
				return false
			}
		case bound != nil && name == "NotBefore":
			if bound != rd("ExpiresAt") {
				return false
			}
		case bound != nil && name == "ExpiresAt":
			if d, ok := q.st.facts.diffUpper(rd("IssuedAt"), bound); !ok || d > -life {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// triesKey: the call verifies a signature with one key of a set; another may fit.
func triesKey(call *Term) bool {
	n := call.S
	if call.Op == "call" {
		n = callName(call)
	}
	return (n == evJWTClaims || strings.HasSuffix(n, "v4.JSONWebSignature).Verify")) && len(call.Args) > 1 && elemList(keyValue(call.Args[1])) != nil
}

func isKeys(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(s.Elem().String(), "/v4.JSONWebKey")
}

// keysTried: a search of a key set passes over a key only if it cannot have signed the token.
func (c *Ctx) keysTried(x refusal, name string) {
	see := func(st *State, idx *Term, kept bool, pos string) {
		c.need(kept || passed(st, idx), "tried", name, pos, "a key of the set is passed over without a reason: %s", describe(st))
	}
	c.rootWith(x.pkg, x.ctor, x.method, nil, nil, func(e *Engine) {
		e.OnBack = func(st *State, fr *frame, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) {
			_, i, l := headTest(h)
			if l == nil || !isKeys(l.Type()) {
				return
			}
			kept := false
			for ph, v := range vals {
				if isKeys(ph.Type()) && v != e.BackFrom.regs[ph] {
					kept = true
				}
			}
			see(st, e.iterVal(fr, st, h, i), kept, c.p.pos(h.Instrs[len(h.Instrs)-1].Pos()))
		}
		e.OnSkip = func(st *State, at *Term, call ssa.CallInstruction) {
			if isKeys(call.Common().Args[0].Type()) {
				see(st, at.Args[1], false, c.p.pos(call.Pos()))
			}
		}
	})
}

func init() {
	register("C65", "valid input is refused only for a stated reason", "Every outcome of an operation that fails without a failed call must contradict one of the conditions of a valid input.", func(c *Ctx) {
		all := refusals
		for _, p := range []string{pkgJWT, pkgCWT} {
			for _, n := range signerCtors(c, p) {
				all = append(all, refusal{p, n, "Serialize", refuseKey, nil})
			}
		}
		for _, x := range all {
			name := x.pkg + "." + x.ctor
			if x.method != "" {
				name += "->" + x.method
			}
			var rs []*Root
			if x.roots != nil {
				rs = x.roots(c)
			} else {
				rs = []*Root{c.root(x.pkg, x.ctor, x.method)}
			}
			if x.pkg == pkgJWK || x.method == "Claims" {
				c.keysTried(x, name)
			}
			n := 0
			for i, r := range rs {
				var tag string
				if i > 0 {
					tag = "WithTokenValue"
				}
				for _, o := range r.Outs {
					last := o.res[len(o.res)-1]
					if o.st.facts.eval(mkEq(last, tNil)) == 1 || failedBut(o.st, triesKey) != nil {
						continue
					}
					n++
					q := &invalid{c: c, r: r, st: o.st, states: []*State{newState(), o.st}, tag: tag}
					for _, p := range append(append([]*Term{}, r.Ctor...), r.Args...) {
						q.reason(q.blank(p) && !isStringType(p.T))
					}
					q.reason(trueFacts(o.st, func(f *Term) bool {
						// a call that did not fail returned nothing
						none := mkStr("")
						if f.Op != "eq" || f.Args[0] != tNil && f.Args[1] != tNil && f.Args[0] != none && f.Args[1] != none {
							return false
						}
						for _, a := range f.Args {
							if a.Op == "res" && a.T != nil && a.T.String() != "error" {
								return true
							}
						}
						return false
					}))
					if !q.yes {
						x.why(q)
					}
					c.need(q.yes, "reason", name, outPos(r, o), "a valid request is refused: %s", describe(o.st))
				}
			}
			c.need(n > 0, "refuses", name, c.p.pos(rs[0].Fn.Pos()), "the operation refuses nothing by itself")
		}
	})
}
