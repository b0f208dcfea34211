package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ianaValues are the registered protocol values (RFC 6749, 7521, 7522, 7523,
// 7636, 8628, 8693, OpenID Connect, JARM and attestation based client
// authentication) by the name under which the code uses them.
var ianaValues = map[string]string{
	"GrantTypeAuthorizationCode":        "authorization_code",
	"GrantTypeClientCredentials":        "client_credentials",
	"GrantTypeDeviceCode":               "urn:ietf:params:oauth:grant-type:device_code",
	"GrantTypeRefreshToken":             "refresh_token",
	"GrantTypeJWTBearer":                "urn:ietf:params:oauth:grant-type:jwt-bearer",
	"GrantTypeSAML2Bearer":              "urn:ietf:params:oauth:grant-type:saml2-bearer",
	"GrantTypeTokenExchange":            "urn:ietf:params:oauth:grant-type:token-exchange",
	"ScopeOpenID":                       "openid",
	"ScopeOfflineAccess":                "offline_access",
	"CodeChallengeMethodSha256":         "S256",
	"AssertionTypeJWTBearer":            "urn:ietf:params:oauth:client-assertion-type:jwt-bearer",
	"AssertionTypeJWTClientAttestation": "urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation",
	"ResponseTypeCode":                  "code",
	"ResponseTypeToken":                 "token",
	"ResponseModeQuery":                 "query",
	"ResponseModeFragment":              "fragment",
	"ResponseModeFormPost":              "form_post",
	"ResponseModeJWT":                   "jwt",
	"ResponseModeQueryJWT":              "query.jwt",
	"ResponseModeFragmentJWT":           "fragment.jwt",
	"ResponseModeFormPOSTJWT":           "form_post.jwt",
	"AuthMethodNone":                    "none",
	"AuthMethodClientSecretPost":        "client_secret_post",
	"AuthMethodClientSecretBasic":       "client_secret_basic",
	"AuthMethodPrivateKeyJWT":           "private_key_jwt",
	"AuthMethodClientAttestationJWT":    "attest_jwt_client_auth",
	"ApplicationTypeServerSideWeb":      "web",
	"ApplicationTypeClientSideWeb":      "browser",
	"ApplicationTypeNative":             "native",
	"ApplicationTypeService":            "service",
	"ApplicationTypeDevice":             "device",
	"SubjectTypePublic":                 "public",
	"SubjectTypePairwise":               "pairwise",
	"TokenExchangeAccessTokenType":      "urn:ietf:params:oauth:token-type:access_token",
	"TokenExchangeRefreshTokenType":     "urn:ietf:params:oauth:token-type:refresh_token",
	"TokenExchangeIDTokenType":          "urn:ietf:params:oauth:token-type:id_token",
	"TokenExchangeSAML1Type":            "urn:ietf:params:oauth:token-type:saml1",
	"TokenExchangeSAML2Type":            "urn:ietf:params:oauth:token-type:saml2",
	"TokenExchangeJWTType":              "urn:ietf:params:oauth:token-type:jwt",
	"PromptNone":                        "none",
	"PromptLogin":                       "login",
	"PromptConsent":                     "consent",
	"PromptSelectAccount":               "select_account",
}

// errorCodes are the registered error codes by builder.
var errorCodes = map[string]string{
	"ServerError":                    "server_error",
	"InvalidRequest":                 "invalid_request",
	"InvalidScope":                   "invalid_scope",
	"InvalidGrant":                   "invalid_grant",
	"InvalidClient":                  "invalid_client",
	"UnauthorizedClient":             "unauthorized_client",
	"UnsupportedGrantType":           "unsupported_grant_type",
	"InvalidToken":                   "invalid_token",
	"AuthorizationPending":           "authorization_pending",
	"Slowdown":                       "slow_down",
	"AccessDenied":                   "access_denied",
	"TokenExpired":                   "expired_token",
	"InvalidDPoPProof":               "invalid_dpop_proof",
	"InvalidRedirectURI":             "invalid_redirect_uri",
	"InvalidClientMetadata":          "invalid_client_metadata",
	"InvalidSoftwareStatement":       "invalid_software_statement",
	"UnapprovedSoftwareStatement":    "unapproved_software_statement",
	"InvalidTarget":                  "invalid_target",
	"InsufficientUserAuthentication": "insufficient_user_authentication",
}

// profileEntry is what the strict profile allows a kind of application.
type profileEntry struct{ grants, responses, auth []string }

var strictProfile = map[string]*profileEntry{
	"web":     {[]string{"authorization_code"}, []string{"code"}, []string{"private_key_jwt"}},
	"native":  {[]string{"authorization_code", "refresh_token"}, []string{"code"}, []string{"private_key_jwt"}},
	"device":  {[]string{"urn:ietf:params:oauth:grant-type:device_code", "refresh_token"}, []string{"code"}, []string{"private_key_jwt"}},
	"service": {[]string{"client_credentials"}, []string{"token"}, []string{"private_key_jwt"}},
}

// flow runs a sequence of calls, each on the result of the one before.
type flow struct {
	c    *Ctx
	e    *Engine
	outs []*Outcome
	last *ssa.Function
	args []*Term
}

func (c *Ctx) flow(pkg, ctor string) *flow {
	f := c.p.fn(pkg, ctor)
	if f == nil {
		bail("anchor %s.%s not found", pkg, ctor)
	}
	rootCount++
	paramScope = fmt.Sprintf("%s.%s#%d", pkg, ctor, rootCount)
	x := &flow{c: c, e: newEngine(c.p), last: f}
	a := paramTerms(f, 0, "p")
	x.e.pin = append(x.e.pin, a...)
	x.outs = x.e.run(f, x.e.ctx(0, nil, f), a, nil, newState(), nil)
	return x
}

// again runs a function after what ran before, in the same memory.
func (x *flow) again(pkg, name string) {
	f := x.c.p.fn(pkg, name)
	if f == nil {
		bail("anchor %s.%s not found", pkg, name)
	}
	var outs []*Outcome
	for _, o := range x.outs {
		outs = append(outs, x.e.run(f, x.e.ctx(0, nil, f), paramTerms(f, 0, "q"), nil, o.st, nil)...)
	}
	x.outs = outs
}

// call invokes a method of the first result.
func (x *flow) call(method string, args ...*Term) {
	var outs []*Outcome
	for _, o := range x.outs {
		v := o.st.facts.find(o.res[0])
		if v.Op == "nil" {
			continue
		}
		recv := v
		if v.Op == "iface" {
			recv = v.Args[0]
		}
		t := v.T
		if v.Op == "alloc" {
			t = types.NewPointer(t)
		}
		var m *ssa.Function
		if t != nil {
			m = x.c.p.method(t, method, nil)
		}
		if m == nil {
			bail("method %s of %s not found", method, v)
		}
		x.last = m
		if args == nil {
			args = paramTerms(m, 1, "a")
		}
		x.args = args
		x.e.pin = append(x.e.pin, recv)
		x.e.pin = append(x.e.pin, args...)
		outs = append(outs, x.e.run(m, x.e.ctx(0, nil, m), append([]*Term{recv}, args...), nil, o.st, nil)...)
	}
	x.outs = outs
}

func (x *flow) done() {
	for k := range x.e.Funcs {
		x.c.funcs[k] = true
	}
	for k := range x.e.Sites {
		x.c.sites[k] = true
	}
	for k := range x.e.UsedSum {
		x.c.used[k] = true
	}
}

// strList reads a list of known strings.
func strList(e *Engine, st *State, t *Term) ([]string, bool) {
	l := e.contentOf(st, t)
	switch l.Op {
	case "nil":
		return nil, true
	case "arr":
		var r []string
		for _, a := range l.Args {
			s, ok := a.str()
			if !ok {
				return nil, false
			}
			r = append(r, s)
		}
		return r, true
	}
	return nil, false
}

func sameSet(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := map[string]bool{}
	for _, x := range b {
		if !m[x] {
			return false
		}
		n[x] = true
	}
	return len(m) == len(n)
}

func init() {
	register("C56", "list helpers", `The bodies of the list helpers are analysed without the contracts the engine uses for them elsewhere.`, func(c *Ctx) {
		checkLemmas(c)
	})

	register("C58", "protocol values", "Every named protocol value used by the code is compared with its registered value.", func(c *Ctx) {
		sc := c.p.scope("oidc")
		if sc == nil {
			bail("package oidc not found")
		}
		var names []string
		for n := range ianaValues {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			o, ok := sc.Lookup(n).(*types.Const)
			if !ok {
				c.need(false, "value", n, "-", "the protocol value is no longer a constant")
				continue
			}
			got := ""
			if o.Val().Kind() == constant.String {
				got = constant.StringVal(o.Val())
			}
			c.need(got == ianaValues[n], "value", "oidc."+n, c.p.pos(o.Pos()), "the value is %q, registered is %q", got, ianaValues[n])
		}
		// values of one vocabulary are distinct
		seen := map[string]string{}
		for _, n := range sc.Names() {
			o, ok := sc.Lookup(n).(*types.Const)
			if !ok || o.Val().Kind() != constant.String {
				continue
			}
			fam := vocabulary(n)
			k := fam + "\x00" + constant.StringVal(o.Val())
			c.need(seen[k] == "", "distinct", "oidc."+n, c.p.pos(o.Pos()), "the value is the one of %s", seen[k])
			seen[k] = n
		}
		c.floor("value", len(ianaValues), "protocol values")
	})

	register("C54", "protocol errors", "Every error builder is followed through every order of its setters to the message it builds.", func(c *Ctx) {
		const pkg = "sdk/rfcerrors"
		var names []string
		for n := range errorCodes {
			names = append(names, n)
		}
		sort.Strings(names)
		str := types.Typ[types.String]
		for _, n := range names {
			for _, seq := range [][]string{{}, {"State"}, {"Description"}, {"State", "Description"}, {"Description", "State"}, {"ErrorURI"}, {"Resource"}, {"Resource", "State", "ErrorURI"}, {"Err"}} {
				x := c.flow(pkg, n)
				args := map[string]*Term{}
				for _, m := range seq {
					args[m] = mkT(str, "param", m+"\x00"+paramScope)
					x.call(m, args[m])
				}
				x.call("Build", []*Term{}...)
				x.done()
				what := n
				for _, m := range seq {
					what += "." + m
				}
				pos := c.p.pos(c.p.fn(pkg, n).Pos())
				c.need(len(x.outs) > 0, "built", what, pos, "no message is built")
				for _, o := range x.outs {
					v := o.res[0]
					if !c.need(o.st.facts.find(v).Op == "alloc", "built", what, pos, "the result is not a new message") {
						continue
					}
					f := func(name string) *Term { return rdField(x.e, o.st, v, name) }
					code, _ := o.st.facts.find(f("Err")).str()
					if own := args["Err"]; own != nil {
						c.need(same(o.st, f("Err"), own), "code", what, pos, "the error code is not the given one")
					} else {
						c.need(code == errorCodes[n], "code", what, pos, "the error code is %q, registered is %q", code, errorCodes[n])
					}
					if d := args["Description"]; d != nil {
						c.need(same(o.st, f("ErrorDescription"), d), "description", what, pos, "the description is not the given one")
					} else {
						s, ok := f("ErrorDescription").str()
						c.need(ok && s != "", "description", what, pos, "the error has no description")
					}
					for part, fn := range map[string]string{"State": "State", "ErrorURI": "ErrorUri", "Resource": "Resource"} {
						v := o.st.facts.find(f(fn))
						key := strings.ToLower(part)
						if s := args[part]; s != nil {
							if isNil(o.st, v) {
								c.need(isEmpty(o.st, s), key, what, pos, "the %s is missing although it was given", part)
							} else {
								c.need(same(o.st, x.e.load(o.st, v, str), s), key, what, pos, "the %s is not the given one", part)
							}
						} else {
							c.need(isNil(o.st, v), key, what, pos, "the error carries a %s that was not given", part)
						}
					}
				}
			}
		}
		c.floor("code", 9*len(errorCodes), "messages")
		// what one caller sets is not seen by the next one
		for _, n := range names {
			pos := c.p.pos(c.p.fn(pkg, n).Pos())
			x := c.flow(pkg, n)
			for _, m := range []string{"State", "Description", "ErrorURI", "Resource", "Err"} {
				x.call(m, mkT(str, "param", m+"\x00"+paramScope))
			}
			x.call("Build", []*Term{}...)
			x.again(pkg, n)
			x.call("Build", []*Term{}...)
			x.done()
			c.need(len(x.outs) > 0, "fresh", n, pos, "no message is built")
			for _, o := range x.outs {
				v := o.res[0]
				f := func(name string) *Term { return o.st.facts.find(rdField(x.e, o.st, v, name)) }
				code, _ := f("Err").str()
				d, ok := f("ErrorDescription").str()
				c.need(code == errorCodes[n] && ok && d != "" && isNil(o.st, f("State")) && isNil(o.st, f("ErrorUri")) && isNil(o.st, f("Resource")), "fresh", n, pos, "a message carries what an earlier caller set on its own")
			}
		}
		// every other builder of the package uses a code of its own
		codes := map[string]string{}
		for n, v := range errorCodes {
			codes[v] = n
		}
		sc := c.p.scope(pkg)
		for _, n := range sc.Names() {
			fn, ok := sc.Lookup(n).(*types.Func)
			if !ok || !fn.Exported() || errorCodes[n] != "" {
				continue
			}
			sig := fn.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !strings.HasSuffix(sig.Results().At(0).Type().String(), "ErrorBuilder") {
				continue
			}
			x := c.flow(pkg, n)
			x.call("Build", []*Term{}...)
			for _, o := range x.outs {
				code, ok := o.st.facts.find(rdField(x.e, o.st, o.res[0], "Err")).str()
				c.need(ok && code != "" && codes[code] == "", "new", n, c.p.pos(fn.Pos()), "the error code %q is empty or the one of %s", code, codes[code])
				codes[code] = n
			}
		}
	})

	register("C55", "strict profile", "The strict profile is queried for every application type and its answers are read as sets.", func(c *Ctx) {
		const pkg = "server/profile"
		pos := "-"
		ask := func(kind *Term) *flow {
			x := c.flow(pkg, "Strict")
			x.call("ApplicationType", kind)
			pos = c.p.pos(x.last.Pos())
			return x
		}
		kinds := []string{"web", "browser", "native", "service", "device"}
		for _, k := range kinds {
			want := strictProfile[k]
			x := ask(mkStr(k))
			x.done()
			c.need(len(x.outs) > 0, "known", k, pos, "no answer")
			for _, o := range x.outs {
				has := o.st.facts.eval(o.res[1])
				if want == nil {
					c.need(has == -1, "known", k, pos, "the profile supports %s applications", k)
					continue
				}
				c.need(has == 1, "known", k, pos, "the profile does not support %s applications", k)
			}
			if want == nil {
				continue
			}
			for _, q := range []struct {
				method string
				want   []string
			}{{"GrantTypesSupported", want.grants}, {"ResponseTypesSupported", want.responses}, {"TokenEndpointAuthMethodsSupported", want.auth}, {"DefaultScopes", nil}} {
				x := ask(mkStr(k))
				x.call(q.method, []*Term{}...)
				x.done()
				for _, o := range x.outs {
					l, ok := strList(x.e, o.st, o.res[0])
					c.need(ok && sameSet(l, q.want), "lists", k+"."+q.method, c.p.pos(x.last.Pos()), "the profile allows %v, expected %v", l, q.want)
				}
				c.need(len(x.outs) > 0, "lists", k+"."+q.method, pos, "no answer")
			}
		}
		// any other application type
		other := mkT(types.Typ[types.String], "param", "kind\x00profile")
		x := ask(other)
		x.done()
		for _, o := range x.outs {
			st := o.st.clone()
			if !st.facts.assume(o.res[1], true) {
				continue
			}
			known := false
			for k := range strictProfile {
				if same(st, other, mkStr(k)) {
					known = true
				}
			}
			if h := o.res[1]; h.Op == "has" && h.Args[0].Op == "mkmap" {
				// the keys of a table that is never changed
				_, mixed := o.st.mem[h.Args[0]]
				known = !mixed
				for a := range o.st.mem {
					if a.Op == "mapent" && a.Args[0] == h.Args[0] {
						k, ok := a.Args[1].str()
						known = known && ok && strictProfile[k] != nil
					}
				}
			}
			c.need(known, "other", "ApplicationType", pos, "the profile answers for an application type that it does not define")
		}
		c.floor("lists", 12, "answers")
	})
}

// vocabulary is the prefix that groups constants.
func vocabulary(n string) string {
	for _, p := range []string{"GrantType", "Scope", "CodeChallengeMethod", "AssertionType", "ResponseType", "ResponseMode", "AuthMethod", "ApplicationType", "SubjectType", "TokenExchange", "Prompt"} {
		if strings.HasPrefix(n, p) {
			return p
		}
	}
	return n
}

func isEmpty(st *State, s *Term) bool { return st.facts.eval(mkEq(s, mkStr(""))) == 1 }
