package main

import (
	"fmt"
	"go/types"
	"strings"
)

// authzOp gathers what the rules on authorization requests refer to.
type authzOp struct {
	*Root
	c   *Ctx
	req *Term
}

func (c *Ctx) authzOp(method string) *authzOp {
	r := c.root(pkgAuthz, "New", method)
	return &authzOp{Root: r, c: c, req: r.Args[1]}
}

// initial reads a field as it was when the operation was called.
func (a *Root) initial(t *Term, names ...string) *Term { return a.rd(newState(), t, names...) }

// persisted lists the places where an authorization request is written to
// storage, with the request.
type persisted struct {
	*EvRec
	r  *Root
	ar *Term
}

func (c *Ctx) persistedRequests() []persisted {
	var l []persisted
	a := c.authzOp("Authorize")
	for _, ev := range a.evs(evCodeRegister) {
		l = append(l, persisted{ev, a.Root, a.rd(ev.St, ev.Args[4], "Request")})
	}
	p := c.authzOp("Register")
	for _, ev := range p.evs(evReqRegister) {
		l = append(l, persisted{ev, p.Root, ev.Args[4]})
	}
	return l
}

// wordsOf lists the words of a scope value.
func wordsOf(s *Term) *Term {
	if s.Op == "pure" && s.S == "strings.Join" && s.Args[1] == mkStr(" ") {
		return s.Args[0]
	}
	return fieldsOf(s)
}

func init() {
	register("C05", "an authorization request is fully validated before it is persisted", "Every persistence of an authorization request (as a code session or as a pushed request) is checked for the conditions established on each abstract path leading to it.", func(c *Ctx) {
		modes := map[string]bool{}
		for _, n := range []string{"ResponseModeQuery", "ResponseModeFragment", "ResponseModeFormPost", "ResponseModeFormPOSTJWT", "ResponseModeQueryJWT", "ResponseModeFragmentJWT"} {
			s, _ := c.strOf("oidc", n).str()
			modes[s] = true
		}
		n := map[string]int{}
		for _, ev := range c.persistedRequests() {
			r, st, pos, ar := ev.r, ev.St, ev.Pos, ev.ar
			n[ev.Name]++
			f := func(name string) *Term { return r.rd(st, ar, name) }
			c.need(lenAtLeast(st, f("State"), 32), "state", ev.site(), pos, "a state shorter than 32 characters is accepted")
			c.need(lenAtLeast(st, f("Nonce"), 8), "nonce", ev.site(), pos, "a nonce shorter than 8 characters is accepted")
			for _, x := range []string{"ResponseType", "ClientId", "RedirectUri", "Audience"} {
				c.need(nonEmpty(st, f(x)), "present."+x, ev.site(), pos, "a request without %s is accepted", x)
			}
			c.need(nonEmpty(st, r.initial(ar, "Scope")), "present.Scope", ev.site(), pos, "a request without scope is accepted")
			c.need(same(st, f("CodeChallengeMethod"), c.strOf("oidc", "CodeChallengeMethodSha256")), "pkce.method", ev.site(), pos, "a code_challenge_method other than S256 is accepted")
			c.need(lenAtLeast(st, f("CodeChallenge"), 43) && lenAtMost(st, f("CodeChallenge"), 43), "pkce.challenge", ev.site(), pos, "a code_challenge that is not 43 characters long is accepted")
			p1 := mk("res", "1", mk("pure", "net/url.ParseRequestURI", f("RedirectUri")))
			c.need(isNil(st, p1), "redirect.syntax", ev.site(), pos, "a redirect_uri that does not parse is accepted")
			rt := f("ResponseType")
			okrt := same(st, rt, c.strOf("oidc", "ResponseTypeCode")) || same(st, rt, c.strOf("oidc", "ResponseTypeToken"))
			c.need(okrt, "response-type", ev.site(), pos, "an unsupported response_type is accepted")
			var cl *Term
			for _, g := range calls(st, evClientGet) {
				if okCall(st, g, 1) && same(st, g.Args[2], f("ClientId")) {
					cl = res(g, 0)
				}
			}
			if !c.need(cl != nil, "client", ev.site(), pos, "a request is persisted without a successful lookup of its client") {
				continue
			}
			c.need(member(st, r.rd(st, cl, "GrantTypes"), c.strOf("oidc", "GrantTypeAuthorizationCode"), true), "client.grant", ev.site(), pos, "a client that did not register the authorization_code grant is accepted")
			c.need(member(st, r.rd(st, cl, "ResponseTypes"), rt, true), "client.response-type", ev.site(), pos, "a response_type the client did not register is accepted")
			c.need(member(st, r.rd(st, cl, "RedirectUris"), f("RedirectUri"), false), "client.redirect", ev.site(), pos, "a redirect_uri that is not exactly one of the client's registered URIs is accepted")
			mode := f("ResponseMode")
			if isNil(st, mode) {
				continue
			}
			c.need(nonNil(st, mode), "mode.known", ev.site(), pos, "the response_mode is not examined")
			mv := r.derefv(st, mode)
			var vs []*Term
			for _, v := range st.facts.values(mv) {
				vs = append(vs, v)
			}
			ok := len(vs) > 0
			for _, v := range vs {
				s, _ := v.str()
				ok = ok && modes[s]
			}
			c.need(ok, "mode.supported", ev.site(), pos, "an unsupported (or unexpanded) response_mode is accepted")
			c.need(member(st, r.rd(st, cl, "ResponseModes"), mv, true), "mode.registered", ev.site(), pos, "a response_mode the client did not register is accepted")
			// the jwt alias becomes the mode of the response type
			if im := r.initial(ar, "ResponseMode"); same(st, r.E.load(newState(), im, mv.T), c.strOf("oidc", "ResponseModeJWT")) {
				want := c.strOf("oidc", "ResponseModeQueryJWT")
				if same(st, rt, c.strOf("oidc", "ResponseTypeToken")) {
					want = c.strOf("oidc", "ResponseModeFragmentJWT")
				}
				c.need(same(st, mv, want), "mode.alias", ev.site(), pos, "the jwt response mode is not expanded to the mode of the response type")
			}
		}
		c.need(n[evCodeRegister] > 0 && n[evReqRegister] > 0, "anchor", "authorization", "-", "the operations persisting authorization requests were not found")
		c.floor("client.redirect", 4, "persisted authorization requests")
		c.floor("mode.registered", 2, "persisted authorization requests with a response_mode")
	})

	register("C06", "offline_access is only kept when the user is asked for consent", "At every persistence of an authorization request the scope value on the abstract heap is compared with the requested scope and the prompt.", func(c *Ctx) {
		offline, openid, consent := c.strOf("oidc", "ScopeOfflineAccess"), c.strOf("oidc", "ScopeOpenID"), c.strOf("oidc", "PromptConsent")
		for _, ev := range c.persistedRequests() {
			r, st, pos := ev.r, ev.St, ev.Pos
			orig := r.initial(ev.ar, "Scope")
			scope := r.rd(st, ev.ar, "Scope")
			words := wordsOf(scope)
			base := words
			stripped := false
			for base.Op == "pure" && base.S == "removeFold" {
				c.need(base.Args[1] == offline, "only-offline", ev.site(), pos, "another scope than offline_access is dropped")
				base, stripped = base.Args[0], true
			}
			c.need(same(st, base, fieldsOf(orig)) || scope == orig, "preserved", ev.site(), pos, "the persisted scope is not derived from the requested one")
			prompt := r.rd(st, ev.ar, "Prompt")
			asked := nonNil(st, prompt) && same(st, r.derefv(st, prompt), consent)
			if notMember(st, fieldsOf(orig), openid, true) {
				c.need(scope == orig || words == fieldsOf(orig), "not-openid", ev.site(), pos, "the scope of a plain OAuth request is changed")
				continue
			}
			c.need(asked || stripped || notMember(st, words, offline, true), "offline", ev.site(), pos, "offline_access survives although the prompt is not consent")
			c.need(!stripped || member(st, fieldsOf(orig), openid, true), "not-openid", ev.site(), pos, "the scope of a plain OAuth request may be changed")
			if asked {
				c.need(!stripped, "kept", ev.site(), pos, "offline_access is dropped although the prompt is consent")
			}
		}
		c.floor("offline", 4, "persisted OpenID requests")
		c.floor("kept", 1, "persisted OpenID requests asking for consent")
	})

	register("C64", "an authorization request is stored as it was made", "At every persistence of an authorization request each of its parts on the abstract heap is compared with its value at the start of the operation.", func(c *Ctx) {
		jwt := c.strOf("oidc", "ResponseModeJWT")
		alias := [][2]*Term{
			{c.strOf("oidc", "ResponseTypeCode"), c.strOf("oidc", "ResponseModeQueryJWT")},
			{c.strOf("oidc", "ResponseTypeToken"), c.strOf("oidc", "ResponseModeFragmentJWT")},
		}
		for _, ev := range c.persistedRequests() {
			r, st, pos := ev.r, ev.St, ev.Pos
			sct := structOf(ev.ar).Underlying().(*types.Struct)
			for i := 0; i < sct.NumFields(); i++ {
				f := sct.Field(i)
				if !f.Exported() || f.Name() == "Scope" {
					continue
				}
				was, is := r.initial(ev.ar, f.Name()), r.rd(st, ev.ar, f.Name())
				if f.Name() != "ResponseMode" {
					c.need(same(st, is, was), "part", ev.site(), pos, "the %s of the request is changed", f.Name())
					continue
				}
				if same(st, is, was) || nonNil(st, is) && nonNil(st, was) && same(st, r.derefv(st, is), r.derefv(st, was)) {
					c.need(isNil(st, is) || st.facts.eval(mkEq(r.derefv(st, is), jwt)) == -1, "mode", ev.site(), pos, "the generic jwt response mode is stored")
					continue
				}
				ok := false
				for _, a := range alias {
					ok = ok || same(st, r.rd(st, ev.ar, "ResponseType"), a[0]) && nonNil(st, is) && same(st, r.derefv(st, is), a[1])
				}
				c.need(ok && nonNil(st, was) && same(st, r.derefv(st, was), jwt), "alias", ev.site(), pos, "the response mode of the request is changed otherwise than by resolving jwt to query.jwt for codes and fragment.jwt for tokens")
			}
		}
		c.floor("part", 20, "parts of stored requests")
		c.floor("mode", 2, "unchanged response modes")
		c.floor("alias", 2, "resolved response modes")
	})

	register("C07", "a pushed request belongs to the authenticated client", "Every persistence of a pushed authorization request and every outcome of the registration is checked.", func(c *Ctx) {
		p := c.authzOp("Register")
		for _, ev := range p.evs(evReqRegister) {
			st, pos, ar := ev.St, ev.Pos, ev.Args[4]
			c.need(ar == p.initial(p.req, "Request"), "same-request", ev.site(), pos, "another request than the pushed one is persisted")
			c.need(nonNil(st, p.rd(st, p.req, "Client")), "authenticated", ev.site(), pos, "a request is persisted without client authentication")
			c.need(same(st, p.rd(st, ar, "ClientId"), p.rd(st, p.req, "Client", "ClientId")), "owner", ev.site(), pos, "a request of another client is persisted")
			c.need(isNil(st, p.initial(ar, "RequestUri")) && isNil(st, p.rd(st, ar, "RequestUri")), "nested", ev.site(), pos, "a pushed request referring to another request is accepted")
			c.need(same(st, ev.Args[2], p.rd(st, p.req, "Issuer")) && nonEmpty(st, ev.Args[2]), "issuer", ev.site(), pos, "the request is persisted for another issuer")
			ok := false
			for _, g := range calls(st, evURIGen) {
				if okCall(st, g, 1) && same(st, g.Args[2], ev.Args[2]) && same(st, ev.Args[3], res(g, 0)) {
					ok = true
				}
			}
			c.need(ok, "uri", ev.site(), pos, "the request is not stored under a freshly generated request_uri of this issuer")
		}
		c.floor("owner", 1, "persisted pushed requests")
		for _, o := range p.Outs {
			st, pos := o.st, outPos(p.Root, o)
			uri := p.rd(st, o.res[0], "RequestUri")
			if !isNil(st, o.res[1]) {
				c.need(same(st, uri, mkStr("")), "error", "Register", pos, "a request_uri is returned with an error")
				continue
			}
			var reg *Term
			for _, g := range calls(st, evReqRegister) {
				if okCall(st, g, 1) {
					reg = g
				}
			}
			if c.need(reg != nil, "persisted", "Register", pos, "the operation succeeds without persisting the request") {
				c.need(same(st, uri, reg.Args[3]), "answer.uri", "Register", pos, "the returned request_uri is not the stored one")
				c.need(same(st, p.rd(st, o.res[0], "ExpiresIn"), res(reg, 0)), "answer.expires", "Register", pos, "the returned expiry is not the one given by storage")
				c.need(same(st, p.rd(st, o.res[0], "Issuer"), p.rd(st, p.req, "Issuer")), "answer.issuer", "Register", pos, "the returned issuer is not the request issuer")
			}
		}
		c.floor("persisted", 1, "successful registrations")
	})

	register("C08", "a request_uri is single use and replaces the request", "Every creation of an authorization code session is checked for the retrieval and deletion of the referenced request.", func(c *Ctx) {
		a := c.authzOp("Authorize")
		given := a.initial(a.req, "Request")
		uriP := a.initial(given, "RequestUri")
		refs := 0
		for _, ev := range a.evs(evCodeRegister, evCodeGen) {
			st, pos := ev.St, ev.Pos
			var ar *Term
			if ev.Name == evCodeRegister {
				ar = a.rd(st, ev.Args[4], "Request")
			} else {
				ar = nil
			}
			if isNil(st, uriP) {
				if ar != nil {
					c.need(same(st, ar, given), "direct", ev.site(), pos, "the session records another request than the presented one")
				}
				continue
			}
			if !c.need(nonNil(st, uriP), "examined", ev.site(), pos, "a code is created although the presence of a request_uri was not examined") {
				continue
			}
			refs++
			iss := a.rd(st, a.req, "Issuer")
			uri := a.E.load(newState(), uriP, mkStr("").T)
			valid, deleted := false, false
			var stored *Term
			for _, x := range calls(st, evURIValidate, evReqGet, evReqDelete) {
				if !same(st, x.Args[2], iss) || !same(st, x.Args[3], uri) {
					continue
				}
				switch callName(x) {
				case evURIValidate:
					valid = valid || okCall(st, x, 0)
				case evReqGet:
					if okCall(st, x, 1) {
						stored = res(x, 0)
					}
				case evReqDelete:
					deleted = deleted || okCall(st, x, 0)
				}
			}
			c.need(valid, "syntax", ev.site(), pos, "a request_uri that was not validated for the issuer is used")
			c.need(deleted, "consumed", ev.site(), pos, "the referenced request is not deleted before a code exists")
			if c.need(stored != nil, "stored", ev.site(), pos, "the referenced request was not retrieved for the issuer") && ar != nil {
				c.need(same(st, ar, stored), "replaced", ev.site(), pos, "the session does not record the stored request")
			}
		}
		c.floor("direct", 1, "sessions of direct requests")
		c.floor("replaced", 1, "sessions of referenced requests")
	})

	register("C09", "the authorization session and response are bound to this request", "The session object at the storage call and every response object are read from the abstract heap and compared with the request.", func(c *Ctx) {
		a := c.authzOp("Authorize")
		for _, ev := range a.evs(evCodeRegister) {
			st, pos, s := ev.St, ev.Pos, ev.Args[4]
			iss := a.rd(st, a.req, "Issuer")
			c.need(same(st, ev.Args[2], iss) && nonEmpty(st, iss), "issuer", ev.site(), pos, "the session is stored for another issuer")
			c.need(same(st, a.rd(st, s, "Issuer"), iss), "session.issuer", ev.site(), pos, "the session records another issuer")
			sub := a.rd(st, a.req, "Subject")
			c.need(same(st, a.rd(st, s, "Subject"), sub) && nonEmpty(st, sub), "session.subject", ev.site(), pos, "the session does not record the authenticated subject")
			ok := false
			for _, g := range calls(st, evCodeGen) {
				if okCall(st, g, 1) && same(st, g.Args[2], iss) && same(st, ev.Args[3], res(g, 0)) {
					ok = true
				}
			}
			c.need(ok, "code", ev.site(), pos, "the session is not stored under a freshly generated code of this issuer")
		}
		c.floor("code", 1, "authorization sessions")
		for _, o := range a.Outs {
			st, pos, rs := o.st, outPos(a.Root, o), o.res[0]
			code := a.rd(st, rs, "Code")
			if !isNil(st, o.res[1]) {
				c.need(same(st, code, mkStr("")), "error", "Authorize", pos, "a code is returned with an error")
				continue
			}
			var reg *Term
			for _, g := range calls(st, evCodeRegister) {
				if okCall(st, g, 1) {
					reg = g
				}
			}
			if !c.need(reg != nil, "persisted", "Authorize", pos, "the operation succeeds without persisting a session") {
				continue
			}
			ar := a.rd(st, reg.Args[4], "Request")
			c.need(same(st, code, reg.Args[3]), "answer.code", "Authorize", pos, "the returned code is not the stored one")
			c.need(same(st, a.rd(st, rs, "ExpiresIn"), res(reg, 0)), "answer.expires", "Authorize", pos, "the returned expiry is not the one given by storage")
			c.need(same(st, a.rd(st, rs, "Issuer"), a.rd(st, a.req, "Issuer")), "answer.issuer", "Authorize", pos, "the returned issuer is not the request issuer")
			for _, f := range []string{"State", "RedirectUri", "ClientId"} {
				c.need(same(st, a.rd(st, rs, f), a.rd(st, ar, f)), "answer."+strings.ToLower(f), "Authorize", pos, "the returned %s is not the one of the persisted request", f)
			}
			for _, none := range []bool{true, false} {
				mode, st := a.rd(st, ar, "ResponseMode"), st.clone()
				if !st.facts.assume(mkEq(mode, tNil), none) {
					continue
				}
				want := mkStr("")
				if !none {
					want = a.derefv(st, mode)
				}
				c.need(same(st, a.rd(st, rs, "ResponseMode"), want), "answer.mode", "Authorize", pos, "the returned response mode is not the one of the persisted request: %s", a.rd(st, rs, "ResponseMode"))
			}
		}
		c.floor("answer.code", 1, "successful authorizations")
	})

	register("C10", "a device authorization starts pending, time limited and client bound", "The session object at the storage call and every response of the device authorization are compared with the request and the client.", func(c *Ctx) {
		r := c.root(pkgDevice, "New", "Authorize")
		req := r.Args[1]
		pending := c.constOf(apiSess, "DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING")
		for _, ev := range r.evs(evDevRegister) {
			st, pos, s := ev.St, ev.Pos, ev.Args[4]
			iss := r.rd(st, req, "Issuer")
			var cl *Term
			for _, g := range calls(st, evClientGet) {
				if okCall(st, g, 1) && same(st, g.Args[2], r.rd(st, req, "ClientId")) {
					cl = res(g, 0)
				}
			}
			if !c.need(cl != nil && nonNil(st, cl), "client", ev.site(), pos, "a session is stored without a successful client lookup") {
				continue
			}
			c.need(member(st, r.rd(st, cl, "GrantTypes"), c.strOf("oidc", "GrantTypeDeviceCode"), true), "grant", ev.site(), pos, "a client that did not register the device grant is accepted")
			c.need(same(st, ev.Args[2], iss) && nonEmpty(st, iss) && same(st, r.rd(st, s, "Issuer"), iss), "issuer", ev.site(), pos, "the session is stored for another issuer")
			c.need(same(st, r.rd(st, s, "Client"), cl), "session.client", ev.site(), pos, "the session records another client")
			c.need(same(st, r.rd(st, s, "Request"), req), "session.request", ev.site(), pos, "the session records another request")
			c.need(same(st, r.rd(st, s, "Scope"), r.rd(st, req, "Scope")), "session.scope", ev.site(), pos, "the session scope is not the requested one")
			c.need(same(st, r.rd(st, s, "Audience"), r.rd(st, req, "Audience")), "session.audience", ev.site(), pos, "the session audience is not the requested one")
			c.need(isNil(st, r.rd(st, s, "Subject")), "session.subject", ev.site(), pos, "a new session already has a subject")
			c.need(same(st, r.rd(st, s, "Status"), pending), "pending", ev.site(), pos, "a new session is not pending")
			exp := r.rd(st, s, "ExpiresAt")
			ok := false
			for _, now := range nows(st) {
				if d, y := st.facts.diffUpper(exp, now); y && d <= 1800 {
					if l, y := st.facts.diffUpper(now, exp); y && l < 0 {
						ok = true
					}
				}
			}
			c.need(ok, "expiry", ev.site(), pos, "the session expiry is not within half an hour after the current time")
			dev, usr := false, false
			for _, g := range calls(st, evDevGen) {
				if okCall(st, g, 1) && same(st, g.Args[2], iss) && same(st, r.rd(st, s, "DeviceCode"), res(g, 0)) {
					dev = true
				}
			}
			for _, g := range calls(st, evUserGen) {
				if okCall(st, g, 1) && same(st, g.Args[2], iss) && same(st, ev.Args[3], res(g, 0)) {
					usr = true
				}
			}
			c.need(dev, "device-code", ev.site(), pos, "the device code is not freshly generated for the issuer")
			c.need(usr, "user-code", ev.site(), pos, "the user code is not freshly generated for the issuer")
		}
		c.floor("pending", 1, "device sessions")
		for _, o := range r.Outs {
			st, pos, rs := o.st, outPos(r, o), o.res[0]
			if !isNil(st, o.res[1]) {
				c.need(same(st, r.rd(st, rs, "DeviceCode"), mkStr("")) && same(st, r.rd(st, rs, "UserCode"), mkStr("")), "error", "Authorize", pos, "codes are returned with an error")
				continue
			}
			var reg *Term
			for _, g := range calls(st, evDevRegister) {
				if okCall(st, g, 1) {
					reg = g
				}
			}
			if !c.need(reg != nil, "persisted", "Authorize", pos, "the operation succeeds without persisting a session") {
				continue
			}
			c.need(same(st, r.rd(st, rs, "UserCode"), reg.Args[3]), "answer.user", "Authorize", pos, "the returned user code is not the stored one")
			c.need(same(st, r.rd(st, rs, "DeviceCode"), r.rd(st, reg.Args[4], "DeviceCode")), "answer.device", "Authorize", pos, "the returned device code is not the stored one")
			c.need(same(st, r.rd(st, rs, "ExpiresIn"), res(reg, 0)), "answer.expires", "Authorize", pos, "the returned expiry is not the one given by storage")
			c.need(same(st, r.rd(st, rs, "Issuer"), r.rd(st, req, "Issuer")), "answer.issuer", "Authorize", pos, "the returned issuer is not the request issuer")
			n, y := st.facts.find(r.rd(st, rs, "Interval")).int()
			c.need(y && n >= 1, "answer.interval", "Authorize", pos, "no polling interval is returned")
		}
		c.floor("persisted", 1, "successful device authorizations")
	})

	register("C11", "a device session is approved once, in time, for the confirming user", "Every update of a device session is checked for the conditions on the stored session, and its content is read from the abstract heap.", func(c *Ctx) {
		r := c.root(pkgDevice, "New", "Validate")
		req := r.Args[1]
		pending := c.constOf(apiSess, "DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING")
		validated := c.constOf(apiSess, "DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED")
		for _, ev := range r.evs(evDevValidate) {
			st, pos, s := ev.St, ev.Pos, ev.Args[4]
			iss, uc := r.rd(st, req, "Issuer"), r.rd(st, req, "UserCode")
			var g *Term
			for _, x := range calls(st, evDevByUser) {
				if okCall(st, x, 1) && same(st, x.Args[2], iss) && same(st, x.Args[3], uc) {
					g = res(x, 0)
				}
			}
			if !c.need(g != nil && (same(st, s, g) || st.facts.find(s).Op == "alloc" || st.facts.find(s).Op == "clone"), "session", ev.site(), pos, "the updated session is not the one of the presented user code") {
				continue
			}
			c.need(same(st, ev.Args[2], iss) && same(st, ev.Args[3], uc), "target", ev.site(), pos, "another session is updated")
			c.need(nonEmpty(st, iss) && nonEmpty(st, uc), "inputs", ev.site(), pos, "an empty issuer or user code is accepted")
			c.need(nonNil(st, g), "present", ev.site(), pos, "a missing session is approved")
			c.need(nonNil(st, r.rd(st, g, "Client")) && nonNil(st, r.rd(st, g, "Request")), "complete", ev.site(), pos, "a session without client or request is approved")
			c.need(same(st, r.initial(g, "Status"), pending), "pending", ev.site(), pos, "a session that is not pending is approved")
			c.need(notExpired(st, r.initial(g, "ExpiresAt")), "expiry", ev.site(), pos, "an expired session is approved")
			c.need(same(st, r.rd(st, s, "Status"), validated), "validated", ev.site(), pos, "the approved session is not marked as validated")
			sub := r.rd(st, s, "Subject")
			c.need(nonNil(st, sub) && same(st, r.derefv(st, sub), r.rd(st, req, "Subject")) && nonEmpty(st, r.rd(st, req, "Subject")), "subject", ev.site(), pos, "the approved session does not record the confirming user")
			for _, f := range []string{"Issuer", "Client", "Request", "Scope", "Audience", "DeviceCode", "ExpiresAt"} {
				c.need(same(st, r.rd(st, s, f), r.initial(g, f)), "unchanged", ev.site(), pos, "the approval changes the session's %s", f)
			}
		}
		c.floor("pending", 1, "updates of device sessions")
		for _, o := range r.Outs {
			if !isNil(o.st, o.res[1]) {
				continue
			}
			ok := false
			for _, x := range calls(o.st, evDevValidate) {
				if okCall(o.st, x, 0) {
					ok = true
				}
			}
			c.need(ok, "recorded", "Validate", outPos(r, o), "the operation succeeds without recording the approval")
		}
		c.floor("recorded", 1, "successful approvals")
	})

	register("C25", "an operation fails exactly when it returns a protocol error", "All outcomes of the service operations are enumerated; the error result and the error of the response object are compared on each.", func(c *Ctx) {
		for _, op := range serviceOps {
			r := c.root(op.pkg, "New", op.method)
			for _, o := range r.Outs {
				st, pos, rs, err := o.st, outPos(r, o), o.res[0], o.res[1]
				if !c.need(nonNil(st, rs), "response", op.name(), pos, "the operation returns no response object") {
					continue
				}
				pe := r.rd(st, rs, "Error")
				if isNil(st, err) {
					c.need(isNil(st, pe), "success", op.name(), pos, "a successful operation carries a protocol error")
					continue
				}
				c.need(nonNil(st, err), "decided", op.name(), pos, "the outcome neither succeeds nor fails definitely")
				construct := op.name()
				if f := failing(st); f != nil {
					construct += " after " + short(callName(f)) + " failed"
				}
				if c.need(nonNil(st, pe), "failure", construct, pos, "a failing operation carries no protocol error") {
					code := r.rd(st, pe, "Err")
					c.need(nonEmpty(st, code), "code", construct, pos, "the protocol error has no code")
				}
				for _, f := range op.secrets {
					x := r.rd(st, rs, f)
					c.need(isNil(st, x) || same(st, x, mkStr("")), "no-secret", op.name(), pos, "a failing operation returns its %s", f)
				}
			}
			c.floor("failure", 1, "failures")
		}
		c.floor("success", 7, "successful operations")
	})

	register("C26", "storage and generator failures are never swallowed or misreported", "For each outcome of the service operations, the error results of all fallible calls made on the way are compared with the result and the class of the protocol error.", func(c *Ctx) {
		notFound := mkT(nil, "gval", modPath+"/server/storage.ErrNotFound")
		ops := append([]serviceOp{{ctor: "PrivateKeyJWT", pkg: pkgClientAuth, method: "Authenticate"}, {ctor: "ClientAttestation", pkg: pkgClientAuth, method: "Authenticate"}}, serviceOps...)
		for _, op := range ops {
			ctor := "New"
			if op.ctor != "" {
				ctor = op.ctor
			}
			r := c.root(op.pkg, ctor, op.method)
			for _, o := range r.Outs {
				st, pos, rs, err := o.st, outPos(r, o), o.res[0], o.res[1]
				for _, x := range st.events() {
					ei := errIndex(r, x)
					if ei < 0 {
						continue
					}
					e := res(x, ei)
					construct := op.name() + " calling " + short(callName(x))
					if isNil(st, err) {
						ok := isNil(st, e) || (op.method == "Introspect" && callName(x) == evTokByValue && same(st, e, notFound))
						c.need(ok, "swallowed", construct, pos, "the operation succeeds although a call may have failed")
						continue
					}
					c.need(isNil(st, e) || nonNil(st, e), "examined", construct, pos, "the error of a call is never examined")
				}
				if isNil(st, err) {
					continue
				}
				f := failing(st)
				if f == nil {
					continue
				}
				construct := op.name() + " after " + short(callName(f)) + " failed"
				e := res(f, errIndex(r, f))
				pe := r.rd(st, rs, "Error")
				if isNil(st, pe) {
					continue // reported by the rule on protocol errors
				}
				code, known := st.facts.find(r.rd(st, pe, "Err")).str()
				if !c.need(known, "class-known", construct, pos, "the class of the protocol error is not determined") {
					continue
				}
				read := strings.HasPrefix(short(callName(f)), "(storage.")
				switch {
				case same(st, e, notFound):
					if !strings.HasSuffix(callName(f), "Delete") {
						c.need(code != "server_error", "notfound", construct, pos, "a missing entry is reported as a server error")
					}
				case read && st.facts.eval(mkEq(e, notFound)) == -1:
					c.need(code == "server_error", "internal", construct, pos, "a storage failure is reported as %s", code)
				case read:
					// nothing distinguishes a missing entry here
					c.need(code == "server_error" || !internalOnly[callName(f)], "internal", construct, pos, "a storage failure is reported as %s", code)
				case generator(callName(f)):
					c.need(code == "server_error", "internal", construct, pos, "a generator failure is reported as %s", code)
				}
			}
		}
		c.floor("swallowed", 7, "calls on successful operations")
		c.floor("internal", 8, "internal failures")
		c.floor("notfound", 4, "missing entries")
	})
}

type serviceOp struct {
	pkg, method string
	secrets     []string
	ctor        string // unless New
}

func (o serviceOp) name() string {
	if o.ctor != "" {
		return o.ctor + "." + o.method
	}
	return o.pkg[strings.LastIndexByte(o.pkg, '/')+1:] + "." + o.method
}

var serviceOps = []serviceOp{
	{pkg: pkgToken, method: "Token", secrets: []string{"AccessToken", "RefreshToken"}},
	{pkg: pkgToken, method: "Introspect", secrets: []string{"Token"}},
	{pkg: pkgToken, method: "Revoke", secrets: nil},
	{pkg: pkgAuthz, method: "Authorize", secrets: []string{"Code"}},
	{pkg: pkgAuthz, method: "Register", secrets: []string{"RequestUri"}},
	{pkg: pkgDevice, method: "Authorize", secrets: []string{"DeviceCode", "UserCode"}},
	{pkg: pkgDevice, method: "Validate", secrets: nil},
}

// internalOnly lists storage operations whose failure is always internal.
var internalOnly = map[string]bool{evTokCreate: true, evCodeRegister: true, evReqRegister: true, evDevRegister: true, evDevValidate: true}

func generator(n string) bool {
	switch n {
	case evTokGen, evCodeGen, evURIGen, evDevGen, evUserGen:
		return true
	}
	return false
}

// errIndex is the position of the error result of a call to a collaborator.
func errIndex(r *Root, x *Term) int {
	n := callName(x)
	if !strings.HasPrefix(n, "(zntr.io/solid/") {
		return -1
	}
	if i, ok := errResults[n]; ok {
		return i
	}
	return -1
}

var errResults = map[string]int{
	evCodeGet: 1, evCodeDelete: 0, evCodeRegister: 1,
	evReqGet: 1, evReqDelete: 0, evReqRegister: 1,
	evClientGet: 1, evTokGet: 1, evTokByValue: 1, evTokCreate: 0, evTokRevoke: 0, evTokDelete: 0,
	evDevByCode: 1, evDevByUser: 1, evDevRegister: 1, evDevValidate: 0, evDevDelete: 0,
	evResGet: 1, evTokGen: 1, evCodeGen: 1, evURIGen: 1, evURIValidate: 0, evDevGen: 1, evUserGen: 1,
}

// failing finds the last call that is known to have failed.
func failing(st *State) *Term {
	var f *Term
	for _, x := range st.events() {
		if i, ok := errResults[callName(x)]; ok && nonNil(st, res(x, i)) {
			f = x
		}
	}
	return f
}

var _ = fmt.Sprint
