package main

import (
	"go/types"
	"strings"
)

const (
	evDo        = "(*net/http.Client).Do"
	evDecode    = "(*encoding/json.Decoder).Decode"
	evNewReq    = "net/http.NewRequestWithContext"
	evURLParse  = "net/url.Parse"
	bodyLimit   = 64 << 20
	evURLString = "(*net/url.URL).String"
)

// fieldOfType names the only field of an object with a given type.
func fieldOfType(obj *Term, suffix string) string {
	t := structOf(obj)
	if t == nil {
		return ""
	}
	name, n := "", 0
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if strings.HasSuffix(u.Field(i).Type().String(), suffix) {
			name = u.Field(i).Name()
			n++
		}
	}
	if n != 1 {
		return ""
	}
	return name
}

// request describes an HTTP request that was sent.
type request struct {
	do, ctx, method, url, body *Term
}

// sent lists the HTTP requests of a path.
func sent(st *State) []request {
	var l []request
	for _, do := range calls(st, evDo) {
		q := request{do: do}
		if a := do.Args[1]; a.Op == "res" && callName(a.Args[0]) == evNewReq {
			n := a.Args[0]
			q.ctx, q.method, q.url, q.body = n.Args[0], n.Args[1], n.Args[2], n.Args[3]
		}
		l = append(l, q)
	}
	return l
}

// accepted tells whether the response of a request is known to be a success.
func (q request) accepted(r *Root, st *State) bool {
	return okCall(st, q.do, 1) && st.facts.eval(mkEq(r.rd(st, res(q.do, 0), "StatusCode"), mkInt(200))) == 1
}

// reads tells whether a reader is the body of the response, limited in size.
func (q request) reads(r *Root, st *State, reader *Term) (own, limited bool) {
	reader = stripIface(reader)
	if callName(reader) == "io.LimitReader" {
		n, ok := reader.Args[1].int()
		limited = ok && n > 0 && n <= bodyLimit
		reader = stripIface(reader.Args[0])
	} else if callName(reader) == "net/http.MaxBytesReader" {
		n, ok := reader.Args[2].int()
		limited = ok && n > 0 && n <= bodyLimit
		reader = stripIface(reader.Args[1])
	}
	return reader == stripIface(r.rd(st, res(q.do, 0), "Body")), limited
}

// readers lists what is read on a path, with the reader it comes from.
func readers(st *State) []*Term {
	var l []*Term
	for _, d := range calls(st, evDecode) {
		if n := d.Args[0]; callName(n) == "encoding/json.NewDecoder" {
			l = append(l, n.Args[0])
		} else if n.Op == "res" && callName(n.Args[0]) == "encoding/json.NewDecoder" {
			l = append(l, n.Args[0].Args[0])
		}
	}
	for _, d := range calls(st, "io.ReadAll") {
		l = append(l, d.Args[0])
	}
	return l
}

// payload tells whether a value was decoded from JSON text, and from which
// reader.
func payload(st *State, v *Term) (reader *Term, ok bool) {
	var call *Term
	walk(v, func(t *Term) bool {
		if call == nil && t.Op == "decoded" {
			call = t.Args[0]
		}
		return call == nil
	})
	if call == nil {
		return nil, false
	}
	switch callName(call) {
	case evDecode:
		n := call.Args[0]
		if n.Op == "res" {
			n = n.Args[0]
		}
		if callName(n) == "encoding/json.NewDecoder" {
			return n.Args[0], okCall(st, call, 0)
		}
	case "encoding/json.Unmarshal":
		d := stripConv(call.Args[0])
		if d.Op == "res" && callName(d.Args[0]) == "io.ReadAll" {
			return d.Args[0].Args[0], okCall(st, call, 0) && okCall(st, d.Args[0], 1)
		}
	}
	return nil, false
}

// endpoint tells whether a URL text is the given one, possibly parsed and
// written again.
func endpoint(u, want *Term) bool {
	if u == want {
		return true
	}
	if callName(u) != evURLString || u.Op != "pure" {
		return false
	}
	var parse *Term
	n := 0
	whole := true
	part := func(t *Term) bool {
		found := false
		walk(t, func(x *Term) bool {
			if (x.Op == "pure" || x.Op == "call") && callName(x) == evURLParse {
				found = true
				if x != parse {
					parse = x
					n++
				}
				return false
			}
			return true
		})
		return found
	}
	a := u.Args[0]
	if a.Op == "struct" {
		for _, f := range a.Args {
			whole = part(f) && whole
		}
	} else {
		whole = part(a)
	}
	return whole && n == 1 && parse.Args[0] == want
}

// formOf lists the parameters of a request body.
func formOf(st *State, body *Term) (map[string]*Term, bool) {
	var enc *Term
	walk(body, func(t *Term) bool {
		if t.Op == "call" && callName(t) == "(net/url.Values).Encode" {
			enc = t
		}
		return enc == nil
	})
	if enc == nil {
		return nil, false
	}
	m := enc.Args[0]
	form := map[string]*Term{}
	for a, v := range st.mem {
		if a.Op == "mapent" && a.Args[0] == m {
			k, ok := a.Args[1].str()
			if !ok {
				return nil, false
			}
			if v.Op == "arr" && len(v.Args) == 1 {
				v = v.Args[0]
			} else if v.Op == "slc" || v.Op == "mkslice" {
				if x, ok := st.mem[mkIA(rootOf(v), mkInt(0))]; ok {
					v = x
				}
			}
			form[k] = v
		}
	}
	for _, ev := range st.events() {
		if ev == enc {
			break
		}
		if ev.Op != "call" || ev.Args[0] != m {
			continue
		}
		switch callName(ev) {
		case "(net/url.Values).Add", "(net/url.Values).Set":
			k, ok := ev.Args[1].str()
			if !ok {
				return nil, false
			}
			if _, dup := form[k]; dup && callName(ev) == "(net/url.Values).Add" {
				return nil, false
			}
			form[k] = ev.Args[2]
		case "(net/url.Values).Del":
			k, _ := ev.Args[1].str()
			delete(form, k)
		}
	}
	return form, true
}

// promoted tells whether a type decodes itself with the method of an embedded
// value, which then receives the whole document.
func promoted(p types.Type) bool {
	if _, ok := p.Underlying().(*types.Pointer); !ok {
		p = types.NewPointer(p)
	}
	sel := types.NewMethodSet(p).Lookup(nil, "UnmarshalJSON")
	return sel != nil && len(sel.Index()) > 1
}

func init() {
	register("C57", "HTTP client", "All outcomes of the client's operations are enumerated with the requests they send, what they read and how it is decoded.", func(c *Ctx) {
		zero := func(st *State, v *Term) bool {
			return isNil(st, v) || same(st, v, mkStr("")) || same(st, v, mkInt(0))
		}
		// what holds for every outcome of every operation
		transport := func(r *Root, name string) {
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				err := o.res[len(o.res)-1]
				if !isNil(st, err) {
					for _, v := range o.res[:len(o.res)-1] {
						c.need(zero(st, v), "failure", name, pos, "a result is returned together with an error")
					}
				}
				qs := sent(st)
				for _, q := range qs {
					if okCall(st, q.do, 1) {
						closed := false
						for _, ev := range calls(st, "(io.Closer).Close", "(io.ReadCloser).Close") {
							closed = closed || stripIface(ev.Args[0]) == stripIface(r.rd(st, res(q.do, 0), "Body"))
						}
						c.need(closed, "closed", name, pos, "the response body is not closed")
					} else {
						c.need(nonNil(st, err), "transport", name, pos, "the failure of the request is not checked")
					}
				}
				for _, rd := range readers(st) {
					own, limited := false, false
					for _, q := range qs {
						if o, l := q.reads(r, st, rd); o {
							own, limited = true, l
						}
					}
					c.need(!own || limited, "limited", name, pos, "the response is read without a limit")
				}
				if isNil(st, err) {
					for _, q := range qs {
						c.need(q.accepted(r, st), "status", name, pos, "the response is used without a check of its status")
						for _, d := range calls(st, evDecode) {
							c.need(okCall(st, d, 0), "decode", name, pos, "a decoding failure is ignored")
						}
					}
				}
			}
		}
		// from requires that a value is the decoded response of the request
		from := func(r *Root, st *State, q request, v *Term, name, pos, what string) {
			rd, ok := payload(st, v)
			own := false
			if ok {
				own, _ = q.reads(r, st, rd)
			}
			c.need(ok && own, "payload", name, pos, "%s is not what the response contains: %s", what, v)
		}
		target := func(r *Root, name string) {
			for _, o := range r.Outs {
				for _, d := range calls(o.st, evDecode) {
					a := stripIface(d.Args[1])
					if a.T != nil {
						c.need(!promoted(a.T), "target", name, outPos(r, o), "%s is decoded by the method of an embedded value", a.T)
					}
				}
			}
		}

		// ---- creation
		r := c.root("client", "HTTP", "")
		transport(r, "HTTP")
		target(r, "HTTP")
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !isNil(st, o.res[1]) {
				continue
			}
			obj := stripIface(o.res[0])
			mf := fieldOfType(obj, "/api/oidc/discovery/v1.ServerMetadata")
			if !c.need(mf != "", "metadata", "HTTP", pos, "the client keeps no server metadata") {
				continue
			}
			meta := r.rd(st, obj, mf)
			var q request
			for _, x := range sent(st) {
				if x.url == mkConcat(nil, r.Ctor[1], mkStr("/.well-known/oauth-authorization-server")) {
					q = x
				}
			}
			if !c.need(q.do != nil, "metadata.url", "HTTP", pos, "the metadata document of the issuer is not requested") {
				continue
			}
			c.need(same(st, q.method, mkStr("GET")) && q.ctx == r.Ctor[0], "metadata.request", "HTTP", pos, "the metadata request is not a GET under the caller's context")
			from(r, st, q, meta, "HTTP", pos, "the server metadata")
			c.need(nonNil(st, meta), "metadata.present", "HTTP", pos, "the client may be created without server metadata")
			c.need(same(st, r.rd(st, meta, "Issuer"), r.Ctor[1]), "metadata.issuer", "HTTP", pos, "the issuer of the metadata is not compared with the issuer asked for")
			c.need(r.rd(st, obj, "issuer") == r.Ctor[1] || fieldHolds(r, st, obj, r.Ctor[1]), "issuer", "HTTP", pos, "the client does not keep its issuer")
			jf := fieldOfType(obj, "v4.JSONWebKeySet")
			c.need(jf != "" && nonNil(st, r.rd(st, obj, jf)), "keys.present", "HTTP", pos, "the client may be created without keys")
		}
		c.floor("metadata", 1, "created clients")

		// ---- tokens
		posts := []struct {
			method, endpoint string
			form             map[string]string // parameter: constant or argument
		}{
			{"ClientCredentials", "TokenEndpoint", map[string]string{"grant_type": "client_credentials", "client_assertion": "arg1", "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}},
			{"Introspect", "IntrospectionEndpoint", map[string]string{"token": "arg2", "client_assertion": "arg1", "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}},
		}
		for _, p := range posts {
			r := c.root("client", "HTTP", p.method)
			transport(r, p.method)
			target(r, p.method)
			mf := fieldOfType(r.Recv, "/api/oidc/discovery/v1.ServerMetadata")
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					continue
				}
				qs := sent(st)
				if !c.need(len(qs) == 1, "request", p.method, pos, "%d requests are sent", len(qs)) {
					continue
				}
				q := qs[0]
				c.need(q.url != nil && endpoint(q.url, r.rd(st, r.Recv, mf, p.endpoint)), "endpoint", p.method, pos, "the request does not go to the endpoint of the metadata: %s", q.url)
				c.need(q.method != nil && same(st, q.method, mkStr("POST")) && q.ctx == r.Args[0], "method", p.method, pos, "the request is not a POST under the caller's context")
				form, ok := formOf(st, q.body)
				c.need(ok && len(form) == len(p.form), "form", p.method, pos, "the parameters of the request are not the specified ones: %v", form)
				for k, v := range p.form {
					want := mkStr(v)
					if strings.HasPrefix(v, "arg") {
						want = r.Args[int(v[3]-'0')]
					}
					c.need(ok && form[k] != nil && stripIface(form[k]) == want, "form."+k, p.method, pos, "parameter %s is %v", k, form[k])
				}
				ct := false
				for _, ev := range calls(st, "(net/http.Header).Set", "(net/http.Header).Add") {
					if same(st, ev.Args[1], mkStr("Content-Type")) {
						ct = same(st, ev.Args[2], mkStr("application/x-www-form-urlencoded"))
					}
				}
				c.need(ct, "content", p.method, pos, "the request is not sent as a form")
				if p.method == "ClientCredentials" {
					from(r, st, q, r.derefv(st, stripIface(o.res[0])), p.method, pos, "the token")
					continue
				}
				t := o.res[0]
				var dec *Term
				for _, d := range calls(st, evDecode) {
					if x := decodedInto(r, st, d); x != nil && okCall(st, d, 0) {
						dec = x
					}
				}
				if dec == nil {
					walkFacts(st, func(x *Term) {
						if x.Op == "decoded" && callName(x.Args[0]) == "encoding/json.Unmarshal" && okCall(st, x.Args[0], 0) {
							dec = x
						}
					})
				}
				if !c.need(dec != nil, "payload", p.method, pos, "the response is not decoded") {
					continue
				}
				from(r, st, q, dec, p.method, pos, "the introspection")
				claimOf := func(tag string) *Term { return claim(dec, tag) }
				status := r.rd(st, t, "Status")
				on := c.constOf("api/oidc/token/v1", "TokenStatus_TOKEN_STATUS_ACTIVE")
				c.need(holdsIff(st, mkEq(status, on), claimOf("active")), "active", p.method, pos, "the status is %s while the response says active=%d", status, st.facts.eval(claimOf("active")))
				c.need(same(st, r.rd(st, t, "Value"), r.Args[2]), "value", p.method, pos, "the token is not the one asked for")
				c.need(same(st, r.rd(st, t, "Issuer"), r.Ctor[1]), "token.issuer", p.method, pos, "the token is not attributed to the issuer of the client")
				for tag, f := range map[string]string{"sub": "Subject", "iss": "Issuer", "exp": "ExpiresAt", "iat": "IssuedAt", "nbf": "NotBefore", "client_id": "ClientId", "scope": "Scope", "aud": "Audience", "acr": "Acr", "auth_time": "AuthTime"} {
					c.need(same(st, r.rd(st, t, "Metadata", f), claimOf(tag)), "meta."+tag, p.method, pos, "%s is not the %s of the response: %s", f, tag, r.rd(st, t, "Metadata", f))
				}
				c.need(same(st, r.rd(st, t, "Confirmation"), claimOf("cnf")), "meta.cnf", p.method, pos, "the confirmation is not the one of the response")
			}
		}
		c.floor("active", 2, "introspection outcomes")
		c.floor("form", 3, "requests with a form")

		// ---- keys
		r = c.root("client", "HTTP", "PublicKeys")
		transport(r, "PublicKeys")
		target(r, "PublicKeys")
		mf := fieldOfType(r.Recv, "/api/oidc/discovery/v1.ServerMetadata")
		jf := fieldOfType(r.Recv, "v4.JSONWebKeySet")
		ef := fieldOfType(r.Recv, "uint64")
		if c.need(jf != "" && ef != "", "cache", "PublicKeys", "-", "the key cache was not found") {
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[2]) {
					continue
				}
				keys, exp := r.rd(st, r.Recv, jf), r.rd(st, r.Recv, ef)
				c.need(same(st, o.res[0], keys) && same(st, o.res[1], exp), "keys.result", "PublicKeys", pos, "the keys and expiry returned are not those kept")
				qs := sent(st)
				if len(qs) == 0 {
					c.need(notExpired(st, mkPlus(o.res[1], -1)), "keys.cached", "PublicKeys", pos, "cached keys are used without a check of their expiry")
					continue
				}
				q := qs[0]
				if !c.need(len(qs) == 1 && q.url != nil && endpoint(q.url, r.rd(st, r.Recv, mf, "JwksUri")), "keys.endpoint", "PublicKeys", pos, "the keys are not requested from the address in the metadata") {
					continue
				}
				c.need(same(st, q.method, mkStr("GET")) && q.ctx == r.Args[0], "keys.request", "PublicKeys", pos, "the request is not a GET under the caller's context")
				from(r, st, q, keys, "PublicKeys", pos, "the key set")
				from(r, st, q, exp, "PublicKeys", pos, "the expiry")
				c.need(nonNil(st, keys) && nonEmpty(st, r.rd(st, keys, "Keys")), "keys.empty", "PublicKeys", pos, "an empty key set is accepted")
				c.need(same(st, exp, mkInt(0)) || notExpired(st, exp), "keys.expired", "PublicKeys", pos, "an expired key set is accepted")
			}
		}
		c.floor("keys.cached", 1, "reuses of the key set")
		c.floor("keys.empty", 1, "refreshes of the key set")

		// ---- client authentication
		r = c.root("client", "HTTP", "Assertion")
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !isNil(st, o.res[1]) {
				c.need(zero(st, o.res[0]), "failure", "Assertion", pos, "an assertion is returned together with an error")
				continue
			}
			var obj, signer *Term
			for _, ev := range calls(st, "(github.com/go-jose/go-jose/v4/jwt.Builder).Claims") {
				if contains(o.res[0], res(ev, 0)) || contains(o.res[0], ev) {
					obj = stripIface(ev.Args[1])
				}
			}
			walk(o.res[0], func(t *Term) bool {
				if t.Op == "call" && strings.HasSuffix(callName(t), "go-jose/v4.NewSigner") {
					signer = t
				}
				return true
			})
			ok := obj != nil && signer != nil && o.res[0].Op == "res" && strings.HasSuffix(callName(o.res[0].Args[0]), ".Serialize") && okCall(st, o.res[0].Args[0], 1) && okCall(st, signer, 1)
			if !c.need(ok, "assertion", "Assertion", pos, "the assertion is not a signed set of claims") {
				continue
			}
			opts := r.Ctor[2]
			id := r.rd(st, opts, "ClientID")
			get := func(tag string) *Term { return serialClaim(r, st, obj, tag) }
			c.need(same(st, get("iss"), id), "assertion.iss", "Assertion", pos, "the issuer of the assertion is not the client: %s", get("iss"))
			c.need(same(st, get("sub"), id), "assertion.sub", "Assertion", pos, "the subject of the assertion is not the client: %s", get("sub"))
			c.need(same(st, get("aud"), r.Ctor[1]), "assertion.aud", "Assertion", pos, "the audience of the assertion is not the server: %s", get("aud"))
			short := false
			for _, now := range nows(st) {
				short = short || st.facts.eval(mkLt(mkPlus(now, 60), get("exp"))) == -1 && st.facts.eval(mkLt(now, get("exp"))) == 1
			}
			c.need(short, "assertion.exp", "Assertion", pos, "the assertion is not short-lived: %s", get("exp"))
			n, _, ok := randomBase(st, stripConv(get("jti")))
			c.need(ok && n >= 8, "assertion.jti", "Assertion", pos, "the identifier of the assertion is not fresh: %s", get("jti"))
			iat := false
			for _, now := range nows(st) {
				iat = iat || same(st, get("iat"), now)
			}
			c.need(iat, "assertion.iat", "Assertion", pos, "the issue time of the assertion is not the current time: %s", get("iat"))
			typ := joseHeaders(r, st, signer.Args[1])["typ"]
			tv, _ := orStr(typ)
			c.need(typ == nil || tv == "JWT" || tv == "client-authentication+jwt", "assertion.typ", "Assertion", pos, "the type of the assertion is %s", typ)
			key := signer.Args[0]
			alg := key.Op == "struct" && len(key.Args) == 2
			own := false
			if alg {
				a, isC := stripConv(key.Args[0]).str()
				alg = isC && a == "ES384" || !isC && contains(key.Args[0], r.rd(st, opts, "JWK"))
				for _, ev := range okDecodes(st) {
					alg = alg || !isC && contains(key.Args[0], ev) && contains(ev, r.rd(st, opts, "JWK"))
				}
				own = contains(key.Args[1], r.rd(st, opts, "JWK"))
				for _, ev := range okDecodes(st) {
					own = own || contains(key.Args[1], ev) && contains(ev, r.rd(st, opts, "JWK"))
				}
			}
			c.need(alg && own, "assertion.key", "Assertion", pos, "the assertion is not signed with the key of the client")
		}
		c.floor("assertion", 1, "signed assertions")
	})
}

// orStr is the constant value of a term that may be missing.
func orStr(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return stripConv(t).str()
}

// fieldHolds tells whether some field of an object has a value.
func fieldHolds(r *Root, st *State, obj, v *Term) bool {
	t := structOf(obj)
	if t == nil {
		return false
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if r.rd(st, obj, u.Field(i).Name()) == v {
			return true
		}
	}
	return false
}

// okDecodes lists the JSON decodings that succeeded.
func okDecodes(st *State) []*Term {
	var l []*Term
	walkFacts(st, func(x *Term) {
		if (x.Op == "pure" || x.Op == "call") && callName(x) == "encoding/json.Unmarshal" && okCall(st, x, 0) {
			l = append(l, x)
		}
	})
	return l
}

// walkFacts visits the terms of the known conditions.
func walkFacts(st *State, f func(x *Term)) {
	seen := map[*Term]bool{}
	for c := range st.facts.m {
		walk(c, func(t *Term) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			f(t)
			return true
		})
	}
}
