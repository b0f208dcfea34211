package main

import (
	"fmt"
	"go/types"
	"strconv"
)

// failedCall returns a call that is known to have failed in the state.
func failedCall(st *State) *Term { return failedBut(st, func(*Term) bool { return false }) }

// failedBut leaves out some calls.
func failedBut(st *State, but func(call *Term) bool) *Term {
	for c, pol := range st.facts.m {
		if pol || c.Op != "eq" || c.Args[0] != tNil && c.Args[1] != tNil {
			continue
		}
		for _, a := range c.Args {
			if a.Op == "res" && a.T != nil && a.T.String() == "error" && !but(a.Args[0]) {
				return a.Args[0]
			}
		}
	}
	return nil
}

var httpMethods = []string{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE", "CONNECT", "OPTIONS", "TRACE"}

// acceptedCases are the registered values of a parameter that an operation
// must serve.
var acceptedCases = []struct {
	pkg, ctor, method string
	arg               int
	path              []string
	what              string
	values            []string
	lens              []int64 // or its accepted lengths
}{
	{pkgToken, "New", "Token", 1, []string{"GrantType"}, "grant", []string{"client_credentials", "authorization_code", "refresh_token", "urn:ietf:params:oauth:grant-type:device_code", "urn:ietf:params:oauth:grant-type:token-exchange"}, nil},
	{pkgAuthz, "New", "Register", 1, []string{"Request", "ResponseType"}, "response type", []string{"code", "token"}, nil},
	{pkgAuthz, "New", "Register", 1, []string{"Request", "ResponseMode"}, "response mode", []string{"query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt"}, nil},
	{pkgAuthz, "New", "Register", 1, []string{"Request", "Prompt"}, "prompt", []string{"none", "login", "consent", "select_account"}, nil},
	{pkgDPoP, "DefaultProver", "Prove", 0, nil, "method", httpMethods, nil},
	{pkgDPoP, "DefaultVerifier", "Verify", 1, nil, "method", httpMethods, nil},
	{pkgAuthz, "New", "Register", 1, []string{"Request", "State"}, "state of the length", nil, []int64{32, 200}},
	{pkgAuthz, "New", "Register", 1, []string{"Request", "Nonce"}, "nonce of the length", nil, []int64{8, 200}},
	{pkgAuthz, "New", "Register", 1, []string{"Request", "CodeChallenge"}, "code challenge of the length", nil, []int64{43}},
}

func init() {
	register("C59", "every operation accepts valid input", "The outcomes of every exported operation are enumerated; one must be a success in which no call failed.", func(c *Ctx) {
		t := c.tokenOp()
		for _, n := range []int64{43, 128} {
			ok := false
			for _, ev := range t.creates(t.gCode, evCodeGet) {
				code := t.oneof(ev.St, t.req, "Grant", "TokenRequest_AuthorizationCode", "AuthorizationCode")
				l := mkT(types.Typ[types.Int], "len", "", t.rd(ev.St, code, "CodeVerifier"))
				ok = ok || ev.St.facts.clone().assume(mkEq(l, mkInt(n)), true)
			}
			c.need(ok, "case", "Token", c.p.pos(t.Fn.Pos()), "a code verifier of %d characters is never accepted", n)
		}
		for _, x := range entries(c) {
			name := x.pkg + "." + x.ctor
			if x.method != "" {
				name += "->" + x.method
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(analysisError); !ok {
							panic(p)
						}
						c.need(false, "analysed", name, "-", "%v", p)
					}
				}()
				var r *Root
				if x.method == "()" {
					r = c.closure(x.pkg, x.ctor)
				} else {
					r = c.root(x.pkg, x.ctor, x.method)
				}
				c.need(len(r.Outs) > 0, "returns", name, "-", "the operation never returns")
				if len(r.Outs) == 0 || len(r.Outs[0].res) == 0 {
					return
				}
				sig := r.Fn.Signature
				last := sig.Results().Len() - 1
				t := sig.Results().At(last).Type()
				switch {
				case t.String() == "error":
					ok := false
					var why *Term
					for _, o := range r.Outs {
						if o.st.facts.eval(mkEq(o.res[last], tNil)) == -1 {
							continue
						}
						if f := failedCall(o.st); f != nil {
							why = f
							continue
						}
						ok = true
					}
					if why != nil {
						c.need(ok, "accepts", name, c.p.pos(r.Fn.Pos()), "the operation succeeds only if %s fails", callName(why))
					} else {
						c.need(ok, "accepts", name, c.p.pos(r.Fn.Pos()), "the operation never succeeds")
					}
				case isBoolType(t) && sig.Results().Len() == 1:
					var yes, no bool
					for _, o := range r.Outs {
						k := o.st.facts.eval(o.res[last])
						yes = yes || k != -1
						no = no || k != 1
					}
					c.need(yes && no, "decides", name, c.p.pos(r.Fn.Pos()), "the answer does not depend on the arguments")
				}
			}()
		}
		for _, k := range acceptedCases {
			vals := k.values
			for _, n := range k.lens {
				vals = append(vals, strconv.FormatInt(n, 10))
			}
			for i, v := range vals {
				name := fmt.Sprintf("%s.%s->%s", k.pkg, k.ctor, k.method)
				feasible := false
				r := c.rootWith(k.pkg, k.ctor, k.method, nil, nil, func(e *Engine) {
					e.Ready = func(st *State, r *Root) {
						t := r.Args[k.arg]
						if len(k.path) > 0 {
							st.facts.assume(mkEq(t, tNil), false)
							t = rdField(e, st, t, k.path...)
						}
						if p, ok := t.T.Underlying().(*types.Pointer); ok {
							st.facts.assume(mkEq(t, tNil), false)
							t = e.load(st, t, p.Elem())
						}
						if k.lens != nil {
							feasible = st.facts.assume(mkEq(mkT(types.Typ[types.Int], "len", "", t), mkInt(k.lens[i])), true)
							return
						}
						feasible = st.facts.assume(mkEq(t, mkStr(v)), true)
					}
				})
				if !feasible {
					bail("anchor %s: the argument cannot be set", name)
				}
				ok := false
				for _, o := range r.Outs {
					last := o.res[len(o.res)-1]
					ok = ok || o.st.facts.eval(mkEq(last, tNil)) != -1 && failedCall(o.st) == nil
				}
				c.need(ok, "case", name, c.p.pos(r.Fn.Pos()), "the %s %q is never accepted", k.what, v)
			}
		}
		c.floor("case", 32, "registered values")
		c.floor("accepts", 60, "operations returning an error")
	})
}

func init() {
	register("C62", "the URL of a proof is that of the request", "All outcomes are enumerated; the result is read as a concatenation of request parts.", func(c *Ctx) {
		r := c.root(pkgDPoP, "CleanURL", "")
		req := r.Args[0]
		forwarded := 0
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			host, path := rdField(r.E, st, req, "Host"), rdField(r.E, st, req, "URL", "Path")
			l := concatArgs(o.res[0])
			n := len(l)
			if !c.need(n >= 3 && same(st, l[n-2], host) && same(st, l[n-1], path), "shape", "CleanURL", pos, "the URL does not end with the host and path of the request: %s", o.res[0]) {
				continue
			}
			tls := rdField(r.E, st, req, "TLS")
			// the scheme
			if s, ok := l[0].str(); ok && n == 3 {
				switch s {
				case "https://":
					c.need(nonNil(st, tls), "https", "CleanURL", pos, "https is claimed for a connection without TLS")
				case "http://":
					c.need(isNil(st, tls), "http", "CleanURL", pos, "http is claimed for a connection with TLS")
				default:
					c.need(false, "scheme", "CleanURL", pos, "unexpected scheme %q", s)
				}
				// no proxy announced another one
				ok := false
				for cnd, pol := range st.facts.m {
					if pol && cnd.Op == "eq" {
						for i := 0; i < 2; i++ {
							if isForwarded(st, r, cnd.Args[i], req) && cnd.Args[1-i] == mkStr("") {
								ok = true
							}
						}
					}
				}
				c.need(ok, "proxy", "CleanURL", pos, "the scheme announced by the proxy is ignored")
				continue
			}
			sep, _ := l[1].str()
			if c.need(n == 4 && sep == "://" && isForwarded(st, r, l[0], req), "forwarded", "CleanURL", pos, "the scheme is neither that of the connection nor announced by the proxy: %s", o.res[0]) {
				forwarded++
				c.need(nonEmpty(st, l[0]), "forwarded", "CleanURL", pos, "an absent announcement is used")
			}
		}
		c.floor("https", 1, "TLS requests")
		c.floor("http", 1, "plain requests")
		c.floor("forwarded", 1, "forwarded requests")
	})
}

// isForwarded tells whether a text is the scheme announced by the proxy.
func isForwarded(st *State, r *Root, t, req *Term) bool {
	if t.Op != "pure" || t.S != "(http.Header).Get" && t.S != "(net/http.Header).Get" {
		return false
	}
	h, _ := t.Args[1].str()
	return same(st, t.Args[0], rdField(r.E, st, req, "Header")) && h == "X-Forwarded-Scheme"
}
