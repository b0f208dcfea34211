package main

import (
	"go/types"
	"reflect"
	"strings"
)

// purposes lists the token types by purpose: the constructors are named alike
// in all formats.
var purposes = map[string]string{
	"AccessTokenSigner":     "at", // RFC 9068
	"RefreshTokenSigner":    "rt",
	"RequestSigner":         "oauth-authz-req", // RFC 9101
	"JARMSigner":            "jarm",
	"DPoPSigner":            "dpop", // RFC 9449
	"ClientAssertionSigner": "client-assertion",
	"TokenIntrospection":    "token-introspection", // RFC 9701
	"ServerMetadata":        "oauth-authorization-server",
}

// claimKeys are the CWT keys of the registered claims, RFC 8392.
var claimKeys = map[string]string{"iss": "1", "sub": "2", "aud": "3", "exp": "4", "nbf": "5", "iat": "6", "jti": "7"}

func init() {
	register("C37", "every signed object carries the type of its purpose", "The type header is read at the signing calls of every signer constructor and compared with the table of purposes and with the constants the decoders require.", func(c *Ctx) {
		seen := map[string]string{}
		check := func(r *Root, st *State, fmtName, ctor, suffix, pos string, typ *Term) {
			name := fmtName + "." + ctor
			want, known := purposes[ctor]
			s, isC := st.facts.find(stripIface(typ)).str()
			switch {
			case known:
				c.need(isC && s == want+suffix, "typ", name, pos, "the type header is %s, not %q", stripIface(typ), want+suffix)
			case ctor == "DefaultSigner":
				c.need(contains(typ, r.Ctor[0]) || stripIface(typ) == r.Ctor[0], "typ.given", name, pos, "the type header does not depend on the given type")
				return
			default:
				c.need(isC && strings.HasSuffix(s, suffix), "typ.const", name, pos, "the type header is not a constant of the format")
			}
			if o, ok := seen[s]; ok && o != name && isC {
				c.need(false, "typ.distinct", name, pos, "the type %q is also used by %s", s, o)
			} else {
				c.need(true, "typ.distinct", name, pos, "")
			}
			seen[s] = name
		}
		for _, ctor := range signerCtors(c, pkgJWT) {
			r := c.root(pkgJWT, ctor, "Serialize")
			for _, o := range r.Outs {
				if !isNil(o.st, o.res[1]) {
					continue
				}
				for _, x := range calls(o.st, evNewSigner) {
					h := joseHeaders(r, o.st, x.Args[1])
					if c.need(h["typ"] != nil, "header", "jwt."+ctor, outPos(r, o), "no type header is set") {
						check(r, o.st, "jwt", ctor, "+jwt", outPos(r, o), h["typ"])
					}
				}
			}
			c.contentType(c.root(pkgJWT, ctor, "ContentType"), "jwt."+ctor, "JWT")
		}
		for _, ctor := range signerCtors(c, pkgCWT) {
			r := c.root(pkgCWT, ctor, "Serialize")
			for _, ev := range r.evs(evCoseSign) {
				sig := coseSignature(ev.St, ev.Args[0])
				if !c.need(sig != nil, "header", "cwt."+ctor, ev.Pos, "no signature is added before signing") {
					continue
				}
				h := coseHeader(r, ev.St, sig, "Protected", "typ")
				if c.need(h != nil, "header", "cwt."+ctor, ev.Pos, "no protected type header is set") {
					check(r, ev.St, "cwt", ctor, "+cwt", ev.Pos, h)
				}
			}
			c.contentType(c.root(pkgCWT, ctor, "ContentType"), "cwt."+ctor, "CWT")
		}
		for pkg, p := range map[string]string{pkgDPoP: "DPoPSigner", pkgJARM: "JARMSigner", pkgJWSReq: "RequestSigner"} {
			s, _ := c.constOf(pkg, "HeaderType").str()
			c.need(s == purposes[p]+"+jwt", "decoder", pkg, "-", "the decoder requires %q, the signer emits %q", s, purposes[p]+"+jwt")
		}
		c.floor("typ", 15, "signers")
		c.floor("decoder", 3, "decoders")
	})

	register("C38", "generators emit only complete, bounded tokens with exactly their claims", "The claims object at every signing call of the three generators is read from the abstract heap; presence and bounds are the validations and comparisons established on the path.", func(c *Ctx) {
		for _, g := range []string{"AccessToken", "RefreshToken", "ClientAssertion"} {
			r := c.root(pkgSdkToken, g, "Generate")
			tok := r.Args[1]
			for _, ev := range r.evs(evSerialize) {
				st, pos := ev.St, ev.Pos
				c.need(ev.Args[0] == r.Ctor[0], "signer", g, pos, "another serializer is used")
				m := func(n string) *Term { return r.rd(st, tok, "Metadata", n) }
				c.need(nonEmpty(st, r.rd(st, tok, "TokenId")), "token-id", g, pos, "a token without identifier is signed")
				c.need(nonNil(st, r.rd(st, tok, "Metadata")), "metadata", g, pos, "a token without metadata is signed")
				rules := func(n string) []*Term { return ozzoRules(r, st, r.rd(st, tok, "Metadata"), n) }
				required := func(n string) {
					v := m(n)
					ok := ozzoHas(rules(n), "Required") || nonEmpty(st, v) || st.facts.eval(mkEq(v, mkInt(0))) == -1
					c.need(ok, "required."+n, g, pos, "a token without %s is signed", n)
				}
				isURL := func(n string) {
					ok := ozzoHas(rules(n), "is.URL")
					okResults(st, func(call *Term, _ string) bool {
						if call.Op == "pure" && (call.S == "net/url.Parse" || call.S == "net/url.ParseRequestURI") && same(st, call.Args[0], m(n)) {
							ok = true
						}
						return false
					})
					c.need(ok, "url."+n, g, pos, "%s need not be a URL", n)
				}
				// a <= b + k
				atMost := func(n string, b *Term, k int64) bool {
					for _, t := range ozzoBound(rules(n), "Max") {
						if x, d := splitPlus(t); x == b && d <= k {
							return true
						}
					}
					return st.facts.eval(mkLt(mkPlus(b, k), m(n))) == -1
				}
				atLeast := func(n string, b *Term) bool {
					for _, t := range ozzoBound(rules(n), "Min") {
						if x, d := splitPlus(t); x == b && d >= 0 {
							return true
						}
					}
					return st.facts.eval(mkLt(m(n), b)) == -1
				}
				fields := []string{"Issuer", "Subject", "Audience", "IssuedAt", "ExpiresAt"}
				max := int64(7200)
				switch g {
				case "ClientAssertion":
					isURL("Audience")
					c.need(same(st, m("Issuer"), m("Subject")), "iss=sub", g, pos, "issuer and subject of an assertion may differ")
				case "RefreshToken":
					max = 14 * 86400
					fallthrough
				default:
					isURL("Issuer")
					fields = append(fields, "ClientId", "Scope", "NotBefore")
					c.need(atLeast("NotBefore", m("IssuedAt")), "nbf.min", g, pos, "a token may be valid before its issue")
					c.need(atMost("NotBefore", m("ExpiresAt"), 0), "nbf.max", g, pos, "a token may expire before it is valid")
				}
				for _, n := range fields {
					required(n)
				}
				past := false
				for _, now := range nows(st) {
					past = past || atMost("IssuedAt", now, 0)
				}
				c.need(past, "iat", g, pos, "a token issued in the future is signed")
				c.need(atLeast("ExpiresAt", m("IssuedAt")), "exp.min", g, pos, "a token may expire before its issue")
				c.need(atMost("ExpiresAt", m("IssuedAt"), max), "exp.max", g, pos, "the lifetime of a token is not bounded by %d s", max)
				want := map[string]*Term{"iss": m("Issuer"), "sub": m("Subject"), "aud": m("Audience"), "exp": m("ExpiresAt"), "nbf": m("NotBefore"), "iat": m("IssuedAt"), "jti": r.rd(st, tok, "TokenId")}
				if g != "ClientAssertion" {
					want["client_id"], want["scope"], want["cnf"] = m("ClientId"), m("Scope"), r.rd(st, tok, "Confirmation")
				}
				obj := stripIface(ev.Args[2])
				for n, v := range want {
					got := serialClaim(r, st, ev.Args[2], n)
					c.need(same(st, got, v) || isNil(st, v) && isNil(st, got), "claim."+n, g, pos, "the claim %s is not the token's", n)
					if f := tagField(obj.T, n); f != nil && claimKeys[n] != "" {
						k := cborKey(obj.T, f.Name())
						c.need(k == claimKeys[n], "cbor."+n, g, pos, "the CWT key of %s is %s, not %s", n, k, claimKeys[n])
					}
				}
				c.need(distinctCbor(obj.T), "cbor.distinct", g, pos, "two claims share a CWT key")
			}
			c.signedResult(r, g, 0)
		}
		c.floor("token-id", 3, "signing calls")
		c.floor("claim.cnf", 2, "signing calls")
	})

	register("C39", "a JARM response states issuer, audience, expiry, code and state", "The claims object at the signing call of the JARM encoder is read from the abstract heap.", func(c *Ctx) {
		r := c.root(pkgJARM, "Encoder", "Encode")
		iss, resp := r.Args[1], r.Args[2]
		for _, ev := range r.evs(evSerialize) {
			st, pos := ev.St, ev.Pos
			cl := func(n string) *Term { return serialClaim(r, st, ev.Args[2], n) }
			c.need(ev.Args[0] == r.Ctor[0], "signer", "Encode", pos, "another serializer is used")
			e := r.rd(st, resp, "Error")
			c.need(same(st, cl("state"), r.rd(st, resp, "State")), "state", "Encode", pos, "the state is not the response's")
			if nonNil(st, e) {
				c.need(same(st, cl("error"), r.rd(st, e, "Err")), "error.code", "Encode", pos, "the error code is not the response's")
				c.need(same(st, cl("error_description"), r.rd(st, e, "ErrorDescription")), "error.description", "Encode", pos, "the error description is not the response's")
				c.need(same(st, cl("code"), mkStr("")), "error.no-code", "Encode", pos, "an error response carries a code")
				continue
			}
			c.need(isNil(st, e), "decided", "Encode", pos, "a response with an error may be encoded as success")
			c.need(nonEmpty(st, iss) && same(st, cl("iss"), iss), "iss", "Encode", pos, "the issuer is not the given one")
			for n, f := range map[string]string{"aud": "ClientId", "code": "Code"} {
				c.need(same(st, cl(n), r.rd(st, resp, f)), n, "Encode", pos, "%s is not the response's %s", n, f)
				c.need(nonEmpty(st, r.rd(st, resp, f)), n+".present", "Encode", pos, "a response without %s is encoded", f)
			}
			c.need(nonEmpty(st, r.rd(st, resp, "State")), "state.present", "Encode", pos, "a response without state is encoded")
			exp, ok := cl("exp"), false
			in := r.rd(st, resp, "ExpiresIn")
			for _, now := range nows(st) {
				ok = ok || exp == addTerms(now, in) || exp == mkAddSecsTerm(now, in)
			}
			c.need(ok, "exp", "Encode", pos, "the expiry is not the lifetime from now: %s", exp)
			c.need(st.facts.eval(mkEq(in, mkInt(0))) == -1 || st.facts.eval(mkLt(mkInt(0), in)) == 1, "exp.positive", "Encode", pos, "a response without lifetime is encoded")
		}
		c.signedResult(r, "Encode", 0)
		c.floor("iss", 1, "success responses")
		c.floor("error.code", 1, "error responses")
	})

	register("C40", "a JARM response is accepted only typed, verified, addressed and fresh", "All outcomes of the JARM decoder are enumerated.", func(c *Ctx) {
		r := c.root(pkgJARM, "Decoder", "Decode")
		aud, raw := r.Args[1], r.Args[2]
		for _, o := range r.Outs {
			st, pos, res0 := o.st, outPos(r, o), o.res[0]
			code := func() *Term { return r.rd(st, res0, "Code") }
			if !isNil(st, o.res[1]) {
				c.need(isNil(st, res0) || same(st, code(), mkStr("")), "error.no-code", "Decode", pos, "a code is returned with an error")
				continue
			}
			if !c.need(nonNil(st, res0), "response", "Decode", pos, "success without a response") {
				continue
			}
			typed := false
			for _, p := range calls(st, evVerParse) {
				if p.Args[0] != r.Ctor[1] || !same(st, p.Args[1], raw) || !okCall(st, p, 1) {
					continue
				}
				for _, t := range calls(st, evTokType) {
					if same(st, t.Args[0], res(p, 0)) && okCall(st, t, 1) && same(st, res(t, 0), mkStr(purposes["JARMSigner"]+"+jwt")) {
						typed = true
					}
				}
			}
			c.need(typed, "typ", "Decode", pos, "a response of another type is accepted")
			var cs *Term
			for _, x := range calls(st, evVerClaims) {
				if x.Args[0] == r.Ctor[1] && same(st, x.Args[2], raw) && okCall(st, x, 0) {
					cs = decodedInto(r, st, x)
				}
			}
			if !c.need(cs != nil, "verified", "Decode", pos, "the claims are not those verified by the verifier") {
				continue
			}
			e := r.rd(st, res0, "Error")
			if nonNil(st, e) {
				c.need(same(st, code(), mkStr("")), "error.no-code", "Decode", pos, "an error response carries a code")
				c.need(nonEmpty(st, claim(cs, "error")) && same(st, r.rd(st, e, "Err"), claim(cs, "error")), "error.code", "Decode", pos, "the error is not the response's")
				c.need(same(st, r.rd(st, e, "ErrorDescription"), claim(cs, "error_description")), "error.description", "Decode", pos, "the error description is not the response's")
				continue
			}
			c.need(isNil(st, e), "decided", "Decode", pos, "whether the response is an error is not decided")
			c.need(same(st, claim(cs, "error"), mkStr("")), "error.kept", "Decode", pos, "an error response is taken for a success")
			c.need(same(st, claim(cs, "iss"), r.Ctor[0]), "iss", "Decode", pos, "a response of another issuer is accepted")
			c.need(nonEmpty(st, aud) && same(st, claim(cs, "aud"), aud), "aud", "Decode", pos, "a response for another client is accepted")
			c.need(notExpired(st, claim(cs, "exp")), "exp", "Decode", pos, "an expired response is accepted")
			for n, f := range map[string]string{"code": "Code", "state": "State", "iss": "Issuer"} {
				c.need(same(st, r.rd(st, res0, f), claim(cs, n)), "field."+n, "Decode", pos, "the returned %s is not the response's", f)
			}
		}
		c.floor("field.code", 1, "success responses")
		c.floor("error.code", 1, "error responses")
	})

	register("C41", "request objects are exactly the signed authorization request", "The claims handed to the signer and the object returned by the decoder are traced through the JSON conversions.", func(c *Ctx) {
		r := c.root(pkgJWSReq, "AuthorizationRequestEncoder", "Encode")
		for _, ev := range r.evs(evSerialize) {
			st := ev.St
			c.need(ev.Args[0] == r.Ctor[0], "signer", "Encode", ev.Pos, "another serializer is used")
			c.need(nonNil(st, r.Args[1]), "present", "Encode", ev.Pos, "a missing request is signed")
			v := stripIface(ev.Args[2])
			c.need(contains(v, r.Args[1]) && jsonOnly(v, r.Args[1]), "claims", "Encode", ev.Pos, "the signed claims are not the JSON form of the request: %s", v)
			c.need(!changedMap(st, v), "unchanged", "Encode", ev.Pos, "the claims are changed before they are signed")
			names, extra := protoForm(v)
			c.need(names, "names", "Encode", ev.Pos, "the signed claims do not have the registered parameter names")
			c.need(!extra, "given", "Encode", ev.Pos, "parameters that were not given are signed")
		}
		c.signedResult(r, "Encode", 0)
		r = c.root(pkgJWSReq, "AuthorizationRequestDecoder", "Decode")
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !isNil(st, o.res[1]) {
				c.need(isNil(st, o.res[0]), "decode.error", "Decode", pos, "a request is returned with an error")
				continue
			}
			var cs *Term
			for _, x := range calls(st, evVerClaims) {
				if x.Args[0] == r.Ctor[0] && same(st, x.Args[2], r.Args[1]) && okCall(st, x, 0) {
					cs = decodedInto(r, st, x)
				}
			}
			if !c.need(cs != nil, "decode.verified", "Decode", pos, "a request is decoded without verification") {
				continue
			}
			c.need(nonEmpty(st, r.Args[1]), "decode.present", "Decode", pos, "an empty request object is decoded")
			v := r.derefv(st, o.res[0])
			c.need(contains(v, cs) && jsonOnly(v, cs), "decode.request", "Decode", pos, "the request is not the JSON form of the verified claims: %s", v)
			c.need(!changedMap(st, cs), "decode.unchanged", "Decode", pos, "the verified claims are changed before they are used")
			lossy := false
			walk(v, func(t *Term) bool {
				if t.Op == "pure" && strings.HasSuffix(t.S, "protojson.UnmarshalOptions).Unmarshal") {
					lossy = lossy || mkFld(t.Args[0], "DiscardUnknown", types.Typ[types.Bool]) != mkBool(false)
				}
				return true
			})
			c.need(!lossy, "decode.all", "Decode", pos, "claims of the request object are dropped")
		}
		c.floor("claims", 1, "signing calls")
		c.floor("decode.request", 1, "successful decodings")
	})

	register("C42", "encrypted tokens are signed first and never returned in clear", "All outcomes of the encrypting serializer are enumerated.", func(c *Ctx) {
		r := c.root(pkgSdkToken, "Encryption", "Serialize")
		for _, ev := range r.evs(evEncrypt) {
			st := ev.St
			var s *Term
			for _, x := range calls(st, evSerialize) {
				if okCall(st, x, 1) && x.Args[0] == r.Ctor[0] && stripIface(x.Args[2]) == stripIface(r.Args[1]) {
					s = x
				}
			}
			c.need(ev.Args[0] == r.Ctor[1], "encrypter", "Encryption", ev.Pos, "another encrypter is used")
			if c.need(s != nil, "signed", "Encryption", ev.Pos, "something is encrypted that the signer did not produce from the claims") {
				c.need(same(st, ev.Args[3], res(s, 0)), "content", "Encryption", ev.Pos, "the encrypted content is not the signed token")
			}
			ct := false
			for _, x := range calls(st, evContType) {
				ct = ct || x.Args[0] == r.Ctor[0] && same(st, ev.Args[2], res(x, 0))
			}
			c.need(ct, "content-type", "Encryption", ev.Pos, "the content type is not the signer's")
			aad, isC := stripConv(ev.Args[4]).str()
			c.need(isC && aad != "", "purpose", "Encryption", ev.Pos, "the encryption is not bound to its purpose: the associated data is %s", ev.Args[4])
		}
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !isNil(st, o.res[1]) {
				c.need(same(st, o.res[0], mkStr("")), "error", "Encryption", pos, "a token is returned with an error")
				continue
			}
			ok := false
			for _, x := range calls(st, evEncrypt) {
				ok = ok || okCall(st, x, 1) && same(st, o.res[0], res(x, 0))
			}
			c.need(ok, "result", "Encryption", pos, "the result is not the encrypted token")
		}
		c.floor("result", 1, "successes")
		c.floor("content", 1, "encryptions")
	})
}

const evCoseSign = "(*go.mozilla.org/cose.SignMessage).Sign"

// coseSignature finds the signature added to a message.
func coseSignature(st *State, msg *Term) *Term {
	for _, x := range calls(st, "(*go.mozilla.org/cose.SignMessage).AddSignature") {
		if x.Args[0] == msg {
			return x.Args[1]
		}
	}
	return nil
}

// coseHeader reads a header of a signature.
func coseHeader(r *Root, st *State, sig *Term, part, key string) *Term {
	m := r.rd(st, sig, "Headers", part)
	for a, v := range st.mem {
		if a.Op == "mapent" && a.Args[0] == m {
			if s, ok := stripIface(a.Args[1]).str(); ok && s == key {
				return v
			}
		}
	}
	return nil
}

func (c *Ctx) contentType(r *Root, name, want string) {
	for _, o := range r.Outs {
		s, ok := o.res[0].str()
		c.need(ok && s == want, "content-type", name, outPos(r, o), "the content type is %s, not %s", o.res[0], want)
	}
}

func cborKey(t types.Type, field string) string {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == field {
			k, opts, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("cbor"), ",")
			if !strings.Contains(opts, "keyasint") {
				return k + " (text)"
			}
			return k
		}
	}
	return ""
}

func distinctCbor(t types.Type) bool {
	if t == nil {
		return false
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return true
	}
	seen := map[string]bool{}
	for i := 0; i < u.NumFields(); i++ {
		k, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("cbor"), ",")
		if k == "" {
			continue
		}
		if seen[k] {
			return false
		}
		seen[k] = true
	}
	return true
}

func mkAddSecsTerm(now, in *Term) *Term { return mkT(types.Typ[types.Int64], "plusn", "", now, in) }

// decodedInto finds the value a call decoded into its last argument.
func decodedInto(r *Root, st *State, call *Term) *Term {
	a := stripIface(call.Args[len(call.Args)-1])
	if a.T == nil {
		return nil
	}
	return r.derefv(st, a)
}

// jsonOnly tells whether a value is derived from src by JSON encoding and
// decoding only.
// protoForm tells whether a message was converted to JSON with the names of
// its definition, and whether fields that are not set were added.
func protoForm(v *Term) (names, extra bool) {
	names = true
	walk(v, func(t *Term) bool {
		if t.Op != "pure" {
			return true
		}
		switch {
		case strings.HasSuffix(t.S, "protojson.MarshalOptions).Marshal"):
			o := t.Args[0]
			f := func(n string) *Term { return mkFld(o, n, types.Typ[types.Bool]) }
			names = names && f("UseProtoNames") == mkBool(true)
			extra = extra || f("EmitUnpopulated") != mkBool(false) || f("EmitDefaultValues") != mkBool(false)
		case strings.HasSuffix(t.S, "protojson.Marshal"):
			names = false
		}
		return true
	})
	return names, extra
}

func jsonOnly(v, src *Term) bool {
	ok := true
	walk(v, func(t *Term) bool {
		if t == src {
			return false
		}
		if t.Op == "pure" || t.Op == "call" {
			n := t.S
			if t.Op == "call" {
				n = callName(t)
			}
			if !strings.Contains(n, "json") && !strings.Contains(n, "bytes.") {
				ok = false
			}
		}
		return true
	})
	return ok
}

// tokenReports: what a parsed token tells about itself.
func init() {
	register("C70", "a parsed token reports its own header and verified claims", "Every method of the tokens returned by the JWT parsers is enumerated from each successful outcome of the parsing; what it reports must be read from the parsed token.", func(c *Ctx) {
		for _, ctor := range []string{"DefaultVerifier", "EmbeddedKeyVerifier"} {
			r := c.root(pkgJWT, ctor, "Parse")
			for _, o := range r.Outs {
				if !isNil(o.st, o.res[1]) {
					continue
				}
				var t *Term
				okResults(o.st, func(call *Term, idx string) bool {
					if call.Op == "pure" && call.S == evParseJWT && idx == "1" && call.Args[0] == r.Args[0] {
						t = res(call, 0)
					}
					return false
				})
				v := o.st.facts.find(o.res[0])
				if !c.need(t != nil && v.Op == "iface" && v.T != nil, "token", ctor, outPos(r, o), "the returned token is not the parsed one") {
					continue
				}
				for _, m := range []string{"Type", "KeyID", "Algorithm", "PublicKey", "PublicKeyThumbPrint", "Claims"} {
					f := c.p.method(v.T, m, nil)
					if f == nil {
						bail("method %s of %s not found", m, v)
					}
					args := paramTerms(f, 1, "t"+m)
					for _, q := range r.E.run(f, r.E.ctx(2, nil, f), append([]*Term{v.Args[0]}, args...), nil, o.st.clone(), nil) {
						c.tokenReport(ctor, m, c.p.fset.Position(f.Pos()).String(), q, t, args)
					}
				}
			}
		}
		for _, m := range []string{"Type", "KeyID", "Algorithm", "PublicKey", "PublicKeyThumbPrint", "Claims"} {
			c.floor(m, 2, "successful reports")
		}
	})
}

// tokenReport judges one outcome of a method of a parsed token.
func (c *Ctx) tokenReport(ctor, m, pos string, q *Outcome, t *Term, args []*Term) {
	st := q.st
	if m == "Claims" {
		if nonNil(st, q.res[0]) {
			return
		}
		own := func(call *Term) bool {
			return call.Op == "pure" && call.S == evJWTClaims && call.Args[0] == t && keyValue(call.Args[1]) == keyValue(args[0])
		}
		ok := q.res[0].Op == "res" && own(q.res[0].Args[0])
		okResults(st, func(call *Term, idx string) bool {
			ok = ok || own(call)
			return false
		})
		c.need(ok, m, ctor, pos, "claims are extracted from the token without its verification with the given key")
		return
	}
	if !isNil(st, q.res[1]) {
		c.need(nonNil(st, q.res[1]), "decided", ctor, pos, "%s: whether it succeeds is not decided", m)
		return
	}
	// as it stands in the header, converted to a string at most
	is := func(v *Term, name string) bool {
		return v.String() == t.String()+".Headers[0]."+name
	}
	found := equalTo(st, q.res[0], func(x *Term) bool {
		for len(x.Args) == 1 && x.Op != "pure" && x.Op != "fld" && x.Op != "sel" && x.Op != "load" {
			x = x.Args[0]
		}
		switch m {
		case "Type":
			return x.Op == "lookup" && is(x.Args[0], "ExtraHeaders") && x.Args[1] == mkStr("typ")
		case "KeyID", "Algorithm":
			return is(x, m)
		case "PublicKey":
			return is(x, "JSONWebKey")
		}
		if x.Op == "pure" && strings.HasSuffix(x.S, ".EncodeToString") && x.Args[0].String() == b64raw(tNil).Args[0].String() {
			h := x.Args[1]
			return h.Op == "res" && h.S == "0" && h.Args[0].Op == "pure" && strings.HasSuffix(h.Args[0].S, "v4.JSONWebKey).Thumbprint") &&
				is(h.Args[0].Args[0], "JSONWebKey") && h.Args[0].Args[1] == mkInt(5) && isNil(st, res(h.Args[0], 1))
		}
		return false
	})
	c.need(found, m, ctor, pos, "%s is not reported as it is in the header of the token", m)
}
