package main

import (
	"go/types"
	"strings"
)

const (
	pkgSdkToken = "sdk/token"
	pkgCWT      = "sdk/token/cwt"
	pkgJWK      = "sdk/jwk"
	pkgJARM     = "sdk/jarm"
	pkgJWSReq   = "sdk/jwsreq"
	evKeyProv   = "dyn:zntr.io/solid/sdk/jwk.KeyProviderFunc"
	evSetProv   = "dyn:zntr.io/solid/sdk/jwk.KeySetProviderFunc"
	evEncrypt   = "(zntr.io/solid/sdk/token.Encrypter).Encrypt"
	evContType  = "(zntr.io/solid/sdk/token.Serializer).ContentType"
	evNewSigner = "github.com/go-jose/go-jose/v4.NewSigner"
)

// disclosed lists the claims of a serialised object other than the given one
// that are set to something.
func disclosed(r *Root, st *State, obj *Term, except string) []string {
	for obj.Op == "iface" {
		obj = obj.Args[0]
	}
	var l []string
	if obj.Op == "mkmap" {
		for a := range st.mem {
			if a.Op == "mapent" && a.Args[0] == obj {
				if s, ok := a.Args[1].str(); !ok || s != except {
					l = append(l, s)
				}
			}
		}
		return l
	}
	owner := structOf(obj)
	if owner == nil {
		return []string{"?"}
	}
	u := owner.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if tagField(owner, except) == f {
			continue
		}
		v := r.rd(st, obj, f.Name())
		if isNil(st, v) || same(st, v, mkStr("")) || same(st, v, mkInt(0)) || v == tFalse || v == zeroOf(f.Type()) {
			continue
		}
		l = append(l, f.Name())
	}
	return l
}

// ---- generated validation ----------------------------------------------------

const ozzo = "github.com/go-ozzo/ozzo-validation/v4."

// ozzoRules lists the validation rules successfully applied to a field.
func ozzoRules(r *Root, st *State, obj *Term, field string) []*Term {
	var l []*Term
	want := r.rd(st, obj, field)
	trueFacts(st, func(c *Term) bool {
		if c.Op != "eq" || c.Args[0] != tNil {
			return false
		}
		v := c.Args[1]
		if v.Op == "pure" && v.S == ozzo+"Validate" && same(st, stripIface(v.Args[0]), want) {
			l = append(l, v.Args[1:]...)
		}
		if v.Op != "pure" || v.S != ozzo+"ValidateStruct" {
			return false
		}
		for _, f := range v.Args[1:] {
			if f.Op != "pure" || f.S != ozzo+"Field" {
				continue
			}
			a := stripIface(f.Args[0])
			if a.Op == "fa" && a.Args[0] == stripIface(obj) && strings.HasSuffix(a.S, "."+field) || a == want || r.E.load(st, a, want.T) == want {
				l = append(l, f.Args[1:]...)
			}
		}
		return false
	})
	return l
}

func stripIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func ozzoHas(rules []*Term, name string) bool {
	for _, x := range rules {
		if strings.HasSuffix(stripIface(x).S, name) {
			return true
		}
	}
	return false
}

// ozzoBound lists the thresholds of a bound rule.
func ozzoBound(rules []*Term, name string) []*Term {
	var l []*Term
	for _, x := range rules {
		x = stripIface(x)
		if x.Op == "pure" && x.S == ozzo+name {
			l = append(l, stripIface(x.Args[0]))
		}
	}
	return l
}

func init() {
	register("C24", "a signed introspection response tells the truth about the token", "The claims object at every signing call of the introspection generator is read from the abstract heap, together with the conditions on the token established on the path.", func(c *Ctx) {
		r := c.root(pkgSdkToken, "Introspection", "Generate")
		tok := r.Args[1]
		active := c.constOf("api/oidc/token/v1", "TokenStatus_TOKEN_STATUS_ACTIVE")
		for _, ev := range r.evs(evSerialize) {
			st, pos := ev.St, ev.Pos
			top := func(n string) *Term { return serialClaim(r, st, ev.Args[2], n) }
			c.need(ev.Args[0] == r.Ctor[0], "signer", "Generate", pos, "another serializer is used")
			c.need(same(st, top("iss"), r.rd(st, tok, "Metadata", "Issuer")), "iss", "Generate", pos, "the issuer of the response is not the token's issuer")
			fresh := false
			for _, n := range nows(st) {
				if top("iat") == n {
					fresh = true
				}
			}
			c.need(fresh, "iat", "Generate", pos, "the issue time of the response is not the current time")
			in := top("token_introspection")
			f := func(n string) *Term { return serialClaim(r, st, in, n) }
			ex, nb := r.rd(st, tok, "Metadata", "ExpiresAt"), r.rd(st, tok, "Metadata", "NotBefore")
			a := f("active")
			switch {
			case a == tTrue || holds(st, a):
				c.need(same(st, r.rd(st, tok, "Status"), active), "active.status", "Generate", pos, "a token that is not active is reported as active")
				c.need(notExpired(st, ex), "active.exp", "Generate", pos, "an expired token is reported as active")
				c.need(alreadyValid(st, nb), "active.nbf", "Generate", pos, "a token that is not yet valid is reported as active")
				for n, p := range map[string]*Term{
					"iss": r.rd(st, tok, "Metadata", "Issuer"), "aud": r.rd(st, tok, "Metadata", "Audience"), "iat": r.rd(st, tok, "Metadata", "IssuedAt"), "exp": ex,
					"client_id": r.rd(st, tok, "Metadata", "ClientId"), "scope": r.rd(st, tok, "Metadata", "Scope"), "sub": r.rd(st, tok, "Metadata", "Subject"), "jti": r.rd(st, tok, "TokenId")} {
					c.need(same(st, f(n), p), "active."+n+".value", "Generate", pos, "the reported %s is not the token's", n)
				}
			case a == tFalse || st.facts.eval(a) == -1:
				why := st.facts.eval(mkEq(r.rd(st, tok, "Status"), active)) == -1
				for _, now := range nows(st) {
					why = why || st.facts.eval(mkLt(ex, now)) == 1 || st.facts.eval(mkLt(now, nb)) == 1
				}
				c.need(why, "inactive.why", "Generate", pos, "a usable token is reported as inactive")
				l := disclosed(r, st, in, "active")
				c.need(len(l) == 0, "inactive.empty", "Generate", pos, "an inactive token is reported with %v", l)
			default:
				c.need(false, "decided", "Generate", pos, "whether the token is active does not depend on its state")
			}
		}
		c.signedResult(r, "Generate", 0)
		c.floor("active.status", 1, "active reports")
		c.floor("inactive.empty", 3, "inactive reports")
	})

	register("C34", "a key set validates only signatures made by one of its signing keys", "All outcomes of the key set validation functions are enumerated.", func(c *Ctx) {
		for _, fn := range []string{"ValidateToken", "ValidateSignature"} {
			r := c.root(pkgJWK, fn, "")
			set, tok := r.Args[0], r.Args[1]
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[0]) {
					c.need(nonNil(st, o.res[0]), "decided", fn, pos, "the outcome is not decided")
					continue
				}
				c.need(nonNil(st, set) && nonNil(st, tok), "present", fn, pos, "a missing key set or token is accepted")
				ok := false
				for _, k := range verifiedBy(st, func(t *Term) bool { return t == tok || wholeOf(t) == tok }) {
					kv := keyValue(k)
					if l := elemList(kv); l != nil && same(st, l, r.rd(st, set, "Keys")) && notEnc(r.E, st, k) {
						ok = true
					}
				}
				c.need(ok, "verified", fn, pos, "success without a verification by a non-encryption key of the set")
				if fn == "ValidateToken" {
					v := r.derefv(st, r.Args[2])
					c.need(v.Op != "decoded" || strings.HasSuffix(v.Args[0].S, ".Claims"), "claims", fn, pos, "the claims are not those of the verified token")
				}
			}
		}
		c.floor("verified", 2, "successful validations")
	})

	register("C35", "token verifiers use only configured algorithms and the right keys", "All outcomes of the JWT verifiers are enumerated; the claims extraction of each must be the one that verified the signature.", func(c *Ctx) {
		parsed := func(st *State, raw, algs *Term) *Term {
			var t *Term
			okResults(st, func(call *Term, idx string) bool {
				if call.Op == "pure" && call.S == evParseJWT && idx == "1" && call.Args[0] == raw && call.Args[1] == algs {
					t = res(call, 0)
				}
				return false
			})
			return t
		}
		for _, ctor := range []string{"DefaultVerifier", "EmbeddedKeyVerifier"} {
			// parsing
			r := c.root(pkgJWT, ctor, "Parse")
			algs := r.Ctor[len(r.Ctor)-1]
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					c.need(isNil(st, o.res[0]), "parse.error", ctor, pos, "a token is returned with an error")
					continue
				}
				t := parsed(st, r.Args[0], algs)
				if !c.need(t != nil, "parse.algs", ctor, pos, "a token is accepted that was not parsed restricted to the configured algorithms") {
					continue
				}
				c.need(wraps(st, o.res[0], t), "parse.same", ctor, pos, "the returned token is not the parsed one")
			}
			// verification without claims
			r = c.root(pkgJWT, ctor, "Verify")
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[0]) {
					continue
				}
				t := parsed(st, r.Args[0], r.Ctor[len(r.Ctor)-1])
				if !c.need(t != nil, "verify.algs", ctor, pos, "a token is accepted that was not parsed restricted to the configured algorithms") {
					continue
				}
				if ctor == "EmbeddedKeyVerifier" {
					hd := r.E.load(st, mkIA(r.rd(st, t, "Headers"), mkInt(0)), nil)
					_ = hd
					ok, alg := false, false
					for _, k := range verifiedBy(st, func(x *Term) bool { return x == t }) {
						kv := keyValue(k)
						if kv.Op != "decoded" && contains(kv, t) && strings.Contains(kv.String(), "JSONWebKey") && nonNil(st, kv) {
							ok = true
							ka := r.rd(st, kv, "Algorithm")
							if equalTo(st, ka, func(x *Term) bool { return x != ka && strings.HasSuffix(x.String(), ".Algorithm") && contains(x, t) }) {
								alg = true
							}
						}
					}
					c.need(ok, "verify.signature", ctor, pos, "the signature is not verified with the embedded key")
					c.need(alg, "verify.key-alg", ctor, pos, "the algorithm of the embedded key is not compared with the token's")
				}
			}
			// claims
			r = c.root(pkgJWT, ctor, "Claims")
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[0]) {
					c.need(nonNil(st, o.res[0]), "claims.decided", ctor, pos, "the outcome is not decided")
					continue
				}
				t := parsed(st, r.Args[1], r.Ctor[len(r.Ctor)-1])
				if !c.need(t != nil, "claims.algs", ctor, pos, "claims are extracted from a token that was not parsed restricted to the configured algorithms") {
					continue
				}
				keys := verifiedBy(st, func(x *Term) bool { return x == t })
				if ctor == "EmbeddedKeyVerifier" {
					ok := false
					for _, k := range keys {
						if kv := keyValue(k); contains(kv, t) && strings.Contains(kv.String(), "JSONWebKey") && nonNil(st, kv) {
							ok = true
						}
					}
					c.need(ok, "claims.signature", ctor, pos, "claims are extracted without verification by the embedded key")
					continue
				}
				var set *Term
				for _, p := range calls(st, evSetProv) {
					if okCall(st, p, 1) && p.Args[0] == r.Ctor[0] && nonNil(st, res(p, 0)) {
						set = res(p, 0)
					}
				}
				if !c.need(set != nil, "claims.set", ctor, pos, "claims are extracted without a key set from the provider") {
					continue
				}
				kid := headerKid(st, r, t)
				ok, use, byID := false, false, false
				for _, k := range keys {
					kv := keyValue(k)
					l := elemList(kv)
					switch {
					case l == nil:
						continue
					case same(st, l, r.rd(st, set, "Keys")):
						ok = true
						byID = byID || same(st, kid, mkStr("")) || same(st, r.E.rdOf(st, k, "KeyID"), kid)
					case l.Op == "pure" && strings.HasSuffix(l.S, "JSONWebKeySet).Key") && contains(l.Args[0], set):
						ok = true
						byID = byID || same(st, l.Args[1], kid)
					default:
						continue
					}
					use = use || notEnc(r.E, st, k)
				}
				c.need(ok, "claims.signature", ctor, pos, "claims are extracted without verification by a key of the set")
				c.need(use, "claims.key-use", ctor, pos, "an encryption key may verify a signature")
				c.need(byID, "claims.kid", ctor, pos, "a token naming a key may be verified with another key")
			}
		}
		c.floor("claims.signature", 2, "successful extractions")
		c.floor("parse.same", 2, "successful parses")
		c.floor("verify.signature", 1, "successful verifications")
	})

	register("C36", "signers sign the given claims with an identifiable key of the right kind", "All outcomes of the signers, for each constructor, are enumerated; header and key of the signature are read from the signing calls.", func(c *Ctx) {
		for _, ctor := range signerCtors(c, pkgJWT) {
			r := c.root(pkgJWT, ctor, "Serialize")
			name := "jwt." + ctor
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					c.need(same(st, o.res[0], mkStr("")), "error", name, pos, "a token is returned with an error")
					continue
				}
				key := c.signingKey(r, st, name, pos)
				if key == nil {
					continue
				}
				var ns *Term
				for _, x := range calls(st, evNewSigner) {
					if okCall(st, x, 1) {
						ns = x
					}
				}
				if !c.need(ns != nil, "signer", name, pos, "no signer is created") {
					continue
				}
				sk := ns.Args[0]
				c.need(same(st, mkFld(sk, "Algorithm", nil), r.Ctor[0]), "alg", name, pos, "the token is not signed with the configured algorithm")
				c.need(stripIface(mkFld(sk, "Key", nil)) == key, "key", name, pos, "the token is not signed with the provided key")
				h := joseHeaders(r, st, ns.Args[1])
				c.need(h["kid"] != nil && same(st, stripIface(h["kid"]), r.rd(st, key, "KeyID")), "kid", name, pos, "the header does not identify the signing key %s", ns.Args[1])
				emb := h["embed"]
				c.need(emb == mkBool(ctor == "DPoPSigner"), "embed", name, pos, "the key is embedded exactly for DPoP proofs")
				ser := o.res[0]
				okr := ser.Op == "res" && contains(ser, ns) && contains(ser, r.Args[1])
				c.need(okr, "result", name, pos, "the result is not the signature over the given claims")
			}
		}
		for _, ctor := range signerCtors(c, pkgCWT) {
			r := c.root(pkgCWT, ctor, "Serialize")
			name := "cwt." + ctor
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					c.need(same(st, o.res[0], mkStr("")), "error", name, pos, "a token is returned with an error")
					continue
				}
				key := c.signingKey(r, st, name, pos)
				if key == nil {
					continue
				}
				c.need(trueOrFalse(st, "JSONWebKey).IsPublic", key) == -1, "private", name, pos, "a public key is accepted for signing")
				alg := r.Ctor[len(r.Ctor)-2]
				ok := false
				for _, x := range calls(st, "go.mozilla.org/cose.NewSignerFromKey") {
					if okCall(st, x, 1) && x.Args[0] == alg && stripIface(x.Args[1]) == r.rd(st, key, "Key") {
						ok = true
					}
				}
				c.need(ok, "key", name, pos, "the token is not signed with the provided key and the configured algorithm")
				signed, value := false, false
				for _, x := range calls(st, evCoseSign) {
					if okCall(st, x, 0) {
						signed = true
						for _, m := range calls(st, "(*go.mozilla.org/cose.SignMessage).MarshalCBOR") {
							value = value || m.Args[0] == x.Args[0] && okCall(st, m, 1) && o.res[0] == b64raw(res(m, 0))
						}
					}
				}
				c.need(value, "result", name, pos, "the result is not the signed message in URL-safe encoding")
				c.need(signed, "signed", name, pos, "a message is returned that was not signed")
			}
		}
		for _, ctor := range signerCtors(c, pkgCWT) {
			r := c.root(pkgCWT, ctor, "Serialize")
			name := "cwt." + ctor
			for _, ev := range r.evs(evCoseSign) {
				st, pos := ev.St, ev.Pos
				var key *Term
				for _, p := range calls(st, evKeyProv) {
					if okCall(st, p, 1) {
						key = res(p, 0)
					}
				}
				sig := coseSignature(st, ev.Args[0])
				if !c.need(sig != nil && key != nil, "cwt.signature", name, pos, "no signature is added before signing") {
					continue
				}
				key.T = c.namedPtr("github.com/go-jose/go-jose/v4", "JSONWebKey")
				kid := coseHeader(r, st, sig, "Unprotected", "kid")
				if kid == nil {
					kid = coseHeader(r, st, sig, "Protected", "kid")
				}
				c.need(kid != nil && same(st, stripIface(kid), r.rd(st, key, "KeyID")), "kid", name, pos, "the header does not identify the signing key")
				alg := r.Ctor[len(r.Ctor)-2]
				h := coseHeader(r, st, sig, "Protected", "alg")
				c.need(h != nil && same(st, stripIface(h), r.rd(st, alg, "Name")), "alg", name, pos, "the algorithm header is not the configured algorithm")
				c.need(len(ev.Args) > 2 && stripIface(ev.Args[2]) == mkStr("solid"), "context", name, pos, "the signature does not cover the context of the library")
				pl := r.rd(st, ev.Args[0], "Payload")
				c.need(pl.Op == "res" && pl.S == "0" && strings.HasSuffix(pl.Args[0].S, "cbor/v2.Marshal") && stripIface(pl.Args[0].Args[0]) == stripIface(r.Args[1]), "payload", name, pos, "the payload is not the given claims")
				cut := 0
				for _, x := range calls(st, "(*go.mozilla.org/cose.SignMessage).AddSignature") {
					if x.Args[0] == ev.Args[0] {
						cut++
					}
				}
				c.need(cut == 1, "cwt.signature", name, pos, "%d signatures are added", cut)
			}
		}
		c.floor("payload", 7, "CWT signers")
		c.floor("key", 10, "signers")
	})
}

// wraps tells whether a value holds the given one.
func wraps(st *State, v, x *Term) bool {
	v = stripIface(v)
	if v == x {
		return true
	}
	for a, m := range st.mem {
		if a.Op == "fa" && a.Args[0] == v && m == x {
			return true
		}
	}
	if m, ok := st.mem[v]; ok && contains(m, x) {
		return true
	}
	return false
}

// elemList finds the list a value is an element of.
func elemList(v *Term) *Term {
	if v.Op == "sel" && v.Args[0].Op == "ia" {
		return v.Args[0].Args[0]
	}
	if v.Op == "idx" {
		return v.Args[0]
	}
	if w := wholeOf(v); w != nil && w.Op == "ia" {
		return w.Args[0]
	}
	return nil
}

// wholeOf finds the address a structure value was read from field by field.
func wholeOf(v *Term) *Term {
	if v.Op != "struct" || len(v.Args) == 0 {
		return nil
	}
	var at *Term
	for _, f := range v.Args {
		if f.Op != "sel" || f.Args[0].Op != "fa" {
			return nil
		}
		if at != nil && at != f.Args[0].Args[0] {
			return nil
		}
		at = f.Args[0].Args[0]
	}
	return at
}

// headerKid finds the key identifier of the first header of a parsed token.
func headerKid(st *State, r *Root, t *Term) *Term {
	var k *Term
	for c := range st.facts.m {
		walk(c, func(x *Term) bool {
			if k == nil && x.T != nil && isStringType(x.T) && strings.HasSuffix(x.String(), "[0].KeyID") && contains(x, t) {
				k = x
			}
			return true
		})
	}
	if k == nil {
		return mk("nokid", "")
	}
	return k
}

func (e *Engine) rdOf(st *State, k *Term, f string) *Term { return rdField(e, st, keyValue(k), f) }

// trueOrFalse evaluates a predicate method on a value.
func trueOrFalse(st *State, suffix string, x *Term) int {
	for c, pol := range st.facts.m {
		if c.Op == "pure" && strings.HasSuffix(c.S, suffix) && len(c.Args) == 1 && c.Args[0] == x {
			if pol {
				return 1
			}
			return -1
		}
	}
	return 0
}

// signerCtors lists the exported constructors of serializers of a package.
func signerCtors(c *Ctx, pkg string) []string {
	a := c.p.asts[modPath+"/"+pkg]
	if a == nil {
		bail("package %s not found", pkg)
	}
	var l []string
	sc := a.Types.Scope()
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		res := f.Type().(*types.Signature).Results()
		if res.Len() == 1 && strings.HasSuffix(res.At(0).Type().String(), "token.Serializer") {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		bail("no signer constructors in %s", pkg)
	}
	return l
}

// signingKey checks the key obtained from the provider.
func (c *Ctx) signingKey(r *Root, st *State, name, pos string) *Term {
	var key *Term
	for _, p := range calls(st, evKeyProv) {
		if okCall(st, p, 1) && p.Args[0] == r.Ctor[len(r.Ctor)-1] {
			key = res(p, 0)
		}
	}
	if !c.need(key != nil, "provided", name, pos, "no key was obtained from the provider without error") {
		return nil
	}
	key.T = c.namedPtr("github.com/go-jose/go-jose/v4", "JSONWebKey")
	c.need(nonNil(st, key), "key-present", name, pos, "a missing key is used")
	c.need(nonEmpty(st, r.rd(st, key, "KeyID")), "key-id", name, pos, "a key without identifier is used")
	return key
}

func (c *Ctx) namedPtr(path, name string) types.Type {
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == path {
			if t := p.Type(name); t != nil {
				return types.NewPointer(t.Type())
			}
		}
	}
	bail("%s.%s not loaded", path, name)
	return nil
}

// joseHeaders evaluates the options of a signer: header values, "typ" and
// whether the key is embedded.
func joseHeaders(r *Root, st *State, o *Term) map[string]*Term {
	h := map[string]*Term{}
	if v, ok := st.mem[mkFieldAddr(o, "EmbedJWK", nil)]; ok {
		h["embed"] = v
	}
	for a, v := range st.mem {
		if a.Op == "fa" && a.Args[0] == o && strings.HasSuffix(a.S, "EmbedJWK") {
			h["embed"] = v
		}
	}
	for {
		o = stripIface(o)
		if o.Op != "pure" {
			break
		}
		switch {
		case strings.HasSuffix(o.S, "SignerOptions).WithType"):
			if h["typ"] == nil {
				h["typ"] = o.Args[1]
			}
		case strings.HasSuffix(o.S, "SignerOptions).WithHeader"):
			if s, ok := o.Args[1].str(); ok && h[s] == nil {
				h[s] = o.Args[2]
			}
		}
		o = o.Args[0]
	}
	for a, v := range st.mem {
		if h["embed"] == nil && a.Op == "fa" && a.Args[0] == o && strings.HasSuffix(a.S, "EmbedJWK") {
			h["embed"] = v
		}
	}
	for a, v := range st.mem {
		if a.Op != "fa" || a.Args[0] != o || a.S != "ExtraHeaders" && !strings.HasSuffix(a.S, ".ExtraHeaders") {
			continue
		}
		for b, x := range st.mem {
			if b.Op == "mapent" && b.Args[0] == v {
				if k, ok := stripIface(b.Args[1]).str(); ok && h[k] == nil {
					h[k] = stripIface(x)
				}
			}
		}
	}
	if h["embed"] == nil {
		h["embed"] = tFalse
	}
	return h
}

// signedResult requires that every success returns the output of the signer
// (constructor parameter i) and that failures return nothing.
func (c *Ctx) signedResult(r *Root, name string, i int) {
	for _, o := range r.Outs {
		st, pos := o.st, outPos(r, o)
		if !isNil(st, o.res[1]) {
			c.need(same(st, o.res[0], mkStr("")), "error", name, pos, "a value is returned with an error")
			continue
		}
		ok := false
		for _, s := range calls(st, evSerialize) {
			if okCall(st, s, 1) && same(st, o.res[0], res(s, 0)) && s.Args[0] == r.Ctor[i] {
				ok = true
			}
		}
		c.need(ok, "result", name, pos, "the result is not the output of the signer")
	}
	c.floor("result", 1, "successful signatures")
}
