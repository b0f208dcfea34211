package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	evParseJWS    = "github.com/go-jose/go-jose/v4.ParseSigned"
	evParseJWT    = "github.com/go-jose/go-jose/v4/jwt.ParseSigned"
	evJWTClaims   = "(*github.com/go-jose/go-jose/v4/jwt.JSONWebToken).Claims"
	evUnmarshal   = "encoding/json.Unmarshal"
	evDPoPExists  = "(zntr.io/solid/server/storage.DPoP).Exists"
	evDPoPReg     = "(zntr.io/solid/server/storage.DPoP).Register"
	evTokType     = "(zntr.io/solid/sdk/token.Token).Type"
	evTokKey      = "(zntr.io/solid/sdk/token.Token).PublicKey"
	evTokThumb    = "(zntr.io/solid/sdk/token.Token).PublicKeyThumbPrint"
	evTokClaims   = "(zntr.io/solid/sdk/token.Token).Claims"
	evVerParse    = "(zntr.io/solid/sdk/token.Verifier).Parse"
	evVerClaims   = "(zntr.io/solid/sdk/token.Verifier).Claims"
	evVerVerify   = "(zntr.io/solid/sdk/token.Verifier).Verify"
	evSerialize   = "(zntr.io/solid/sdk/token.Serializer).Serialize"
	pkgClientAuth = "server/clientauthentication"
	pkgDPoP       = "sdk/dpop"
	pkgJWT        = "sdk/token/jwt"
)

// tagField finds the field of a struct that is serialised under a JSON name.
func tagField(t types.Type, tag string) *types.Var {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		n, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		if n == tag {
			return u.Field(i)
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		n, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
		if n == "" && strings.EqualFold(u.Field(i).Name(), tag) {
			return u.Field(i)
		}
	}
	return nil
}

// claim reads a claim by its JSON name from a decoded object.
func claim(dec *Term, tag string) *Term {
	f := tagField(dec.T, tag)
	if f == nil {
		return mk("noclaim", tag, dec)
	}
	return mkFld(dec, f.Name(), f.Type())
}

// trueFacts enumerates the conditions known to hold.
func trueFacts(st *State, f func(c *Term) bool) bool {
	for c, pol := range st.facts.m {
		if pol && f(c) {
			return true
		}
	}
	return false
}

// okResults lists the pure calls whose error result is known to be nil.
func okResults(st *State, f func(call *Term, idx string) bool) bool {
	return trueFacts(st, func(c *Term) bool {
		if c.Op != "eq" || c.Args[0] != tNil || c.Args[1].Op != "res" {
			return false
		}
		return f(c.Args[1].Args[0], c.Args[1].S)
	})
}

// unmarshaled lists the objects decoded without error from a payload that
// satisfies a condition.
func unmarshaled(st *State, payload func(t *Term) bool) []*Term {
	var l []*Term
	okResults(st, func(call *Term, _ string) bool {
		if call.Op == "pure" && call.S == evUnmarshal && payload(call.Args[0]) {
			d := mkT(nil, "decoded", "", call)
			if d.T == nil {
				if t := decodedTypes[call.Args[1].S]; t != nil {
					d.T = deref(t)
				}
			}
			l = append(l, d)
		}
		return false
	})
	return l
}

// verifiedBy lists the keys with which the signature of a token derived from
// src was verified successfully.
func verifiedBy(st *State, src func(t *Term) bool) []*Term {
	var l []*Term
	okResults(st, func(call *Term, idx string) bool {
		if call.Op != "pure" && call.Op != "call" {
			return false
		}
		n := call.S
		if call.Op == "call" {
			n = callName(call)
		}
		switch n {
		case "(github.com/go-jose/go-jose/v4.JSONWebSignature).Verify", "(*github.com/go-jose/go-jose/v4.JSONWebSignature).Verify":
			if idx == "1" && src(call.Args[0]) {
				l = append(l, call.Args[1])
			}
		case evJWTClaims:
			if src(call.Args[0]) {
				l = append(l, call.Args[1])
			}
		}
		return false
	})
	return l
}

// has builds a predicate for terms built from x.
func has(x *Term) func(t *Term) bool { return func(t *Term) bool { return contains(t, x) } }

// equalTo finds a term known to be equal to x that satisfies a condition.
func equalTo(st *State, x *Term, f func(t *Term) bool) bool {
	if f(x) {
		return true
	}
	rx := st.facts.find(x)
	if f(rx) {
		return true
	}
	return trueFacts(st, func(c *Term) bool {
		if c.Op != "eq" {
			return false
		}
		for i := 0; i < 2; i++ {
			if c.Args[i] == x || st.facts.find(c.Args[i]) == rx {
				if f(c.Args[1-i]) || f(c.Args[i]) {
					return true
				}
			}
		}
		return false
	})
}

// notYetValid: nbf compared with the clock and found not to be in the future.
func alreadyValid(st *State, nbf *Term) bool {
	for _, now := range nows(st) {
		if st.facts.eval(mkLt(now, nbf)) == -1 {
			return true
		}
	}
	return false
}

// keyValue looks through pointers and interfaces to a key.
func keyValue(k *Term) *Term {
	for k.Op == "iface" {
		k = k.Args[0]
	}
	return k
}

// notEnc tells whether an encryption key was excluded.
func notEnc(e *Engine, st *State, k *Term) bool {
	use := rdField(e, st, keyValue(k), "Use")
	return st.facts.eval(mkEq(use, mkStr("enc"))) == -1 || same(st, use, mkStr("sig"))
}

// clientGet finds the successful lookup of a client id.
func clientGet(st *State, id *Term) *Term {
	for _, g := range calls(st, evClientGet) {
		if okCall(st, g, 1) && same(st, g.Args[2], id) {
			return res(g, 0)
		}
	}
	return nil
}

// registeredKeys lists the key sets decoded from the registered keys of a
// client.
func registeredKeys(r *Root, st *State, cl *Term) []*Term {
	jw := r.rd(st, cl, "Jwks")
	return unmarshaled(st, func(p *Term) bool { return same(st, p, jw) })
}

func init() {
	register("C27", "private_key_jwt accepts only a valid assertion of a registered client", "All outcomes of the private_key_jwt processor are enumerated; each success is checked for the conditions established on the assertion, its claims and its signature. Claims are identified by their serialised names.", func(c *Ctx) {
		r := c.root(pkgClientAuth, "PrivateKeyJWT", "Authenticate")
		req := r.Args[1]
		for _, o := range r.Outs {
			st, pos, rs := o.st, outPos(r, o), o.res[0]
			client := r.rd(st, rs, "Client")
			if !isNil(st, o.res[1]) {
				c.need(isNil(st, client), "error", "private_key_jwt", pos, "a client is returned together with an error")
				c.need(nonNil(st, r.rd(st, rs, "Error")), "reported", "private_key_jwt", pos, "a failure carries no protocol error")
				continue
			}
			at := r.rd(st, req, "ClientAssertionType")
			c.need(nonNil(st, at) && same(st, r.derefv(st, at), c.strOf("oidc", "AssertionTypeJWTBearer")), "type", "private_key_jwt", pos, "another assertion type is accepted")
			as := r.rd(st, req, "ClientAssertion")
			c.need(nonNil(st, as), "present", "private_key_jwt", pos, "a missing assertion is accepted")
			raw := r.derefv(st, as)
			var tok *Term
			okResults(st, func(call *Term, idx string) bool {
				if call.Op == "pure" && (call.S == evParseJWS || call.S == evParseJWT) && same(st, call.Args[0], raw) && call.Args[1] == r.Ctor[1] {
					tok = res(call, 0)
				}
				return false
			})
			if !c.need(tok != nil, "parsed", "private_key_jwt", pos, "the assertion is not parsed restricted to the supported algorithms") {
				continue
			}
			var cs *Term
			for _, d := range append(unmarshaled(st, has(tok)), jwtDecoded(st, tok)...) {
				if tagField(d.T, "iss") != nil {
					cs = d
				}
			}
			if !c.need(cs != nil, "claims", "private_key_jwt", pos, "the claims are not decoded from the assertion") {
				continue
			}
			for _, n := range []string{"iss", "sub", "aud", "jti"} {
				c.need(nonEmpty(st, claim(cs, n)), "claim."+n, "private_key_jwt", pos, "an assertion without %s is accepted", n)
			}
			c.need(same(st, claim(cs, "iss"), claim(cs, "sub")), "iss=sub", "private_key_jwt", pos, "issuer and subject of the assertion may differ")
			c.need(notExpired(st, claim(cs, "exp")), "exp", "private_key_jwt", pos, "an expired assertion is accepted")
			cl := clientGet(st, claim(cs, "iss"))
			if !c.need(cl != nil, "client", "private_key_jwt", pos, "the assertion's client is not looked up") {
				continue
			}
			c.need(same(st, client, cl), "answer", "private_key_jwt", pos, "the returned client is not the one of the assertion")
			c.checkSignature(r, st, "private_key_jwt", pos, tok, cl)
		}
		c.floor("signature", 1, "successful authentications")
		c.floor("reported", 10, "failed authentications")
	})

	register("C28", "client attestation requires a valid attestation and proof of possession", "All outcomes of the attestation processor are enumerated; each success is checked for the conditions established on the attestation and on the proof of possession.", func(c *Ctx) {
		r := c.root(pkgClientAuth, "ClientAttestation", "Authenticate")
		req := r.Args[1]
		for _, o := range r.Outs {
			st, pos, rs := o.st, outPos(r, o), o.res[0]
			client := r.rd(st, rs, "Client")
			if !isNil(st, o.res[1]) {
				c.need(isNil(st, client), "error", "attestation", pos, "a client is returned together with an error")
				c.need(nonNil(st, r.rd(st, rs, "Error")), "reported", "attestation", pos, "a failure carries no protocol error")
				continue
			}
			at := r.rd(st, req, "ClientAssertionType")
			c.need(nonNil(st, at) && same(st, r.derefv(st, at), c.strOf("oidc", "AssertionTypeJWTClientAttestation")), "type", "attestation", pos, "another assertion type is accepted")
			as := r.rd(st, req, "ClientAssertion")
			c.need(nonNil(st, as), "present", "attestation", pos, "a missing assertion is accepted")
			raw := r.derefv(st, as)
			var toks []*Term
			okResults(st, func(call *Term, idx string) bool {
				if call.Op == "pure" && (call.S == evParseJWS || call.S == evParseJWT) && contains(call.Args[0], raw) && call.Args[1] == r.Ctor[1] {
					toks = append(toks, res(call, 0))
				}
				return false
			})
			var att, pop, attC, popC *Term
			for _, tk := range toks {
				for _, d := range append(unmarshaled(st, has(tk)), jwtDecoded(st, tk)...) {
					if tagField(d.T, "cnf") != nil {
						att, attC = tk, d
					} else if tagField(d.T, "iss") != nil {
						pop, popC = tk, d
					}
				}
			}
			if !c.need(att != nil && pop != nil && att != pop, "parsed", "attestation", pos, "attestation and proof of possession are not both parsed, restricted to the supported algorithms") {
				continue
			}
			for _, n := range []string{"iss", "sub"} {
				c.need(nonEmpty(st, claim(attC, n)), "att."+n, "attestation", pos, "an attestation without %s is accepted", n)
			}
			c.need(notExpired(st, claim(attC, "exp")), "att.exp", "attestation", pos, "an expired attestation is accepted")
			c.need(alreadyValid(st, claim(attC, "nbf")), "att.nbf", "attestation", pos, "an attestation that is not yet valid is accepted")
			cnf := claim(attC, "cnf")
			jwkf := tagField(cnf.T, "jwk")
			if !c.need(nonNil(st, cnf) && jwkf != nil, "att.cnf", "attestation", pos, "an attestation without confirmation is accepted") {
				continue
			}
			key := r.rd(st, cnf, jwkf.Name())
			c.need(nonNil(st, key), "att.jwk", "attestation", pos, "an attestation without confirmation key is accepted")
			issuer := clientGet(st, claim(attC, "iss"))
			if !c.need(issuer != nil, "att.client", "attestation", pos, "the attester is not looked up") {
				continue
			}
			c.checkSignature(r, st, "attestation", pos, att, issuer)
			// proof of possession
			ok := false
			for _, k := range verifiedBy(st, has(pop)) {
				if same(st, keyValue(k), key) || contains(keyValue(k), key) {
					ok = true
				}
			}
			c.need(ok, "pop.signature", "attestation", pos, "the proof of possession is not verified with the attested key")
			for _, n := range []string{"iss", "aud", "jti"} {
				c.need(nonEmpty(st, claim(popC, n)), "pop."+n, "attestation", pos, "a proof of possession without %s is accepted", n)
			}
			c.need(notExpired(st, claim(popC, "exp")), "pop.exp", "attestation", pos, "an expired proof of possession is accepted")
			c.need(alreadyValid(st, claim(popC, "nbf")), "pop.nbf", "attestation", pos, "a proof of possession that is not yet valid is accepted")
			c.need(same(st, claim(popC, "iss"), claim(attC, "sub")), "pop.binding", "attestation", pos, "the proof of possession is not issued by the attested client")
			cl := clientGet(st, claim(attC, "sub"))
			c.need(cl != nil && same(st, client, cl), "answer", "attestation", pos, "the returned client is not the attested one")
		}
		c.floor("pop.signature", 1, "successful authentications")
		c.floor("reported", 8, "failed authentications")
	})

	register("C29", "client assertions are addressed to this server and used once", "Successful outcomes of the authentication processors are checked for a comparison of the audience and for a use-once record of the assertion identifier.", func(c *Ctx) {
		for _, ctor := range []string{"PrivateKeyJWT", "ClientAttestation"} {
			r := c.root(pkgClientAuth, ctor, "Authenticate")
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					continue
				}
				aud, jti := false, false
				for cnd, pol := range st.facts.m {
					if pol && (cnd.Op == "eq" || cnd.Op == "pure") {
						for i, a := range cnd.Args {
							if a.Op == "fld" && strings.EqualFold(a.S, "Audience") && !cnd.Args[(i+1)%len(cnd.Args)].isConst() {
								aud = true
							}
						}
					}
				}
				for _, ev := range st.events() {
					for _, a := range ev.Args {
						if a.Op == "fld" && strings.EqualFold(a.S, "JTI") {
							jti = true
						}
					}
				}
				c.need(aud, "audience", ctor, pos, "the audience of the assertion is not compared with the server's identifier")
				c.need(jti, "replay", ctor, pos, "the assertion identifier is not recorded: an assertion can be replayed until it expires")
			}
		}
		c.floor("audience", 2, "authentication methods")
	})

	register("C30", "a DPoP proof is accepted only when fresh, typed and for this request", "All outcomes of the proof verification are enumerated, both with an abstract token verifier and with the embedded key verifier.", func(c *Ctx) {
		for i := 0; i <= len(dpopOptions); i++ {
			concrete := i == len(dpopOptions)
			var opts []string
			if !concrete {
				opts = dpopOptions[i]
			}
			r := c.dpopVerify(concrete, opts)
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					c.need(same(st, o.res[0], mkStr("")), "error", "Verify", pos, "a confirmation is returned with an error")
					continue
				}
				p := c.proof(r, st, concrete)
				if !c.need(p != nil, "signature", "Verify", pos, "the proof's claims are not obtained from a signature verified with the proof's own key") {
					continue
				}
				c.need(p.typed, "type", "Verify", pos, "a token that is not typed as a DPoP proof is accepted")
				c.need(same(st, claim(p.cs, "htm"), r.Args[1]), "htm", "Verify", pos, "the proof's method is not compared with the request's")
				u := r.Args[2]
				c.need(equalTo(st, claim(p.cs, "htu"), func(t *Term) bool { return t == u || urlText(t, u) }), "htu", "Verify", pos, "the proof's URL is not compared with the request's")
				iat := claim(p.cs, "iat")
				past, future := false, false
				for _, now := range nows(st) {
					if d, ok := st.facts.diffUpper(now, iat); ok && d <= 60 {
						past = true
					}
					if d, ok := st.facts.diffUpper(iat, now); ok && d <= 60 {
						future = true
					}
				}
				c.need(past, "old", "Verify", pos, "a proof issued more than a minute ago is accepted")
				c.need(future, "future", "Verify", pos, "a proof issued more than a minute ahead is accepted")
				c.need(nonEmpty(st, claim(p.cs, "jti")), "jti", "Verify", pos, "a proof without identifier is accepted")
				for i := 1; i <= 3; i++ {
					c.need(nonEmpty(st, r.Args[i]), "inputs", "Verify", pos, "an empty method, URL or proof is accepted")
				}
				c.need(same(st, o.res[0], p.thumb) && p.thumbOK, "thumbprint", "Verify", pos, "the returned confirmation is not the thumbprint of the key that signed the proof")
				if concrete {
					want := b64raw(mk("res", "0", mk("pure", "(*github.com/go-jose/go-jose/v4.JSONWebKey).Thumbprint", p.key, mkInt(5))))
					c.need(p.thumb == want || equalTo(st, p.thumb, func(t *Term) bool { return t == want }), "sha256", "Verify", pos, "the confirmation is not the base64url SHA-256 thumbprint of the proof's key")
				}
			}
		}
		c.floor("htm", 2, "successful verifications")
		c.floor("sha256", 1, "successful verifications with an embedded key")
	})

	register("C31", "a DPoP proof identifier is accepted once", "Each successful outcome of the proof verification is checked for the replay lookup and for the registration of the same key, which must be a function of the identifier alone.", func(c *Ctx) {
		for _, opts := range dpopOptions {
			r := c.dpopVerify(false, opts)
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					continue
				}
				p := c.proof(r, st, false)
				if !c.need(p != nil, "signature", "Verify", pos, "the proof's claims are not obtained from a verified signature") {
					continue
				}
				jti := claim(p.cs, "jti")
				var reg *Term
				for _, x := range calls(st, evDPoPReg) {
					if okCall(st, x, 0) {
						reg = x
					}
				}
				if !c.need(reg != nil, "registered", "Verify", pos, "a proof is accepted without being recorded") {
					continue
				}
				key := reg.Args[2]
				ok := false
				for _, x := range calls(st, evDPoPExists) {
					if okCall(st, x, 1) && st.facts.eval(res(x, 0)) == -1 && same(st, x.Args[2], key) {
						ok = true
					}
				}
				c.need(ok, "checked", "Verify", pos, "a proof is accepted without a negative replay lookup for the recorded key")
				c.need(contains(key, jti), "key", "Verify", pos, "the replay key does not depend on the proof identifier")
				c.need(onlyFrom(key, jti), "key-only", "Verify", pos, "the replay key depends on more than the proof identifier")
				c.need(injective(key, jti), "key-injective", "Verify", pos, "the replay key does not separate proof identifiers")
			}
		}
		c.floor("registered", 1, "successful verifications")
	})

	register("C32", "a DPoP proof is bound to the access token and its confirmation", "The proof verification is analysed with the token value and token confirmation options, alone and combined in both orders.", func(c *Ctx) {
		for _, opts := range dpopOptions[1:] {
			r := c.dpopVerify(false, opts)
			name := strings.Join(opts, "+")
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					continue
				}
				p := c.proof(r, st, false)
				if !c.need(p != nil, "signature", name, pos, "the proof's claims are not obtained from a verified signature") {
					continue
				}
				for _, on := range opts {
					v := optValue(on)
					switch on {
					case "WithTokenValue":
						ath := claim(p.cs, "ath")
						c.need(nonNil(st, ath), "ath.present", name, pos, "a proof without ath is accepted for a token")
						val := ath
						if ath.T != nil {
							if _, ok := ath.T.Underlying().(*types.Pointer); ok {
								val = r.derefv(st, ath)
							}
						}
						c.need(same(st, val, b64raw(mkHsum("sha256", nil, v))), "ath", name, pos, "ath is not compared with the hash of the presented token")
					case "WithTokenConfirmation":
						c.need(same(st, o.res[0], v), "cnf", name, pos, "the proof key is not compared with the token confirmation")
					}
				}
			}
		}
		c.floor("ath", 3, "verifications with a token value")
		c.floor("cnf", 3, "verifications with a confirmation")
	})

	register("C33", "a DPoP prover emits a fresh proof for exactly the request", "The claims object at the signing call of the prover is read from the abstract heap; claims are identified by their serialised names.", func(c *Ctx) {
		for _, opts := range [][]string{nil, {"WithTokenValue"}, {"WithTokenConfirmation", "WithTokenValue"}} {
			r := c.rootWith(pkgDPoP, "DefaultProver", "Prove", nil, func(fn *ssa.Function, st *State, e *Engine) []*Term {
				a := paramTerms(fn, 1, "a")
				a[len(a)-1] = c.optionSlice(e, st, fn, opts)
				return a
			}, func(e *Engine) { _ = opts })
			for _, ev := range r.evs(evSerialize) {
				st, pos := ev.St, ev.Pos
				obj := ev.Args[2]
				g := func(n string) *Term { return serialClaim(r, st, obj, n) }
				jti := false
				for _, u := range calls(st, evUniuri) {
					if n, ok := u.Args[0].int(); ok && n >= 16 && g("jti") == res(u, 0) {
						jti = true
					}
				}
				c.need(jti, "jti", "Prove", pos, "the proof identifier is not a fresh random value of at least 16 characters")
				c.need(same(st, g("htm"), r.Args[0]), "htm", "Prove", pos, "the proof's method is not the requested one")
				ok := false
				for _, base := range []string{"net/url.ParseRequestURI", "net/url.Parse"} {
					pu := mk("pure", base, r.Args[1])
					if !isNil(st, mk("res", "1", pu)) {
						continue
					}
					u := mkT(c.urlPtr(), "res", "0", pu)
					want := mkConcat(nil, r.rd(st, u, "Scheme"), mkStr("://"), r.rd(st, u, "Host"), r.rd(st, u, "Path"))
					if same(st, g("htu"), want) {
						ok = true
					}
				}
				c.need(ok, "htu", "Prove", pos, "the proof's URL is not scheme, host and path of the requested URL")
				fresh := false
				for _, now := range nows(st) {
					if g("iat") == now {
						fresh = true
					}
				}
				c.need(fresh, "iat", "Prove", pos, "the issue time is not the current time")
				ath := g("ath")
				if contains2(opts, "WithTokenValue") {
					val := ath
					if nonNil(st, ath) && ath.Op != "call" {
						val = r.derefv(st, ath)
					}
					c.need(same(st, val, b64raw(mkHsum("sha256", nil, optValue("WithTokenValue")))), "ath", "Prove", pos, "ath is not the hash of the token")
				} else {
					c.need(isNil(st, ath) || same(st, ath, mkStr("")), "no-ath", "Prove", pos, "ath is set although there is no token")
				}
			}
			for _, o := range r.Outs {
				st := o.st
				if !isNil(st, o.res[1]) {
					c.need(same(st, o.res[0], mkStr("")), "error", "Prove", outPos(r, o), "a proof is returned with an error")
					continue
				}
				ok := false
				for _, s := range calls(st, evSerialize) {
					if okCall(st, s, 1) && same(st, o.res[0], res(s, 0)) && s.Args[0] == r.Ctor[0] {
						ok = true
					}
				}
				c.need(ok, "signed", "Prove", outPos(r, o), "the returned proof is not the output of the signer")
			}
		}
		c.floor("htu", 3, "signing calls")
		c.floor("ath", 2, "signing calls with a token")
	})
}

func (c *Ctx) urlPtr() types.Type {
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == "net/url" {
			return types.NewPointer(p.Type("URL").Type())
		}
	}
	bail("net/url not loaded")
	return nil
}

// serialClaim reads a claim by its JSON name from an object about to be
// serialised.
func serialClaim(r *Root, st *State, obj *Term, tag string) *Term {
	for obj.Op == "iface" {
		obj = obj.Args[0]
	}
	if obj.Op == "mkmap" {
		if v, ok := st.mem[mk("mapent", "", obj, mkStr(tag))]; ok {
			for v.Op == "iface" {
				v = v.Args[0]
			}
			return v
		}
		return mk("noclaim", tag, obj)
	}
	f := tagField(obj.T, tag)
	if f == nil {
		return mk("noclaim", tag, obj)
	}
	return r.rd(st, obj, f.Name())
}

// jwtDecoded lists the objects decoded together with a signature check.
func jwtDecoded(st *State, tok *Term) []*Term {
	var l []*Term
	okResults(st, func(call *Term, _ string) bool {
		if call.Op == "pure" && call.S == evJWTClaims && contains(call.Args[0], tok) {
			for i := 0; i < 3; i++ {
				d := mkT(nil, "decoded", string(rune('0'+i)), call)
				if d.T != nil {
					l = append(l, d)
				}
			}
		}
		return false
	})
	return l
}

// checkSignature requires that the token was verified with a registered key of
// the client that is not an encryption key.
func (c *Ctx) checkSignature(r *Root, st *State, what, pos string, tok, cl *Term) {
	ok, use := false, false
	sets := registeredKeys(r, st, cl)
	for _, k := range verifiedBy(st, has(tok)) {
		kv := keyValue(k)
		for _, s := range sets {
			if contains(kv, s) {
				ok = true
				use = use || notEnc(r.E, st, k)
			}
		}
	}
	c.need(ok, "signature", what, pos, "the signature is not verified with one of the client's registered keys")
	c.need(use, "key-use", what, pos, "the signature may be verified with an encryption key")
}

// ---- DPoP -------------------------------------------------------------------

func optValue(name string) *Term { return mkT(types.Typ[types.String], "param", "opt\x00"+name) }

// optionSlice builds the variadic option argument for named options.
func (c *Ctx) optionSlice(e *Engine, st *State, fn *ssa.Function, names []string) *Term {
	t := fn.Params[len(fn.Params)-1].Type()
	var items []*Term
	for _, n := range names {
		f := c.p.fn(pkgDPoP, n)
		if f == nil {
			bail("anchor %s.%s not found", pkgDPoP, n)
		}
		outs := e.run(f, e.ctx(0, nil, f), []*Term{optValue(n)}, nil, st.clone(), nil)
		if len(outs) != 1 || len(outs[0].res) != 1 {
			bail("option %s does not have a single outcome", n)
		}
		*st = *outs[0].st
		items = append(items, outs[0].res[0])
		e.pin = append(e.pin, outs[0].res[0])
	}
	return mkT(t, "arr", "", items...)
}

// dpopOptions are the ways to verify a proof.
var dpopOptions = [][]string{nil, {"WithTokenValue"}, {"WithTokenConfirmation"}, {"WithTokenValue", "WithTokenConfirmation"}, {"WithTokenConfirmation", "WithTokenValue"}}

// urlText: t is the text of the complete parsed form of u.
func urlText(t, u *Term) bool {
	if t.Op != "pure" || t.S != "(*net/url.URL).String" {
		return false
	}
	w := wholeOf(t.Args[0])
	if w == nil {
		w = t.Args[0]
	}
	return w.Op == "res" && w.Args[0].Op == "pure" && strings.HasPrefix(w.Args[0].S, "net/url.Parse") && w.Args[0].Args[0] == u
}

func (c *Ctx) dpopVerify(concrete bool, opts []string) *Root {
	var ctor func(fn *ssa.Function, st *State, e *Engine) []*Term
	if concrete {
		ctor = func(fn *ssa.Function, st *State, e *Engine) []*Term {
			a := paramTerms(fn, 0, "p")
			f := c.p.fn(pkgJWT, "EmbeddedKeyVerifier")
			if f == nil {
				bail("anchor %s.EmbeddedKeyVerifier not found", pkgJWT)
			}
			outs := e.run(f, e.ctx(0, nil, f), paramTerms(f, 0, "v"), nil, st.clone(), nil)
			if len(outs) != 1 {
				bail("the embedded key verifier has several outcomes")
			}
			*st = *outs[0].st
			a[1] = outs[0].res[0]
			return a
		}
	}
	return c.rootWith(pkgDPoP, "DefaultVerifier", "Verify", ctor, func(fn *ssa.Function, st *State, e *Engine) []*Term {
		a := paramTerms(fn, 1, "a")
		a[len(a)-1] = c.optionSlice(e, st, fn, opts)
		return a
	})
}

type proof struct {
	cs      *Term
	key     *Term
	thumb   *Term
	thumbOK bool
	typed   bool
}

// proof finds the verified claims of the presented proof.
func (c *Ctx) proof(r *Root, st *State, concrete bool) *proof {
	typ := c.strOf(pkgDPoP, "HeaderType")
	if !concrete {
		for _, cl := range calls(st, evTokClaims) {
			tok := cl.Args[0]
			if !okCall(st, cl, 0) || tok.Op != "res" || callName(tok.Args[0]) != evVerParse || tok.Args[0].Args[1] != r.Args[3] || !okCall(st, tok.Args[0], 1) {
				continue
			}
			p := &proof{cs: mkT(nil, "decoded", "2", cl)}
			for _, k := range calls(st, evTokKey) {
				if k.Args[0] == tok && okCall(st, k, 1) && same(st, res(k, 0), cl.Args[1]) {
					p.key = res(k, 0)
				}
			}
			if p.key == nil || p.cs.T == nil {
				continue
			}
			for _, k := range calls(st, evTokType) {
				if k.Args[0] == tok && okCall(st, k, 1) && same(st, res(k, 0), typ) {
					p.typed = true
				}
			}
			for _, k := range calls(st, evTokThumb) {
				if k.Args[0] == tok && okCall(st, k, 1) {
					p.thumb, p.thumbOK = res(k, 0), true
				}
			}
			if p.thumb == nil {
				p.thumb = tNil
			}
			return p
		}
		return nil
	}
	var pr *proof
	okResults(st, func(call *Term, idx string) bool {
		if call.Op != "pure" || call.S != evParseJWT || call.Args[0] != r.Args[3] || idx != "1" {
			return false
		}
		tok := res(call, 0)
		for _, d := range jwtDecoded(st, tok) {
			k := keyValue(d.Args[0].Args[1])
			if !contains(k, tok) {
				continue
			}
			pr = &proof{cs: d, key: k, typed: trueFacts(st, func(f *Term) bool {
				return f.Op == "eq" && f.Args[0] == typ && contains(f.Args[1], tok) && strings.Contains(f.Args[1].String(), `"typ"`)
			})}
			okResults(st, func(tc *Term, _ string) bool {
				if tc.Op == "pure" && strings.HasSuffix(tc.S, "JSONWebKey).Thumbprint") && tc.Args[0] == k {
					pr.thumb, pr.thumbOK = b64raw(res(tc, 0)), true
				}
				return false
			})
			if pr.thumb == nil {
				pr.thumb = tNil
			}
		}
		return false
	})
	return pr
}

// onlyFrom tells whether a term is built from x and constants only.
func onlyFrom(t, x *Term) bool {
	if t == x || t.isConst() || t.Op == "gval" || t.Op == "global" {
		return true
	}
	switch t.Op {
	case "param", "call", "res", "fld", "decoded", "alloc", "lv":
		if len(t.Args) == 0 || t.Op == "call" || t.Op == "decoded" || t.Op == "fld" {
			return false
		}
	}
	if len(t.Args) == 0 {
		return true
	}
	for _, a := range t.Args {
		if !onlyFrom(a, x) {
			return false
		}
	}
	return true
}

// injective tells whether different values of x give different values of t,
// assuming collision resistant hashes.
func injective(t, x *Term) bool {
	if t == x {
		return true
	}
	switch t.Op {
	case "hsum", "conv", "concat":
		for _, a := range t.Args {
			if injective(a, x) {
				return true
			}
		}
	case "pure":
		switch {
		case strings.Contains(t.S, "encoding/base64") || strings.Contains(t.S, "encoding/hex") || strings.Contains(t.S, "encoding/base32"):
			for _, a := range t.Args {
				if injective(a, x) {
					return true
				}
			}
		}
	}
	return false
}
