package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgMem = "server/storage/inmemory"

// access is an operation on a concurrent container.
type access struct {
	kind  string // get, set, add, delete, take
	index string // field of the storage object
	key   *Term
	val   *Term
	ttl   *Term
	ev    *Term
	n     int // position in the trace
}

var containerOps = map[string]string{
	"(*github.com/patrickmn/go-cache.cache).Set":               "set",
	"(*github.com/patrickmn/go-cache.cache).SetDefault":        "set",
	"(*github.com/patrickmn/go-cache.cache).Add":               "add",
	"(*github.com/patrickmn/go-cache.cache).Replace":           "set",
	"(*github.com/patrickmn/go-cache.cache).Get":               "get",
	"(*github.com/patrickmn/go-cache.cache).GetWithExpiration": "get",
	"(*github.com/patrickmn/go-cache.cache).Delete":            "delete",
	"(*sync.Map).Store":          "set",
	"(*sync.Map).Swap":           "set",
	"(*sync.Map).Load":           "get",
	"(*sync.Map).LoadOrStore":    "add",
	"(*sync.Map).Delete":         "delete",
	"(*sync.Map).LoadAndDelete":  "take",
	"(*sync.Map).CompareAndSwap": "cas",
}

// fieldOf names the field of the storage object that holds a container.
func fieldOf(r *Root, st *State, container *Term) string {
	t := structOf(r.Recv)
	if t == nil {
		return "?"
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fa := mkFA(r.Recv, f, t)
		v := r.rd(st, r.Recv, f.Name())
		if container == fa || container == v {
			return f.Name()
		}
		if !v.isConst() && (contains(container, v) || contains(container, fa)) {
			return f.Name()
		}
	}
	return "?"
}

// accesses lists the container operations of a path.
func accesses(r *Root, st *State) []access {
	var out []access
	for i, ev := range st.events() {
		if ev.Op != "call" {
			continue
		}
		n := callName(ev)
		k, ok := containerOps[n]
		if !ok {
			continue
		}
		a := access{kind: k, index: fieldOf(r, st, ev.Args[0]), key: stripIface(ev.Args[1]), ev: ev, n: i}
		if len(ev.Args) > 2 {
			a.val = stripIface(ev.Args[2])
		}
		if len(ev.Args) > 3 {
			a.ttl = ev.Args[3]
		}
		out = append(out, a)
	}
	return out
}

// wrongType tells whether a path assumes that an entry has another type than what is stored.
func wrongType(st *State) bool {
	for f, pol := range st.facts.m {
		if f.Op == "isa" && !pol && f.Args[0].Op == "res" && containerOps[callName(f.Args[0].Args[0])] != "" {
			return true
		}
	}
	return false
}

// found tells whether an access found an entry on this path.
func (a access) found(st *State) bool {
	i := 1
	if strings.HasSuffix(callName(a.ev), "GetWithExpiration") {
		i = 2
	}
	return st.facts.eval(res(a.ev, i)) == 1
}

func (a access) missed(st *State) bool {
	i := 1
	if strings.HasSuffix(callName(a.ev), "GetWithExpiration") {
		i = 2
	}
	return st.facts.eval(res(a.ev, i)) == -1
}

// isFound tells whether v is the value an access returned.
func (a access) isFound(v *Term) bool {
	v = stripIface(v)
	for strings.HasPrefix(v.Op, "ta") || v.Op == "iface" {
		v = v.Args[0]
	}
	return v == res(a.ev, 0)
}

// shape writes a key with the identifiers replaced by placeholders.
func shape(t, iss *Term, ids []*Term) string {
	if t == iss {
		return "<issuer>"
	}
	for _, i := range ids {
		if t == i {
			return "<id>"
		}
	}
	if t.Op == "str" || t.Op == "const" || len(t.Args) == 0 {
		return t.Op + ":" + t.S
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, shape(a, iss, ids))
	}
	s := t.S
	if t.Op == "hashobj" || t.Op == "call" {
		s = callName(t)
	}
	return t.Op + ":" + s + "(" + strings.Join(p, ",") + ")"
}

// unambiguous tells whether the identifiers can be read back from a key.
func unambiguous(t, iss *Term, ids []*Term) bool {
	switch {
	case t.Op == "concat":
		open := false
		for _, a := range t.Args {
			if s, ok := a.str(); ok {
				if s != "" {
					open = false
				}
				continue
			}
			if fixedLen(a) {
				if !unambiguous(a, iss, ids) {
					return false
				}
				continue
			}
			if open || !unambiguous(a, iss, ids) {
				return false
			}
			open = true
		}
		return true
	case t == iss || t.isConst():
		return true
	case t.Op == "hsum":
		return unambiguous(t.Args[0], iss, ids)
	case t.Op == "iface":
		return unambiguous(t.Args[0], iss, ids)
	case t.Op == "struct":
		for _, a := range t.Args {
			if !unambiguous(a, iss, ids) {
				return false
			}
		}
		return true
	case t.Op == "pure" && (strings.Contains(t.S, "EncodeToString") || strings.HasSuffix(t.S, "QueryEscape") || strings.HasSuffix(t.S, "strconv.Quote")):
		return unambiguous(t.Args[len(t.Args)-1], iss, ids)
	}
	for _, i := range ids {
		if t == i {
			return true
		}
	}
	return false
}

func fixedLen(t *Term) bool {
	if t.Op == "hsum" {
		return true
	}
	return t.Op == "pure" && strings.Contains(t.S, "EncodeToString") && fixedLen(t.Args[len(t.Args)-1])
}

// hashed tells whether the identifier occurs only below a cryptographic hash.
func hashed(t *Term, ids []*Term) bool {
	if t.Op == "hsum" {
		return strings.HasPrefix(t.S, "blake2b") || strings.HasPrefix(t.S, "sha256") || strings.HasPrefix(t.S, "sha512") || strings.HasPrefix(t.S, "sha3")
	}
	for _, i := range ids {
		if t == i {
			return false
		}
	}
	for _, a := range t.Args {
		if !hashed(a, ids) {
			return false
		}
	}
	return true
}

// memKey describes how an operation of a storage addresses an index.
type memKey struct {
	index, shape string
}

// lookupKey finds the index and the key a lookup uses for its identifier.
func (c *Ctx) lookupKey(r *Root) memKey {
	var k memKey
	for _, o := range r.Outs {
		for _, a := range accesses(r, o.st) {
			if a.kind == "get" {
				k = memKey{a.index, shape(a.key, r.Args[1], []*Term{r.Args[2]})}
			}
		}
	}
	if k.index == "" || k.index == "?" {
		bail("%s: the index of the lookup was not recognised", r.Name)
	}
	return k
}

// pristine reads a field of an object as it was given.
func pristine(r *Root, obj *Term, f string) *Term {
	return rdField(r.E, newState(), obj, f)
}

// idTerms lists the terms denoting field f of the object given to an
// operation or of a copy of it.
func idTerms(r *Root, st *State, obj *Term, f string) []*Term {
	out := []*Term{pristine(r, obj, f), r.rd(st, obj, f)}
	seen := map[*Term]bool{}
	look := func(t *Term) {
		walk(t, func(x *Term) bool {
			if x.Op == "clone" && stripIface(x.Args[0]) == obj && !seen[x] {
				seen[x] = true
				out = append(out, pristine(r, x, f))
			}
			return true
		})
	}
	for _, ev := range st.events() {
		for _, a := range ev.Args {
			look(a)
		}
	}
	return out
}

// copyOf tells whether an object is the given one or a copy of it.
func copyOf(v, obj *Term) bool {
	v = stripIface(v)
	return v == obj || v.Op == "clone" && stripIface(v.Args[0]) == obj
}

// unchanged tells whether all fields but the given ones are as in the original.
func unchanged(r *Root, st *State, obj *Term, except ...string) (string, bool) {
	t := structOf(obj)
	if t == nil {
		return "?", false
	}
	u := t.Underlying().(*types.Struct)
next:
	for i := 0; i < u.NumFields(); i++ {
		n := u.Field(i).Name()
		if !u.Field(i).Exported() {
			continue
		}
		for _, x := range except {
			if x == n {
				continue next
			}
		}
		if r.rd(st, obj, n) != pristine(r, obj, n) {
			return n, false
		}
	}
	return "", true
}

func success(o *Outcome) bool { return isNil(o.st, o.res[len(o.res)-1]) }

func failure(o *Outcome) bool { return nonNil(o.st, o.res[len(o.res)-1]) }

// notFoundErr tells whether an outcome reports a missing entry.
func notFoundErr(c *Ctx, o *Outcome) bool {
	e := o.st.facts.find(o.res[len(o.res)-1])
	return e == c.notFound() || contains(e, c.notFound())
}

func (c *Ctx) notFound() *Term {
	pk := c.p.pkg("server/storage")
	g := pk.Var("ErrNotFound")
	if g == nil {
		bail("storage.ErrNotFound not found")
	}
	e := newEngine(c.p)
	return e.load(newState(), globalTerm(g), deref(g.Type()))
}

// held lists the locks held at a position of the trace, with the position
// where they were taken.
func held(st *State, n int) map[*Term]int {
	h := map[*Term]int{}
	for i, ev := range st.events() {
		if i >= n {
			break
		}
		if ev.Op != "call" {
			continue
		}
		switch callName(ev) {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			h[ev.Args[0]] = i
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			delete(h, ev.Args[0])
		}
	}
	return h
}

// together tells whether two positions lie in the same critical section.
func together(st *State, i, j int) (lock *Term) {
	a, b := held(st, i), held(st, j)
	for l, at := range a {
		if x, ok := b[l]; ok && x == at {
			return l
		}
	}
	return nil
}

// sharedEntry tells how a written address belongs to an entry of a container.
func sharedEntry(st *State, addr *Term) string {
	base := addr
	for (base.Op == "fa" || base.Op == "ia" || base.Op == "mapent" || base.Op == "sel" || base.Op == "iface" || strings.HasPrefix(base.Op, "ta")) && len(base.Args) > 0 {
		base = st.facts.find(base.Args[0])
	}
	if base == addr {
		return ""
	}
	for _, ev := range st.events() {
		if ev.Op != "call" {
			continue
		}
		switch k := containerOps[callName(ev)]; k {
		case "", "take", "delete":
		case "get", "add":
			if k == "add" && len(ev.Args) > 2 && base == st.facts.find(stripIface(ev.Args[2])) {
				return "that was stored"
			}
			if base == res(ev, 0) || base == st.facts.find(res(ev, 0)) {
				return "that was looked up"
			}
		default:
			if len(ev.Args) > 2 && base == st.facts.find(stripIface(ev.Args[2])) {
				return "that was stored"
			}
		}
	}
	return ""
}

// exclusive tells whether a lock is held exclusively.
func exclusive(st *State) bool {
	for l, n := range st.locks {
		if n > 0 && l.Op != "rlock" && l.Op != "once" {
			return true
		}
	}
	return false
}

// memSession describes a storage of single-use sessions.
type memSession struct{ ctor, lookup, id string }

func init() {
	sessions := []string{"AuthorizationCodeSessions", "AuthorizationRequests"}

	register("C49", "in-memory storage separates issuers and hashes secrets", "The key of every container access is evaluated to a term over the issuer and the identifier; the terms are compared between the operations of a storage.", func(c *Ctx) {
		check := func(r *Root, st *State, op string, a access, ids []*Term, secret bool, want memKey) {
			pos := r.E.p.pos(callPos[a.ev].Pos())
			s := shape(a.key, r.Args[1], ids)
			c.need(strings.Contains(s, "<issuer>"), "issuer", op, pos, "the key of %s does not depend on the issuer", a.index)
			c.need(strings.Contains(s, "<id>"), "id", op, pos, "the key of %s does not depend on the identifier", a.index)
			c.need(unambiguous(a.key, r.Args[1], ids), "unambiguous", op, pos, "different issuers and identifiers may share a key: %s", a.key)
			if secret {
				c.need(hashed(a.key, ids), "hashed", op, pos, "the identifier is stored in clear: %s", a.key)
			}
			c.need(want.index == a.index && want.shape == s, "agree", op, pos, "the operation does not address the entries the lookup addresses")
		}
		each := func(ctor, method string, ids func(r *Root, st *State) map[string][]*Term, keys map[string]memKey, secret map[string]bool) {
			r := c.root(pkgMem, ctor, method)
			for _, o := range r.Outs {
				for _, a := range accesses(r, o.st) {
					known := false
					for n, ts := range ids(r, o.st) {
						for name, k := range keys {
							if k.index == a.index && name == n {
								known = true
								check(r, o.st, ctor+"."+method, a, ts, secret[n], k)
							}
						}
					}
					c.need(known, "index", ctor+"."+method, r.E.p.pos(callPos[a.ev].Pos()), "access to an index (%s) no lookup uses", a.index)
				}
			}
		}
		given := func(n string) func(r *Root, st *State) map[string][]*Term {
			return func(r *Root, st *State) map[string][]*Term { return map[string][]*Term{n: {r.Args[2]}} }
		}
		yes := map[string]bool{"id": true, "user": true, "device": true, "value": true}
		for _, s := range sessions {
			k := map[string]memKey{"id": c.lookupKey(c.root(pkgMem, s, "Get"))}
			for _, m := range []string{"Get", "Register", "Delete"} {
				each(s, m, given("id"), k, yes)
			}
		}
		d := "DeviceCodeSessions"
		k := map[string]memKey{"user": c.lookupKey(c.root(pkgMem, d, "GetByUserCode")), "device": c.lookupKey(c.root(pkgMem, d, "GetByDeviceCode"))}
		c.need(k["user"] != k["device"], "separate", d, "-", "user codes and device codes share an index and keys")
		each(d, "GetByUserCode", given("user"), k, yes)
		each(d, "GetByDeviceCode", given("device"), k, yes)
		each(d, "Delete", given("user"), k, yes)
		both := func(r *Root, st *State) map[string][]*Term {
			return map[string][]*Term{"user": {r.Args[2]}, "device": idTerms(r, st, r.Args[3], "DeviceCode")}
		}
		each(d, "Register", both, k, yes)
		each(d, "Validate", both, k, yes)
		t := "Tokens"
		k = map[string]memKey{"id": c.lookupKey(c.root(pkgMem, t, "Get")), "value": c.lookupKey(c.root(pkgMem, t, "GetByValue"))}
		c.need(k["id"] != k["value"], "separate", t, "-", "token identifiers and values share an index and keys")
		sec := map[string]bool{"value": true}
		each(t, "Get", given("id"), k, sec)
		each(t, "GetByValue", given("value"), k, sec)
		each(t, "Create", func(r *Root, st *State) map[string][]*Term {
			return map[string][]*Term{"id": idTerms(r, st, r.Args[2], "TokenId"), "value": idTerms(r, st, r.Args[2], "Value")}
		}, k, sec)
		// the value stored with a token is the key of the value index
		r := c.root(pkgMem, t, "Create")
		for _, o := range r.Outs {
			for _, a := range accesses(r, o.st) {
				if a.kind == "set" && a.val != nil {
					v := r.rd(o.st, a.val, "Value")
					c.need(shape(v, r.Args[1], idTerms(r, o.st, r.Args[2], "Value")) == k["value"].shape, "at-rest", t+".Create", r.E.p.pos(callPos[a.ev].Pos()), "the token is stored with its value in clear")
				}
			}
		}
		c.floor("agree", 18, "container accesses")
		c.floor("at-rest", 2, "stores of tokens")
	})

	register("C50", "in-memory storage returns what was stored, until deleted or revoked", "All outcomes of the storage operations are enumerated with their container accesses and the contents of the stored objects.", func(c *Ctx) {
		// registration of sessions
		reg := func(ctor, method string, want map[string]memKey, ids func(r *Root, st *State, n string) []*Term) {
			r := c.root(pkgMem, ctor, method)
			for _, o := range r.Outs {
				if !success(o) {
					continue
				}
				for n, k := range want {
					ok := false
					for _, a := range accesses(r, o.st) {
						if a.kind != "set" || a.index != k.index || shape(a.key, r.Args[1], ids(r, o.st, n)) != k.shape {
							continue
						}
						_, same := unchanged(r, o.st, a.val)
						ok = copyOf(a.val, r.Args[3]) && same
					}
					c.need(ok, "stored."+n, ctor+"."+method, outPos(r, o), "success without storing the session under its %s", n)
				}
			}
		}
		arg := func(r *Root, st *State, n string) []*Term {
			if n == "device code" {
				return idTerms(r, st, r.Args[3], "DeviceCode")
			}
			return []*Term{r.Args[2]}
		}
		// deletion of an entry under the given identifier
		del := func(ctor, method string, want memKey) {
			r := c.root(pkgMem, ctor, method)
			for _, o := range r.Outs {
				if !success(o) {
					continue
				}
				ok := false
				for _, a := range accesses(r, o.st) {
					k := memKey{a.index, shape(a.key, r.Args[1], []*Term{r.Args[2]})}
					ok = ok || (a.kind == "delete" || a.kind == "take") && k == want
				}
				c.need(ok, "deleted", ctor+"."+method, outPos(r, o), "success without deleting the entry")
			}
		}
		for _, s := range sessions {
			k := c.lookupKey(c.root(pkgMem, s, "Get"))
			reg(s, "Register", map[string]memKey{"identifier": k}, arg)
			del(s, "Delete", k)
		}
		d := "DeviceCodeSessions"
		dk := map[string]memKey{"user code": c.lookupKey(c.root(pkgMem, d, "GetByUserCode")), "device code": c.lookupKey(c.root(pkgMem, d, "GetByDeviceCode"))}
		reg(d, "Register", dk, arg)
		reg(d, "Validate", dk, arg)
		del(d, "Delete", dk["user code"])
		// copies
		for _, x := range [][2]string{{d, "GetByUserCode"}, {d, "GetByDeviceCode"}, {"Tokens", "Get"}, {"Tokens", "GetByValue"}} {
			r := c.root(pkgMem, x[0], x[1])
			for _, o := range r.Outs {
				if success(o) {
					v := stripIface(o.res[0])
					c.need(v.Op == "clone", "copy", x[0]+"."+x[1], outPos(r, o), "the stored object itself is returned")
					f, ok := unchanged(r, o.st, v)
					c.need(ok, "unmodified", x[0]+"."+x[1], outPos(r, o), "the returned object differs in %s from the stored one", f)
				}
			}
		}
		// tokens
		t := "Tokens"
		id, val := c.lookupKey(c.root(pkgMem, t, "Get")), c.lookupKey(c.root(pkgMem, t, "GetByValue"))
		r := c.root(pkgMem, t, "Create")
		for _, o := range r.Outs {
			pos := outPos(r, o)
			if !success(o) {
				continue
			}
			c.need(nonNil(o.st, r.Args[2]), "present", t+".Create", pos, "a missing token is stored")
			var objs []*Term
			for _, w := range []struct {
				n string
				k memKey
				f string
			}{{"id", id, "TokenId"}, {"value", val, "Value"}} {
				ok := false
				for _, a := range accesses(r, o.st) {
					if a.kind == "set" && a.index == w.k.index && shape(a.key, r.Args[1], idTerms(r, o.st, r.Args[2], w.f)) == w.k.shape {
						f, same := unchanged(r, o.st, a.val, "Value")
						c.need(same, "token.content", t+".Create", pos, "the stored token differs in %s", f)
						c.need(a.val.Op == "clone" && copyOf(a.val, r.Args[2]), "token.copy", t+".Create", pos, "the given token itself is stored")
						objs = append(objs, a.val)
						ok = true
					}
				}
				c.need(ok, "token."+w.n, t+".Create", pos, "success without storing the token under its %s", w.n)
			}
			_ = objs
		}
		// the token an operation loaded by the given identifier
		loaded := func(r *Root, st *State) (access, bool) {
			for _, a := range accesses(r, st) {
				if (a.kind == "get" || a.kind == "take") && (memKey{a.index, shape(a.key, r.Args[1], []*Term{r.Args[2]})}) == id && a.found(st) {
					return a, true
				}
			}
			return access{}, false
		}
		// the keys of a loaded token: by the invariant of Create, its
		// identifier is the one it was found by and its value is its key
		keysOf := func(r *Root, st *State, src access) (ids, vals []*Term) {
			ids = []*Term{r.Args[2]}
			var objs []*Term
			for _, ev := range st.events() {
				for _, x := range ev.Args {
					walk(x, func(y *Term) bool {
						if y.Op == "clone" && src.isFound(y.Args[0]) || strings.HasPrefix(y.Op, "ta") && src.isFound(y) {
							objs = append(objs, y)
						}
						return true
					})
				}
			}
			for _, x := range objs {
				if structOf(x) == nil {
					continue
				}
				ids = append(ids, pristine(r, x, "TokenId"))
				vals = append(vals, pristine(r, x, "Value"))
			}
			return
		}
		for _, m := range []string{"Delete", "Revoke"} {
			r := c.root(pkgMem, t, m)
			for _, o := range r.Outs {
				pos := outPos(r, o)
				if !success(o) {
					c.need(failure(o), "decided", t+"."+m, pos, "whether the operation fails is not decided")
					continue
				}
				src, ok := loaded(r, o.st)
				if !c.need(ok, "token.found", t+"."+m, pos, "success without finding the token by the given identifier") {
					continue
				}
				ids, vals := keysOf(r, o.st, src)
				doneID, doneVal := false, false
				for _, a := range accesses(r, o.st) {
					if m == "Delete" && a.kind != "delete" && a.kind != "take" || m == "Revoke" && a.kind != "set" {
						continue
					}
					isID := a.index == id.index && shape(a.key, r.Args[1], ids) == id.shape
					isVal := false
					for _, v := range vals {
						isVal = isVal || a.index == val.index && a.key == v
					}
					doneID, doneVal = doneID || isID, doneVal || isVal
					if m == "Revoke" && (isID || isVal) {
						c.need(r.rd(o.st, a.val, "Status") == c.constOf("api/oidc/token/v1", "TokenStatus_TOKEN_STATUS_REVOKED"), "revoked.status", t+".Revoke", pos, "the token is stored without the revoked status")
						f, same := unchanged(r, o.st, a.val, "Status")
						c.need(same && (a.val.Op == "clone" && src.isFound(a.val.Args[0])), "revoked.content", t+".Revoke", pos, "the revoked token is not the stored one (%s)", f)
					}
				}
				c.need(doneID, "token."+m+".id", t+"."+m, pos, "the entry by identifier is not updated")
				c.need(doneVal, "token."+m+".value", t+"."+m, pos, "the entry by value is not updated")
			}
		}
		// nothing else is changed: lookups change nothing, and entries leave
		// the storage only by deletion, under the identifier given
		for _, x := range []struct {
			ctor string
			read bool
			m    []string
		}{
			{"AuthorizationCodeSessions", true, []string{"Get"}},
			{"AuthorizationRequests", true, []string{"Get"}},
			{d, true, []string{"GetByDeviceCode", "GetByUserCode"}},
			{"Clients", true, []string{"Get", "GetByName"}},
			{"Resources", true, []string{"GetByURI"}},
			{t, true, []string{"Get", "GetByValue"}},
			{"DPoPProofs", true, []string{"Exists"}},
			{"AuthorizationCodeSessions", false, []string{"Register", "Delete"}},
			{"AuthorizationRequests", false, []string{"Register", "Delete"}},
			{d, false, []string{"Register", "Delete", "Validate"}},
			{t, false, []string{"Create", "Delete", "Revoke"}},
			{"DPoPProofs", false, []string{"Register", "Delete"}},
		} {
			for _, m := range x.m {
				op := x.ctor + "." + m
				ready := false
				r := c.rootWith(pkgMem, x.ctor, m, nil, nil, func(e *Engine) {
					e.Ready = func(*State, *Root) { ready = true }
					e.OnMap = func(st *State, kind string, mt *Term, fr *frame, ins ssa.Instruction) {
						if ready && kind == "write" && mt.Op != "mkmap" {
							st.event(mk("ghost", e.p.pos(ins.Pos()), mt))
						}
					}
				})
				for _, o := range r.Outs {
					st, pos := o.st, outPos(r, o)
					for _, ev := range st.events() {
						if ev.Op == "ghost" && fieldOf(r, st, ev.Args[0]) != "?" {
							c.need(!x.read, "unchanged", op, ev.S, "a lookup changes the storage")
						}
						if n := callName(ev); ev.Op == "call" && containerOps[n] == "" && (strings.Contains(n, "go-cache.cache).") || strings.HasPrefix(n, "(*sync.Map).")) {
							ok := false
							for _, harmless := range []string{"Items", "ItemCount", "Range", "DeleteExpired"} {
								ok = ok || strings.HasSuffix(n, ")."+harmless)
							}
							c.need(ok, "unchanged", op, pos, "other entries are changed with %s", n)
						}
					}
					for _, a := range accesses(r, st) {
						switch a.kind {
						case "get":
							continue
						case "delete", "take":
							k := memKey{a.index, shape(a.key, r.Args[1], []*Term{r.Args[len(r.Args)-1]})}
							switch {
							case m != "Delete":
								c.need(false, "unchanged", op, pos, "an entry is removed from %s", a.index)
							case x.ctor == d:
								c.need(k == dk["user code"], "unchanged", op, pos, "an entry of %s is removed that is not the one of the user code", a.index)
							}
						default:
							c.need(!x.read, "unchanged", op, pos, "a lookup changes %s", a.index)
						}
					}
					if x.read {
						c.need(true, "unchanged", op, pos, "")
					}
				}
			}
		}
		// clients: the object is stored under the fresh identifier it was given
		r = c.rootWith(pkgMem, "Clients", "Register", nil, nil, func(e *Engine) {
			e.OnStore = func(st *State, addr, val *Term, fr *frame, ins ssa.Instruction) {
				if addr.Op == "mapent" {
					st.event(mk("ghost", "", addr, val))
				}
			}
		})
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !success(o) {
				continue
			}
			n, _, rnd := randomBase(st, o.res[0])
			c.need(rnd && n >= 16, "client.id", "Clients.Register", pos, "the identifier of the client is not fresh: %s", o.res[0])
			ok := false
			for _, ev := range st.events() {
				if ev.Op == "ghost" && copyOf(ev.Args[1], r.Args[1]) && same(st, stripIface(ev.Args[0].Args[1]), o.res[0]) {
					ok = same(st, r.rd(st, ev.Args[1], "ClientId"), o.res[0])
					f, un := unchanged(r, st, r.Args[1], "ClientId")
					c.need(un, "client.content", "Clients.Register", pos, "the stored client differs in %s", f)
				}
			}
			c.need(ok, "client.stored", "Clients.Register", pos, "the client is not stored under the identifier returned and assigned to it")
		}
		c.floor("client.stored", 1, "registered clients")
		c.floor("unchanged", 15, "answers of lookups")
		c.floor("stored.identifier", 2, "registrations")
		c.floor("stored.device code", 2, "device registrations")
		c.floor("deleted", 3, "deletions")
		c.floor("copy", 4, "lookups")
		c.floor("revoked.status", 2, "revocations")
		c.floor("token.Delete.value", 1, "token deletions")
	})

	register("C51", "in-memory storage is race free and consumes entries once", "Lock, unlock and container accesses are ordered on every path of every operation: accesses of plain maps need the lock, a consuming deletion needs the presence check in the same critical section.", func(c *Ctx) {
		ops := []struct {
			ctor    string
			methods []string
		}{
			{"AuthorizationCodeSessions", []string{"Register", "Delete", "Get"}},
			{"AuthorizationRequests", []string{"Register", "Delete", "Get"}},
			{"DeviceCodeSessions", []string{"Register", "Delete", "GetByDeviceCode", "GetByUserCode", "Validate"}},
			{"Clients", []string{"Get", "GetByName", "Register"}},
			{"Resources", []string{"GetByURI"}},
			{"Tokens", []string{"Create", "Get", "GetByValue", "Delete", "Revoke"}},
			{"DPoPProofs", []string{"Register", "Delete", "Exists"}},
		}
		for _, s := range ops {
			type mapAcc struct {
				kind, op, pos, field string
				w, r                 bool
			}
			var accs []mapAcc
			for _, m := range s.methods {
				op := s.ctor + "." + m
				var r *Root
				var recs []func()
				shared := false
				r = c.rootWith(pkgMem, s.ctor, m, nil, nil, func(e *Engine) {
					e.Ready = func(*State, *Root) { shared = true }
					e.OnStore = func(st *State, addr, val *Term, fr *frame, ins ssa.Instruction) {
						x := sharedEntry(st, addr)
						if x == "" || exclusive(st) {
							return
						}
						c.need(false, "entry.write", op, e.p.pos(ins.Pos()), "an entry %s is changed in place without lock: other callers may be reading it", x)
					}
					e.OnMap = func(st *State, kind string, mt *Term, fr *frame, ins ssa.Instruction) {
						if !shared {
							return // the constructor has not published the object yet
						}
						locks := map[*Term]int{}
						for k, v := range st.locks {
							locks[k] = v
						}
						st2 := st.clone()
						pos := e.p.pos(ins.Pos())
						recs = append(recs, func() {
							f := fieldOf(r, st2, mt)
							if f == "?" {
								return
							}
							a := mapAcc{kind: kind, op: op, pos: pos, field: f}
							for k, v := range locks {
								if v > 0 && k.Op == "rlock" {
									a.r = true
								} else if v > 0 {
									a.w = true
								}
							}
							accs = append(accs, a)
						})
					}
				})
				for _, f := range recs {
					f()
				}
				for _, o := range r.Outs {
					for l, n := range o.st.locks {
						c.need(n == 0, "released", op, outPos(r, o), "a lock is not released: %s", l)
					}
					lv := map[*Term]int{}
					for _, ev := range o.st.events() {
						if ev.Op != "call" {
							continue
						}
						switch callName(ev) {
						case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
							c.need(lv[ev.Args[0]] == 0, "locked-once", op, outPos(r, o), "a lock is taken while it is held")
							c.need(fieldOf(r, o.st, ev.Args[0]) != "?", "own-lock", op, outPos(r, o), "the lock does not belong to the storage object")
							lv[ev.Args[0]]++
						case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
							c.need(lv[ev.Args[0]] > 0, "unlock", op, outPos(r, o), "a lock is released that is not held")
							lv[ev.Args[0]]--
						}
					}
				}
			}
			written := map[string]bool{}
			for _, a := range accs {
				if a.kind == "write" {
					written[a.field] = true
				}
			}
			for _, a := range accs {
				ok := a.w || a.kind == "read" && (a.r || !written[a.field])
				c.need(ok, "map."+a.kind, a.op, a.pos, "the map %s is accessed without its lock", a.field)
			}
		}
		// consumption
		locks := map[string]map[string]bool{}
		for _, s := range sessions {
			r := c.root(pkgMem, s, "Delete")
			for _, o := range r.Outs {
				if !success(o) {
					c.need(failure(o), "decided", s+".Delete", outPos(r, o), "whether the deletion fails is not decided")
					continue
				}
				ok := false
				acc := accesses(r, o.st)
				for _, d := range acc {
					if d.kind == "take" && d.found(o.st) {
						ok = true
					}
					if d.kind != "delete" {
						continue
					}
					for _, g := range acc {
						if g.kind == "get" && g.n < d.n && g.key == d.key && g.index == d.index && g.found(o.st) {
							if l := together(o.st, g.n, d.n); l != nil {
								ok = true
								if locks[s] == nil {
									locks[s] = map[string]bool{}
								}
								locks[s][fieldOf(r, o.st, l)] = true
							}
						}
					}
				}
				c.need(ok, "consume", s+".Delete", outPos(r, o), "the deletion succeeds without having found the entry in the same critical section: concurrent deletions may all succeed")
			}
			c.need(len(locks[s]) <= 1, "consume.lock", s, "-", "the deletions of different paths hold different locks")
		}
		// approval of a user code
		r := c.root(pkgMem, "DeviceCodeSessions", "Validate")
		user := c.lookupKey(c.root(pkgMem, "DeviceCodeSessions", "GetByUserCode"))
		for _, o := range r.Outs {
			if !success(o) {
				continue
			}
			ok := true
			n := 0
			acc := accesses(r, o.st)
			for _, w := range acc {
				if w.kind != "set" {
					continue
				}
				n++
				w1 := false
				for _, g := range acc {
					if g.kind == "get" && g.n < w.n && g.index == user.index && shape(g.key, r.Args[1], []*Term{r.Args[2]}) == user.shape && g.found(o.st) && together(o.st, g.n, w.n) != nil && pendingChecked(c, r, o.st, g) {
						w1 = true
					}
				}
				ok = ok && w1
			}
			c.need(ok && n > 0, "approve", "DeviceCodeSessions.Validate", outPos(r, o), "an approval is stored without having found the session pending in the same critical section: it may replace another one")
		}
		// proofs
		r = c.root(pkgMem, "DPoPProofs", "Register")
		for _, o := range r.Outs {
			ok := false
			for _, a := range accesses(r, o.st) {
				if a.kind != "add" || a.key != r.Args[1] {
					continue
				}
				if strings.HasPrefix(callName(a.ev), "(*sync.Map)") {
					ok = ok || a.missed(o.st) || failure(o)
				} else {
					ok = ok || same(o.st, o.res[0], res(a.ev, 0)) || failure(o) || okCall(o.st, a.ev, 0)
				}
			}
			c.need(ok || failure(o), "proof.once", "DPoPProofs.Register", outPos(r, o), "a proof identifier is registered although it was known")
		}
		c.floor("consume", 2, "deletions of single-use sessions")
		c.floor("map.read", 3, "reads of maps")
		c.floor("map.write", 1, "writes of maps")
		c.floor("approve", 1, "approvals")
		c.floor("proof.once", 1, "registrations of proofs")
	})

	register("C52", "stored state lives exactly as long as advertised", "The default lifetime given to the cache constructors and the lifetimes of the insertions are compared with the advertised one.", func(c *Ctx) {
		ttl := func(r *Root, st *State, a access) (int64, bool) {
			d := int64(0)
			if a.ttl != nil {
				v, ok := a.ttl.int()
				if !ok {
					return 0, false
				}
				d = v
			}
			if d == 0 {
				var ctor *Term
				walk(a.ev.Args[0], func(t *Term) bool {
					if t.Op == "call" && strings.HasSuffix(callName(t), "go-cache.New") {
						ctor = t
					}
					return true
				})
				if ctor == nil {
					return 0, false
				}
				v, ok := ctor.Args[0].int()
				if !ok {
					return 0, false
				}
				d = v
			}
			return d, d > 0
		}
		for _, s := range append(append([]string(nil), sessions...), "DeviceCodeSessions") {
			r := c.root(pkgMem, s, "Register")
			for _, o := range r.Outs {
				if !success(o) {
					continue
				}
				adv, ok := o.st.facts.find(o.res[0]).int()
				c.need(ok && adv > 0, "advertised", s, outPos(r, o), "the advertised lifetime is not a positive constant")
				for _, a := range accesses(r, o.st) {
					if a.kind != "set" && a.kind != "add" {
						continue
					}
					d, ok := ttl(r, o.st, a)
					c.need(ok && d == adv*1e9, "lifetime", s+"."+a.index, outPos(r, o), "the entry lives %d s, %d s are advertised", d/1e9, adv)
				}
			}
		}
		// an approved device session is not kept longer than a pending one
		v := c.root(pkgMem, "DeviceCodeSessions", "Validate")
		adv := int64(0)
		for _, o := range c.root(pkgMem, "DeviceCodeSessions", "Register").Outs {
			if n, ok := o.st.facts.find(o.res[0]).int(); ok && success(o) {
				adv = n
			}
		}
		for _, o := range v.Outs {
			for _, a := range accesses(v, o.st) {
				if a.kind == "set" || a.kind == "add" {
					d, ok := ttl(v, o.st, a)
					c.need(ok && d <= adv*1e9, "approved", "DeviceCodeSessions.Validate "+a.index, outPos(v, o), "an approved session is kept longer than a pending one")
				}
			}
		}
		// expired entries are removed
		for _, s := range append(append([]string(nil), sessions...), "DeviceCodeSessions", "DPoPProofs") {
			r := c.root(pkgMem, s, "")
			n := 0
			for _, ev := range r.evs("github.com/patrickmn/go-cache.New") {
				d, ok := ev.Args[1].int()
				c.need(ok && d > 0, "removed", s, ev.Pos, "expired entries are never removed")
				n++
			}
			c.need(n > 0, "removed", s, "-", "the storage has no cache")
		}
		r := c.root(pkgMem, "DPoPProofs", "Register")
		for _, o := range r.Outs {
			for _, a := range accesses(r, o.st) {
				if a.kind == "add" || a.kind == "set" {
					d, ok := ttl(r, o.st, a)
					// a proof is acceptable from one minute before to one
					// minute after its issue time, in whole seconds (C30)
					c.need(ok && d >= 121e9, "proof", "DPoPProofs.Register", outPos(r, o), "a proof identifier is forgotten after %d s while the proof is acceptable for up to 121 s", d/1e9)
				}
			}
		}
		c.floor("lifetime", 4, "insertions")
		c.floor("proof", 1, "registrations of proofs")
		c.floor("approved", 2, "insertions of approved sessions")
		c.floor("removed", 4, "caches")
	})

	register("C53", "lookups report missing entries as such", "All outcomes of the lookups of the in-memory storage are enumerated.", func(c *Ctx) {
		type lk struct {
			ctor, m string
		}
		for _, x := range []lk{{"AuthorizationCodeSessions", "Get"}, {"AuthorizationRequests", "Get"}, {"DeviceCodeSessions", "GetByDeviceCode"}, {"DeviceCodeSessions", "GetByUserCode"}, {"Tokens", "Get"}, {"Tokens", "GetByValue"}} {
			r := c.root(pkgMem, x.ctor, x.m)
			op := x.ctor + "." + x.m
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				var g *access
				for _, a := range accesses(r, st) {
					a := a
					if a.kind == "get" {
						g = &a
					}
				}
				if !c.need(g != nil, "lookup", op, pos, "an answer without a lookup") {
					continue
				}
				if wrongType(st) {
					continue // all entries have the type that is stored
				}
				if success(o) {
					v := stripIface(o.res[0])
					if v.Op == "clone" {
						v = stripIface(v.Args[0])
					}
					c.need(g.found(st) && g.isFound(v), "found", op, pos, "the answer is not the entry found")
				} else {
					c.need(failure(o) && g.missed(st) && notFoundErr(c, o), "missing", op, pos, "an error is returned that does not report a missing entry, or for an existing entry")
					c.need(isNil(st, o.res[0]), "nothing", op, pos, "something is returned with an error")
				}
			}
		}
		for _, m := range []string{"Delete", "Revoke"} {
			r := c.root(pkgMem, "Tokens", m)
			for _, o := range r.Outs {
				if !success(o) && !wrongType(o.st) {
					c.need(notFoundErr(c, o), "missing", "Tokens."+m, outPos(r, o), "the error does not report a missing token")
				}
			}
		}
		for _, s := range sessions {
			r := c.root(pkgMem, s, "Delete")
			for _, o := range r.Outs {
				if !success(o) && !wrongType(o.st) {
					c.need(notFoundErr(c, o), "missing", s+".Delete", outPos(r, o), "the error does not report a missing entry")
				}
			}
		}
		// maps
		for _, x := range []lk{{"Clients", "Get"}, {"Resources", "GetByURI"}, {"Clients", "GetByName"}} {
			r := c.root(pkgMem, x.ctor, x.m)
			op := x.ctor + "." + x.m
			for _, o := range r.Outs {
				st, pos, v := o.st, outPos(r, o), o.st.facts.find(o.res[0])
				if !success(o) {
					c.need(failure(o) && notFoundErr(c, o), "missing", op, pos, "the error does not report a missing entry")
					c.need(isNil(st, v), "nothing", op, pos, "something is returned with an error")
					if x.m != "GetByName" {
						miss := false
						for f, pol := range st.facts.m {
							miss = miss || f.Op == "has" && f.Args[1] == r.Args[1] && !pol
							if f.Op == "eq" && pol {
								// no entry of these maps is nil
								for i, l := range f.Args {
									miss = miss || l.Op == "lookup" && l.Args[1] == r.Args[1] && f.Args[1-i].Op == "nil"
								}
							}
						}
						c.need(miss, "absent", op, pos, "an existing entry is reported as missing")
					}
					continue
				}
				if x.m == "GetByName" {
					ok := v.Op == "res" && v.S == "2" && v.Args[0].Op == "next"
					name := mkFld(v, "ClientName", types.Typ[types.String])
					if ok {
						name = r.rd(st, v, "ClientName")
					}
					c.need(ok && (same(st, name, r.Args[1]) || st.facts.eval(foldEq(name, r.Args[1])) == 1), "found", op, pos, "the client returned does not have the requested name")
					continue
				}
				hit := false
				for f, pol := range st.facts.m {
					hit = hit || f.Op == "has" && f.Args[1] == r.Args[1] && pol && v.Op == "lookup" && v.Args[0] == f.Args[0] && v.Args[1] == f.Args[1]
				}
				hit = hit || v.Op == "lookup" && v.Args[1] == r.Args[1] && nonNil(st, v)
				c.need(hit, "found", op, pos, "the answer is not the entry found")
			}
		}
		// proofs
		r := c.root(pkgMem, "DPoPProofs", "Exists")
		for _, o := range r.Outs {
			if !success(o) {
				continue
			}
			ok := false
			for _, a := range accesses(r, o.st) {
				if a.kind == "get" && a.key == r.Args[1] {
					ok = same(o.st, o.res[0], res(a.ev, 1)) || a.found(o.st) && holds(o.st, o.res[0]) || a.missed(o.st) && o.st.facts.eval(o.res[0]) == -1
				}
			}
			c.need(ok, "exists", "DPoPProofs.Exists", outPos(r, o), "the answer is not whether the identifier is registered")
		}
		c.floor("found", 9, "successful lookups")
		c.floor("missing", 9, "missing entries")
		c.floor("exists", 1, "answers")
	})
	_ = fmt.Sprint
}

// pendingChecked tells whether the session found by an access was pending.
func pendingChecked(c *Ctx, r *Root, st *State, g access) bool {
	pending := c.constOf("api/oidc/session/v1", "DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING")
	ok := false
	for f, pol := range st.facts.m {
		if pol && f.Op == "eq" && contains(f, res(g.ev, 0)) && contains(f, pending) {
			ok = true
		}
	}
	return ok
}
