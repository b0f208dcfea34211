package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The validity of a token, and the context that carries the authenticated
// client.

func init() {
	register("C66", "a token is usable exactly within its validity period", "All outcomes of the usability test are enumerated and compared with the bounds of the token.", func(c *Ctx) {
		r := c.root(pkgSdkToken, "IsUsable", "")
		t := r.Ctor[0]
		for _, o := range r.Outs {
			for _, yes := range []bool{true, false} {
				st, pos := o.st.clone(), outPos(r, o)
				if !st.facts.assume(o.res[0], yes) {
					continue
				}
				meta := r.rd(st, t, "Metadata")
				exp, nbf := r.rd(st, t, "Metadata", "ExpiresAt"), r.rd(st, t, "Metadata", "NotBefore")
				if yes {
					c.need(nonNil(st, t) && nonNil(st, meta), "present", "IsUsable", pos, "a missing token or token without metadata is usable")
					c.need(notExpired(st, exp), "expired", "IsUsable", pos, "an expired token is usable")
					started := false
					for _, now := range nows(st) {
						started = started || st.facts.eval(mkLt(now, nbf)) == -1
					}
					c.need(started, "early", "IsUsable", pos, "a token is usable before its time")
					continue
				}
				why := isNil(st, t) || isNil(st, meta)
				for _, now := range nows(st) {
					why = why || st.facts.eval(mkLt(now, exp)) == -1 || st.facts.eval(mkLt(now, nbf)) == 1
				}
				c.need(why, "refused", "IsUsable", pos, "a token within its validity period is not usable")
			}
		}
		c.floor("expired", 1, "usable outcomes")
		c.floor("refused", 3, "unusable outcomes")
	})

	register("C67", "the authenticated client is carried by the context", "The key and the value stored into a context are compared with the key and the value read.", func(c *Ctx) {
		in, out := c.root(pkgClientAuth, "Inject", ""), c.root(pkgClientAuth, "FromContext", "")
		var key *Term
		for _, o := range in.Outs {
			v, pos := stripIface(o.res[0]), outPos(in, o)
			ok := (v.Op == "pure" || v.Op == "res") && len(v.Args) > 0
			if v.Op == "res" && ok {
				v = v.Args[0]
			}
			if !c.need(ok && strings.HasSuffix(callName(v), "context.WithValue") || v.Op == "pure" && v.S == "context.WithValue" && len(v.Args) == 3, "derived", "Inject", pos, "the result is not derived from the given context: %s", v) {
				continue
			}
			key = v.Args[1]
			c.need(v.Args[0] == in.Ctor[0], "parent", "Inject", pos, "the new context does not descend from the given one")
			c.need(v.Args[2] == in.Ctor[1] || stripIface(v.Args[2]) == in.Ctor[1], "value", "Inject", pos, "the context does not carry the given client: %s", v.Args[2])
			own := ownType(key)
			c.need(own, "key", "Inject", pos, "the key may coincide with a key of another package: %s", key)
		}
		for _, o := range out.Outs {
			st, pos := o.st, outPos(out, o)
			var val *Term
			walk(mk("pair", "", o.res...), func(t *Term) bool {
				if (t.Op == "call" || t.Op == "pure") && strings.HasSuffix(t.S+callName(t), "context.Context).Value") || t.Op == "res" && strings.HasSuffix(callName(t.Args[0]), "context.Context).Value") {
					val = t
				}
				return true
			})
			walkFacts(st, func(t *Term) {
				if t.Op == "pure" && strings.HasSuffix(t.S, "context.Context).Value") {
					val = t
				}
			})
			if !c.need(val != nil, "read", "FromContext", pos, "the context is not read") {
				continue
			}
			x := val
			if x.Op == "res" {
				x = x.Args[0]
			}
			c.need(x.Args[0] == out.Ctor[0] && x.Args[1] == key, "same-key", "FromContext", pos, "another key is read than is written: %s, %s", x.Args[1], key)
			ok, v := o.res[1], o.res[0]
			if st.facts.eval(ok) == -1 {
				c.need(isNil(st, v), "none", "FromContext", pos, "a client is returned although there is none")
				continue
			}
			c.need(contains(v, val), "client", "FromContext", pos, "the client returned is not the one carried: %s", v)
			c.need(ok.Op == "isa" && contains(ok, val) || holds(st, ok), "ok", "FromContext", pos, "whether there is a client is not told")
		}
		c.floor("value", 1, "injections")
		c.floor("same-key", 1, "reads")
	})
}

// ownType tells whether a value's type belongs to a package of the module and
// is not exported, so that nobody else can make an equal value.
func ownType(t *Term) bool {
	if t == nil {
		return false
	}
	ty := t.T
	if t.Op == "iface" && t.T == nil {
		ty = t.Args[0].T
	}
	if ty == nil {
		return false
	}
	if p, ok := ty.(*types.Pointer); ok {
		return p != nil
	}
	n, ok := ty.(*types.Named)
	return ok && !n.Obj().Exported() && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func init() {
	register("C68", "messages are written to and read from JSON completely", "The encoding and decoding methods of every message type are analysed: what is encoded or decoded, and with which options.", func(c *Ctx) {
		for _, pk := range c.p.prog.AllPackages() {
			if !strings.HasPrefix(pk.Pkg.Path(), modPath+"/api/") || strings.HasSuffix(pk.Pkg.Path(), "/mock") {
				continue
			}
			scope := pk.Pkg.Scope()
			for _, n := range scope.Names() {
				tn, ok := scope.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				pt := types.NewPointer(tn.Type())
				if _, ok := tn.Type().Underlying().(*types.Struct); !ok || c.p.method(pt, "ProtoReflect", nil) == nil {
					continue
				}
				name := pk.Pkg.Name() + "." + n
				run := func(m string) (*ssa.Function, []*Term, []*Outcome) {
					f := c.p.method(pt, m, pk.Pkg)
					if !c.need(f != nil && len(f.Blocks) > 0, "present", name, "-", "the message has no %s", m) {
						return nil, nil, nil
					}
					e := newEngine(c.p)
					e.OnEvent = func(st *State, ev *Event) {
						if strings.HasSuffix(ev.Name, "protojson.UnmarshalOptions).Unmarshal") || strings.HasSuffix(ev.Name, "protojson.Unmarshal") {
							st.event(mk("ghost", ev.Name, ev.Args...))
						}
					}
					args := paramTerms(f, 0, "p")
					outs := e.run(f, e.ctx(0, nil, f), args, nil, newState(), nil)
					c.funcs[name+"."+m] = true
					return f, args, outs
				}
				opt := func(o *Term, f string) *Term { return mkFld(o, f, types.Typ[types.Bool]) }
				f, args, outs := run("MarshalJSON")
				for _, o := range outs {
					pos := c.p.pos(f.Pos())
					v := o.res[0]
					if v.Op == "res" {
						v = v.Args[0]
					}
					if nonNil(o.st, o.res[1]) && isNil(o.st, o.res[0]) {
						continue
					}
					ok := (v.Op == "pure" || v.Op == "call") && strings.HasSuffix(v.S, "protojson.MarshalOptions).Marshal") || v.Op == "call" && strings.HasSuffix(callName(v), "protojson.MarshalOptions).Marshal")
					if !c.need(ok && stripIface(v.Args[1]) == args[0], "encodes", name, pos, "the JSON form is not made from the message: %s", v) {
						continue
					}
					c.need(opt(v.Args[0], "UseProtoNames") == mkBool(true), "names", name, pos, "the members do not have the protocol names")
					c.need(opt(v.Args[0], "EmitUnpopulated") == mkBool(true), "all", name, pos, "fields with their zero value are left out")
					c.need(opt(v.Args[0], "UseEnumNumbers") == mkBool(false), "enums", name, pos, "enumerated values are written as numbers")
				}
				f, args, outs = run("UnmarshalJSON")
				for _, o := range outs {
					pos := c.p.pos(f.Pos())
					done := false
					for _, ev := range o.st.events() {
						if ev.Op != "ghost" {
							continue
						}
						n := len(ev.Args)
						done = stripIface(ev.Args[n-1]) == args[0] && ev.Args[n-2] == args[1]
						c.need(n == 3 && opt(ev.Args[0], "DiscardUnknown") == mkBool(true) && opt(ev.Args[0], "AllowPartial") == mkBool(false), "unknown", name, pos, "unknown members are refused")
					}
					// the result is the error of the decoding, or agrees with it
					err := o.res[0]
					if isNil(o.st, err) {
						ok := false
						for f, pol := range o.st.facts.m {
							ok = ok || pol && f.Op == "eq" && strings.Contains(f.String(), "protojson") && contains(f, tNil)
						}
						c.need(ok, "error", name, pos, "the failure of decoding is not reported")
					} else if !nonNil(o.st, err) {
						c.need(err.Op == "res" && strings.Contains(err.String(), "protojson"), "error", name, pos, "the result is not that of the decoding: %s", err)
					}
					c.need(done || nonNil(o.st, o.res[0]), "decodes", name, pos, "the JSON form is not decoded into the message")
				}
			}
		}
		c.floor("encodes", 39, "messages encoded")
		c.floor("decodes", 39, "messages decoded")
	})
}

// detached are functions that do the work of an operation under no context.
var detached = map[string]bool{
	"net/http.NewRequest": true, "net/http.Get": true, "net/http.Post": true, "net/http.PostForm": true, "net/http.Head": true,
	"(*net/http.Client).Get": true, "(*net/http.Client).Post": true, "(*net/http.Client).PostForm": true, "(*net/http.Client).Head": true,
	"context.WithoutCancel": true,
}

func isContext(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}

func init() {
	register("C69", "the caller's context reaches every collaborator", "Every call on every abstract path of every exported operation with a context is examined: what it passes to the collaborators as their context.", func(c *Ctx) {
		for _, x := range entries(c) {
			if x.method == "()" {
				continue
			}
			name := x.pkg + "." + x.ctor
			if x.method != "" {
				name += "->" + x.method
			}
			var own *Term
			ready := x.method == ""
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(analysisError); !ok {
							panic(p)
						}
						c.need(false, "analysed", name, "-", "%v", p)
					}
				}()
				c.rootWith(x.pkg, x.ctor, x.method, nil, nil, func(e *Engine) {
					find := func(ps []*Term) {
						own = nil
						for _, p := range ps {
							if own == nil && p.T != nil && isContext(p.T) {
								own = p
							}
						}
					}
					e.Ready = func(st *State, r *Root) {
						ready = true
						find(r.Args)
						if own != nil {
							c.need(true, "operation", name, c.p.pos(r.Fn.Pos()), "")
						}
					}
					if f := c.p.fn(x.pkg, x.ctor); f != nil && x.method == "" {
						find(paramTerms(f, 0, "p"))
						if own != nil {
							c.need(true, "operation", name, c.p.pos(f.Pos()), "")
						}
					}
					e.OnCall = func(st *State, call *ssa.Call, fn *Term, args []*Term) {
						if !ready || own == nil {
							return
						}
						com := call.Common()
						if f := com.StaticCallee(); f != nil && len(f.Blocks) > 0 && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
							return // seen at its own calls
						}
						callee := com.String()
						if f := com.StaticCallee(); f != nil {
							callee = f.String()
						} else if com.IsInvoke() {
							callee = fn.S
						}
						construct, pos := name+" calling "+short(callee), c.p.pos(call.Pos())
						c.need(!detached[callee], "attached", construct, pos, "the call is not made under the context of the caller")
						if len(args) > len(com.Args) { // the receiver of an interface method
							args = args[1:]
						}
						if len(args) != len(com.Args) {
							return
						}
						for i, a := range com.Args {
							if !isContext(a.Type()) {
								continue
							}
							ok := args[i] == own || contains(args[i], own) || isNil(st, own) || same(st, args[i], own)
							c.need(ok, "context", construct, pos, "the callee gets another context than that of the caller: %s", args[i])
						}
					}
				})
			}()
		}
		c.floor("operation", 20, "operations with a context")
		c.floor("context", 60, "contexts passed on")
	})
}
