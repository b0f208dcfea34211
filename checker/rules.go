package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rule decides one property.
type Rule struct {
	ID    string
	Title string
	Run   func(c *Ctx)
	// Explain says what the rule analyses.
	Explain string
}

var rules = map[string]*Rule{}

func register(id, title, explain string, run func(c *Ctx)) {
	rules[id] = &Rule{ID: id, Title: title, Run: run, Explain: explain}
}

type obligation struct {
	key, construct, pos, msg string
	ok                       bool
}

// Ctx collects the obligations of one property.
type Ctx struct {
	p      *Prog
	roots  map[string]*Root
	obs    []obligation
	perKey map[string]int
	notes  map[string]bool
	e      *Engine
	funcs  map[string]bool
	sites  map[string]bool
	used   map[string]bool
	forced int
	lists  int
}

func newCtx(p *Prog) *Ctx {
	return &Ctx{p: p, roots: map[string]*Root{}, perKey: map[string]int{}, notes: map[string]bool{}, funcs: map[string]bool{}, sites: map[string]bool{}, used: map[string]bool{}, e: newEngine(p)}
}

// need records an obligation: the construct must satisfy the rule named key.
func (c *Ctx) need(ok bool, key, construct, pos, format string, args ...any) bool {
	o := obligation{key: key, construct: construct, pos: pos, ok: ok}
	if !ok {
		o.msg = fmt.Sprintf(format, args...)
	}
	c.obs = append(c.obs, o)
	c.perKey[key]++
	return ok
}

// floor requires that a rule found at least n instances; otherwise the anchor
// it analyses has disappeared and the rule says nothing.
func (c *Ctx) floor(key string, n int, what string) {
	if c.perKey[key] < n {
		c.obs = append(c.obs, obligation{key: key, construct: "anchor", pos: "-", msg: fmt.Sprintf("only %d instances found, expected at least %d: %s", c.perKey[key], n, what)})
	}
}

// EvRec is an event with the state in which it happened.
type EvRec struct {
	*Event
	St *State
}

// Root is the analysis of one exported operation.
type Root struct {
	Recv   *Term // the object the constructor returned
	Name   string
	Fn     *ssa.Function
	Ctor   []*Term
	Args   []*Term
	Outs   []*Outcome
	Evs    []*EvRec
	E      *Engine
	Forced int
}

// keepEvent selects the events whose state is remembered.
func keepEvent(n string) bool { return true }

func (c *Ctx) setup(e *Engine) {}

// root analyses method (or, when empty, the function itself) reached from an
// exported constructor.
func (c *Ctx) root(pkg, ctor, method string, opts ...func(e *Engine)) *Root {
	return c.rootWith(pkg, ctor, method, nil, nil, opts...)
}

func (c *Ctx) rootWith(pkg, ctor, method string, ctorArgs func(fn *ssa.Function, st *State, e *Engine) []*Term, callArgs func(fn *ssa.Function, st *State, e *Engine) []*Term, opts ...func(e *Engine)) *Root {
	name := pkg + "." + ctor
	if method != "" {
		name += "->" + method
	}
	if ctorArgs == nil && callArgs == nil && len(opts) == 0 {
		if r, ok := c.roots[name]; ok {
			return r
		}
	}
	rootCount++
	paramScope = fmt.Sprintf("%s#%d", name, rootCount)
	e := newEngine(c.p)
	for _, o := range opts {
		o(e)
	}
	e.NoGC = pkg == pkgMem
	r := &Root{Name: name, E: e}
	f := c.p.fn(pkg, ctor)
	if f == nil {
		bail("anchor %s.%s not found", pkg, ctor)
	}
	seen := e.OnEvent
	hook := func(st *State, ev *Event) {
		if seen != nil {
			seen(st, ev)
		}
		if keepEvent(ev.Name) {
			r.Evs = append(r.Evs, &EvRec{Event: ev, St: st.clone()})
		}
	}
	st := newState()
	if ctorArgs != nil {
		r.Ctor = ctorArgs(f, st, e)
	} else {
		r.Ctor = paramTerms(f, 0, "p")
	}
	if method == "" {
		r.Fn = f
		r.Args = r.Ctor
		e.OnEvent = hook
		r.Outs = e.run(f, e.ctx(0, nil, f), r.Ctor, nil, st, nil)
	} else {
		outs := e.run(f, e.ctx(0, nil, f), r.Ctor, nil, st, nil)
		e.OnEvent = hook
		n := 0
		for _, o := range outs {
			if len(o.res) == 0 {
				continue
			}
			if len(o.res) == 2 && o.st.facts.eval(mkEq(o.res[1], tNil)) == -1 {
				continue
			}
			x := o.res[0]
			if x.Op == "nil" {
				continue
			}
			var m *ssa.Function
			recv := x
			if x.Op == "iface" && x.T != nil {
				m = c.p.method(x.T, method, nil)
				recv = x.Args[0]
			} else if x.T != nil {
				m = c.p.method(x.T, method, nil)
				if m == nil && x.Op == "alloc" {
					m = c.p.method(types.NewPointer(x.T), method, nil)
				}
			}
			if m == nil {
				bail("anchor %s: the constructor does not return a known implementation (%s)", name, x)
			}
			r.Fn = m
			r.Recv = recv
			var rest []*Term
			e.pin = append(append([]*Term{recv}, r.Ctor...), e.pin...)
			if callArgs != nil {
				rest = callArgs(m, o.st, e)
			} else {
				rest = paramTerms(m, 1, "a")
			}
			r.Args = rest
			o.st.trace = tEmptyTrace
			e.forgetMutable(o.st, recv)
			if e.Ready != nil {
				e.Ready(o.st, r)
			}
			r.Outs = append(r.Outs, e.run(m, e.ctx(1, nil, m), append([]*Term{recv}, rest...), nil, o.st, nil)...)
			n++
		}
		if n == 0 {
			bail("anchor %s: the constructor never returns a value", name)
		}
	}
	e.OnEvent = nil
	for k := range e.Funcs {
		c.funcs[k] = true
	}
	for k := range e.Sites {
		c.sites[k] = true
	}
	for k := range e.UsedSum {
		c.used[k] = true
	}
	r.Forced = e.forced
	c.forced += e.forced
	c.roots[name] = r
	return r
}

// paramScope keeps the parameters of different operations apart: the terms
// of two analyses may not share types.
var paramScope string

var rootCount int

func paramTerms(f *ssa.Function, from int, prefix string) []*Term {
	var r []*Term
	for i, x := range f.Params[from:] {
		r = append(r, mkT(x.Type(), "param", fmt.Sprintf("%s%d\x00%s", prefix, i, paramScope)))
	}
	return r
}

// ---- reading abstract objects ----------------------------------------------

// rd reads a chain of fields starting from a pointer.
func (r *Root) rd(st *State, t *Term, names ...string) *Term { return rdField(r.E, st, t, names...) }

func rdField(e *Engine, st *State, t *Term, names ...string) *Term {
	for _, n := range names {
		if t.Op == "iface" {
			t = t.Args[0]
		}
		if x := st.facts.find(t); x.Op == "alloc" || x.Op == "clone" {
			t = x
		}
		owner := structOf(t)
		if owner == nil {
			return mk("unreadable", n, t)
		}
		u := owner.Underlying().(*types.Struct)
		var f *types.Var
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				f = u.Field(i)
			}
		}
		if f == nil {
			return mk("nofield", n, t)
		}
		if isStructVal(t) {
			t = mkFld(t, n, f.Type())
			continue
		}
		t = e.load(st, mkFA(t, f, owner), f.Type())
		if t.T == nil {
			t.T = f.Type()
		}
	}
	return t
}

func isStructVal(t *Term) bool {
	if t.Op == "alloc" || t.Op == "clone" || t.Op == "fa" || t.Op == "global" || t.Op == "ia" {
		return false
	}
	if t.T == nil {
		return false
	}
	_, ok := t.T.Underlying().(*types.Struct)
	return ok
}

func structOf(t *Term) types.Type {
	if t.T == nil {
		return nil
	}
	ty := t.T
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}
	if _, ok := ty.Underlying().(*types.Struct); ok {
		return ty
	}
	return nil
}

// deref reads *t.
func (r *Root) derefv(st *State, t *Term) *Term {
	if x := st.facts.find(t); x.Op == "alloc" {
		t = x
	}
	var et types.Type
	if t.T != nil {
		if t.Op == "alloc" {
			et = t.T
		} else {
			et = deref(t.T)
		}
	}
	return r.E.load(st, t, et)
}

// oneof reads the payload of a protobuf oneof.
func (r *Root) oneof(st *State, t *Term, field, wrapper, inner string) *Term {
	v := r.rd(st, t, field)
	pk := structOf(t).(*types.Named).Obj().Pkg()
	o := pk.Scope().Lookup(wrapper)
	if o == nil {
		bail("type %s.%s not found", pk.Path(), wrapper)
	}
	x, _ := r.E.typeAssert(st, v, types.NewPointer(o.Type()))
	return r.rd(st, x, inner)
}

// constOf finds a named constant of a package of the module.
func (c *Ctx) constOf(pkg, name string) *Term {
	for path, a := range c.p.asts {
		if path == modPath+"/"+pkg || path == pkg {
			if o, ok := a.Types.Scope().Lookup(name).(*types.Const); ok {
				return mkConst(o.Val(), o.Type())
			}
		}
	}
	bail("constant %s.%s not found", pkg, name)
	return nil
}

func (c *Ctx) strOf(pkg, name string) *Term {
	t := c.constOf(pkg, name)
	return mkStr(constant.StringVal(t.V))
}

// ---- conditions -------------------------------------------------------------

func holds(st *State, cond *Term) bool { return st.facts.eval(cond) == 1 }

func same(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	return st.facts.eval(mkEq(a, b)) == 1
}

func isNil(st *State, t *Term) bool  { return st.facts.eval(mkEq(t, tNil)) == 1 }
func nonNil(st *State, t *Term) bool { return st.facts.eval(mkEq(t, tNil)) == -1 }

func nonEmpty(st *State, t *Term) bool {
	if holds(st, mkNot(mkEq(mkStr(""), t))) {
		return true
	}
	lo, _, ok, _ := st.facts.bounds(mkT(types.Typ[types.Int], "len", "", t))
	return ok && lo > 0
}

func lenAtLeast(st *State, t *Term, n int64) bool {
	if s, ok := st.facts.find(t).str(); ok {
		return int64(len(s)) >= n
	}
	if n == 1 && nonEmpty(st, t) {
		return true
	}
	lo, _, ok, _ := st.facts.bounds(mkT(types.Typ[types.Int], "len", "", t))
	return ok && lo >= n
}

func lenAtMost(st *State, t *Term, n int64) bool {
	if s, ok := st.facts.find(t).str(); ok {
		return int64(len(s)) <= n
	}
	_, hi, _, ok := st.facts.bounds(mkT(types.Typ[types.Int], "len", "", t))
	return ok && hi <= n
}

// member tells whether membership of x in list l is established, exactly or
// up to letter case.
func member(st *State, l, x *Term, fold bool) bool {
	if st.facts.eval(containsTerm(l, x, false)) == 1 {
		return true
	}
	if fold && st.facts.eval(containsTerm(l, x, true)) == 1 {
		return true
	}
	// a loop over the list that found an equal element
	rx := st.facts.find(x)
	for cnd, pol := range st.facts.m {
		if !pol {
			continue
		}
		if cnd.Op == "eq" || (fold && cnd.Op == "pure" && cnd.S == "strings.EqualFold") {
			for i := 0; i < 2; i++ {
				a, b := cnd.Args[i], cnd.Args[1-i]
				if (b == x || st.facts.find(b) == rx) && isElemOf(a, l) {
					return true
				}
			}
		}
		// lookup in another equal list or value
		if cnd.Op == "pure" && (cnd.S == "contains" || (fold && cnd.S == "containsFold")) {
			if same(st, cnd.Args[0], l) && same(st, cnd.Args[1], x) {
				return true
			}
		}
		if cnd.Op == "pure" && strings.HasPrefix(cnd.S, "slices.Index") {
			continue
		}
		if cnd.Op == "lt" && cnd.Args[1].Op == "pure" && cnd.Args[1].S == "slices.Index" {
			if k, ok := cnd.Args[0].int(); ok && k >= -1 && same(st, cnd.Args[1].Args[0], l) && same(st, cnd.Args[1].Args[1], x) {
				return true
			}
		}
	}
	for cnd, pol := range st.facts.m {
		if !pol && cnd.Op == "eq" && cnd.Args[0] == mkInt(-1) && cnd.Args[1].Op == "pure" && cnd.Args[1].S == "slices.Index" {
			if same(st, cnd.Args[1].Args[0], l) && same(st, cnd.Args[1].Args[1], x) {
				return true
			}
		}
	}
	return false
}

func isElemOf(a, l *Term) bool {
	if a.Op == "sel" && a.Args[0].Op == "ia" && a.Args[0].Args[0] == l {
		return true
	}
	if a.Op == "idx" && a.Args[0] == l {
		return true
	}
	return false
}

// notMember tells whether x is known not to be in l.
func notMember(st *State, l, x *Term, fold bool) bool {
	if st.facts.eval(containsTerm(l, x, true)) == -1 {
		return true
	}
	if !fold && st.facts.eval(containsTerm(l, x, false)) == -1 {
		return true
	}
	for cnd, pol := range st.facts.m {
		if pol && cnd.Op == "forall" && cnd.Args[0] == l {
			g := cnd.Args[1]
			if g == mkNot(mkEq(tHole, x)) && !fold {
				return true
			}
			if g == mkNot(foldEq(tHole, x)) {
				return true
			}
		}
	}
	return false
}

// notExpired tells whether exp was compared with the current time and found
// to be in the future.
func notExpired(st *State, exp *Term) bool {
	for _, now := range nows(st) {
		if st.facts.eval(mkLt(exp, now)) == -1 {
			return true
		}
	}
	return false
}

// nows lists the unix times read from the clock so far.
func nows(st *State) []*Term {
	var r []*Term
	add := func(ev *Term) {
		if ev.Op == "call" && callName(ev) == "time.Now" {
			r = append(r, mkT(types.Typ[types.Int64], "unix", "", mk("res", "0", ev)))
		}
	}
	for _, ev := range st.events() {
		add(ev)
	}
	for ev := range st.may {
		add(ev)
	}
	return r
}

// ---- events -----------------------------------------------------------------

const (
	evCodeGet      = "(zntr.io/solid/server/storage.AuthorizationCodeSessionReader).Get"
	evCodeDelete   = "(zntr.io/solid/server/storage.AuthorizationCodeSessionWriter).Delete"
	evCodeRegister = "(zntr.io/solid/server/storage.AuthorizationCodeSessionWriter).Register"
	evReqGet       = "(zntr.io/solid/server/storage.AuthorizationRequestReader).Get"
	evReqDelete    = "(zntr.io/solid/server/storage.AuthorizationRequestWriter).Delete"
	evReqRegister  = "(zntr.io/solid/server/storage.AuthorizationRequestWriter).Register"
	evClientGet    = "(zntr.io/solid/server/storage.ClientReader).Get"
	evTokGet       = "(zntr.io/solid/server/storage.TokenReader).Get"
	evTokByValue   = "(zntr.io/solid/server/storage.TokenReader).GetByValue"
	evTokCreate    = "(zntr.io/solid/server/storage.TokenWriter).Create"
	evTokRevoke    = "(zntr.io/solid/server/storage.TokenWriter).Revoke"
	evTokDelete    = "(zntr.io/solid/server/storage.TokenWriter).Delete"
	evDevByCode    = "(zntr.io/solid/server/storage.DeviceCodeSessionReader).GetByDeviceCode"
	evDevByUser    = "(zntr.io/solid/server/storage.DeviceCodeSessionReader).GetByUserCode"
	evDevRegister  = "(zntr.io/solid/server/storage.DeviceCodeSessionWriter).Register"
	evDevValidate  = "(zntr.io/solid/server/storage.DeviceCodeSessionWriter).Validate"
	evDevDelete    = "(zntr.io/solid/server/storage.DeviceCodeSessionWriter).Delete"
	evResGet       = "(zntr.io/solid/server/storage.ResourceReader).GetByURI"
	evTokGen       = "(zntr.io/solid/sdk/token.Generator).Generate"
	evCodeGen      = "(zntr.io/solid/sdk/generator.AuthorizationCode).Generate"
	evURIGen       = "(zntr.io/solid/sdk/generator.RequestURI).Generate"
	evURIValidate  = "(zntr.io/solid/sdk/generator.RequestURI).Validate"
	evDevGen       = "(zntr.io/solid/sdk/generator.DeviceCode).Generate"
	evUserGen      = "(zntr.io/solid/sdk/generator.DeviceUserCode).Generate"
	evUniuri       = "github.com/dchest/uniuri.NewLen"
)

// calls lists the calls to a function that happened before this point on
// every execution reaching it, oldest first.
func calls(st *State, names ...string) []*Term {
	var r []*Term
	for _, ev := range st.events() {
		n := callName(ev)
		for _, x := range names {
			if n == x {
				r = append(r, ev)
			}
		}
	}
	return r
}

// mayCall tells whether the function may have been called before this point.
func mayCall(st *State, names ...string) bool {
	if len(calls(st, names...)) > 0 {
		return true
	}
	for ev := range st.may {
		for _, x := range names {
			if callName(ev) == x {
				return true
			}
		}
	}
	return false
}

// changedMap tells whether a map contained in v was written to on the way to this point.
func changedMap(st *State, v *Term) bool {
	for _, x := range calls(st, evMapChange) {
		if contains(v, x.Args[0]) {
			return true
		}
	}
	for x := range st.may {
		if callName(x) == evMapChange && (len(x.Args) == 0 || contains(v, x.Args[0]) || x.Args[0].Op == "havoc") {
			return true
		}
	}
	return false
}

func res(call *Term, i int) *Term { return mk("res", fmt.Sprint(i), call) }

// okCall tells whether the error result (index i) of a call is known nil.
func okCall(st *State, call *Term, i int) bool { return isNil(st, res(call, i)) }

// evs selects the recorded events.
func (r *Root) evs(names ...string) []*EvRec {
	var l []*EvRec
	for _, e := range r.Evs {
		for _, n := range names {
			if e.Name == n {
				l = append(l, e)
			}
		}
	}
	return l
}

// site names a construct for reports.
func (e *EvRec) site() string { return e.Fn + "/" + short(e.Name) }

func outPos(r *Root, o *Outcome) string { return r.E.p.pos(o.pos) }

// retConst describes an outcome.
func describe(st *State) string {
	var fs []string
	for cnd, pol := range st.facts.m {
		s := cnd.String()
		if !pol {
			s = "!" + s
		}
		fs = append(fs, s)
	}
	sort.Strings(fs)
	return strings.Join(fs, " && ")
}

// errCode reads the OAuth error code of a response error object.
func (r *Root) errCode(st *State, errObj *Term) (string, bool) {
	return st.facts.find(r.rd(st, errObj, "Err")).str()
}
