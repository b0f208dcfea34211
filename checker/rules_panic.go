package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hazards reports the run-time checks of an instruction and whether the
// abstract state proves that they succeed.
func (e *Engine) hazards(fr *frame, st *State, ins ssa.Instruction) {
	report := func(kind string, t *Term, safe bool) { e.OnHazard(st, kind, t, safe, fr, ins) }
	nilable := func(v ssa.Value) { t := e.val(fr, st, v); report("nil", t, e.knownNonNil(st, t)) }
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			nilable(x.X)
		}
	case *ssa.FieldAddr:
		nilable(x.X)
	case *ssa.Store:
		nilable(x.Addr)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			d := e.val(fr, st, x.Y)
			report("div", d, st.facts.eval(mkEq(d, mkInt(0))) == -1)
		}
	case *ssa.IndexAddr:
		b, i := e.val(fr, st, x.X), e.val(fr, st, x.Index)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			report("nil", b, e.knownNonNil(st, b))
			report("index", i, e.inRange(st, i, mkInt(p.Elem().Underlying().(*types.Array).Len()), b, x.Index))
			return
		}
		report("index", mk("at", "", b, i), e.inRange(st, i, e.lenOf(st, b), b, x.Index))
	case *ssa.Index:
		b, i := e.val(fr, st, x.X), e.val(fr, st, x.Index)
		report("index", mk("at", "", b, i), e.inRange(st, i, e.lenOf(st, b), b, x.Index))
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			b, i := e.val(fr, st, x.X), e.val(fr, st, x.Index)
			report("index", mk("at", "", b, i), e.inRange(st, i, e.lenOf(st, b), b, x.Index))
		}
	case *ssa.Slice:
		e.sliceHazard(fr, st, x)
	case *ssa.MapUpdate:
		m := e.val(fr, st, x.Map)
		report("nil map", m, e.knownNonNil(st, m))
	case *ssa.TypeAssert:
		if !x.CommaOk {
			if types.Identical(x.AssertedType, x.X.Type()) && types.IsInterface(x.AssertedType) {
				// a method is taken from an object
				v := e.val(fr, st, x.X)
				report("nil", v, e.knownNonNil(st, v))
				return
			}
			_, ok := e.typeAssert(st, e.val(fr, st, x.X), x.AssertedType)
			report("assert", e.val(fr, st, x.X), st.facts.eval(ok) == 1)
		}
	case *ssa.Panic:
		report("panic", e.val(fr, st, x.X), false)
	}
}

func (e *Engine) knownNonNil(st *State, t *Term) bool {
	if neverNil(t) || st.facts.eval(mkEq(t, tNil)) == -1 {
		return true
	}
	r := st.facts.find(t)
	return neverNil(r)
}

func (e *Engine) sliceHazard(fr *frame, st *State, x *ssa.Slice) {
	b := e.val(fr, st, x.X)
	var n *Term
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		e.OnHazard(st, "nil", b, e.knownNonNil(st, b), fr, x)
		n = mkInt(p.Elem().Underlying().(*types.Array).Len())
	} else {
		n = e.lenOf(st, b)
	}
	lo, hi := mkInt(0), n
	if x.Low != nil {
		lo = e.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, st, x.High)
	}
	if lo == mkInt(0) && (hi == n || hi == mkInt(0)) {
		return
	}
	if b.Op == "res" {
		if k, ok := e.resultLen(st, b); ok {
			n = mkInt(k)
			if x.High == nil {
				hi = n
			}
		}
	}
	safe := (x.Low == nil || e.atLeast(st, lo, 0, x.Low)) && (x.High == nil || x.Low != nil || e.atLeast(st, hi, 0, x.High)) && (x.Low == nil || hi == n && e.below(st, lo, n, b, false) || st.facts.eval(mkLt(hi, lo)) == -1) && (hi == n || e.below(st, hi, n, b, false))
	e.OnHazard(st, "slice", mk("at", "", b, lo, hi), safe, fr, x)
}

// resultLen is the length of results of functions with a known length.
func (e *Engine) resultLen(st *State, t *Term) (int64, bool) {
	n, _, ok := randomBase(st, t)
	return n, ok
}

// present lists third-party results that are documented to be present, beside
// constructors (New..., With...).
var present = map[string]bool{
	"github.com/go-jose/go-jose/v4/jwt.Signed":           true,
	"(github.com/go-jose/go-jose/v4/jwt.Builder).Claims": true,
	"(*net/url.URL).Query":                               true,
	"context.Background":                                 true,
}

// contractNonNil tells whether a value is present by contract: what the
// embedding application configures, contexts, options, the result of a
// successful call of a collaborator, and what was put into a container.
func (e *Engine) contractNonNil(st *State, t *Term) bool {
	t = stripConv(t)
	switch t.Op {
	case "param":
		if e.pinned(t) && (strings.HasPrefix(t.S, "p") || strings.HasPrefix(t.S, "recv")) {
			return true
		}
		if t.T == nil {
			return false
		}
		if private(t.T) {
			return true
		}
		switch t.T.String() {
		case "context.Context", "*net/http.Request", "net/http.ResponseWriter":
			return true
		}
	case "res", "call", "pure":
		c := t
		if t.Op == "res" {
			c = t.Args[0]
		}
		if c.Op != "call" && c.Op != "pure" {
			// the value of a range over a container
			return strings.HasPrefix(c.String(), "next:") && t.S == "2"
		}
		n := callName(c)
		if containerGet[n] && t.S == "0" {
			return st.facts.eval(res(c, 1)) == 1 || st.facts.eval(res(c, 2)) == 1
		}
		if !strings.Contains(n, modPath) {
			b := n[strings.LastIndex(n, ".")+1:]
			if strings.HasPrefix(b, "New") || strings.HasPrefix(b, "With") || strings.HasPrefix(b, "Must") || present[n] {
				return true
			}
		}
		for i := 1; i < 4; i++ {
			if isNil(st, res(c, i)) {
				return true
			}
		}
	case "ta":
		return e.contractNonNil(st, t.Args[0])
	case "gval":
		// variables of the standard library and of third parties
		return !strings.Contains(t.S, modPath)
	}
	// options given by the embedding application, fields of third-party values
	if o, f := fieldSplit(t); f != "" {
		switch {
		case o.Op == "res" && callName(o.Args[0]) == "(*net/http.Client).Do":
			return f == "Body" && e.contractNonNil(st, o)
		case strings.HasPrefix(resultOf(o), "go.mozilla.org/cose.New") || strings.HasPrefix(resultOf(o), "github.com/patrickmn/go-cache.New"):
			return true
		case f == "Protected" || f == "Unprotected":
			return e.contractNonNil(st, o)
		case o.Op == "param" && o.T != nil && o.T.String() == "*net/http.Request":
			return f == "URL" || f == "Body" || f == "Header"
		}
	}
	if t.Op == "sel" && t.Args[0].Op == "ia" {
		p := t.Args[0].Args[0]
		return p.Op == "param" && p.T != nil && isFuncSlice(p.T)
	}
	return false
}

// fieldSplit splits the value of a field into its owner and name.
func fieldSplit(t *Term) (owner *Term, name string) {
	switch {
	case t.Op == "fld":
		return stripConv(t.Args[0]), t.S
	case t.Op == "sel" && t.Args[0].Op == "fa":
		return stripConv(t.Args[0].Args[0]), t.Args[0].S
	}
	return nil, ""
}

// resultOf names the function whose result a value is.
func resultOf(t *Term) string {
	if t.Op == "res" {
		return callName(t.Args[0])
	}
	return ""
}

// private tells whether a type is a pointer to an unexported type of the
// module: its values are made by the module only.
func private(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && !n.Obj().Exported() && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func isFuncSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Signature)
	return ok
}

func (e *Engine) pinned(t *Term) bool {
	for _, x := range e.pin {
		if x == t {
			return true
		}
	}
	return false
}

func (e *Engine) atLeast(st *State, t *Term, n int64, v ssa.Value) bool {
	if st.facts.eval(mkLt(t, mkInt(n))) == -1 {
		return true
	}
	if v != nil {
		if l, ok := lower(v, map[*ssa.Phi]bool{}); ok && l >= n {
			return true
		}
	}
	return false
}

// lower bounds an integer by the way it is computed: counters start at a
// constant and only grow.
func lower(v ssa.Value, open map[*ssa.Phi]bool) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return constant.Int64Val(x.Value)
		}
	case *ssa.Phi:
		if open[x] {
			return math.MaxInt32, true
		}
		open[x] = true
		defer delete(open, x)
		m := int64(math.MaxInt32)
		for _, ed := range x.Edges {
			l, ok := lower(ed, open)
			if !ok {
				return 0, false
			}
			if l < m {
				m = l
			}
		}
		return m, true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			a, ok := lower(x.X, open)
			b, ok2 := lower(x.Y, open)
			// an open counter may only grow
			if ok && ok2 && !(a == math.MaxInt32 && b < 0) && !(b == math.MaxInt32 && a < 0) {
				return a + b, true
			}
		case token.MUL, token.QUO, token.SHR:
			a, ok := lower(x.X, open)
			b, ok2 := lower(x.Y, open)
			if ok && ok2 && a >= 0 && b >= 0 {
				return 0, true
			}
		case token.REM, token.AND:
			if a, ok := lower(x.X, open); ok && a >= 0 {
				return 0, true
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if b.Info()&types.IsUnsigned != 0 && sizeOf(b) < sizeOf(x.Type().Underlying().(*types.Basic)) {
				return 0, true
			}
			if b.Info()&types.IsUnsigned == 0 {
				return lower(x.X, open)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy") {
			return 0, true
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			return 0, true
		}
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return 0, true
	}
	return 0, false
}

func sizeOf(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

var indexFns = map[string]bool{}

func init() {
	for _, p := range []string{"strings.", "bytes."} {
		for _, n := range []string{"Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "LastIndexAny"} {
			indexFns[p+n] = true
		}
	}
}

// below tells whether i < n, or i <= n.
func (e *Engine) below(st *State, i, n, b *Term, strict bool) bool {
	if strict && st.facts.eval(mkLt(i, n)) == 1 || !strict && (i == n || st.facts.eval(mkLt(n, i)) == -1) {
		return true
	}
	// the position a search found: at most the length, and less with a
	// separator that is not empty
	base, off := i, int64(0)
	if i.Op == "add" || i.Op == "plus" || i.Op == "+" {
		for k, a := range i.Args {
			if v, ok := a.int(); ok && len(i.Args) == 2 {
				base, off = i.Args[1-k], v
			}
		}
	}
	if indexFns[callName(base)] && len(base.Args) > 1 && (base.Args[0] == b || e.lenOf(st, base.Args[0]) == n) {
		w := int64(1)
		if s, ok := base.Args[1].str(); ok {
			w = int64(len(s))
		}
		if off < w || !strict && off == w {
			return true
		}
	}
	// the pieces of a split text
	if min := e.minLen(st, b); min > 0 {
		if v, ok := i.int(); ok {
			return v < min || !strict && v == min
		}
	}
	return false
}

// minLen bounds the length of a list of pieces.
func (e *Engine) minLen(st *State, b *Term) int64 {
	switch callName(b) {
	case "strings.Split":
		return 1 + minCount(st, b.Args[0], b.Args[1])
	case "strings.SplitN":
		if k, ok := b.Args[2].int(); ok && k > 0 {
			return min(k, 1+minCount(st, b.Args[0], b.Args[1]))
		}
	}
	// a token in the compact serialization has exactly one header
	if o, f := fieldSplit(b); f == "Headers" && strings.HasPrefix(resultOf(o), "github.com/go-jose/go-jose/v4/jwt.ParseSigned") && e.contractNonNil(st, o) {
		return 1
	}
	return 0
}

// minCount bounds the occurrences of a separator in a text from below.
func minCount(st *State, t, sep *Term) int64 {
	s, ok := sep.str()
	if !ok || s == "" {
		return 0
	}
	t = stripConv(st.facts.find(t))
	if v, ok := t.str(); ok {
		return int64(strings.Count(v, s))
	}
	var n int64
	if l := concatArgs(t); len(l) > 1 {
		for _, a := range l {
			n += minCount(st, a, sep)
		}
	}
	if len(s) == 1 {
		for cand, pol := range st.facts.m {
			if pol && matchFns[callName(cand)] && stripConv(cand.Args[1]) == t {
				if pat, ok := pattern(cand.Args[0]); ok {
					if re, err := syntax.Parse(pat, syntax.Perl); err == nil {
						n = max(n, minRune(re.Simplify(), rune(s[0])))
					}
				}
			}
		}
	}
	return n
}

// minRune is the least number of times a rune occurs in a word of a pattern.
func minRune(re *syntax.Regexp, r rune) int64 {
	switch re.Op {
	case syntax.OpLiteral:
		var n int64
		for _, x := range re.Rune {
			if x == r && re.Flags&syntax.FoldCase == 0 {
				n++
			}
		}
		return n
	case syntax.OpCharClass:
		if len(re.Rune) == 2 && re.Rune[0] == r && re.Rune[1] == r {
			return 1
		}
	case syntax.OpCapture, syntax.OpPlus:
		return minRune(re.Sub[0], r)
	case syntax.OpRepeat:
		return int64(re.Min) * minRune(re.Sub[0], r)
	case syntax.OpConcat:
		var n int64
		for _, x := range re.Sub {
			n += minRune(x, r)
		}
		return n
	case syntax.OpAlternate:
		m := minRune(re.Sub[0], r)
		for _, x := range re.Sub[1:] {
			m = min(m, minRune(x, r))
		}
		return m
	}
	return 0
}

func (e *Engine) inRange(st *State, i, n, b *Term, v ssa.Value) bool {
	return e.below(st, i, n, b, true) && e.atLeast(st, i, 0, v)
}

// containerGet are the operations returning (value, ok).
var containerGet = map[string]bool{}

func init() {
	for n, k := range containerOps {
		if k == "get" || k == "take" || k == "add" {
			containerGet[n] = true
		}
	}
	register("C60", "no input makes an exported operation panic", "Every exported operation, and every function it reaches, is analysed for any argument; each nil dereference, call of a nil function, index, slice, type assertion, division and panic on a reachable path must be proven safe.", func(c *Ctx) {
		type key struct{ kind, pos, fn string }
		checked := map[key]bool{}
		bad := map[key]string{}
		var order []key
		stored := map[string][]string{}
		type want struct {
			k    key
			site string
			typ  string
		}
		var wants []want
		hook := func(name, scope string) func(e *Engine) {
			return func(e *Engine) {
				e.OnHazard = func(st *State, kind string, t *Term, safe bool, fr *frame, ins ssa.Instruction) {
					if f := c.p.fset.Position(fr.fn.Pos()).Filename; strings.HasSuffix(f, ".pb.go") {
						return
					}
					k := key{kind, c.p.pos(ins.Pos()), fnName(fr.fn)}
					if !checked[k] {
						checked[k] = true
						order = append(order, k)
					}
					if safe || st.facts.eval(mkEq(t, tNil)) == -1 && strings.HasPrefix(kind, "nil") || strings.HasPrefix(kind, "nil") && e.contractNonNil(st, t) {
						return
					}
					switch kind {
					case "nil", "nil map", "nil receiver":
						// reported once
						defer st.facts.assume(mkEq(t, tNil), false)
						if memArg(fr, t) {
							return
						}
					case "assert":
						if cn := t; cn.Op == "res" && containerGet[callName(cn.Args[0])] {
							wants = append(wants, want{k, containerSite(scope, cn.Args[0].Args[0]), ins.(*ssa.TypeAssert).AssertedType.String()})
							return
						}
					case "panic":
						if entropyFailure(st, t) {
							return
						}
					}
					if bad[k] == "" {
						bad[k] = name + ": " + hazardText(kind, t)
					}
				}
				e.OnEvent = func(st *State, ev *Event) {
					if strings.HasPrefix(ev.Name, "("+modPath+"/server/storage.") {
						for i, v := range ev.ins.Common().Args {
							if a := ev.Args[i+1]; isEntity(v.Type()) {
								k := key{"entity", ev.Pos, ev.Fn}
								if !checked[k] {
									checked[k] = true
									order = append(order, k)
								}
								if !e.knownNonNil(st, a) && !e.contractNonNil(st, a) && bad[k] == "" {
									bad[k] = fmt.Sprintf("%s: the entity given to %s may be absent (%s)", name, short(ev.Name), hazardText("", a))
								}
							}
						}
					}
					switch containerOps[ev.Name] {
					case "set", "add", "cas":
						for _, a := range ev.Args[2:] {
							if a.Op == "iface" && a.T != nil {
								stored[containerSite(scope, ev.Args[0])] = append(stored[containerSite(scope, ev.Args[0])], a.T.String())
							} else if callName(ev.Term) != "" && !isIntType(a.T) {
								stored[containerSite(scope, ev.Args[0])] = append(stored[containerSite(scope, ev.Args[0])], "?")
							}
							if containerOps[ev.Name] != "cas" {
								break
							}
						}
					}
				}
			}
		}
		run := func(name string, f func()) {
			defer func() {
				if x := recover(); x != nil {
					b, ok := x.(analysisError)
					if !ok {
						panic(x)
					}
					c.need(false, "analysed", name, "-", "%v", b)
				}
			}()
			f()
			c.need(true, "analysed", name, "-", "")
		}
		for _, x := range entries(c) {
			name := x.pkg + "." + x.ctor
			h := hook(name, name)
			if x.method == "()" {
				run(name+"()", func() { c.closureWith(x.pkg, x.ctor, h) })
				continue
			}
			if x.method != "" {
				h = hook(name+"->"+x.method, name)
			}
			run(name+"->"+x.method, func() {
				r := c.rootWith(x.pkg, x.ctor, x.method, nil, nil, h)
				c.followResults(r)
			})
		}
		// what no constructor leads to
		for _, f := range c.p.funcs {
			if c.funcs[fnName(f)] || f.Synthetic != "" || !c.handWritten(f) || c.unreachable(f) {
				continue
			}
			name := fnName(f)
			run(name, func() {
				rootCount++
				paramScope = fmt.Sprintf("%s#%d", name, rootCount)
				e := newEngine(c.p)
				hook(name, name)(e)
				args := paramTerms(f, 0, "a")
				if f.Signature.Recv() != nil {
					args[0] = mkT(args[0].T, "param", "recv\x00"+paramScope)
				}
				var bind []*Term
				for i, v := range f.FreeVars {
					b := mkT(v.Type(), "param", fmt.Sprintf("p.free%d\x00%s", i, paramScope))
					bind = append(bind, b)
				}
				e.pin = append(e.pin, bind...)
				if f.Signature.Recv() != nil {
					e.pin = append(e.pin, args[0])
				}
				e.run(f, e.ctx(0, nil, f), args, bind, newState(), nil)
				for n := range e.Funcs {
					c.funcs[n] = true
				}
			})
		}
		for _, w := range wants {
			if bad[w.k] != "" {
				continue
			}
			l := stored[w.site]
			if len(l) == 0 {
				bad[w.k] = "nothing of type " + w.typ + " is stored in the container " + w.site
			}
			for _, t := range l {
				if t != w.typ {
					bad[w.k] = fmt.Sprintf("the container %s holds values of type %s, not %s", w.site, t, w.typ)
				}
			}
		}
		for _, k := range order {
			c.need(bad[k] == "", "safe."+strings.Fields(k.kind)[0], k.fn, k.pos, "%s", bad[k])
		}
		c.floor("analysed", 250, "operations")
		c.floor("safe.nil", 400, "dereferences")
		c.floor("safe.assert", 5, "type assertions")
		c.floor("safe.index", 10, "indices")
		c.floor("safe.slice", 3, "slices")
		c.floor("safe.entity", 5, "entities given to storage")
	})
}

// unreachable tells whether a function that the analysis did not reach is an
// internal one all of whose uses are calls in functions that were analysed:
// none of the calls can be executed.
func (c *Ctx) unreachable(f *ssa.Function) bool {
	if f.Parent() != nil || token.IsExported(f.Name()) {
		return false
	}
	n := 0
	for _, g := range c.p.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					call, ok := ins.(ssa.CallInstruction)
					if !ok || call.Common().Value != ssa.Value(f) || !c.funcs[fnName(g)] {
						return false
					}
					for _, a := range call.Common().Args {
						if a == ssa.Value(f) {
							return false
						}
					}
					n++
				}
			}
		}
	}

	return n > 0
}

// followResults analyses the methods of the objects an operation returns,
// where the module implements them.
func (c *Ctx) followResults(r *Root) {
	for _, o := range r.Outs {
		for _, v := range o.res {
			if v.Op != "iface" || v.T == nil || !private(v.T) {
				continue
			}
			ms := c.p.prog.MethodSets.MethodSet(v.T)
			for i := 0; i < ms.Len(); i++ {
				m := c.p.prog.MethodValue(ms.At(i))
				if m == nil || !ms.At(i).Obj().Exported() || c.funcs[fnName(m)] || m.Synthetic != "" || !c.handWritten(m) {
					continue
				}
				args := append([]*Term{v.Args[0]}, paramTerms(m, 1, "m"+m.Name())...)
				r.E.run(m, r.E.ctx(2, nil, m), args, nil, o.st.clone(), nil)
			}
		}
	}
	for n := range r.E.Funcs {
		c.funcs[n] = true
	}
}

func (c *Ctx) handWritten(f *ssa.Function) bool {
	file := c.p.fset.Position(f.Pos()).Filename
	return file != "" && !strings.HasSuffix(file, ".pb.go") && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") && !strings.Contains(file, "/mock/")
}

// isEntity tells whether a type is a pointer to a message of the model.
func isEntity(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && strings.Contains(p.Elem().String(), modPath+"/api/")
}

// memArg tells whether a value is an entity given to the in-memory storage,
// whose callers provide one (see the rule "entity").
func memArg(fr *frame, t *Term) bool {
	return t.Op == "param" && isEntity(t.T) && fr.fn.Pkg != nil && strings.TrimPrefix(fr.fn.Pkg.Pkg.Path(), modPath+"/") == pkgMem
}

// entropyFailure tells whether a panic reports that the system random source
// failed.
func entropyFailure(st *State, t *Term) bool {
	for c, pol := range st.facts.m {
		if !pol && c.Op == "eq" {
			for _, a := range c.Args {
				if a.Op == "res" && systemRandom[callName(a.Args[0])] {
					return true
				}
			}
		}
	}
	return false
}

var systemRandom = map[string]bool{"crypto/rand.Read": true, "io.ReadFull": true}

var instance = regexp.MustCompile(`[#@][0-9]+`)

// containerSite names a container by the place that creates it.
func containerSite(scope string, t *Term) string {
	return scope + ":" + instance.ReplaceAllString(t.String(), "")
}

// hazardText describes a failing run-time check.
func hazardText(kind string, t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	switch kind {
	case "nil":
		return "nil dereference: " + s + " may be absent"
	case "nil receiver":
		return "method of an absent value: " + s
	case "nil map":
		return "assignment to an entry of a nil map: " + s
	case "index", "slice":
		return kind + " out of range: " + s
	case "assert":
		return "type assertion may fail: " + s
	case "div":
		return "division by zero: " + s
	}
	return kind + ": " + s
}

type entry struct{ pkg, ctor, method string }

// entries lists the exported operations of the library.
func entries(c *Ctx) []entry {
	var l []entry
	for path := range c.p.pkgs {
		pkg := strings.TrimPrefix(path, modPath+"/")
		if strings.HasPrefix(pkg, "api/") || strings.HasSuffix(pkg, "/mock") {
			continue
		}
		sc := c.p.pkgs[path].Pkg.Scope()
		for _, n := range sc.Names() {
			f, ok := sc.Lookup(n).(*types.Func)
			if !ok || !f.Exported() {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			l = append(l, entry{pkg, n, ""})
			if sig.Results().Len() == 0 {
				continue
			}
			rt := sig.Results().At(0).Type()
			if _, isF := rt.Underlying().(*types.Signature); isF {
				l = append(l, entry{pkg, n, "()"})
				continue
			}
			nt, ok := types.Unalias(rt).(*types.Named)
			if p, isP := rt.(*types.Pointer); isP {
				nt, ok = types.Unalias(p.Elem()).(*types.Named)
			}
			if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) || strings.HasPrefix(nt.Obj().Pkg().Path(), modPath+"/api/") {
				continue
			}
			ms := types.NewMethodSet(rt)
			for i := 0; i < ms.Len(); i++ {
				if m := ms.At(i).Obj(); m.Exported() {
					l = append(l, entry{pkg, n, m.Name()})
				}
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}
