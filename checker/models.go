package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) callOperands(fr *frame, st *State, c ssa.CallInstruction) (*Term, []*Term) {
	com := c.Common()
	var args []*Term
	if com.IsInvoke() {
		args = append(args, e.val(fr, st, com.Value))
		for _, a := range com.Args {
			args = append(args, e.val(fr, st, a))
		}
		return mk("method", methodName(args[0], com.Method)), args
	}
	for _, a := range com.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.val(fr, st, com.Value), args
}

// methodName names the method of an interface: by the interface the object is
// known as from where it comes from, not by the one it is called through.
func methodName(recv *Term, m *types.Func) string {
	recv = stripIface(recv)
	if n, ok := types.Unalias(recv.T).(*types.Named); ok && n != nil && types.IsInterface(n) {
		if x, _, _ := types.LookupFieldOrMethod(n, false, m.Pkg(), m.Name()); x != nil {
			if f, ok := x.(*types.Func); ok {
				return f.FullName()
			}
		}
	}
	return m.FullName()
}

func one(st *State, res ...*Term) []*Outcome { return []*Outcome{{st: st, res: res}} }

// boolOutcomes splits on a condition so that later code sees it decided.
func boolOutcomes(st *State, c *Term) []*Outcome { return one(st, c) }

func (e *Engine) invokeTerm(fr *frame, st *State, c ssa.CallInstruction, fnT *Term, args []*Term) []*Outcome {
	com := c.Common()
	if e.quiet == 0 {
		e.Sites[e.p.pos(c.Pos())] = true
	}
	switch fnT.Op {
	case "builtin":
		return e.builtin(fr, st, c, fnT.S, args)
	case "method":
		recv := args[0]
		if r := st.facts.find(recv); r.Op == "iface" || r.Op == "hashobj" || r.Op == "nil" {
			recv = r
		}
		if e.OnHazard != nil && e.quiet == 0 {
			e.OnHazard(st, "nil", recv, e.knownNonNil(st, recv), fr, c)
		}
		if recv.Op == "nil" {
			if e.OnDeref != nil && e.quiet == 0 {
				e.OnDeref(st, recv, fr, c)
			}
			return nil
		}
		if e.OnDeref != nil && e.quiet == 0 {
			e.OnDeref(st, recv, fr, c)
		}
		if recv.Op == "hashobj" {
			if e.OnObject != nil && e.quiet == 0 {
				e.OnObject(st, "(hash.Hash)."+com.Method.Name(), recv, fr, c)
			}
			return e.hashCall(fr, st, c, com.Method.Name(), recv, args[1:])
		}
		if recv.Op == "iface" && recv.T != nil {
			if m := e.p.method(recv.T, com.Method.Name(), com.Method.Pkg()); m != nil {
				na := append([]*Term{recv.Args[0]}, args[1:]...)
				return e.static(fr, st, c, m, na, nil)
			}
		}
		na := append([]*Term{recv}, args[1:]...)
		return e.external(fr, st, c, methodName(recv, com.Method), nil, na)
	case "func", "closure":
		var bind []*Term
		if fnT.Op == "closure" {
			bind = fnT.Args
		}
		return e.static(fr, st, c, fnT.Fn, args, bind)
	case "nil":
		if e.OnHazard != nil && e.quiet == 0 {
			e.OnHazard(st, "nil", fnT, false, fr, c)
		}
		return nil
	}
	if r := st.facts.find(fnT); r != fnT {
		if r.Op == "func" || r.Op == "closure" || r.Op == "nil" {
			return e.invokeTerm(fr, st, c, r, args)
		}
	}
	// a function value of unknown origin
	if e.OnHazard != nil && e.quiet == 0 {
		e.OnHazard(st, "nil", fnT, e.knownNonNil(st, fnT), fr, c)
	}
	if e.OnDeref != nil && e.quiet == 0 {
		e.OnDeref(st, fnT, fr, c)
	}
	tn := com.Value.Type().String()
	if n, ok := types.Unalias(fnT.T).(*types.Named); ok && n != nil {
		if _, isF := n.Underlying().(*types.Signature); isF {
			tn = n.String()
		}
	}
	na := append([]*Term{fnT}, args...)
	res := e.emit(fr, st, c, "dyn:"+tn, na, com.Signature())
	call := st.trace.Args[0]
	for i, a := range args {
		if a.Op == "iface" {
			a = a.Args[0]
		}
		// an unknown function may set what it is given
		if a.Op == "alloc" && !isProto(a.T) {
			e.setContent(st, a, mkT(a.T, "out", strconv.Itoa(i), call))
		}
	}
	return one(st, res...)
}

func (e *Engine) goCall(fr *frame, st *State, c ssa.CallInstruction, fnT *Term, args []*Term) {
	na := append([]*Term{fnT}, args...)
	e.emit(fr, st, c, "go", na, nil)
}

// emit records a call as an event and returns its symbolic results.
func (e *Engine) emit(fr *frame, st *State, c ssa.CallInstruction, name string, args []*Term, sig *types.Signature) []*Term {
	base := fmt.Sprintf("%s@%d.%d", name, fr.ctx, instrID(c))
	n := 0
	for t := st.trace; len(t.Args) == 2; t = t.Args[1] {
		x := t.Args[0]
		if x.S == base || strings.HasPrefix(x.S, base+"#") {
			n++
		}
	}
	id := base
	if n > 0 {
		id = base + "#" + strconv.Itoa(n)
	}
	var na []*Term
	for _, a := range args {
		na = append(na, e.argNorm(st, a))
	}
	call := mkL(fr.loops, nil, "call", id, na...)
	if e.quiet == 0 {
		callPos[call] = c
		callFn[call] = fr.fn
	}
	st.event(call)
	if e.OnEvent != nil && e.quiet == 0 {
		e.OnEvent(st, &Event{Name: name, Term: call, Args: args, Pos: e.p.pos(c.Pos()), Fn: fnName(fr.fn), ins: c, fr: fr})
	}
	if sig == nil {
		return nil
	}
	return results(call, sig)
}

var callPos = map[*Term]ssa.CallInstruction{}
var callFn = map[*Term]*ssa.Function{}
var instrIDs = map[ssa.Instruction]int{}

func instrID(i ssa.Instruction) int {
	if n, ok := instrIDs[i]; ok {
		return n
	}
	instrIDs[i] = len(instrIDs) + 1
	return len(instrIDs)
}

func results(call *Term, sig *types.Signature) []*Term {
	var r []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, mkT(sig.Results().At(i).Type(), "res", strconv.Itoa(i), call))
	}
	return r
}

// callName extracts the callee from a call term.
func callName(t *Term) string {
	if i := strings.LastIndexByte(t.S, '@'); i >= 0 {
		return t.S[:i]
	}
	return t.S
}

// argNorm replaces slices of known content by their content.
func (e *Engine) argNorm(st *State, a *Term) *Term {
	switch a.Op {
	case "slc", "mkslice", "pslice":
		return e.contentOf(st, a)
	case "iface":
		if x := a.Args[0]; x.Op == "slc" || x.Op == "mkslice" || x.Op == "pslice" {
			return mkT(a.T, "iface", a.S, e.contentOf(st, x))
		}
	}
	return a
}

func (e *Engine) normAll(st *State, as []*Term) []*Term {
	r := make([]*Term, len(as))
	for i, a := range as {
		r[i] = e.argNorm(st, a)
	}
	return r
}

// static analyses a call to a known function.
func (e *Engine) static(fr *frame, st *State, c ssa.CallInstruction, fn *ssa.Function, args, bind []*Term) []*Outcome {
	name := fnName(fn)
	if e.Summary[name] {
		if outs, ok := e.summary(fr, st, c, name, args); ok {
			if e.quiet == 0 {
				e.UsedSum[name] = true
			}
			return outs
		}
	}
	if fn.Blocks != nil && (e.p.inModule(fn) || fn.Pkg == nil && strings.HasPrefix(fn.Synthetic, "bound method wrapper")) {
		if strings.HasPrefix(pkgPathOf(fn), modPath+"/api/") && fn.Synthetic == "" {
			if !strings.HasPrefix(fn.Name(), "Get") {
				return e.apiCall(fr, st, c, fn, name, args)
			}
		}
		if e.NoInline[name] {
			return one(st, e.emit(fr, st, c, name, args, fn.Signature)...)
		}
		if fn.Name() == "init" && fn.Synthetic != "" && fr.fn.Name() == "init" {
			return one(st)
		}
		for _, f := range e.frames {
			if f.fn == fn && !isClosureOf(fn) {
				// recursion: opaque
				st.gep++
				return one(st, e.emit(fr, st, c, name, args, fn.Signature)...)
			}
		}
		if len(e.frames) > 24 {
			bail("call depth exceeded at %s", name)
		}
		return e.run(fn, e.ctx(fr.ctx, c, fn), args, bind, st, fr)
	}
	return e.external(fr, st, c, name, fn, args)
}

func isClosureOf(fn *ssa.Function) bool { return false }

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	return ""
}

// apiCall models the generated message code.
func (e *Engine) apiCall(fr *frame, st *State, c ssa.CallInstruction, fn *ssa.Function, name string, args []*Term) []*Outcome {
	switch fn.Name() {
	case "CloneVT", "CloneMessageVT":
		t := mkL(fr.loops, deref(fn.Signature.Results().At(0).Type()), "clone", fmt.Sprintf("%d.%d", fr.ctx, instrID(c)), args[0])
		return one(st, t)
	case "String", "Number", "EqualVT", "SizeVT":
		return one(st, e.pure(st, name, args, fn.Signature)...)
	case "Enum", "ProtoReflect", "Descriptor", "Type":
		return e.run(fn, e.ctx(fr.ctx, c, fn), args, nil, st, fr)
	}
	return one(st, e.emit(fr, st, c, name, args, fn.Signature)...)
}

// ---- contracts of module functions (their bodies are verified by C56) ------

func (e *Engine) summary(fr *frame, st *State, c ssa.CallInstruction, name string, args []*Term) ([]*Outcome, bool) {
	base := name[strings.LastIndexByte(name, '.')+1:]
	recv := args[0]
	if strings.HasPrefix(name, "(*") && base != "Remove" {
		t := args[0].T
		recv = e.load(st, args[0], t)
	}
	switch base {
	case "IsNil":
		v := st.facts.find(recv)
		switch v.Op {
		case "nil":
			return one(st, tTrue), true
		case "iface":
			if v.T != nil {
				switch v.T.Underlying().(type) {
				case *types.Pointer:
					return one(st, mkEq(tNil, v.Args[0])), true
				}
				return one(st, tFalse), true
			}
		}
		if neverNil(v) {
			return one(st, tFalse), true
		}
		return one(st, mkT(types.Typ[types.Bool], "pure", "isnil", v)), true
	case "Contains":
		return e.containsOutcomes(st, e.contentOf(st, recv), args[1], true), true
	case "HasOneOf", "HasAll":
		items := e.contentOf(st, args[1])
		if items.Op == "nil" {
			items = mkT(args[1].T, "arr", "")
		}
		if items.Op != "arr" {
			return one(st, mkT(types.Typ[types.Bool], "pure", "set."+base, e.contentOf(st, recv), items)), true
		}
		if len(items.Args) == 0 {
			return one(st, tFalse), true
		}
		var outs []*Outcome
		cur := []*State{st}
		for _, it := range items.Args {
			var nx []*State
			for _, s := range cur {
				for _, o := range e.containsOutcomes(s, e.contentOf(s, recv), it, true) {
					cond := o.res[0]
					hit, miss := o.st.clone(), o.st
					okHit := hit.facts.assume(cond, true)
					okMiss := miss.facts.assume(cond, false)
					if base == "HasAll" {
						hit, miss, okHit, okMiss = miss, hit, okMiss, okHit
					}
					if okHit {
						outs = append(outs, &Outcome{st: hit, res: []*Term{mkBool(base == "HasOneOf")}})
					}
					if okMiss {
						nx = append(nx, miss)
					}
				}
			}
			cur = nx
		}
		for _, s := range cur {
			outs = append(outs, &Outcome{st: s, res: []*Term{mkBool(base == "HasAll")}})
		}
		return outs, true
	case "Remove":
		ptr := args[0]
		if e.isNilTerm(st, ptr) {
			return nil, true
		}
		var t types.Type
		if ptr.T != nil {
			t = ptr.T
		}
		if ptr.Op != "alloc" {
			t = nil
		}
		old := e.load(st, ptr, t)
		content := e.contentOf(st, old)
		nv := removeFold(content, args[1])
		e.store(st, ptr, nv, nil)
		return one(st), true
	}
	return nil, false
}

func removeFold(l, x *Term) *Term {
	if l.Op == "nil" {
		return l
	}
	if l.Op == "arr" {
		xs, ok := x.str()
		if ok {
			var keep []*Term
			for _, a := range l.Args {
				s, ok2 := a.str()
				if !ok2 {
					keep = nil
					ok = false
					break
				}
				if !strings.EqualFold(s, xs) {
					keep = append(keep, a)
				}
			}
			if ok {
				return mkT(l.T, "arr", "", keep...)
			}
		}
	}
	return mkT(l.T, "pure", "removeFold", l, x)
}

// containsOutcomes decides membership; fold selects case-insensitivity.
func (e *Engine) containsOutcomes(st *State, l, x *Term, fold bool) []*Outcome {
	l = st.facts.find(l)
	switch l.Op {
	case "nil":
		return one(st, tFalse)
	case "zero":
		return one(st, tFalse)
	case "arr":
		if len(l.Args) > 24 {
			break
		}
		var outs []*Outcome
		cur := st
		for _, a := range l.Args {
			c := e.eqCond(cur, a, x, fold)
			hit := cur.clone()
			if hit.facts.assume(c, true) {
				outs = append(outs, &Outcome{st: hit, res: []*Term{tTrue}})
			}
			if !cur.facts.assume(c, false) {
				return outs
			}
		}
		return append(outs, &Outcome{st: cur, res: []*Term{tFalse}})
	case "pure":
		if l.S == "removeFold" || l.S == "removeEq" {
			if xs, ok := x.str(); ok {
				if rs, ok := l.Args[1].str(); ok {
					switch {
					case l.S == "removeFold" && strings.EqualFold(xs, rs), xs == rs && !fold:
						return one(st, tFalse)
					case l.S == "removeFold" || !strings.EqualFold(xs, rs):
						return e.containsOutcomes(st, l.Args[0], x, fold)
					}
				}
			}
		}
	}
	return one(st, containsTerm(l, x, fold))
}

func containsTerm(l, x *Term, fold bool) *Term {
	if fold {
		return mkT(types.Typ[types.Bool], "pure", "containsFold", l, x)
	}
	return mkT(types.Typ[types.Bool], "pure", "contains", l, x)
}

func (e *Engine) eqCond(st *State, a, b *Term, fold bool) *Term {
	if !fold {
		return e.eqVal(st, a, b)
	}
	return foldEq(a, b)
}

func foldEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	x, ok1 := a.str()
	y, ok2 := b.str()
	if ok1 && ok2 {
		return mkBool(strings.EqualFold(x, y))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkT(types.Typ[types.Bool], "pure", "strings.EqualFold", a, b)
}

// ---- builtins -------------------------------------------------------------

func (e *Engine) builtin(fr *frame, st *State, c ssa.CallInstruction, name string, args []*Term) []*Outcome {
	var t types.Type
	if v := c.Value(); v != nil {
		t = v.Type()
	}
	switch name {
	case "len":
		v := args[0]
		if r := st.facts.find(v); r.isConst() {
			v = r
		}
		if v.Op == "slc" || v.Op == "mkslice" || v.Op == "alloc" {
			return one(st, e.lenOf(st, v))
		}
		return one(st, e.lenOf(st, v))
	case "cap":
		return one(st, mkT(t, "pure", "cap", args[0]))
	case "append":
		if e.OnObject != nil && e.quiet == 0 {
			e.OnObject(st, "append", args[0], fr, c)
		}
		return one(st, e.appendTerm(st, args, t))
	case "copy":
		if e.OnObject != nil && e.quiet == 0 {
			e.OnObject(st, "copy", args[0], fr, c)
		}
		src := e.argNorm(st, args[1])
		dst := args[0]
		e.overwrite(st, dst, src, "copy")
		return one(st, mkT(t, "pure", "copylen", dst, src))
	case "delete":
		m, k := args[0], args[1]
		ent := mk("mapent", "", m, k)
		if m.Op == "mkmap" {
			delete(st.mem, ent)
			if !k.isConst() {
				st.mem[m] = mk("mapmix", "", m, k, tNil)
			}
		} else {
			for a := range st.mem {
				if a.Op == "mapent" && a.Args[0].Op != "mkmap" && !distinctKeys(a.Args[1], k) {
					delete(st.mem, a)
				}
			}
			st.ep["map"]++
		}
		if x, ok := c.(ssa.Instruction); ok {
			e.mapAccess(fr, st, "write", m, x)
		}
		e.mapChange(st, m)
		e.emit(fr, st, c, "builtin.delete", args, nil)
		return one(st)
	case "panic":
		return nil
	case "clear":
		m := args[0]
		if x, ok := c.(ssa.Instruction); ok {
			e.mapAccess(fr, st, "write", m, x)
		}
		for a := range st.mem {
			if a.Op == "mapent" && (a.Args[0] == m || m.Op != "mkmap" && a.Args[0].Op != "mkmap") {
				delete(st.mem, a)
			}
		}
		if m.Op == "mkmap" {
			delete(st.mem, m)
		} else {
			st.ep["map"]++
		}
		e.mapChange(st, m)
		return one(st)
	case "print", "println", "close":
		return one(st)
	case "recover":
		return one(st, tNil)
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0], args[1]
			lt := mkLt(a, b)
			s1, s2 := st.clone(), st
			var outs []*Outcome
			x, y := a, b
			if name == "max" {
				x, y = b, a
			}
			if s1.facts.assume(lt, true) {
				outs = append(outs, &Outcome{st: s1, res: []*Term{x}})
			}
			if s2.facts.assume(lt, false) {
				outs = append(outs, &Outcome{st: s2, res: []*Term{y}})
			}
			return outs
		}
	case "ssa:wrapnilchk":
		if e.isNilTerm(st, args[0]) {
			return nil
		}
		return one(st, args[0])
	}
	return one(st, mkT(t, "pure", "builtin."+name, e.normAll(st, args)...))
}

func (e *Engine) appendTerm(st *State, args []*Term, t types.Type) *Term {
	a := e.contentOf(st, args[0])
	if len(args) == 1 {
		return a
	}
	b := e.contentOf(st, args[1])
	if t != nil && isBytes(t) {
		return mkConcat(t, a, b)
	}
	isEmpty := func(x *Term) bool {
		if x.Op == "nil" || (x.Op == "arr" && len(x.Args) == 0) {
			return true
		}
		if x.Op == "mkslice" || x.Op == "zeros" {
			i, ok := x.Args[0].int()
			return ok && i == 0
		}
		if x.Op == "zero" {
			if ar, ok := x.T.Underlying().(*types.Array); ok && ar.Len() == 0 {
				return true
			}
		}
		if x.Op == "pslice" && x.Args[2].Op != "nil" {
			lo, ok1 := x.Args[1].int()
			hi, ok2 := x.Args[2].int()
			return ok1 && ok2 && lo == hi
		}
		return false
	}
	if isEmpty(b) {
		return a
	}
	if isEmpty(a) {
		if b.Op == "zero" {
			return mkT(t, "append", "", mkT(t, "arr", ""), b)
		}
		return mkRetyped(b, t)
	}
	if b.Op == "zero" {
		return mkT(t, "append", "", a, b)
	}
	if a.Op == "arr" && b.Op == "arr" {
		return mkT(t, "arr", "", append(append([]*Term(nil), a.Args...), b.Args...)...)
	}
	if a.Op == "append" && b.Op == "arr" && a.Args[1].Op == "arr" {
		return mkT(t, "append", "", a.Args[0], mkT(t, "arr", "", append(append([]*Term(nil), a.Args[1].Args...), b.Args...)...))
	}
	return mkT(t, "append", "", a, b)
}

func mkRetyped(b *Term, t types.Type) *Term {
	if b.T == nil {
		b.T = t
	}
	return b
}

// overwrite makes the elements of a slice unknown but derived from src.
func (e *Engine) overwrite(st *State, dst, src *Term, how string) {
	switch dst.Op {
	case "slc":
		a := dst.Args[0]
		e.kill(st, a)
		l := e.lenOf(st, dst)
		sl := e.lenOf(st, src)
		if how == "copy" && l != sl {
			src = mkT(a.T, "out", how, src, l)
		}
		st.mem[a] = src
		return
	case "mkslice":
		l, sl := e.lenOf(st, dst), e.lenOf(st, src)
		if how == "copy" && l != sl {
			src = mkT(dst.T, "out", how, src, l)
		}
		e.setContent(st, dst, src)
		return
	case "pslice":
		b := dst.Args[0]
		old := e.contentOf(st, b)
		var obj *Term
		if b.Op == "slc" {
			obj = b.Args[0]
		} else if b.Op == "mkslice" {
			obj = b
		}
		if obj != nil {
			nc := mkT(obj.T, "splice", how, old, dst.Args[1], dst.Args[2], src)
			e.setContent(st, obj, nc)
			return
		}
	}
	st.ep["[]"]++
	for a := range st.mem {
		if a.Op == "ia" && !isFresh(a) {
			delete(st.mem, a)
		}
	}
}

// ---- hashes ---------------------------------------------------------------

func (e *Engine) newHash(fr *frame, st *State, c ssa.CallInstruction, kind string, key *Term) *Term {
	var as []*Term
	if key != nil {
		as = []*Term{key}
	}
	h := mkL(fr.loops, nil, "hashobj", fmt.Sprintf("%s/%d.%d", kind, fr.ctx, instrID(c)), as...)
	st.mem[h] = mkStr("")
	return h
}

func hashKind(h *Term) string { return h.S[:strings.LastIndexByte(h.S, '/')] }

func mkHsum(kind string, key, data *Term) *Term {
	if key != nil {
		return mkT(nil, "hsum", kind, data, key)
	}
	return mkT(nil, "hsum", kind, data)
}

func (e *Engine) hashCall(fr *frame, st *State, c ssa.CallInstruction, m string, h *Term, args []*Term) []*Outcome {
	cur := st.mem[h]
	if cur == nil {
		cur = mk("lost", "", h)
	}
	switch m {
	case "Write":
		d := e.argNorm(st, args[0])
		st.mem[h] = mkConcat(nil, cur, d)
		return one(st, e.lenOf(st, d), tNil)
	case "WriteString":
		st.mem[h] = mkConcat(nil, cur, args[0])
		return one(st, e.lenOf(st, args[0]), tNil)
	case "Sum":
		var key *Term
		if len(h.Args) > 0 {
			key = h.Args[0]
		}
		s := mkHsum(hashKind(h), key, cur)
		s.T = types.NewSlice(types.Typ[types.Byte])
		p := e.argNorm(st, args[0])
		if p.Op == "nil" || (p.Op == "arr" && len(p.Args) == 0) {
			return one(st, s)
		}
		return one(st, mkConcat(s.T, p, s))
	case "Reset":
		st.mem[h] = mkStr("")
		return one(st)
	case "Size":
		return one(st, mkInt(32))
	case "BlockSize":
		return one(st, mkInt(64))
	}
	bail("hash method %s", m)
	return nil
}

// ---- external functions ---------------------------------------------------

func (e *Engine) pure(st *State, name string, args []*Term, sig *types.Signature) []*Term {
	na := e.normAll(st, args)
	// flatten variadic arguments
	if sig != nil && sig.Variadic() && len(na) > 0 {
		last := na[len(na)-1]
		if last.Op == "nil" {
			na = na[:len(na)-1]
		} else if last.Op == "arr" {
			na = append(append([]*Term(nil), na[:len(na)-1]...), last.Args...)
		}
	}
	if sig != nil && sig.Results().Len() == 1 {
		return []*Term{mkT(sig.Results().At(0).Type(), "pure", name, na...)}
	}
	call := mk("pure", name, na...)
	return results(call, sig)
}

var purePkgs = []string{
	"strings.", "strconv.", "unicode/utf8.", "unicode.", "encoding/hex.", "net/url.", "errors.", "math.", "bytes.", "slices.", "maps.", "path.", "crypto/subtle.", "reflect.", "cmp.", "context.", "math/bits.",
	"(*encoding/base64.Encoding).", "(encoding/base64.Encoding).", "encoding/base64.", "(*regexp.Regexp).", "regexp.", "(reflect.Value).", "(net/url.Values).Get", "(net/url.Values).Has", "(net/http.Header).Get", "(net/http.Header).Values", "(*encoding/base32.Encoding).", "encoding/base32.", "mime.",
	"github.com/go-jose/go-jose/v4.ParseSigned", "github.com/go-jose/go-jose/v4/jwt.ParseSigned", "(github.com/go-jose/go-jose/v4.JSONWebSignature).Verify", "(*github.com/go-jose/go-jose/v4.JSONWebSignature).Verify", "(github.com/go-jose/go-jose/v4.JSONWebKey).", "(*github.com/go-jose/go-jose/v4.JSONWebKey).",
	"(*github.com/go-jose/go-jose/v4.SignerOptions).", "github.com/go-jose/go-jose/v4/jwt.Signed",
	"(github.com/go-jose/go-jose/v4.JSONWebSignature).UnsafePayloadWithoutVerification",
	"(github.com/go-jose/go-jose/v4.JSONWebKeySet).Key", "(*github.com/go-jose/go-jose/v4.JSONWebKeySet).Key",
	"encoding/json.Marshal", "encoding/json.Valid", "(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal", "google.golang.org/protobuf/encoding/protojson.Marshal", "google.golang.org/protobuf/proto.Equal",
	"github.com/go-ozzo/ozzo-validation/v4.", "golang.org/x/crypto/hkdf.New", "golang.org/x/oauth2.", "github.com/fxamacker/cbor/v2.Marshal",
	"(context.Context).", "(error).Error", "crypto/hmac.Equal", "(time.Duration).", "(time.Time).", "time.Duration", "(fmt.Stringer).String",
	"(net/url.URL).", "(*net/url.URL).", "(hash.Hash).Size", "io.LimitReader", "io.TeeReader", "io.MultiReader", "io.NopCloser", "net/http.CanonicalHeaderKey", "net/http.StatusText", "fmt.Sprint", "fmt.Errorf", "(*net/url.Error).", "(*math/big.Int).BitLen", "net/http.NewRequestWithContext",
}

var impure = map[string]bool{
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "slices.SortStableFunc": true, "errors.As": true,
	"strings.NewReader": false,
}

func isPure(name string) bool {
	if v, ok := impure[name]; ok {
		return !v
	}
	if strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)") {
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// objOf finds the memory object a pointer argument designates.
func objOf(a *Term) *Term {
	if a.Op == "iface" {
		return objOf(a.Args[0])
	}
	switch a.Op {
	case "alloc", "fa", "ia", "clone":
		return a
	}
	return nil
}

// out stores the result of an out-parameter.
func (e *Engine) out(st *State, ptr *Term, content *Term) {
	o := objOf(ptr)
	if o == nil {
		if ptr.Op == "iface" {
			ptr = ptr.Args[0]
		}
		if ptr.Op == "nil" {
			return
		}
		if ptr.Op == "mkmap" || ptr.Op == "mkslice" {
			e.setContent(st, ptr, content)
			return
		}
		o = ptr
	}
	if o.Op == "alloc" {
		content.T = o.T
	}
	e.store(st, o, content, nil)
}

func timeUnix(t *Term) *Term {
	i64 := types.Typ[types.Int64]
	switch t.Op {
	case "tunix":
		return t.Args[0]
	case "tadd":
		return mkAddSecs(timeUnix(t.Args[0]), t.Args[1])
	case "tsec":
		return addTerms(timeUnix(t.Args[0]), t.Args[1])
	}
	return mkT(i64, "unix", "", t)
}

func addTerms(a, b *Term) *Term {
	if i, ok := b.int(); ok {
		return mkPlus(a, i)
	}
	if i, ok := a.int(); ok {
		return mkPlus(b, i)
	}
	x, k1 := splitPlus(a)
	y, k2 := splitPlus(b)
	if x.id > y.id {
		x, y = y, x
	}
	return mkPlus(mkT(types.Typ[types.Int64], "bin", "+", x, y), k1+k2)
}

func mkAddSecs(u, d *Term) *Term {
	if n, ok := d.int(); ok {
		if n%1e9 == 0 {
			return mkPlus(u, n/1e9)
		}
		return addTerms(u, mkT(types.Typ[types.Int64], "secs", "", d))
	}
	if d.Op == "bin" && d.S == "*" {
		if n, ok := d.Args[1].int(); ok && n == 1e9 {
			return addTerms(u, d.Args[0])
		}
		if n, ok := d.Args[0].int(); ok && n == 1e9 {
			return addTerms(u, d.Args[1])
		}
	}
	return addTerms(u, mkT(types.Typ[types.Int64], "secs", "", d))
}

func (e *Engine) external(fr *frame, st *State, c ssa.CallInstruction, name string, fn *ssa.Function, args []*Term) []*Outcome {
	if e.OnObject != nil && e.quiet == 0 && len(args) > 0 && strings.HasPrefix(name, "(") {
		e.OnObject(st, name, args[0], fr, c)
	}
	sig := c.Common().Signature()
	var rt types.Type
	if sig.Results().Len() > 0 {
		rt = sig.Results().At(0).Type()
	}
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return st.facts.find(e.argNorm(st, args[i])).str()
	}
	if e.OnHazard != nil && e.quiet == 0 && fn != nil && fn.Signature.Recv() != nil && len(args) > 0 {
		if _, isP := fn.Signature.Recv().Type().Underlying().(*types.Pointer); isP {
			e.OnHazard(st, "nil receiver", args[0], e.knownNonNil(st, args[0]), fr, c)
		}
	}
	switch name {
	case "bytes.Equal", "bytes.Compare", "strings.Compare", "strings.EqualFold", "bytes.EqualFold", "slices.Equal", "reflect.DeepEqual", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare":
		if e.OnCmp != nil && e.quiet == 0 {
			e.OnCmp(st, name, e.argNorm(st, stripIface(args[0])), e.argNorm(st, stripIface(args[1])), fr, c)
		}
	}
	switch name {
	// ---- signer options
	case "(*github.com/go-jose/go-jose/v4.SignerOptions).WithHeader":
		if o := e.signerHeader(fr, st, c, args[0], args[1], args[2]); o != nil {
			return o
		}
	case "(*github.com/go-jose/go-jose/v4.SignerOptions).WithType":
		if o := e.signerHeader(fr, st, c, args[0], mkStr("typ"), args[1]); o != nil {
			return o
		}
	// ---- comparison
	case "errors.Is":
		return one(st, e.errIs(st, args[0], args[1]))
	case "errors.Unwrap":
		return one(st, e.pure(st, name, args, sig)...)
	case "bytes.Equal", "crypto/hmac.Equal":
		return one(st, e.eqVal(st, e.argNorm(st, args[0]), e.argNorm(st, args[1])))
	case "crypto/subtle.ConstantTimeCompare":
		a, b := e.argNorm(st, args[0]), e.argNorm(st, args[1])
		if a == b {
			return one(st, mkInt(1))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return one(st, mkT(rt, "pure", name, a, b))
	case "strings.EqualFold":
		return one(st, foldEq(args[0], args[1]))
	case "slices.Contains":
		return e.containsOutcomes(st, e.contentOf(st, args[0]), args[1], false)
	case "(encoding/base64.Encoding).WithPadding":
		if n, ok := args[1].int(); ok && n == -1 {
			if w := wholeOf(args[0]); w != nil && w.Op == "gval" && strings.Count(w.S, "Raw") == 0 && strings.HasSuffix(w.S, "Encoding") {
				i := strings.LastIndex(w.S, ".") + 1
				return one(st, mkT(rt, "gval", w.S[:i]+"Raw"+w.S[i:]))
			}
		}
	case "slices.Index":
		seq := e.contentOf(st, args[0])
		id := e.ctx(fr.ctx, c, fr.fn)
		idx := mkL(append(append([]int(nil), fr.loops...), id), types.Typ[types.Int], "anyidx", strconv.Itoa(id))
		var outs []*Outcome
		for _, o := range e.containsOutcomes(st, seq, args[1], false) {
			h := o.st.clone()
			if h.facts.assume(o.res[0], true) && h.facts.assume(mkLt(mkInt(-1), idx), true) && h.facts.assume(mkLt(idx, e.lenOf(h, seq)), true) {
				outs = append(outs, &Outcome{st: h, res: []*Term{idx}})
			}
			if o.st.facts.assume(o.res[0], false) {
				outs = append(outs, &Outcome{st: o.st, res: []*Term{mkInt(-1)}})
			}
		}
		return outs
	case "slices.DeleteFunc":
		if args[1].Op == "func" || args[1].Op == "closure" {
			if t := e.deleted(fr, st, c, args); t != nil {
				e.emit(fr, st, c, name, args, sig)
				return one(st, t)
			}
		}
	case "slices.ContainsFunc", "slices.IndexFunc":
		if args[1].Op == "func" || args[1].Op == "closure" {
			return e.containsFunc(fr, st, c, name, args)
		}
	case "reflect.DeepEqual":
		return one(st, e.eqVal(st, e.argNorm(st, args[0]), e.argNorm(st, args[1])))
	case "slices.Clone":
		return one(st, e.contentOf(st, args[0]))
	case "maps.Clone":
		if args[0].Op != "mkmap" {
			return one(st, args[0])
		}
	case "maps.Copy", "maps.DeleteFunc", "maps.Insert":
		m := args[0]
		for a := range st.mem {
			if a.Op == "mapent" && (a.Args[0] == m || m.Op != "mkmap" && a.Args[0].Op != "mkmap") {
				delete(st.mem, a)
			}
		}
		if m.Op == "mkmap" {
			st.mem[m] = mk("mapmix", "", m, args[1], tNil)
		} else {
			st.ep["map"]++
		}
		e.mapChange(st, m)
		return one(st)
	case "strings.Compare", "bytes.Compare", "cmp.Compare":
		// sign of the comparison; equality is recognised by mkEq
		a, b := e.argNorm(st, args[0]), e.argNorm(st, args[1])
		return one(st, mkT(rt, "pure", name, a, b))

	// ---- reflection on values of known type
	case "(reflect.Value).Kind", "(reflect.Value).IsNil", "(reflect.Value).IsValid":
		if v := args[0]; v.Op == "pure" && v.S == "reflect.ValueOf" {
			x := st.facts.find(v.Args[0])
			if k, ok := kindOf(x); ok {
				switch name {
				case "(reflect.Value).Kind":
					return one(st, mkConst(constant.MakeInt64(int64(k)), rt))
				case "(reflect.Value).IsValid":
					return one(st, mkBool(k != reflect.Invalid))
				default:
					if k == reflect.Pointer {
						return one(st, mkEq(tNil, x.Args[0]))
					}
				}
			}
		}

	// ---- constant folding
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := str(0); ok {
			switch name {
			case "strings.ToLower":
				return one(st, mkStr(strings.ToLower(s)))
			case "strings.ToUpper":
				return one(st, mkStr(strings.ToUpper(s)))
			}
			return one(st, mkStr(strings.TrimSpace(s)))
		}
	case "strings.HasPrefix":
		s, ok := str(0)
		p, ok2 := str(1)
		if ok && ok2 {
			return one(st, mkBool(strings.HasPrefix(s, p)))
		}
	case "strings.HasSuffix":
		s, ok := str(0)
		p, ok2 := str(1)
		if ok && ok2 {
			return one(st, mkBool(strings.HasSuffix(s, p)))
		}
	case "strings.Repeat":
		s, ok := str(0)
		if n, ok2 := args[1].int(); ok && ok2 && n >= 0 && n < 4096 {
			return one(st, mkStr(strings.Repeat(s, int(n))))
		}
	case "strings.Contains":
		s, ok := str(0)
		p, ok2 := str(1)
		if ok && ok2 {
			return one(st, mkBool(strings.Contains(s, p)))
		}
	case "strings.Fields":
		if s, ok := str(0); ok {
			var l []*Term
			for _, f := range strings.Fields(s) {
				l = append(l, mkStr(f))
			}
			return one(st, mkT(rt, "arr", "", l...))
		}
	case "strings.Join":
		l := e.contentOf(st, args[0])
		if l.Op == "arr" {
			var parts []*Term
			for i, a := range l.Args {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, a)
			}
			return one(st, mkConcat(types.Typ[types.String], parts...))
		}
	case "strconv.Itoa":
		if n, ok := args[0].int(); ok {
			return one(st, mkStr(strconv.FormatInt(n, 10)))
		}
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			return one(st, mkInt(int64(len([]rune(s)))))
		}
		return one(st, mkT(rt, "pure", name, args[0]))
	case "fmt.Sprintf":
		return one(st, e.sprintf(st, args))
	case "fmt.Sprint":
		l := e.contentOf(st, args[0])
		if l.Op == "arr" && len(l.Args) == 1 {
			return one(st, e.sprintf(st, []*Term{mkStr("%v"), args[0]}))
		}

	// ---- time
	case "time.Now":
		r := e.emit(fr, st, c, name, args, sig)
		return one(st, r...)
	case "(time.Time).Unix":
		return one(st, timeUnix(args[0]))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round", "(time.Time).Truncate":
		if name == "(time.Time).UTC" || name == "(time.Time).Local" || name == "(time.Time).In" {
			return one(st, args[0])
		}
		if n, ok := args[1].int(); ok && name == "(time.Time).Truncate" && n > 0 && 1_000_000_000%n == 0 {
			return one(st, args[0]) // seconds do not change
		}
	case "(time.Duration).Seconds", "(time.Duration).Minutes", "(time.Duration).Hours":
		unit := map[string]int64{"Seconds": 1e9, "Minutes": 60e9, "Hours": 3600e9}[name[strings.LastIndex(name, ".")+1:]]
		if n, ok := args[0].int(); ok && n%unit == 0 {
			return one(st, mkConst(constant.ToFloat(constant.MakeInt64(n/unit)), rt))
		}
	case "(time.Duration).Milliseconds", "(time.Duration).Microseconds", "(time.Duration).Nanoseconds":
		unit := map[string]int64{"Milliseconds": 1e6, "Microseconds": 1e3, "Nanoseconds": 1}[name[strings.LastIndex(name, ".")+1:]]
		if n, ok := args[0].int(); ok {
			return one(st, mkInt(n/unit))
		}
	case "time.Unix":
		if n, ok := args[1].int(); ok && n == 0 {
			return one(st, mkT(rt, "tunix", "", args[0]))
		}
	case "(time.Time).Add":
		if n, ok := args[1].int(); ok && n == 0 {
			return one(st, args[0])
		}
		return one(st, mkT(rt, "tadd", "", args[0], args[1]))
	case "(time.Time).AddDate":
		y, ok1 := args[1].int()
		m, ok2 := args[2].int()
		d, ok3 := args[3].int()
		if ok1 && ok2 && ok3 && y == 0 && m == 0 {
			return one(st, mkT(rt, "tadd", "", args[0], mkInt(d*86400*1e9)))
		}
		return one(st, mkT(rt, "pure", name, args...))
	case "(time.Time).After":
		return one(st, mkLt(timeUnix(args[1]), timeUnix(args[0])))
	case "(time.Time).Before":
		return one(st, mkLt(timeUnix(args[0]), timeUnix(args[1])))
	case "(time.Time).Equal":
		return one(st, mkEq(timeUnix(args[0]), timeUnix(args[1])))
	case "time.Since":
		now := e.emit(fr, st, c, "time.Now", nil, nil)
		_ = now
		return one(st, mkT(rt, "pure", name, args[0], st.trace.Args[0]))

	// ---- hashes
	case "crypto/sha256.New":
		return one(st, e.newHash(fr, st, c, "sha256", nil))
	case "crypto/sha512.New":
		return one(st, e.newHash(fr, st, c, "sha512", nil))
	case "crypto/sha512.New384":
		return one(st, e.newHash(fr, st, c, "sha384", nil))
	case "crypto/sha1.New":
		return one(st, e.newHash(fr, st, c, "sha1", nil))
	case "crypto/md5.New":
		return one(st, e.newHash(fr, st, c, "md5", nil))
	case "golang.org/x/crypto/blake2b.New256", "golang.org/x/crypto/blake2b.New512", "golang.org/x/crypto/blake2b.New384":
		kind := "blake2b" + name[len(name)-3:]
		k := e.argNorm(st, args[0])
		if k.Op == "nil" || (k.Op == "const") || (k.Op == "arr" && len(k.Args) == 0) {
			var key *Term
			if k.Op == "const" {
				key = k
			}
			return one(st, e.newHash(fr, st, c, kind, key), tNil)
		}
		h := e.newHash(fr, st, c, kind, k)
		return one(st, h, mkT(sig.Results().At(1).Type(), "pure", "blake2b.keyerr", k))
	case "crypto/hmac.New":
		kind := "hmac:?"
		if args[0].Op == "func" {
			kind = "hmac:" + args[0].S
		}
		return one(st, e.newHash(fr, st, c, kind, e.argNorm(st, args[1])))
	case "crypto/sha256.Sum256":
		return one(st, hsumT("sha256", e.argNorm(st, args[0]), rt))
	case "crypto/sha512.Sum512":
		return one(st, hsumT("sha512", e.argNorm(st, args[0]), rt))
	case "crypto/sha512.Sum384":
		return one(st, hsumT("sha384", e.argNorm(st, args[0]), rt))
	case "crypto/sha1.Sum":
		return one(st, hsumT("sha1", e.argNorm(st, args[0]), rt))
	case "crypto/md5.Sum":
		return one(st, hsumT("md5", e.argNorm(st, args[0]), rt))
	case "golang.org/x/crypto/blake2b.Sum256":
		return one(st, hsumT("blake2b256", e.argNorm(st, args[0]), rt))
	case "golang.org/x/crypto/blake2b.Sum512":
		return one(st, hsumT("blake2b512", e.argNorm(st, args[0]), rt))
	case "io.WriteString":
		w := args[0]
		if w.Op == "hashobj" {
			return e.hashCall(fr, st, c, "Write", w, args[1:])
		}
	case "fmt.Fprintf":
		if args[0].Op == "hashobj" {
			return e.hashCall(fr, st, c, "Write", args[0], []*Term{e.sprintf(st, args[1:])})
		}
	case "golang.org/x/crypto/hkdf.New":
		as := e.normAll(st, args)
		return one(st, mkT(rt, "pure", name, as...))
	case "io.ReadFull", "io.ReadAtLeast":
		r := args[0]
		if r.Op == "pure" {
			n := 0
			for t := st.trace; len(t.Args) == 2; t = t.Args[1] {
				if t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].S, name+"@") && t.Args[0].Args[0] == r {
					n++
				}
			}
			res := e.emit(fr, st, c, name, args, sig)
			e.overwrite(st, args[1], mkT(nil, "stream", strconv.Itoa(n), r), "read")
			return one(st, res...)
		}
		res := e.emit(fr, st, c, name, args, sig)
		e.overwrite(st, args[1], mkT(nil, "out", "1", res[0].Args[0]), "read")
		return one(st, res...)
	case "crypto/rand.Read", "(*math/rand.Rand).Read", "math/rand.Read":
		i := len(args) - 1
		res := e.emit(fr, st, c, name, args, sig)
		e.overwrite(st, args[i], mkT(nil, "out", strconv.Itoa(i), res[0].Args[0]), "read")
		return one(st, res...)
	case "(*math/big.Int).FillBytes":
		res := e.pure(st, name, args, sig)
		e.overwrite(st, args[1], res[0], "fill")
		return one(st, args[1])

	// ---- text and buffers
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		if o := objOf(args[0]); o != nil {
			cur := e.bufContent(st, o)
			e.setContent(st, o, mkConcat(nil, cur, e.argNorm(st, args[1])))
			return one(st, e.lenOf(st, args[1]), tNil)
		}
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if o := objOf(args[0]); o != nil {
			cur := e.bufContent(st, o)
			x := args[1]
			if n, ok := x.int(); ok {
				x = mkStr(string(rune(n)))
			} else {
				x = mkT(types.Typ[types.String], "conv", "rune", x)
			}
			e.setContent(st, o, mkConcat(nil, cur, x))
			if sig.Results().Len() == 2 {
				return one(st, mkInt(1), tNil)
			}
			return one(st, tNil)
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		if o := objOf(args[0]); o != nil {
			x := e.bufContent(st, o)
			return one(st, x)
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if o := objOf(args[0]); o != nil {
			e.setContent(st, o, mkStr(""))
			return one(st)
		}
	case "encoding/json.NewEncoder", "encoding/json.NewDecoder":
		return one(st, mkT(rt, "pure", name, args...))
	case "(*encoding/json.Encoder).Encode":
		// result goes to the underlying buffer
		if args[0].Op == "pure" {
			if o := objOf(args[0].Args[0]); o != nil {
				v := e.deepNorm(st, args[1])
				call := mk("pure", "encoding/json.Marshal", v)
				cur := e.bufContent(st, o)
				e.setContent(st, o, mkConcat(nil, cur, mkT(nil, "res", "0", call)))
				return one(st, mkT(rt, "res", "1", call))
			}
		}
	case "(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent", "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Decoder).UseNumber":
		return one(st)
	case "encoding/json.Marshal", "encoding/json.MarshalIndent", "github.com/fxamacker/cbor/v2.Marshal", "google.golang.org/protobuf/encoding/protojson.Marshal", "(google.golang.org/protobuf/encoding/protojson.MarshalOptions).Marshal":
		var na []*Term
		for _, a := range args {
			na = append(na, e.deepNorm(st, a))
		}
		call := mk("pure", name, na...)
		return one(st, results(call, sig)...)
	case "encoding/json.Unmarshal", "google.golang.org/protobuf/encoding/protojson.Unmarshal", "google.golang.org/protobuf/proto.Unmarshal":
		d := e.argNorm(st, args[0])
		call := mk("pure", name, d, mk("ty", typeOfPtr(args[1])))
		e.out(st, args[1], mkT(nil, "decoded", "", call))
		e.note(fr, st, c, name, args)
		return one(st, mkT(rt, "res", "0", call))
	case "(google.golang.org/protobuf/encoding/protojson.UnmarshalOptions).Unmarshal":
		d := e.argNorm(st, args[1])
		call := mk("pure", name, args[0], d, mk("ty", typeOfPtr(args[2])))
		e.out(st, args[2], mkT(nil, "decoded", "", call))
		e.note(fr, st, c, name, args)
		return one(st, mkT(rt, "res", "0", call))
	case "(*github.com/go-jose/go-jose/v4/jwt.JSONWebToken).Claims", "(*github.com/go-jose/go-jose/v4/jwt.JSONWebToken).UnsafeClaimsWithoutVerification":
		l := e.contentOf(st, args[len(args)-1])
		key := tNil
		if len(args) == 3 {
			key = args[1]
		}
		call := mk("pure", name, args[0], key)
		if l.Op == "arr" {
			for i, d := range l.Args {
				e.out(st, d, mkT(nil, "decoded", strconv.Itoa(i), call))
			}
		}
		e.note(fr, st, c, name, args)
		return one(st, mkT(rt, "res", "0", call))
	case "(zntr.io/solid/sdk/token.Token).Claims", "(zntr.io/solid/sdk/token.Verifier).Claims", "(*encoding/json.Decoder).Decode":
		i := len(args) - 1
		res := e.emit(fr, st, c, name, args, sig)
		e.out(st, args[i], mkT(nil, "decoded", strconv.Itoa(i), res[0].Args[0]))
		return one(st, res...)
	case "errors.As":
		res := e.emit(fr, st, c, name, args, sig)
		e.out(st, args[1], mkT(nil, "out", "1", res[0].Args[0]))
		return one(st, res...)

	// ---- protobuf
	case "google.golang.org/protobuf/proto.Clone":
		a := args[0]
		var t types.Type
		if a.Op == "iface" && a.T != nil {
			t = deref(a.T)
		}
		cl := mkL(fr.loops, t, "clone", fmt.Sprintf("%d.%d", fr.ctx, instrID(c)), a)
		if a.Op == "iface" {
			return one(st, mkT(a.T, "iface", a.S, cl))
		}
		return one(st, cl)

	// ---- context
	case "(context.Context).Value":
		cur := args[0]
		for cur.Op == "pure" && cur.S == "context.WithValue" {
			eq := mkEq(cur.Args[1], args[1])
			if eq == tTrue {
				return one(st, cur.Args[2])
			}
			if eq != tFalse {
				break
			}
			cur = cur.Args[0]
		}
		return one(st, mkT(rt, "pure", name, cur, args[1]))

	// ---- locks
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		st.locks[args[0]]++
		e.emit(fr, st, c, name, args, nil)
		return one(st)
	case "(*sync.RWMutex).RLock":
		st.locks[mk("rlock", "", args[0])]++
		e.emit(fr, st, c, name, args, nil)
		return one(st)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		st.locks[args[0]]--
		e.emit(fr, st, c, name, args, nil)
		return one(st)
	case "(*sync.RWMutex).RUnlock":
		st.locks[mk("rlock", "", args[0])]--
		e.emit(fr, st, c, name, args, nil)
		return one(st)
	case "(*sync.Once).Do":
		st.locks[mk("once", "", args[0])] = 1
		if args[1].Op == "func" || args[1].Op == "closure" {
			return e.invokeTerm(fr, st, c, args[1], nil)
		}
	}
	if strings.HasSuffix(name, ".init") && fr.fn.Name() == "init" {
		return one(st)
	}
	if strings.HasPrefix(name, "fmt.Errorf") || name == "errors.New" || name == "errors.Join" {
		return one(st, e.pure(st, name, args, sig)...)
	}
	if isPure(name) {
		// snapshots of pointed-to values
		na := append([]*Term(nil), args...)
		for i, a := range na {
			if i < len(na) && (a.Op == "alloc" || a.Op == "res" || a.Op == "sel") && i == 0 && strings.HasPrefix(name, "(*net/url.URL)") && fn != nil {
				if r := fn.Signature.Recv(); r != nil {
					na[0] = e.load(st, a, deref(r.Type()))
				}
			}
		}
		if e.quiet == 0 {
			e.note(fr, st, c, name, args)
		}
		return one(st, e.pure(st, name, na, sig)...)
	}
	if fn != nil && e.quiet == 0 {
		e.unknown[name] = true
	}
	res := e.emit(fr, st, c, name, args, sig)
	// objects handed to unknown code may be modified by it
	if name == "(*math/big.Int).SetString" {
		// the receiver on success, nothing otherwise
		bad := st.clone()
		var outs []*Outcome
		if st.facts.assume(res[1], true) {
			outs = append(outs, &Outcome{st: st, res: []*Term{args[0], tTrue}})
		}
		if bad.facts.assume(res[1], false) {
			outs = append(outs, &Outcome{st: bad, res: []*Term{tNil, tFalse}})
		}
		return outs
	}
	if fn != nil && name != "github.com/go-jose/go-jose/v4.NewSigner" {
		call := st.trace.Args[0]
		for i, a := range args {
			o := a
			if o.Op == "iface" {
				o = o.Args[0]
			}
			if o.Op == "alloc" && !isProto(o.T) {
				e.setContent(st, o, mkT(o.T, "out", strconv.Itoa(i), call))
			}
			if o.Op == "slc" && isFresh(o) {
				if i == len(args)-1 && sig.Variadic() {
					continue
				}
				e.setContent(st, o.Args[0], mkT(o.Args[0].T, "out", strconv.Itoa(i), call))
			}
		}
	}
	return one(st, res...)
}

// note reports a call to the hooks without recording it as an event.
func (e *Engine) note(fr *frame, st *State, c ssa.CallInstruction, name string, args []*Term) {
	if e.OnEvent != nil && e.quiet == 0 {
		e.OnEvent(st, &Event{Name: name, Args: args, Pos: e.p.pos(c.Pos()), Fn: fnName(fr.fn), ins: c, fr: fr})
	}
}

// decodedTypes finds the type behind the name recorded in a decoding call.
var decodedTypes = map[string]types.Type{}

func typeOfPtr(a *Term) string {
	if a.T != nil {
		n := a.T.String()
		if a.Op == "iface" {
			n = a.S
		}
		decodedTypes[n] = a.T
	}
	if a.Op == "iface" {
		return a.S
	}
	if a.T != nil {
		return a.T.String()
	}
	return "?"
}

func isProto(t types.Type) bool {
	if t == nil {
		return false
	}
	return strings.Contains(t.String(), modPath+"/api/")
}

func hsumT(kind string, data *Term, t types.Type) *Term {
	x := mkHsum(kind, nil, data)
	return x
}

func (e *Engine) bufContent(st *State, o *Term) *Term {
	if v, ok := st.mem[o]; ok {
		if v.Op == "zero" {
			return mkStr("")
		}
		return v
	}
	if isFresh(o) {
		return mkStr("")
	}
	return mkT(nil, "sel", e.epoch(st, o), o)
}

// deepNorm captures the value a pointer designates, for serialisation.
func (e *Engine) deepNorm(st *State, a *Term) *Term {
	a = e.argNorm(st, a)
	x := a
	if x.Op == "iface" {
		x = x.Args[0]
	}
	if x.Op == "alloc" && x.T != nil {
		return mk("snap", "", e.load(st, x, x.T))
	}
	if x.Op == "mkmap" {
		var ents []*Term
		for _, m := range sortedMem(st, x) {
			ents = append(ents, mk("kv", "", m.Args[1], e.deepNorm(st, st.mem[m])))
		}
		return mk("snapmap", "", ents...)
	}
	return a
}

func sortedMem(st *State, m *Term) []*Term {
	var r []*Term
	for a := range st.mem {
		if a.Op == "mapent" && a.Args[0] == m {
			r = append(r, a)
		}
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j].Args[1].String() < r[i].Args[1].String() {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

func stringer(a *Term) (*Term, bool) {
	if a.Op == "iface" {
		a = a.Args[0]
	}
	if a.Op == "const" {
		if _, ok := a.str(); ok {
			return a, true
		}
	}
	if a.T != nil && isStringType(a.T) {
		return a, true
	}
	return a, false
}

func (e *Engine) sprintf(st *State, args []*Term) *Term {
	f, ok := args[0].str()
	l := mkT(nil, "arr", "")
	if len(args) > 1 {
		l = e.contentOf(st, args[1])
		if l.Op == "nil" {
			l = mkT(nil, "arr", "")
		}
	}
	if !ok || l.Op != "arr" {
		return mkT(types.Typ[types.String], "pure", "fmt.Sprintf", append([]*Term{args[0]}, e.normAll(st, args[1:])...)...)
	}
	var parts []*Term
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		verb := f[i : j+1]
		i = j
		if k >= len(l.Args) {
			lit += "%!missing"
			continue
		}
		a := e.argNorm(st, l.Args[k])
		k++
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
		x, isStr := stringer(a)
		switch {
		case (verb == "%s" || verb == "%v") && isStr:
			parts = append(parts, x)
		case verb == "%s" && x.T != nil && isBytes(x.T):
			parts = append(parts, x)
		case verb == "%x":
			parts = append(parts, mkT(types.Typ[types.String], "pure", "encoding/hex.EncodeToString", x))
		case verb == "%d" || verb == "%v":
			if n, ok := x.int(); ok {
				parts = append(parts, mkStr(strconv.FormatInt(n, 10)))
			} else {
				parts = append(parts, mkT(types.Typ[types.String], "fmt", "%d", x))
			}
		default:
			parts = append(parts, mkT(types.Typ[types.String], "fmt", verb, x))
		}
	}
	if lit != "" {
		parts = append(parts, mkStr(lit))
	}
	return mkConcat(types.Typ[types.String], parts...)
}

// errIs decides errors.Is structurally.
func (e *Engine) errIs(st *State, err, target *Term) *Term {
	err = st.facts.find(err)
	if err.Op == "nil" {
		return mkEq(tNil, target)
	}
	if err.Op == "pure" && err.S == "fmt.Errorf" {
		f, ok := err.Args[0].str()
		if ok {
			r := tFalse
			k := 1
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				if f[i+1] == '%' {
					i++
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
					j++
				}
				if j < len(f) && f[j] == 'w' && k < len(err.Args) {
					w := e.errIs(st, err.Args[k], target)
					if w == tTrue {
						return tTrue
					}
					if w != tFalse {
						r = w
					}
				}
				k++
				i = j
			}
			return r
		}
	}
	if err.Op == "pure" && err.S == "errors.New" && target.Op == "gval" {
		return tFalse
	}
	return e.eqVal(st, err, target)
}

// deleted recognises the removal of the elements that equal a value.
func (e *Engine) deleted(fr *frame, st *State, c ssa.CallInstruction, args []*Term) *Term {
	seq := e.contentOf(st, args[0])
	s, ok := c.Common().Args[0].Type().Underlying().(*types.Slice)
	if !ok || seq.Op == "arr" {
		return nil
	}
	id := e.ctx(fr.ctx, c, fr.fn)
	lt := append(append([]int(nil), fr.loops...), id)
	addr := mkIA(seq, mkL(lt, types.Typ[types.Int], "anyidx", strconv.Itoa(id)))
	b := st.clone()
	elem := e.load(b, addr, s.Elem())
	var keep, drop []*State
	for _, o := range e.invokeTerm(fr, b, c, args[1], []*Term{elem}) {
		if o.st.trace != st.trace {
			return nil
		}
		h := o.st.clone()
		if h.facts.assume(o.res[0], true) {
			drop = append(drop, h)
		}
		if o.st.facts.assume(o.res[0], false) {
			keep = append(keep, o.st)
		}
	}
	return without(seq, addr.Args[1], id, keep, drop)
}

// without recognises the elements of a sequence that differ from a value: the current element equals it
// exactly when it is dropped.
func without(seq, cur *Term, id int, keep, drop []*State) *Term {
	if len(keep) == 0 || len(drop) == 0 {
		return nil
	}
	for c, pol := range drop[0].facts.m {
		fold := c.Op == "pure" && c.S == "strings.EqualFold"
		if !pol || c.Op != "eq" && !fold {
			continue
		}
		all := true
		for _, s := range drop {
			all = all && s.facts.eval(c) == 1
		}
		for _, s := range keep {
			all = all && s.facts.eval(c) == -1
		}
		g := substElem(c, seq, cur)
		if !all || g == c || len(g.Args) != 2 {
			continue
		}
		for i, h := range g.Args {
			x := g.Args[1-i]
			if h != tHole || x.inLoop(id) || mentionsEpoch(x, id) || contains(x, tHole) {
				continue
			}
			if fold {
				return removeFold(seq, x)
			}
			return mkT(seq.T, "pure", "removeEq", seq, x)
		}
	}
	return nil
}

// containsFunc models membership tests with a predicate.
func (e *Engine) containsFunc(fr *frame, st *State, c ssa.CallInstruction, name string, args []*Term) []*Outcome {
	seq := e.contentOf(st, args[0])
	asIndex := name == "slices.IndexFunc"
	yes, no := tTrue, tFalse
	if asIndex {
		no = mkInt(-1)
	}
	if seq.Op == "nil" {
		return one(st, no)
	}
	if seq.Op == "arr" {
		var outs []*Outcome
		cur := []*State{st}
		for i, a := range seq.Args {
			var nx []*State
			for _, s := range cur {
				for _, o := range e.invokeTerm(fr, s, c, args[1], []*Term{a}) {
					h := o.st.clone()
					if h.facts.assume(o.res[0], true) {
						r := yes
						if asIndex {
							r = mkInt(int64(i))
						}
						outs = append(outs, &Outcome{st: h, res: []*Term{r}})
					}
					if o.st.facts.assume(o.res[0], false) {
						nx = append(nx, o.st)
					}
				}
			}
			cur = nx
		}
		for _, s := range cur {
			outs = append(outs, &Outcome{st: s, res: []*Term{no}})
		}
		return outs
	}
	id := e.ctx(fr.ctx, c, fr.fn)
	lt := append(append([]int(nil), fr.loops...), id)
	idx := mkL(lt, types.Typ[types.Int], "anyidx", strconv.Itoa(id))
	addr := mkIA(seq, idx)
	var et types.Type
	if s, ok := c.Common().Args[0].Type().Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	elem := e.load(st, addr, et)
	base := st.clone()
	outs0 := e.invokeTerm(fr, st.clone(), c, args[1], []*Term{elem})
	var outs []*Outcome
	nots := map[*Term]bool{}
	first := true
	for _, o := range outs0 {
		h := o.st.clone()
		if h.facts.assume(o.res[0], true) {
			r := yes
			if asIndex {
				r = idx
				h.facts.assume(mkLt(mkInt(-1), idx), true)
			}
			outs = append(outs, &Outcome{st: h, res: []*Term{r}})
		}
		if o.st.facts.assume(o.res[0], false) {
			if e.OnSkip != nil && e.quiet == 0 {
				e.OnSkip(o.st, addr, c)
			}
			set := map[*Term]bool{}
			for cnd, pol := range o.st.facts.m {
				if w, ok := base.facts.m[cnd]; ok && w == pol {
					continue
				}
				g := substElem(cnd, seq, idx)
				if g == cnd || g.inLoop(id) {
					continue
				}
				if !pol {
					g = mkNot(g)
				}
				set[mkT(types.Typ[types.Bool], "forall", "", seq, g)] = true
			}
			if first {
				nots = set
				first = false
			} else {
				for k := range nots {
					if !set[k] {
						delete(nots, k)
					}
				}
			}
		}
	}
	for f := range nots {
		base.facts.m[f] = true
	}
	base.facts.m[mkT(types.Typ[types.Bool], "visited", "", seq)] = true
	return append(outs, &Outcome{st: base, res: []*Term{no}})
}

// kindOf is the reflection kind of an interface value of known dynamic type.
func kindOf(x *Term) (reflect.Kind, bool) {
	if x.Op == "nil" {
		return reflect.Invalid, true
	}
	if x.Op != "iface" || x.T == nil {
		return 0, false
	}
	switch t := x.T.Underlying().(type) {
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Map:
		return reflect.Map, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Chan:
		return reflect.Chan, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Basic:
		switch t.Kind() {
		case types.String:
			return reflect.String, true
		case types.Int:
			return reflect.Int, true
		case types.Bool:
			return reflect.Bool, true
		}
	}
	return 0, false
}

var _ = os.Getenv

// signerHeader adds a header to the options of a signer and returns them.
func (e *Engine) signerHeader(fr *frame, st *State, c ssa.CallInstruction, o, k, v *Term) []*Outcome {
	pt, ok := c.Common().Args[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != "ExtraHeaders" {
			continue
		}
		fa := mkFA(o, f, pt.Elem())
		m := e.load(st, fa, f.Type())
		if m.Op == "nil" {
			m = e.allocTerm(fr, "mkmap", c.(ssa.Instruction), f.Type())
			e.kill(st, m)
			delete(st.mem, m)
			e.store(st, fa, m, f.Type())
		}
		if m.Op != "mkmap" {
			return nil
		}
		if v.Op != "iface" {
			v = mkT(nil, "iface", "", v)
		}
		e.mapStore(st, m, k, v)
		e.mapChange(st, m)
		return one(st, o)
	}
	return nil
}
