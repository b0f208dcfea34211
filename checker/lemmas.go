package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// analyse runs one function body on the given arguments.
func (c *Ctx) analyse(fn *ssa.Function, args []*Term, opts ...func(e *Engine)) *Root {
	rootCount++
	paramScope = fmt.Sprintf("%s#%d", fnName(fn), rootCount)
	e := newEngine(c.p)
	for _, o := range opts {
		o(e)
	}
	if args == nil {
		args = paramTerms(fn, 0, "p")
	}
	e.pin = append(append([]*Term{}, args...), e.pin...)
	r := &Root{Name: fnName(fn), E: e, Fn: fn, Args: args}
	e.OnEvent = func(st *State, ev *Event) { r.Evs = append(r.Evs, &EvRec{Event: ev, St: st.clone()}) }
	r.Outs = e.run(fn, e.ctx(0, nil, fn), args, nil, newState(), nil)
	e.OnEvent = nil
	for k := range e.Funcs {
		c.funcs[k] = true
	}
	for k := range e.Sites {
		c.sites[k] = true
	}
	c.roots[r.Name] = r
	return r
}

func (c *Ctx) methodOf(pkg, typ, name string) *ssa.Function {
	sc := c.p.scope(pkg)
	if sc == nil {
		bail("package %s not found", pkg)
	}
	o := sc.Lookup(typ)
	if o == nil {
		bail("type %s.%s not found", pkg, typ)
	}
	if m := c.p.method(o.Type(), name, o.Pkg()); m != nil {
		return m
	}
	m := c.p.method(types.NewPointer(o.Type()), name, o.Pkg())
	if m == nil {
		bail("method %s.%s.%s not found", pkg, typ, name)
	}
	return m
}

// branches yields the outcomes with the boolean result decided.
func branches(r *Root, visit func(o *Outcome, st *State, val bool)) {
	for _, o := range r.Outs {
		for _, b := range []bool{true, false} {
			st := o.st.clone()
			if st.facts.assume(o.res[0], b) {
				visit(o, st, b)
			}
		}
	}
}

func withoutSummary(names ...string) func(e *Engine) {
	return func(e *Engine) {
		for _, n := range names {
			for k := range e.Summary {
				if strings.HasSuffix(k, n) {
					delete(e.Summary, k)
				}
			}
		}
	}
}

// checkLemmas verifies, on their bodies, the contracts by which the engine
// replaces calls of the list and nil helpers.
func checkLemmas(c *Ctx) {
	// Contains
	fn := c.methodOf(pkgTypes, "StringArray", "Contains")
	r := c.analyse(fn, nil, withoutSummary("StringArray).Contains"))
	l, item := r.Args[0], r.Args[1]
	branches(r, func(o *Outcome, st *State, val bool) {
		pos := c.p.pos(fn.Pos())
		if val {
			c.need(member(st, l, item, true), "contains", fnName(fn), pos, "a membership test is true although no element equals the item regardless of case")
		} else {
			c.need(notMember(st, l, item, true), "contains", fnName(fn), pos, "a membership test is false although an element equals the item regardless of case")
		}
	})
	c.floor("contains", 2, "outcomes of the membership test")
	// HasOneOf, HasAll
	for _, n := range []string{"HasOneOf", "HasAll"} {
		fn := c.methodOf(pkgTypes, "StringArray", n)
		r := c.analyse(fn, nil, withoutSummary("StringArray).HasOneOf", "StringArray).HasAll"))
		l, items := r.Args[0], r.Args[1]
		branches(r, func(o *Outcome, st *State, val bool) {
			any := n == "HasOneOf"
			in := containsTerm(l, tHole, true)
			pos := c.p.pos(fn.Pos())
			switch {
			case val == any:
				// one element decides
				c.need(existsElem(st, items, func(x *Term) *Term { return containsTerm(l, x, true) }, any) || (!any && emptyList(st, items)),
					"sets", fnName(fn), pos, "the result of %s is not decided by one of the items", n)
			default:
				want := in
				if any {
					want = mkNot(in)
				}
				ok := false
				for cnd, pol := range st.facts.m {
					if pol && cnd.Op == "forall" && cnd.Args[0] == items && cnd.Args[1] == want {
						ok = true
					}
				}
				if any && emptyList(st, items) {
					ok = true
				}
				c.need(ok, "sets", fnName(fn), pos, "the result of %s does not depend on every item", n)
				if !any {
					c.need(st.facts.eval(mkEq(items, tNil)) != 1 && !emptyList(st, items), "sets", fnName(fn), pos, "an empty list of items is reported as contained")
				}
			}
		})
	}
	c.floor("sets", 4, "outcomes of the set tests")
	// AddIfNotContains
	fn = c.methodOf(pkgTypes, "StringArray", "AddIfNotContains")
	r = c.analyse(fn, nil)
	item = r.Args[1]
	st0 := newState()
	old := r.E.load(st0, r.Args[0], deref(fn.Params[0].Type()))
	for _, o := range r.Outs {
		now := r.E.load(o.st, r.Args[0], deref(fn.Params[0].Type()))
		was := o.st.facts.eval(containsTerm(old, item, true))
		pos := c.p.pos(fn.Pos())
		switch {
		case same(o.st, now, old):
			c.need(was == 1, "add", fnName(fn), pos, "an item that is not in the list is not added")
		default:
			c.need(was == -1 && isAppendOf(now, old, item), "add", fnName(fn), pos, "the list is not the old one followed by the missing item: %s", now)
		}
	}
	c.floor("add", 2, "outcomes of adding an item")
	// Remove
	checkRemove(c)
	// IsNil
	checkIsNil(c)
}

func isAppendOf(now, old, item *Term) bool {
	return now.Op == "append" && now.Args[0] == old && now.Args[1].Op == "arr" && len(now.Args[1].Args) == 1 && now.Args[1].Args[0] == item
}

func emptyList(st *State, l *Term) bool {
	return st.facts.eval(mkEq(newEngine(nil).lenOf(nil, l), mkInt(0))) == 1 || st.facts.eval(mkLt(mkInt(0), newEngine(nil).lenOf(nil, l))) == -1
}

// existsElem tells whether the condition is known (with the given truth) for
// an element of the list.
func existsElem(st *State, l *Term, cond func(x *Term) *Term, truth bool) bool {
	for cnd, pol := range st.facts.m {
		ok := false
		walk(cnd, func(t *Term) bool {
			if isElemOf(t, l) && cnd == cond(t) && pol == truth {
				ok = true
			}
			return !ok
		})
		if ok {
			return true
		}
	}
	return false
}

func checkIsNil(c *Ctx) {
	fn := c.p.fn(pkgTypes, "IsNil")
	if fn == nil {
		bail("anchor IsNil not found")
	}
	iface := types.NewInterfaceType(nil, nil)
	run := func(arg *Term) *Root {
		return c.analyse(fn, []*Term{arg}, withoutSummary("types.IsNil"))
	}
	pos := c.p.pos(fn.Pos())
	branches(run(tNil), func(o *Outcome, st *State, val bool) {
		c.need(val, "isnil", fnName(fn), pos, "an absent value is not reported as nil")
	})
	for _, ty := range []types.Type{
		types.Typ[types.String], types.Typ[types.Int], types.NewStruct(nil, nil),
		types.NewPointer(types.NewStruct(nil, nil)), types.NewPointer(types.Typ[types.String]),
	} {
		rootCount++
		v := mkT(ty, "param", fmt.Sprintf("v\x00isnil#%d", rootCount))
		arg := mkT(iface, "iface", ty.String(), v)
		arg.T = ty
		want := tFalse
		if _, ok := ty.(*types.Pointer); ok {
			want = mkEq(tNil, v)
		}
		branches(run(arg), func(o *Outcome, st *State, val bool) {
			k := 1
			if !val {
				k = -1
			}
			c.need(st.facts.eval(want) == k, "isnil", fnName(fn), pos, "the answer %v is wrong for a value of type %s", val, ty)
		})
	}
	c.floor("isnil", 7, "value classes")
}

// checkRemove verifies that Remove keeps exactly the elements different from
// the item, in order: the list is replaced by the accumulator of a loop over
// all its elements, which appends an element exactly if it differs, or by
// slices.DeleteFunc with the comparison.
func checkRemove(c *Ctx) {
	fn := c.methodOf(pkgTypes, "StringArray", "Remove")
	name, pos := fnName(fn), c.p.pos(fn.Pos())
	type back struct {
		fn       *ssa.Function
		head     *ssa.BasicBlock
		list     bool
		idx      *Term
		st       *State
		old, now map[*ssa.Phi]*Term
		stores   []*Term // elements written in the iteration
	}
	var backs []back
	var foreign []string
	var dels []*EvRec
	args := paramTerms(fn, 0, "p")
	recv, item := args[0], args[1]
	var old *Term
	r := c.analyse(fn, args, func(e *Engine) {
		old = e.load(newState(), recv, deref(fn.Params[0].Type()))
		e.OnBack = func(st *State, fr *frame, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term) {
			b := back{fn: fr.fn, head: h, st: st.clone(), now: vals, old: map[*ssa.Phi]*Term{}}
			for ph := range vals {
				b.old[ph] = e.BackFrom.regs[ph]
			}
			if _, x, l := headTest(h); l != nil {
				b.list = stripConv(e.iterVal(fr, st, h, l)) == old
				b.idx = e.iterVal(fr, st, h, x)
			}
			for t := st.trace; t != e.BackFrom.trace && len(t.Args) == 2; t = t.Args[1] {
				if callName(t.Args[0]) == "lemma.store" {
					b.stores = append(b.stores, t.Args[0])
				}
			}
			backs = append(backs, b)
		}
		e.OnStore = func(st *State, addr, val *Term, fr *frame, ins ssa.Instruction) {
			if addr.Op == "ia" && stripConv(addr.Args[0]) == old {
				st.event(mk("call", "lemma.store@0", addr.Args[1], val))
				return
			}
			if addr != recv && !isFresh(addr) {
				foreign = append(foreign, c.p.pos(ins.Pos()))
			}
		}
	})
	dels = r.evs("slices.DeleteFunc")
	c.need(len(foreign) == 0, "remove", name, pos, "an unexpected store at %s", strings.Join(foreign, ", "))
	for _, o := range r.Outs {
		now := stripConv(r.E.load(o.st, recv, deref(fn.Params[0].Type())))
		why := "the list is not replaced by the elements that differ from the item: " + now.String()
		if len(calls(o.st, "lemma.store")) > 0 {
			c.need(false, "remove", name, pos, "the elements of the list are changed")
			continue
		}
		if now == stripConv(removeFold(old, item)) {
			c.need(true, "remove", name, pos, "")
			continue
		}
		if now.Op == "pure" && now.S == "slices.DeleteFunc" {
			for _, ev := range dels {
				if ev.Args[1] == now.Args[1] && stripConv(ev.Args[0]) == old {
					why = deletes(c, r, ev, item)
				}
			}
			c.need(why == "", "remove", name, pos, "%s", why)
			continue
		}
		// the elements are moved to the front of the list
		if now.Op == "pslice" && stripConv(now.Args[0]) == old && (now.Args[1] == mkInt(0) || now.Args[1].Op == "nil") {
			var cnt *ssa.Phi
			for _, b := range backs {
				for ph, v := range b.old {
					if v == now.Args[2] {
						cnt = ph
					}
				}
			}
			if cnt != nil {
				why = visitsAll(r.E, cnt)
				for _, b := range backs {
					if b.head != cnt.Block() || why != "" {
						continue
					}
					eq := 0
					for cnd := range b.st.facts.m {
						walk(cnd, func(t *Term) bool {
							if (t.Op == "sel" && t.Args[0] == mkIA(old, b.idx) || t == mk("idx", "", old, b.idx)) && eq == 0 {
								eq = b.st.facts.eval(foldEq(t, item))
							}
							return true
						})
					}
					was, is := b.old[cnt], b.now[cnt]
					switch {
					case !b.list:
						why = "the loop does not visit the elements of the list"
					case is == was && len(b.stores) == 0:
						if eq != 1 {
							why = "an element that differs from the item is dropped"
						}
					case is == mkPlus(was, 1) && len(b.stores) == 1 && b.stores[0].Args[0] == was && isElemAt(b.stores[0].Args[1], old, b.idx):
						if eq != -1 {
							why = "an element that equals the item is kept"
						}
					default:
						why = "the kept elements are not moved to the front of the list in order"
					}
				}
			}
			c.need(why == "", "remove", name, pos, "%s", why)
			continue
		}
		// the accumulator of a loop
		var acc *ssa.Phi
		for _, b := range backs {
			for ph, v := range b.old {
				if stripConv(v) == now && (acc == nil || isSliceType(ph.Type())) && isSliceType(ph.Type()) {
					acc = ph
				}
			}
		}
		if acc == nil {
			// nothing was in the list
			if emptyList(o.st, old) && (now == old || now.Op == "nil") {
				continue
			}
			c.need(false, "remove", name, pos, "%s", why)
			continue
		}
		why = visitsAll(r.E, acc)
		for _, b := range backs {
			if b.head != acc.Block() || why != "" {
				continue
			}
			if len(b.stores) > 0 {
				why = "the elements of the list are changed"
				continue
			}
			was, is := stripConv(b.old[acc]), stripConv(b.now[acc])
			elem := mk("sel", "", mkIA(old, b.idx))
			eq := 0
			for _, t := range []*Term{elem, mk("idx", "", old, b.idx)} {
				if k := b.st.facts.eval(foldEq(t, item)); k != 0 {
					eq, elem = k, t
				}
			}
			switch {
			case !b.list:
				why = "the loop does not visit the elements of the list"
			case is == was:
				if eq != 1 {
					why = "an element that differs from the item is dropped"
				}
			case extends(is, was, elem):
				if eq != -1 {
					why = "an element that equals the item is kept"
				}
			default:
				why = fmt.Sprintf("the kept elements are not extended by the current element: %s", is)
			}
		}
		c.need(why == "", "remove", name, pos, "%s", why)
	}
	c.floor("remove", 1, "outcomes of removing an item")
}

func isElemAt(t, list, idx *Term) bool {
	return t.Op == "sel" && t.Args[0] == mkIA(list, idx) || t == mk("idx", "", list, idx)
}

// extends tells whether a list is another one followed by the element.
func extends(is, was, elem *Term) bool {
	if is.Op == "append" {
		return stripConv(is.Args[0]) == was && is.Args[1].Op == "arr" && len(is.Args[1].Args) == 1 && is.Args[1].Args[0] == elem
	}
	if is.Op != "arr" || len(is.Args) == 0 || is.Args[len(is.Args)-1] != elem {
		return false
	}
	n := len(is.Args) - 1
	if was.Op == "arr" {
		if len(was.Args) != n {
			return false
		}
		for i, a := range was.Args {
			if is.Args[i] != a {
				return false
			}
		}
		return true
	}
	return n == 0 && (was == tNil || was.Op == "mkslice" || was.Op == "zeros" || was.Op == "slc" || was.Op == "pslice")
}

// headVal evaluates a value of a loop head, which may not have been computed
// yet at the start of the iteration.
// iterVal is the value of an operand of the loop test in the iteration that OnBack reports.
func (e *Engine) iterVal(fr *frame, st *State, h *ssa.BasicBlock, v ssa.Value) *Term {
	if ph, ok := v.(*ssa.Phi); !ok || ph.Block() != h {
		if t, ok := st.regs[v]; ok {
			return t
		}
	}
	return e.headVal(fr, e.BackFrom, v)
}

func (e *Engine) headVal(fr *frame, st *State, v ssa.Value) *Term {
	if t, ok := st.regs[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global:
		return e.val(fr, st, v)
	case *ssa.ChangeType:
		return e.headVal(fr, st, x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return e.load(st, e.headVal(fr, st, x.X), x.Type())
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && isOne(k) {
			return mkPlus(e.headVal(fr, st, x.X), 1)
		}
	}
	return mk("unknown", v.Name())
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// deletes checks the predicate given to slices.DeleteFunc.
func deletes(c *Ctx, r *Root, ev *EvRec, item *Term) string {
	pred := ev.Args[1]
	if pred.Op != "func" && pred.Op != "closure" {
		return "the elements are dropped by an unknown predicate"
	}
	var bind []*Term
	if pred.Op == "closure" {
		bind = pred.Args
	}
	x := mkT(types.Typ[types.String], "param", "x\x00"+paramScope)
	outs := r.E.run(pred.Fn, r.E.ctx(3, nil, pred.Fn), []*Term{x}, bind, ev.St.clone(), nil)
	for _, o := range outs {
		for _, b := range []bool{true, false} {
			st := o.st.clone()
			if st.facts.assume(o.res[0], b) {
				k := st.facts.eval(foldEq(x, item))
				if b && k != 1 {
					return "an element that differs from the item is dropped"
				}
				if !b && k != -1 {
					return "an element that equals the item is kept"
				}
			}
		}
	}
	return ""
}

// headTest reads the test of a loop "index < len(list)".
func headTest(h *ssa.BasicBlock) (*ssa.If, ssa.Value, ssa.Value) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, nil
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, nil
	}
	x, y := cond.X, cond.Y
	switch cond.Op {
	case token.LSS:
	case token.GTR:
		x, y = y, x
	case token.NEQ:
		if _, ok := x.(*ssa.Call); ok {
			x, y = y, x
		}
	default:
		return nil, nil, nil
	}
	ln, ok := y.(*ssa.Call)
	if !ok {
		return nil, nil, nil
	}
	if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil, nil, nil
	}
	return iff, x, ln.Call.Args[0]
}

// visitsAll tells why the loop that carries acc does not visit every element
// of its sequence, or does not start with an empty accumulator.
func visitsAll(e *Engine, acc *ssa.Phi) string {
	head := acc.Block()
	fn := acc.Parent()
	var lp *loop
	for _, l := range e.infoOf(fn).loops {
		if l.head == head {
			lp = l
		}
	}
	if lp == nil {
		return "the kept elements are not collected by one loop"
	}
	iff, idx, _ := headTest(head)
	if iff == nil || !lp.blocks[head.Succs[0]] {
		return "the loop does not stop at the end of the list"
	}
	for b := range lp.blocks {
		for i, s := range b.Succs {
			if !lp.blocks[s] && !(b == head && i == 1) {
				return "the loop stops before the end of the list"
			}
		}
	}
	// the index runs from zero in steps of one
	var ctr *ssa.Phi
	first := int64(0)
	switch x := idx.(type) {
	case *ssa.Phi:
		ctr = x
	case *ssa.BinOp:
		ctr, _ = x.X.(*ssa.Phi)
		first = -1
		if k, ok := x.Y.(*ssa.Const); !ok || x.Op != token.ADD || !isOne(k) {
			ctr = nil
		}
	}
	if ctr == nil || ctr.Block() != head {
		return "the loop does not visit every element"
	}
	for i, p := range head.Preds {
		v := ctr.Edges[i]
		if !lp.blocks[p] {
			k, ok := v.(*ssa.Const)
			if !ok || k.Value == nil {
				return "the loop does not start with the first element"
			}
			if n, _ := constant.Int64Val(k.Value); n != first {
				return "the loop does not start with the first element"
			}
			if !emptySlice(acc.Edges[i]) && !isZeroConst(acc.Edges[i]) {
				return "the collection of the kept elements does not start empty"
			}
			continue
		}
		if first == -1 {
			if v != idx {
				return "the loop skips elements"
			}
			continue
		}
		s, ok := v.(*ssa.BinOp)
		if !ok || s.Op != token.ADD || s.X != ssa.Value(ctr) {
			return "the loop skips elements"
		}
		if k, ok := s.Y.(*ssa.Const); !ok || !isOne(k) {
			return "the loop skips elements"
		}
	}
	return ""
}

func unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func isOne(k *ssa.Const) bool {
	if k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, _ := constant.Int64Val(k.Value)
	return n == 1
}

func isZeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, _ := constant.Int64Val(k.Value)
	return n == 0
}

func emptySlice(v ssa.Value) bool {
	switch x := unwrap(v).(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
		}
		return (x.Low == nil || isZeroConst(x.Low)) && x.High != nil && isZeroConst(x.High)
	case *ssa.MakeSlice:
		return isZeroConst(x.Len)
	}
	return false
}

// lemmaUsed tells whether an analysis relied on the contract with the key.
func lemmaUsed(used map[string]bool, key string) bool {
	for u := range used {
		base := u[strings.LastIndexByte(u, '.')+1:]
		switch key {
		case "contains":
			if base == "Contains" || base == "HasOneOf" || base == "HasAll" {
				return true
			}
		case "sets":
			if base == "HasOneOf" || base == "HasAll" {
				return true
			}
		case "remove":
			if base == "Remove" {
				return true
			}
		case "isnil":
			if base == "IsNil" {
				return true
			}
		case "analysis":
			return true
		}
	}
	return false
}
