package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine runs the disjunctive forward dataflow analysis over the SSA form.
type Engine struct {
	pin      []*Term // values kept alive between runs
	p        *Prog
	ctxs     map[string]int
	ctxNames []string
	quiet    int
	depth    int
	steps    int
	forced   int
	unknown  map[string]bool // external callees without a model

	TrackErrs bool // record the error results of calls in the states
	OnErr     func(callee, pos string)
	OnEvent   func(st *State, ev *Event)
	OnDeref   func(st *State, addr *Term, fr *frame, ins ssa.Instruction)
	// OnCmp sees every comparison of two values for equality.
	OnCmp func(st *State, how string, a, b *Term, fr *frame, ins ssa.Instruction)
	// OnHazard sees every run-time check and whether it is known to succeed.
	OnHazard func(st *State, kind string, t *Term, safe bool, fr *frame, ins ssa.Instruction)
	BackFrom *State                                           // the state at the head of the iteration OnBack reports
	OnSkip   func(st *State, at *Term, c ssa.CallInstruction) // an element a predicate does not hold for
	OnCall   func(st *State, c *ssa.Call, fn *Term, args []*Term)
	OnBack   func(st *State, fr *frame, h *ssa.BasicBlock, vals map[*ssa.Phi]*Term)
	OnMap    func(st *State, kind string, m *Term, fr *frame, ins ssa.Instruction)
	OnStore  func(st *State, addr, val *Term, fr *frame, ins ssa.Instruction)
	Ready    func(st *State, r *Root) // an object is complete and about to be used
	OnObject func(st *State, name string, recv *Term, fr *frame, ins ssa.Instruction)
	OnLoad   func(st *State, addr *Term, fr *frame, ins ssa.Instruction)
	NoGC     bool            // keep objects that no result refers to
	NoInline map[string]bool // module functions treated as opaque events
	MergeAt  int             // outcomes of a function call that are kept apart
	Summary  map[string]bool // module functions replaced by their contract
	UsedSum  map[string]bool
	Funcs    map[string]bool // functions analysed
	Sites    map[string]bool // call sites seen
	ginit    map[*ssa.Package]*State
	initing  map[*ssa.Package]bool
	frames   []*frame
	maxSt    int
	fnInfo   map[*ssa.Function]*fnInfo
}

type Event struct {
	Name string
	Term *Term
	Args []*Term
	Pos  string
	Fn   string
	ins  ssa.CallInstruction
	fr   *frame
}

type Outcome struct {
	st  *State
	res []*Term
	pos token.Pos
}

type frame struct {
	fn     *ssa.Function
	ctx    int
	caller *frame
	loops  []int // active loops, including those of the callers
	saved  map[ssa.Value]*Term
	outs   []*Outcome
	info   *fnInfo
	args   []*Term
	retKey map[string]int
}

type fnInfo struct {
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	loops []*loop
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
}

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

func newEngine(p *Prog) *Engine {
	return &Engine{p: p, MergeAt: mergeAt, ctxs: map[string]int{}, unknown: map[string]bool{}, UsedSum: map[string]bool{}, Funcs: map[string]bool{}, Sites: map[string]bool{}, ginit: map[*ssa.Package]*State{}, initing: map[*ssa.Package]bool{}, fnInfo: map[*ssa.Function]*fnInfo{}, Summary: map[string]bool{
		"(zntr.io/solid/sdk/types.StringArray).Contains":   true,
		"(*zntr.io/solid/sdk/types.StringArray).Remove":    true,
		"(zntr.io/solid/sdk/types.StringArray).HasOneOf":   true,
		"(zntr.io/solid/sdk/types.StringArray).HasAll":     true,
		"zntr.io/solid/sdk/types.IsNil":                    true,
		"zntr.io/solid/sdk/types.SecureCompare":            false,
		"zntr.io/solid/sdk/token/verifiable.nothing":       false,
		"(*zntr.io/solid/sdk/types.StringArray).Contains":  true,
		"(*zntr.io/solid/sdk/types.StringArray).HasOneOf":  true,
		"(*zntr.io/solid/sdk/types.StringArray).HasAll":    true,
		"(*zntr.io/solid/sdk/types.StringArray).AddIfNone": false,
	}}
}

// covered drops the outcomes whose facts are subsumed by another one.
func covered(g []*Outcome) []*Outcome {
	var l []*Outcome
next:
	for i, a := range g {
		for j, b := range g {
			if i != j && b.st.facts.subsetOf(a.st.facts) && (j < i || !a.st.facts.subsetOf(b.st.facts)) {
				continue next
			}
		}
		l = append(l, a)
	}
	return l
}

// lastCtx numbers the calling contexts of all analyses, so that terms of
// different analyses never coincide.
var lastCtx int

// stateCap bounds the disjuncts kept at one program point.
const stateCap = 1200

func (e *Engine) ctx(parent int, site ssa.Instruction, fn *ssa.Function) int {
	k := fmt.Sprintf("%d/%p/%p", parent, site, fn)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	lastCtx++
	c := lastCtx
	e.ctxs[k] = c
	return c
}

type analysisError struct{ msg string }

func (a analysisError) Error() string { return a.msg }

func bail(format string, args ...any) { panic(analysisError{fmt.Sprintf(format, args...)}) }

// ---- function information -------------------------------------------------

func (e *Engine) infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := e.fnInfo[fn]; ok {
		return i
	}
	i := &fnInfo{live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, rpo: map[*ssa.BasicBlock]int{}}
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for k := len(post) - 1; k >= 0; k-- {
		i.order = append(i.order, post[k])
		i.rpo[post[k]] = len(post) - 1 - k
	}
	// natural loops
	byHead := map[*ssa.BasicBlock]*loop{}
	for _, b := range i.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					i.loops = append(i.loops, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			} else if i.rpo[s] <= i.rpo[b] {
				bail("irreducible control flow in %s", fn)
			}
		}
	}
	for _, l := range i.loops {
		for _, m := range i.loops {
			if m != l && m.blocks[l.head] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	// liveness
	use := func(set map[ssa.Value]bool, v ssa.Value) {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return
		}
		set[v] = true
	}
	for changed := true; changed; {
		changed = false
		for k := len(i.order) - 1; k >= 0; k-- {
			b := i.order[k]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					cur[v] = true
				}
				pi := predIndex(s, b)
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
					_ = pi
				}
			}
			for _, s := range b.Succs {
				for x, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						use(cur, ph.Edges[x])
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						use(cur, *op)
					}
				}
			}
			// phis are defined on entry; keep those used below
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				cur[ph] = true
			}
			if len(cur) != len(i.live[b]) {
				i.live[b] = cur
				changed = true
			}
		}
	}
	e.fnInfo[fn] = i
	return i
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// ---- memory ---------------------------------------------------------------

func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" || a.Op == "mapent" {
		a = a.Args[0]
	}
	if a.Op == "slc" {
		return rootOf(a.Args[0])
	}
	return a
}

func isFresh(a *Term) bool {
	switch rootOf(a).Op {
	case "alloc", "mkmap", "mkslice", "clone", "hashobj":
		return true
	}
	return false
}

func (st *State) epKey(a *Term) string {
	switch a.Op {
	case "fa":
		return ownerName(a) + "." + a.S
	case "ia":
		return "[]"
	}
	if a.T != nil {
		return "*" + a.T.String()
	}
	return "*"
}

// ownerName names the struct type owning a field address, when known.
func ownerName(a *Term) string {
	if a.T != nil {
		return a.T.String()
	}
	return "?"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mkFA(base *Term, f *types.Var, owner types.Type) *Term {
	return mkFieldAddr(base, f.Name(), owner)
}

// mkFieldAddr: T of a field address is the owner struct type.
func mkFieldAddr(base *Term, name string, owner types.Type) *Term {
	return mkT(owner, "fa", name, base)
}

// mkIA is the address of an element. The elements of a filtered list are elements of the original.
func mkIA(base, idx *Term) *Term {
	for base.Op == "filt" {
		base, idx = base.Args[0], mkT(types.Typ[types.Int], "fidx", "", base, idx)
	}
	return mk("ia", "", base, idx)
}

// kept tells what is known of the elements of a filtered list.
func kept(st *State, base, idx *Term) {
	for base.Op == "filt" {
		at := mkIA(base, idx)
		for c, pol := range st.facts.m {
			if pol && c.Op == "forall" && c.Args[0] == base {
				st.facts.assume(fillHole(c.Args[1], at), true)
			}
		}
		base, idx = base.Args[0], mkT(types.Typ[types.Int], "fidx", "", base, idx)
		st.facts.assume(mkLt(idx, mkT(types.Typ[types.Int], "len", "", base)), true)
		st.facts.assume(mkLt(idx, mkInt(0)), false)
	}
}

// fillHole is the inverse of substElem.
func fillHole(t, addr *Term) *Term {
	if t == tHole {
		return mk("sel", "", addr)
	}
	if t.Op == "holeaddr" {
		return addr
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = fillHole(a, addr)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "not":
		return mkNot(args[0])
	}
	if t.Op == "pure" && t.S == "strings.EqualFold" {
		return foldEq(args[0], args[1])
	}
	return mkT(t.T, t.Op, t.S, args...)
}

// filtered tells whether a list collects elements of a sequence that the loop does not change, and what
// is known of all of them.
func (e *Engine) filtered(fr *frame, l *loop, id int, ph *ssa.Phi, hst, b *State) (*Term, []*Term) {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return nil, nil
	}
	head, v := hst.regs[ph], b.regs[ph]
	if head == nil || v == nil {
		return nil, nil
	}
	outer := append(append([]int(nil), fr.loops...), id)
	mkf := func(seq *Term) *Term {
		return mkL(outer, ph.Type(), "filt", fmt.Sprintf("%d:%s", id, ph.Name()), seq)
	}
	all := func(f *Term) map[*Term]bool {
		m := map[*Term]bool{}
		for c, pol := range b.facts.m {
			if pol && c.Op == "forall" && c.Args[0] == f {
				m[c.Args[1]] = true
			}
		}
		return m
	}
	list := func(f *Term, m map[*Term]bool) (*Term, []*Term) {
		var l []*Term
		for g := range m {
			l = append(l, mkT(types.Typ[types.Bool], "forall", "", f, g))
		}
		l = append(l, mkLt(mkInt(0), mkT(types.Typ[types.Int], "len", "", f)))
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return f, l
	}
	isF := head.Op == "filt" && head == mkf(head.Args[0])
	var elems []*Term
	known := map[*Term]bool{}
	switch {
	case v == head && isF:
		return list(head, all(head))
	case v.Op == "append" && v.Args[0] == head && isF && v.Args[1].Op == "arr":
		elems = v.Args[1].Args
		known = all(head)
	case v.Op == "arr" && v != head && (head.Op == "nil" || head.Op == "arr" || e.lenOf(hst, head) == mkInt(0)):
		elems = v.Args
	}
	if len(elems) == 0 {
		return nil, nil
	}
	var seq *Term
	for i, x := range elems {
		var at *Term
		if x.Op == "sel" && x.Args[0].Op == "ia" {
			at = x.Args[0]
		} else if at = wholeOf(x); at == nil || at.Op != "ia" {
			return nil, nil
		}
		if seq == nil {
			seq = at.Args[0]
		}
		if at.Args[0] != seq || seq.inLoop(id) || seq.Op == "alloc" {
			return nil, nil
		}
		set := map[*Term]bool{}
		for c, pol := range b.facts.m {
			g := substElem(c, seq, at.Args[1])
			if g == c || g.inLoop(id) || mentionsEpoch(g, id) || c.Op == "forall" {
				continue
			}
			if !pol {
				g = mkNot(g)
			}
			set[g] = true
		}
		if i == 0 && v.Op == "arr" {
			known = set
			continue
		}
		for g := range known {
			if !set[g] {
				delete(known, g)
			}
		}
	}
	if isF && head != mkf(seq) {
		return nil, nil
	}
	return list(mkf(seq), known)
}

func (e *Engine) load(st *State, addr *Term, t types.Type) *Term {
	if v, ok := st.mem[addr]; ok {
		if t != nil && v.T == nil {
			v.T = t
		}
		return v
	}
	if addr.Op == "global" {
		return e.loadGlobal(st, addr, t)
	}
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			// explode, field by field
			if content := e.parentContent(st, addr); content != nil {
				return mkFld2(content, addr, t)
			}
			if u.NumFields() <= 40 && (isFresh(addr) || u.NumFields() <= 12) {
				any := false
				args := make([]*Term, u.NumFields())
				var names []string
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i)
					names = append(names, f.Name())
					args[i] = e.load(st, mkFA(addr, f, t), f.Type())
					if args[i] != zeroOf(f.Type()) {
						any = true
					}
				}
				if !any && isFresh(addr) {
					return zeroOf(t)
				}
				return mkT(t, "struct", t.String()+"{"+strings.Join(names, ",")+"}", args...)
			}
		case *types.Array:
			if isFresh(addr) {
				if content := e.parentContent(st, addr); content != nil {
					return mkFld2(content, addr, t)
				}
				var args []*Term
				any := false
				if u.Len() <= 64 {
					for i := int64(0); i < u.Len(); i++ {
						at := mkIA(addr, mkInt(i))
						v, ok := st.mem[at]
						if !ok {
							v = zeroOf(u.Elem())
							if _, isS := u.Elem().Underlying().(*types.Struct); isS {
								v = e.load(st, at, u.Elem())
								ok = v != zeroOf(u.Elem())
							}
						}
						any = any || ok
						args = append(args, v)
					}
				} else {
					// a partially written large array is opaque
					for a := range st.mem {
						if a.Op == "ia" && a.Args[0] == addr {
							return mkT(t, "arrmix", strconv.Itoa(st.gep), addr)
						}
					}
				}
				// an element at a variable index makes the content opaque
				for a, v := range st.mem {
					if a.Op == "ia" && a.Args[0] == addr && a.Args[1].Op != "const" {
						return mkT(t, "arrmix", "", addr, v)
					}
				}
				if any {
					return mkT(t, "arr", "", args...)
				}
				return zeroOf(t)
			}
		}
	}
	if content := e.parentContent(st, addr); content != nil {
		return mkFld2(content, addr, t)
	}
	if isFresh(addr) {
		if addr.Op == "ia" && addr.Args[1].Op != "const" {
			// element at an unknown index
			base := addr.Args[0]
			stored := false
			for a := range st.mem {
				if a.Op == "ia" && a.Args[0] == base {
					stored = true
				}
			}
			if stored || rootOf(addr).Op == "clone" {
				return mkT(t, "elem", strconv.Itoa(st.gep), addr)
			}
		}
		if t != nil && rootOf(addr).Op != "clone" {
			return zeroOf(t)
		}
	}
	x := mkT(t, "sel", e.epoch(st, addr), addr)
	return x
}

func (e *Engine) epoch(st *State, addr *Term) string {
	n := st.ep[st.epKey(addr)] + st.gep
	if n == 0 {
		return ""
	}
	return strconv.Itoa(n)
}

// parentContent returns the value stored as a whole at the parent address.
func (e *Engine) parentContent(st *State, addr *Term) *Term {
	if addr.Op != "fa" && addr.Op != "ia" {
		return nil
	}
	base := addr.Args[0]
	if base.Op == "slc" {
		base = base.Args[0]
	}
	if v, ok := st.mem[base]; ok {
		return v
	}
	if c := e.parentContent(st, base); c != nil {
		return mkFld2(c, base, nil)
	}
	return nil
}

// mkFld2 projects the component of a whole value designated by the last step
// of addr.
func mkFld2(content, addr *Term, t types.Type) *Term {
	if addr.Op == "fa" {
		return mkFld(content, addr.S, t)
	}
	return mkIdx(content, addr.Args[1], t)
}

func mkFld(v *Term, name string, t types.Type) *Term {
	switch v.Op {
	case "struct":
		names := strings.Split(strings.TrimSuffix(v.S[strings.LastIndexByte(v.S, '{')+1:], "}"), ",")
		for i, n := range names {
			if n == name && i < len(v.Args) {
				return v.Args[i]
			}
		}
	case "zero":
		if t != nil {
			return zeroOf(t)
		}
	case "sel":
		return mkT(t, "sel", v.S, mkFieldAddr(v.Args[0], name, v.T))
	}
	return mkT(t, "fld", name, v)
}

func mkIdx(v, i *Term, t types.Type) *Term {
	if v.Op == "arr" {
		if k, ok := i.int(); ok && k >= 0 && int(k) < len(v.Args) {
			return v.Args[k]
		}
	}
	if v.Op == "zero" && t != nil {
		return zeroOf(t)
	}
	if s, ok := v.str(); ok {
		if k, ok := i.int(); ok && k >= 0 && int(k) < len(s) {
			return mkInt(int64(s[k]))
		}
	}
	return mkT(t, "idx", "", v, i)
}

func (e *Engine) store(st *State, addr, val *Term, t types.Type) {
	// remove finer entries
	e.kill(st, addr)
	if addr.Op == "slc" {
		addr = addr.Args[0]
	}
	if !isFresh(addr) && addr.Op != "global" {
		k := st.epKey(addr)
		for a := range st.mem {
			if a != addr && !isFresh(a) && a.Op == addr.Op && a.S == addr.S && st.epKey(a) == k {
				delete(st.mem, a)
			}
		}
		st.ep[k]++
	}
	// a write to a component of a value stored as a whole: explode the parent
	if addr.Op == "fa" {
		e.explode(st, addr.Args[0], addr)
	}
	if addr.Op == "ia" {
		if content, ok := st.mem[addr.Args[0]]; ok && content.Op != "zero" {
			if content.Op == "arr" {
				delete(st.mem, addr.Args[0])
				for i, a := range content.Args {
					st.mem[mkIA(addr.Args[0], mkInt(int64(i)))] = a
				}
			} else {
				st.mem[addr.Args[0]] = mkT(content.T, "upd", "", content, addr.Args[1], val)
				return
			}
		} else if ok {
			delete(st.mem, addr.Args[0])
		}
		if addr.Args[1].Op != "const" && isFresh(addr) {
			// unknown index: forget the elements
			for a := range st.mem {
				if a.Op == "ia" && a.Args[0] == addr.Args[0] && a != addr {
					delete(st.mem, a)
				}
			}
			st.mem[addr.Args[0]] = mk("arrmix", strconv.Itoa(st.gep), addr.Args[0], addr.Args[1], val)
			return
		}
	}
	if val.Op == "struct" && t != nil {
		if u, ok := t.Underlying().(*types.Struct); ok && u.NumFields() == len(val.Args) {
			for i := 0; i < u.NumFields(); i++ {
				a := mkFA(addr, u.Field(i), t)
				e.storeSub(st, a, val.Args[i], u.Field(i).Type())
			}
			return
		}
	}
	st.mem[addr] = val
}

func (e *Engine) storeSub(st *State, a, v *Term, t types.Type) {
	if v.Op == "struct" {
		if u, ok := t.Underlying().(*types.Struct); ok && u.NumFields() == len(v.Args) {
			for i := 0; i < u.NumFields(); i++ {
				e.storeSub(st, mkFA(a, u.Field(i), t), v.Args[i], u.Field(i).Type())
			}
			return
		}
	}
	st.mem[a] = v
}

// explode turns a whole-value entry for base into per-field entries.
func (e *Engine) explode(st *State, base, except *Term) {
	content, ok := st.mem[base]
	if !ok {
		if (base.Op == "fa" || base.Op == "ia") && e.parentContent(st, base) != nil {
			e.explode(st, base.Args[0], base)
			content, ok = st.mem[base]
		}
		if !ok {
			return
		}
	}
	delete(st.mem, base)
	owner := except.T
	if owner == nil {
		return
	}
	u, ok := owner.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		a := mkFA(base, u.Field(i), owner)
		if _, has := st.mem[a]; !has {
			st.mem[a] = mkFld(content, u.Field(i).Name(), u.Field(i).Type())
		}
	}
}

// kill removes the entries below addr.
func (e *Engine) kill(st *State, addr *Term) {
	for a := range st.mem {
		for x := a; ; {
			if x == addr && a != addr {
				delete(st.mem, a)
				break
			}
			if x.Op == "fa" || x.Op == "ia" || x.Op == "slc" || x.Op == "mapent" {
				x = x.Args[0]
				continue
			}
			break
		}
	}
}

// setContent replaces everything stored in a fresh object by an opaque value.
func (e *Engine) setContent(st *State, obj, content *Term) {
	e.kill(st, obj)
	st.mem[obj] = content
}

// contentOf reads the elements of a slice that covers a whole array.
func (e *Engine) contentOf(st *State, v *Term) *Term {
	switch v.Op {
	case "slc":
		a := v.Args[0]
		return e.load(st, a, a.T)
	case "mkslice":
		if c, ok := st.mem[v]; ok {
			return c
		}
		var idx []*Term
		for a := range st.mem {
			if a.Op == "ia" && a.Args[0] == v {
				idx = append(idx, a)
			}
		}
		if len(idx) == 0 {
			return mkT(v.T, "zeros", "", v.Args[0])
		}
		sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
		return mkT(v.T, "arrmix", "", append([]*Term{v}, idx...)...)
	case "iface":
		c := e.contentOf(st, v.Args[0])
		if c != v.Args[0] {
			return mkT(v.T, "iface", v.S, c)
		}
	case "pslice":
		c := e.contentOf(st, v.Args[0])
		if c != v.Args[0] {
			return mkSlice(c, v.Args[1], v.Args[2], v.T)
		}
	}
	return v
}

func mkSlice(x, lo, hi *Term, t types.Type) *Term {
	if l, ok := lo.int(); ok && l == 0 && hi.Op == "nil" {
		return x
	}
	if s, ok := x.str(); ok {
		l, ok1 := lo.int()
		h, ok2 := hi.int()
		if hi.Op == "nil" {
			h, ok2 = int64(len(s)), true
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return mkStr(s[l:h])
		}
	}
	return mkT(t, "pslice", "", x, lo, hi)
}

func mkConcat(t types.Type, parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.Op == "concat" {
			fl = append(fl, p.Args...)
		} else {
			fl = append(fl, p)
		}
	}
	var out []*Term
	for _, p := range fl {
		if p.Op == "arr" {
			if b, ok := arrBytes(p); ok {
				p = mkStr(b)
			}
		}
		if p.Op == "nil" {
			continue
		}
		if s, ok := p.str(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if q, ok := out[len(out)-1].str(); ok {
					out[len(out)-1] = mkStr(q + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkT(t, "concat", "", out...)
}

// arrBytes converts an array of constant bytes.
func arrBytes(a *Term) (string, bool) {
	var b []byte
	for _, x := range a.Args {
		i, ok := x.int()
		if !ok || i < 0 || i > 255 {
			return "", false
		}
		b = append(b, byte(i))
	}
	return string(b), true
}

// ---- globals --------------------------------------------------------------

func (e *Engine) loadGlobal(st *State, addr *Term, t types.Type) *Term {
	name := addr.S
	g, _ := globalOf[addr]
	if g == nil || g.Pkg == nil {
		return mkT(t, "gval", name)
	}
	if t != nil && isErrorType(t) {
		return mkT(t, "gval", name)
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/") || strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/api/") {
		return mkT(t, "gval", name)
	}
	if e.p.mutGlobal[g] {
		return mkT(t, "gval", name+"/mutable"+strconv.Itoa(st.gep))
	}
	if len(e.p.gstores[g]) > 1 {
		return mkT(t, "gval", name+"/mutable"+strconv.Itoa(st.gep))
	}
	for _, s := range e.p.gstores[g] {
		// set by the initialiser of the package, or unconditionally by an
		// init function of it
		f := s.Parent()
		declared := f.Pkg == g.Pkg && strings.HasPrefix(f.Name(), "init#") && f.Signature.Recv() == nil && s.Block().Index == 0
		if !declared && (f.Name() != "init" || f.Synthetic == "") {
			return mkT(t, "gval", name+"/mutable")
		}
	}
	is := e.initState(g.Pkg)
	if is == nil {
		return mkT(t, "gval", name)
	}
	v, ok := is.mem[addr]
	if !ok {
		return mkT(t, "gval", name)
	}
	// copy the initial heap of the package (only what is not there yet)
	for a, x := range is.mem {
		if r := rootOf(a); r.Op == "alloc" || r.Op == "mkmap" || r.Op == "mkslice" {
			if _, has := st.mem[a]; !has {
				st.mem[a] = x
			}
		}
	}
	return v
}

var globalOf = map[*Term]*ssa.Global{}

func globalTerm(g *ssa.Global) *Term {
	n := g.Name()
	if g.Pkg != nil {
		n = g.Pkg.Pkg.Path() + "." + n
	}
	x := mkT(deref(g.Type()), "global", n)
	globalOf[x] = g
	return x
}

// initState interprets the initialiser of a package once.
func (e *Engine) initState(pk *ssa.Package) *State {
	if s, ok := e.ginit[pk]; ok {
		return s
	}
	if e.initing[pk] {
		return nil
	}
	e.initing[pk] = true
	defer delete(e.initing, pk)
	init := pk.Func("init")
	if init == nil {
		return nil
	}
	// abstract execution of the single initialiser, without hooks
	ev, dr, bk, os, cm, hz := e.OnEvent, e.OnDeref, e.OnBack, e.OnStore, e.OnCmp, e.OnHazard
	e.OnEvent, e.OnDeref, e.OnBack, e.OnStore, e.OnCmp, e.OnHazard = nil, nil, nil, nil, nil, nil
	defer func() { e.OnEvent, e.OnDeref, e.OnBack, e.OnStore, e.OnCmp, e.OnHazard = ev, dr, bk, os, cm, hz }()
	outs := e.run(init, e.ctx(0, nil, init), nil, nil, newState(), nil)
	var s *State
	if len(outs) > 0 {
		// the longest outcome is the one that ran the initialisers
		for _, o := range outs {
			if s == nil || len(o.st.mem) > len(s.mem) {
				s = o.st
			}
		}
	}
	e.ginit[pk] = s
	return s
}

// ---- evaluation -----------------------------------------------------------

func (e *Engine) val(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroConst(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return globalTerm(x)
	case *ssa.Function:
		t := mkT(x.Type(), "func", fnName(x))
		t.Fn = x
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name())
	}
	t, ok := st.regs[v]
	if !ok {
		bail("no value for %s (%s) in %s", v.Name(), v, fr.fn)
	}
	return t
}

func zeroConst(t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return zeroOf(t)
	case *types.Basic:
		return zeroOf(t)
	}
	return tNil
}

// run analyses a function body from the given state.
func (e *Engine) run(fn *ssa.Function, ctx int, args, bind []*Term, st *State, caller *frame) []*Outcome {
	if fn.Blocks == nil {
		bail("no body for %s", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 40 {
		bail("call depth exceeded at %s", fn)
	}
	fr := &frame{fn: fn, ctx: ctx, caller: caller, info: e.infoOf(fn), args: args, saved: st.regs, retKey: map[string]int{}}
	if caller != nil {
		fr.loops = append([]int(nil), caller.loops...)
	}
	if e.quiet == 0 {
		e.Funcs[fnName(fn)] = true
	}
	e.frames = append(e.frames, fr)
	savedDefers := st.defers
	memBefore := len(st.mem)
	st = st.clone()
	st.defers = nil
	st.regs = map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			st.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			st.regs[p] = bind[i]
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.info.order {
		all[b] = true
	}
	e.region(fr, nil, all, fn.Blocks[0], []*State{st})
	e.frames = e.frames[:len(e.frames)-1]

	// merge outcomes that agree on everything but the facts
	ss := &stateSet{}
	res := map[*State][]*Term{}
	for _, o := range fr.outs {
		o.st.regs = map[ssa.Value]*Term{}
		o.st.defers = nil
		e.gc(o, memBefore, fr)
	}
	groups := map[string][]*Outcome{}
	var order []string
	for _, o := range fr.outs {
		var b strings.Builder
		for _, r := range o.res {
			b.WriteString(strconv.Itoa(r.id))
			b.WriteByte(',')
		}
		k := b.String() + "#" + o.st.key()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var outs []*Outcome
	for _, k := range order {
		g := covered(groups[k])
		if len(g) <= e.MergeAt {
			for _, o := range g {
				o.st.regs = fr.saved
				o.st.defers = append([]deferred(nil), savedDefers...)
				outs = append(outs, o)
			}
			continue
		}
		o := g[0]
		if len(g) > 1 {
			e.forced++
			var fs []*Facts
			for _, x := range g {
				fs = append(fs, x.st.facts)
			}
			o.st.facts = meet(fs)
		}
		o.st.regs = fr.saved
		o.st.defers = savedDefers
		outs = append(outs, o)
	}
	_ = ss
	_ = res
	if os.Getenv("VDEBUG") != "" && len(outs) > 20 {
		fmt.Fprintf(os.Stderr, "outs %d (%d) %s\n", len(outs), len(fr.outs), fn)
	}
	return outs
}

// gc drops memory of fresh objects that are no longer reachable.
func (e *Engine) gc(o *Outcome, before int, fr *frame) {
	if e.NoGC {
		return
	}
	if len(o.st.mem) <= before {
		return
	}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	byRoot := map[*Term][]*Term{}
	for a := range o.st.mem {
		r := rootOf(a)
		byRoot[r] = append(byRoot[r], a)
	}
	seen := map[*Term]bool{}
	mark = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "alloc", "mkmap", "mkslice", "clone", "hashobj":
			if !reach[t] {
				reach[t] = true
				for _, a := range byRoot[t] {
					mark(o.st.mem[a])
					for x := a; x.Op == "fa" || x.Op == "ia" || x.Op == "mapent"; x = x.Args[0] {
						if len(x.Args) > 1 {
							mark(x.Args[1])
						}
					}
				}
			}
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, r := range o.res {
		mark(r)
	}
	for a, v := range o.st.mem {
		switch rootOf(a).Op {
		case "alloc", "mkmap", "mkslice", "clone", "hashobj":
		default:
			mark(v)
		}
	}
	for _, a := range fr.args {
		mark(a)
	}
	for f := fr; f != nil; f = f.caller {
		for _, v := range f.saved {
			mark(v)
		}
	}
	for _, a := range e.pin {
		mark(a)
	}
	for _, d := range o.st.defers {
		for _, a := range d.args {
			mark(a)
		}
	}
	for r, as := range byRoot {
		switch r.Op {
		case "alloc", "mkmap", "mkslice", "clone", "hashobj":
			if !reach[r] {
				for _, a := range as {
					delete(o.st.mem, a)
				}
			}
		}
	}
}

type edge struct{ from, to *ssa.BasicBlock }

type edgeState struct {
	to *ssa.BasicBlock
	st *State
}

// region processes the blocks of a loop body (or of the whole function) in
// topological order; inner loops are handled as single nodes. It returns the
// states flowing back to the header and those leaving the region.
func (e *Engine) region(fr *frame, cur *loop, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, ins []*State) (back []*State, exits []edgeState) {
	pend := map[*ssa.BasicBlock]*stateSet{}
	get := func(b *ssa.BasicBlock) *stateSet {
		s := pend[b]
		if s == nil {
			s = &stateSet{cap: stateCap, forced: &e.forced}
			pend[b] = s
		}
		return s
	}
	for _, s := range ins {
		get(entry).add(s)
	}
	inner := map[*ssa.BasicBlock]*loop{}
	for _, l := range fr.info.loops {
		if l.parent == cur && (cur == nil || l != cur) {
			inner[l.head] = l
		}
	}
	inInner := func(b *ssa.BasicBlock) bool {
		for _, l := range inner {
			if l.blocks[b] && l.head != b {
				return true
			}
		}
		return false
	}
	route := func(to *ssa.BasicBlock, s *State) {
		switch {
		case cur != nil && to == cur.head:
			back = append(back, s)
		case !blocks[to]:
			exits = append(exits, edgeState{to, s})
		default:
			get(to).add(s)
		}
	}
	for _, b := range fr.info.order {
		if !blocks[b] || inInner(b) {
			continue
		}
		set := pend[b]
		if set == nil {
			continue
		}
		if l := inner[b]; l != nil {
			for _, x := range e.runLoop(fr, l, set.list) {
				route(x.to, x.st)
			}
			continue
		}
		if len(set.list) > 3000 {
			bail("state explosion in %s", fr.fn)
		}
		for _, s := range set.list {
			for _, x := range e.block(fr, b, s) {
				route(x.to, x.st)
			}
		}
	}
	return
}

// block executes the instructions of one block for one disjunct.
func (e *Engine) block(fr *frame, b *ssa.BasicBlock, st *State) []edgeState {
	var out []edgeState
	var exec func(i int, st *State)
	exec = func(i int, st *State) {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			e.steps++
			if e.steps > 60_000_000 || e.steps%1024 == 0 && time.Since(checkStart) > 10*time.Minute {
				bail("analysis budget exhausted in %s", fr.fn)
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				continue // assigned on the edge
			case *ssa.If:
				c := e.val(fr, st, x.Cond)
				switch st.facts.eval(c) {
				case 1:
					out = append(out, e.edge(fr, b, 0, st))
				case -1:
					out = append(out, e.edge(fr, b, 1, st))
				default:
					t, f := st.clone(), st
					if t.facts.assume(c, true) {
						out = append(out, e.edge(fr, b, 0, t))
					}
					if f.facts.assume(c, false) {
						out = append(out, e.edge(fr, b, 1, f))
					}
				}
				return
			case *ssa.Jump:
				out = append(out, e.edge(fr, b, 0, st))
				return
			case *ssa.Return:
				var res []*Term
				for _, r := range x.Results {
					res = append(res, e.val(fr, st, r))
				}
				fr.outs = append(fr.outs, &Outcome{st: st, res: res, pos: x.Pos()})
				return
			case *ssa.Panic:
				if e.OnHazard != nil && e.quiet == 0 {
					e.hazards(fr, st, ins)
				}
				return
			case *ssa.RunDefers:
				ds := st.defers
				st.defers = nil
				sts := []*State{st}
				for k := len(ds) - 1; k >= 0; k-- {
					var nx []*State
					for _, s := range sts {
						for _, o := range e.invokeTerm(fr, s, ds[k].call, ds[k].fn, ds[k].args) {
							nx = append(nx, o.st)
						}
					}
					sts = nx
				}
				for _, s := range sts {
					exec(i+1, s)
				}
				return
			case *ssa.Defer:
				fnT, args := e.callOperands(fr, st, x)
				st.defers = append(st.defers, deferred{x, fnT, args})
			case *ssa.Go:
				fnT, args := e.callOperands(fr, st, x)
				e.goCall(fr, st, x, fnT, args)
			case *ssa.Lookup:
				if cases := e.lookupCases(fr, st, x); cases != nil {
					for _, s := range cases {
						exec(i+1, s)
					}
					return
				}
				if !e.instr(fr, st, ins) {
					return
				}
			case *ssa.Call:
				fnT, args := e.callOperands(fr, st, x)
				if e.OnCall != nil && e.quiet == 0 {
					e.OnCall(st, x, fnT, args)
				}
				outs := e.invokeTerm(fr, st, x, fnT, args)
				if e.TrackErrs {
					e.trackErr(x, fnT, outs)
				}
				if len(outs) == 1 {
					st = outs[0].st
					st.setReg(x, tuple(outs[0].res))
					continue
				}
				for _, o := range outs {
					o.st.setReg(x, tuple(o.res))
					exec(i+1, o.st)
				}
				return
			default:
				if !e.instr(fr, st, ins) {
					return
				}
			}
		}
	}
	// a block owns its state
	exec(0, st.clone())
	return out
}

// trackErr records the error result of a call.
func (e *Engine) trackErr(c *ssa.Call, fnT *Term, outs []*Outcome) {
	rs := c.Call.Signature().Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
		return
	}
	name := fnT.S
	if f := c.Call.StaticCallee(); f != nil {
		name = fnName(f)
	} else if c.Call.IsInvoke() {
		name = "(" + c.Call.Value.Type().String() + ")." + c.Call.Method.Name()
	}
	if name == "(io.ReadCloser).Close" {
		return // nothing is lost when closing what was only read fails
	}
	if e.OnErr != nil {
		e.OnErr(name, e.p.pos(c.Pos()))
	}
	for _, o := range outs {
		if len(o.res) == rs.Len() {
			if t := o.res[len(o.res)-1]; t != tNil {
				o.st.addErr(t, name)
			}
		}
	}
}

func (s *State) setReg(v ssa.Value, t *Term) {
	n := make(map[ssa.Value]*Term, len(s.regs)+1)
	for k, x := range s.regs {
		n[k] = x
	}
	n[v] = t
	s.regs = n
}

func tuple(res []*Term) *Term {
	if len(res) == 1 {
		return res[0]
	}
	return mk("tuple", "", res...)
}

// edge moves a state along a control-flow edge: it assigns the phis of the
// target and forgets dead registers.
func (e *Engine) edge(fr *frame, b *ssa.BasicBlock, succ int, st *State) edgeState {
	to := b.Succs[succ]
	// which predecessor edge is it (a block may have two edges to one target)
	pi := -1
	if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
		n := 0
		for i, p := range to.Preds {
			if p == b {
				if n == succ {
					pi = i
				}
				n++
			}
		}
	} else {
		pi = predIndex(to, b)
	}
	live := fr.info.live[to]
	regs := make(map[ssa.Value]*Term, len(live))
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(fr, st, ph.Edges[pi])
		if v.T == nil {
			v.T = ph.Type()
		}
		// boolean registers take their known value
		if isBoolType(ph.Type()) && !v.isConst() {
			switch st.facts.eval(v) {
			case 1:
				v = tTrue
			case -1:
				v = tFalse
			}
		}
		regs[ph] = v
	}
	for v := range live {
		if _, ok := regs[v]; ok {
			continue
		}
		if t, ok := st.regs[v]; ok {
			regs[v] = t
		}
	}
	st.regs = regs
	return edgeState{to, st}
}

// ---- loops ----------------------------------------------------------------

func (e *Engine) loopID(fr *frame, l *loop) int {
	k := fmt.Sprintf("loop/%d/%p", fr.ctx, l.head)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	lastCtx++
	c := lastCtx
	e.ctxs[k] = c
	return c
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, ph)
	}
	return r
}

func (e *Engine) lv(fr *frame, l *loop, id int, ph *ssa.Phi) *Term {
	outer := append([]int(nil), fr.loops...)
	outer = append(outer, id)
	return mkL(outer, ph.Type(), "lv", fmt.Sprintf("%d:%s", id, ph.Name()))
}

// guardKnown tells whether the condition controlling the loop is decided in
// the given state, so that the loop can be followed iteration by iteration.
func (e *Engine) guardKnown(fr *frame, l *loop, st *State) bool {
	h := l.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[h.Succs[0]] && l.blocks[h.Succs[1]] {
		return false
	}
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef, *ssa.Next, *ssa.Extract:
		case *ssa.Call:
			if _, ok := ins.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		default:
			return false
		}
	}
	s := st.clone()
	e.quiet++
	defer func() { e.quiet-- }()
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.Call:
			fnT, args := e.callOperands(fr, s, x)
			o := e.invokeTerm(fr, s, x, fnT, args)
			if len(o) != 1 {
				return false
			}
			s = o[0].st
			s.setReg(x, tuple(o[0].res))
		default:
			if !e.instr(fr, s, ins) {
				return false
			}
		}
	}
	return s.facts.eval(e.val(fr, s, iff.Cond)) != 0
}

type headerEntry struct {
	st    *State
	backs []*State
	tos   []string // the header entries that the backs lead to
	exits []edgeState
	last  []edgeState // left after an iteration that set a flag
	dirty bool
	first map[*ssa.Phi]*Term // initial counters, when only reached from outside
}

// checkStart is the time at which the running check began.
var checkStart = time.Now()

// grows tells that a value of a loop may change for ever: it is made of the
// previous one, or took many symbolic values already.
func grows(v, old *Term, n int, at func(int) *Term) bool {
	if v == nil || old == nil || v == old || v.isConst() || old.isConst() {
		return false
	}
	seen := map[*Term]bool{}
	for i := 0; i < n; i++ {
		if t := at(i); t != nil && !t.isConst() {
			seen[t] = true
		}
	}
	return len(seen) >= 12 || len(seen) >= 3 && contains(v, old)
}

func (e *Engine) runLoop(fr *frame, l *loop, ins []*State) []edgeState {
	id := e.loopID(fr, l)
	fr.loops = append(fr.loops, id)
	defer func() { fr.loops = fr.loops[:len(fr.loops)-1] }()
	var exits []edgeState
	var widened []*State
	// follow loops whose guard is decided at every iteration
	work := append([]*State(nil), ins...)
	iters := 0
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if iters > 400 || !e.guardKnown(fr, l, s) {
			widened = append(widened, s)
			continue
		}
		iters++
		back, ex := e.region(fr, l, l.blocks, l.head, []*State{s})
		exits = append(exits, ex...)
		ss := &stateSet{cap: stateCap, forced: &e.forced}
		for _, b := range back {
			ss.add(b)
		}
		work = append(work, ss.list...)
	}
	if len(widened) > 0 {
		if ex, ok := e.padLoop(fr, l, widened); ok {
			return append(exits, ex...)
		}
	}
	if len(widened) == 0 {
		return exits
	}
	if len(widened) > 1 && len(widened) <= 64 {
		// alternatives are followed one by one
		for _, s := range widened {
			exits = append(exits, e.fixLoop(fr, l, id, []*State{s})...)
		}
		return exits
	}
	return append(exits, e.fixLoop(fr, l, id, widened)...)
}

// padLoop recognises a loop that does nothing but put a character before (or
// after) a text until it has a given length.
func (e *Engine) padLoop(fr *frame, l *loop, ins []*State) ([]edgeState, bool) {
	h := l.head
	phis := headPhis(h)
	if len(phis) != 1 || len(l.blocks) != 2 || len(h.Instrs) != 4 {
		return nil, false
	}
	ph := phis[0]
	if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return nil, false
	}
	ln, ok := h.Instrs[1].(*ssa.Call)
	if !ok || len(ln.Call.Args) != 1 || ln.Call.Args[0] != ph {
		return nil, false
	}
	if b, ok := ln.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil, false
	}
	cmp, ok := h.Instrs[2].(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.X != ln {
		return nil, false
	}
	switch y := cmp.Y.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
	case ssa.Instruction:
		if l.blocks[y.Block()] {
			return nil, false
		}
	default:
		return nil, false
	}
	iff, ok := h.Instrs[3].(*ssa.If)
	if !ok || iff.Cond != cmp || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return nil, false
	}
	body := h.Succs[0]
	if len(body.Instrs) != 2 {
		return nil, false
	}
	add, ok := body.Instrs[0].(*ssa.BinOp)
	if !ok || add.Op != token.ADD {
		return nil, false
	}
	k, before := add.X.(*ssa.Const)
	other := add.Y
	if !before {
		k, ok = add.Y.(*ssa.Const)
		other = add.X
		if !ok {
			return nil, false
		}
	}
	if other != ph || k.Value == nil || k.Value.Kind() != constant.String || len(constant.StringVal(k.Value)) != 1 {
		return nil, false
	}
	for i, p := range h.Preds {
		if l.blocks[p] && ph.Edges[i] != add {
			return nil, false
		}
	}
	var exits []edgeState
	for _, s := range ins {
		v := s.regs[ph]
		if v == nil {
			return nil, false
		}
		n := e.val(fr, s, cmp.Y)
		lt := mkLt(e.lenOf(s, v), n)
		long, short := s.clone(), s.clone()
		if long.facts.assume(lt, false) {
			exits = append(exits, edgeState{h.Succs[1], long})
		}
		if short.facts.assume(lt, true) {
			pad := mkT(types.Typ[types.String], "pure", "strings.Repeat", mkStr(constant.StringVal(k.Value)), mkT(types.Typ[types.Int], "bin", "-", n, e.lenOf(s, v)))
			if before {
				v = mkConcat(types.Typ[types.String], pad, v)
			} else {
				v = mkConcat(types.Typ[types.String], v, pad)
			}
			short.setReg(ph, v)
			exits = append(exits, edgeState{h.Succs[1], short})
		}
	}
	return exits, true
}

// fixLoop follows a loop until nothing new happens.
func (e *Engine) fixLoop(fr *frame, l *loop, id int, widened []*State) []edgeState {
	var exits []edgeState
	phis := headPhis(l.head)
	tab := map[string]*headerEntry{}
	var order []string
	add := func(s *State, first map[*ssa.Phi]*Term) string {
		k := s.key()
		he := tab[k]
		if he == nil {
			he = &headerEntry{st: s, dirty: true, first: first}
			tab[k] = he
			order = append(order, k)
			return k
		}
		for ph, v := range he.first {
			if first[ph] != v {
				delete(he.first, ph)
			}
		}
		if he.st.facts.subsetOf(s.facts) {
			return k
		}
		m := meet([]*Facts{he.st.facts, s.facts})
		n := he.st.clone()
		n.facts = m
		he.st = n
		he.dirty = true
		return k
	}
	for _, s := range widened {
		s = s.clone()
		first := map[*ssa.Phi]*Term{}
		for _, ph := range phis {
			if isIntType(ph.Type()) {
				if v := s.regs[ph]; v.isConst() {
					first[ph] = v
				}
				s.regs[ph] = e.lv(fr, l, id, ph)
			}
		}
		add(s, first)
	}
	heads := func() (l []*State) {
		for _, k := range order {
			l = append(l, tab[k].st)
		}
		return l
	}
	rounds := 0
	wide := false
	for {
		var cur *headerEntry
		for _, k := range order {
			if tab[k].dirty {
				cur = tab[k]
				break
			}
		}
		if cur == nil {
			break
		}
		rounds++
		if rounds > 400 {
			bail("loop does not stabilise in %s", fr.fn)
		}
		if len(order) > 60 {
			wide = true
		}
		cur.dirty = false
		cur.backs, cur.tos, cur.exits, cur.last = nil, nil, nil, nil
		hst := cur.st
		start := hst.clone()
		for _, c := range e.counters(fr, start, l, id, phis) {
			start.facts.assume(c, false)
		}
		back, ex := e.region(fr, l, l.blocks, l.head, []*State{start})
		cur.exits = ex
		flags := e.splitFlags(l, id, phis, hst, back)
		for _, b := range flags {
			if e.OnBack != nil && e.quiet == 0 {
				vals := map[*ssa.Phi]*Term{}
				for _, ph := range phis {
					vals[ph] = b.regs[ph]
				}
				e.BackFrom = hst
				e.OnBack(b, fr, l.head, vals)
			}
			if len(flags) > len(back) {
				// a flag that ends the loop: what the iteration established is kept
				e.quiet++
				again, _ := e.region(fr, l, l.blocks, l.head, []*State{b.clone()})
				e.quiet--
				if len(again) == 0 {
					_, ex := e.region(fr, l, l.blocks, l.head, []*State{b.clone()})
					cur.last = append(cur.last, ex...)
					continue
				}
			}
			cur.backs = append(cur.backs, b)
			cur.tos = append(cur.tos, add(e.abstractBack(fr, l, id, phis, hst, b, wide, heads()), nil))
		}
	}
	var all []*State
	for _, k := range order {
		all = append(all, tab[k].backs...)
	}
	var visits []universal
	for _, u := range e.universals(fr, l, id, phis, all) {
		if u.fact.Op == "visited" {
			visits = append(visits, u)
		}
	}
	parts := func(b *State) map[*Term]*Term {
		for _, k := range order {
			for _, s := range tab[k].backs {
				if s == b {
					return e.setParts(id, tab[k].st, b)
				}
			}
		}
		return nil
	}
	lists := map[*ssa.Phi]*Term{}
	if len(visits) > 0 {
		for _, ph := range phis {
			if t := e.selected(id, ph, order, tab); t != nil {
				lists[ph] = t
			}
		}
	}
	// what holds for every element, and the lists that grow
	every := map[*Term]bool{}
	slices := 0
	if len(lists) > 0 {
		for _, ph := range phis {
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				slices++
			}
		}
		for _, u := range e.universals(fr, l, id, phis, all) {
			every[u.fact] = true
		}
	}
	for _, k := range order {
		// what held for every completed iteration over a sequence that can lead here
		uni := append(e.universals(fr, l, id, phis, backsTo(tab, order, k)), visits...)
		exits = append(exits, tab[k].last...)
		for _, x := range tab[k].exits {
			possible := true
			for ph, v := range tab[k].first {
				lv := e.lv(fr, l, id, ph)
				possible = possible && x.st.facts.assume(mkEq(lv, v), true)
				var more []*Term
				n, isInt := v.int()
				for c, pol := range x.st.facts.m {
					if c.Op != "lt" || !isInt {
						continue
					}
					a, b := c.Args[0], c.Args[1]
					if p, k := splitPlus(a); p == lv {
						a = mkInt(n + k)
					}
					if p, k := splitPlus(b); p == lv {
						b = mkInt(n + k)
					}
					if a != c.Args[0] || b != c.Args[1] {
						c = mkLt(a, b)
						if !pol {
							c = mkNot(c)
						}
						more = append(more, c)
					}
				}
				for _, c := range more {
					possible = possible && x.st.facts.assume(c, true)
				}
			}
			if !possible {
				continue
			}
			for _, u := range uni {
				if x.st.facts.eval(u.guard) == -1 {
					x.st.facts.m[u.fact] = true
				}
			}
			known := 0
			for ph, t := range lists {
				for _, u := range visits {
					if u.fact.Args[0] == t.Args[0] && x.st.facts.eval(u.guard) == -1 {
						x.st.regs[ph] = mkRetyped(t, ph.Type())
						known++
						break
					}
				}
			}
			if known > 0 && known == slices {
				// which elements were met does not matter any more
				for c, pol := range x.st.facts.m {
					before := every[c]
					for _, s := range widened {
						w, ok := s.facts.m[c]
						before = before || ok && w == pol
					}
					if !before {
						delete(x.st.facts.m, c)
					}
				}
				x.st.facts.uf = nil
			}
			if len(all) > 0 {
				// nothing was recorded of a sequence without elements
				for m, seq := range parts(all[0]) {
					if x.st.mem[m] == nil {
						x.st.mem[m] = mk("setpart", strconv.Itoa(id), m, seq)
					}
				}
			}
			for m, v := range x.st.mem {
				if v.Op != "setpart" || v.S != strconv.Itoa(id) {
					continue
				}
				whole := len(visits) > 0
				for _, b := range all {
					whole = whole && parts(b)[m] == v.Args[1]
				}
				done := false
				for _, u := range visits {
					done = done || u.fact.Args[0] == v.Args[1] && x.st.facts.eval(u.guard) == -1
				}
				if whole && done {
					x.st.mem[m] = mk("setof", "", m, v.Args[1])
				} else {
					x.st.mem[m] = mk("mapmix", "", m, v.Args[1], tTrue)
				}
			}
			exits = append(exits, x)
		}
	}
	return exits
}

// counters relates the counters of a loop: one that grows by at most one when another always grows by
// one stays at most as far ahead as at the start. The terms are known to be false.
func (e *Engine) counters(fr *frame, st *State, l *loop, id int, phis []*ssa.Phi) []*Term {
	type ctr struct {
		ph     *ssa.Phi
		init   int64
		always bool
	}
	var cs []ctr
	for _, ph := range phis {
		if !isIntType(ph.Type()) {
			continue
		}
		c := ctr{ph: ph, always: true}
		ok, set := true, false
		for i, p := range l.head.Preds {
			v := ph.Edges[i]
			if !l.blocks[p] {
				k, isC := v.(*ssa.Const)
				if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
					ok = false
					break
				}
				n, _ := constant.Int64Val(k.Value)
				ok = ok && (!set || n == c.init)
				c.init, set = n, true
				continue
			}
			seen := map[ssa.Value]bool{}
			var step func(v ssa.Value)
			step = func(v ssa.Value) {
				if seen[v] || !ok {
					return
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Phi:
					if x == ph {
						c.always = false
						return
					}
					if !l.blocks[x.Block()] {
						ok = false
						return
					}
					for _, y := range x.Edges {
						step(y)
					}
				case *ssa.BinOp:
					k, isC := x.Y.(*ssa.Const)
					ok = ok && x.Op == token.ADD && x.X == ssa.Value(ph) && isC && isOne(k)
				default:
					ok = false
				}
			}
			step(v)
		}
		if ok && set {
			cs = append(cs, c)
		}
	}
	var out []*Term
	// a counter of the elements is at most their number
	if _, idx, list := headTest(l.head); idx != nil {
		if li, isI := list.(ssa.Instruction); !isI || !l.blocks[li.Block()] {
			off := int64(0)
			if b, isB := idx.(*ssa.BinOp); isB && b.Op == token.ADD {
				if k, isC := b.Y.(*ssa.Const); isC && isOne(k) {
					idx, off = b.X, 1
				}
			}
			for _, c := range cs {
				if ssa.Value(c.ph) == idx && c.always && c.init+off <= 0 && st.regs[list] != nil {
					out = append(out, mkLt(e.lenOf(st, st.regs[list]), mkPlus(e.lv(fr, l, id, c.ph), off)))
				}
			}
		}
	}
	for _, a := range cs {
		for _, b := range cs {
			if a.ph != b.ph && b.always {
				out = append(out, mkLt(mkPlus(e.lv(fr, l, id, b.ph), a.init-b.init), e.lv(fr, l, id, a.ph)))
			}
		}
	}
	return out
}

// backsTo collects the completed iterations that can precede a header state.
func backsTo(tab map[string]*headerEntry, order []string, k string) []*State {
	reach := map[string]bool{k: true}
	for ch := true; ch; {
		ch = false
		for _, o := range order {
			if reach[o] {
				continue
			}
			for _, t := range tab[o].tos {
				if reach[t] {
					reach[o], ch = true, true
				}
			}
		}
	}
	var l []*State
	for _, o := range order {
		for i, b := range tab[o].backs {
			if reach[tab[o].tos[i]] {
				l = append(l, b)
			}
		}
	}
	return l
}

// splitFlags decides, at the end of an iteration, the flags that carry over to the next one.
func (e *Engine) splitFlags(l *loop, id int, phis []*ssa.Phi, hst *State, backs []*State) []*State {
	var out []*State
	for _, b := range backs {
		list := []*State{b}
		split := func(v *Term) {
			if len(list) > 4 || v == nil || v.isConst() || !v.inLoop(id) || v.Op == "lv" || v.Op == "lvmem" {
				return
			}
			var n []*State
			for _, s := range list {
				if s.facts.eval(v) != 0 {
					n = append(n, s)
					continue
				}
				for _, pol := range []bool{true, false} {
					c := s.clone()
					if c.facts.assume(v, pol) {
						n = append(n, c)
					}
				}
			}
			list = n
		}
		for _, ph := range phis {
			if isBoolType(ph.Type()) {
				split(b.regs[ph])
			}
		}
		var flags []*Term
		for a, v := range b.mem {
			if v.T != nil && isBoolType(v.T) && !a.inLoop(id) && hst.mem[a] != v {
				flags = append(flags, v)
			}
		}
		sort.Slice(flags, func(i, j int) bool { return flags[i].id < flags[j].id })
		for _, v := range flags {
			split(v)
		}
		out = append(out, list...)
	}
	return out
}

type universal struct {
	guard *Term // holds while there are elements left
	fact  *Term
}

// universals computes facts established for every element of a sequence by
// a loop that visits all of them in order.
func (e *Engine) universals(fr *frame, l *loop, id int, phis []*ssa.Phi, backs []*State) []universal {
	h := l.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || len(backs) == 0 {
		return nil
	}
	_ = iff
	var out []universal
	for _, ph := range phis {
		if !isIntType(ph.Type()) {
			continue
		}
		lv := e.lv(fr, l, id, ph)
		// initial value and step
		init, step := int64(99), true
		for i, p := range h.Preds {
			if l.blocks[p] {
				continue
			}
			c, ok := ph.Edges[i].(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				step = false
				break
			}
			init, _ = constant.Int64Val(c.Value)
		}
		if !step || (init != -1 && init != 0) {
			continue
		}
		for _, b := range backs {
			if b.regs[ph] != mkPlus(lv, 1) {
				step = false
			}
		}
		if !step {
			continue
		}
		cur := lv
		if init == -1 {
			cur = mkPlus(lv, 1)
		}
		// sequences indexed by cur
		seqs := map[*Term]bool{}
		for _, b := range backs {
			for c := range b.facts.m {
				walk(c, func(t *Term) bool {
					if t.Op == "ia" {
						for s, i := t.Args[0], t.Args[1]; ; s, i = i.Args[0], i.Args[1] {
							if i == cur && !s.inLoop(id) {
								seqs[s] = true
							}
							if i.Op != "fidx" {
								break
							}
						}
					}
					if t.Op == "idx" && t.Args[1] == cur && !t.Args[0].inLoop(id) {
						seqs[t.Args[0]] = true
					}
					return true
				})
			}
		}
		for _, b := range backs {
			for a := range b.mem {
				if a.Op == "mapent" && a.Args[0].Op == "mkmap" {
					k := a.Args[1]
					if k.Op == "sel" && k.Args[0].Op == "ia" {
						k = k.Args[0]
					}
					if (k.Op == "ia" || k.Op == "idx") && k.Args[1] == cur && !k.Args[0].inLoop(id) {
						seqs[k.Args[0]] = true
					}
				}
			}
		}
		for s := range seqs {
			guard := mkLt(cur, e.lenOf(nil, s))
			var common map[*Term]bool
			for _, b := range backs {
				set := map[*Term]bool{}
				for c, pol := range b.facts.m {
					if !c.inLoop(id) {
						continue
					}
					g := substElem(c, s, cur)
					if g == c || g.inLoop(id) {
						continue
					}
					if !pol {
						g = mkNot(g)
					}
					set[mkT(types.Typ[types.Bool], "forall", "", s, g)] = true
				}
				if common == nil {
					common = set
				} else {
					for k := range common {
						if !set[k] {
							delete(common, k)
						}
					}
				}
			}
			for f := range common {
				out = append(out, universal{guard, f})
			}
			visited := mkT(types.Typ[types.Bool], "visited", "", s)
			out = append(out, universal{guard, visited})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fact.id < out[j].fact.id })
	return out
}

// substElem replaces the current element of seq by a hole.
func substElem(t, seq, cur *Term) *Term {
	if t.Op == "sel" && t.Args[0].Op == "ia" && t.Args[0].Args[0] == seq && t.Args[0].Args[1] == cur {
		return tHole
	}
	if t.Op == "idx" && t.Args[0] == seq && t.Args[1] == cur {
		return tHole
	}
	if t.Op == "ia" && t.Args[0] == seq && t.Args[1] == cur {
		return mk("holeaddr", "")
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substElem(a, seq, cur)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "not":
		return mkNot(args[0])
	}
	if t.Op == "pure" && t.S == "strings.EqualFold" && args[0].id > args[1].id {
		args[0], args[1] = args[1], args[0]
	}
	// rebuild without the loop tags of the original
	n := mkT(t.T, t.Op, t.S, args...)
	return n
}

// abstractBack turns a state at the end of an iteration into a header state
// for the next one.
func (e *Engine) abstractBack(fr *frame, l *loop, id int, phis []*ssa.Phi, hst, b *State, wide bool, heads []*State) *State {
	n := b.clone()
	n.pruneErrs()
	var seen []*Term
	for _, ph := range phis {
		v := n.regs[ph]
		lv := e.lv(fr, l, id, ph)
		if !wide {
			if f, known := e.filtered(fr, l, id, ph, hst, b); f != nil {
				n.regs[ph] = f
				seen = append(seen, known...)
				continue
			}
		}
		switch {
		case isIntType(ph.Type()):
			n.regs[ph] = lv
		case v.isConst() && !wide:
		case v == lv:
		case wide:
			n.regs[ph] = lv
		case grows(v, hst.regs[ph], len(heads), func(i int) *Term { return heads[i].regs[ph] }):
			n.regs[ph] = lv // a value that would grow for ever
		case !v.inLoop(id):
			// loop invariant value
		default:
			if n.facts.eval(mkEq(v, tNil)) == 1 {
				n.regs[ph] = tNil
			} else if k := n.facts.eval(v); k != 0 && isBoolType(ph.Type()) {
				n.regs[ph] = mkBool(k == 1)
			} else {
				n.regs[ph] = lv
			}
		}
	}
	for m, seq := range e.setParts(id, hst, b) {
		for a := range n.mem {
			if a.Op == "mapent" && a.Args[0] == m {
				delete(n.mem, a)
			}
		}
		n.mem[m] = mk("setpart", strconv.Itoa(id), m, seq)
	}
	for a, v := range n.mem {
		if a.inLoop(id) {
			// local to the iteration; referenced only through renamed values
			if r := rootOf(a); r.inLoop(id) {
				delete(n.mem, a)
				continue
			}
			delete(n.mem, a)
			// a store at a loop dependent address of an older object
			r := rootOf(a)
			if isFresh(r) {
				e.setContent(n, r, mkL([]int{id}, r.T, "lvmem", strconv.Itoa(id), r))
			} else {
				n.ep[n.epKey(a)]++
				if n.ep[n.epKey(a)] > hst.ep[n.epKey(a)]+1 {
					n.ep[n.epKey(a)] = hst.ep[n.epKey(a)] + 1
				}
			}
			continue
		}
		if v.inLoop(id) || wide || grows(v, hst.mem[a], len(heads), func(i int) *Term { return heads[i].mem[a] }) {
			if ov, ok := hst.mem[a]; ok && ov == v && !wide {
				continue
			}
			if !wide && n.facts.eval(mkEq(v, tNil)) == 1 {
				n.mem[a] = tNil
				continue
			}
			if k := n.facts.eval(v); !wide && k != 0 && v.T != nil && isBoolType(v.T) {
				n.mem[a] = mkBool(k == 1)
				continue
			}
			lt := append(append([]int(nil), fr.loops...), id)
			n.mem[a] = mkL(lt, v.T, "lvmem", strconv.Itoa(id), a)
		}
	}
	// epochs advanced by the loop must not advance for ever
	for k, v := range n.ep {
		if v > hst.ep[k] {
			n.ep[k] = loopEpoch(id, hst.ep[k])
		}
	}
	if n.gep > hst.gep {
		n.gep = loopEpoch(id, hst.gep)
	}
	for c, pol := range n.facts.m {
		if c.inLoop(id) || mentionsEpoch(c, id) {
			if m := e.membership(b, c, id); pol && m != nil {
				seen = append(seen, m)
			}
			delete(n.facts.m, c)
		}
	}
	for _, m := range seen {
		n.facts.m[m] = true
	}
	n.facts.uf = nil
	// events of the iteration only may have happened
	if n.trace != hst.trace {
		for t := n.trace; t != hst.trace && len(t.Args) == 2; t = t.Args[1] {
			n.may[t.Args[0]] = true
		}
		n.trace = hst.trace
	}
	// registers computed inside the loop
	for v, t := range n.regs {
		if _, ok := v.(*ssa.Phi); ok {
			continue
		}
		_ = t
	}
	return n
}

// selected recognises a list to which every iteration adds the current element of a sequence unless it
// equals a value.
func (e *Engine) selected(id int, ph *ssa.Phi, order []string, tab map[string]*headerEntry) *Term {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	var seq, cur *Term
	var keep, drop []*State
	for _, k := range order {
		head := tab[k].st.regs[ph]
		if head == nil {
			return nil
		}
		if head.Op != "filt" && head.Op != "nil" && e.lenOf(tab[k].st, head) != mkInt(0) {
			return nil
		}
		for _, b := range tab[k].backs {
			v := b.regs[ph]
			if v == head {
				drop = append(drop, b)
				continue
			}
			var elem *Term
			switch {
			case v == nil:
				return nil
			case v.Op == "append" && v.Args[0] == head && v.Args[1].Op == "arr" && len(v.Args[1].Args) == 1:
				elem = v.Args[1].Args[0]
			case v.Op == "arr" && len(v.Args) == 1 && head.Op != "filt":
				elem = v.Args[0]
			}
			if elem == nil {
				return nil
			}
			at := elem
			if elem.Op == "sel" && elem.Args[0].Op == "ia" {
				at = elem.Args[0]
			}
			if at.Op != "ia" && at.Op != "idx" || at.Args[0].inLoop(id) || mentionsEpoch(elem, id) {
				return nil
			}
			if seq == nil {
				seq, cur = at.Args[0], at.Args[1]
			}
			if at.Args[0] != seq || at.Args[1] != cur {
				return nil
			}
			keep = append(keep, b)
		}
	}
	if seq == nil || seq.Op == "alloc" {
		return nil
	}
	return without(seq, cur, id, keep, drop)
}

// setParts finds the maps in which an iteration records the current element of a sequence, and only such
// elements since the start of the loop.
func (e *Engine) setParts(id int, hst, b *State) map[*Term]*Term {
	var out map[*Term]*Term
	for m, v := range b.mem {
		if m.Op != "mkmap" || v.Op != "mapmix" || m.inLoop(id) {
			continue
		}
		was := hst.mem[m]
		if was != nil && (was.Op != "setpart" || was.S != strconv.Itoa(id)) {
			continue
		}
		var seq *Term
		ok := true
		for a, v := range hst.mem {
			ok = ok && (a.Op != "mapent" || a.Args[0] != m || v == nil)
		}
		for a, v := range b.mem {
			if a.Op != "mapent" || a.Args[0] != m {
				continue
			}
			k := a.Args[1]
			var s, cur *Term
			switch {
			case k.Op == "sel" && k.Args[0].Op == "ia":
				s, cur = k.Args[0].Args[0], k.Args[0].Args[1]
			case k.Op == "idx":
				s, cur = k.Args[0], k.Args[1]
			}
			if s == nil || s.inLoop(id) || mentionsEpoch(k, id) || seq != nil || b.facts.eval(mkLt(cur, e.lenOf(nil, s))) != 1 {
				ok = false
				break
			}
			if v != tTrue && (v.T == nil || !isEmptyStruct(v.T)) {
				ok = false
				break
			}
			seq = s
		}
		if !ok || seq == nil || was != nil && was.Args[1] != seq || v.Args[1] == nil {
			continue
		}
		if out == nil {
			out = map[*Term]*Term{}
		}
		out[m] = seq
	}
	return out
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// membership turns the equality of the current element of an invariant sequence with an invariant
// value into the membership of the value.
func (e *Engine) membership(st *State, c *Term, id int) *Term {
	fold := c.Op == "pure" && c.S == "strings.EqualFold"
	if c.Op != "eq" && !fold {
		return nil
	}
	for i, x := range c.Args {
		y := c.Args[1-i]
		if y.inLoop(id) || mentionsEpoch(y, id) {
			continue
		}
		var seq, cur *Term
		switch {
		case x.Op == "sel" && x.Args[0].Op == "ia":
			seq, cur = x.Args[0].Args[0], x.Args[0].Args[1]
		case x.Op == "idx":
			seq, cur = x.Args[0], x.Args[1]
		}
		if seq == nil || seq.inLoop(id) || mentionsEpoch(x, id) || st.facts.eval(mkLt(cur, e.lenOf(nil, seq))) != 1 {
			continue
		}
		if m := containsTerm(seq, y, fold); !m.isConst() {
			return m
		}
	}
	return nil
}

// loopEpoch numbers the memory version at the header of a loop that writes
// memory.
func loopEpoch(id, base int) int {
	if base >= id*1000 && base < (id+1)*1000 {
		return base
	}
	return id * 1000
}

func mentionsEpoch(c *Term, id int) bool {
	found := false
	walk(c, func(t *Term) bool {
		if t.Op == "sel" && t.S != "" {
			if n, err := strconv.Atoi(t.S); err == nil && n >= id*1000 && n < (id+1)*1000 {
				found = true
			}
		}
		return !found
	})
	return found
}

// ---- instructions ---------------------------------------------------------

func (e *Engine) allocTerm(fr *frame, op string, ins ssa.Instruction, t types.Type, args ...*Term) *Term {
	name := ""
	if v, ok := ins.(ssa.Value); ok {
		name = v.Name()
	}
	return mkL(fr.loops, t, op, fmt.Sprintf("%s.%s#%d", fr.fn.Name(), name, fr.ctx), args...)
}

// instr executes a simple instruction; false ends the path.
func (e *Engine) instr(fr *frame, st *State, ins ssa.Instruction) bool {
	set := func(t *Term) {
		v := ins.(ssa.Value)
		if t.T == nil {
			t.T = v.Type()
		}
		st.setReg(v, t)
	}
	if e.OnHazard != nil && e.quiet == 0 {
		e.hazards(fr, st, ins)
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := e.allocTerm(fr, "alloc", x, deref(x.Type()))
		// a new variable starts zeroed
		e.kill(st, a)
		delete(st.mem, a)
		set(a)
	case *ssa.UnOp:
		v := e.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			if e.isNilTerm(st, v) {
				if e.OnDeref != nil && e.quiet == 0 {
					e.OnDeref(st, v, fr, ins)
				}
				return false
			}
			if e.OnDeref != nil && e.quiet == 0 {
				e.OnDeref(st, v, fr, ins)
			}
			if e.OnLoad != nil && e.quiet == 0 {
				e.OnLoad(st, v, fr, ins)
			}
			set(e.load(st, v, x.Type()))
		case token.NOT:
			set(mkNot(v))
		case token.SUB:
			if i, ok := v.int(); ok {
				set(mkInt(-i))
			} else {
				set(mkT(x.Type(), "neg", "", v))
			}
		case token.ARROW:
			set(mkL(fr.loops, x.Type(), "recv", fmt.Sprintf("%d.%s", fr.ctx, x.Name())))
		default:
			set(mkT(x.Type(), "unop", x.Op.String(), v))
		}
	case *ssa.BinOp:
		a, b := e.val(fr, st, x.X), e.val(fr, st, x.Y)
		if e.OnCmp != nil && e.quiet == 0 && (x.Op == token.EQL || x.Op == token.NEQ) {
			e.OnCmp(st, x.Op.String(), a, b, fr, ins)
		}
		set(e.binop(st, x.Op, a, b, x.Type()))
	case *ssa.Convert:
		set(e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(e.convert(st, e.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		set(e.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		set(e.val(fr, st, x.X))
	case *ssa.SliceToArrayPointer:
		set(mkT(x.Type(), "s2a", "", e.val(fr, st, x.X)))
	case *ssa.MakeInterface:
		v := e.val(fr, st, x.X)
		set(mkT(x.X.Type(), "iface", x.X.Type().String(), v))
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, e.val(fr, st, y))
		}
		f := x.Fn.(*ssa.Function)
		t := mkT(x.Type(), "closure", fnName(f), b...)
		t.Fn = f
		set(t)
	case *ssa.MakeMap:
		m := e.allocTerm(fr, "mkmap", x, x.Type())
		e.kill(st, m)
		delete(st.mem, m)
		set(m)
	case *ssa.MakeSlice:
		m := e.allocTerm(fr, "mkslice", x, x.Type(), e.val(fr, st, x.Len))
		e.kill(st, m)
		delete(st.mem, m)
		set(m)
	case *ssa.MakeChan:
		set(e.allocTerm(fr, "mkchan", x, x.Type()))
	case *ssa.FieldAddr:
		b := e.val(fr, st, x.X)
		if e.OnDeref != nil && e.quiet == 0 {
			e.OnDeref(st, b, fr, ins)
		}
		if e.isNilTerm(st, b) {
			return false
		}
		owner := deref(x.X.Type())
		f := owner.Underlying().(*types.Struct).Field(x.Field)
		set(mkFA(b, f, owner))
	case *ssa.Field:
		b := e.val(fr, st, x.X)
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		set(mkFld(b, f.Name(), f.Type()))
	case *ssa.IndexAddr:
		b := e.val(fr, st, x.X)
		i := e.val(fr, st, x.Index)
		if b.Op == "slc" {
			b = b.Args[0]
		}
		kept(st, b, i)
		if b.Op == "arr" {
			// elements of a known sequence
			if k, ok := i.int(); ok && int(k) < len(b.Args) && k >= 0 {
				a := mkIA(b, i)
				st.mem[a] = b.Args[k]
				set(a)
				break
			}
		}
		set(mkIA(b, i))
	case *ssa.Index:
		set(mkIdx(e.val(fr, st, x.X), e.val(fr, st, x.Index), x.Type()))
	case *ssa.Slice:
		set(e.slice(fr, st, x))
	case *ssa.Lookup:
		m, k := e.val(fr, st, x.X), e.val(fr, st, x.Index)
		if isStringType(x.X.Type()) {
			set(mkIdx(m, k, x.Type()))
			break
		}
		e.mapAccess(fr, st, "read", m, ins)
		mt := x.X.Type().Underlying().(*types.Map)
		v, ok := e.lookup(fr, st, m, k, mt.Elem())
		if n := rangeOf(k); n != nil && n.Args[0].Args[0] == m && st.mem[n] == mkInt(int64(st.ep["map"]+st.gep)) {
			// the entry the iteration is at
			v, ok = mkT(mt.Elem(), "res", "2", n), tTrue
		}
		if x.CommaOk {
			set(mk("tuple", "", v, ok))
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, st, x.Map), e.val(fr, st, x.Key), e.val(fr, st, x.Value)
		e.mapAccess(fr, st, "write", m, ins)
		e.mapStore(st, m, k, v)
		e.mapChange(st, m)
		if e.OnStore != nil && e.quiet == 0 {
			e.OnStore(st, mk("mapent", "", m, k), v, fr, ins)
		}
	case *ssa.Range:
		e.mapAccess(fr, st, "read", e.val(fr, st, x.X), ins)
		it := mkL(fr.loops, nil, "range", fmt.Sprintf("%d.%s", fr.ctx, x.Name()), e.val(fr, st, x.X))
		delete(st.mem, it)
		if _, known := e.mapEntries(st, it.Args[0]); known {
			st.mem[it] = mkInt(0)
		}
		set(it)
	case *ssa.Next:
		it := e.val(fr, st, x.Iter)
		if !x.IsString {
			e.mapAccess(fr, st, "read", it.Args[0], ins)
		}
		n := mkL(fr.loops, nil, "next", fmt.Sprintf("%d.%s", fr.ctx, x.Name()), it)
		tt := x.Type().(*types.Tuple)
		if i, on := st.mem[it]; on && i.Op == "const" {
			k, _ := i.int()
			if ents, known := e.mapEntries(st, it.Args[0]); !known {
				delete(st.mem, it)
			} else if int(k) < len(ents) {
				// the entries of a map made on this path, in the order of
				// their insertion
				st.mem[it] = mkInt(k + 1)
				set(mk("tuple", "", tTrue, ents[k].Args[1], st.mem[ents[k]]))
				break
			} else {
				set(mk("tuple", "", tFalse, zeroConst(tt.At(1).Type()), zeroConst(tt.At(2).Type())))
				break
			}
		}
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if r, ok := x.Iter.(*ssa.Range); ok {
			// parts that are not used have no type in the instruction
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				kt, vt = m.Key(), m.Elem()
				st.mem[n] = mkInt(int64(st.ep["map"] + st.gep))
			}
		}
		set(mk("tuple", "", mkT(tt.At(0).Type(), "res", "0", n), mkT(kt, "res", "1", n), mkT(vt, "res", "2", n)))
	case *ssa.TypeAssert:
		v := e.val(fr, st, x.X)
		val, ok := e.typeAssert(st, v, x.AssertedType)
		if x.CommaOk {
			set(mk("tuple", "", val, ok))
		} else {
			if st.facts.eval(ok) == -1 {
				return false
			}
			st.facts.assume(ok, true)
			set(val)
		}
	case *ssa.Extract:
		t := e.val(fr, st, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			set(t.Args[x.Index])
		} else {
			set(mkT(x.Type(), "res", strconv.Itoa(x.Index), t))
		}
	case *ssa.Store:
		a, v := e.val(fr, st, x.Addr), e.val(fr, st, x.Val)
		if e.OnDeref != nil && e.quiet == 0 {
			e.OnDeref(st, a, fr, ins)
		}
		if e.OnStore != nil && e.quiet == 0 {
			e.OnStore(st, a, v, fr, ins)
		}
		e.store(st, a, v, x.Val.Type())
	case *ssa.Send:
	case *ssa.Select:
		set(mkL(fr.loops, nil, "select", fmt.Sprintf("%d.%s", fr.ctx, x.Name())))
	default:
		bail("unsupported instruction %T in %s", ins, fr.fn)
	}
	return true
}

func (e *Engine) isNilTerm(st *State, v *Term) bool {
	if v.Op == "nil" {
		return true
	}
	if neverNil(v) || v.isConst() {
		return false
	}
	return st.facts.find(v).Op == "nil"
}

func (e *Engine) typeAssert(st *State, v *Term, t types.Type) (*Term, *Term) {
	if r := st.facts.find(v); r.Op == "iface" || r.Op == "nil" {
		v = r
	}
	if v.Op == "nil" {
		return zeroConst(t), tFalse
	}
	if v.Op == "iface" && v.T != nil {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return v, mkBool(types.Implements(v.T, it))
		}
		if types.Identical(v.T, t) {
			return v.Args[0], tTrue
		}
		return zeroConst(t), tFalse
	}
	if it, ok := t.Underlying().(*types.Interface); ok && v.T != nil && types.IsInterface(v.T) && types.Implements(v.T, it) {
		return v, mkNot(mkEq(v, tNil))
	}
	return mkT(t, "ta", t.String(), v), mkT(types.Typ[types.Bool], "isa", t.String(), v)
}

func (e *Engine) lookup(fr *frame, st *State, m, k *Term, et types.Type) (*Term, *Term) {
	if m.Op == "mkmap" {
		if v, ok := st.mem[mk("mapent", "", m, k)]; ok {
			return v, tTrue
		}
		if c := st.mem[m]; c != nil && c.Op == "setof" {
			only := true
			for a := range st.mem {
				only = only && (a.Op != "mapent" || a.Args[0] != m || distinctKeys(a.Args[1], k))
			}
			if has := containsTerm(c.Args[1], k, false); only {
				if isBoolType(et) {
					return has, has
				}
				return mkT(et, "lookup", "", m, k), has
			}
		} else if c == nil {
			known := k.isConst()
			empty := true
			for a := range st.mem {
				if a.Op == "mapent" && a.Args[0] == m {
					empty = false
					if !a.Args[1].isConst() {
						known = false
					}
				}
			}
			if known || empty {
				return zeroConst(et), tFalse
			}
		}
	}
	ep := ""
	if n := st.ep["map"] + st.gep; n != 0 {
		ep = strconv.Itoa(n)
	}
	return mkT(et, "lookup", ep, m, k), mkT(types.Typ[types.Bool], "has", ep, m, k)
}

// rangeOf returns the step of a map iteration a key comes from.
func rangeOf(k *Term) *Term {
	if k.Op == "res" && k.S == "1" && k.Args[0].Op == "next" && k.Args[0].Args[0].Op == "range" {
		return k.Args[0]
	}
	return nil
}

// mapEntries lists the entries of a map whose content is known.
func (e *Engine) mapEntries(st *State, m *Term) ([]*Term, bool) {
	if _, bad := st.mem[m]; m.Op != "mkmap" || bad {
		return nil, false
	}
	var ents []*Term
	for a := range st.mem {
		if a.Op == "mapent" && a.Args[0] == m {
			if !a.Args[1].isConst() {
				return nil, false
			}
			ents = append(ents, a)
		}
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].id < ents[j].id })
	return ents, len(ents) <= 64
}

// lookupCases follows the lookup of an unknown key in a map of known entries.
func (e *Engine) lookupCases(fr *frame, st *State, x *ssa.Lookup) []*State {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	switch mt.Elem().Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Struct, *types.Interface:
	default:
		return nil
	}
	m, k := e.val(fr, st, x.X), e.val(fr, st, x.Index)
	if k.isConst() {
		return nil
	}
	ents, known := e.mapEntries(st, m)
	if !known || len(ents) == 0 || len(ents) > 24 {
		return nil
	}
	e.mapAccess(fr, st, "read", m, x)
	set := func(s *State, v, has *Term) *State {
		if x.CommaOk {
			v = mk("tuple", "", v, has)
		}
		s.setReg(x, v)
		return s
	}
	var out []*State
	for _, a := range ents {
		c := mkEq(a.Args[1], k)
		if h := st.clone(); h.facts.assume(c, true) {
			out = append(out, set(h, st.mem[a], tTrue))
		}
		if !st.facts.assume(c, false) {
			return out
		}
	}
	return append(out, set(st, zeroConst(mt.Elem()), tFalse))
}

func (e *Engine) mapAccess(fr *frame, st *State, kind string, m *Term, ins ssa.Instruction) {
	if e.OnMap != nil && e.quiet == 0 {
		e.OnMap(st, kind, m, fr, ins)
	}
}

// distinctKeys tells whether two map keys certainly differ.
func distinctKeys(a, b *Term) bool {
	if a.Op == "iface" && b.Op == "iface" && a.S != b.S {
		return true
	}
	for a.Op == "iface" {
		a = a.Args[0]
	}
	for b.Op == "iface" {
		b = b.Args[0]
	}
	return a != b && a.isConst() && b.isConst()
}

// mapChange records that the content of a map that was not made on this path was changed: the map is
// no longer what its term says.
func (e *Engine) mapChange(st *State, m *Term) {
	if m.Op != "mkmap" {
		st.event(mk("call", evMapChange+"@0", m))
	}
}

const evMapChange = "builtin.mapchange"

func (e *Engine) mapStore(st *State, m, k, v *Term) {
	ent := mk("mapent", "", m, k)
	if !k.isConst() {
		for a := range st.mem {
			if a.Op == "mapent" && a.Args[0] == m && a != ent && !distinctKeys(a.Args[1], k) {
				delete(st.mem, a)
			}
		}
		if m.Op == "mkmap" && !(k.Op == "iface" && k.Args[0].isConst()) {
			st.mem[m] = mk("mapmix", "", m, k, v)
		}
	}
	if m.Op != "mkmap" {
		for a := range st.mem {
			if a.Op == "mapent" && a.Args[0].Op != "mkmap" && a != ent && !distinctKeys(a.Args[1], k) {
				delete(st.mem, a)
			}
		}
		st.ep["map"]++
	}
	st.mem[ent] = v
}

func (e *Engine) slice(fr *frame, st *State, x *ssa.Slice) *Term {
	b := e.val(fr, st, x.X)
	lo, hi := mkInt(0), tNil
	if x.Low != nil {
		lo = e.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = e.val(fr, st, x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		// slicing an array variable
		at := pt.Elem().Underlying().(*types.Array)
		if h, ok := hi.int(); ok && h == at.Len() {
			hi = tNil
		}
		full := mkT(x.Type(), "slc", "", b)
		if l, ok := lo.int(); ok && l == 0 && hi.Op == "nil" {
			return full
		}
		if h, ok := hi.int(); ok && h == 0 {
			if l, ok := lo.int(); ok && l == 0 {
				return mkT(x.Type(), "arr", "")
			}
		}
		return mkT(x.Type(), "pslice", "", full, lo, hi)
	}
	if x.High != nil {
		if h, ok := hi.int(); ok && h == 0 {
			return mkT(x.Type(), "arr", "")
		}
	}
	if b.Op == "mkslice" || b.Op == "slc" {
		if l, ok := lo.int(); ok && l == 0 && hi.Op == "nil" {
			return b
		}
		if l, ok := lo.int(); ok && l == 0 && b.Op == "mkslice" && hi == b.Args[0] {
			return b
		}
		return mkT(x.Type(), "pslice", "", b, lo, hi)
	}
	return mkSlice(b, lo, hi, x.Type())
}

func (e *Engine) lenOf(st *State, v *Term) *Term {
	switch v.Op {
	case "const":
		if s, ok := v.str(); ok {
			return mkInt(int64(len(s)))
		}
	case "nil":
		return mkInt(0)
	case "zero":
		if a, ok := v.T.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	case "arr":
		return mkInt(int64(len(v.Args)))
	case "slc":
		if a, ok := v.Args[0].T.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	case "alloc":
		if a, ok := v.T.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	case "mkslice":
		return v.Args[0]
	case "concat":
		n := int64(0)
		ok := true
		for _, a := range v.Args {
			l := e.lenOf(st, a)
			if i, o := l.int(); o {
				n += i
			} else {
				ok = false
			}
		}
		if ok {
			return mkInt(n)
		}
	case "pslice":
		lo, ok := v.Args[1].int()
		hi := v.Args[2]
		if hi.Op == "nil" {
			hi = e.lenOf(st, v.Args[0])
		}
		if ok {
			return mkPlus(hi, -lo)
		}
	case "mkmap":
		if st != nil {
			if _, mixed := st.mem[v]; !mixed {
				n := int64(0)
				for a := range st.mem {
					if a.Op == "mapent" && a.Args[0] == v {
						n++
					}
				}
				return mkInt(n)
			}
		}
	}
	if v.T != nil {
		if a, ok := v.T.Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	}
	return mkT(types.Typ[types.Int], "len", "", v)
}

func (e *Engine) binop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b)
	case token.NEQ:
		return mkNot(e.eqVal(st, a, b))
	case token.LSS:
		return mkLt(a, b)
	case token.GTR:
		return mkLt(b, a)
	case token.LEQ:
		return mkNot(mkLt(b, a))
	case token.GEQ:
		return mkNot(mkLt(a, b))
	case token.ADD:
		if isStringType(t) {
			return mkConcat(t, a, b)
		}
		if i, ok := b.int(); ok {
			return mkPlus(a, i)
		}
		if i, ok := a.int(); ok {
			return mkPlus(b, i)
		}
		if b.Op == "plus" {
			x, k := splitPlus(b)
			return mkPlus(e.binop(st, op, a, x, t), k)
		}
		if a.Op == "plus" {
			x, k := splitPlus(a)
			return mkPlus(e.binop(st, op, x, b, t), k)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mkT(t, "bin", "+", a, b)
	case token.SUB:
		if i, ok := b.int(); ok {
			return mkPlus(a, -i)
		}
	case token.MUL:
		if i, ok := a.int(); ok && i == 1 {
			return b
		}
		if i, ok := b.int(); ok && i == 1 {
			return a
		}
		if a.isConst() && !b.isConst() {
			a, b = b, a
		}
	}
	if a.Op == "const" && b.Op == "const" && a.V != nil && b.V != nil {
		if isIntType(t) {
			if v := safeBin(a.V, op, b.V); v != nil {
				return mkConst(v, t)
			}
		}
	}
	if op == token.AND {
		// equal contents have equal lengths
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			l, c := p[0], p[1]
			if l.S != "crypto/subtle.ConstantTimeEq" || c.S != "crypto/subtle.ConstantTimeCompare" || len(l.Args) != 2 || len(c.Args) != 2 {
				continue
			}
			x, y := stripConv(l.Args[0]), stripConv(l.Args[1])
			u, v := e.lenOf(nil, c.Args[0]), e.lenOf(nil, c.Args[1])
			if x == u && y == v || x == v && y == u {
				return c
			}
		}
	}
	return mkT(t, "bin", op.String(), a, b)
}

func safeBin(a constant.Value, op token.Token, b constant.Value) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(b)
		if !ok || s > 64 {
			return nil
		}
		return constant.Shift(a, op, uint(s))
	case token.QUO:
		op = token.QUO_ASSIGN
	}
	return constant.BinaryOp(a, op, b)
}

// eqVal compares two values, looking through known contents.
func (e *Engine) eqVal(st *State, a, b *Term) *Term {
	if a.Op == "iface" && b.Op == "gval" || b.Op == "iface" && a.Op == "gval" {
		if a.Op == "gval" {
			a, b = b, a
		}
		if a.Args[0].Op == "alloc" {
			return tFalse
		}
	}
	if a.T != nil && isErrorType2(a, b) {
		// distinct sentinel or freshly created errors
		if a.Op == "gval" && b.Op == "gval" && a != b {
			return tFalse
		}
		fa := a.Op == "pure" && (a.S == "fmt.Errorf" || a.S == "errors.New")
		fb := b.Op == "pure" && (b.S == "fmt.Errorf" || b.S == "errors.New")
		if (fa && b.Op == "gval") || (fb && a.Op == "gval") {
			return tFalse
		}
	}
	return mkEq(a, b)
}

func isErrorType2(a, b *Term) bool {
	return (a.T != nil && isErrorType(a.T)) || (b.T != nil && isErrorType(b.T))
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if isStringType(from) && isBytes(to) {
		if _, ok := v.str(); !ok && v.T == nil {
			v.T = from
		}
		return v
	}
	if isBytes(from) && isStringType(to) {
		c := e.contentOf(st, v)
		if c.Op == "arr" {
			if s, ok := arrBytes(c); ok {
				return mkStr(s)
			}
		}
		if c.Op == "nil" {
			return mkStr("")
		}
		return c
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 && v.Op == "const" {
			if i, ok := constant.Int64Val(constant.ToInt(v.V)); ok && constant.ToInt(v.V).Kind() == constant.Int && fits(i, tb) {
				return mkConst(constant.MakeInt64(i), to)
			}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if v.Op == "const" {
				if i, ok := v.int(); ok && fits(i, tb) {
					return mkConst(v.V, to)
				}
			} else if intSize(tb) >= intSize(fb) {
				return v
			}
			return mkT(to, "conv", to.String(), v)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Kind() == tb.Kind() {
			return v
		}
		return mkT(to, "conv", to.String(), v)
	}
	if types.Identical(fu, tu) {
		return v
	}
	if isStringType(to) && ok1 {
		return mkT(to, "conv", "rune", v)
	}
	return mkT(to, "conv", to.String(), v)
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func fits(i int64, b *types.Basic) bool {
	switch b.Kind() {
	case types.Int8:
		return i >= -128 && i <= 127
	case types.Uint8:
		return i >= 0 && i <= 255
	case types.Int16:
		return i >= -32768 && i <= 32767
	case types.Uint16:
		return i >= 0 && i <= 65535
	case types.Int32:
		return i >= -1<<31 && i < 1<<31
	case types.Uint32:
		return i >= 0 && i < 1<<32
	case types.Uint, types.Uint64, types.Uintptr:
		return i >= 0
	}
	return true
}
