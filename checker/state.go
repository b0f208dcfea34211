package main

import (
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

// State is one disjunct of the abstract value at a program point.
type State struct {
	regs   map[ssa.Value]*Term
	mem    map[*Term]*Term
	facts  *Facts
	ep     map[string]int
	gep    int
	trace  *Term // events that happened on every execution, newest first
	may    map[*Term]bool
	locks  map[*Term]int
	errs   map[*Term]string // errors of calls (Engine.TrackErrs), by callee; never updated in place
	defers []deferred
	owned  bool // mem, ep, may and locks are not shared
}

var tEmptyTrace = mk("trace", "")

func newState() *State {
	return &State{regs: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: newFacts(), ep: map[string]int{}, trace: tEmptyTrace, may: map[*Term]bool{}, locks: map[*Term]int{}, owned: true}
}

func (s *State) clone() *State {
	n := &State{gep: s.gep, trace: s.trace, facts: s.facts.clone(), errs: s.errs, owned: true}
	n.regs = make(map[ssa.Value]*Term, len(s.regs)+4)
	for k, v := range s.regs {
		n.regs[k] = v
	}
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ep = make(map[string]int, len(s.ep))
	for k, v := range s.ep {
		n.ep[k] = v
	}
	n.may = make(map[*Term]bool, len(s.may))
	for k, v := range s.may {
		n.may[k] = v
	}
	n.locks = make(map[*Term]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func (s *State) event(c *Term) { s.trace = mk("trace", "", c, s.trace) }

// events returns the must-events, oldest first.
func (s *State) events() []*Term {
	var r []*Term
	for t := s.trace; len(t.Args) == 2; t = t.Args[1] {
		r = append(r, t.Args[0])
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// addErr records the error of a call.
func (s *State) addErr(t *Term, callee string) {
	n := map[*Term]string{t: callee}
	for k, v := range s.errs {
		n[k] = v
	}
	s.errs = n
}

// pruneErrs forgets the errors that are known to be nil.
func (s *State) pruneErrs() {
	drop := false
	for t := range s.errs {
		drop = drop || s.facts.eval(mkEq(t, tNil)) == 1
	}
	if !drop {
		return
	}
	n := map[*Term]string{}
	for t, c := range s.errs {
		if s.facts.eval(mkEq(t, tNil)) != 1 {
			n[t] = c
		}
	}
	s.errs = n
}

var valueIDs = map[ssa.Value]int{}

func valueID(v ssa.Value) int {
	if i, ok := valueIDs[v]; ok {
		return i
	}
	valueIDs[v] = len(valueIDs) + 1
	return len(valueIDs)
}

// key identifies everything but the facts.
func (s *State) key() string {
	var b strings.Builder
	pairs := make([][2]int, 0, len(s.regs)+len(s.mem))
	for v, t := range s.regs {
		pairs = append(pairs, [2]int{valueID(v), t.id})
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0] < pairs[j][0] })
	w := func() {
		for _, p := range pairs {
			b.WriteString(strconv.Itoa(p[0]))
			b.WriteByte(':')
			b.WriteString(strconv.Itoa(p[1]))
			b.WriteByte(' ')
		}
		b.WriteByte('|')
		pairs = pairs[:0]
	}
	w()
	for a, t := range s.mem {
		pairs = append(pairs, [2]int{a.id, t.id})
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0] < pairs[j][0] })
	w()
	var ks []string
	for k, v := range s.ep {
		ks = append(ks, k+"="+strconv.Itoa(v))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(s.gep))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(s.trace.id))
	b.WriteByte('|')
	var ids []int
	for t := range s.may {
		ids = append(ids, t.id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(' ')
	}
	b.WriteByte('|')
	for t, n := range s.locks {
		if n != 0 {
			pairs = append(pairs, [2]int{t.id, n})
		}
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0] < pairs[j][0] })
	w()
	if s.pruneErrs(); len(s.errs) > 0 {
		ids = ids[:0]
		for t := range s.errs {
			ids = append(ids, t.id)
		}
		sort.Ints(ids)
		for _, i := range ids {
			b.WriteString(strconv.Itoa(i))
			b.WriteByte('e')
		}
	}
	for _, d := range s.defers {
		b.WriteString(strconv.Itoa(valueIDd(d.call)))
		for _, a := range d.args {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
		b.WriteByte(';')
	}
	return b.String()
}

var deferIDs = map[*ssa.Defer]int{}

func valueIDd(d *ssa.Defer) int {
	if i, ok := deferIDs[d]; ok {
		return i
	}
	deferIDs[d] = len(deferIDs) + 1
	return len(deferIDs)
}

// stateSet accumulates disjuncts at a program point.
type stateSet struct {
	list   []*State
	keys   []string
	forced *int
	cap    int
}

func (ss *stateSet) add(s *State) {
	k := s.key()
	for i, x := range ss.list {
		if ss.keys[i] != k {
			continue
		}
		if x.facts.subsetOf(s.facts) {
			return // covered by a more general disjunct
		}
		if s.facts.subsetOf(x.facts) {
			ss.list[i] = s
			return
		}
	}
	ss.list = append(ss.list, s)
	ss.keys = append(ss.keys, k)
	if ss.cap > 0 && len(ss.list) > ss.cap {
		ss.join()
		if ss.forced != nil {
			*ss.forced++
		}
	}
}

// join merges the disjuncts that only differ in their facts.
func (ss *stateSet) join() {
	groups := map[string][]int{}
	var order []string
	for i, k := range ss.keys {
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var l []*State
	var ks []string
	for _, k := range order {
		g := groups[k]
		s := ss.list[g[0]]
		if len(g) > 1 {
			var fs []*Facts
			for _, i := range g {
				fs = append(fs, ss.list[i].facts)
			}
			s = s.clone()
			s.facts = meet(fs)
		}
		l = append(l, s)
		ks = append(ks, k)
	}
	ss.list, ss.keys = l, ks
}
