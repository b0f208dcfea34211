package main

import (
	"sort"
)

// Facts is the set of conditions known to hold in an abstract state.
// A condition is a term (eq, lt or an opaque boolean) with its polarity.
type Facts struct {
	m  map[*Term]bool
	uf map[*Term]*Term // lazily computed equality classes
}

func newFacts() *Facts { return &Facts{m: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{m: make(map[*Term]bool, len(f.m)+4)}
	for k, v := range f.m {
		n.m[k] = v
	}
	n.uf = f.uf
	return n
}

func (f *Facts) find(t *Term) *Term {
	if f.uf == nil {
		f.uf = map[*Term]*Term{}
		var eqs []*Term
		for c, pol := range f.m {
			if pol && c.Op == "eq" {
				eqs = append(eqs, c)
			}
		}
		sort.Slice(eqs, func(i, j int) bool { return eqs[i].id < eqs[j].id })
		for _, c := range eqs {
			a, b := f.root(c.Args[0]), f.root(c.Args[1])
			if a == b {
				continue
			}
			// constants, then never-nil terms, become representatives
			if rank(b) > rank(a) || (rank(a) == rank(b) && b.id < a.id) {
				a, b = b, a
			}
			f.uf[b] = a
		}
	}
	return f.root(t)
}

func rank(t *Term) int {
	if t.isConst() {
		return 2
	}
	if neverNil(t) {
		return 1
	}
	return 0
}

func (f *Facts) root(t *Term) *Term {
	for {
		n, ok := f.uf[t]
		if !ok {
			return t
		}
		t = n
	}
}

// bounds returns the numeric interval known for t.
func (f *Facts) bounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if i, ok := t.int(); ok {
		return i, i, true, true
	}
	if r := f.find(t); r != t {
		if i, ok := r.int(); ok {
			return i, i, true, true
		}
	}
	setLo := func(v int64) {
		if !hasLo || v > lo {
			lo, hasLo = v, true
		}
	}
	setHi := func(v int64) {
		if !hasHi || v < hi {
			hi, hasHi = v, true
		}
	}
	if nonNeg(t) {
		setLo(0)
	}
	for c, pol := range f.m {
		switch c.Op {
		case "lt":
			if k, ok := c.Args[0].int(); ok && f.find(c.Args[1]) == f.find(t) {
				if pol {
					setLo(k + 1)
				} else {
					setHi(k)
				}
			}
		}
	}
	// disequality with the lower bound
	for hasLo {
		if pol, ok := f.m[mkEq(mkInt(lo), t)]; ok && !pol {
			lo++
			continue
		}
		break
	}
	return
}

// diffUpper returns an upper bound of a-b derived from a single recorded
// comparison.
func (f *Facts) diffUpper(a, b *Term) (int64, bool) {
	x, k1 := splitPlus(a)
	y, k2 := splitPlus(b)
	if x == nil || y == nil {
		if x == nil && y == nil {
			return k1 - k2, true
		}
		if y == nil {
			if _, hi, _, ok := f.bounds(x); ok {
				return hi + k1 - k2, true
			}
			return 0, false
		}
		if lo, _, ok, _ := f.bounds(y); ok {
			return k1 - lo - k2, true
		}
		return 0, false
	}
	rx, ry := f.find(x), f.find(y)
	if rx == ry {
		return k1 - k2, true
	}
	best, ok := int64(0), false
	type edge struct {
		t *Term
		w int64
	}
	var from, to []edge // x - t <= w, t - y <= w
	for c, pol := range f.m {
		if c.Op != "lt" {
			continue
		}
		p, kp := splitPlus(c.Args[0])
		q, kq := splitPlus(c.Args[1])
		if p == nil || q == nil {
			continue
		}
		fp, fq := f.find(p), f.find(q)
		if pol && fp == rx && fq == ry {
			// p+kp < q+kq  => p-q <= kq-kp-1
			v := kq - kp - 1 + k1 - k2
			if !ok || v < best {
				best, ok = v, true
			}
		}
		if !pol && fq == rx && fp == ry {
			// q+kq <= p+kp => q-p <= kp-kq
			v := kp - kq + k1 - k2
			if !ok || v < best {
				best, ok = v, true
			}
		}
		w := kq - kp - 1
		if !pol {
			fp, fq, w = fq, fp, kp-kq
		}
		if fp == rx {
			from = append(from, edge{fq, w})
		}
		if fq == ry {
			to = append(to, edge{fp, w})
		}
	}
	// in two steps
	for _, a := range from {
		for _, b := range to {
			if v := a.w + b.w + k1 - k2; a.t == b.t && (!ok || v < best) {
				best, ok = v, true
			}
		}
	}
	return best, ok
}

// eval decides a condition: 1 true, -1 false, 0 unknown.
func (f *Facts) eval(c *Term) int {
	switch c {
	case tTrue:
		return 1
	case tFalse:
		return -1
	}
	if c.Op == "not" {
		return -f.eval(c.Args[0])
	}
	if pol, ok := f.m[c]; ok {
		if pol {
			return 1
		}
		return -1
	}
	switch c.Op {
	case "eq":
		a, b := f.find(c.Args[0]), f.find(c.Args[1])
		if a == b {
			return 1
		}
		if a != c.Args[0] || b != c.Args[1] {
			e := mkEq(a, b)
			if e == tTrue {
				return 1
			}
			if e == tFalse {
				return -1
			}
			if pol, ok := f.m[e]; ok {
				if pol {
					return 1
				}
				return -1
			}
			if e.Op == "not" {
				if pol, ok := f.m[e.Args[0]]; ok {
					if pol {
						return -1
					}
					return 1
				}
			}
		}
		for x, pol := range f.m {
			if !pol && x.Op == "eq" {
				p, q := f.find(x.Args[0]), f.find(x.Args[1])
				if (p == a && q == b) || (p == b && q == a) {
					return -1
				}
			}
			if pol && x.Op == "in" {
				s := f.find(x.Args[0])
				var k *Term
				if s == a && b.isConst() {
					k = b
				} else if s == b && a.isConst() {
					k = a
				}
				if k != nil {
					found := false
					for _, y := range x.Args[1:] {
						if y == k {
							found = true
						}
					}
					if !found {
						return -1
					}
				}
			}
		}
		if k, ok := a.int(); ok {
			lo, hi, hl, hh := f.bounds(b)
			if (hl && k < lo) || (hh && k > hi) {
				return -1
			}
		} else if k, ok := b.int(); ok {
			lo, hi, hl, hh := f.bounds(a)
			if (hl && k < lo) || (hh && k > hi) {
				return -1
			}
		}
	case "lt":
		if k, ok := c.Args[0].int(); ok {
			lo, hi, hl, hh := f.bounds(c.Args[1])
			if hl && lo > k {
				return 1
			}
			if hh && hi <= k {
				return -1
			}
			return 0
		}
		if v, ok := f.diffUpper(c.Args[0], c.Args[1]); ok && v <= -1 {
			return 1
		}
		if v, ok := f.diffUpper(c.Args[1], c.Args[0]); ok && v <= 0 {
			return -1
		}
	default:
		if r := f.find(c); r == tTrue {
			return 1
		} else if r == tFalse {
			return -1
		}
	}
	return 0
}

// assume adds a condition; it reports false when the state becomes
// contradictory.
func (f *Facts) assume(c *Term, pol bool) bool {
	for c.Op == "not" {
		c, pol = c.Args[0], !pol
	}
	switch f.eval(c) {
	case 1:
		if !pol {
			return false
		}
		if c.isConst() {
			return true
		}
	case -1:
		if pol {
			return false
		}
		if c.isConst() {
			return true
		}
	}
	f.m[c] = pol
	if pol && c.Op == "eq" {
		f.uf = nil
		for i, x := range c.Args {
			// equal to an error sentinel: not nil
			if o := c.Args[1-i]; x.Op == "gval" && mkEq(tNil, x) == tFalse {
				if k := mkEq(tNil, o); !k.isConst() {
					f.m[k] = false
				}
			}
		}
	}
	if c.Op == "pure" && c.S == "isnil" && !pol {
		return f.assume(mkEq(c.Args[0], tNil), false)
	}
	return true
}

func (f *Facts) subsetOf(g *Facts) bool {
	if len(f.m) > len(g.m) {
		return false
	}
	for k, v := range f.m {
		if w, ok := g.m[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// meet keeps the conditions that hold in every given set, remembering the
// finite sets of constants a term may equal.
func meet(fs []*Facts) *Facts {
	r := newFacts()
	if len(fs) == 0 {
		return r
	}
	for c, pol := range fs[0].m {
		all := true
		for _, g := range fs[1:] {
			if w, ok := g.m[c]; ok && w == pol {
				continue
			}
			// implied although not recorded literally
			ev := g.eval(c)
			if (pol && ev == 1) || (!pol && ev == -1) {
				continue
			}
			all = false
			break
		}
		if all {
			r.m[c] = pol
		}
	}
	// finite value sets
	cand := map[*Term]bool{}
	for c, pol := range fs[0].m {
		if !pol {
			continue
		}
		if c.Op == "eq" && c.Args[0].isConst() {
			cand[c.Args[1]] = true
		}
		if c.Op == "in" {
			cand[c.Args[0]] = true
		}
	}
	for t := range cand {
		vals := map[*Term]bool{}
		ok := true
		for _, g := range fs {
			vs := g.values(t)
			if vs == nil {
				ok = false
				break
			}
			for _, v := range vs {
				vals[v] = true
			}
		}
		if !ok || len(vals) < 2 || len(vals) > 16 {
			continue
		}
		var l []*Term
		for v := range vals {
			l = append(l, v)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		r.m[mk("in", "", append([]*Term{t}, l...)...)] = true
	}
	return r
}

// values lists the constants t may equal, nil when unknown.
func (f *Facts) values(t *Term) []*Term {
	if r := f.find(t); r.isConst() {
		return []*Term{r}
	}
	for c, pol := range f.m {
		if pol && c.Op == "in" && c.Args[0] == t {
			return c.Args[1:]
		}
	}
	return nil
}
