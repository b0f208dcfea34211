package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgGen    = "sdk/generator"
	pkgVerif  = "sdk/token/verifiable"
	pkgPKCE   = "sdk/pkce"
	pkgPair   = "sdk/pairwise"
	pkgRandom = "sdk/randomness"
	pkgTypes  = "sdk/types"
)

// rawURL recognises the unpadded base64url encoding.
func rawURL(t *Term) (*Term, bool) {
	if (t.Op == "pure" || t.Op == "call") && callName(t) == "(*encoding/base64.Encoding).EncodeToString" && strings.HasSuffix(t.Args[0].String(), "RawURLEncoding") {
		return t.Args[1], true
	}
	return nil, false
}

func callOf(t *Term) *Term {
	if t.Op == "res" && t.Args[0].Op == "call" {
		return t.Args[0]
	}
	return nil
}

// randomBase describes a uniformly random value: its number of symbols and
// the size of its alphabet.
func randomBase(st *State, t *Term) (n int64, alphabet string, ok bool) {
	if ev := callOf(t); ev != nil {
		switch callName(ev) {
		case "github.com/dchest/uniuri.New":
			return 16, stdChars, true
		case "github.com/dchest/uniuri.NewLen":
			if n, ok := ev.Args[0].int(); ok {
				return n, stdChars, true
			}
		case "github.com/dchest/uniuri.NewLenChars":
			n, k := ev.Args[0].int()
			s, ok := st.facts.find(ev.Args[1]).str()
			if k && ok {
				return n, s, true
			}
		case "crypto/rand.Text":
			return 26, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", true
		}
	}
	return 0, "", false
}

const stdChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// cryptoBytes recognises bytes filled by the system's generator, and returns
// their number.
func cryptoBytes(st *State, t *Term) (int64, bool) {
	if !strings.HasPrefix(t.Op, "out") && !strings.HasPrefix(t.String(), "out:") {
		return 0, false
	}
	ev := t.Args[0]
	if ev.Op != "call" {
		return 0, false
	}
	buf, err := -1, 1
	switch callName(ev) {
	case "crypto/rand.Read":
		buf = 0
	case "io.ReadFull":
		if strings.HasSuffix(stripIface(ev.Args[0]).String(), "rand.Reader") {
			buf = 1
		}
	case "(io.Reader).Read":
		// a reader may return less than asked for
	}
	if buf < 0 || !isNil(st, res(ev, err)) {
		return 0, false
	}
	b := ev.Args[buf]
	if b.T != nil {
		if a, ok := b.T.Underlying().(*types.Array); ok {
			return a.Len(), true
		}
		if p, ok := b.T.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len(), true
			}
		}
	}
	if strings.HasPrefix(b.Op, "mkslice") && len(b.Args) > 0 {
		return b.Args[0].int()
	}
	return 0, false
}

func distinctRunes(s string) int {
	m := map[rune]bool{}
	for _, r := range s {
		m[r] = true
	}
	return len(m)
}

// part is a piece of a generated text.
type part struct {
	lit   string
	base  *Term // random source
	n     int64 // symbols taken from it
	chars string
}

// textParts splits a generated text into literals and random pieces; it fails
// for texts with pieces of unknown origin. A random source counts only if all
// its symbols occur in the text exactly once and in order.
func textParts(st *State, t *Term) (parts []part, bits float64, why string) {
	var l []*Term
	if t.Op == "concat" {
		l = t.Args
	} else {
		l = []*Term{t}
	}
	used := map[*Term]int64{}
	for _, a := range l {
		if s, ok := st.facts.find(a).str(); ok {
			parts = append(parts, part{lit: s})
			continue
		}
		base, from, to := a, int64(0), int64(-1)
		if a.Op == "pslice" {
			base = a.Args[0]
			x, ok := a.Args[1].int()
			if !ok && a.Args[1].Op != "nil" {
				return nil, 0, "slice bounds of " + a.String()
			}
			from = x
			if a.Args[2].Op != "nil" {
				if to, ok = a.Args[2].int(); !ok {
					return nil, 0, "slice bounds of " + a.String()
				}
			}
		}
		if n, chars, ok := randomBase(st, base); ok {
			if to < 0 {
				to = n
			}
			if used[base] != from {
				return nil, 0, "the random value is not used in full: " + a.String()
			}
			used[base] = to
			parts = append(parts, part{base: base, n: to - from, chars: chars})
			continue
		}
		if x, ok := rawURL(a); ok {
			if n, ok := cryptoBytes(st, x); ok {
				parts = append(parts, part{base: x, n: (n*8 + 5) / 6, chars: stdChars + "-_"})
				bits += float64(8 * n)
				continue
			}
		}
		if callName(a) == "encoding/hex.EncodeToString" {
			if n, ok := cryptoBytes(st, a.Args[0]); ok {
				parts = append(parts, part{base: a.Args[0], n: 2 * n, chars: "0123456789abcdef"})
				bits += float64(8 * n)
				continue
			}
		}
		return nil, 0, "not random: " + a.String()
	}
	for b, to := range used {
		n, chars, _ := randomBase(st, b)
		if to != n {
			return nil, 0, "the random value is not used in full: " + b.String()
		}
		bits += float64(n) * math.Log2(float64(distinctRunes(chars)))
	}
	return parts, bits, ""
}

// shapeSet describes the language of texts with fixed literals and random
// symbols, for comparison with a pattern.
func inPattern(pat string, parts []part) (bool, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false, err
	}
	// every text of the parts must match: walk the pattern as a sequence of
	// character sets
	sets, anchored, ok := flatten(re.Simplify())
	if !ok || !anchored {
		return false, fmt.Errorf("pattern %q is not an anchored sequence of character sets", pat)
	}
	i := 0
	take := func(chars string) bool {
		if i >= len(sets) {
			return false
		}
		for _, c := range chars {
			if !sets[i](c) {
				return false
			}
		}
		i++
		return true
	}
	for _, p := range parts {
		if p.base == nil {
			for _, c := range p.lit {
				if !take(string(c)) {
					return false, nil
				}
			}
			continue
		}
		for k := int64(0); k < p.n; k++ {
			if !take(p.chars) {
				return false, nil
			}
		}
	}
	return i == len(sets), nil
}

func flatten(re *syntax.Regexp) (sets []func(rune) bool, anchored, ok bool) {
	begin, end := false, false
	var walk func(x *syntax.Regexp) bool
	walk = func(x *syntax.Regexp) bool {
		switch x.Op {
		case syntax.OpBeginText:
			if len(sets) > 0 {
				return false
			}
			begin = true
			return true
		case syntax.OpEndText:
			end = true
			return true
		case syntax.OpLiteral:
			if x.Flags&syntax.FoldCase != 0 || end {
				return false
			}
			for _, r := range x.Rune {
				sets = append(sets, func(c rune) bool { return c == r })
			}
			return true
		case syntax.OpCharClass:
			if end {
				return false
			}
			rs := x.Rune
			sets = append(sets, func(c rune) bool {
				for i := 0; i < len(rs); i += 2 {
					if rs[i] <= c && c <= rs[i+1] {
						return true
					}
				}
				return false
			})
			return true
		case syntax.OpConcat:
			for _, s := range x.Sub {
				if !walk(s) {
					return false
				}
			}
			return true
		case syntax.OpCapture:
			return walk(x.Sub[0])
		case syntax.OpEmptyMatch:
			return true
		}
		return false
	}
	ok = walk(re)
	return sets, begin && end, ok
}

// pattern returns the constant pattern of a compiled regular expression.
func pattern(t *Term) (string, bool) {
	t = stripIface(t)
	if callName(t) == "regexp.MustCompile" {
		return t.Args[0].str()
	}
	return "", false
}

var matchFns = map[string]bool{"(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).Match": true}

// moduleFuncs visits the functions of the module outside of mocks, examples
// and generated code.
func (c *Ctx) moduleFuncs(visit func(pkg string, f *ssa.Function)) {
	for _, f := range c.p.funcs {
		if f.Pkg == nil || f.Synthetic != "" && !strings.Contains(f.Synthetic, "package init") {
			continue
		}
		path := f.Pkg.Pkg.Path()
		if !strings.HasPrefix(path, modPath+"/") {
			continue
		}
		pkg := strings.TrimPrefix(path, modPath+"/")
		if strings.HasSuffix(pkg, "/mock") || strings.HasPrefix(pkg, "examples") {
			continue
		}
		visit(pkg, f)
	}
}

// normLen evaluates the lengths of hashes in a term.
func normLen(t *Term) *Term {
	switch {
	case t.Op == "len" && t.Args[0].Op == "hsum":
		for n, k := range map[string]int64{"sha256": 32, "blake2b256": 32, "sha384": 48, "sha512": 64, "blake2b512": 64} {
			if t.Args[0].S == n {
				return mkInt(k)
			}
		}
	case strings.HasPrefix(t.String(), "conv:") && len(t.Args) == 1:
		if x := normLen(t.Args[0]); x.isConst() {
			return x
		}
	}
	return t
}

// differ tells whether the facts refute a == b, by a disequality of the same
// function applied to both.
func differ(st *State, a, b *Term) bool {
	if st.facts.eval(mkEq(a, b)) == -1 {
		return true
	}
	for cnd, pol := range st.facts.m {
		if pol || cnd.Op != "eq" {
			continue
		}
		x, y := cnd.Args[0], cnd.Args[1]
		for _, z := range [][2]*Term{{a, b}, {b, a}} {
			if contains(y, z[0]) && normLen(subst(y, z[0], z[1])) == x || contains(x, z[0]) && normLen(subst(x, z[0], z[1])) == y {
				return true
			}
		}
		if contains(x, a) && subst(x, a, b) == subst(y, a, b) || contains(y, a) && subst(x, b, a) == subst(y, b, a) {
			return true
		}
	}
	return false
}

func init() {
	register("C43", "generated identifiers are unpredictable, well formed and accepted by their validators", "The text returned by every generator is evaluated to a term over its random sources; the conditions of every validator are compared with its shape.", func(c *Ctx) {
		type g struct {
			pkg, ctor string
			bits      float64
			user      bool
			validate  bool
		}
		shapes := map[string][]part{}
		for _, x := range []g{
			{pkgGen, "DefaultAuthorizationCode", 128, false, true},
			{pkgGen, "DefaultDeviceCode", 128, false, true},
			{pkgGen, "DefaultRequestURI", 128, false, true},
			{pkgSdkToken, "OpaqueToken", 128, false, false},
			{pkgGen, "DefaultClientID", 80, false, false},
			{pkgGen, "DefaultDeviceUserCode", 29, true, false},
			{pkgGen, "DefaultNumDeviceUserCode", 29, true, false},
		} {
			r := c.root(x.pkg, x.ctor, "Generate")
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if !isNil(st, o.res[1]) {
					c.need(same(st, o.res[0], mkStr("")), "failure", x.ctor, pos, "a value is returned with an error")
					continue
				}
				parts, bits, why := textParts(st, o.res[0])
				if !c.need(why == "", "random", x.ctor, pos, "%s", why) {
					continue
				}
				c.need(bits >= x.bits, "entropy", x.ctor, pos, "the value has %.0f random bits, %.0f are needed", bits, x.bits)
				shapes[x.ctor] = parts
				if !x.user {
					continue
				}
				group := int64(0)
				ok, kind := true, ""
				for _, p := range parts {
					if p.base == nil {
						ok = ok && p.lit == "-" && group > 0
						group = 0
						continue
					}
					group += p.n
					ok = ok && group <= 4
					k := "mixed"
					switch {
					case strings.Trim(p.chars, "0123456789") == "":
						k = "digits"
					case strings.Trim(p.chars, "BCDFGHJKLMNPQRSTVWXZ") == "":
						k = "consonants"
					}
					ok = ok && k != "mixed" && (kind == "" || kind == k)
					kind = k
				}
				c.need(ok && group > 0, "format", x.ctor, pos, "the code is not made of short groups of %s", "consonants or digits")
			}
			if !x.validate || shapes[x.ctor] == nil {
				continue
			}
			// the validator
			v := c.root(x.pkg, x.ctor, "Validate")
			in := v.Args[2]
			want := shapes[x.ctor]
			var n int64
			for _, p := range want {
				n += int64(len(p.lit)) + p.n
			}
			forms := []*Term{in, mkT(types.Typ[types.String], "pure", "strings.TrimSpace", in)}
			shaped := func(st *State) (accept, refuse bool) {
				for _, f := range forms {
					l := mkT(types.Typ[types.Int], "len", "", f)
					switch st.facts.eval(mkEq(l, mkInt(n))) {
					case 1:
						if x.ctor != "DefaultRequestURI" {
							accept = true
						}
					case -1:
						refuse = true
					}
				}
				if len(want) > 0 && want[0].base == nil {
					for _, f := range forms {
						p := mkT(types.Typ[types.Bool], "pure", "strings.HasPrefix", f, mkStr(want[0].lit))
						l := mkT(types.Typ[types.Int], "len", "", f)
						if st.facts.eval(p) == 1 && st.facts.eval(mkEq(l, mkInt(n))) == 1 {
							accept = true
						}
						if st.facts.eval(p) == -1 {
							refuse = true
						}
					}
				}
				for cnd, pol := range st.facts.m {
					if cnd.Op != "pure" || !matchFns[callName(cnd)] {
						continue
					}
					on := false
					for _, f := range forms {
						on = on || cnd.Args[1] == f
					}
					pat, ok := pattern(cnd.Args[0])
					if !ok || !on {
						continue
					}
					if in, err := inPattern(pat, want); in && err == nil {
						if pol {
							accept = true
						} else {
							refuse = true
						}
					}
				}
				return
			}
			for _, o := range v.Outs {
				acc, ref := shaped(o.st)
				if isNil(o.st, o.res[0]) {
					c.need(acc, "validator.sound", x.ctor, outPos(v, o), "a value of another shape than the generated ones is accepted")
				} else {
					c.need(ref, "validator.complete", x.ctor, outPos(v, o), "a generated value may be refused")
				}
			}
		}
		c.moduleFuncs(func(pkg string, f *ssa.Function) {
			if pkg == pkgRandom {
				return
			}
			n := 0
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := call.Common().StaticCallee()
					if g == nil || g.Pkg == nil {
						continue
					}
					p := g.Pkg.Pkg.Path()
					if p == "math/rand" || p == "math/rand/v2" || p == modPath+"/"+pkgRandom {
						c.need(false, "source", f.String(), c.p.pos(ins.Pos()), "a predictable generator is used: %s", g)
					}
					n++
				}
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg != f.Pkg {
							c.need(false, "tamper", f.String(), c.p.pos(ins.Pos()), "a variable of another package is replaced: %s", g)
						}
					}
				}
			}
			if n > 0 {
				c.need(true, "source", f.String(), "-", "")
			}
		})
		c.floor("entropy", 7, "generators")
		c.floor("validator.sound", 3, "validators")
		c.floor("validator.complete", 3, "validators")
		c.floor("source", 100, "functions of the module")
	})

	register("C44", "verifiable identifiers are authenticated", "All outcomes of generation and verification are enumerated; the MAC, its key and its message are compared as terms.", func(c *Ctx) { verifiableUUID(c) })

	register("C45", "pairwise subjects are keyed, sector specific pseudonyms", "All outcomes of the encoder are enumerated and its result is evaluated to a term.", func(c *Ctx) {
		r := c.root(pkgPair, "Hash", "Encode")
		sector, subject := r.Args[0], r.Args[1]
		trimmed := mkT(types.Typ[types.String], "pure", "strings.TrimSpace", subject)
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !isNil(st, o.res[1]) {
				c.need(same(st, o.res[0], mkStr("")), "failure", "Encode", pos, "an identifier is returned with an error")
				continue
			}
			c.need(lenAtLeast(st, r.Ctor[0], 16), "salt", "Encode", pos, "a salt shorter than 16 bytes is used")
			c.need(nonEmpty(st, trimmed), "blank", "Encode", pos, "a blank subject is encoded")
			x, ok := rawURL(o.res[0])
			if !c.need(ok, "encoding", "Encode", pos, "the identifier is not encoded as unpadded base64url: %s", o.res[0]) {
				continue
			}
			keyed := x.Op == "hsum" && len(x.Args) == 2 && x.Args[1] == r.Ctor[0] &&
				(strings.HasPrefix(x.S, "blake2b256") || strings.HasPrefix(x.S, "blake2b512") || strings.HasPrefix(x.S, "blake2b384") || strings.HasPrefix(x.S, "hmac:crypto/sha256") || strings.HasPrefix(x.S, "hmac:crypto/sha512"))
			if !c.need(keyed, "keyed", "Encode", pos, "the identifier is not a keyed hash under the salt: %s", x) {
				continue
			}
			msg := x.Args[0]
			c.need(contains(msg, sector), "sector", "Encode", pos, "the identifier does not depend on the sector")
			sub := contains(msg, subject)
			c.need(sub, "subject", "Encode", pos, "the identifier does not depend on the subject")
			norm := !strings.Contains(subst(msg, trimmed, mk("trimmed", "")).String(), subject.String())
			c.need(sub && norm, "normal", "Encode", pos, "surrounding blanks of the subject change the identifier")
			whole := true
			for _, a := range concatArgs(msg) {
				if _, isC := a.str(); isC || a == sector || a == trimmed || a == subject || fixedLen(a) {
					continue
				}
				whole = false
			}
			c.need(whole, "whole", "Encode", pos, "the identifier does not depend on all of sector and subject: %s", msg)
			c.need(unambiguous(msg, sector, []*Term{subject, trimmed}), "unambiguous", "Encode", pos, "different pairs of sector and subject share an identifier: %s", msg)
		}
		c.floor("salt", 1, "successful encodings")
		c.floor("failure", 1, "failures")
	})

	register("C46", "secret comparisons are exact and in constant time", "The comparison helpers are reduced to an equality term on every path; every comparison of a MAC or of a verifier hash is located by its operands.", func(c *Ctx) {
		for _, f := range []string{"SecureCompare", "SecureCompareString"} {
			var bad []string
			r := c.root(pkgTypes, f, "", func(e *Engine) {
				e.Summary = map[string]bool{}
				e.OnCmp = func(st *State, how string, a, b *Term, fr *frame, ins ssa.Instruction) {
					if how == "crypto/subtle.ConstantTimeCompare" || how == "crypto/hmac.Equal" {
						return
					}
					for _, x := range []*Term{a, b} {
						if x.T != nil && (isStringType(x.T) || x.T.String() == "[]byte") && !x.isConst() {
							bad = append(bad, how+" at "+c.p.pos(ins.Pos()))
						}
					}
				}
			})
			eq := mkEq(r.Args[0], r.Args[1])
			for _, o := range r.Outs {
				v := o.st.facts.find(o.res[0])
				ok := v == eq || same(o.st, r.Args[0], r.Args[1]) && v == tTrue || v == tFalse && differ(o.st, r.Args[0], r.Args[1])
				if !ok {
					ok = holdsIff(o.st, v, eq)
				}
				c.need(ok, "exact", f, outPos(r, o), "the result %s is not the equality of the arguments", v)
			}
			c.need(len(bad) == 0, "constant-time", f, "-", "the arguments are compared in variable time: %s", strings.Join(bad, ", "))
			// no element-wise access either
			fn := c.p.fn(pkgTypes, f)
			loop := false
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch ins.(type) {
					case *ssa.IndexAddr, *ssa.Index, *ssa.Range:
						loop = true
					}
				}
			}
			c.need(!loop, "elementwise", f, c.p.pos(fn.Pos()), "the arguments are compared element by element")
		}
		for _, x := range []struct {
			pkg, ctor, method string
			secret            func(*Term) bool
		}{
			{pkgVerif, "UUIDVerifier", "Extract", isMAC},
			{pkgVerif, "UUIDVerifier", "Verify", isMAC},
			{pkgPKCE, "Validate", "", isHash},
		} {
			n := 0
			c.rootWith(x.pkg, x.ctor, x.method, nil, nil, func(e *Engine) {
				delete(e.Summary, "zntr.io/solid/sdk/types.SecureCompare")
				delete(e.Summary, "zntr.io/solid/sdk/types.SecureCompareString")
				e.OnCmp = func(st *State, how string, a, b *Term, fr *frame, ins ssa.Instruction) {
					if !(x.secret(a) || x.secret(b)) || a.isConst() || b.isConst() {
						return
					}
					n++
					ok := how == "crypto/subtle.ConstantTimeCompare" || how == "crypto/hmac.Equal"
					c.need(ok, "sites", x.pkg+"."+x.ctor, c.p.pos(ins.Pos()), "a secret is compared in variable time with %s", how)
				}
			})
			c.need(n > 0, "compared", x.pkg+"."+x.ctor, "-", "no comparison of a secret value was found")
		}
		c.floor("exact", 2, "outcomes of the helpers")
		c.floor("sites", 3, "comparisons of secrets")
	})

	register("C47", "the shared random generators are serialised and seeded from the system", "Every method of the locked generator is executed abstractly; lock, call and unlock are read from the trace.", func(c *Ctx) {
		t := c.p.scope(pkgRandom).Lookup("LockedRand").Type()
		ms := types.NewMethodSet(types.NewPointer(t))
		names := map[string]bool{}
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			if !m.Exported() {
				continue
			}
			names[m.Name()] = true
			r := c.root(pkgRandom, "NewLockedRand", m.Name())
			for _, o := range r.Outs {
				lockedCall(c, r, o, m.Name(), r.Args, nil)
			}
		}
		sc := c.p.scope(pkgRandom)
		for _, n := range sc.Names() {
			f, ok := sc.Lookup(n).(*types.Func)
			if !ok || !f.Exported() || !names[n] {
				continue
			}
			r := c.root(pkgRandom, n, "")
			for _, o := range r.Outs {
				lockedCall(c, r, o, n, r.Args, func(src *Term) bool { return systemSeed(o.st, src, true) })
			}
		}
		r := c.root(pkgRandom, "CryptoSeed", "")
		for _, o := range r.Outs {
			c.need(systemSeed(o.st, o.res[0], false), "seed", "CryptoSeed", outPos(r, o), "the seed is not 8 bytes of the system's generator: %s", o.res[0])
		}
		nr := c.root(pkgRandom, "NewReader", "")
		for _, o := range nr.Outs {
			x := stripIface(o.res[0])
			c.need(x.T != nil && strings.HasSuffix(x.T.String(), "randomness.LockedRand"), "reader", "NewReader", outPos(nr, o), "the reader is not the locked generator: %s", o.res[0])
		}
		// the readers the package offers
		e := newEngine(c.p)
		for _, n := range sc.Names() {
			v, ok := sc.Lookup(n).(*types.Var)
			if !ok || !v.Exported() {
				continue
			}
			g := c.p.prog.Package(v.Pkg()).Var(n)
			st := newState()
			x := stripIface(e.loadGlobal(st, globalTerm(g), v.Type()))
			ok = x.T != nil && strings.HasSuffix(x.T.String(), "randomness.LockedRand") && seededBySystem(st, rdField(e, st, x, "r"), func(src *Term) bool { return systemSeed(st, src, true) })
			c.need(ok, "shared", n, c.p.pos(v.Pos()), "not a locked generator seeded from the system: %s", x)
		}
		c.floor("locked", 20, "methods and functions")
		c.floor("global", 10, "package functions")
		c.floor("seed", 1, "seeds")
	})

	register("C48", "the PKCE helper makes and checks S256 challenges", "All outcomes of both functions are enumerated and evaluated to terms.", func(c *Ctx) {
		r := c.root(pkgPKCE, "CodeVerifier", "")
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			if !isNil(st, o.res[2]) {
				c.need(same(st, o.res[0], mkStr("")) && same(st, o.res[1], mkStr("")), "failure", "CodeVerifier", pos, "values are returned with an error")
				continue
			}
			parts, bits, why := textParts(st, o.res[0])
			if c.need(why == "", "random", "CodeVerifier", pos, "%s", why) {
				var n int64
				for _, p := range parts {
					n += int64(len(p.lit)) + p.n
					ok := true
					for _, ch := range p.lit + p.chars {
						if !strings.ContainsRune(stdChars+"-._~", ch) {
							ok = false
						}
					}
					c.need(ok, "alphabet", "CodeVerifier", pos, "the verifier has characters RFC 7636 does not allow")
				}
				c.need(n >= 43 && n <= 128, "length", "CodeVerifier", pos, "the verifier has %d characters", n)
				c.need(bits >= 256, "entropy", "CodeVerifier", pos, "the verifier has %.0f random bits", bits)
			}
			x, ok := rawURL(o.res[1])
			c.need(ok && x.Op == "hsum" && x.S == "sha256" && x.Args[0] == o.res[0], "challenge", "CodeVerifier", pos, "the challenge is not the S256 challenge of the verifier: %s", o.res[1])
		}
		c.floor("challenge", 1, "successes")
		v := c.root(pkgPKCE, "Validate", "")
		ch, ver := v.Args[0], v.Args[1]
		yes := 0
		for _, o := range v.Outs {
			st, pos := o.st, outPos(v, o)
			val := st.facts.find(o.res[0])
			if !isNil(st, o.res[1]) {
				c.need(nonNil(st, o.res[1]) && val == tFalse, "invalid", "Validate", pos, "a result is returned with an error")
				continue
			}
			c.need(nonEmpty(st, ch) && nonEmpty(st, ver), "blank", "Validate", pos, "blank arguments are accepted")
			// the result is the equality of the challenge and the hash of
			// the verifier, in raw or in encoded form
			ok := false
			for _, e := range pkceEq(st, ch, ver) {
				if val == e || val == tTrue && st.facts.eval(e) == 1 || holdsIff(st, val, e) {
					ok = true
					yes++
				}
				if val == tFalse && e.Op == "eq" && differ(st, e.Args[0], e.Args[1]) {
					ok = true
				}
			}
			c.need(ok, "exact", "Validate", pos, "the result is not the comparison of the challenge with the S256 challenge of the verifier: %s", val)
		}
		c.need(yes > 0, "accepts", "Validate", "-", "no verifier is ever accepted")
		c.floor("exact", 1, "results")
		c.floor("invalid", 1, "errors")
	})
}

// pkceEq lists the conditions equivalent to a matching challenge.
func pkceEq(st *State, ch, ver *Term) []*Term {
	var l []*Term
	h := mkT(nil, "hsum", "sha256", ver)
	seen := func(t *Term) {
		if t.Op == "eq" {
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				if a == h && b.Op == "res" && b.S == "0" && strings.HasPrefix(b.Args[0].S, "(*encoding/base64.Encoding).DecodeString") && strings.HasSuffix(b.Args[0].Args[0].String(), "RawURLEncoding") && b.Args[0].Args[1] == ch && isNil(st, res(b.Args[0], 1)) {
					l = append(l, t)
				}
				if x, ok := rawURL(a); ok && x == h && b == ch {
					l = append(l, t)
				}
			}
		}
	}
	for _, t := range allTerms() {
		seen(t)
	}
	return l
}

func allTerms() []*Term {
	var l []*Term
	for _, t := range in.tab {
		if t.Op == "eq" {
			l = append(l, t)
		}
	}
	return l
}

// holdsIff tells whether v and cond have the same truth value.
func holdsIff(st *State, v, cond *Term) bool {
	if v == cond {
		return true
	}
	a, b := st.facts.eval(v), st.facts.eval(cond)
	return a != 0 && a == b
}

func isMAC(t *Term) bool {
	if t.Op == "hsum" && strings.HasPrefix(t.S, "hmac:") {
		return true
	}
	if t.Op == "len" || t.Op == "res" && t.S != "0" {
		return false
	}
	if t.Op == "concat" || t.Op == "pslice" || t.Op == "conv" || strings.Contains(t.S, "EncodeToString") {
		for _, a := range t.Args {
			if isMAC(a) {
				return true
			}
		}
	}
	return false
}

func isHash(t *Term) bool {
	if t.Op == "hsum" {
		return true
	}
	if t.Op == "concat" || t.Op == "pslice" || t.Op == "conv" || strings.Contains(t.S, "EncodeToString") {
		for _, a := range t.Args {
			if isHash(a) {
				return true
			}
		}
	}
	return false
}

func concatArgs(t *Term) []*Term {
	if t.Op == "concat" {
		return t.Args
	}
	return []*Term{t}
}

// systemSeed tells whether a value is made of 8 bytes of the system's
// generator.
func systemSeed(st *State, t *Term, init bool) bool {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	c := t
	if t.Op == "res" {
		c = t.Args[0]
	}
	if c.Op != "call" && c.Op != "pure" {
		return false
	}
	n := callName(c)
	if !strings.HasPrefix(n, "(encoding/binary.") || !strings.HasSuffix(n, ".Uint64") {
		return false
	}
	raw := c.Args[len(c.Args)-1]
	if init && len(raw.Args) == 1 && raw.Args[0].Op == "call" {
		// computed when the package was initialised: CryptoSeed is checked
		// separately
		st = st.clone()
		st.facts.assume(mkEq(res(raw.Args[0], 1), tNil), true)
	}
	k, ok := cryptoBytes(st, raw)
	return ok && k >= 8
}

// lockedCall requires that the outcome is one call of the generator's method
// of the given name, between the lock and the unlock of the generator.
func lockedCall(c *Ctx, r *Root, o *Outcome, name string, args []*Term, seed func(*Term) bool) {
	st, pos := o.st, outPos(r, o)
	var locks, unlocks, uses []int
	var lock *Term
	evs := st.events()
	for i, ev := range evs {
		if ev.Op != "call" {
			continue
		}
		switch n := callName(ev); {
		case strings.HasPrefix(n, "(*sync.") && strings.HasSuffix(n, "Mutex).Lock"):
			locks = append(locks, i)
			lock = ev.Args[0]
		case strings.HasPrefix(n, "(*sync.") && strings.HasSuffix(n, "Mutex).Unlock"):
			unlocks = append(unlocks, i)
			c.need(lock == ev.Args[0], "unlock", name, pos, "another lock is released")
		case strings.HasPrefix(n, "(*math/rand.Rand)."):
			uses = append(uses, i)
		}
	}
	ok := len(locks) == 1 && len(unlocks) == 1 && len(uses) == 1 && locks[0] < uses[0] && uses[0] < unlocks[0]
	if !c.need(ok, "locked", name, pos, "the generator is not used exactly once between lock and unlock") {
		return
	}
	u := evs[uses[0]]
	c.need(callName(u) == "(*math/rand.Rand)."+name, "method", name, pos, "%s is called", callName(u))
	same := len(u.Args) == len(args)+1
	for i := range args {
		same = same && stripIface(u.Args[i+1]) == stripIface(args[i])
	}
	c.need(same, "args", name, pos, "other arguments are passed on")
	for i, v := range o.res {
		c.need(stripIface(v) == res(u, i), "result", name, pos, "result %d is not the generator's", i)
	}
	if r.Recv != nil {
		c.need(contains(lock, r.Recv), "lock", name, pos, "the lock does not belong to the generator")
		c.need(u.Args[0] == r.rd(st, r.Recv, "r"), "generator", name, pos, "another generator is used")
	}
	if seed != nil {
		src := u.Args[0]
		ok := seededBySystem(st, src, seed)
		c.need(ok, "global", name, pos, "the shared generator is not seeded from the system: %s", src)
	}
}

// seededBySystem tells whether a generator was made from a system seed.
func seededBySystem(st *State, src *Term, seed func(*Term) bool) bool {
	if src.Op != "res" || callName(src.Args[0]) != "math/rand.New" {
		return false
	}
	s := src.Args[0].Args[0]
	return s.Op == "res" && callName(s.Args[0]) == "math/rand.NewSource" && seed(s.Args[0].Args[0])
}

// ---- verifiable identifiers -------------------------------------------------

// macUse describes how a MAC is computed.
type macUse struct {
	hash, kdf, label, info string
	parts                  []*Term
	nonce                  *Term
	key                    *Term
}

func readMAC(h *Term) (m macUse, why string) {
	if h.Op != "hsum" || !strings.HasPrefix(h.S, "hmac:") || len(h.Args) != 2 {
		return m, "not an HMAC: " + h.String()
	}
	m.hash = h.S
	msg, key := h.Args[0], h.Args[1]
	if !strings.HasPrefix(key.Op, "stream") && !strings.HasPrefix(key.String(), "stream:") {
		return m, "the MAC key is not derived: " + key.String()
	}
	k := key.Args[0]
	if k.Op == "res" {
		k = k.Args[0]
	}
	if callName(k) != "golang.org/x/crypto/hkdf.New" || len(k.Args) != 4 {
		return m, "the MAC key is not derived with HKDF: " + k.String()
	}
	m.kdf = k.Args[0].String()
	m.key, m.nonce = k.Args[1], k.Args[2]
	info, ok := k.Args[3].str()
	if !ok {
		return m, "the purpose of the derived key is not constant"
	}
	m.info = info + "/" + key.S
	m.parts = concatArgs(msg)
	return m, ""
}

func verifiableUUID(c *Ctx) {
	r := c.root(pkgVerif, "UUIDVerifier", "Extract")
	in := r.Args[0]
	secret := r.Ctor[0]
	var format string
	var vm *macUse
	labels := map[string]bool{}
	okN := 0
	for _, o := range r.Outs {
		st, pos := o.st, outPos(r, o)
		val := o.res[0]
		if !isNil(st, o.res[1]) {
			c.need(nonNil(st, o.res[1]), "error", "Extract", pos, "the error may be nil")
			c.need(isNil(st, val) || holds(st, mkEq(mkT(types.Typ[types.Int], "len", "", val), mkInt(0))), "failure", "Extract", pos, "a value is returned with an error")
			continue
		}
		okN++
		u := r.E.argNorm(st, val)
		// the decoded number
		num, width, ok := fixedBytes(u)
		if !c.need(ok && width == 16, "value", "Extract", pos, "the result is not the 16 decoded bytes: %s", u) {
			continue
		}
		c.need(decoded(st, num, in), "decoded", "Extract", pos, "the result is not decoded from the input")
		c.need(bitsFit(st, num, 128), "range", "Extract", pos, "an encoding of more than 16 bytes is accepted")
		// the authentication
		var mac *macUse
		var why string
		trueFacts(st, func(f *Term) bool {
			if f.Op != "eq" {
				return false
			}
			for i := 0; i < 2; i++ {
				h, tag := f.Args[i], f.Args[1-i]
				if h.Op != "hsum" {
					continue
				}
				m, w := readMAC(h)
				if w != "" {
					why = w
					continue
				}
				// the tag is the rest of the decoded signature after the nonce
				if tag.Op != "pslice" || m.nonce.Op != "pslice" || tag.Args[0] != m.nonce.Args[0] {
					why = "nonce and tag are not parts of the same signature"
					continue
				}
				from, ok1 := tag.Args[1].int()
				n0, _ := m.nonce.Args[1].int()
				n1, ok2 := m.nonce.Args[2].int()
				num, wd, ok3 := fixedBytes(tag.Args[0])
				if !ok1 || !ok2 || !ok3 || n0 != 0 || from != n1 || tag.Args[2].Op != "nil" || wd-from != 32 || n1 < 12 {
					why = fmt.Sprintf("the signature is not split into nonce and tag: %s, %s", m.nonce, tag)
					continue
				}
				if !decoded(st, num, in) || !bitsFit(st, num, 8*wd) {
					why = "the signature is not decoded from the input"
					continue
				}
				if m.key != secret {
					why = "the MAC key is not derived from the secret"
					continue
				}
				mac = &m
				return true
			}
			return false
		})
		if !c.need(mac != nil, "mac", "Extract", pos, "a token is accepted without a valid MAC: %s", why) {
			continue
		}
		n := len(mac.parts)
		c.need(mac.parts[n-1] == u, "mac.value", "Extract", pos, "the MAC does not end with the value")
		lab, isC := mac.parts[0].str()
		c.need(isC && lab != "", "mac.label", "Extract", pos, "the MAC has no purpose label")
		labels[lab] = true
		mid := mac.parts[1 : n-1]
		// what precedes the value in the input is authenticated too
		var matched *Term
		trueFacts(st, func(f *Term) bool {
			if f.Op == "pure" && matchFns[callName(f)] {
				if p, ok := pattern(f.Args[0]); ok {
					format, matched = p, f.Args[1]
				}
			}
			return false
		})
		if !c.need(matched != nil, "format", "Extract", pos, "the format of the token is not checked") {
			continue
		}
		if len(mid) == 0 {
			c.need(matched == in, "prefix", "Extract", pos, "a part of the token is not authenticated")
		} else {
			whole := true
			rest := concatArgs(matched)
			all := append(append([]*Term{}, mid...), rest...)
			whole = isSplit(all, in)
			c.need(whole, "prefix", "Extract", pos, "the authenticated prefix and the value are not the whole token: %v", all)
		}
		vm = mac
	}
	c.need(okN > 0, "accepts", "Extract", "-", "no token is ever accepted")
	c.floor("mac", 1, "accepting paths")
	c.floor("prefix", 2, "accepting paths, with and without prefix")

	// Verify is Extract without the value.
	v := c.root(pkgVerif, "UUIDVerifier", "Verify")
	for _, o := range v.Outs {
		if !isNil(o.st, o.res[0]) {
			continue
		}
		ok := false
		trueFacts(o.st, func(f *Term) bool {
			if f.Op == "eq" {
				for i := 0; i < 2; i++ {
					if m, w := readMAC(f.Args[i]); w == "" && m.key == v.Ctor[0] && len(m.parts) > 1 {
						if num, n, o2 := fixedBytes(m.parts[len(m.parts)-1]); o2 && n == 16 && decoded(o.st, num, v.Args[0]) {
							ok = true
						}
					}
				}
			}
			return false
		})
		c.need(ok, "verify", "Verify", outPos(v, o), "a token verifies without a valid MAC")
	}
	c.floor("verify", 1, "accepting paths")

	// Generation.
	g := c.root(pkgVerif, "UUIDGenerator", "Generate")
	lo1, hi1, lo2, hi2, fok := groups(format)
	c.need(fok, "pattern", "Extract", "-", "the token format %q is not two groups of letters and digits", format)
	for _, o := range g.Outs {
		st, pos := o.st, outPos(g, o)
		if !isNil(st, o.res[1]) {
			c.need(same(st, o.res[0], mkStr("")), "gen.failure", "Generate", pos, "a value is returned with an error")
			continue
		}
		parts := concatArgs(o.res[0])
		// value "_" signature, each optionally padded
		sig, pad2, rest, ok := takeNumber(parts, st)
		if !c.need(ok, "gen.shape", "Generate", pos, "the token does not end with a signature: %s", o.res[0]) {
			continue
		}
		ok = len(rest) > 0
		if ok {
			s, _ := rest[len(rest)-1].str()
			ok = s == "_"
			rest = rest[:len(rest)-1]
		}
		val, pad1, rest, ok2 := takeNumber(rest, st)
		if !c.need(ok && ok2, "gen.shape", "Generate", pos, "the token is not value and signature: %s", o.res[0]) {
			continue
		}
		// the value comes from the source
		src := val.Op == "res" && val.S == "0" && val.Args[0].Op == "call" && (val.Args[0].Args != nil && val.Args[0].Args[0] == g.Ctor[0] || strings.Contains(val.Args[0].String(), g.Ctor[0].String())) && okCall(st, val.Args[0], 1)
		c.need(src, "gen.value", "Generate", pos, "the value does not come from the source: %s", val)
		c.need(pad1 >= lo1 && digits62(16) <= hi1, "gen.width", "Generate", pos, "the value is padded to %d digits, %d to %d are accepted", pad1, lo1, hi1)
		sp := concatArgs(sig)
		if !c.need(len(sp) == 2, "gen.signature", "Generate", pos, "the signature is not nonce and tag: %s", sig) {
			continue
		}
		m, why := readMAC(sp[1])
		if !c.need(why == "", "gen.mac", "Generate", pos, "%s", why) {
			continue
		}
		nb, fresh := cryptoBytes(st, sp[0])
		c.need(fresh && nb >= 12 && m.nonce == sp[0], "gen.nonce", "Generate", pos, "the nonce is not fresh random data bound to the key: %s", sp[0])
		c.need(pad2 >= lo2 && digits62(nb+32) <= hi2, "gen.width", "Generate", pos, "the signature is padded to %d digits, %d to %d are accepted", pad2, lo2, hi2)
		c.need(m.key == g.Ctor[1], "gen.key", "Generate", pos, "the MAC key is not derived from the secret")
		k := len(m.parts)
		c.need(m.parts[k-1] == val, "gen.mac.value", "Generate", pos, "the MAC does not end with the value")
		lab, _ := m.parts[0].str()
		mid := m.parts[1 : k-1]
		// the prefix may be a constant that was joined with the label
		pre := rest
		preOK := len(pre) == len(mid)
		for i := range mid {
			preOK = preOK && i < len(pre) && mid[i] == pre[i]
		}
		if len(pre) == 1 && len(mid) == 0 {
			if s, ok := pre[0].str(); ok && strings.HasSuffix(lab, s) {
				lab = strings.TrimSuffix(lab, s)
				preOK = true
			}
		}
		c.need(preOK, "gen.prefix", "Generate", pos, "the prefix is not authenticated: %v %v", pre, mid)
		if vm != nil {
			c.need(labels[lab] && m.hash == vm.hash && m.kdf == vm.kdf && info0(m.info) == info0(vm.info), "agree", "Generate", pos, "generation and verification compute different MACs")
		}
		if len(pre) > 0 {
			last := pre[len(pre)-1]
			s, isC := last.str()
			c.need(isC && strings.HasSuffix(s, "_"), "gen.separator", "Generate", pos, "the prefix is not separated from the value")
			c.need(cleanPrefix(st, pre), "gen.prefix.chars", "Generate", pos, "the prefix may contain the separator")
		}
	}
	c.floor("gen.mac", 1, "generated tokens")
	c.floor("agree", 1, "generated tokens")

	// Prefixes of the token kinds.
	tk := c.root(pkgVerif, "Token", "Generate")
	kinds := map[string]string{"TokenType_TOKEN_TYPE_ACCESS_TOKEN": "sldat_", "TokenType_TOKEN_TYPE_REFRESH_TOKEN": "sldrt_", "TokenType_TOKEN_TYPE_PHANTOM_TOKEN": "sldpt_"}
	seen := map[string]bool{}
	for _, o := range tk.Outs {
		st, pos := o.st, outPos(tk, o)
		if !isNil(st, o.res[1]) {
			c.need(same(st, o.res[0], mkStr("")), "token.failure", "Token", pos, "a value is returned with an error")
			continue
		}
		c.need(nonNil(st, tk.Args[1]), "token.nil", "Token", pos, "an absent token is processed")
		typ := tk.rd(st, tk.Args[1], "TokenType")
		first, _ := concatArgs(o.res[0])[0].str()
		for k, p := range kinds {
			is := st.facts.eval(mkEq(typ, c.constOf("api/oidc/token/v1", k)))
			has := strings.HasPrefix(first, p)
			c.need(!has || is == 1, "token.prefix", "Token", pos, "the prefix %s is used for another kind of token", p)
			c.need(has || is == -1, "token.prefix", "Token", pos, "a token of kind %s lacks the prefix %s", k, p)
			if has {
				seen[p] = true
			}
		}
		parts := concatArgs(o.res[0])
		sig, _, _, ok := takeNumber(parts, st)
		if ok {
			sp := concatArgs(sig)
			m, why := readMAC(sp[len(sp)-1])
			c.need(why == "" && m.key == tk.Ctor[1], "token.mac", "Token", pos, "the token value is not authenticated with the secret: %s", why)
		} else {
			c.need(false, "token.mac", "Token", pos, "the token value is not a verifiable identifier: %s", o.res[0])
		}
	}
	c.need(len(seen) == 3, "token.kinds", "Token", "-", "not all kinds of tokens have a prefix")
	c.floor("token.mac", 1, "token values")

	// Sources.
	for _, s := range []struct{ ctor, fn string }{{"UUIDv4Source", "github.com/gofrs/uuid.NewV4"}, {"UUIDv7Source", "github.com/gofrs/uuid.NewV7"}} {
		r := c.closure(pkgVerif, s.ctor)
		for _, o := range r.Outs {
			st, pos := o.st, outPos(r, o)
			cs := calls(st, s.fn)
			if !isNil(st, o.res[1]) {
				c.need(nonNil(st, o.res[1]), "source.error", s.ctor, pos, "the error may be nil")
				continue
			}
			c.need(len(cs) == 1 && okCall(st, cs[0], 1) && stripConv(o.res[0]) == res(cs[0], 0), "source.value", s.ctor, pos, "the value is not a new %s", s.fn)
		}
	}
	c.floor("source.value", 2, "sources")
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// fixedBytes recognises the big-endian bytes of a number in a fixed width.
func fixedBytes(t *Term) (num *Term, width int64, ok bool) {
	if callName(t) != "(*math/big.Int).FillBytes" {
		return nil, 0, false
	}
	z := t.Args[1]
	if z.Op == "zeros" && len(z.Args) > 0 {
		w, ok := z.Args[0].int()
		return t.Args[0], w, ok
	}
	if w, err := strconv.ParseInt(strings.TrimSuffix(strings.TrimPrefix(z.String(), "zeros("), ")"), 10, 64); err == nil {
		return t.Args[0], w, true
	}
	return nil, 0, false
}

// decoded tells whether a number was successfully parsed in base 62 from a
// part of the input.
func decoded(st *State, num, in *Term) bool {
	for _, ev := range calls(st, "(*math/big.Int).SetString") {
		b, _ := ev.Args[2].int()
		if (ev.Args[0] == num || res(ev, 0) == num) && contains(ev.Args[1], in) && b == 62 && st.facts.eval(res(ev, 1)) == 1 {
			return true
		}
	}
	return false
}

func bitsFit(st *State, num *Term, bits int64) bool {
	for cnd, pol := range st.facts.m {
		if cnd.Op != "lt" || pol {
			continue
		}
		// not (k < BitLen)
		k, ok := cnd.Args[0].int()
		if ok && k <= bits && callName(cnd.Args[1]) == "(*math/big.Int).BitLen" && cnd.Args[1].Args[0] == num {
			return true
		}
		if ok && k <= bits && cnd.Args[1].Op == "res" && callName(cnd.Args[1].Args[0]) == "(*math/big.Int).BitLen" && cnd.Args[1].Args[0].Args[0] == num {
			return true
		}
	}
	return false
}

// isSplit tells whether the texts are the pieces of an input split at a
// separator, joined by it again.
func isSplit(l []*Term, in *Term) bool {
	if len(l) == 3 {
		// the first piece, and the rest in one
		x := l[2]
		if len(x.Args) == 2 && x.Args[1] == mkConcat(types.Typ[types.String], l[0], l[1]) && callName(x) == "strings.TrimPrefix" && x.Args[0] == in && isSplit(l[:1:1], in) {
			if s, ok := l[1].str(); ok && s == "_" {
				return true
			}
		}
		if callName(x) == "strings.Join" && len(x.Args) == 2 && x.Args[0].Op == "pslice" {
			ps := x.Args[0]
			from, ok := ps.Args[1].int()
			sep, _ := x.Args[1].str()
			s, _ := l[1].str()
			if ok && from == 1 && ps.Args[2].Op == "nil" && sep == "_" && s == "_" && strings.HasPrefix(callName(ps.Args[0]), "strings.SplitN") && l[0].Args != nil && contains(l[0], ps.Args[0]) && isSplit(l[:1:1], in) {
				return true
			}
		}
	}
	first := len(l) == 1
	next := int64(0)
	sepPending := false
	for _, t := range l {
		if s, ok := t.str(); ok {
			if !sepPending || s != "_" {
				return false
			}
			sepPending = false
			continue
		}
		if sepPending {
			return false
		}
		if t.Op != "idx" && t.Op != "sel" || len(t.Args) == 0 {
			return false
		}
		base, i := t, int64(-1)
		if t.Op == "idx" {
			base = t.Args[0]
			i, _ = t.Args[1].int()
		} else if t.Args[0].Op == "ia" {
			base = t.Args[0].Args[0]
			i, _ = t.Args[0].Args[1].int()
		}
		if !strings.HasPrefix(callName(base), "strings.SplitN") || base.Args[0] != in || i != next {
			return false
		}
		if sep, _ := base.Args[1].str(); sep != "_" {
			return false
		}
		next++
		sepPending = true
	}
	return next == 3 || first && next == 1
}

// takeNumber removes a padded base 62 number from the end of a text.
func takeNumber(parts []*Term, st *State) (num *Term, pad int64, rest []*Term, ok bool) {
	n := len(parts)
	if n == 0 {
		return nil, 0, nil, false
	}
	t := parts[n-1]
	c := t
	if t.Op == "res" {
		c = t.Args[0]
	}
	if callName(c) != "(*math/big.Int).Text" {
		return nil, 0, nil, false
	}
	if b, _ := c.Args[1].int(); b != 62 {
		return nil, 0, nil, false
	}
	for _, ev := range calls(st, "(*math/big.Int).SetBytes") {
		if ev.Args[0] == c.Args[0] {
			num = ev.Args[1]
		}
	}
	if num == nil {
		return nil, 0, nil, false
	}
	l := mkT(types.Typ[types.Int], "len", "", t)
	rest = parts[:n-1]
	if n >= 2 && callName(parts[n-2]) == "strings.Repeat" {
		z, _ := parts[n-2].Args[0].str()
		cnt := parts[n-2].Args[1]
		if z != "0" {
			return nil, 0, nil, false
		}
		rest = parts[:n-2]
		// pad - len
		if cnt.Op == "bin" && cnt.S == "-" && cnt.Args[1] == l {
			if k, ok := cnt.Args[0].int(); ok {
				return num, k, rest, true
			}
		}
		return nil, 0, nil, false
	}
	lo, _, has, _ := st.facts.bounds(l)
	if !has {
		lo = 1
	}
	return num, lo, rest, true
}

func digits62(bytes int64) int64 { return int64(math.Ceil(float64(8*bytes) / math.Log2(62))) }

func info0(s string) string { return s }

// groups reads the widths of the two groups of the token pattern.
func groups(pat string) (lo1, hi1, lo2, hi2 int64, ok bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) != 5 {
		return
	}
	if re.Sub[0].Op != syntax.OpBeginText || re.Sub[4].Op != syntax.OpEndText || re.Sub[2].Op != syntax.OpLiteral || string(re.Sub[2].Rune) != "_" {
		return
	}
	rng := func(x *syntax.Regexp) (int64, int64, bool) {
		if x.Op != syntax.OpRepeat || x.Sub[0].Op != syntax.OpCharClass {
			return 0, 0, false
		}
		// exactly the digits of base 62
		if s := x.Sub[0].String(); s != "[0-9A-Za-z]" {
			return 0, 0, false
		}
		return int64(x.Min), int64(x.Max), true
	}
	var o1, o2 bool
	lo1, hi1, o1 = rng(re.Sub[1])
	lo2, hi2, o2 = rng(re.Sub[3])
	return lo1, hi1, lo2, hi2, o1 && o2
}

// cleanPrefix tells whether a prefix was checked not to contain the
// separator.
func cleanPrefix(st *State, pre []*Term) bool {
	for i, p := range pre {
		if s, ok := p.str(); ok {
			if i == len(pre)-1 {
				s = strings.TrimSuffix(s, "_")
			}
			if strings.Contains(s, "_") {
				return false
			}
			continue
		}
		ok := false
		for cnd, pol := range st.facts.m {
			if !pol && cnd.Op == "pure" && matchFns[callName(cnd)] && cnd.Args[1] == p {
				if pat, o := pattern(cnd.Args[0]); o {
					// a negated class that contains the separator
					re, err := syntax.Parse(pat, syntax.Perl)
					if err == nil && re.Op == syntax.OpCharClass {
						for i := 0; i < len(re.Rune); i += 2 {
							if re.Rune[i] <= '_' && '_' <= re.Rune[i+1] {
								ok = true
							}
						}
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// closure analyses the function an exported constructor returns.
func (c *Ctx) closure(pkg, ctor string) *Root { return c.closureWith(pkg, ctor, nil) }

func (c *Ctx) closureWith(pkg, ctor string, opt func(e *Engine)) *Root {
	f := c.p.fn(pkg, ctor)
	if f == nil {
		bail("anchor %s.%s not found", pkg, ctor)
	}
	rootCount++
	paramScope = fmt.Sprintf("%s.%s#%d", pkg, ctor, rootCount)
	e := newEngine(c.p)
	if opt != nil {
		opt(e)
	}
	r := &Root{Name: pkg + "." + ctor, E: e}
	r.Ctor = paramTerms(f, 0, "p")
	e.pin = append(append([]*Term{}, r.Ctor...), e.pin...)
	for _, o := range e.run(f, e.ctx(0, nil, f), r.Ctor, nil, newState(), nil) {
		x := o.res[0]
		if x.Fn == nil {
			bail("anchor %s.%s does not return a function: %s", pkg, ctor, x)
		}
		r.Fn = x.Fn
		r.Args = paramTerms(x.Fn, 0, "a")
		if e.Ready != nil {
			e.Ready(o.st, r)
		}
		r.Outs = append(r.Outs, e.run(x.Fn, e.ctx(1, nil, x.Fn), r.Args, x.Args, o.st, nil)...)
	}
	for k := range e.Funcs {
		c.funcs[k] = true
	}
	for k := range e.Sites {
		c.sites[k] = true
	}
	for k := range e.UsedSum {
		c.used[k] = true
	}
	return r
}
