package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value number. Two equal terms denote the same value in
// every execution represented by the abstract state they occur in.
type Term struct {
	id    int
	Op    string
	S     string
	Args  []*Term
	T     types.Type
	V     constant.Value
	Fn    *ssa.Function
	loops []int
}

type interner struct {
	tab  map[string]*Term
	next int
}

var in = &interner{tab: map[string]*Term{}}

func mkKey(op, s string, args []*Term) string {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func mk(op, s string, args ...*Term) *Term { return mkT(nil, op, s, args...) }

func mkT(t types.Type, op, s string, args ...*Term) *Term {
	return mkL(nil, t, op, s, args...)
}

func mkL(loops []int, t types.Type, op, s string, args ...*Term) *Term {
	k := mkKey(op, s, args)
	if x, ok := in.tab[k]; ok {
		if x.T == nil && t != nil {
			x.T = t
		}
		return x
	}
	in.next++
	x := &Term{id: in.next, Op: op, S: s, Args: args, T: t}
	set := map[int]bool{}
	for _, l := range loops {
		set[l] = true
	}
	for _, a := range args {
		for _, l := range a.loops {
			set[l] = true
		}
	}
	for l := range set {
		x.loops = append(x.loops, l)
	}
	sort.Ints(x.loops)
	in.tab[k] = x
	return x
}

func (t *Term) inLoop(l int) bool {
	for _, x := range t.loops {
		if x == l {
			return true
		}
	}
	return false
}

var (
	tNil   = mk("nil", "")
	tTrue  = mkConst(constant.MakeBool(true), types.Typ[types.Bool])
	tFalse = mkConst(constant.MakeBool(false), types.Typ[types.Bool])
	tHole  = mk("hole", "")
)

func mkConst(v constant.Value, t types.Type) *Term {
	if v == nil {
		return mkT(t, "nil", "")
	}
	var s string
	switch v.Kind() {
	case constant.Bool:
		s = "b:" + v.ExactString()
	case constant.String:
		s = "s:" + constant.StringVal(v)
	case constant.Int:
		s = "i:" + v.ExactString()
	default:
		// integral floats used as integers
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
			s = "i:" + v.ExactString()
		} else {
			s = "f:" + v.ExactString()
		}
	}
	x := mkT(t, "const", s)
	x.V = v
	return x
}

func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkInt(i int64) *Term  { return mkConst(constant.MakeInt64(i), types.Typ[types.Int64]) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.Op == "const" || t.Op == "nil" }

func (t *Term) str() (string, bool) {
	if t.Op == "const" && t.V.Kind() == constant.String {
		return constant.StringVal(t.V), true
	}
	return "", false
}

func (t *Term) int() (int64, bool) {
	if t.Op == "const" && t.V.Kind() == constant.Int {
		if i, ok := constant.Int64Val(t.V); ok {
			return i, true
		}
	}
	return 0, false
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zeroOf returns the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		}
		return tNil
	case *types.Struct:
		return mkT(t, "zero", t.String())
	case *types.Array:
		return mkT(t, "zero", t.String())
	}
	return tNil
}

func mkNot(c *Term) *Term {
	if c == tTrue {
		return tFalse
	}
	if c == tFalse {
		return tTrue
	}
	if c.Op == "not" {
		return c.Args[0]
	}
	return mkT(types.Typ[types.Bool], "not", "", c)
}

// plus builds x + c in the normal form plus(x; c).
func mkPlus(x *Term, c int64) *Term {
	if i, ok := x.int(); ok {
		return mkInt(i + c)
	}
	if x.Op == "plus" {
		k, _ := strconv.ParseInt(x.S, 10, 64)
		return mkPlus(x.Args[0], k+c)
	}
	if c == 0 {
		return x
	}
	return mkT(x.T, "plus", strconv.FormatInt(c, 10), x)
}

func splitPlus(x *Term) (*Term, int64) {
	if x.Op == "plus" {
		k, _ := strconv.ParseInt(x.S, 10, 64)
		return x.Args[0], k
	}
	if i, ok := x.int(); ok {
		return nil, i
	}
	return x, 0
}

func neverNil(t *Term) bool {
	switch t.Op {
	case "alloc", "iface", "func", "closure", "mkmap", "fa", "ia", "global", "mkslice", "clone", "new", "hashobj":
		return true
	case "slc":
		return neverNil(t.Args[0])
	case "const":
		return true
	case "gval":
		// error sentinels of the program are initialised once and never nil
		return t.T != nil && isErrorType(t.T)
	case "pure":
		switch t.S {
		case "fmt.Errorf", "errors.New", "net/http.NewRequestWithContext", "errors.Join":
			return true
		}
		return nonNilPure[t.S]
	case "res":
		if t.Args[0].Op == "call" {
			return nonNilPure[t.Args[0].S]
		}
	}
	return false
}

var nonNilPure = map[string]bool{}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "const" && b.Op == "const" {
		return tFalse
	}
	if b.isConst() && !a.isConst() {
		a, b = b, a
	}
	// here: if one is constant it is a
	if a.Op == "nil" && neverNil(b) {
		if b.Op != "const" {
			return tFalse
		}
	}
	if a == tTrue {
		return b
	}
	if a == tFalse {
		return mkNot(b)
	}
	if a.Op == "const" {
		if b.Op == "len" {
			if i, ok := a.int(); ok && i == 0 && isStringish(b.Args[0]) {
				return mkEq(mkStr(""), b.Args[0])
			}
		}
		if i, ok := a.int(); ok {
			if b.Op == "plus" {
				x, k := splitPlus(b)
				return mkEq(mkInt(i-k), x)
			}
			if b.Op == "pure" && (b.S == "crypto/subtle.ConstantTimeCompare" || b.S == "crypto/subtle.ConstantTimeEq") {
				if i == 1 {
					return mkEq(b.Args[0], b.Args[1])
				}
				if i == 0 {
					return mkNot(mkEq(b.Args[0], b.Args[1]))
				}
				return tFalse
			}
			if b.Op == "pure" && (b.S == "bytes.Compare" || b.S == "strings.Compare" || b.S == "cmp.Compare") && i == 0 {
				return mkEq(b.Args[0], b.Args[1])
			}
		}
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.S != b.S {
			return tFalse
		}
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return tFalse
	}
	if a.Op == "plus" && b.Op == "plus" && a.S == b.S {
		return mkEq(a.Args[0], b.Args[0])
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	return mkT(types.Typ[types.Bool], "eq", "", a, b)
}

func isStringish(t *Term) bool {
	if t.T != nil {
		return isStringType(t.T) || t.T.String() == "[]byte"
	}
	return false
}

// mkLt builds a < b, normalised to lt(x, y+k) with the constant on the right.
func mkLt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	x, k1 := splitPlus(a)
	y, k2 := splitPlus(b)
	if x == nil && y == nil {
		return mkBool(k1 < k2)
	}
	if x == y {
		return mkBool(k1 < k2)
	}
	if x == nil {
		// k1 < y + k2
		c := k1 - k2
		if c < 0 && nonNeg(y) {
			return tTrue
		}
		if y.Op == "len" && isStringish(y.Args[0]) && c == 0 {
			return mkNot(mkEq(y.Args[0], mkStr("")))
		}
		if c == 0 && nonNeg(y) {
			return mkNot(mkEq(y, mkInt(0)))
		}
		return mkT(types.Typ[types.Bool], "lt", "", mkInt(c), y)
	}
	if y == nil {
		c := k2 - k1
		if c <= 0 && nonNeg(x) {
			return tFalse
		}
		// x < c  <=>  not (c-1 < x)
		return mkNot(mkLt(mkInt(c-1), x))
	}
	// x + k1 < y + k2
	return mkT(types.Typ[types.Bool], "lt", "", x, mkPlus(y, k2-k1))
}

func nonNeg(t *Term) bool {
	return t.Op == "len" || isUnsigned(t.T)
}

// sub replaces a subterm.
func subst(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, from, to)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	n := mkT(t.T, t.Op, t.S, args...)
	n.V, n.Fn = t.V, t.Fn
	return n
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

// walk visits all subterms.
func walk(t *Term, f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.Args {
		walk(a, f)
	}
}

func (t *Term) String() string {
	switch t.Op {
	case "nil":
		return "nil"
	case "const":
		if s, ok := t.str(); ok {
			return strconv.Quote(s)
		}
		return t.V.ExactString()
	case "param":
		if i := strings.IndexByte(t.S, 0); i >= 0 {
			return t.S[:i]
		}
		return t.S
	case "sel":
		a := t.Args[0]
		if a.Op == "fa" {
			return a.String()
		}
		if a.Op == "ia" {
			return a.String()
		}
		return "*" + a.String()
	case "fa", "fld":
		return t.Args[0].String() + "." + t.S
	case "ia":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "eq":
		return "(" + t.Args[0].String() + " == " + t.Args[1].String() + ")"
	case "lt":
		return "(" + t.Args[0].String() + " < " + t.Args[1].String() + ")"
	case "not":
		return "!" + t.Args[0].String()
	case "plus":
		return "(" + t.Args[0].String() + "+" + t.S + ")"
	case "res":
		return t.Args[0].String() + "#" + t.S
	case "alloc":
		return "new@" + t.S
	case "call":
		i := strings.IndexByte(t.S, '@')
		n := t.S
		if i >= 0 {
			n = n[:i]
		}
		return short(n) + argStr(t.Args)
	case "pure":
		return short(t.S) + argStr(t.Args)
	case "iface":
		return t.Args[0].String()
	case "gval", "global", "func", "zero":
		return short(t.S)
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + argStr(t.Args)
}

func short(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		return pre + s[i+1:]
	}
	return s
}

func argStr(as []*Term) string {
	var p []string
	for _, a := range as {
		x := a.String()
		if len(x) > 120 {
			x = x[:117] + "..."
		}
		p = append(p, x)
	}
	return "(" + strings.Join(p, ", ") + ")"
}

var _ = fmt.Sprint
