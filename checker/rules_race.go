package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsynchronised are operations of library objects that may not be used
// concurrently.
var unsynchronised = []string{
	"(hash.Hash).", "(*bytes.Buffer).", "(*strings.Builder).", "(*math/rand.Rand).", "(math/rand.Source).", "(math/rand.Source64).", "(*math/rand/v2.Rand).",
	"(*encoding/json.Decoder).", "(*encoding/json.Encoder).", "(*bufio.Reader).", "(*bufio.Writer).", "(*bufio.Scanner).", "(*container/list.List).", "(*bytes.Reader).", "(*strings.Reader).", "(net/url.Values).Set", "(net/url.Values).Add", "(net/url.Values).Del", "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del",
	"(*math/big.Int).Set", "(*math/big.Int).Add", "(*math/big.Int).Mul", "(crypto/cipher.Stream).",
}

// lockAcc is one access to memory that several operations share.
type lockAcc struct {
	op, pos, fn string
	write       bool
	locks       map[string]bool // exclusive
	rlocks      map[string]bool
}

// place names memory independently of the analysis that met it: the fields
// leading to it from the object or variable that owns it.
func place(a *Term, owner func(*Term) string) string {
	switch a.Op {
	case "fa", "ia", "mapent":
		p := place(a.Args[0], owner)
		if p == "" {
			return ""
		}
		if a.Op == "fa" {
			return p + "." + a.S
		}
		return p + "[]"
	case "sel", "iface", "ta", "slc", "pslice", "rlock", "once":
		if len(a.Args) == 0 {
			return ""
		}
		return place(a.Args[0], owner)
	}
	return owner(a)
}

func init() {
	register("C61", "shared objects are used by several goroutines without races", "Every operation of every object made by an exported constructor is analysed: accesses to memory that existed before the call (fields of the object and what it holds, package variables) are collected with the locks held; a place that some operation writes needs one lock common to all its accesses.", func(c *Ctx) {
		accs := map[string][]lockAcc{}
		var places []string
		record := func(pl string, a lockAcc) {
			if _, ok := accs[pl]; !ok {
				places = append(places, pl)
			}
			accs[pl] = append(accs[pl], a)
		}
		var ops int
		for _, x := range entries(c) {
			if x.pkg == "sdk/rfcerrors" {
				continue
			}
			name := x.pkg + "." + x.ctor
			if x.method != "" {
				name += "->" + x.method
			}
			func() {
				defer func() {
					if p := recover(); p != nil {
						if b, ok := p.(analysisError); ok {
							c.need(false, "analysed", name, "-", "%v", b)
							return
						}
						panic(p)
					}
				}()
				pre := map[*Term]string{}
				note := func(st *State, e *Engine) {
					put := func(t *Term) {
						walk(t, func(s *Term) bool {
							switch s.Op {
							case "alloc", "mkmap", "mkslice", "clone", "hashobj", "call", "res", "param", "sel", "mapmix":
								pre[s] = ""
							}
							return true
						})
					}
					for a, v := range st.mem {
						put(a)
						put(v)
					}
				}
				var owner func(t *Term) string
				owner = func(t *Term) string {
					if t.Op == "global" {
						if g := globalOf[t]; g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
							return "variable " + short(t.S)
						}
						return ""
					}
					if t.Op == "res" && t.Args[0].Op == "call" {
						if k := containerOps[callName(t.Args[0])]; (k == "get" || k == "add") && place(t.Args[0].Args[0], owner) != "" {
							return "an entry of a shared container"
						}
					}
					if _, ok := pre[t]; ok {
						n := t.Op
						if s := structOf(t); s != nil {
							n = short(types.TypeString(s, nil))
						} else if t.T != nil {
							n = short(t.T.String())
						}
						if t.Op == "param" && strings.HasPrefix(t.S, "a") {
							return ""
						}
						return "object " + x.pkg + "." + x.ctor + " " + n
					}
					return ""
				}
				locksOf := func(st *State) (w, r map[string]bool) {
					w, r = map[string]bool{}, map[string]bool{}
					for k, n := range st.locks {
						if n <= 0 {
							continue
						}
						if k.Op == "rlock" {
							r[place(k, owner)] = true
						} else {
							w[k.Op+place(k, owner)] = true
						}
					}
					return
				}
				see := func(st *State, addr *Term, write bool, fr *frame, ins ssa.Instruction) {
					if fr.fn.Name() == "init" && fr.fn.Synthetic != "" {
						return
					}
					if strings.HasSuffix(c.p.fset.Position(fr.fn.Pos()).Filename, ".pb.go") {
						return
					}
					pl := place(addr, owner)
					if pl == "" {
						return
					}
					w, r := locksOf(st)
					record(pl, lockAcc{name, c.p.pos(ins.Pos()), fnName(fr.fn), write, w, r})
				}
				arm := func(e *Engine) {
					e.OnStore = func(st *State, addr, v *Term, fr *frame, ins ssa.Instruction) { see(st, addr, true, fr, ins) }
					e.OnLoad = func(st *State, addr *Term, fr *frame, ins ssa.Instruction) { see(st, addr, false, fr, ins) }
					e.OnMap = func(st *State, kind string, m *Term, fr *frame, ins ssa.Instruction) {
						see(st, mk("mapent", "", m, tNil), kind == "write", fr, ins)
					}
					e.OnObject = func(st *State, n string, recv *Term, fr *frame, ins ssa.Instruction) {
						switch n {
						case "append":
							// an extension may write behind the end of a slice of others
							if recv.Op == "sel" || recv.Op == "param" || recv.Op == "pslice" {
								see(st, mkIA(recv, tNil), true, fr, ins)
							}
							return
						case "copy":
							see(st, mkIA(recv, tNil), true, fr, ins)
							return
						}
						for _, p := range unsynchronised {
							if strings.HasPrefix(n, p) {
								see(st, mk("fa", "state", recv), true, fr, ins)
							}
						}
					}
				}
				var r *Root
				ready := func(e *Engine) {
					e.Ready = func(st *State, r *Root) {
						note(st, e)
						for _, p := range e.pin {
							pre[p] = ""
						}
						for _, p := range r.Args {
							delete(pre, p)
						}
						arm(e)
					}
				}
				switch x.method {
				case "":
					r = c.rootWith(x.pkg, x.ctor, "", nil, nil, arm)
				case "()":
					r = c.closureWith(x.pkg, x.ctor, ready)
				default:
					r = c.rootWith(x.pkg, x.ctor, x.method, nil, nil, ready)
				}
				ops++
				for _, o := range r.Outs {
					for l, n := range o.st.locks {
						if l.Op == "once" {
							continue
						}
						c.need(n == 0, "released", name, outPos(r, o), "the lock %s is still held when the operation ends", place(l, owner))
					}
				}
				for _, ev := range r.Evs {
					switch ev.Name {
					case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
						c.need(ev.St.locks[ev.Args[0]] <= 1 && ev.St.locks[mk("rlock", "", ev.Args[0])] == 0, "once", name, ev.Pos, "a lock is taken while it is held")
					case "(*sync.RWMutex).RLock":
						c.need(ev.St.locks[ev.Args[0]] == 0, "once", name, ev.Pos, "a lock is taken while it is held")
					case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
						c.need(ev.St.locks[ev.Args[0]] >= 0, "once", name, ev.Pos, "a lock is released that is not held")
					}
				}
				c.need(true, "analysed", name, "-", "")
			}()
		}
		sort.Strings(places)
		for _, pl := range places {
			var writes []lockAcc
			for _, a := range accs[pl] {
				if a.write {
					writes = append(writes, a)
				}
			}
			if len(writes) == 0 {
				continue
			}
			// locks held by every write
			common := map[string]bool{}
			for l := range writes[0].locks {
				common[l] = true
			}
			for _, w := range writes[1:] {
				for l := range common {
					if !w.locks[l] {
						delete(common, l)
					}
				}
			}
			for _, w := range writes {
				c.need(len(common) > 0, "write", w.fn, w.pos, "%s: %s is written without a lock common to all its writers", w.op, pl)
			}
			for _, a := range accs[pl] {
				if a.write {
					continue
				}
				ok := len(common) == 0
				for l := range common {
					if a.locks[l] || a.rlocks[strings.TrimPrefix(l, "fa")] {
						ok = true
					}
				}
				c.need(ok, "read", a.fn, a.pos, "%s: %s is read without the lock under which it is written", a.op, pl)
			}
		}
		c.need(ops >= 100, "operations", "module", "-", "only %d operations were analysed", ops)
		// effects end with the operation
		c.moduleFuncs(func(pkg string, f *ssa.Function) {
			n := 0
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if g, ok := ins.(*ssa.Go); ok {
						n++
						c.need(false, "goroutine", fnName(f), c.p.pos(g.Pos()), "a goroutine outlives the operation that starts it")
					}
				}
			}
			if n == 0 {
				c.need(true, "goroutine", fnName(f), c.p.pos(f.Pos()), "")
			}
		})
	})
}
