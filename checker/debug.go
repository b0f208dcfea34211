package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

func debugMain(p *Prog) {
	e := newEngine(p)
	f := p.fn(os.Args[1], os.Args[2])
	if f == nil {
		panic("no fn")
	}
	t := time.Now()
	var args []*Term
	for i, x := range f.Params {
		args = append(args, mkT(x.Type(), "param", fmt.Sprintf("p%d", i)))
	}
	if os.Getenv("V") == "2" {
		e.OnEvent = func(st *State, ev *Event) {
			fmt.Println("EVENT", ev.Name, ev.Args)
			var l []string
			for a, v := range st.mem {
				l = append(l, fmt.Sprintf("      %s = %s", a, v))
			}
			sort.Strings(l)
			for _, s := range l {
				fmt.Println(s)
			}
		}
	}
	outs := e.run(f, e.ctx(0, nil, f), args, nil, newState(), nil)
	if len(os.Args) > 3 {
		var no []*Outcome
		for _, o := range outs {
			r := o.res[0]
			if r.Op != "iface" {
				fmt.Println("skip", r)
				continue
			}
			m := p.method(r.T, os.Args[3], nil)
			var as []*Term
			as = append(as, r.Args[0])
			for i, x := range m.Params[1:] {
				as = append(as, mkT(x.Type(), "param", fmt.Sprintf("a%d", i)))
			}
			no = append(no, e.run(m, e.ctx(1, nil, m), as, nil, o.st, nil)...)
		}
		outs = no
	}
	fmt.Println("outcomes", len(outs), "steps", e.steps, "forced", e.forced, time.Since(t))
	if os.Getenv("V") == "" {
		return
	}
	for i, o := range outs {
		fmt.Println("---", i, o.res)
		for _, r := range o.res {
			dumpObj(o.st, r, "  ")
		}
		for _, ev := range o.st.events() {
			fmt.Println("   ev", ev)
		}
		var fs []string
		for c, pol := range o.st.facts.m {
			s := c.String()
			if !pol {
				s = "!" + s
			}
			if len(s) > 300 {
				s = s[:300]
			}
			fs = append(fs, s)
		}
		sort.Strings(fs)
		for _, s := range fs {
			fmt.Println("   fact", s)
		}
	}
}

func dumpObj(st *State, r *Term, ind string) {
	var l []string
	for a, v := range st.mem {
		if rootOf(a) == r || (r.Op == "iface" && rootOf(a) == r.Args[0]) {
			l = append(l, fmt.Sprintf("%s%s = %s", ind, a, v))
		}
	}
	sort.Strings(l)
	for _, s := range l {
		fmt.Println(s)
	}
}

var mergeAt = func() int {
	if s := os.Getenv("VMERGE"); s != "" {
		n := 0
		fmt.Sscan(s, &n)
		return n
	}
	return 200
}()
