package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, key, what string }

func readKnown() []known {
	var l []known
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		// finding: property=C13 key=<rule|construct> :: text
		rest := strings.TrimPrefix(line, "finding: ")
		head, what, _ := strings.Cut(rest, " :: ")
		var k known
		k.what = what
		if i := strings.Index(head, " key="); i >= 0 {
			k.prop = strings.TrimPrefix(head[:i], "property=")
			k.key = head[i+5:]
		}
		l = append(l, k)
	}
	return l
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: solidcheck check ID... | debug ...")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	start := time.Now()
	p, err := loadProg()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		if os.Args[1] == "check" {
			for _, id := range os.Args[2:] {
				rp := writeReport(id, []string{"the tree could not be loaded: " + err.Error()})
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			}
		}
		os.Exit(1)
	}
	switch os.Args[1] {
	case "debug":
		os.Args = os.Args[1:]
		debugMain(p)
	case "check":
		ids := os.Args[2:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range rules {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		bad := 0
		for _, id := range ids {
			if checkOne(p, id, start) {
				bad++
			}
			start = time.Now()
		}
		if bad > 0 {
			os.Exit(1)
		}
	}
}

func runRule(c *Ctx, r *Rule) {
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(analysisError); ok {
				c.obs = append(c.obs, obligation{key: "analysis", construct: r.ID, pos: "-", msg: "the analysis cannot decide the property on this tree: " + a.msg})
				return
			}
			if os.Getenv("VTRACE") != "" {
				debug.PrintStack()
			}
			c.obs = append(c.obs, obligation{key: "analysis", construct: r.ID, pos: "-", msg: fmt.Sprintf("the analysis failed on this tree: %v", x)})
		}
	}()
	r.Run(c)
}

func checkOne(p *Prog, id string, start time.Time) bool {
	checkStart = time.Now()
	r := rules[id]
	if r == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	c := newCtx(p)
	runRule(c, r)
	// contracts the analysis relied upon
	if id != "C56" && len(c.used) > 0 {
		lc := newCtx(p)
		runRule(lc, &Rule{ID: id, Run: checkLemmas})
		for _, o := range lc.obs {
			if !lemmaUsed(c.used, o.key) {
				continue
			}
			o.key = "lemma/" + o.key
			c.obs = append(c.obs, o)
		}
	}
	kn := readKnown()
	seen := map[string]bool{}
	var viol, knownOut []string
	counts := map[string][2]int{}
	for _, o := range c.obs {
		x := counts[o.key]
		x[0]++
		if o.ok {
			x[1]++
		}
		counts[o.key] = x
		if o.ok {
			continue
		}
		k := o.key + "|" + o.construct
		isKnown := false
		for _, f := range kn {
			if f.prop == id && f.key == k {
				isKnown = true
				if !seen["k"+k] {
					seen["k"+k] = true
					knownOut = append(knownOut, f.what)
				}
			}
		}
		if isKnown {
			continue
		}
		line := fmt.Sprintf("[%s] %s (%s): %s", o.key, o.construct, o.pos, o.msg)
		if !seen[line] {
			seen[line] = true
			viol = append(viol, line)
		}
	}
	if len(c.obs) == 0 {
		viol = append(viol, "[analysis] the rule found nothing to check")
	}
	total, ok := 0, 0
	perRule := map[string]string{}
	for k, x := range counts {
		total += x[0]
		ok += x[1]
		perRule[k] = fmt.Sprintf("%d/%d", x[1], x[0])
	}
	funcs := keys(c.funcs)
	constructs := map[string]bool{}
	var samples []string
	for _, o := range c.obs {
		constructs[o.construct+"@"+o.pos] = true
		s := fmt.Sprintf("%s at %s (%s)", o.key, o.construct, o.pos)
		if o.ok && !seen["s"+s] && len(samples) < 12 {
			seen["s"+s] = true
			samples = append(samples, s)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	expl := r.Explain
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":         expl,
			"rule":                "every obligation is an instance of one of the rules at a construct of the current source; the property holds when all are discharged on every abstract path",
			"obligations":         total,
			"discharged":          ok,
			"per_rule":            perRule,
			"functions_analysed":  len(funcs),
			"functions":           head(funcs, 60),
			"call_sites_analysed": len(c.sites),
			"constructs":          len(constructs),
			"operations":          keysRoots(c.roots),
			"contracts_used":      keys(c.used),
			"merged_states":       c.forced,
			"samples":             samples,
			"known_findings":      knownOut,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for _, k := range knownOut {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(viol) > 0 {
		for i, v := range viol {
			if i >= 25 {
				fmt.Printf("  ... %d more\n", len(viol)-i)
				break
			}
			fmt.Println("  " + v)
		}
		rp := writeReport(id, viol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return true
	}
	fmt.Printf("ok property=%s obligations=%d functions=%d\n", id, total, len(funcs))
	return false
}

var assumptions = []string{
	"implementations of the storage, generator and token interfaces supplied by the embedding program do not modify their arguments, except for documented out-parameters",
	"standard library and third-party functions behave as documented; their models are listed in checker/models.go",
	"times are compared at the granularity of seconds",
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func keysRoots(m map[string]*Root) []string {
	var l []string
	for k, r := range m {
		l = append(l, fmt.Sprintf("%s: %d outcomes, %d events", k, len(r.Outs), len(r.Evs)))
	}
	sort.Strings(l)
	return l
}

func head(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

func writeReport(id string, lines []string) string {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, id+".report.txt")
	os.WriteFile(f, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
	return f
}
