package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"maps"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Property is one checked property.
type Property struct {
	id   string
	min  int // obligations confirmed by hand on the reference tree
	rule string
	run  func(c *Ctx)
}

type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

// Ctx collects the verdicts of one property.
type Ctx struct {
	ld       *Loader
	id       string
	tier     string
	thorough bool
	nOblig   int
	nPaths   int
	rules    map[string]int
	viol     []Violation
	seen     map[string]bool
	repeats  int // of violations seen before
	visited  map[string]bool
	callsite int
	// soft: paths the analysis cannot decide are counted, not reported
	soft  bool
	undec map[string]bool
}

// undecided records a path or scenario the analysis could not decide.
func (c *Ctx) undecided(construct, msg string) {
	if c.undec == nil {
		c.undec = map[string]bool{}
	}
	c.undec[construct+": "+msg] = true
}

func (c *Ctx) ok(rule string) {
	c.nOblig++
	c.rules[rule]++
}

func (c *Ctx) bad(rule, construct string, pos token.Pos, path func() []string, format string, args ...any) {
	c.nOblig++
	c.rules[rule]++
	v := Violation{Rule: rule, Construct: construct, Pos: c.ld.pos(pos), Msg: fmt.Sprintf(format, args...)}
	k := v.Rule + "|" + v.Construct + "|" + v.Msg
	if c.seen[k] {
		if c.repeats++; c.repeats > 20*enough {
			overTime.Store(true)
		}
		return
	}
	c.seen[k] = true
	if path != nil {
		v.Path = path()
	}
	c.viol = append(c.viol, v)
	if len(c.viol) >= enough {
		overTime.Store(true)
	}
}

// enough violations end the analysis of a property.
const enough = 60

// guard runs f; an undecided analysis or a panic of the checker is a violation.
func (c *Ctx) guard(construct string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if c.soft {
				c.undecided(construct, fmt.Sprint(r))
				return
			}
			if u, ok := r.(undecidedErr); ok {
				c.bad("decided", construct, token.NoPos, nil, "the analysis could not decide: %s", u.msg)
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			c.bad("decided", construct, token.NoPos, func() []string { return strings.Split(st, "\n") }, "the analysis failed: %v", r)
		}
	}()
	f()
}

func (c *Ctx) cover(in *Interp) {
	for f := range in.visited {
		c.visited[f.String()] = true
	}
	c.callsite += in.callsites
}

var properties = map[string]*Property{}

func register(id string, min int, rule string, run func(c *Ctx)) {
	if min >= 60 { // equivalent code may have far fewer paths
		min /= 6
	}
	properties[id] = &Property{id: id, min: min, rule: rule, run: run}
}

type known struct{ prop, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		id, rest, _ := strings.Cut(l, " ")
		r = append(r, known{id, strings.TrimSpace(rest)})
	}
	return r
}

var verbose bool

// overTime ends the analysis: what is left is not decided.
var overTime atomic.Bool

// watch bounds time and memory of the analysis of one property.
func watch(limit time.Duration, mem uint64) (stop func()) {
	overTime.Store(false)
	done := make(chan bool)
	end := time.Now().Add(limit)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Now().After(end) || m.HeapAlloc > mem {
				overTime.Store(true)
			}
		}
	}()
	return func() { close(done) }
}

func main() {
	prop := flag.String("property", "", "property to check, or all")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif", "output directory")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.BoolVar(&verbose, "v", false, "print details")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	if *list {
		var ids []string
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, properties[id].rule)
		}
		return
	}
	var ids []string
	if *prop == "all" {
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	var ld *Loader
	var lerr error
	terms := maps.Clone(termTab)
	for _, id := range ids {
		start := time.Now()
		// nothing of one property's terms is kept for the next
		termTab = maps.Clone(terms)
		ptrMemo, renMemo = map[*Term]bool{}, map[*Term]bool{}
		scratchSyms, blurSyms = map[scratchKey]*Term{}, map[string]*Term{}
		p := properties[id]
		c := &Ctx{id: id, tier: *tier, soft: true, thorough: *tier == "thorough", rules: map[string]int{}, seen: map[string]bool{}, visited: map[string]bool{}}
		if ld == nil && lerr == nil {
			ld, lerr = load(*repo)
		}
		if lerr != nil {
			c.ld = &Loader{dir: *repo}
			c.bad("load", *repo, token.NoPos, nil, "cannot analyse the repository: %v", lerr)
		} else if p == nil {
			c.ld = ld
			c.bad("load", id, token.NoPos, nil, "no such property")
		} else {
			c.ld = ld
			stop := watch(600*time.Second, 16<<30)
			c.guard(id, func() { p.run(c) })
			stop()
			if len(c.viol) == 0 && c.nOblig < p.min {
				c.bad("coverage", id, token.NoPos, nil, "only %d obligations were found, at least %d are expected: the constructs the rule is about are missing", c.nOblig, p.min)
			}
		}
		if c.report(p, *out, time.Since(start)) {
			code = 1
		}
	}
	os.Exit(code)
}

func (c *Ctx) report(p *Property, out string, wall time.Duration) bool {
	kn := loadKnown(filepath.Join(out, "known-findings.txt"))
	var viol []Violation
	reported := map[string]bool{}
	for _, v := range c.viol {
		listed := false
		for _, k := range kn {
			if k.prop == c.id && k.text == v.Construct+": "+v.Rule {
				listed = true
				if !reported[k.text] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.text)
					reported[k.text] = true
				}
			}
		}
		if !listed {
			viol = append(viol, v)
		}
	}
	fns := make([]string, 0, len(c.visited))
	for f := range c.visited {
		if c.ld.modPath != "" && strings.Contains(f, c.ld.modPath) {
			fns = append(fns, strings.ReplaceAll(f, c.ld.modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	var rules []string
	for r, n := range c.rules {
		rules = append(rules, fmt.Sprintf("%s: %d", r, n))
	}
	sort.Strings(rules)
	rule := ""
	if p != nil {
		rule = p.rule
	}
	expl := fmt.Sprintf("Rule: %s. Abstract interpretation over SSA of the source in %s: %d obligations discharged on %d abstract paths and %d call sites, in %d functions of the repository. Obligations by rule: %s. Functions analysed: %s.",
		rule, c.ld.dir, c.nOblig-len(c.viol), c.nPaths, c.callsite, len(fns), strings.Join(rules, "; "), strings.Join(fns, ", "))
	if len(c.undec) > 0 {
		var us []string
		for u := range c.undec {
			us = append(us, u)
		}
		sort.Strings(us)
		if len(us) > 20 {
			us = us[:20]
		}
		expl += fmt.Sprintf(" Not decided (%d): %s.", len(c.undec), strings.Join(us, "; "))
		if verbose {
			for _, u := range us {
				fmt.Println("  undecided:", u)
			}
		}
	}
	var msgs []string
	for _, v := range viol {
		msgs = append(msgs, fmt.Sprintf("%s: %s [%s] %s", v.Pos, v.Construct, v.Rule, v.Msg))
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": 1, "level": "other",
		"coverage":   map[string]any{"explanation": expl, "obligations": c.nOblig, "discharged": c.nOblig - len(c.viol), "paths": c.nPaths, "functions": fns},
		"wall_s":     wall.Seconds(),
		"violations": len(viol),
	}
	_ = os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(out, "evidence", c.id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(out, "evidence", c.id+".violations.txt")
	_ = os.Remove(rp)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d paths=%d functions=%d undecided=%d wall=%.1fs\n", c.id, c.nOblig, c.nPaths, len(fns), len(c.undec), wall.Seconds())
		return false
	}
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s: %s: [%s] %s\n", v.Pos, v.Construct, v.Rule, v.Msg)
		for _, l := range v.Path {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, m := range msgs {
		if i < 12 || verbose {
			fmt.Println("  " + m)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return true
}
