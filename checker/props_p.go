package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// found is something wrong with a function of the parser.
type found struct {
	k    cat
	st   *State
	pos  token.Pos
	text string
}

type fnResult struct {
	fn    *inst
	found []found
	undec []string
	nOK   map[cat]int
	paths int
	deps  map[*inst]bool // functions abstracted at calls
	sums  string         // what was known of them
	calls []call
	nest  []found // calls without a bound
	// wrong with the accounting of nesting by each counter
	uneven map[int][]found
}

// call is a call of a function of the parser: how much further each counter
// of the parser is, and whether it is bounded there.
type call struct {
	from, to *inst
	delta    []int64
	bound    []bool
	val      []*Term
	st       *State
	pos      token.Pos
}

func (p *pctx) methods() []*ssa.Function {
	var r []*ssa.Function
	ms := p.c.ld.prog.MethodSets.MethodSet(types.NewPointer(p.parserT))
	for i := 0; i < ms.Len(); i++ {
		if fn := p.c.ld.prog.MethodValue(ms.At(i)); fn != nil && fn.Pkg == p.pkg {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}

// deep tells whether a path is one on which a nesting bound was exceeded.
func (p *pctx) deep(st *State, entry *Term) bool {
	for _, c := range p.cnts {
		v := entry
		for _, k := range c.path {
			v = v.args[k]
		}
		lo, hi := st.rng(v, true)
		if c.sign > 0 && lo-c.init >= deepNest || c.sign < 0 && c.init-hi >= deepNest {
			return true
		}
	}
	return false
}

// analyse runs one function and matches its paths with its production.
func (p *pctx) analyse(sum *inst) (r *fnResult) {
	fn, name := sum.fn, sum.name
	r = &fnResult{fn: sum, nOK: map[cat]int{}, uneven: map[int][]found{}}
	if os.Getenv("TCHECK_TIME") != "" {
		t0, s0 := time.Now(), p.in.steps
		defer func() {
			fmt.Fprintln(os.Stderr, "analyse", sum.key, name, r.paths, len(r.found), r.undec, time.Since(t0), p.in.steps-s0)
			for i, f := range r.found {
				if i < 3 {
					fmt.Fprintln(os.Stderr, "    ", p.c.ld.pos(f.pos), f.k, f.text)
				}
			}
		}()
	}
	p.deps = map[*inst]bool{}
	p.in.max = p.in.steps + 400_000
	defer func() {
		p.target, r.deps, r.sums = "", p.deps, p.uses(p.deps)
		if x := recover(); x != nil {
			u, ok := x.(undecidedErr)
			if !ok {
				panic(x)
			}
			r.undec = append(r.undec, u.msg)
		}
	}()
	st, recv := p.open()
	for _, c := range p.cnts {
		if w, _, _ := intInfo(c.typ); p.roots[sum] {
			p.set(st, c.tfLeaf, mkInt(w, uint64(c.init)))
		} else {
			st.narrow(p.get(st, c.tfLeaf), c.inv)
		}
	}
	p.sample = st.clone()
	entry, _ := st.heap.get(p.pobj)
	cnt0 := p.counters(st)
	tok0, pos0 := p.get(st, p.tok), p.get(st, p.pos)
	p.target, p.entered = sum.key, false
	outs := p.in.callFn(st, fn, append([]*Term{recv}, sum.args...), nil, token.NoPos, nil)
	p.target = ""
	prod := p.prodOf(name)
	first, _ := p.first(prod)
	all, eof := p.allToks(), p.set1("EOF")
	for _, o := range outs {
		r.paths++
		if o.st.undec != "" {
			r.undec = append(r.undec, o.st.undec)
			continue
		}
		evs := eventsSince(o.st.log, nil)
		n0 := len(r.found)
		p.nesting(r, evs, o.st, cnt0)
		for i, v := range p.counters(o.st) {
			if d, ok := p.delta(o.st, v, cnt0[i]); !ok || d != 0 {
				if o.kind == outPanic && name != "File" {
					sum.leak[i] = true // its callers may restore it
					continue
				}
				r.uneven[i] = append(r.uneven[i], found{catNest, o.st, o.pos, "may end with another nesting depth than it began with"})
			}
		}
		w := &walker{p: p, name: name, maskMemo: map[*State]map[*Term]tokSet{}}
		deep := p.deep(o.st, entry)
		w.bad = func(k cat, st *State, pos token.Pos, format string, args ...any) {
			if k == catRefused && deep {
				return
			}
			r.found = append(r.found, found{k, st, pos, fmt.Sprintf(format, args...)})
		}
		cs := w.run(evs, o.st, []pcfg{{k: &gStack{prod, nil}, look: all}})
		if len(cs) == 0 {
			continue // cannot happen
		}
		for _, e := range allEvents(evs) {
			// the text of a token is a matter of the scanner
			if e.kind == "oob" && !(e.name == "slice" && (strings.HasSuffix(e.args[0].s, "File).Offset") || e.args[1] == lenTerm(p.get(o.st, p.src)))) {
				w.bad(catPanic, o.st, e.pos, "the index may be out of range")
			}
		}
		// progress
		q := &walker{p: p, maskMemo: w.maskMemo, bad: func(cat, *State, token.Pos, string, ...any) {}}
		stuck := false
		for _, c := range q.run(evs, o.st, []pcfg{{dirty: true, look: all &^ eof}}) {
			stuck = stuck || !c.prog && c.look&w.mask(p.get(o.st, p.tok), o.st) != 0
		}
		if o.kind == outPanic {
			v := o.val
			if v == nil || v.op != OpIface || !p.own(v.typ) {
				w.bad(catPanic, o.st, o.pos, "panics with %s", v)
				continue
			}
			if name == "File" {
				w.bad(catPanic, o.st, o.pos, "parsing ends with a panic of %s", v)
			}
			sum.panics[v.String()] = v
			sum.lazy = sum.lazy || stuck
			for _, c := range cs {
				if !c.dirty {
					w.bad(catSilent, o.st, o.pos, "gives up without reporting an error")
				}
			}
			r.note(n0, catSilent)
			continue
		}
		v := o.val
		if v.op == OpNil {
			sum.nullable = true
			for _, c := range cs {
				if c.dirty {
					w.bad(catSilent, o.st, o.pos, "returns nothing after an error")
				} else if m := c.look & w.mask(tok0, o.st); m&first != 0 || c.prog {
					w.bad(catRefused, o.st, o.pos, "returns nothing though %s may come next", p.names(m&first))
				}
			}
			r.note(n0, catRefused)
			continue
		}
		if stuck && name != "File" {
			w.bad(catProgress, o.st, o.pos, "may return without having consumed a token")
		}
		tok, pos := p.get(o.st, p.tok), p.get(o.st, p.pos)
		for _, c := range cs {
			m := c.look & w.mask(tok, o.st)
			if m == 0 {
				continue
			}
			if c.dirty {
				p.badDef(w, o, v, pos0, pos, m)
				continue
			}
			exp, end := p.allowed(c.k)
			if name == "File" {
				// only the end of the file may follow
				if m != eof {
					w.bad(catGrammar, o.st, o.pos, "ends though %s may follow", p.names(m&^eof))
				}
			}
			if !end {
				w.bad(catGrammar, o.st, o.pos, "the %s may be complete though the grammar has %s next", name, p.names(exp))
				continue
			}
			if x := m & exp; x != 0 {
				w.bad(catRefused, o.st, o.pos, "does not read %s, which may come next", p.names(x))
			}
			root, _, ok := p.finish(c.k, c.tr).build(name)
			if !ok {
				p.in.fail("the nodes read by %s are not known", fn.Name())
			}
			if s := w.match(o.st, v, root, c); s != "" {
				w.bad(catTree, o.st, o.pos, "%s", s)
			}
		}
		r.note(n0, catGrammar, catRefused, catTree, catProgress, catErrPos)
	}
	return r
}

const maxNest = 200_000

// nesting notes the calls of functions of the parser on a path.
func (p *pctx) nesting(r *fnResult, evs []*Ev, st *State, cnt0 []*Term) {
	for _, e := range evs {
		switch {
		case e.loop != nil:
			for _, it := range e.loop.iters {
				p.nesting(r, eventsSince(it.log, iterMark(e.loop, it)), it, cnt0)
			}
		case e.kind == "rec":
			r.nest = append(r.nest, found{catNest, st, e.pos, "calls itself without a bound: " + e.name})
		case p.callee[e] != nil:
			c := call{from: r.fn, to: p.callee[e], st: st, pos: e.pos}
			for i, v := range e.args[2:] {
				d, ok := p.delta(st, v, cnt0[i])
				lo, hi := st.rng(v, true)
				k := p.cnts[i]
				if d *= k.sign; !ok {
					d = -1 << 40
				}
				if k.sign < 0 {
					hi = k.init - lo
				}
				c.delta = append(c.delta, d)
				c.bound = append(c.bound, hi <= maxNest)
				c.val = append(c.val, v)
			}
			r.calls = append(r.calls, c)
		}
	}
}

func (p *pctx) delta(st *State, a, b *Term) (int64, bool) {
	lo, hi := st.rng(mkSub(64, a, b), true)
	return lo, lo == hi
}

// nested checks that no functions call each other without getting deeper in a
// counter that is bounded.
func (p *pctx) nested(res []*fnResult) {
	n := len(p.counters(p.sample))
	ids := map[*inst]int{}
	for i, r := range res {
		ids[r.fn] = i
	}
	var best []found
	for k := 0; k < n || k == 0; k++ {
		var bad []found
		type edge struct {
			a, b int
			d    int64
			c    *call
		}
		var es []edge
		for _, r := range res {
			for i := range r.calls {
				c := &r.calls[i]
				e := edge{ids[c.from], ids[c.to], 0, c}
				if n > 0 {
					if e.d = c.delta[k]; e.d > 0 && !c.bound[k] {
						bad = append(bad, found{catNest, c.st, c.pos, "the nesting depth is not bounded when it calls " + c.to.fn.Name()})
					}
				}
				es = append(es, e)
			}
		}
		for _, r := range res {
			bad = append(bad, r.uneven[k]...)
		}
		// a cycle along which the counter does not grow
		m := int64(len(res) + 1)
		dist := make([]int64, len(res))
		for i := 0; i <= len(res)+1 && len(bad) == 0; i++ {
			ch := false
			for _, e := range es {
				if w := dist[e.a] + e.d*m - 1; w < dist[e.b] {
					dist[e.b] = w
					ch = true
					if i > len(res) {
						bad = append(bad, found{catNest, e.c.st, e.c.pos, e.c.from.fn.Name() + " and " + e.c.to.fn.Name() + " may call each other without getting deeper"})
						break
					}
				}
			}
			if !ch {
				break
			}
		}
		if k == 0 || len(bad) == 0 {
			best = bad
		}
		for range es {
			if k == 0 {
				p.j.ok(catNest)
			}
		}
	}
	for _, r := range res {
		best = append(best, r.nest...)
	}
	for _, f := range best {
		p.j.bad(f.k, "nesting", f.st, f.pos, "%s", f.text)
	}
}

func (r *fnResult) note(n0 int, cats ...cat) {
	for _, k := range cats {
		bad := false
		for _, f := range r.found[n0:] {
			bad = bad || f.k == k
		}
		if !bad {
			r.nOK[k]++
		}
	}
}

func (p *pctx) own(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == p.pkg.Pkg
}

// badDef checks the placeholder left for what could not be parsed.
func (p *pctx) badDef(w *walker, o Out, v, from, to *Term, m tokSet) {
	if v.op != OpIface || typName(v.typ) != "BadDef" {
		return
	}
	x := v.args[0]
	if x.op != OpPtr || x.n < 0 {
		p.in.fail("the placeholder of a bad definition is not known")
	}
	d, _ := o.st.heap.get(int(x.n))
	u := p.in.otyp[int(x.n)].Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := p.in.project(o.st, d, mkI(int64(i)), true, u.Field(i).Type())
		switch u.Field(i).Name() {
		case "From":
			if f != from {
				w.bad(catRecover, o.st, o.pos, "the bad definition does not begin at its first token")
			}
		case "To":
			if f != to {
				w.bad(catRecover, o.st, o.pos, "the bad definition does not end where parsing goes on")
			}
		}
	}
	ok := p.set1("EOF") | p.defToks()
	if m&^ok != 0 {
		w.bad(catRecover, o.st, o.pos, "parsing goes on at %s after a bad definition", p.names(m&^ok))
	}
}

// variants are the productions that make the same kind of node.
func (p *pctx) variants(s *inst) []string {
	n := strings.TrimRight(s.name, "{}()")
	if grammar[n] != nil {
		return []string{n}
	}
	return []string{n + "{}", n + "()"}
}

// settle analyses all functions abstracted at calls until what their callers
// rely on is known; if clean is set, only as long as nothing is wrong.
func (p *pctx) settle(clean bool) []*fnResult {
	for {
		rs := p.settle1(clean)
		if rs == nil || p.invariant(rs) {
			return rs
		}
	}
}

// invariant tells whether the counters are at all calls what is supposed of
// them; what is not so is supposed no more.
func (p *pctx) invariant(rs []*fnResult) bool {
	good := true
	for _, r := range rs {
		for _, c := range r.calls {
			for i, v := range c.val {
				k := &p.cnts[i]
				lo, hi := c.st.rng(v, true)
				if k.inv != k.any && (lo < k.inv.lo || hi > k.inv.hi) {
					k.inv, good = k.any, false
				}
				if p.roots[c.to] && (lo != k.init || hi != k.init) {
					p.noRoots, good = true, false
				}
			}
		}
	}
	return good
}

func (p *pctx) settle1(clean bool) []*fnResult {
	res := map[string]*fnResult{}
	p.roots = map[*inst]bool{}
	for _, s := range p.order {
		if s.name == "File" && !p.inl[s.key] {
			p.roots[s] = true
			r := p.analyse(s)
			res[s.key] = r
			for d := range r.deps {
				if !p.noRoots {
					p.roots[d] = true
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for i := 0; i < len(p.order); i++ {
			s := p.order[i]
			if p.inl[s.key] {
				continue
			}
			if r := res[s.key]; r != nil && r.sums == p.uses(r.deps) {
				continue
			}
			again = true
			r := p.analyse(s)
			for _, v := range p.variants(s) {
				if r.clean() || v == s.name {
					continue
				}
				old := s.name
				s.name = v
				if r2 := p.analyse(s); r2.clean() {
					r = r2
				} else {
					s.name = old
				}
			}
			if clean && !r.clean() {
				return nil
			}
			res[s.key] = r
		}
	}
	var rs []*fnResult
	for _, s := range p.order {
		if r := res[s.key]; !p.inl[s.key] {
			if clean && !r.clean() {
				return nil
			}
			rs = append(rs, r)
		}
	}
	return rs
}

func (r *fnResult) clean() bool { return len(r.found) == 0 && len(r.undec) == 0 }

// uses tells what is known of the functions abstracted.
func (p *pctx) uses(deps map[*inst]bool) string {
	var xs []string
	for s := range deps {
		ks := make([]string, 0, len(s.panics))
		for k := range s.panics {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		xs = append(xs, fmt.Sprint(s.key, s.name, s.nullable, s.lazy, ks, len(s.leak)))
	}
	sort.Strings(xs)
	return strings.Join(xs, ";")
}

// parser analyses all functions of the parser and reports what is wrong with
// them. A function that does not parse exactly the node it returns is looked
// at as part of its callers, as long as they make up for it.
func (p *pctx) parser(cats ...cat) {
	for _, fn := range p.methods() {
		if fn.Signature.Params().Len() == 0 {
			p.instance(fn, nil)
		}
	}
	root := false
	for _, s := range p.order {
		root = root || s.name == "File"
	}
	if !root {
		p.in.fail("no function of the parser returns a File")
	}
	res := p.settle(false)
	dirty := false
	for _, r := range res {
		if r.clean() {
			continue
		}
		dirty = true
		if !types.IsInterface(p.nodeOf(r.fn.fn)) && r.fn.name != "File" && !p.selfCalls(r.fn.fn, nil) {
			p.inl[r.fn.key] = true
		}
	}
	if dirty {
		var res2 []*fnResult
		if len(p.inl) > 0 {
			p.suspect(res)
			res2 = p.settle(true)
		}
		// functions of the nodes of several kinds, one at a time and together
		batch := p.inl
		sets := p.splits(res)
		for _, base := range []map[string]bool{{}, batch} {
			for _, set := range sets {
				if res2 == nil {
					p.inl = maps.Clone(base)
					for _, s := range set {
						p.inl[s.key] = true
					}
					p.suspect(res)
					res2 = p.settle(true)
				}
			}
			if len(batch) == 0 {
				break
			}
		}
		if res2 != nil {
			res = res2
		} else if len(p.inl) > 0 {
			p.inl = map[string]bool{}
			res = p.settle(false)
		}
	}
	if slices.Contains(cats, catNest) {
		p.nested(res)
	}
	for _, r := range res {
		p.report(r, cats)
	}
}

// splits lists sets of functions that may parse a part of what their callers
// parse, though they return a node of the same kind.
func (p *pctx) splits(res []*fnResult) (sets [][]*inst) {
	var r []*inst
	add := func(s *inst) {
		if s.name != "File" && types.IsInterface(p.nodeOf(s.fn)) && !slices.Contains(r, s) && !p.selfCalls(s.fn, nil) {
			r = append(r, s)
		}
	}
	for _, f := range res {
		if f.clean() {
			continue
		}
		for _, s := range p.order {
			if f.deps[s] && s.name == f.fn.name {
				add(s)
			}
		}
	}
	for _, f := range res {
		if !f.clean() {
			add(f.fn)
		}
	}
	if len(r) > 8 {
		r = r[:8]
	}
	var all []*inst
	whole := map[*ssa.Function]bool{}
	for _, s := range r {
		sets = append(sets, []*inst{s})
		whole[s.fn] = true
		ok := true
		for fn := range whole {
			ok = ok && !p.selfCalls(fn, whole)
		}
		if ok {
			all = append(all, s)
		} else {
			delete(whole, s.fn)
		}
	}
	if len(all) > 1 {
		sets = append(sets, all)
	}
	return sets
}

// suspect moves the functions to the front with which something was wrong, or
// of which a part is looked at in another way now.
func (p *pctx) suspect(res []*fnResult) {
	sus := map[*inst]bool{}
	for _, r := range res {
		sus[r.fn] = !r.clean()
		for d := range r.deps {
			sus[r.fn] = sus[r.fn] || p.inl[d.key]
		}
	}
	slices.SortStableFunc(p.order, func(a, b *inst) int {
		switch {
		case sus[a] == sus[b]:
			return 0
		case sus[a]:
			return -1
		}
		return 1
	})
}

// selfCalls tells whether a function can call itself other than through a
// function that returns one of several kinds of nodes, those given excepted.
func (p *pctx) selfCalls(fn *ssa.Function, but map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function) bool
	f = func(g *ssa.Function) bool {
		for _, c := range callees(g) {
			if c == fn {
				return true
			}
			if seen[c] || c.Pkg != p.pkg && c.Parent() == nil {
				continue
			}
			if t := p.nodeOf(c); t != nil && types.IsInterface(t) && !but[c] {
				continue
			}
			seen[c] = true
			if f(c) {
				return true
			}
		}
		return false
	}
	return f(fn)
}

// callees lists the functions a function calls or makes closures of.
func callees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				switch x := (*o).(type) {
				case *ssa.Function:
					r = append(r, x)
				case *ssa.MakeClosure:
					r = append(r, x.Fn.(*ssa.Function))
				}
			}
		}
	}
	return r
}

func (p *pctx) report(r *fnResult, cats []cat) {
	name := strings.TrimPrefix(r.fn.fn.String(), "(*"+p.pkg.Pkg.Path()+".")
	name = strings.Replace(name, ")", "", 1)
	p.c.nPaths += r.paths
	for _, u := range r.undec {
		p.c.undecided(name, u)
	}
	for _, k := range cats {
		for i := 0; i < r.nOK[k]; i++ {
			p.j.ok(k)
		}
	}
	for _, f := range r.found {
		p.j.bad(f.k, name, f.st, f.pos, "%s", f.text)
	}
}

func init() {
	type part = func(p *pctx, cats ...cat)
	all := []part{(*pctx).scanner, (*pctx).step, (*pctx).startScan}
	// the parser, and with it the scanner if the property is about both
	reg := func(id string, min int, rule string, fs []part, cats ...cat) {
		register(id, min, rule, func(c *Ctx) {
			for _, f := range append([]part{(*pctx).parser}, fs...) {
				c.guard("parser", func() {
					p := newPctx(c, newJudge(c, cats...))
					f(p, cats...)
					c.cover(p.in)
				})
			}
		})
	}
	// the scanner, analysed apart from the parser
	scan := func(id string, min int, rule string, fs []func(p *pctx, cats ...cat), cats ...cat) {
		register(id, min, rule, func(c *Ctx) {
			c.guard("scanner", func() {
				for _, f := range fs {
					p := newPctx(c, newJudge(c, cats...))
					f(p, cats...)
					c.cover(p.in)
				}
			})
		})
	}
	both := append(all[:3:3], (*pctx).advance)
	scan("P01", 130, "tokens are the longest of the lexical grammar", both, catLex, catKeyword, catChar, catComment, catLexErr, catLexOK)
	scan("P02", 100, "tokens, errors and lines are where they are in the source", all, catPos, catLine, catChar)
	scan("P03", 100, "errors are reported for what is malformed, where it is, and for nothing else", all, catLexErr, catLexOK, catChar, catPos)
	scan("P04", 100, "each round of a loop of the scanner consumes a character, and indices are in range", both, catProgress, catPanic, catChar)
	scan("P10", 4, "Parse returns the errors found, in order, and the file", []part{(*pctx).parse}, catResult, catOrder, catPanic)
	reg("P06", 400, "the sequences of tokens accepted are those of the grammar", nil, catGrammar, catRefused, catSilent, catPanic)
	reg("P07", 170, "the syntax tree has a node for each part of the source, in order", nil, catTree)
	reg("P08", 250, "each round of a loop of the parser consumes a token, and no panic escapes; each round of one of the scanner consumes a character", both, catProgress, catPanic)
	reg("P09", 500, "functions of the parser call each other only deeper in a bounded counter, those of the scanner never", []part{(*pctx).scanner, (*pctx).advance}, catNest)
	reg("P11", 220, "errors are reported where they are found, and parsing goes on at the next definition", nil, catErrPos, catRecover, catSilent)
}
