package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

const (
	catGrammar  cat = "grammar" // accepted though it is not in the grammar
	catRefused  cat = "valid-refused"
	catTree     cat = "syntax-tree"
	catProgress cat = "progress"
	catErrPos   cat = "error-position"
	catSilent   cat = "silent-failure"
	catRecover  cat = "recovery"
)

// pcfg is a state of the matcher on a path.
type pcfg struct {
	k     *gStack
	tr    *gOp
	dirty bool   // an error has been reported
	rec   bool   // and recovered from
	look  tokSet // what the current token can be
	prog  bool   // a token has been consumed
	masks map[*Term]tokSet
	facts string          // of the values carried around a loop
	vals  map[*Term]*Term // these values: nil, a constant, or true for "not nil"
}

func (c pcfg) key() string {
	return fmt.Sprint(c.k.key(), c.dirty, c.rec, c.prog, c.facts)
}

func (c pcfg) with(s *Term, m tokSet) pcfg {
	n := make(map[*Term]tokSet, len(c.masks)+1)
	for a, b := range c.masks {
		n[a] = b
	}
	n[s] = m
	c.masks = n
	return c
}

// walker matches the paths of one function.
type walker struct {
	p        *pctx
	name     string // production
	maskMemo map[*State]map[*Term]tokSet
	bad      func(k cat, st *State, pos token.Pos, format string, args ...any)
}

// mask is the set of tokens a term can be on a path.
func (w *walker) mask(t *Term, st *State) tokSet {
	if t.op == OpInt {
		return 1 << uint(t.u)
	}
	m := w.maskMemo[st]
	if m == nil {
		m = map[*Term]tokSet{}
		w.maskMemo[st] = m
	}
	if s, ok := m[t]; ok {
		return s
	}
	var conds []*Term
	for _, e := range eventsSince(st.trail, nil) {
		if occurs(e.args[0], t) {
			conds = append(conds, e.args[0])
		}
	}
	dom := st.domOf(t)
	var s tokSet
	for v := range w.p.each(w.p.allToks()) {
		in := false
		for _, d := range dom {
			in = in || d.lo <= v && v <= d.hi
		}
		if !in {
			continue
		}
		sub := map[*Term]*Term{t: mkInt(t.width(), uint64(v))}
		ok := true
		for _, c := range conds {
			if st.eval(subst(c, sub)) == no {
				ok = false
				break
			}
		}
		if ok {
			s |= 1 << uint(v)
		}
	}
	m[t] = s
	return s
}

func (p *pctx) each(s tokSet) func(func(int64) bool) {
	return func(yield func(int64) bool) {
		for v := int64(0); v < 64; v++ {
			if s&(1<<uint(v)) != 0 && !yield(v) {
				return
			}
		}
	}
}

// current is the token and position before the event i.
func (w *walker) current(evs []*Ev, i int, st *State) (tok, pos *Term) {
	for ; i < len(evs); i++ {
		e := evs[i]
		switch e.kind {
		case "tok", "nt", "ntnil", "ntpanic":
			return e.args[0], e.args[1]
		}
		if e.loop != nil {
			if v := w.head(e.loop, w.p.tok); v != nil {
				tok = v.entry
			}
			if v := w.head(e.loop, w.p.pos); v != nil {
				pos = v.entry
			}
			if tok != nil && pos != nil {
				return tok, pos
			}
		}
	}
	return w.p.get(st, w.p.tok), w.p.get(st, w.p.pos)
}

func (w *walker) head(r *LoopRec, l tfLeaf) *LoopVar {
	n := fmt.Sprintf("o%d%v", w.p.pobj, l.path)
	for i := range r.head {
		if r.head[i].name == n {
			return &r.head[i]
		}
	}
	return nil
}

// isErr tells whether an event records an error, and the position it has.
func (w *walker) isErr(e *Ev, st *State) (pos, msg *Term, ok bool) {
	if e.kind != "append" || len(e.args) < 2 {
		return nil, nil, false
	}
	segs := w.p.in.contentOf(st, e.args[1])
	if len(segs) != 1 || segs[0].s != "el" {
		return nil, nil, false
	}
	x := segs[0].args[0]
	el := w.p.errElem
	if pt, isP := el.(*types.Pointer); isP {
		el = pt.Elem()
		if x.op != OpPtr || x.n < 0 || len(x.args) > 0 || !types.Identical(w.p.in.otyp[int(x.n)], el) {
			return nil, nil, false
		}
		x, _ = st.heap.get(int(x.n))
	}
	if x == nil || x.op != OpStruct || !isStructType(el) {
		return nil, nil, false
	}
	u := el.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if isNamed(u.Field(i).Type(), "go/token", "Position") {
			pos = x.args[i]
		} else if b, isB := u.Field(i).Type().Underlying().(*types.Basic); isB && b.Kind() == types.String {
			msg = x.args[i]
		}
	}
	return pos, msg, pos != nil
}

// run follows the events of a path.
func (w *walker) run(evs []*Ev, st *State, cs []pcfg) []pcfg {
	p := w.p
	all := p.allToks()
	eof := p.set1("EOF")
	for i, e := range evs {
		if len(cs) == 0 {
			return nil
		}
		var next []pcfg
		switch {
		case e.kind == "tok":
			m0 := w.mask(e.args[0], st)
			for _, c := range cs {
				m := c.look & m0
				if m == 0 {
					continue
				}
				look := all
				if m == eof {
					look = eof
				}
				prog := c.prog || m&eof == 0
				if c.dirty {
					if x := m & p.defToks(); c.rec && x != 0 {
						w.bad(catRecover, st, e.pos, "skips a definition that begins with %s", p.names(x))
					}
					next = append(next, pcfg{dirty: true, rec: c.rec, look: look, prog: prog, masks: c.with(e.args[0], m).masks})
					continue
				}
				// tokens that go the same way
				type grp struct {
					s   *gStep
					set tokSet
				}
				var gs []*grp
				var wrong tokSet
				by := map[string]*grp{}
				for v := range p.each(m) {
					s := p.token(c.k, c.tr, v, e.args[2])
					if s == nil {
						wrong |= 1 << uint(v)
						continue
					}
					k := s.k.key()
					for o := s.tr; o != c.tr; o = o.prev {
						k += o.kind + o.name + o.slot + ";"
					}
					if by[k] == nil {
						by[k] = &grp{s: s}
						gs = append(gs, by[k])
					}
					by[k].set |= 1 << uint(v)
				}
				if wrong != 0 {
					exp, _ := p.allowed(c.k)
					w.bad(catGrammar, st, e.pos, "takes %s where the grammar has %s", p.names(wrong), p.names(exp))
				}
				for _, g := range gs {
					n := c.with(e.args[0], g.set)
					n.k, n.tr, n.look, n.prog = g.s.k, g.s.tr, look, c.prog || g.set&eof == 0
					next = append(next, n)
				}
			}
		case e.kind == "nt" || e.kind == "ntnil" || e.kind == "ntpanic":
			m0 := w.mask(e.args[0], st)
			first, _ := p.first(p.prodOf(e.name))
			nullable := p.nullable(e.name)
			for _, c := range cs {
				m := c.look & m0
				if e.kind == "ntnil" {
					if m &^= first; m != 0 {
						c.look = m
						next = append(next, c)
					}
					continue
				}
				if nullable {
					m &= first
				}
				if m == 0 {
					continue
				}
				prog := c.prog || m&eof == 0 && !(e.kind == "ntpanic" && e.fail)
				if c.dirty || e.kind == "ntpanic" {
					c.dirty, c.look, c.prog, c.k, c.tr = true, all, prog, nil, nil
					next = append(next, c)
					continue
				}
				exp, _ := p.allowed(c.k)
				if x := m & exp &^ first; x != 0 {
					w.bad(catRefused, st, e.pos, "reads a %s though the next token may be %s", e.name, p.names(x))
				}
				s := p.node(c.k, c.tr, e.name, e.res[0])
				if s == nil {
					w.bad(catGrammar, st, e.pos, "reads a %s where the grammar has %s", e.name, p.names(exp))
					continue
				}
				c.k, c.tr, c.look, c.prog = s.k, s.tr, all, prog
				next = append(next, c)
			}
		case e.loop != nil:
			next = w.loop(e, st, cs)
		case e.kind == "recover":
			for _, c := range cs {
				c.rec = true
				next = append(next, c)
			}
		default:
			pos, _, ok := w.isErr(e, st)
			if !ok {
				next = cs
				break
			}
			tok, cur := w.current(evs, i+1, st)
			m0 := w.mask(tok, st)
			for _, c := range cs {
				m := c.look & m0
				if m == 0 {
					continue
				}
				if !c.dirty {
					exp, end := p.allowed(c.k)
					if x := m & exp; x != 0 {
						w.bad(catRefused, st, e.pos, "reports an error though %s may come next", p.names(x))
					} else if end && m&p.follow(w.name) != 0 {
						w.bad(catRefused, st, e.pos, "reports an error though what was read is complete")
					}
				}
				if !w.posOf(pos, cur) {
					w.bad(catErrPos, st, e.pos, "the error is not reported at the current token")
				}
				c.dirty, c.k, c.tr, c.look = true, nil, nil, m
				next = append(next, c)
			}
		}
		cs = next
	}
	return cs
}

// defToks are the tokens definitions begin with.
func (p *pctx) defToks() tokSet {
	s, _ := p.first(grammar["Def"])
	return s
}

func (w *walker) posOf(pos, cur *Term) bool {
	return pos.op == OpApp && strings.HasSuffix(pos.s, ".Position") && pos.args[len(pos.args)-1] == cur
}

func (p *pctx) prodOf(name string) *gItem {
	g := grammar[name]
	if g == nil {
		p.in.fail("no production for %s", name)
	}
	return g
}

func (p *pctx) nullable(name string) bool {
	for _, s := range p.sums {
		if s.name == name && s.nullable {
			return true
		}
	}
	return false
}

// loop follows any number of iterations.
func (w *walker) loop(e *Ev, st *State, cs []pcfg) []pcfg {
	p := w.p
	rec := e.loop
	tv := w.head(rec, p.tok)
	heads := map[string]*pcfg{}
	var order []string
	add := func(c pcfg) bool {
		k := c.key()
		h := heads[k]
		if h == nil {
			heads[k] = &c
			order = append(order, k)
			return true
		}
		if c.look&^h.look != 0 {
			h.look |= c.look
			return true
		}
		return false
	}
	// carry notes what is known of the values carried around the loop
	carry := func(c *pcfg, st *State, val func(v *LoopVar) *Term) {
		c.facts, c.vals = "", map[*Term]*Term{}
		for i := range rec.head {
			v := &rec.head[i]
			if v.gen == nil {
				continue
			}
			x := val(v)
			if x == nil {
				continue
			}
			switch {
			case x.op == OpNil || x.op == OpBool || x.op == OpInt:
				c.vals[v.gen] = x
				c.facts += fmt.Sprintf("%s=%s;", v.name, x)
			case !isIntTerm(x) && st.eval(mkEq(x, tNil)) == no:
				c.vals[v.gen] = tTrue
				c.facts += v.name + "!;"
			}
		}
	}
	possible := func(c pcfg, st *State) bool {
		for g, x := range c.vals {
			var b *Term
			switch {
			case x == tTrue && g.width() == 0 && !isBoolTerm(g):
				b = mkNot(mkEq(g, tNil))
			case x.op == OpBool:
				if b = g; x == tFalse {
					b = mkNot(g)
				}
			default:
				b = mkEq(g, x)
			}
			if st.eval(b) == no {
				return false
			}
		}
		return true
	}
	marks := map[*gOp]*gOp{} // mark -> trace before the loop
	slots := map[*gOp]map[string]bool{}
	var m0 tokSet
	if tv != nil {
		m0 = w.mask(tv.entry, st)
	}
	for _, c := range cs {
		if tv != nil {
			c.look &= m0
			if c.look == 0 {
				continue
			}
		}
		if !c.dirty {
			p.tidy(&c, nil)
			m := &gOp{prev: c.tr, kind: "mark"}
			marks[m] = c.tr
			slots[m] = map[string]bool{}
			c.tr = m
		}
		carry(&c, st, func(v *LoopVar) *Term { return v.entry })
		add(c)
	}
	evs := make([][]*Ev, len(rec.iters))
	for i, it := range rec.iters {
		evs[i] = eventsSince(it.log, iterMark(rec, it))
	}
	// values appended: slot -> variable still possible
	type row struct {
		it    int
		nodes []*gNode
		c     pcfg
	}
	rows := map[*gOp]map[string][]row{}
	type edge struct {
		to string
		it *State
	}
	var idleAt map[string][]edge // iterations that consume nothing
	for again := true; again; {
		again = false
		idleAt = map[string][]edge{}
		rows = map[*gOp]map[string][]row{}
		for n := 0; n < len(order); n++ {
			h := *heads[order[n]]
			for i, it := range rec.iters {
				if !possible(h, it) {
					continue
				}
				h1 := h
				h1.prog = false
				for _, r := range w.run(evs[i], it, []pcfg{h1}) {
					if tv != nil {
						r.look &= w.mask(tv.next[i], it)
						if r.look == 0 {
							continue
						}
					}
					idle := !r.prog
					r.prog = r.prog || h.prog
					if !r.dirty {
						mk := h.tr
						p.tidy(&r, mk)
						items, ok := forest(r.tr, mk)
						if !ok {
							p.in.fail("an iteration leaves the node it started in")
						}
						for s, ns := range items {
							slots[mk][s] = true
							if rows[mk] == nil {
								rows[mk] = map[string][]row{}
							}
							rows[mk][s] = append(rows[mk][s], row{i, ns, r})
						}
						for s := range slots[mk] {
							if len(items[s]) == 0 {
								if rows[mk] == nil {
									rows[mk] = map[string][]row{}
								}
								rows[mk][s] = append(rows[mk][s], row{i, nil, r})
							}
						}
						r.tr = mk
					}
					r.masks = h.masks
					carry(&r, it, func(v *LoopVar) *Term { return v.next[i] })
					if idle {
						idleAt[order[n]] = append(idleAt[order[n]], edge{r.key(), it})
					}
					if add(r) {
						again = true
					}
				}
			}
		}
	}
	// no round of such iterations
	state := map[string]int{}
	var visit func(k string) *State
	visit = func(k string) *State {
		state[k] = 1
		for _, e := range idleAt[k] {
			if state[e.to] == 1 {
				return e.it
			}
			if state[e.to] == 0 {
				if it := visit(e.to); it != nil {
					return it
				}
			}
		}
		state[k] = 2
		return nil
	}
	for _, k := range order {
		if state[k] == 0 {
			if it := visit(k); it != nil {
				w.bad(catProgress, it, rec.pos, "an iteration may consume no token")
				break
			}
		}
	}
	// what the lists hold after the loop
	gens := map[*gOp]map[string]*Term{}
	for mk, ss := range slots {
		gens[mk] = map[string]*Term{}
		for s := range ss {
			var g *Term
			why := ""
			_, open, okOpen := marks[mk].build("")
		vars:
			for _, pend := range append([]*LoopVar{nil}, pointers(rec)...) {
				for i := range rec.head {
					v := &rec.head[i]
					if v.gen == nil || isIntTerm(v.gen) || v == pend {
						continue
					}
					gc := p.in.contentOf(st, v.gen)
					if len(gc) != 1 {
						continue
					}
					head := listOf(v.gen, nil)
					if pend != nil {
						head = listOf(v.gen, pend.gen)
					}
					ok := true
					for _, r := range rows[mk][s] {
						it := rec.iters[r.it]
						n := newNode("list")
						n.rep[s], n.slots[s] = head, r.nodes
						var x *Term
						if pend != nil {
							x = pend.next[r.it]
						}
						if y := w.matchList(it, listOf(v.next[r.it], x), n, s, r.c); y != "" {
							why, ok = y, false
							break
						}
					}
					if !ok || !okOpen {
						continue
					}
					// before the loop
					var x *Term
					if pend != nil {
						x = pend.entry
					}
					if y := w.matchList(st, listOf(v.entry, x), open[len(open)-1], s, pcfg{}); y != "" {
						why = y
						continue
					}
					g = head
					break vars
				}
			}
			if g == nil {
				w.bad(catTree, st, rec.pos, "the %s read by the loop are not kept in order %s", s, why)
			}
			gens[mk][s] = g
		}
	}
	var out []pcfg
	for _, k := range order {
		c := *heads[k]
		if !possible(c, st) {
			continue
		}
		if tv != nil && tv.gen != nil {
			if c.look &= w.mask(tv.gen, st); c.look == 0 {
				continue
			}
		}
		if !c.dirty {
			mk := c.tr
			c.tr = marks[mk]
			for s, g := range gens[mk] {
				c.tr = &gOp{prev: c.tr, kind: "rep", slot: s, val: g}
			}
		}
		out = append(out, c)
	}
	return out
}

// tidy ends the nodes begun after the mark which cannot go on.
func (p *pctx) tidy(c *pcfg, mark *gOp) {
	n := 0
	for o := c.tr; o != nil && o != mark; o = o.prev {
		switch o.kind {
		case "open":
			n++
		case "close":
			n--
		}
	}
	k, tr := c.k, c.tr
	for ; n > 0 && k != nil; k = k.next {
		if k.it.kind == gClose {
			n--
			tr = &gOp{prev: tr, kind: "close"}
			c.k, c.tr = k.next, tr
		} else if t, null := p.first(k.it); !null || t&c.look != 0 {
			break
		}
	}
}

// forest reads the nodes of the trace after a mark.
func forest(tr, mark *gOp) (map[string][]*gNode, bool) {
	var ops []*gOp
	for o := tr; o != mark; o = o.prev {
		if o == nil {
			return nil, false
		}
		ops = append(ops, o)
	}
	var head *gOp
	for i := len(ops) - 1; i >= 0; i-- {
		c := *ops[i]
		c.prev = head
		head = &c
	}
	root, open, ok := head.build("")
	if !ok || len(open) != 1 || len(root.rep) > 0 {
		return nil, false
	}
	return root.slots, true
}

// match compares a value with the node it must be; "" if it is.
func (w *walker) match(st *State, v *Term, n *gNode, c pcfg) string {
	p := w.p
	for n.val == nil && n.text == nil {
		if xs := n.slots[""]; len(xs) == 1 {
			n = xs[0]
			continue
		}
		break
	}
	if v == nil {
		return "the node is missing"
	}
	kind := strings.TrimRight(n.name, "{}()")
	if v.op == OpIface {
		if typName(v.typ) != kind && !(n.val != nil && oneOf(n.name, typName(v.typ))) {
			return fmt.Sprintf("a %s is kept as a %s", kind, typName(v.typ))
		}
		v = v.args[0]
	}
	if n.val != nil {
		if v != n.val && !st.equal(v, n.val) {
			return fmt.Sprintf("the %s is %s, not the one read", n.name, v)
		}
		return ""
	}
	if v.op == OpNil {
		return fmt.Sprintf("the %s read is not kept", n.name)
	}
	if v.op != OpPtr || v.n < 0 || len(v.args) > 0 {
		return fmt.Sprintf("the %s is %s, not the one read", n.name, v)
	}
	t := p.in.otyp[int(v.n)]
	if typName(t) != kind {
		return fmt.Sprintf("a %s is kept as a %s", kind, typName(t))
	}
	o, _ := st.heap.get(int(v.n))
	u, ok := t.Underlying().(*types.Struct)
	if o == nil || !ok {
		return fmt.Sprintf("the %s is not known", n.name)
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Embedded() {
			continue
		}
		fv := p.in.project(st, o, mkI(int64(i)), true, f.Type())
		name := kind + "." + f.Name()
		if n.text != nil {
			if fv != n.text && !st.equal(fv, n.text) {
				return fmt.Sprintf("%s is %s, not the text of the token", name, fv)
			}
			continue
		}
		switch ft := f.Type().Underlying().(type) {
		case *types.Basic:
			if ft.Kind() != types.Bool {
				return fmt.Sprintf("%s is not known", name)
			}
			if r := w.boolOf(st, fv, c); r != triOf(n.flags[f.Name()]) {
				return fmt.Sprintf("%s is %s, not %t", name, fv, n.flags[f.Name()])
			}
		case *types.Slice:
			if s := w.matchList(st, fv, n, f.Name(), c); s != "" {
				return s
			}
		default:
			xs := n.slots[f.Name()]
			switch len(xs) {
			case 0:
				if fv.op != OpNil && st.eval(mkEq(fv, tNil)) != yes {
					return fmt.Sprintf("%s is set though it was not read", name)
				}
			case 1:
				if s := w.match(st, fv, xs[0], c); s != "" {
					return name + ": " + s
				}
			default:
				return fmt.Sprintf("%s is read twice", name)
			}
		}
	}
	return ""
}

func (w *walker) matchList(st *State, v *Term, n *gNode, slot string, c pcfg) string {
	segs := w.listSegs(st, v)
	name := n.name + "." + slot
	if g, ok := n.rep[slot]; ok {
		if g == nil {
			return "" // reported
		}
		gs := w.listSegs(st, g)
		if len(segs) < len(gs) {
			return name + " has lost elements"
		}
		for i := range gs {
			if segs[i] != gs[i] {
				return name + " is not what the loop collected"
			}
		}
		segs = segs[len(gs):]
	}
	xs := n.slots[slot]
	if len(xs) != len(segs) {
		return fmt.Sprintf("%s has %d elements, %d were read", name, len(segs), len(xs))
	}
	for i := range xs {
		if segs[i].s != "el" {
			return name + " is not known"
		}
		if s := w.match(st, segs[i].args[0], xs[i], c); s != "" {
			return fmt.Sprintf("%s[%d]: %s", name, i, s)
		}
	}
	return ""
}

// boolOf evaluates a condition on the tokens read.
func (w *walker) boolOf(st *State, b *Term, c pcfg) tri {
	if r := st.eval(b); r != unknown {
		return r
	}
	for s, m := range c.masks {
		if !occurs(b, s) {
			continue
		}
		res := tri(0)
		first := true
		for v := range w.p.each(m) {
			r := st.eval(subst(b, map[*Term]*Term{s: mkInt(s.width(), uint64(v))}))
			if first {
				res, first = r, false
			} else if r != res {
				res = unknown
			}
		}
		return res
	}
	return unknown
}

// listOf is a list, and one more element unless that is nil.
func listOf(list, pend *Term) *Term {
	if pend == nil {
		return mkApp("list", nil, list)
	}
	return mkApp("list", nil, list, pend)
}

func (w *walker) listSegs(st *State, v *Term) []*Term {
	if v.op == OpApp && v.s == "list" {
		segs := w.listSegs(st, v.args[0])
		if len(v.args) > 1 {
			switch x := v.args[1]; st.eval(mkEq(x, tNil)) {
			case yes:
			case no:
				segs = append(segs[:len(segs):len(segs)], segEl(x))
			default:
				segs = append(segs[:len(segs):len(segs)], mkApp("maybe", nil, x))
			}
		}
		return segs
	}
	if v.op == OpApp && v.s == "empty" {
		return nil
	}
	return w.p.in.contentOf(st, v)
}

// pointers lists the values carried around a loop that may be nodes.
func pointers(rec *LoopRec) []*LoopVar {
	var r []*LoopVar
	for i := range rec.head {
		v := &rec.head[i]
		if v.gen == nil || v.gen.typ == nil {
			continue
		}
		switch v.gen.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			r = append(r, v)
		}
	}
	return r
}

func isBoolTerm(t *Term) bool {
	if t.typ == nil {
		return t.op == OpEq || t.op == OpLt || t.op == OpNot || t.op == OpBool
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
