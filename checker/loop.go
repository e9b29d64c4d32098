package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops are either unrolled exactly (when their control is decided by the
// abstract state) or summarised by a generalised header state that is checked
// to be inductive.

// LoopRec describes a summarised loop: the state at the header after K
// iterations, and the ways one iteration can go.
var debugLoop = os.Getenv("TCHECK_LOOP") != ""

type LoopRec struct {
	fn    *ssa.Function
	pos   token.Pos
	K     *Term
	head  []LoopVar
	iters []*State // states at the back edge; events since the loop event
	ev    *Ev
}

type LoopVar struct {
	name  string
	entry *Term
	gen   *Term
	next  []*Term // per back edge
}

type leafKey struct {
	phi  int // index of the header phi, or -1
	obj  int
	om   *Term
	path string // encoded path
}

type leafMode uint8

const (
	mExact leafMode = iota
	mLin
	mSet
	mTmpl
	mHavoc
)

type lvar struct {
	used  *Term   // value at the loop head in the current pass
	got   []*Term // values at the back edges
	key   leafKey
	path  []int
	name  string
	typ   types.Type
	entry *Term
	mode  leafMode
	step  *Term
	set   []*Term
	sym   *Term // havoc symbol
	tmpl  *Term // in terms of drv symbol
	drv   *lvar
	tries int
	cands []tcand
	cand  int
}

func isLeafApp(t *Term) bool {
	return t.op == OpApp && (t.s == "bufioR" || t.s == "bufioW" || t.s == "sbuild" || t.s == "iter")
}

// diffLeaves reports the leaves at which b differs from a.
func diffLeaves(a, b *Term, path []int, f func(path []int, a, b *Term)) {
	if a == b {
		return
	}
	if a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 &&
		(a.op == OpStruct || a.op == OpArray && len(a.args) <= 64 || isLeafApp(a) && a.s == b.s) {
		for i := range a.args {
			diffLeaves(a.args[i], b.args[i], append(path[:len(path):len(path)], i), f)
		}
		return
	}
	f(path, a, b)
}

func getLeaf(v *Term, path []int) *Term {
	for _, i := range path {
		if i >= len(v.args) {
			return nil
		}
		v = v.args[i]
	}
	return v
}

func setLeaf(v *Term, path []int, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	as := append([]*Term(nil), v.args...)
	as[path[0]] = setLeaf(as[path[0]], path[1:], x)
	c := *v
	c.args = as
	return intern(&c)
}

func pathStr(p []int) string { return fmt.Sprint(p) }

func (in *Interp) leafType(k leafKey, path []int, l *Loop, cur *Term) types.Type {
	var t types.Type
	if k.phi >= 0 {
		t = l.header.Instrs[k.phi].(*ssa.Phi).Type()
	} else if k.om != nil {
		t = in.otypOf(k.om)
	} else {
		t = in.otyp[k.obj]
	}
	for _, i := range path {
		if t == nil {
			break
		}
		t = stepType(t, mkI(int64(i)))
	}
	if t == nil && cur != nil {
		switch cur.op {
		case OpInt, OpLin, OpBits:
			return intTypeOf(cur.width(), true)
		}
		t = cur.typ
		if cur.op == OpIface {
			t = nil
		}
	}
	return t
}

func (in *Interp) execLoop(fr *frame, c *cfg, l *Loop) (exits []*cfg, outs []Out) {
	if ex, os, ok := in.unrollLoop(fr, c.fork(), l); ok {
		return ex, os
	}
	return in.summarise(fr, c, l)
}

func (in *Interp) unrollLoop(fr *frame, c *cfg, l *Loop) (exits []*cfg, outs []Out, ok bool) {
	budget := in.steps + 400_000
	cur := []*cfg{c}
	var first *State
	if in.merge {
		first = c.st.clone()
	}
	forked := 0
	for n := 0; len(cur) > 0; n++ {
		if n > in.unroll || in.steps > budget {
			return nil, nil, false
		}
		var nb []*cfg
		for _, x := range cur {
			in.phis(fr, x)
			x.entered = true
			mark := x.st.trail
			ex, bk, os := in.explore(fr, []*cfg{x}, l)
			exits = append(exits, ex...)
			outs = append(outs, os...)
			for _, b := range bk {
				if b.st.trail != mark && len(bk) > 0 && (!in.merge || len(ex)+len(os) > 0) {
					forked++
				}
			}
			nb = append(nb, bk...)
			if len(nb) > in.fan && !in.merge || len(nb) > 200 {
				return nil, nil, false
			}
		}
		if in.merge && len(nb) > 1 {
			nb = in.mergeBacks(fr, l, first, nb)
			if len(nb) > 6 {
				return nil, nil, false
			}
		}
		if forked > in.forks || len(exits)+len(outs) > 4000 {
			return nil, nil, false
		}
		cur = nb
	}
	return exits, outs, true
}

// invariants assumed at the header
type linv struct {
	f    func(get func(*lvar) *Term) *Term // boolean term over the current values
	name string
}

func (in *Interp) summarise(fr *frame, c *cfg, l *Loop) ([]*cfg, []Out) {
	// entry values of the phis
	entry := c.fork()
	in.phis(fr, entry)
	K := mkSym("+K", tInt)
	markSym := symCount
	markObj := in.nobj
	invariantTerm := func(t *Term) bool { return !usesFresh(t, markSym, markObj, K) }

	vars := map[leafKey]*lvar{}
	var order []*lvar
	addVar := func(k leafKey, path []int, name string, ent *Term) *lvar {
		if ent != nil && (ent.op == OpBits || ent.op == OpLin) {
			ent = entry.st.norm(ent)
		}
		v := &lvar{used: ent, key: k, path: append([]int(nil), path...), name: name, entry: ent, typ: in.leafType(k, path, l, ent)}
		vars[k] = v
		order = append(order, v)
		return v
	}
	for i, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		name := phi.Comment
		if name == "" {
			name = phi.Name()
		}
		addVar(leafKey{phi: i, obj: -1}, nil, name, entry.env[fr.fi.num[phi]])
	}
	dead := map[string]bool{}
	read := func(x *cfg, fin bool, v *lvar) *Term { // current value in a configuration
		switch {
		case v.key.phi >= 0:
			if fin {
				return x.env[fr.fi.num[l.header.Instrs[v.key.phi].(*ssa.Phi)]]
			}
			phi := l.header.Instrs[v.key.phi].(*ssa.Phi)
			for i, p := range l.header.Preds {
				if p == x.prev {
					return in.val(fr, x, phi.Edges[i])
				}
			}
			return nil
		case v.key.om != nil:
			t, ok := x.st.omem.get(v.key.om)
			if !ok {
				t = in.omRead(x.st, v.key.om, v.typ)
			}
			return getLeaf(t, v.path)
		default:
			h, ok := x.st.heap.get(v.key.obj)
			if !ok {
				return nil
			}
			return getLeaf(h, v.path)
		}
	}
	genVal := func(v *lvar, pick map[*lvar]*Term) *Term {
		switch v.mode {
		case mExact:
			return v.entry
		case mLin:
			w := v.entry.width()
			k := K
			if w < 64 {
				k = mkConv(K, 64, true, w)
			}
			return mkAdd(w, v.entry, mkMul(w, v.step, k))
		case mSet:
			return pick[v]
		case mTmpl:
			return v.tmpl
		}
		return v.sym
	}
	havocSym := func(v *lvar) {
		t := v.typ
		if t == nil {
			if v.entry != nil && isIntTerm(v.entry) {
				t = intTypeOf(v.entry.width(), true)
			}
		}
		v.sym = mkSym("loop:"+v.name, t)
		v.mode = mHavoc
	}
	var invs []linv
	// combinations of the values of the mSet variables that occur
	var combos map[string]bool
	comboVars := ""
	comboKey := func(get func(v *lvar) *Term) string {
		k := ""
		for _, v := range order {
			if v.mode == mSet {
				k += fmt.Sprint(get(v).id) + ","
			}
		}
		return k
	}
	rec := &LoopRec{fn: fr.fn, K: K, pos: loopPos(l)}
	for round := 0; ; round++ {
		if round > 60 {
			in.fail("loop at %s: no inductive summary", in.ld.pos(rec.pos))
		}
		// build the header states
		picks := []map[*lvar]*Term{{}}
		for _, v := range order {
			if v.mode == mSet {
				var np []map[*lvar]*Term
				for _, p := range picks {
					for _, s := range v.set {
						q := map[*lvar]*Term{}
						for a, b := range p {
							q[a] = b
						}
						q[v] = s
						np = append(np, q)
					}
				}
				picks = np
			}
		}
		if len(picks) > 32 {
			// too many variants: havoc the largest set
			var big *lvar
			for _, v := range order {
				if v.mode == mSet && (big == nil || len(v.set) > len(big.set)) {
					big = v
				}
			}
			havocSym(big)
			continue
		}
		cv := ""
		for _, v := range order {
			if v.mode == mSet {
				cv += fmt.Sprint(v.key, " ")
			}
		}
		if cv != comboVars {
			comboVars = cv
			combos = map[string]bool{comboKey(func(v *lvar) *Term { return v.entry }): true}
		}
		if cv != "" {
			var np []map[*lvar]*Term
			for _, p := range picks {
				if combos[comboKey(func(v *lvar) *Term { return p[v] })] {
					np = append(np, p)
				}
			}
			picks = np
		}
		type backRes struct {
			c    *cfg
			pick map[*lvar]*Term
		}
		var exits []*cfg
		var outs []Out
		var backs []backRes
		rec.iters = nil
		for _, v := range order {
			v.used, v.got = nil, nil
			if v.mode != mSet {
				v.used = genVal(v, nil)
			}
		}
		for _, pick := range picks {
			h := entry.fork()
			for _, v := range order {
				g := genVal(v, pick)
				switch {
				case v.key.phi >= 0:
					h.env[fr.fi.num[l.header.Instrs[v.key.phi].(*ssa.Phi)]] = g
				case v.key.om != nil:
					t := in.load(h.st, v.key.om, in.otypOf(v.key.om))
					h.st.omem.set(v.key.om, setLeaf(t, v.path, g))
				default:
					o, _ := h.st.heap.get(v.key.obj)
					h.st.heap.set(v.key.obj, setLeaf(o, v.path, g))
				}
			}
			in.relaxIO(h.st, vars, order)
			feasible := true
			for _, iv := range invs {
				b := iv.f(func(v *lvar) *Term { return genVal(v, pick) })
				if b != nil && !h.st.assume(b, true) {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
			h.st.log = &Ev{prev: entry.st.log, kind: "loop", pos: rec.pos, loop: rec}
			rec.ev = h.st.log
			ex, bk, os := in.explore(fr, []*cfg{h}, l)
			exits = append(exits, ex...)
			outs = append(outs, os...)
			for _, b := range bk {
				if lx, lo, last := in.lastTurn(fr, b, l); last {
					exits = append(exits, lx...)
					outs = append(outs, lo...)
					continue
				}
				backs = append(backs, backRes{b, pick})
				rec.iters = append(rec.iters, b.st)
			}
		}
		// discover changed memory
		changed := false
		for _, b := range backs {
			st := b.c.st
			for id, ent := range entry.st.heap.m {
				cur, ok := st.heap.get(id)
				if !ok || cur == ent {
					continue
				}
				diffLeaves(ent, cur, nil, func(path []int, e, x *Term) {
					k := leafKey{phi: -1, obj: id, path: pathStr(path)}
					if vars[k] != nil {
						return
					}
					// an ancestor already a variable?
					for n := range path {
						if vars[leafKey{phi: -1, obj: id, path: pathStr(path[:n])}] != nil {
							return
						}
					}
					if dead[pathStr(path)+fmt.Sprint(id)] {
						return
					}
					// drop variables below this path
					for kk, vv := range vars {
						if kk.phi < 0 && kk.obj == id && len(vv.path) > len(path) && pathStr(vv.path[:len(path)]) == pathStr(path) {
							delete(vars, kk)
							for i, o := range order {
								if o == vv {
									order = append(order[:i], order[i+1:]...)
									break
								}
							}
						}
					}
					if x.op == OpApp && x.s == "sbuild" && e.op == OpStruct {
						e = mkApp("sbuild", x.typ, tEmpty)
					}
					addVar(k, path, fmt.Sprintf("o%d%v", id, path), e)
					changed = true
				})
			}
			keys := make(map[*Term]bool)
			for p := range st.omem.m {
				keys[p] = true
			}
			for p := range entry.st.omem.m {
				if p.op == OpApp && (p.s == "rlen" || p.s == "rcap" || p.s == "rclean") {
					keys[p] = true // may have been forgotten
				}
			}
			sorted := make([]*Term, 0, len(keys))
			for p := range keys {
				if invariantTerm(p) {
					sorted = append(sorted, p)
				}
			}
			sort.Slice(sorted, func(i, j int) bool { return sorted[i].id < sorted[j].id })
			for _, p := range sorted {
				cur, ok := st.omem.get(p)
				if !ok {
					cur = in.omRead(st, p, nil)
				}
				ent, ok := entry.st.omem.get(p)
				if !ok {
					ent = in.omRead(entry.st, p, in.otypOf(p))
				}
				if ent == cur {
					continue
				}
				k := leafKey{phi: -1, obj: -1, om: p}
				if vars[k] == nil {
					addVar(k, nil, p.String(), ent)
					changed = true
				}
			}
		}
		// the invariants assumed must hold at the back edges; what they do not
		// keep out must not shape the variables
		n0 := len(invs)
		invs = filterInvs(invs, func(iv linv) bool {
			for _, b := range backs {
				t := iv.f(func(v *lvar) *Term { return read(b.c, false, v) })
				if t == nil || b.c.st.eval(t) != yes {
					if debugLoop {
						fmt.Printf("  drop %s: %s\n", iv.name, t)
						for k, d := range b.c.st.dom.m {
							fmt.Printf("      dom %s: %v\n", k, d)
						}
						for _, e := range eventsSince(b.c.st.trail, nil) {
							fmt.Printf("      branch %s\n", e.args[0])
						}
					}
					return false
				}
			}
			return true
		})
		if len(invs) != n0 {
			continue
		}
		// check each variable
		var intsFirst []*lvar
		for _, v := range order {
			if isIntTerm(v.entry) {
				intsFirst = append(intsFirst, v)
			}
		}
		for _, v := range order {
			if !isIntTerm(v.entry) {
				intsFirst = append(intsFirst, v)
			}
		}
		for _, v := range intsFirst {
			for _, b := range backs {
				v.got = append(v.got, read(b.c, false, v))
			}
		}
		for _, v := range intsFirst {
			if v.mode == mHavoc {
				continue
			}
			var nexts []*Term
			ok := true
			for _, b := range backs {
				n := read(b.c, false, v)
				if n == nil {
					ok = false
					break
				}
				nexts = append(nexts, n)
				g := genVal(v, b.pick)
				switch v.mode {
				case mExact:
					if n != g && !b.c.st.equal(n, g) {
						ok = false
					}
				case mLin:
					want := mkAdd(v.entry.width(), g, v.step)
					if n != want && !b.c.st.equal(n, want) {
						ok = false
					}
				case mSet:
					in1 := false
					for _, s := range v.set {
						if s == n || b.c.st.equal(s, n) {
							in1 = true
						}
					}
					if !in1 {
						ok = false
					}
				case mTmpl:
					dn := read(b.c, false, v.drv)
					want := subst(v.tmpl, map[*Term]*Term{v.drv.sym: dn})
					if dn == nil || n != want && !b.c.st.equal(n, want) {
						ok = false
					}
				}
			}
			if ok {
				continue
			}
			changed = true
			v.tries++
			if debugLoop {
				fmt.Printf("round %d: %s mode %d entry %s gen %s nexts %v\n", round, v.name, v.mode, v.entry, genVal(v, nil), nexts)
			}
			in.promote(v, nexts, order, invariantTerm, havocSym)
		}
		if !changed && comboVars != "" {
			for _, b := range backs {
				k := comboKey(func(v *lvar) *Term {
					n := read(b.c, false, v)
					for _, s := range v.set {
						if s == n || b.c.st.equal(s, n) {
							return s
						}
					}
					return n
				})
				if !combos[k] {
					combos[k] = true
					changed = true
				}
			}
		}
		if changed {
			// the invariants are proposed anew for the new shape of the header
			invs = in.proposeInvs(fr, l, order, entry, invariantTerm)
			invs = filterInvs(invs, func(iv linv) bool {
				b := iv.f(func(v *lvar) *Term { return v.entry })
				return b != nil && entry.st.clone().eval(b) == yes
			})
			continue
		}
		if debugLoop {
			for _, v := range order {
				fmt.Printf("stable: %s mode %d entry %s gen %s\n", v.name, v.mode, v.entry, genVal(v, nil))
			}
			for _, iv := range invs {
				fmt.Printf("invariant %s\n", iv.name)
			}
		}
		// stable; what an undecided turn leaves behind is not known
		for _, b := range backs {
			if u := b.c.st.undec; u != "" && entry.st.undec == "" {
				for _, x := range exits {
					x.st.undecided("%s", u)
				}
				for _, o := range outs {
					o.st.undecided("%s", u)
				}
				break
			}
		}
		for _, v := range order {
			lv := LoopVar{name: v.name, entry: v.entry}
			if v.mode != mSet {
				lv.gen = genVal(v, nil)
			}
			for _, b := range backs {
				lv.next = append(lv.next, read(b.c, false, v))
			}
			rec.head = append(rec.head, lv)
		}
		return exits, outs
	}
}

// flagExits tells whether the loop is left on the value of a flag or an error
// carried from one iteration to the next.
func flagExits(l *Loop) bool {
	flag := func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v = u.X
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if c, ok := b.Y.(*ssa.Const); !ok || c.Value != nil {
				return false
			}
			v = b.X
		}
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == l.header
	}
	for b := range l.blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (!l.blocks[b.Succs[0]] || !l.blocks[b.Succs[1]]) && flag(i.Cond) {
			return true
		}
	}
	return false
}

// lastTurn follows the conditions of the loop after an iteration; the
// iteration is the last one if they all lead out.
func (in *Interp) lastTurn(fr *frame, b *cfg, l *Loop) (exits []*cfg, outs []Out, last bool) {
	if !flagExits(l) {
		return nil, nil, false
	}
	c := b.fork()
	in.phis(fr, c)
	c.entered = true
	work := []*cfg{c}
	for n := 0; len(work) > 0; n++ {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if !x.entered {
			if !l.blocks[x.blk] {
				exits = append(exits, x)
				continue
			}
			i, ok := x.blk.Instrs[len(x.blk.Instrs)-1].(*ssa.If)
			if n > 12 || !ok || x.blk == l.header || fr.fi.loops[x.blk] != nil || l.blocks[i.Block().Succs[0]] && l.blocks[i.Block().Succs[1]] {
				return nil, nil, false
			}
			in.phis(fr, x)
		}
		next, os := in.runBlock(fr, x)
		work = append(work, next...)
		outs = append(outs, os...)
	}
	return exits, outs, true
}

func filterInvs(xs []linv, keep func(linv) bool) []linv {
	var r []linv
	for _, x := range xs {
		if keep(x) {
			r = append(r, x)
		}
	}
	return r
}

func loopPos(l *Loop) token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// usesFresh: the term mentions a symbol made, or an object allocated, after
// the marks.
func usesFresh(t *Term, markSym int64, markObj int, K *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OpSym && t.n > markSym || t == K {
			return true
		}
		if t.op == OpPtr && t.n > int64(markObj) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		for _, b := range t.bits {
			for _, r := range b.xs {
				if f(r.t) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

// promote moves a variable to the next more general mode.
func (in *Interp) promote(v *lvar, nexts []*Term, order []*lvar, invariant func(*Term) bool, havoc func(*lvar)) {
	if v.tries > 24 {
		havoc(v)
		return
	}
	switch v.mode {
	case mExact:
		// linear?
		if isIntTerm(v.entry) {
			w := v.entry.width()
			var step *Term
			ok := len(nexts) > 0
			for _, n := range nexts {
				if n == nil || !isIntTerm(n) || n.width() != w {
					ok = false
					break
				}
				s := mkSub(w, n, v.entry)
				if step == nil {
					step = s
				}
				if s != step || !invariant(s) {
					ok = false
				}
			}
			if ok && step != nil && step.op == OpInt && !(step.op == OpInt && step.u == 0) {
				v.mode, v.step = mLin, step
				return
			}
		}
		fallthrough
	case mLin, mSet:
		// a small set of invariant values?
		set := v.set
		if v.mode != mSet {
			set = []*Term{v.entry}
		}
		ok := len(nexts) > 0
		for _, n := range nexts {
			if n == nil || !isSmallConst(n) {
				ok = false
				break
			}
			dup := false
			for _, s := range set {
				if s == n {
					dup = true
				}
			}
			if !dup {
				set = append(set, n)
			}
		}
		if ok && isSmallConst(v.entry) && len(set) <= 6 {
			v.mode, v.set = mSet, set
			return
		}
		fallthrough
	case mTmpl:
		if v.mode != mTmpl || v.cands == nil {
			v.cands = tmplCands(v, nexts, order)
			v.cand = 0
		}
		for v.cand < len(v.cands) {
			k := v.cands[v.cand]
			v.cand++
			if k.drv.mode != mHavoc {
				continue
			}
			v.mode, v.tmpl, v.drv = mTmpl, k.t, k.drv
			return
		}
		havoc(v)
	}
}

type tcand struct {
	t   *Term
	drv *lvar
}

// tmplCands proposes v as a function of one of the unconstrained integers.
func tmplCands(v *lvar, vn []*Term, order []*lvar) []tcand {
	r := []tcand{}
	for _, d := range order {
		if d == v || d.mode != mHavoc || d.sym == nil || !isIntTerm(d.sym) || d.sym.width() != 64 || !isIntTerm(d.entry) {
			continue
		}
		delta := mkSub(64, d.sym, d.entry)
		// the change of v in the last pass as a multiple of the change of d
		multiple := func(k int64, dv []*Term) bool {
			if d.used == nil || len(dv) != len(d.got) {
				return true
			}
			for i, x := range dv {
				if d.got[i] == nil || x == nil || !isIntTerm(d.got[i]) {
					return false
				}
				if x != mkMul(64, mkI(k), mkSub(64, d.got[i], d.used)) {
					return false
				}
			}
			return true
		}
		if isIntTerm(v.entry) {
			if v.entry.width() == 64 && v.used != nil {
				var dv []*Term
				for _, n := range vn {
					dv = append(dv, mkSub(64, n, v.used))
				}
				for _, k := range []int64{1, -1} {
					if multiple(k, dv) {
						r = append(r, tcand{mkAdd(64, v.entry, mkMul(64, mkI(k), delta)), d})
					}
				}
			}
			continue
		}
		base := seqOf(v.entry)
		if base == nil {
			continue
		}
		for _, n := range vn {
			if n == nil {
				continue
			}
			s := seqOf(n)
			if len(s) != len(base)+1 {
				continue
			}
			same := true
			for j := range base {
				if base[j] != s[j] {
					same = false
				}
			}
			if !same {
				continue
			}
			var b, lo *Term
			switch last := s[len(s)-1]; last.s {
			case "sub":
				b, lo = last.args[0], last.args[1]
			case "sp":
				b, lo = last.args[0], mkI(0)
			default:
				continue
			}
			for _, k := range []int64{-1, 1} {
				var dv []*Term
				for _, n := range vn {
					if q := seqOf(n); len(q) == len(base)+1 {
						dv = append(dv, segLen(q[len(q)-1]))
					} else {
						dv = append(dv, nil)
					}
				}
				if !multiple(k, dv) {
					continue
				}
				r = append(r, tcand{withSeq(v.entry, mkSeq(append(append([]*Term(nil), base...), mkSubSeq(b, lo, mkAdd(64, lo, mkMul(64, mkI(k), delta))))...)), d})
			}
		}
	}
	return r
}

func isSmallConst(t *Term) bool {
	switch t.op {
	case OpInt, OpBool, OpNil, OpStr, OpFunc, OpPtr:
		return true
	case OpIface:
		return isSmallConst(t.args[0])
	}
	return false
}

func seqOf(t *Term) []*Term {
	switch {
	case t.op == OpSeq:
		return append([]*Term{}, t.args...)
	case t.op == OpNil:
		return []*Term{}
	case t.op == OpStr:
		if t.s == "" {
			return []*Term{}
		}
		return []*Term{segSp(t)}
	case t.op == OpApp && (t.s == "str" || t.s == "sbuild"):
		return append([]*Term{}, t.args[0].args...)
	case (t.op == OpSym || t.op == OpApp) && (isSliceish(t) || isStringTerm(t)):
		return []*Term{segSp(t)}
	}
	return nil
}

func withSeq(like, seq *Term) *Term {
	if like.op == OpStr || like.op == OpApp && like.s == "str" {
		return mkStrOf(seq)
	}
	if like.op == OpApp && like.s == "sbuild" {
		return mkApp("sbuild", nil, seq)
	}
	return seq
}

func (in *Interp) proposeInvs(fr *frame, l *Loop, order []*lvar, entry *cfg, invariant func(*Term) bool) []linv {
	var r []linv
	var ints []*lvar
	for _, v := range order {
		if isIntTerm(v.entry) && v.mode != mExact && v.mode != mSet && v.entry.width() == 64 {
			ints = append(ints, v)
		}
	}
	for _, v := range ints {
		v := v
		r = append(r,
			linv{name: "nonneg " + v.name, f: func(g func(*lvar) *Term) *Term { return mkNot(mkLt(g(v), mkI(0), true)) }},
			linv{name: "atleast " + v.name, f: func(g func(*lvar) *Term) *Term { return mkNot(mkLt(g(v), v.entry, true)) }},
			linv{name: "atmost " + v.name, f: func(g func(*lvar) *Term) *Term { return mkNot(mkLt(v.entry, g(v), true)) }})
	}
	// loop guards: comparisons of a header value with an invariant term
	var bounds []*Term
	seen := map[*Term]bool{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if w, _, ok := intInfo(o.Type()); !ok || w != 64 {
					continue
				}
				var t *Term
				if cst, ok := o.(*ssa.Const); ok {
					t = in.constTerm(cst)
				} else if inst, ok := o.(ssa.Instruction); ok && l.blocks[inst.Block()] {
					// computed in the loop: len(x) or a field of an invariant value
					t = in.loopInvariantValue(fr, entry, l, o)
				} else {
					if n, ok := fr.fi.num[o]; ok {
						t = entry.env[n]
					}
				}
				if t != nil && !seen[t] && invariant(t) {
					seen[t] = true
					bounds = append(bounds, t)
				}
			}
		}
	}
	for _, t := range in.loopBounds {
		if !seen[t] && invariant(t) {
			seen[t] = true
			bounds = append(bounds, t)
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	for _, v := range ints {
		for _, b := range bounds {
			v, b := v, b
			r = append(r,
				linv{name: fmt.Sprintf("%s<=%s", v.name, b), f: func(g func(*lvar) *Term) *Term { return mkNot(mkLt(b, g(v), true)) }},
				linv{name: fmt.Sprintf("%s>=%s", v.name, b), f: func(g func(*lvar) *Term) *Term { return mkNot(mkLt(g(v), b, true)) }})
		}
	}
	for _, v := range ints {
		for _, u := range ints {
			if u == v {
				continue
			}
			u, v := u, v
			r = append(r, linv{name: v.name + "<=" + u.name, f: func(g func(*lvar) *Term) *Term { return mkNot(mkLt(g(u), g(v), true)) }})
		}
	}
	return r
}

// loopInvariantValue evaluates a side-effect free expression of the loop in
// the entry state when all its leaves are available.
func (in *Interp) loopInvariantValue(fr *frame, entry *cfg, l *Loop, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constTerm(v)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, ok := v.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				if bt, ok := v.Call.Args[0].Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsString == 0 {
					return nil
				}
			}
			x := in.loopInvariantValue(fr, entry, l, v.Call.Args[0])
			if x != nil {
				return lenTerm(x)
			}
		}
		return nil
	case *ssa.UnOp:
		if v.Op == token.MUL {
			p := in.loopInvariantValue(fr, entry, l, v.X)
			if p != nil && p.op != OpNil && (p.op != OpPtr || p.n != -1) {
				return in.load(entry.st.clone(), p, v.Type())
			}
			if p != nil && p.op == OpPtr {
				return in.load(entry.st.clone(), p, v.Type())
			}
		}
		return nil
	case *ssa.FieldAddr:
		p := in.loopInvariantValue(fr, entry, l, v.X)
		if p != nil && p.op != OpNil {
			return in.subPtr(p, mkI(int64(v.Field)), v.Type())
		}
		return nil
	case *ssa.Field:
		p := in.loopInvariantValue(fr, entry, l, v.X)
		if p != nil {
			return in.project(entry.st, p, mkI(int64(v.Field)), true, v.Type())
		}
		return nil
	case *ssa.Phi:
		return nil
	case *ssa.Global:
		return in.globalPtr(entry.st, v)
	case ssa.Instruction:
		if l.blocks[v.(ssa.Instruction).Block()] {
			return nil
		}
	}
	if n, ok := fr.fi.num[v]; ok {
		return entry.env[n]
	}
	return nil
}

// relaxIO weakens buffered-data knowledge at a generalised loop header.
func (in *Interp) relaxIO(st *State, vars map[leafKey]*lvar, order []*lvar) {
	for _, v := range order {
		if v.key.phi >= 0 || v.key.obj < 0 {
			continue
		}
		h, ok := st.heap.get(v.key.obj)
		if !ok {
			continue
		}
		// the parent of the leaf, if it is a reader
		if len(v.path) == 1 && h.op == OpApp && h.s == "bufioR" {
			st.heap.set(v.key.obj, setLeaf(h, []int{3}, mkI(0)))
		}
	}
}

func isStringTerm(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
