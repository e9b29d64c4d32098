package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joining of abstract states that agree on memory: the joined state keeps only
// the facts all of them share, so it describes every one of them.

var ptrMemo = map[*Term]bool{}

func hasPtr(t *Term) bool {
	if len(t.args) == 0 && len(t.bits) == 0 {
		return t.op == OpPtr
	}
	if v, ok := ptrMemo[t]; ok {
		return v
	}
	r := t.op == OpPtr
	for _, a := range t.args {
		r = r || hasPtr(a)
	}
	ptrMemo[t] = r
	return r
}

// renamable symbols stand for an arbitrary error or amount of data.
func renamable(t *Term) bool {
	return t.op == OpSym && t.n > 0 && (t.s == "e" || t.s == "+got" || t.s == "partial" || strings.HasPrefix(t.s, "err:"))
}

var renMemo = map[*Term]bool{}

func hasRenamable(t *Term) bool {
	if len(t.args) == 0 {
		return renamable(t)
	}
	if v, ok := renMemo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		r = r || hasRenamable(a)
	}
	renMemo[t] = r
	return r
}

type stateKeyer struct {
	syms     map[*Term]int
	since    int64
	in       *Interp
	st, base *State
	ren      map[int]int
	queue    []int
	glob     map[int]bool
}

func (k *stateKeyer) isBase(id int) bool {
	if k.glob[id] {
		return true
	}
	_, ok := k.base.heap.get(id)
	return ok
}

func (k *stateKeyer) ser(sb *strings.Builder, t *Term) {
	if renamable(t) && t.n > k.since {
		n, ok := k.syms[t]
		if !ok {
			n = len(k.syms)
			k.syms[t] = n
		}
		fmt.Fprintf(sb, "s%d", n)
		return
	}
	if !hasPtr(t) && !hasRenamable(t) {
		fmt.Fprintf(sb, "#%d", t.id)
		return
	}
	if t.op == OpPtr {
		id := int(t.n)
		if k.isBase(id) {
			fmt.Fprintf(sb, "b%d", id)
		} else {
			n, ok := k.ren[id]
			if !ok {
				n = len(k.ren)
				k.ren[id] = n
				k.queue = append(k.queue, id)
			}
			fmt.Fprintf(sb, "p%d", n)
		}
	} else {
		fmt.Fprintf(sb, "%d,%d,%d,%d,%s,%p,%d", t.op, t.w, t.n, t.u, t.s, t.fn, typeID(t.typ))
		for _, c := range t.coef {
			fmt.Fprintf(sb, "~%d", c)
		}
	}
	sb.WriteByte('(')
	for _, a := range t.args {
		k.ser(sb, a)
		sb.WriteByte(';')
	}
	sb.WriteByte(')')
}

// stateKey is equal for states whose reachable memory is equal up to the
// names of objects; live lists the objects reached.
func (in *Interp) stateKey(st, base *State, roots []*Term, since int64) (key string, live map[int]int) {
	k := &stateKeyer{since: since, syms: map[*Term]int{}, in: in, st: st, base: base, ren: map[int]int{}, glob: map[int]bool{}}
	for _, id := range in.globals {
		k.glob[id] = true
	}
	var sb strings.Builder
	for _, r := range roots {
		if r == nil {
			sb.WriteString("nil")
		} else {
			k.ser(&sb, r)
		}
		sb.WriteByte('\n')
	}
	var ids []int
	for id, x := range st.heap.m {
		if v, ok := base.heap.get(id); k.isBase(id) && (ok && x != v || !ok) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		x, _ := st.heap.get(id)
		fmt.Fprintf(&sb, "b%d=", id)
		k.ser(&sb, x)
		sb.WriteByte('\n')
	}
	var oms []*Term
	for p, v := range st.omem.m {
		if x, ok := base.omem.get(p); !ok || x != v {
			oms = append(oms, p)
		}
	}
	sort.Slice(oms, func(i, j int) bool { return oms[i].id < oms[j].id })
	for _, p := range oms {
		v, _ := st.omem.get(p)
		sb.WriteString("o")
		k.ser(&sb, p)
		sb.WriteByte('=')
		k.ser(&sb, v)
		sb.WriteByte('\n')
	}
	for i := 0; i < len(k.queue); i++ {
		id := k.queue[i]
		x, ok := st.heap.get(id)
		fmt.Fprintf(&sb, "p%d=", i)
		if ok {
			k.ser(&sb, x)
		}
		sb.WriteByte('\n')
	}
	return sb.String(), k.ren
}

// joinFacts weakens st to what it shares with o.
func (st *State) joinFacts(o *State) {
	a := *st
	domIn := func(s *State, t *Term) (Dom, bool) {
		if d, ok := s.dom.m[t]; ok {
			return d, true
		}
		sg := t.op == OpLin || natSigned(t)
		lo, hi := s.rng(t, sg)
		full := typeRange(t.width(), sg)
		if lo <= full.lo && hi >= full.hi {
			return nil, false
		}
		return Dom{{lo, hi}}, true
	}
	d := newCow[*Term, Dom]()
	add := func(t *Term) {
		if _, ok := d.m[t]; ok {
			return
		}
		x, ok1 := domIn(&a, t)
		y, ok2 := domIn(o, t)
		if ok1 && ok2 {
			d.m[t] = sortDom(append(append(Dom(nil), x...), y...))
		}
	}
	for t := range a.dom.m {
		add(t)
	}
	for t := range o.dom.m {
		add(t)
	}
	kb := newCow[*Term, kbits]()
	for t, x := range a.kb.m {
		if y, ok := o.kb.m[t]; ok {
			m := x.mask & y.mask &^ (x.val ^ y.val)
			if m != 0 {
				kb.m[t] = kbits{m, x.val & m}
			}
		}
	}
	f := newCow[*Term, bool]()
	for t, x := range a.facts.m {
		if y, ok := o.facts.m[t]; ok && x == y || !ok && o.eval(t) == triOf(x) {
			f.m[t] = x
		}
	}
	for t, y := range o.facts.m {
		if _, ok := a.facts.m[t]; !ok && a.eval(t) == triOf(y) {
			f.m[t] = y
		}
	}
	st.dom, st.kb, st.facts = d, kb, f
}

// gc drops objects that are neither in base nor live.
func (in *Interp) gc(st, base *State, live map[int]int) {
	glob := map[int]bool{}
	for _, id := range in.globals {
		glob[id] = true
	}
	h := newCow[int, *Term]()
	for id, v := range st.heap.m {
		if _, ok := base.heap.m[id]; ok || glob[id] {
			h.m[id] = v
		} else if _, ok := live[id]; ok {
			h.m[id] = v
		}
	}
	st.heap = h
}

// canon rewrites the integers inside a value under the facts of the state.
func (st *State) canon(t *Term) *Term {
	if isIntTerm(t) {
		x := st.norm(t)
		if (t.op == OpSym || t.op == OpApp) && x.op != OpInt {
			return t
		}
		return x
	}
	switch t.op {
	case OpStruct, OpTuple, OpIface, OpApp:
		var as []*Term
		for i, a := range t.args {
			b := st.canon(a)
			if b != a && as == nil {
				as = append([]*Term(nil), t.args...)
			}
			if as != nil {
				as[i] = b
			}
		}
		if as != nil {
			c := *t
			c.args = as
			return intern(&c)
		}
	}
	return t
}

func (in *Interp) canonHeap(st, base *State) {
	for _, id := range sortedIDs(st.heap.m) {
		v := st.heap.m[id]
		if x, ok := base.heap.m[id]; ok && x == v || v == nil {
			continue
		}
		if c := st.canon(v); c != v {
			st.heap.set(id, c)
		}
	}
}

// forgetScratch replaces the content of byte arrays, which serve as scratch
// space, by arbitrary bytes.
func (in *Interp) forgetScratch(st, base *State) {
	for _, id := range sortedIDs(st.heap.m) {
		v := st.heap.m[id]
		if x, ok := base.heap.m[id]; ok && x == v || v == nil || in.otyp[id] == nil {
			continue
		}
		if c := scratch(v, in.otyp[id], "scratch"); c != v {
			st.heap.set(id, c)
		}
	}
}

type scratchKey struct {
	name string
	typ  int
}

var scratchSyms = map[scratchKey]*Term{}

func scratch(v *Term, t types.Type, name string) *Term {
	switch u := t.Underlying().(type) {
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			k := scratchKey{name, typeID(t)}
			if scratchSyms[k] == nil {
				scratchSyms[k] = mkSym(name, t)
			}
			return scratchSyms[k]
		}
	case *types.Struct:
		if v.op != OpStruct || len(v.args) != u.NumFields() {
			return v
		}
		as := append([]*Term(nil), v.args...)
		for i := range as {
			as[i] = scratch(as[i], u.Field(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return mkStruct(as...)
	}
	return v
}

// joinAll joins the states that agree on memory; where too many differ,
// scratch space is forgotten first.
func (in *Interp) joinAll(base *State, sts []*State, roots func(i int) []*Term, name string) []int {
	for round := 0; ; round++ {
		byKey := map[string]int{}
		var keep []int
		for i, st := range sts {
			in.canonHeap(st, base)
			k, live := in.stateKey(st, base, roots(i), math.MaxInt64)
			in.gc(st, base, live)
			if j, ok := byKey[k]; ok {
				sts[j].joinFacts(st)
				continue
			}
			byKey[k] = i
			keep = append(keep, i)
		}
		if len(keep) <= 40 || round == 1 {
			if len(keep) > 400 {
				in.fail("too many states in %s", name)
			}
			return keep
		}
		for _, st := range sts {
			in.forgetScratch(st, base)
		}
	}
}

// logKey lists the events since mark that matter to the judges.
func logKey(log, mark *Ev) string {
	var sb strings.Builder
	for e := log; e != nil && e != mark; e = e.prev {
		switch e.kind {
		case "store", "append", "copy", "next", "fill":
			continue
		case "io":
			if !e.fail {
				continue
			}
		case "loop":
			fmt.Fprintf(&sb, "loop%p;", e.loop)
			continue
		}
		fmt.Fprintf(&sb, "%s %s %d %v;", e.kind, e.name, e.pos, e.fail)
	}
	return sb.String()
}

// relaxReaders forgets how much is buffered and where a segment boundary is
// written down in two ways.
func (in *Interp) relaxReaders(st *State, bound bool) {
	for _, id := range sortedIDs(st.heap.m) {
		x := st.heap.m[id]
		if x == nil || x.op != OpApp || x.s != "bufioR" || x.args[rFailed] != tNil {
			continue
		}
		y := withArg(x, rAvail, mkI(0))
		i := int(x.args[rIdx].u)
		if s := in.streamOf(x.args[rSrc]); bound && i < len(s) && x.args[rOff].op != OpInt && st.eval(mkEq(x.args[rOff], segLen(s[i]))) == yes {
			y = withArg(withArg(y, rIdx, mkI(int64(i+1))), rOff, mkI(0))
		}
		if y != x {
			st.heap.set(id, y)
		}
	}
}

// mergeOuts joins the outcomes of a call that agree on result and memory.
func (in *Interp) mergeOuts(entry *State, since int64, outs []Out) []Out {
	byKey := map[string]int{}
	var r []Out
	for _, o := range outs {
		if o.kind != outRet || o.st.undec != "" {
			r = append(r, o)
			continue
		}
		o.val = o.st.canon(o.val)
		in.relaxReaders(o.st, false)
		in.canonHeap(o.st, entry)
		k, _ := in.stateKey(o.st, entry, []*Term{o.val}, since)
		k += logKey(o.st.log, entry.log)
		if i, ok := byKey[k]; ok {
			r[i].st.joinFacts(o.st)
			continue
		}
		byKey[k] = len(r)
		r = append(r, o)
	}
	return r
}

// mergeBacks joins the configurations at a back edge that agree on the live
// values and memory.
func (in *Interp) mergeBacks(fr *frame, l *Loop, entry *State, cs []*cfg) []*cfg {
	live := in.liveIn(fr, l.header)
	byKey := map[string]int{}
	var r []*cfg
	for _, c := range cs {
		in.phis(fr, c)
		c.prev = nil
		c.idx = 0
		for _, i := range live {
			if c.env[i] != nil {
				c.env[i] = c.st.canon(c.env[i])
			}
		}
		in.relaxReaders(c.st, true)
		in.canonHeap(c.st, entry)
		roots := make([]*Term, 0, len(live))
		for _, i := range live {
			roots = append(roots, c.env[i])
		}
		for _, d := range c.defers {
			roots = append(append(roots, d.fn), d.args...)
		}
		k, _ := in.stateKey(c.st, entry, roots, math.MaxInt64)
		k += fmt.Sprintf("|%d|%s", len(c.defers), logKey(c.st.log, entry.log)) + c.st.undec
		if i, ok := byKey[k]; ok {
			r[i].st.joinFacts(c.st)
			continue
		}
		byKey[k] = len(r)
		r = append(r, c)
	}
	return r
}

// liveIn lists the values of the function that are read in a block or later,
// the phis of the block counted as values.
func (in *Interp) liveIn(fr *frame, b *ssa.BasicBlock) []int {
	key := b
	if in.live == nil {
		in.live = map[*ssa.BasicBlock][]int{}
	}
	if r, ok := in.live[key]; ok {
		return r
	}
	n := fr.fi.n
	li := map[*ssa.BasicBlock][]bool{}
	for _, x := range fr.fn.Blocks {
		li[x] = make([]bool, n)
	}
	for changed := true; changed; {
		changed = false
		for k := len(fr.fn.Blocks) - 1; k >= 0; k-- {
			x := fr.fn.Blocks[k]
			cur := make([]bool, n)
			for _, s := range x.Succs {
				pi := -1
				for i, p := range s.Preds {
					if p == x {
						pi = i
					}
				}
				def := map[int]bool{}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					def[fr.fi.num[phi]] = true
				}
				for i, v := range li[s] {
					if v && !def[i] {
						cur[i] = true
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for i := range s.Preds {
						if s.Preds[i] == x || i == pi {
							if m, ok := fr.fi.num[phi.Edges[i]]; ok {
								cur[m] = true
							}
						}
					}
				}
			}
			for i := len(x.Instrs) - 1; i >= 0; i-- {
				ins := x.Instrs[i]
				if v, ok := ins.(ssa.Value); ok {
					if m, ok := fr.fi.num[v]; ok {
						if _, isPhi := ins.(*ssa.Phi); !isPhi {
							cur[m] = false
						}
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if m, ok := fr.fi.num[*op]; ok {
						cur[m] = true
					}
				}
			}
			for i := range cur {
				if cur[i] && !li[x][i] {
					li[x][i] = true
					changed = true
				}
			}
		}
	}
	var r []int
	for i, v := range li[b] {
		if v {
			r = append(r, i)
		}
	}
	in.live[key] = r
	return r
}

var blurSyms = map[string]*Term{}

// blur forgets where readers stand, and all of the integers in memory but
// their ranges; the state then stands for any with the same shape.
func (in *Interp) blur(st, base *State, step int) {
	in.forgetScratch(st, base)
	sym := func(key, name string, t types.Type) *Term {
		x := blurSyms[key]
		if x == nil {
			x = mkSym(name, t)
			blurSyms[key] = x
		}
		return x
	}
	for _, id := range sortedIDs(st.heap.m) {
		v := st.heap.m[id]
		if x, ok := base.heap.m[id]; ok && x == v || v == nil {
			continue
		}
		var walk func(t *Term, path string) *Term
		walk = func(t *Term, path string) *Term {
			key := fmt.Sprint(step, ":", id, path)
			if isIntTerm(t) {
				if t.op == OpInt {
					return t
				}
				lo, hi := st.rng(t, true)
				typ := types.Type(types.Typ[[...]types.BasicKind{types.Int8, types.Int16, types.Int32, types.Int64}[map[int]int{8: 0, 16: 1, 32: 2, 64: 3}[t.width()]]])
				if w := t.width(); w != 8 && w != 16 && w != 32 && w != 64 {
					return t
				}
				n := sym(key+fmt.Sprint(t.width()), "any", typ)
				st.narrow(n, iv{lo, hi})
				return n
			}
			if t.op == OpApp && t.s == "bufioR" {
				pos := sym(key+"pos", "+pos", tInt)
				c := withArg(withArg(t, rOff, pos), rAvail, mkI(0))
				if c.args[rFailed] != tNil {
					c = withArg(c, rFailed, sym(key+"err", "err:past", c.args[rFailed].typ))
				}
				return c
			}
			if (t.op == OpStruct || t.op == OpApp || t.op == OpIface || t.op == OpTuple) && len(t.args) > 0 {
				as := append([]*Term(nil), t.args...)
				for i := range as {
					as[i] = walk(as[i], fmt.Sprint(path, ".", i))
				}
				c := *t
				c.args = as
				return intern(&c)
			}
			return t
		}
		if c := walk(v, ""); c != v {
			st.heap.set(id, c)
		}
	}
}
