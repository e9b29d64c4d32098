package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is an event of a path; the log of a state is a linked list.
type Ev struct {
	prev *Ev
	kind string
	name string
	args []*Term
	res  []*Term
	pos  token.Pos
	loop *LoopRec
	fail bool   // the operation failed
	snap *State // copy of the state, for events of synchronisation
}

type State struct {
	dom   cow[*Term, Dom]
	kb    cow[*Term, kbits]
	facts cow[*Term, bool]
	heap  cow[int, *Term]
	omem  cow[*Term, *Term]
	log   *Ev
	trail *Ev // branch decisions, for reports
	undec string
	reco  bool
}

func newState() *State {
	return &State{dom: newCow[*Term, Dom](), kb: newCow[*Term, kbits](), facts: newCow[*Term, bool](),
		heap: newCow[int, *Term](), omem: newCow[*Term, *Term]()}
}

func (st *State) clone() *State {
	c := *st
	c.dom = st.dom.clone()
	c.kb = st.kb.clone()
	c.facts = st.facts.clone()
	c.heap = st.heap.clone()
	c.omem = st.omem.clone()
	return &c
}

func (st *State) event(kind, name string, pos token.Pos, args []*Term, res ...*Term) *Ev {
	st.log = &Ev{prev: st.log, kind: kind, name: name, args: args, res: res, pos: pos}
	return st.log
}

func (st *State) undecided(format string, args ...any) {
	if st.undec == "" {
		st.undec = fmt.Sprintf(format, args...)
	}
}

// events since mark (exclusive), oldest first
func eventsSince(log, mark *Ev) []*Ev {
	var r []*Ev
	for e := log; e != nil && e != mark; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// iterMark is the loop event an iteration of a summarised loop started from
// (one loop has an event for each of the cases it was explored under).
func iterMark(rec *LoopRec, it *State) *Ev {
	for e := it.log; e != nil; e = e.prev {
		if e.loop == rec {
			return e
		}
	}
	return nil
}

func (e *Ev) String() string {
	var xs []string
	for _, a := range e.args {
		xs = append(xs, a.String())
	}
	s := e.kind + " " + e.name + "(" + strings.Join(xs, ", ") + ")"
	if len(e.res) > 0 {
		xs = nil
		for _, a := range e.res {
			xs = append(xs, a.String())
		}
		s += " = " + strings.Join(xs, ", ")
	}
	if e.fail {
		s += " FAIL"
	}
	if e.loop != nil {
		s += fmt.Sprintf(" [%d iterations shapes]", len(e.loop.iters))
	}
	return s
}

type outKind uint8

const (
	outRet outKind = iota
	outPanic
)

type Out struct {
	st   *State
	kind outKind
	val  *Term // returned value (tuple for several) or panic value
	ret  *Term // result of the function run by a sync.Once
	pos  token.Pos
}

func (o Out) results() []*Term {
	if o.val == nil {
		return nil
	}
	if o.val.op == OpTuple {
		return o.val.args
	}
	return []*Term{o.val}
}

// ---- memory

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return mkInt(w, 0)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return intern(&Term{op: OpFloat, s: "0", typ: nil})
		}
		return tNil
	case *types.Struct:
		if isNamed(t, "reflect", "Value") {
			return mkApp("invalidValue", nil)
		}
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = zeroOf(u.Field(i).Type())
		}
		return intern(&Term{op: OpStruct, args: as, n: 0})
	case *types.Array:
		if u.Len() > 300 {
			return mkApp("zeroarray", t)
		}
		as := make([]*Term, u.Len())
		z := zeroOf(u.Elem())
		for i := range as {
			as[i] = z
		}
		return mkArray(as...)
	case *types.Tuple:
		as := make([]*Term, u.Len())
		for i := range as {
			as[i] = zeroOf(u.At(i).Type())
		}
		return mkTuple(as...)
	}
	return tNil
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func (in *Interp) newObj(st *State, t types.Type, val *Term) int {
	in.nobj++
	id := in.nobj
	in.otyp[id] = t
	st.heap.set(id, val)
	return id
}

// project reads field or element k of an aggregate value.
func (in *Interp) project(st *State, v *Term, k *Term, field bool, typ types.Type) *Term {
	switch v.op {
	case OpStruct, OpTuple:
		if k.op == OpInt && int(k.u) < len(v.args) {
			return v.args[k.u]
		}
	case OpArray:
		if k.op == OpInt && int64(k.u) < int64(len(v.args)) {
			return v.args[k.u]
		}
		return mkApp("idx", typ, v, k)
	case OpSeq:
		if !field {
			return in.seqIndex(st, v, k, typ)
		}
	}
	if v.op == OpApp && v.s == "ite" {
		// not produced
	}
	if field {
		return mkApp(fmt.Sprintf("f%d", k.u), typ, v)
	}
	return mkApp("idx", typ, v, k)
}

func (in *Interp) update(st *State, v *Term, path []*Term, typ types.Type, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	k := path[0]
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = in.project(st, v, mkI(int64(i)), true, u.Field(i).Type())
		}
		i := int(k.u)
		as[i] = in.update(st, as[i], path[1:], u.Field(i).Type(), nv)
		return mkStruct(as...)
	case *types.Array:
		if k.op == OpInt && u.Len() <= 300 {
			if int64(k.u) >= u.Len() {
				return v
			}
			as := make([]*Term, u.Len())
			for i := range as {
				as[i] = in.project(st, v, mkI(int64(i)), false, u.Elem())
			}
			as[k.u] = in.update(st, as[k.u], path[1:], u.Elem(), nv)
			return mkArray(as...)
		}
		e := in.project(st, v, k, false, u.Elem())
		return mkApp("store", typ, v, k, in.update(st, e, path[1:], u.Elem(), nv))
	}
	return mkApp("upd", typ, append([]*Term{v, nv}, path...)...)
}

func stepType(t types.Type, k *Term) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if k.op == OpInt && int(k.u) < u.NumFields() {
			return u.Field(int(k.u)).Type()
		}
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func isStructType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (in *Interp) load(st *State, p *Term, typ types.Type) *Term {
	if p.op == OpPtr && p.n >= 0 {
		if in.loadHook != nil {
			in.loadHook(st, p, in.curPos)
		}
		v, ok := st.heap.get(int(p.n))
		if !ok {
			st.undecided("load of unknown object %s", p)
			return mkSym("undef", typ)
		}
		t := in.otyp[int(p.n)]
		for _, k := range p.args {
			ft := stepTypeOr(t, k)
			v = in.project(st, v, k, isStructType(t), ft)
			t = ft
		}
		return v
	}
	if v, ok := st.omem.get(p); ok {
		return v
	}
	if p.op == OpPtr { // derived from an opaque base
		// a store to an enclosing location?
		for i := len(p.args) - 1; i >= 1; i-- {
			q := mkOPtr(p.args[0], p.args[1:i]...)
			if v, ok := st.omem.get(q); ok {
				t := in.otypOf(q)
				for _, k := range p.args[i:] {
					var ft types.Type
					if t != nil {
						ft = stepType(t, k)
					}
					if i == len(p.args)-1 {
						ft = typ
					}
					v = in.project(st, v, k, t == nil || isStructType(t), ft)
					t = ft
				}
				return v
			}
		}
		bt := in.otypOf(p.args[0])
		v := in.derefOpaque(st, p.args[0], bt)
		t := bt
		for i, k := range p.args[1:] {
			var ft types.Type
			if t != nil {
				ft = stepType(t, k)
			}
			if i == len(p.args)-2 {
				ft = typ
			}
			v = in.project(st, v, k, t == nil || isStructType(t), ft)
			t = ft
		}
		return v
	}
	return in.assemble(st, p, in.derefOpaque(st, p, typ), typ)
}

// assemble overlays the stores made through pointers into *p.
func (in *Interp) assemble(st *State, p, v *Term, typ types.Type) *Term {
	if typ == nil {
		return v
	}
	for q, x := range st.omem.m {
		if q.op == OpPtr && q.n == -1 && q.args[0] == p && q != p {
			v = in.update(st, v, q.args[1:], typ, x)
		}
	}
	return v
}

func (in *Interp) derefOpaque(st *State, p *Term, typ types.Type) *Term {
	if p.op == OpApp && p.s == "&idx" {
		if x := p.args[0]; x.op == OpApp && x.s == "mapkeys" {
			return mkRV(x.args[2], mkPlaceVal(mkApp("rmapkey@", nil, x.args[0], p.args[1])))
		}
		return in.seqIndex(st, p.args[0], p.args[1], typ)
	}
	if p.op == OpNil {
		return mkSym("niLderef", typ)
	}
	if in.derefHook != nil {
		if v := in.derefHook(st, p, typ); v != nil {
			return v
		}
	}
	return mkApp("*", typ, p)
}

// otypOf is the type an opaque pointer points to, if known.
func (in *Interp) otypOf(p *Term) types.Type {
	t := p.typ
	if p.op == OpPtr && p.n == -1 {
		t = in.otypOf(p.args[0])
		for _, k := range p.args[1:] {
			if t == nil {
				return nil
			}
			t = stepType(t, k)
		}
		return t
	}
	if t == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return nil
}

func stepTypeOr(t types.Type, k *Term) types.Type {
	if t == nil {
		return nil
	}
	return stepType(t, k)
}

func (in *Interp) store(st *State, p, v *Term, pos token.Pos) {
	if p.op == OpPtr && p.n >= 0 {
		id := int(p.n)
		old, _ := st.heap.get(id)
		if len(p.args) == 0 {
			st.heap.set(id, v)
			return
		}
		st.heap.set(id, in.update(st, old, p.args, in.otyp[id], v))
		return
	}
	st.event("store", "", pos, []*Term{p, v})
	st.omem.set(p, v)
}

// ---- sequences

// contentOf lists the segments of a slice or string value.
func (in *Interp) contentOf(st *State, v *Term) []*Term {
	switch v.op {
	case OpNil:
		return nil
	case OpSeq:
		return v.args
	case OpSlice:
		return in.sliceContent(st, v)
	case OpApp:
		if v.s == "str" || v.s == "view" {
			return v.args[0].args
		}
		if v.s == "sub" {
			return []*Term{v}
		}
		if v.s == "viewn" {
			return []*Term{segSp(v)}
		}
	}
	return []*Term{segSp(v)}
}

func (in *Interp) sliceContent(st *State, v *Term) []*Term {
	arr, off, ln := v.args[0], v.args[1], v.args[2]
	a := in.load(st, arr, in.arrType(arr))
	// content overlay: an array whose first bytes are known as segments
	if a.op == OpApp && a.s == "overlay" {
		// args[0] = rest array, args[1] = offset, args[2] = seq
		if off == a.args[1] || st.eval(mkEq(off, a.args[1])) == yes {
			if st.eval(mkEq(ln, lenTerm(a.args[2]))) == yes {
				return a.args[2].args
			}
			if pre := in.seqSlice(st, a.args[2], mkI(0), ln); pre != nil {
				return in.contentOf(st, pre)
			}
		}
		return []*Term{mkSubSeq(a, off, mkAdd(64, off, ln))}
	}
	if off.op == OpInt && ln.op == OpInt && a.op == OpArray && int(off.u+ln.u) <= len(a.args) && ln.sval() >= 0 {
		var r []*Term
		for i := off.u; i < off.u+ln.u; i++ {
			r = append(r, segEl(a.args[i]))
		}
		return r
	}
	if off.op == OpInt && ln.op == OpInt && ln.sval() >= 0 && ln.u <= 32 && (a.op == OpSym || a.op == OpApp) {
		if off.u == 0 {
			return []*Term{segSp(a)}
		}
	}
	return []*Term{mkSubSeq(a, off, mkAdd(64, off, ln))}
}

func (in *Interp) arrType(p *Term) types.Type {
	if p.op == OpPtr && p.n >= 0 {
		t := in.otyp[int(p.n)]
		for _, k := range p.args {
			if t == nil {
				return nil
			}
			t = stepType(t, k)
		}
		return t
	}
	return in.otypOf(p)
}

// seqIndex reads element i of a sequence known by segments.
func (in *Interp) seqIndex(st *State, v, i *Term, typ types.Type) *Term {
	segs := in.contentOf(st, v)
	pos := mkI(0)
	for _, s := range segs {
		n := segLen(s)
		end := mkAdd(64, pos, n)
		if s.s == "el" {
			if st.eval(mkEq(i, pos)) == yes {
				return s.args[0]
			}
		} else if st.eval(mkLt(i, end, true)) == yes && st.eval(mkLt(i, pos, true)) == no {
			o := mkSub(64, i, pos)
			switch s.s {
			case "sp":
				if s.args[0] == v {
					return mkApp("idx", typ, v, i)
				}
				return mkApp("idx", typ, s.args[0], o)
			case "sub":
				return mkApp("idx", typ, s.args[0], mkAdd(64, s.args[1], o))
			}
		}
		pos = end
	}
	return mkApp("idx", typ, v, i)
}

// seqSlice cuts a sequence at [lo:hi]; nil if the cut cannot be decided.
func (in *Interp) seqSlice(st *State, v, lo, hi *Term) *Term {
	segs := in.contentOf(st, v)
	pos := mkI(0)
	var out []*Term
	started := false
	if st.eval(mkEq(lo, hi)) == yes {
		return tEmpty
	}
	for k, s := range segs {
		end := mkAdd(64, pos, segLen(s))
		if !started {
			if st.eval(mkEq(lo, pos)) == yes {
				started = true
			} else if st.eval(mkLt(lo, end, true)) == yes && (s.s == "sp" || s.s == "sub") && st.eval(mkLt(lo, pos, true)) == no {
				base, o := s.args[0], mkSub(64, lo, pos)
				if s.s == "sub" {
					o = mkAdd(64, o, s.args[1])
				}
				e := mkAdd(64, o, mkSub(64, end, lo))
				if st.eval(mkLt(end, hi, true)) == no { // hi <= end
					return mkSeq(mkSubSeq(base, o, mkAdd(64, o, mkSub(64, hi, lo))))
				}
				out = append(out, mkSubSeq(base, o, e))
				started = true
				pos = end
				continue
			} else if st.eval(mkLt(lo, end, true)) == no {
				pos = end
				continue
			} else {
				return nil
			}
		}
		if st.eval(mkEq(hi, pos)) == yes {
			return mkSeq(out...)
		}
		if st.eval(mkEq(hi, end)) == yes {
			return mkSeq(append(out, s)...)
		}
		if st.eval(mkLt(hi, end, true)) == yes && (s.s == "sp" || s.s == "sub") && st.eval(mkLt(hi, pos, true)) == no {
			base, o := s.args[0], mkI(0)
			if s.s == "sub" {
				o = s.args[1]
			}
			return mkSeq(append(out, mkSubSeq(base, o, mkAdd(64, o, mkSub(64, hi, pos))))...)
		}
		if st.eval(mkLt(hi, end, true)) != no {
			// hi may be inside or beyond this segment
			if k == len(segs)-1 && (s.s == "sp" || s.s == "sub") && st.eval(mkLt(hi, pos, true)) == no {
				base, o := s.args[0], mkI(0)
				if s.s == "sub" {
					o = s.args[1]
				}
				return mkSeq(append(out, mkSubSeq(base, o, mkAdd(64, o, mkSub(64, hi, pos))))...)
			}
			return nil
		}
		out = append(out, s)
		pos = end
	}
	if started && st.eval(mkEq(hi, pos)) == yes {
		return mkSeq(out...)
	}
	return nil
}

func isSliceish(t *Term) bool {
	switch t.op {
	case OpSlice, OpSeq, OpNil:
		return true
	}
	if t.typ != nil {
		switch t.typ.Underlying().(type) {
		case *types.Slice:
			return true
		}
	}
	return false
}

// ---- functions

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*Loop
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*Loop{}}
	add := func(v ssa.Value) {
		fi.num[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	in.infos[fn] = fi
	return fi
}
