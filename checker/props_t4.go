package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- arguments of Marshal and Unmarshal, and types that cannot be sent

var unsupportedKinds = []reflect.Kind{reflect.Int, reflect.Uint, reflect.Uintptr, reflect.Complex64, reflect.Complex128, reflect.Array, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer}

// top runs Marshal or Unmarshal on an argument; all codecs are opaque.
func (t *tctx) top(enc bool, name string, arg *Term) *tcall {
	t.in.refl.fresh = func(k *Term) bool { return false }
	st := t.base.clone()
	fn, s := "Marshal", t.ws
	if !enc {
		fn, s = "Unmarshal", t.rs
	}
	tc := &tcall{name: fn + " of " + name, enc: enc, mark: st.log}
	tc.outs = t.in.callFn(st, t.c.ld.fn("thrift", fn), []*Term{s, arg}, nil, token.NoPos, nil)
	t.c.nPaths += len(tc.outs)
	return tc
}

func (t *tctx) arguments() {
	c0 := mkNamed("arg", nil)
	for _, enc := range []bool{true, false} {
		enc := enc
		t.c.guard("nil argument", func() {
			for _, o := range t.top(enc, "nil", tNil).outs {
				t.badArg(&tcall{name: "a nil argument", enc: enc, mark: t.base.log}, o)
			}
		})
		t.c.guard("pointer argument", func() {
			T := mkNamed("type:T", t.in.refl.rtype)
			tc := t.top(enc, "a pointer", mkApp("ifaceof", t.in.refl.anyT, t.in.ptrTo(T), c0))
			tc.place = mkApp("deref", nil, c0)
			for _, o := range tc.outs {
				if o.st.undec == "" && o.st.eval(t.in.isNilC(c0)) == yes {
					t.badArg(tc, o)
					continue
				}
				t.goodArg(tc, o, T, mkApp("deref", nil, c0), mkApp("at", nil, c0), false)
			}
		})
		t.c.guard("value argument", func() {
			T := mkNamed("type:V", t.in.refl.rtype)
			var d Dom
			for _, k := range nonPointerKinds {
				d = append(d, iv{int64(k), int64(k)})
			}
			kt := t.in.kindOf(t.base, T)
			t.base.dom.set(kt, sortDom(d))
			t.base.facts.set(mkEq(T, tNil), false)
			tc := t.top(enc, "a value that is no pointer", mkApp("ifaceof", t.in.refl.anyT, T, c0))
			tc.place = mkPlaceVal(c0)
			for _, o := range tc.outs {
				if !enc {
					t.badArg(tc, o)
					continue
				}
				t.goodArg(tc, o, T, nil, c0, true)
			}
		})
	}
	for _, k := range unsupportedKinds {
		k := k
		st := t.base.clone()
		T := t.typeSym(st, "U:"+k.String(), k)
		t.distinct(st, T, mkRType(types.NewArray(types.Typ[types.Uint8], 16)))
		t.unsupported(st, T, "the kind "+k.String())
	}
	for n, x := range map[string]types.Type{
		"[15]byte": types.NewArray(types.Typ[types.Uint8], 15), "[16]int8": types.NewArray(types.Typ[types.Int8], 16), "[0]byte": types.NewArray(types.Typ[types.Uint8], 0),
		"func()": types.NewSignatureType(nil, nil, nil, nil, nil, false), "error": errType, "any": types.NewInterfaceType(nil, nil), "int": types.Typ[types.Int], "uint": types.Typ[types.Uint],
		"chan int64": types.NewChan(types.SendRecv, types.Typ[types.Int64]), "complex128": types.Typ[types.Complex128],
	} {
		t.unsupported(t.base.clone(), mkRType(x), n)
	}
}

func (t *tctx) badArg(tc *tcall, o Out) {
	if !t.j.sane(o, tc.name, tc.mark) {
		return
	}
	switch o.st.eval(mkEq(o.val, tNil)) {
	case yes:
		t.j.bad(catInvalid, tc.name, o.st, o.pos, "succeeds although the argument is not valid")
		return
	case unknown:
		t.j.bad(catUndecided, tc.name, o.st, o.pos, "cannot tell whether an error is returned")
		return
	}
	if t.noCalls(tc, o, catInvalid, "the argument is not valid") && t.semantic(tc, o, nil) {
		t.j.ok(catInvalid)
	}
}

// goodArg: the codec of the type does all the work.
func (t *tctx) goodArg(tc *tcall, o Out, T, p, c *Term, copies bool) {
	oc := t.outcome(tc, o)
	t.noChange(tc, o)
	if oc == ocBad {
		return
	}
	if oc == ocOwn {
		t.j.bad(catSpurious, tc.name, o.st, o.pos, "reports an error of its own for a valid argument")
		return
	}
	m := t.match(tc, o)
	if e := m.component(T, nil, nil); e != nil {
		if !(p != nil && e.args[inPlace] == p) && !(copies && e.args[inContent] == c) {
			m.bad("works on %s, which holds %s, not on the argument", e.args[inPlace], e.args[inContent])
		}
		if e.args[inPlace].s == "val" {
			m.bad("the value handed on is not addressable")
		}
		if !tc.enc && !isWireOf(o.st.norm(e.args[inWire]), T) {
			m.bad("the codec is told the wire type %s, not its own", e.args[inWire])
		}
		// nesting starts from a fixed depth
		for _, x := range leafInts(e.args[inOpts]) {
			if x = o.st.norm(x); x.op != OpInt || x.sval() > depthCap || x.sval() < -depthCap {
				t.j.bad(catDepth, tc.name, o.st, e.pos, "the nesting depth starts from %s", x)
			} else {
				t.j.ok(catDepth)
			}
		}
	}
	m.verdict(o)
}

func leafInts(x *Term) []*Term {
	if x.op == OpStruct || x.op == OpTuple {
		var r []*Term
		for _, a := range x.args {
			r = append(r, leafInts(a)...)
		}
		return r
	}
	if isIntTerm(x) {
		return []*Term{x}
	}
	return nil
}

func (t *tctx) unsupported(st *State, T *Term, name string) {
	t.withCodec("codec of "+name, st, T, func(st *State, cd codec) {
		for _, enc := range []bool{true, false} {
			f, n := cd.marshal, "Marshal of "+name
			if !enc {
				f, n = cd.unmarshal, "Unmarshal of "+name
			}
			tc := t.call(st.clone(), f, T, t.valuePlace(), n)
			tc.enc = enc
			for _, o := range tc.outs {
				if !t.j.sane(o, n, tc.mark) {
					continue
				}
				if o.st.eval(mkEq(o.val, tNil)) != no {
					t.j.bad(catInvalid, n, o.st, o.pos, "succeeds although the type has no Thrift counterpart")
					continue
				}
				if t.noCalls(tc, o, catInvalid, "the type has no Thrift counterpart") && t.noSets(tc, o, catInvalid, "the type has no Thrift counterpart") && t.semantic(tc, o, T) {
					t.j.ok(catInvalid)
				}
			}
		}
		w := st.norm(cd.wire)
		if w.op != OpInt || w.u != 0 {
			t.j.bad(catInvalid, "codec of "+name, st, token.NoPos, "the codec of a type without Thrift counterpart claims the wire type %s, so that headers announce it", w)
		} else {
			t.j.ok(catInvalid)
		}
	})
}

// ---- recursive types

type recGraph struct {
	name  string
	types map[string]string // P: *Q, []Q, map[K]Q, struct Q R
	bad   map[string]bool   // types that are refused
}

var recGraphs = []recGraph{
	{"type P *P", map[string]string{"P": "*P"}, map[string]bool{"P": true}},
	{"type P *Q; type Q *P", map[string]string{"P": "*Q", "Q": "*P"}, map[string]bool{"P": true, "Q": true}},
	{"type P *Q; type Q *R; type R *Q", map[string]string{"P": "*Q", "Q": "*R", "R": "*Q"}, map[string]bool{"P": true, "Q": true, "R": true}},
	{"type L []L", map[string]string{"L": "[]L"}, nil},
	{"type L []*L", map[string]string{"L": "[]P", "P": "*L"}, nil},
	{"type L *[]L", map[string]string{"L": "*M", "M": "[]L"}, nil},
	{"type M map[K]M", map[string]string{"M": "map K M"}, nil},
	{"type M map[K]*M", map[string]string{"M": "map K P", "P": "*M"}, nil},
	{"type S struct{ *S }", map[string]string{"S": "struct P", "P": "*S"}, nil},
	{"type S struct{ []S }", map[string]string{"S": "struct L", "L": "[]S"}, nil},
	{"type S struct{ map[K]S }", map[string]string{"S": "struct L", "L": "map K S"}, nil},
	{"type S struct{ *T }; type T struct{ *S }", map[string]string{"S": "struct P", "P": "*T", "T": "struct Q", "Q": "*S"}, nil},
	{"type S struct{ P *P }", map[string]string{"S": "struct P", "P": "*P"}, map[string]bool{"P": true}},
}

func (t *tctx) recursion() {
	for _, g := range recGraphs {
		g := g
		if debugLoop {
			println("GRAPH", g.name)
		}
		t.c.guard(g.name, func() { t.graph(g) })
	}
}

func (t *tctx) graph(g recGraph) {
	st := t.base.clone()
	var names []string
	for n := range g.types {
		names = append(names, n)
	}
	sort.Strings(names)
	ty := map[string]*Term{}
	var all []*Term
	for _, n := range names {
		ty[n] = mkNamed("type:"+g.name+":"+n, t.in.refl.rtype)
		all = append(all, ty[n])
		t.in.refl.methods[ty[n]] = nil
		t.in.refl.methods[t.in.ptrTo(ty[n])] = nil
	}
	K := mkNamed("type:"+g.name+":K", t.in.refl.rtype)
	t.setKind(st, K, reflect.String)
	t.distinct(st, append([]*Term{K}, all...)...)
	for _, n := range names {
		d, T := g.types[n], ty[n]
		switch {
		case strings.HasPrefix(d, "*"):
			t.setKind(st, T, reflect.Pointer)
			t.in.refl.elem[T] = ty[d[1:]]
		case strings.HasPrefix(d, "[]"):
			t.setKind(st, T, reflect.Slice)
			t.in.refl.elem[T] = ty[d[2:]]
			// not a slice of bytes
			bt := mkRType(types.NewSlice(types.Typ[types.Uint8]))
			st.facts.set(mkApp("t.AssignableTo", types.Typ[types.Bool], T, bt), false)
		case strings.HasPrefix(d, "map "):
			t.setKind(st, T, reflect.Map)
			t.in.refl.key[T], t.in.refl.elem[T] = K, ty[strings.Fields(d)[2]]
		default:
			t.setKind(st, T, reflect.Struct)
			var fs []fieldSpec
			for i, x := range strings.Fields(d)[1:] {
				fs = append(fs, fieldSpec{name: fmt.Sprintf("F%d", i), tagged: true, tag: mkStr(fmt.Sprint(i + 1)), typ: ty[x]})
			}
			t.in.refl.structs[T] = fs
		}
	}
	fresh := func(k *Term) bool {
		for _, x := range all {
			if x == k {
				return true
			}
		}
		return false
	}
	old := t.in.inline
	t.in.inline = 12
	defer func() { t.in.inline = old }()
	var endless *ssa.Function
	var at token.Pos
	t.in.recHook = func(st *State, fn *ssa.Function, outer, inner []*Term, pos token.Pos) { endless, at = fn, pos }
	defer func() { t.in.recHook = nil }()
	for _, n := range names {
		T := ty[n]
		name := fmt.Sprintf("codec of %s in %s", n, g.name)
		endless = nil
		cds := t.codecsFor(st.clone(), T, fresh)
		if endless != nil {
			t.j.bad(catEndless, name, nil, at, "%s is entered again and again while a codec is made", endless)
			continue
		}
		if cds.panics != nil {
			t.j.bad(catEndless, name, cds.panics.st, cds.panics.pos, "panics: %s", cds.panics.val)
			continue
		}
		if len(cds.cs) == 0 {
			t.j.bad(catEndless, name, nil, token.NoPos, "a codec is never finished")
			continue
		}
		t.j.ok(catEndless)
		for _, x := range cds.cs {
			for _, enc := range []bool{true, false} {
				f := x.c.marshal
				if !enc {
					f = x.c.unmarshal
				}
				t.nested = 1
				t.in.refl.fresh = fresh
				nm := "Marshal"
				if !enc {
					nm = "Unmarshal"
				}
				tc := t.call(x.st.clone(), f, T, t.valuePlace(), nm+" with the "+name)
				t.nested = 0
				if endless != nil {
					t.j.bad(catEndless, tc.name, nil, at, "%s is entered again and again", endless)
					break
				}
				good := false
				for _, o := range tc.outs {
					if o.st.undec != "" {
						t.j.bad(catUndecided, tc.name, o.st, o.pos, "not decided: %s", o.st.undec)
						continue
					}
					if o.kind == outPanic {
						t.j.bad(catEndless, tc.name, o.st, o.pos, "panics: %s", o.val)
						continue
					}
					if o.st.eval(mkEq(o.val, tNil)) == yes {
						good = true
						if g.bad[n] {
							t.j.bad(catEndless, tc.name, o.st, o.pos, "a type of nothing but pointers is accepted")
						}
					} else if !g.bad[n] {
						continue
					} else if t.semantic(tc, o, nil) {
						t.j.ok(catEndless)
					}
					t.depth(tc, o, false)
				}
				if !good && !g.bad[n] && !g.bad["P"] {
					t.j.bad(catEndless, tc.name, nil, token.NoPos, "a type that can be sent is refused")
				} else {
					t.j.ok(catEndless)
				}
			}
		}
	}
}

type codecs struct {
	cs     []stCodec
	panics *Out
}

type stCodec struct {
	st *State
	c  codec
}

// codecsFor is codecOf when the codecs of several types are new.
func (t *tctx) codecsFor(st *State, T *Term, fresh func(k *Term) bool) (r codecs) {
	t.in.refl.fresh = fresh
	t.nested = 0
	t.opaque = true
	defer func() { t.opaque = false }()
	in := mkApp("ifaceof", t.in.refl.anyT, t.in.ptrTo(T), mkApp("new", nil, T, mkNamed("arg", nil)))
	mark := st.log
	outs := t.in.callFn(st, t.c.ld.fn("thrift", "Marshal"), []*Term{t.ws, in}, nil, token.NoPos, nil)
	t.c.nPaths += len(outs)
	for i, o := range outs {
		if o.st.undec != "" {
			t.in.fail("%s", o.st.undec)
		}
		if o.kind == outPanic {
			r.panics = &outs[i]
		}
		for k, v := range o.st.omem.m {
			if k.op == OpApp && k.s == "smap" && k.args[1] == T {
				cd, ok := t.codecIn(o.st, v)
				if !ok {
					t.in.fail("the cached codec is not understood: %s", v)
				}
				o.st.log = mark
				r.cs = append(r.cs, stCodec{o.st, cd})
			}
		}
	}
	return r
}

// ---- codecs are shared by all goroutines

// reach collects the heap objects reachable from terms.
func (t *tctx) reach(st *State, roots ...*Term) map[int]bool {
	seen := map[int]bool{}
	done := map[*Term]bool{}
	var f func(x *Term)
	f = func(x *Term) {
		if x == nil || done[x] {
			return
		}
		done[x] = true
		if x.op == OpPtr && x.n >= 0 && !seen[int(x.n)] {
			seen[int(x.n)] = true
			if h, ok := st.heap.get(int(x.n)); ok {
				f(h)
			}
		}
		for _, a := range x.args {
			f(a)
		}
	}
	for _, r := range roots {
		f(r)
	}
	return seen
}

type snapshot struct {
	heap map[int]*Term
	objs map[int]bool
}

func (t *tctx) globalsOf(st *State) []*Term {
	var r []*Term
	for g, id := range t.in.globals {
		if t.in.ownPkg(g.Pkg) {
			r = append(r, mkPtr(id))
		}
	}
	return r
}

// access is a read or write of shared objects with what guards it: the locks
// held, and the Onces that were done before.
type access struct {
	id     int
	field  *Term // nil: all of it
	guards map[*Term]bool
	name   string
	pos    token.Pos
	st     *State
}

// guards finds the locks that are held and the Onces that are done.
func guards(st *State, mark *Ev, write bool) map[*Term]bool {
	n := map[*Term]int{}
	g := map[*Term]bool{}
	for _, e := range eventsSince(st.log, mark) {
		switch {
		case e.kind == "lock" && strings.HasSuffix(e.name, "Unlock"):
			n[e.args[0]]--
		case e.kind == "lock" && !(write && strings.HasSuffix(e.name, ".RLock")):
			n[e.args[0]]++
		case e.kind == "oncebegin", e.kind == "onceend", e.kind == "oncepass":
			g[e.args[0]] = true
		}
	}
	for p, k := range n {
		if k > 0 {
			g[p] = true
		}
	}
	return g
}

type accessLog struct {
	reads, writes []access
	seen          map[string]bool
	objs          map[int]bool
	mark          *Ev
	name          string
}

func (l *accessLog) add(a access, write bool) {
	k := fmt.Sprint(a.id, write)
	if a.field != nil {
		k += fmt.Sprint(" ", a.field.id)
	}
	var gs []int
	for g := range a.guards {
		gs = append(gs, g.id)
	}
	sort.Ints(gs)
	k += fmt.Sprint(gs)
	if l.seen[k] {
		return
	}
	l.seen[k] = true
	if write {
		l.writes = append(l.writes, a)
	} else {
		l.reads = append(l.reads, a)
	}
}

// wrote notes what changed between two states, under the guards of the second.
func (l *accessLog) wrote(from, at *State, pos token.Pos) {
	for id := range l.objs {
		a, _ := from.heap.get(id)
		b, ok := at.heap.get(id)
		if !ok || a == nil || a == b {
			continue
		}
		g := guards(at, l.mark, true)
		if a.op == OpStruct && b.op == OpStruct && len(a.args) == len(b.args) {
			for i := range a.args {
				if a.args[i] != b.args[i] {
					l.add(access{id, mkI(int64(i)), g, l.name, pos, at}, true)
				}
			}
			continue
		}
		l.add(access{id, nil, g, l.name, pos, at}, true)
	}
}

// races reports the reads of what other calls write that nothing keeps apart.
func (t *tctx) races(l *accessLog) {
	for _, r := range l.reads {
		for _, w := range l.writes {
			if r.id != w.id || r.field != nil && w.field != nil && r.field != w.field {
				continue
			}
			common := len(w.guards) == 0 // reported already
			for g := range w.guards {
				if r.guards[g] {
					common = true
				}
			}
			if !common {
				what := "a variable"
				for g, gid := range t.in.globals {
					if gid == r.id {
						what = g.String()
					}
				}
				if ty := t.in.otyp[r.id]; ty != nil && what == "a variable" {
					what = "a variable of type " + ty.String()
				}
				t.j.bad(catShare, r.name, r.st, r.pos, "%s is read without what guards its change in %s at %s", what, w.name, t.c.ld.pos(w.pos))
				return
			}
		}
	}
	t.j.ok(catShare)
}

// shared checks one call: objects that other goroutines can get at change only
// within Once.Do or while a lock is held.
func (t *tctx) shared(name string, o Out, mark *Ev, start *State, roots []*Term, l *accessLog) bool {
	objs := t.reach(start, roots...)
	for id := range objs {
		l.objs[id] = true
	}
	l.mark, l.name = mark, name
	snap := start
	guarded := 0
	good := true
	cmp := func(at *State, pos token.Pos, when string) {
		if guarded > 0 || !good {
			return
		}
		for id := range objs {
			a, _ := snap.heap.get(id)
			b, ok := at.heap.get(id)
			if ok && a != nil && a != b {
				good = false
				what := "an object"
				for g, gid := range t.in.globals {
					if gid == id {
						what = g.String()
					}
				}
				if ty := t.in.otyp[id]; ty != nil && what == "an object" {
					what = "a variable of type " + ty.String()
				}
				t.j.bad(catShare, name, o.st, pos, "%s that all goroutines share changes %s", what, when)
				return
			}
		}
	}
	for _, e := range eventsSince(o.st.log, mark) {
		if e.snap == nil {
			continue
		}
		switch {
		case e.kind == "oncebegin", e.kind == "lock" && strings.HasSuffix(e.name, ".Lock"):
			cmp(e.snap, e.pos, "without synchronisation")
			guarded++
		case e.kind == "onceend", e.kind == "lock" && strings.HasSuffix(e.name, ").Unlock"):
			guarded--
			at := e.snap.clone()
			if e.kind == "lock" {
				at.log = e.prev // the lock is still held
			}
			l.wrote(snap, at, e.pos)
			snap = e.snap
			for id := range t.reach(e.snap, roots...) {
				objs[id] = true
			}
		case e.kind == "publish" && e.name == "map" && guarded == 0 && good:
			good = false
			t.j.bad(catShare, name, o.st, e.pos, "a map that all goroutines share changes without synchronisation")
		case e.kind == "publish" && e.name == "map":
			l.add(access{int(e.args[0].n), nil, guards(e.snap, mark, true), name, e.pos, e.snap}, true)
		case e.kind == "publish":
			cmp(e.snap, e.pos, "without synchronisation")
			snap = e.snap
			roots = append(roots, e.args[2])
			for id := range t.reach(e.snap, roots...) {
				objs[id] = true
			}
		}
	}
	cmp(o.st, o.pos, "without synchronisation")
	if good {
		t.j.ok(catShare)
	}
	return good
}

func (t *tctx) sharing() {
	type scn struct {
		name string
		mk   func(st *State) *Term
	}
	var scns []scn
	scns = append(scns, scn{"int32", func(st *State) *Term { return t.typeSym(st, "i32", reflect.Int32) }})
	scns = append(scns, scn{"string", func(st *State) *Term { return t.typeSym(st, "str", reflect.String) }})
	scns = append(scns, scn{"bool", func(st *State) *Term { return t.typeSym(st, "bool", reflect.Bool) }})
	scns = append(scns, scn{"float64", func(st *State) *Term { return t.typeSym(st, "f64", reflect.Float64) }})
	scns = append(scns, scn{"uint8", func(st *State) *Term { return t.typeSym(st, "u8", reflect.Uint8) }})
	scns = append(scns, scn{"chan", func(st *State) *Term { return t.typeSym(st, "chan", reflect.Chan) }})
	scns = append(scns, scn{"[]byte", func(st *State) *Term { return mkRType(types.NewSlice(types.Typ[types.Uint8])) }})
	scns = append(scns, scn{"[16]byte", func(st *State) *Term { return mkRType(types.NewArray(types.Typ[types.Uint8], 16)) }})
	for _, s := range seqScenarios[:2] {
		s := s
		scns = append(scns, scn{s.name, func(st *State) *Term {
			T := s.mk(t)
			t.in.refl.elem[T] = t.compSym(st, "E")
			return T
		}})
	}
	scns = append(scns, scn{"map", func(st *State) *Term {
		T := mkRType(types.NewMap(types.Typ[types.Int64], types.Typ[types.String]))
		t.in.refl.key[T], t.in.refl.elem[T] = t.compSym(st, "K"), t.compSym(st, "V")
		return T
	}})
	scns = append(scns, scn{"pointer", func(st *State) *Term {
		E := t.typeSym(st, "E", nonPointerKinds...)
		T := mkNamed("type:P", t.in.refl.rtype)
		t.setKind(st, T, reflect.Pointer)
		t.in.refl.elem[T] = E
		t.distinct(st, T, E)
		return T
	}})
	for _, s := range structScns {
		s := s
		if len(s.fields) < 3 || s.name == "ignored" {
			scns = append(scns, scn{"struct " + s.name, func(st *State) *Term {
				T, _ := t.structType(st, s)
				return T
			}})
		}
	}
	for _, s := range []structScn{{name: "bad tag", fields: []fieldScn{{name: "A", tag: "x"}}}, {name: "equal IDs", fields: []fieldScn{{name: "A", tag: "1"}, {name: "B", tag: "1"}}}, {name: "no fields", fields: []fieldScn{{name: "b", hidden: true, noTag: true}}}} {
		s := s
		scns = append(scns, scn{"struct with " + s.name, func(st *State) *Term {
			T, _ := t.structType(st, s)
			return T
		}})
	}
	t.in.snapEvents = true
	for _, s := range scns {
		s := s
		t.c.guard(s.name, func() { t.share(s.name, s.mk) })
	}
}

func (t *tctx) share(name string, mk func(st *State) *Term) {
	st := t.base.clone()
	T := mk(st)
	start := st.clone()
	mark := st.log
	fresh := func(k *Term) bool { return k == T }
	t.in.refl.fresh = fresh
	arg := mkApp("ifaceof", t.in.refl.anyT, t.in.ptrTo(T), mkApp("new", nil, T, mkNamed("arg", nil)))
	l := &accessLog{objs: map[int]bool{}, seen: map[string]bool{}}
	watch := func(name string, mark *Ev, start *State, roots []*Term) {
		objs := t.reach(start, roots...)
		t.in.loadHook = func(st *State, p *Term, pos token.Pos) {
			if !objs[int(p.n)] {
				return
			}
			var f *Term
			if len(p.args) > 0 && isStructType(t.in.otyp[int(p.n)]) {
				f = p.args[0]
			}
			l.add(access{int(p.n), f, guards(st, mark, false), name, pos, st}, false)
		}
	}
	defer func() { t.in.loadHook = nil }()
	watch("the first Marshal of "+name, mark, start, t.globalsOf(start))
	var firsts []stCodec
	for _, o := range t.in.callFn(st, t.c.ld.fn("thrift", "Marshal"), []*Term{t.ws, arg}, nil, token.NoPos, nil) {
		t.c.nPaths++
		if o.st.undec != "" || o.kind == outPanic {
			continue // other properties
		}
		if !t.shared("the first Marshal of "+name, o, mark, start, t.globalsOf(start), l) {
			continue
		}
		for k, v := range o.st.omem.m {
			if k.op == OpApp && k.s == "smap" && k.args[1] == T {
				if cd, ok := t.codecIn(o.st, v); ok {
					o.st.log = mark
					firsts = append(firsts, stCodec{o.st, cd})
				}
			}
		}
	}
	if len(firsts) == 0 {
		t.in.fail("no codec is cached for %s", name)
	}
	if len(firsts) > 8 {
		firsts = firsts[:8]
	}
	for _, f := range firsts {
		for _, enc := range []bool{true, false} {
			g, n := f.c.marshal, "a later Marshal of "+name
			if !enc {
				g, n = f.c.unmarshal, "a later Unmarshal of "+name
			}
			st := f.st.clone()
			start := st.clone()
			roots := append(t.globalsOf(start), f.c.obj, f.c.marshal, f.c.unmarshal)
			watch(n, st.log, start, roots)
			tc := t.call(st, g, T, t.valuePlace(), n)
			t.in.loadHook = nil
			for _, o := range tc.outs {
				if o.st.undec != "" {
					continue
				}
				if o.kind == outPanic {
					t.j.bad(catPanic, n, o.st, o.pos, "panics: %s", o.val)
					continue
				}
				t.shared(n, o, tc.mark, start, roots, l)
			}
		}
	}
	t.races(l)
}
