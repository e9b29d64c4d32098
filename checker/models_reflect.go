package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// A model of the reflect package over symbolic types and values.
//
// A reflect.Type is a term: a known Go type (OpType), a symbol, or a component
// of another type (t.Elem, t.Key, ptrto, field types).  A reflect.Value is
// rv(type, place): place is val(content) for a value that is not addressable,
// else an addressable location: deref(pointer), fld(place, i), ix(place, i).
// What a location holds is a content term, kept in omem under cell(place) once
// it has been written.

type fieldSpec struct {
	name   string
	hidden bool  // not exported
	tagged bool  // has a thrift key in its tag
	tag    *Term // value of that key
	typ    *Term
	emb    bool
}

type reflModel struct {
	structs map[*Term][]fieldSpec
	methods map[*Term][]string // method sets of scenarios
	elem    map[*Term]*Term    // component types of scenarios
	key     map[*Term]*Term
	fresh   func(k *Term) bool // types no codec has been made for
	rtype   types.Type         // reflect.Type
	// objects with a smaller number exist before the scenario begins
	baseObjs int
	anyT     types.Type
}

func (in *Interp) reflTypeT() types.Type { return in.stdType("reflect", "Type") }

const (
	kInvalid = int64(reflect.Invalid)
	kPtr     = int64(reflect.Pointer)
)

// kind of a type term: the constant, or a bounded atom.
func (in *Interp) kindOf(st *State, t *Term) *Term {
	kt := in.stdType("reflect", "Kind")
	switch {
	case t.op == OpType:
		return mkIntT(kt, goKind(t.typ))
	case t.op == OpApp && t.s == "ptrto":
		return mkIntT(kt, kPtr)
	}
	v := mkApp("kind", kt, t)
	if _, ok := st.dom.get(v); !ok {
		st.dom.set(v, Dom{{0, 26}})
	}
	return v
}

func goKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return int64(m[u.Kind()])
	case *types.Array:
		return int64(reflect.Array)
	case *types.Chan:
		return int64(reflect.Chan)
	case *types.Signature:
		return int64(reflect.Func)
	case *types.Interface:
		return int64(reflect.Interface)
	case *types.Map:
		return int64(reflect.Map)
	case *types.Pointer:
		return kPtr
	case *types.Slice:
		return int64(reflect.Slice)
	case *types.Struct:
		return int64(reflect.Struct)
	}
	return 0
}

func (in *Interp) elemType(t *Term) *Term {
	if e := in.refl.elem[t]; e != nil {
		return e
	}
	if t.op == OpType {
		switch u := t.typ.Underlying().(type) {
		case *types.Pointer:
			return mkRType(u.Elem())
		case *types.Slice:
			return mkRType(u.Elem())
		case *types.Array:
			return mkRType(u.Elem())
		case *types.Map:
			return mkRType(u.Elem())
		}
	}
	if t.op == OpApp && t.s == "ptrto" {
		return t.args[0]
	}
	return mkApp("t.Elem", in.refl.rtype, t)
}

func (in *Interp) keyType(t *Term) *Term {
	if k := in.refl.key[t]; k != nil {
		return k
	}
	if t.op == OpType {
		if u, ok := t.typ.Underlying().(*types.Map); ok {
			return mkRType(u.Key())
		}
	}
	return mkApp("t.Key", in.refl.rtype, t)
}

func (in *Interp) ptrTo(t *Term) *Term {
	if t.op == OpType {
		return mkRType(types.NewPointer(t.typ))
	}
	return mkApp("ptrto", in.refl.rtype, t)
}

func (in *Interp) fieldType(t *Term, i *Term) *Term {
	if fs, ok := in.refl.structs[t]; ok && i.op == OpInt && int(i.u) < len(fs) {
		return fs[i.u].typ
	}
	return mkApp("t.Field", in.refl.rtype, t, i)
}

// kindIn forks a state on whether t has one of the kinds.
func (in *Interp) kindIn(st *State, t *Term, kinds ...reflect.Kind) (ok, not *State) {
	k := in.kindOf(st, t)
	if k.op == OpInt {
		for _, x := range kinds {
			if int64(x) == int64(k.u) {
				return st, nil
			}
		}
		return nil, st
	}
	d := st.domOf(k)
	var want Dom
	for _, x := range kinds {
		want = append(want, iv{int64(x), int64(x)})
	}
	want = sortDom(want)
	yesD := d.intersect(want)
	noD := d.intersect(want.complementIn(iv{0, 26}))
	switch {
	case len(yesD) == 0:
		return nil, st
	case len(noD) == 0:
		return st, nil
	}
	a, b := st.clone(), st.clone()
	a.dom.set(k, yesD)
	b.dom.set(k, noD)
	return a, b
}

func mkRV(t, place *Term) *Term  { return mkApp("rv", nil, t, place) }
func mkPlaceVal(c *Term) *Term   { return mkApp("val", nil, c) }
func isRV(v *Term) bool          { return v.op == OpApp && v.s == "rv" }
func isInvalidRV(v *Term) bool   { return v.op == OpApp && v.s == "invalidValue" }
func cellKey(place *Term) *Term  { return mkApp("cell", nil, place) }
func lenKey(place *Term) *Term   { return mkApp("rlen", nil, place) }
func capKey(place *Term) *Term   { return mkApp("rcap", nil, place) }
func cleanKey(place *Term) *Term { return mkApp("rclean", nil, place) }
func zeroC(t *Term) *Term        { return mkApp("zero", nil, t) }
func isZeroC(c *Term) bool       { return c.op == OpApp && c.s == "zero" }

// content is what a place holds.
func (in *Interp) content(st *State, p *Term) *Term {
	if p.s == "val" {
		return p.args[0]
	}
	if c, ok := st.omem.get(cellKey(p)); ok {
		return c
	}
	switch p.s {
	case "fld":
		c := in.content(st, p.args[0])
		if isZeroC(c) {
			return zeroC(in.fieldType(c.args[0], p.args[1]))
		}
		return mkApp("cfld", nil, c, p.args[1])
	case "ix":
		return mkApp("cix", nil, in.content(st, p.args[0]), p.args[1])
	case "deref":
		q := p.args[0]
		if q.op == OpApp && q.s == "new" {
			return zeroC(q.args[0])
		}
		return mkApp("at", nil, q)
	}
	return mkApp("at", nil, p)
}

func placeUnder(p, root *Term) bool {
	for {
		if p == root {
			return true
		}
		if p.op == OpApp && (p.s == "fld" || p.s == "ix") {
			p = p.args[0]
			continue
		}
		return false
	}
}

// rootOf is the place p is part of: through fields, elements and pointers.
func rootOf(p *Term) *Term {
	for p.op == OpApp {
		switch p.s {
		case "fld", "ix", "deref", "at", "cfld", "cix", "val", "rv":
			if p.s == "rv" {
				p = p.args[1]
			} else {
				p = p.args[0]
			}
			continue
		}
		break
	}
	return p
}

func (in *Interp) setPlace(st *State, p, c *Term) {
	for k := range st.omem.m {
		if k.op == OpApp && (k.s == "cell" || k.s == "rlen" || k.s == "rcap" || k.s == "rclean") && placeUnder(k.args[0], p) {
			st.omem.del(k)
		}
	}
	st.omem.set(cellKey(p), c)
}

func smapKey(p, k *Term) *Term { return mkApp("smap", nil, p, k) }

// isCache recognises a Go map which, like a sync.Map, keeps something for each
// type: what it holds for a type whose codec is not analysed is opaque.
func (in *Interp) isCache(mt *types.Map, m *Term) bool {
	if in.initing || in.refl == nil || in.refl.fresh == nil || in.refl.rtype == nil || m.op != OpPtr || m.n < 0 || len(m.args) > 0 {
		return false
	}
	switch mt.Elem().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Struct:
	default:
		return false
	}
	return types.Identical(mt.Key(), in.refl.rtype) && int(m.n) < in.refl.baseObjs
}

func (in *Interp) cacheLoad(st *State, mt *types.Map, m, k *Term, pos token.Pos) (*Term, bool) {
	if in.snapEvents {
		st.event("lookup", "map", pos, []*Term{k})
	}
	if in.loadHook != nil {
		in.loadHook(st, m, pos)
	}
	if v, ok := st.omem.get(smapKey(m, k)); ok {
		if v.op == OpIface && v.typ == mt.Elem() {
			return v.args[0], true
		}
		return v, true
	}
	if in.refl.fresh(k) {
		return nil, false
	}
	v := mkApp("cached", mt.Elem(), k)
	if _, ok := mt.Elem().Underlying().(*types.Interface); ok {
		st.omem.set(smapKey(m, k), v)
	} else {
		st.omem.set(smapKey(m, k), mkIface(mt.Elem(), v))
	}
	return v, true
}

func (in *Interp) cacheStore(st *State, mt *types.Map, m, k, v *Term, pos token.Pos) {
	if _, ok := mt.Elem().Underlying().(*types.Interface); !ok {
		v = mkIface(mt.Elem(), v)
	}
	st.omem.set(smapKey(m, k), v)
	e := st.event("publish", "map", pos, []*Term{m, k, v})
	if in.snapEvents {
		e.snap = st.clone()
	}
}

// omRead reads an entry of the memory of opaque places, whether it was written
// or not.
func (in *Interp) omRead(st *State, k *Term, typ types.Type) *Term {
	if v, ok := st.omem.get(k); ok {
		return v
	}
	if k.op == OpApp && len(k.args) == 1 {
		switch k.s {
		case "cell":
			return in.content(st, k.args[0])
		case "rlen":
			return in.rlenOf(st, k.args[0])
		case "rcap":
			return in.rcapOf(st, k.args[0])
		case "rclean":
			return tFalse
		}
	}
	return in.load(st, k, typ)
}

func (in *Interp) rlenOf(st *State, p *Term) *Term {
	if v, ok := st.omem.get(lenKey(p)); ok {
		return v
	}
	c := in.content(st, p)
	if isZeroC(c) {
		return mkI(0)
	}
	if c.op == OpApp && c.s == "mkslice" {
		return c.args[1]
	}
	v := mkApp("rlen", tInt, c)
	if _, ok := st.dom.get(v); !ok {
		st.dom.set(v, Dom{{0, inf}})
	}
	return v
}

func (in *Interp) rcapOf(st *State, p *Term) *Term {
	if v, ok := st.omem.get(capKey(p)); ok {
		return v
	}
	c := in.content(st, p)
	if isZeroC(c) {
		return mkI(0)
	}
	if c.op == OpApp && c.s == "mkslice" {
		return c.args[2]
	}
	v := mkApp("rcap", tInt, c)
	if _, ok := st.dom.get(v); !ok {
		st.dom.set(v, Dom{{0, inf}})
		l := mkApp("rlen", tInt, c)
		if _, ok := st.dom.get(l); !ok {
			st.dom.set(l, Dom{{0, inf}})
		}
		st.bound(l, v, 0, true)
	}
	return v
}

// isNilC is the condition that a content is nil.
func (in *Interp) isNilC(c *Term) *Term {
	if c.op == OpApp {
		switch c.s {
		case "zero":
			return tTrue
		case "new", "mkmap", "mkslice", "addr", "bytesC":
			return tFalse
		}
	}
	if c.op == OpNil {
		return tTrue
	}
	return mkApp("isnil", types.Typ[types.Bool], c)
}

func rpanic(st *State, c *callCtx, why string) Out {
	return Out{st: st, kind: outPanic, val: mkStr("reflect: " + why), pos: c.pos}
}

// rcheck emits the events of an index or size that may be out of bounds.
func (in *Interp) rbound(st *State, cond *Term, want bool, what string, c *callCtx, args ...*Term) (*State, []Out) {
	t, f := decide(st, cond)
	good, bad := t, f
	if !want {
		good, bad = f, t
	}
	if bad == nil {
		return good, nil
	}
	if good == nil {
		return nil, []Out{rpanic(bad, c, what)}
	}
	good.event("oob", what, c.pos, args)
	return good, nil
}

func registerModels2(in *Interp) {
	m := in.models
	in.refl = &reflModel{structs: map[*Term][]fieldSpec{}, methods: map[*Term][]string{}, elem: map[*Term]*Term{}, key: map[*Term]*Term{}}
	in.refl.anyT = types.NewInterfaceType(nil, nil)
	if in.prog.ImportedPackage("reflect") == nil {
		return
	}
	in.refl.rtype = in.reflTypeT()
	for _, s := range []string{"t.Elem", "t.Key", "t.Field", "ptrto", "dyn", "ifaceof"} {
		nonNilApps[s] = true
	}
	m["reflect.TypeOf"] = func(in *Interp, st *State, c *callCtx) []Out {
		x := c.args[0]
		switch x.op {
		case OpIface:
			return one(st, c, mkRType(x.typ))
		case OpNil:
			return one(st, c, tNil)
		}
		if x.op == OpApp && x.s == "ifaceof" {
			return one(st, c, x.args[0])
		}
		return one(st, c, mkApp("dyn", in.refl.rtype, x))
	}
	m["reflect.PointerTo"] = func(in *Interp, st *State, c *callCtx) []Out { return one(st, c, in.ptrTo(c.args[0])) }
	m["reflect.PtrTo"] = m["reflect.PointerTo"]
	m["reflect.ValueOf"] = func(in *Interp, st *State, c *callCtx) []Out {
		x := c.args[0]
		switch x.op {
		case OpNil:
			return one(st, c, mkApp("invalidValue", nil))
		case OpIface:
			return one(st, c, mkRV(mkRType(x.typ), mkPlaceVal(x.args[0])))
		}
		if x.op == OpApp && x.s == "ifaceof" {
			return one(st, c, mkRV(x.args[0], mkPlaceVal(x.args[1])))
		}
		t, f := decide(st, mkEq(x, tNil))
		var outs []Out
		if t != nil {
			outs = append(outs, ret(t, c, mkApp("invalidValue", nil)))
		}
		if f != nil {
			outs = append(outs, ret(f, c, mkRV(mkApp("dyn", in.refl.rtype, x), mkPlaceVal(mkApp("held", nil, x)))))
		}
		return outs
	}
	m["reflect.New"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, mkRV(in.ptrTo(c.args[0]), mkPlaceVal(mkApp("new", nil, c.args[0], mkSym("n", nil)))))
	}
	m["reflect.Zero"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, mkRV(c.args[0], mkPlaceVal(zeroC(c.args[0]))))
	}
	mkmap := func(in *Interp, st *State, c *callCtx) []Out {
		n := mkI(0)
		if len(c.args) > 1 {
			n = c.args[1]
		}
		st.event("rmake", "map", c.pos, []*Term{c.args[0], n})
		return one(st, c, mkRV(c.args[0], mkPlaceVal(mkApp("mkmap", nil, c.args[0], mkSym("m", nil)))))
	}
	m["reflect.MakeMap"] = mkmap
	m["reflect.MakeMapWithSize"] = mkmap
	m["reflect.MakeSlice"] = func(in *Interp, st *State, c *callCtx) []Out {
		st.event("rmake", "slice", c.pos, []*Term{c.args[0], c.args[2]})
		if st.eval(mkLt(c.args[1], mkI(0), true)) != no || st.eval(mkLt(c.args[2], c.args[1], true)) != no {
			st.event("oob", "MakeSlice", c.pos, c.args[1:])
		}
		return one(st, c, mkRV(c.args[0], mkPlaceVal(mkApp("mkslice", nil, c.args[0], c.args[1], c.args[2], mkSym("s", nil)))))
	}
	m["reflect.Indirect"] = func(in *Interp, st *State, c *callCtx) []Out {
		v := c.args[0]
		if !isRV(v) {
			return one(st, c, v)
		}
		ok, not := in.kindIn(st, v.args[0], reflect.Pointer)
		var outs []Out
		if ok != nil {
			outs = append(outs, in.models["(reflect.Value).Elem"](in, ok, c)...)
		}
		if not != nil {
			outs = append(outs, ret(not, c, v))
		}
		return outs
	}
	// V wraps a method of a valid Value restricted to kinds.
	type vfn func(st *State, c *callCtx, t, p *Term) []Out
	V := func(name string, kinds []reflect.Kind, f vfn) {
		m["(reflect.Value)."+name] = func(in *Interp, st *State, c *callCtx) []Out {
			v := c.args[0]
			if isInvalidRV(v) {
				return []Out{rpanic(st, c, name+" of the invalid Value")}
			}
			if !isRV(v) {
				st.undecided("reflect.Value of unknown origin: %s", v)
				return in.opaqueCall(st, "extern", c.name, c.args, c.fn.Signature.Results(), c.pos)
			}
			t, p := v.args[0], v.args[1]
			var outs []Out
			if kinds != nil {
				ok, not := in.kindIn(st, t, kinds...)
				if not != nil {
					outs = append(outs, rpanic(not, c, name+" of a value of another kind"))
				}
				if ok == nil {
					return outs
				}
				st = ok
			}
			return append(outs, f(st, c, t, p)...)
		}
	}
	K := func(ks ...reflect.Kind) []reflect.Kind { return ks }
	ints := K(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	uints := K(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	floats := K(reflect.Float32, reflect.Float64)
	nilable := K(reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer)
	m["(reflect.Value).IsValid"] = func(in *Interp, st *State, c *callCtx) []Out {
		v := c.args[0]
		if isInvalidRV(v) || isRV(v) {
			return one(st, c, mkBool(isRV(v)))
		}
		return one(st, c, mkApp("isvalid", types.Typ[types.Bool], v))
	}
	m["(reflect.Value).Kind"] = func(in *Interp, st *State, c *callCtx) []Out {
		v := c.args[0]
		if isRV(v) {
			return one(st, c, in.kindOf(st, v.args[0]))
		}
		return one(st, c, mkIntT(in.stdType("reflect", "Kind"), 0))
	}
	V("Type", nil, func(st *State, c *callCtx, t, p *Term) []Out { return one(st, c, t) })
	V("CanAddr", nil, func(st *State, c *callCtx, t, p *Term) []Out { return one(st, c, mkBool(p.s != "val")) })
	V("CanSet", nil, func(st *State, c *callCtx, t, p *Term) []Out { return one(st, c, mkBool(p.s != "val")) })
	V("CanInterface", nil, func(st *State, c *callCtx, t, p *Term) []Out { return one(st, c, tTrue) })
	V("IsNil", nilable, func(st *State, c *callCtx, t, p *Term) []Out {
		return one(st, c, in.isNilC(in.content(st, p)))
	})
	V("IsZero", nil, func(st *State, c *callCtx, t, p *Term) []Out {
		x := in.content(st, p)
		if isZeroC(x) {
			return one(st, c, tTrue)
		}
		return one(st, c, mkApp("iszero", types.Typ[types.Bool], x))
	})
	V("Elem", K(reflect.Pointer, reflect.Interface), func(st *State, c *callCtx, t, p *Term) []Out {
		x := in.content(st, p)
		isNil, not := decide(st, in.isNilC(x))
		var outs []Out
		if isNil != nil {
			outs = append(outs, ret(isNil, c, mkApp("invalidValue", nil)))
		}
		if not != nil {
			ptr, ifc := in.kindIn(not, t, reflect.Pointer)
			if ptr != nil {
				pl := mkApp("deref", nil, x)
				if x.op == OpApp && x.s == "addr" {
					pl = x.args[0]
				}
				outs = append(outs, ret(ptr, c, mkRV(in.elemType(t), pl)))
			}
			if ifc != nil {
				outs = append(outs, ret(ifc, c, mkRV(mkApp("dyn", in.refl.rtype, x), mkPlaceVal(mkApp("held", nil, x)))))
			}
		}
		return outs
	})
	V("Addr", nil, func(st *State, c *callCtx, t, p *Term) []Out {
		if p.s == "val" {
			return []Out{rpanic(st, c, "Addr of a value that is not addressable")}
		}
		return one(st, c, mkRV(in.ptrTo(t), mkPlaceVal(mkApp("addr", nil, p))))
	})
	V("Interface", nil, func(st *State, c *callCtx, t, p *Term) []Out {
		return one(st, c, mkApp("ifaceof", in.refl.anyT, t, in.content(st, p)))
	})
	scalar := func(name string, kinds []reflect.Kind, typ types.Type) {
		V(name, kinds, func(st *State, c *callCtx, t, p *Term) []Out {
			x := in.content(st, p)
			if isZeroC(x) {
				return one(st, c, zeroOf(typ))
			}
			if x.op == OpApp && x.s == "scalar" {
				return one(st, c, x.args[0])
			}
			v := mkApp("v."+name, typ, x)
			if k := in.kindOf(st, t); k.op == OpInt || len(st.domOf(k)) == 1 {
				lo, _ := st.rng(k, false)
				bits := map[reflect.Kind]uint{reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Uint8: 8, reflect.Uint16: 16, reflect.Uint32: 32}[reflect.Kind(lo)]
				if bits > 0 && name == "Int" {
					st.dom.set(v, Dom{{-(1 << (bits - 1)), 1<<(bits-1) - 1}})
				} else if bits > 0 && name == "Uint" {
					st.dom.set(v, Dom{{0, 1<<bits - 1}})
				}
			}
			return one(st, c, v)
		})
	}
	scalar("Bool", K(reflect.Bool), types.Typ[types.Bool])
	scalar("Int", ints, types.Typ[types.Int64])
	scalar("Uint", uints, types.Typ[types.Uint64])
	scalar("Float", floats, types.Typ[types.Float64])
	scalar("Complex", K(reflect.Complex64, reflect.Complex128), types.Typ[types.Complex128])
	m["(reflect.Value).String"] = func(in *Interp, st *State, c *callCtx) []Out {
		v := c.args[0]
		if !isRV(v) {
			return one(st, c, mkApp("v.String", tString, v))
		}
		ok, not := in.kindIn(st, v.args[0], reflect.String)
		var outs []Out
		if ok != nil {
			x := in.content(ok, v.args[1])
			switch {
			case isZeroC(x):
				outs = append(outs, ret(ok, c, mkStr("")))
			case x.op == OpApp && x.s == "scalar":
				outs = append(outs, ret(ok, c, x.args[0]))
			default:
				outs = append(outs, ret(ok, c, mkApp("v.String", tString, x)))
			}
		}
		if not != nil {
			outs = append(outs, ret(not, c, mkApp("descr", tString, v)))
		}
		return outs
	}
	V("Bytes", K(reflect.Slice, reflect.Array), func(st *State, c *callCtx, t, p *Term) []Out {
		arr, _ := in.kindIn(st, t, reflect.Array)
		if arr != nil && p.s == "val" {
			return []Out{rpanic(arr, c, "Bytes of an array that is not addressable")}
		}
		if arr != nil {
			return one(st, c, mkApp("arrbytes", types.NewSlice(types.Typ[types.Uint8]), p))
		}
		x := in.content(st, p)
		if isZeroC(x) {
			return one(st, c, tNil)
		}
		if x.op == OpApp && x.s == "scalar" {
			return one(st, c, x.args[0])
		}
		return one(st, c, mkApp("v.Bytes", types.NewSlice(types.Typ[types.Uint8]), x))
	})
	V("Len", K(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String, reflect.Pointer), func(st *State, c *callCtx, t, p *Term) []Out {
		return one(st, c, in.rlenOf(st, p))
	})
	V("Cap", K(reflect.Array, reflect.Chan, reflect.Slice, reflect.Pointer), func(st *State, c *callCtx, t, p *Term) []Out {
		return one(st, c, in.rcapOf(st, p))
	})
	V("NumField", K(reflect.Struct), func(st *State, c *callCtx, t, p *Term) []Out { return one(st, c, in.numField(st, t)) })
	V("Field", K(reflect.Struct), func(st *State, c *callCtx, t, p *Term) []Out {
		i := st.norm(c.args[1])
		return one(st, c, mkRV(in.fieldType(t, i), in.sub(st, "fld", p, i)))
	})
	V("FieldByIndex", K(reflect.Struct), func(st *State, c *callCtx, t, p *Term) []Out {
		ix := in.contentOf(st, c.args[1])
		if len(ix) != 1 || ix[0].s != "el" {
			st.undecided("FieldByIndex of a path")
			return one(st, c, mkRV(mkSym("T", in.refl.rtype), mkApp("deref", nil, mkSym("p", nil))))
		}
		i := ix[0].args[0]
		return one(st, c, mkRV(in.fieldType(t, i), in.sub(st, "fld", p, i)))
	})
	V("Index", K(reflect.Array, reflect.Slice, reflect.String), func(st *State, c *callCtx, t, p *Term) []Out {
		i := st.norm(c.args[1])
		n := in.rlenOf(st, p)
		s, outs := in.rbound(st, mkLt(i, n, true), true, "Index", c, i, n)
		if s == nil {
			return outs
		}
		s, o2 := in.rbound(s, mkLt(i, mkI(0), true), false, "Index", c, i, n)
		outs = append(outs, o2...)
		if s == nil {
			return outs
		}
		pl := mkApp("ix", nil, p, i) // elements of a slice are addressable
		if arr, _ := in.kindIn(s, t, reflect.Array, reflect.String); arr != nil && p.s == "val" {
			pl = mkPlaceVal(in.content(s, pl))
		}
		return append(outs, ret(s, c, mkRV(in.elemType(t), pl)))
	})
	V("MapIndex", K(reflect.Map), func(st *State, c *callCtx, t, p *Term) []Out {
		x := in.content(st, p)
		k := c.args[1]
		if isZeroC(x) || !isRV(k) {
			return one(st, c, mkApp("invalidValue", nil))
		}
		kc := in.content(st, k.args[1])
		st.event("rmapindex", "", c.pos, []*Term{p, kc})
		a := st.clone()
		b := st
		var outs []Out
		has := mkApp("rmaphas", types.Typ[types.Bool], x, kc)
		val := mkApp("rmapval", nil, x, kc)
		if kc.op == OpApp && kc.s == "rmapkey@" && kc.args[0] == x {
			// a key of this map finds its value, unless it differs from itself
			val = mkApp("rmapval@", nil, x, kc.args[1])
		}
		if a.assume(has, true) {
			outs = append(outs, ret(a, c, mkRV(in.elemType(t), mkPlaceVal(val))))
		}
		if b.assume(has, false) {
			outs = append(outs, ret(b, c, mkApp("invalidValue", nil)))
		}
		return outs
	})
	V("MapKeys", K(reflect.Map), func(st *State, c *callCtx, t, p *Term) []Out {
		x := in.content(st, p)
		return one(st, c, mkApp("mapkeys", types.NewSlice(in.stdType("reflect", "Value")), x, in.rlenOf(st, p), in.keyType(t)))
	})
	V("MapRange", K(reflect.Map), func(st *State, c *callCtx, t, p *Term) []Out {
		id := in.newObj(st, nil, mkStruct(t, in.content(st, p), mkI(0)))
		return one(st, c, mkPtr(id))
	})
	mapIter := func(st *State, p *Term) (*Term, bool) {
		if p.op != OpPtr || p.n < 0 {
			return nil, false
		}
		h, ok := st.heap.get(int(p.n))
		return h, ok && h.op == OpStruct && len(h.args) == 3
	}
	m["(*reflect.MapIter).Next"] = func(in *Interp, st *State, c *callCtx) []Out {
		h, ok := mapIter(st, c.args[0])
		if !ok {
			st.undecided("unknown map iterator")
			return one(st, c, mkSym("more", types.Typ[types.Bool]))
		}
		n := mkApp("rlen", tInt, h.args[1])
		if isZeroC(h.args[1]) {
			n = mkI(0)
		} else if _, ok := st.dom.get(n); !ok {
			st.dom.set(n, Dom{{0, inf}})
		}
		st.assume(mkLt(n, h.args[2], true), false) // an iterator stops at the end
		more, end := decide(st, mkLt(h.args[2], n, true))
		var outs []Out
		if more != nil {
			more.heap.set(int(c.args[0].n), mkStruct(h.args[0], h.args[1], mkAdd(64, h.args[2], mkI(1))))
			outs = append(outs, ret(more, c, tTrue))
		}
		if end != nil {
			outs = append(outs, ret(end, c, tFalse))
		}
		return outs
	}
	iterEnt := func(kind string) modelFn {
		return func(in *Interp, st *State, c *callCtx) []Out {
			h, ok := mapIter(st, c.args[0])
			if !ok {
				st.undecided("unknown map iterator")
				return one(st, c, mkApp("invalidValue", nil))
			}
			t := in.keyType(h.args[0])
			if kind == "rmapval@" {
				t = in.elemType(h.args[0])
			}
			return one(st, c, mkRV(t, mkPlaceVal(mkApp(kind, nil, h.args[1], mkSub(64, h.args[2], mkI(1))))))
		}
	}
	m["(*reflect.MapIter).Key"] = iterEnt("rmapkey@")
	m["(*reflect.MapIter).Value"] = iterEnt("rmapval@")

	fits := func(name string, kinds []reflect.Kind, signed bool) {
		V(name, kinds, func(st *State, c *callCtx, t, p *Term) []Out {
			bits := map[reflect.Kind]int{reflect.Int8: 8, reflect.Int16: 16, reflect.Int32: 32, reflect.Uint8: 8, reflect.Uint16: 16, reflect.Uint32: 32, reflect.Int: 64, reflect.Int64: 64, reflect.Uint: 64, reflect.Uint64: 64, reflect.Uintptr: 64, reflect.Float64: 64}
			k := in.kindOf(st, t)
			if d := st.domOf(k); k.op == OpInt || len(d) == 1 && d[0].lo == d[0].hi {
				lo, _ := st.rng(k, false)
				n, ok := bits[reflect.Kind(lo)]
				if ok && n == 64 {
					return one(st, c, tFalse)
				}
				if ok {
					x := c.args[1]
					return one(st, c, mkNot(mkEq(mkConv(mkConv(x, 64, signed, n), n, signed, 64), x)))
				}
			}
			return one(st, c, mkApp("overflows", types.Typ[types.Bool], t, c.args[1]))
		})
	}
	fits("OverflowInt", ints, true)
	fits("OverflowUint", uints, false)
	fits("OverflowFloat", floats, false)

	// ---- changes
	set := func(name string, kinds []reflect.Kind, f vfn) {
		V(name, kinds, func(st *State, c *callCtx, t, p *Term) []Out {
			if p.s == "val" {
				return []Out{rpanic(st, c, name+" of a value that cannot be set")}
			}
			st.event("rset", name, c.pos, append([]*Term{p, t}, c.args[1:]...))
			return f(st, c, t, p)
		})
	}
	setScalar := func(name string, kinds []reflect.Kind) {
		set(name, kinds, func(st *State, c *callCtx, t, p *Term) []Out {
			in.setPlace(st, p, mkApp("scalar", nil, c.args[1]))
			return one(st, c)
		})
	}
	setScalar("SetBool", K(reflect.Bool))
	setScalar("SetInt", ints)
	setScalar("SetUint", uints)
	setScalar("SetFloat", floats)
	setScalar("SetString", K(reflect.String))
	setScalar("SetBytes", K(reflect.Slice))
	set("SetZero", nil, func(st *State, c *callCtx, t, p *Term) []Out {
		in.setPlace(st, p, zeroC(t))
		return one(st, c)
	})
	set("Set", nil, func(st *State, c *callCtx, t, p *Term) []Out {
		x := c.args[1]
		if !isRV(x) {
			return []Out{rpanic(st, c, "Set to the invalid Value")}
		}
		ln, ok1 := st.omem.get(lenKey(x.args[1]))
		cp, ok2 := st.omem.get(capKey(x.args[1]))
		in.setPlace(st, p, in.content(st, x.args[1]))
		if ok1 {
			st.omem.set(lenKey(p), ln)
		}
		if ok2 {
			st.omem.set(capKey(p), cp)
		}
		return one(st, c)
	})
	set("SetLen", K(reflect.Slice), func(st *State, c *callCtx, t, p *Term) []Out {
		n := st.norm(c.args[1])
		cp := in.rcapOf(st, p)
		s, outs := in.rbound(st, mkLt(cp, n, true), false, "SetLen", c, n, cp)
		if s != nil {
			var o2 []Out
			s, o2 = in.rbound(s, mkLt(n, mkI(0), true), false, "SetLen", c, n, cp)
			outs = append(outs, o2...)
		}
		if s != nil {
			s.omem.set(capKey(p), cp)
			s.omem.set(lenKey(p), n)
			outs = append(outs, ret(s, c))
		}
		return outs
	})
	set("SetCap", K(reflect.Slice), func(st *State, c *callCtx, t, p *Term) []Out {
		n := st.norm(c.args[1])
		ln, cp := in.rlenOf(st, p), in.rcapOf(st, p)
		s, outs := in.rbound(st, mkLt(cp, n, true), false, "SetCap", c, n, cp)
		if s != nil {
			var o2 []Out
			s, o2 = in.rbound(s, mkLt(n, ln, true), false, "SetCap", c, n, cp)
			outs = append(outs, o2...)
		}
		if s != nil {
			s.omem.set(lenKey(p), ln)
			s.omem.set(capKey(p), n)
			outs = append(outs, ret(s, c))
		}
		return outs
	})
	set("Clear", K(reflect.Slice, reflect.Map), func(st *State, c *callCtx, t, p *Term) []Out {
		if m, _ := in.kindIn(st, t, reflect.Map); m == nil {
			ln, cp := in.rlenOf(st, p), in.rcapOf(st, p)
			in.setPlace(st, p, in.content(st, p))
			st.omem.set(lenKey(p), ln)
			st.omem.set(capKey(p), cp)
			st.undecided("Clear of a slice")
		}
		return one(st, c)
	})
	set("Grow", K(reflect.Slice), func(st *State, c *callCtx, t, p *Term) []Out {
		n := c.args[1]
		ln, cp := in.rlenOf(st, p), in.rcapOf(st, p)
		if st.eval(mkLt(n, mkI(0), true)) != no {
			st.event("oob", "Grow", c.pos, []*Term{n})
		}
		need := mkAdd(64, ln, n)
		st.event("rgrow", "", c.pos, []*Term{p, ln, cp, n})
		fits, grows := decide(st, mkLt(cp, need, true))
		fits, grows = grows, fits
		var outs []Out
		if fits != nil {
			outs = append(outs, ret(fits, c))
		}
		if grows != nil {
			nc := mkSym("cap", tInt)
			grows.dom.set(nc, Dom{{0, inf}})
			grows.bound(need, nc, 0, true)
			grows.omem.set(lenKey(p), ln)
			grows.omem.set(capKey(p), nc)
			grows.omem.set(cleanKey(p), tTrue)
			outs = append(outs, ret(grows, c))
		}
		return outs
	})
	V("SetMapIndex", K(reflect.Map), func(st *State, c *callCtx, t, p *Term) []Out {
		x := in.content(st, p)
		if !isRV(c.args[1]) {
			return []Out{rpanic(st, c, "SetMapIndex with an invalid key")}
		}
		kc := in.content(st, c.args[1].args[1])
		vc := tNil
		if isRV(c.args[2]) {
			vc = in.content(st, c.args[2].args[1])
		}
		isNil, not := decide(st, in.isNilC(x))
		var outs []Out
		if isNil != nil {
			outs = append(outs, rpanic(isNil, c, "assignment to an entry of a nil map"))
		}
		if not != nil {
			not.event("rset", "SetMapIndex", c.pos, []*Term{p, t, kc, vc})
			outs = append(outs, ret(not, c))
		}
		return outs
	})
	setIter := func(name, key string) {
		set(name, nil, func(st *State, c *callCtx, t, p *Term) []Out {
			c2 := *c
			c2.args = []*Term{c.args[1]}
			o := in.models["(*reflect.MapIter)."+key](in, st, &c2)
			if len(o) == 1 && isRV(o[0].val) {
				in.setPlace(o[0].st, p, in.content(o[0].st, o[0].val.args[1]))
			}
			return one(o[0].st, c)
		})
	}
	setIter("SetIterKey", "Key")
	setIter("SetIterValue", "Value")
	m["reflect.Append"] = func(in *Interp, st *State, c *callCtx) []Out {
		v := c.args[0]
		if !isRV(v) {
			return []Out{rpanic(st, c, "Append to the invalid Value")}
		}
		xs := in.contentOf(st, c.args[1])
		if len(xs) != 1 || xs[0].s != "el" || !isRV(xs[0].args[0]) {
			st.undecided("reflect.Append")
			return one(st, c, v)
		}
		x := in.content(st, xs[0].args[0].args[1])
		ln := in.rlenOf(st, v.args[1])
		st.event("rappend", "", c.pos, []*Term{v.args[1], ln, x})
		n1 := mkAdd(64, ln, mkI(1))
		nc := mkSym("cap", tInt)
		st.dom.set(nc, Dom{{0, inf}})
		st.bound(n1, nc, 0, true)
		return one(st, c, mkRV(v.args[0], mkPlaceVal(mkApp("mkslice", nil, v.args[0], n1, nc, mkSym("s", nil)))))
	}
	m["(reflect.StructTag).Lookup"] = func(in *Interp, st *State, c *callCtx) []Out {
		tg := c.args[0]
		if tg.op == OpApp && tg.s == "tag" && c.args[1].op == OpStr && c.args[1].s == "thrift" {
			return one(st, c, tg.args[0], tg.args[1])
		}
		return one(st, c, mkApp("tag.0", tString, c.args...), mkApp("tag.1", types.Typ[types.Bool], c.args...))
	}
	m["(reflect.StructTag).Get"] = func(in *Interp, st *State, c *callCtx) []Out {
		tg := c.args[0]
		if tg.op == OpApp && tg.s == "tag" && c.args[1].op == OpStr && c.args[1].s == "thrift" {
			return one(st, c, tg.args[0])
		}
		return one(st, c, mkApp("tag.0", tString, c.args...))
	}
	m["(reflect.StructField).IsExported"] = func(in *Interp, st *State, c *callCtx) []Out {
		f := in.sfield(c.args[0], "PkgPath")
		return one(st, c, mkEq(f, mkStr("")))
	}
	m["reflect.VisibleFields"] = func(in *Interp, st *State, c *callCtx) []Out {
		fs, ok := in.refl.structs[c.args[0]]
		if !ok {
			st.undecided("fields of an unknown struct type")
			return one(st, c, tNil)
		}
		var as []*Term
		for i := range fs {
			as = append(as, in.structField(st, c.args[0], mkI(int64(i))))
		}
		at := types.NewArray(in.stdType("reflect", "StructField"), int64(len(as)))
		id := in.newObj(st, at, mkArray(as...))
		n := mkI(int64(len(as)))
		return one(st, c, mkSlice(mkPtr(id), mkI(0), n, n))
	}
	// ---- sync
	sync := func(st *State, kind, name string, c *callCtx, args ...*Term) {
		e := st.event(kind, name, c.pos, args)
		if in.snapEvents {
			e.snap = st.clone()
		}
	}
	once := func(in *Interp, st *State, p, f *Term, sig *types.Signature, c *callCtx) []Out {
		k := mkApp("once", nil, p)
		v, ok := st.omem.get(k)
		if ok && v == tTrue {
			if in.snapEvents {
				st.event("oncepass", "", c.pos, []*Term{p})
			}
			return one(st, c)
		}
		if ok {
			st.event("deadlock", "Do", c.pos, []*Term{p})
			return []Out{{st: st, kind: outPanic, val: mkStr("deadlock: Once.Do within itself"), pos: c.pos}}
		}
		sync(st, "oncebegin", "", c, p)
		st.omem.set(k, tFalse)
		outs := in.callTerm(st, f, nil, nil, c.pos, nil)
		for i := range outs {
			outs[i].st.omem.set(k, tTrue)
			sync(outs[i].st, "onceend", "", c, p)
			if outs[i].kind == outRet {
				outs[i].ret, outs[i].val = outs[i].val, tUnit
			}
		}
		return outs
	}
	m["(*sync.Once).Do"] = func(in *Interp, st *State, c *callCtx) []Out {
		return once(in, st, c.args[0], c.args[1], nil, c)
	}
	for _, n := range []string{"sync.OnceFunc", "sync.OnceValue", "sync.OnceValues"} {
		m[n] = func(in *Interp, st *State, c *callCtx) []Out {
			id := in.newObj(st, nil, tUnit)
			return one(st, c, mkApp("oncefn", c.typ, mkPtr(id), c.args[0]))
		}
	}
	nonNilApps["oncefn"] = true
	in.onceCall = func(st *State, f *Term, c *callCtx) []Out {
		p := f.args[0]
		k := mkApp("onceval", nil, p)
		outs := once(in, st, p, f.args[1], nil, c)
		for i := range outs {
			o := &outs[i]
			if o.kind != outRet {
				continue
			}
			if o.ret == nil { // done before
				o.ret, _ = o.st.omem.get(k)
				if o.ret == nil {
					o.ret = tUnit
				}
			} else {
				o.st.omem.set(k, o.ret)
			}
			o.val = o.ret
		}
		return outs
	}
	load := func(in *Interp, st *State, p, k *Term) (*Term, bool) {
		if v, ok := st.omem.get(smapKey(p, k)); ok {
			return v, true
		}
		if in.initing || in.refl.fresh == nil || in.refl.fresh(k) {
			return nil, false
		}
		v := mkApp("cached", in.refl.anyT, k)
		st.omem.set(smapKey(p, k), v)
		return v, true
	}
	nonNilApps["cached"] = true
	m["(*sync.Map).Load"] = func(in *Interp, st *State, c *callCtx) []Out {
		st.event("lookup", "Load", c.pos, []*Term{c.args[1]})
		if v, ok := load(in, st, c.args[0], c.args[1]); ok {
			return one(st, c, v, tTrue)
		}
		return one(st, c, tNil, tFalse)
	}
	m["(*sync.Map).Store"] = func(in *Interp, st *State, c *callCtx) []Out {
		st.omem.set(smapKey(c.args[0], c.args[1]), c.args[2])
		sync(st, "publish", "Store", c, c.args...)
		return one(st, c)
	}
	m["(*sync.Map).LoadOrStore"] = func(in *Interp, st *State, c *callCtx) []Out {
		if v, ok := load(in, st, c.args[0], c.args[1]); ok {
			return one(st, c, v, tTrue)
		}
		st.omem.set(smapKey(c.args[0], c.args[1]), c.args[2])
		sync(st, "publish", "LoadOrStore", c, c.args...)
		return one(st, c, c.args[2], tFalse)
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		n := n
		m[n] = func(in *Interp, st *State, c *callCtx) []Out {
			sync(st, "lock", n, c, c.args...)
			return one(st, c)
		}
	}
	// ---- sort: the elements are put in order by the comparison, forking
	// where it is open
	sortSlice := func(in *Interp, st *State, c *callCtx) []Out {
		x := c.args[0]
		if x.op == OpIface {
			x = x.args[0]
		}
		if x.op == OpNil {
			return one(st, c)
		}
		ln := lenTerm(x)
		if x.op != OpSlice || x.args[1].op != OpInt || ln.op != OpInt || ln.u > 12 {
			if !(ln.op == OpInt && ln.u < 2) {
				st.undecided("sort of an unknown slice")
			}
			return one(st, c)
		}
		et := in.arrType(x.args[0]).Underlying().(*types.Array).Elem()
		at := func(j int) *Term { return in.subPtr(x.args[0], mkI(int64(x.args[1].u)+int64(j)), types.NewPointer(et)) }
		work := []Out{{st: st}}
		var fails []Out
		// insertion sort, as sort.SliceStable does for short slices
		for i := 1; i < int(ln.u); i++ {
			var next []Out
			type item struct {
				st *State
				j  int
			}
			var q []item
			for _, o := range work {
				q = append(q, item{o.st, i})
			}
			for len(q) > 0 {
				it := q[len(q)-1]
				q = q[:len(q)-1]
				if it.j == 0 {
					next = append(next, Out{st: it.st})
					continue
				}
				for _, o := range in.callTerm(it.st, c.args[1], []*Term{mkI(int64(it.j)), mkI(int64(it.j - 1))}, nil, c.pos, nil) {
					if o.kind != outRet {
						fails = append(fails, o)
						continue
					}
					less, not := decide(o.st, o.val)
					if less != nil {
						if not == less {
							less = less.clone()
						}
						a, b := in.load(less, at(it.j), et), in.load(less, at(it.j-1), et)
						in.store(less, at(it.j), b, c.pos)
						in.store(less, at(it.j-1), a, c.pos)
						q = append(q, item{less, it.j - 1})
					}
					if not != nil {
						next = append(next, Out{st: not})
					}
				}
			}
			work = next
		}
		for i := range work {
			work[i].val = tUnit
			work[i].pos = c.pos
		}
		return append(work, fails...)
	}
	m["sort.SliceStable"] = sortSlice
	m["sort.Slice"] = sortSlice
	registerStrings(in)
}

// sub is a component of a place.
func (in *Interp) sub(st *State, kind string, p, i *Term) *Term {
	q := mkApp(kind, nil, p, i)
	if p.s == "val" {
		c := p.args[0]
		if isZeroC(c) {
			return mkPlaceVal(zeroC(in.fieldType(c.args[0], i)))
		}
		return mkPlaceVal(mkApp("c"+kind, nil, c, i))
	}
	return q
}

func (in *Interp) numField(st *State, t *Term) *Term {
	if fs, ok := in.refl.structs[t]; ok {
		return mkI(int64(len(fs)))
	}
	v := mkApp("t.NumField", tInt, t)
	if _, ok := st.dom.get(v); !ok {
		st.dom.set(v, Dom{{0, 1 << 30}})
	}
	return v
}

// structField makes the reflect.StructField of field i.
func (in *Interp) structField(st *State, t, i *Term) *Term {
	sft := in.stdType("reflect", "StructField")
	u := sft.Underlying().(*types.Struct)
	fs := in.refl.structs[t]
	if i.op != OpInt || int(i.u) >= len(fs) {
		st.undecided("field of an unknown struct type")
		return in.freshValue(st, "sf", sft)
	}
	f := fs[i.u]
	as := make([]*Term, u.NumFields())
	for k := range as {
		switch u.Field(k).Name() {
		case "Name":
			as[k] = mkStr(f.name)
		case "PkgPath":
			as[k] = mkStr("")
			if f.hidden {
				as[k] = mkStr("example.org/p")
			}
		case "Type":
			as[k] = f.typ
		case "Tag":
			tg := f.tag
			if !f.tagged {
				tg = mkStr("")
			}
			as[k] = mkApp("tag", u.Field(k).Type(), tg, mkBool(f.tagged))
		case "Offset":
			as[k] = mkApp("offset", u.Field(k).Type(), t, i)
		case "Index":
			at := types.NewArray(tInt, 1)
			id := in.newObj(st, at, mkArray(i))
			as[k] = mkSlice(mkPtr(id), mkI(0), mkI(1), mkI(1))
		case "Anonymous":
			as[k] = mkBool(f.emb)
		default:
			as[k] = in.freshValue(st, "sf."+u.Field(k).Name(), u.Field(k).Type())
		}
	}
	return mkStruct(as...)
}

func (in *Interp) sfield(sf *Term, name string) *Term {
	u := in.stdType("reflect", "StructField").Underlying().(*types.Struct)
	for k := 0; k < u.NumFields(); k++ {
		if u.Field(k).Name() == name && sf.op == OpStruct {
			return sf.args[k]
		}
	}
	return mkApp("sf."+name, tString, sf)
}

// typeInvoke models the methods of reflect.Type.
func (in *Interp) typeInvoke(st *State, t *Term, m *types.Func, c *callCtx) ([]Out, bool) {
	rt := m.Type().(*types.Signature).Recv()
	if rt == nil || !isNamed(rt.Type(), "reflect", "Type") {
		return nil, false
	}
	r := func(vs ...*Term) ([]Out, bool) { return one(st, c, vs...), true }
	kinds := func(f func(st *State) []Out, ks ...reflect.Kind) ([]Out, bool) {
		ok, not := in.kindIn(st, t, ks...)
		var outs []Out
		if not != nil {
			outs = append(outs, rpanic(not, c, m.Name()+" of a type of another kind"))
		}
		if ok != nil {
			outs = append(outs, f(ok)...)
		}
		return outs, true
	}
	bl := types.Typ[types.Bool]
	switch m.Name() {
	case "Kind":
		return r(in.kindOf(st, t))
	case "Elem":
		return kinds(func(st *State) []Out { return one(st, c, in.elemType(t)) }, reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice)
	case "Key":
		return kinds(func(st *State) []Out { return one(st, c, in.keyType(t)) }, reflect.Map)
	case "NumField":
		return kinds(func(st *State) []Out { return one(st, c, in.numField(st, t)) }, reflect.Struct)
	case "Field":
		return kinds(func(st *State) []Out { return one(st, c, in.structField(st, t, st.norm(c.args[0]))) }, reflect.Struct)
	case "Len":
		return kinds(func(st *State) []Out {
			if t.op == OpType {
				return one(st, c, mkI(t.typ.Underlying().(*types.Array).Len()))
			}
			v := mkApp("t.Len", tInt, t)
			st.dom.set(v, Dom{{0, 1 << 40}})
			return one(st, c, v)
		}, reflect.Array)
	case "Name", "String", "PkgPath":
		return r(mkApp("t."+m.Name(), tString, t))
	case "Implements", "AssignableTo", "ConvertibleTo":
		u := c.args[0]
		if t.op == OpType && u.op == OpType {
			switch m.Name() {
			case "Implements":
				if it, ok := u.typ.Underlying().(*types.Interface); ok {
					return r(mkBool(types.Implements(t.typ, it)))
				}
			case "AssignableTo":
				return r(mkBool(types.AssignableTo(t.typ, u.typ)))
			case "ConvertibleTo":
				return r(mkBool(types.ConvertibleTo(t.typ, u.typ)))
			}
		}
		if m.Name() == "Implements" {
			if b, known := in.implements(t, u); known {
				return r(mkBool(b))
			}
		}
		if m.Name() == "AssignableTo" && t == u {
			return r(tTrue)
		}
		return r(mkApp("t."+m.Name(), bl, t, u))
	case "Comparable":
		return r(mkApp("t.Comparable", bl, t))
	case "Bits", "NumMethod", "Size", "Align":
		return r(mkApp("t."+m.Name(), tInt, t))
	}
	return nil, false
}

// implements looks the method set of a type up in the scenario.
func (in *Interp) implements(t, u *Term) (b, known bool) {
	ms, ok := in.refl.methods[t]
	if !ok || u.op != OpType {
		return false, false
	}
	it, ok := u.typ.Underlying().(*types.Interface)
	if !ok {
		return false, false
	}
	for i := 0; i < it.NumMethods(); i++ {
		has := false
		for _, m := range ms {
			has = has || m == it.Method(i).Name()
		}
		if !has {
			return false, true
		}
	}
	return true, true
}

// ---- strings

func strConst(t *Term) (string, bool) {
	if t.op == OpStr {
		return t.s, true
	}
	return "", false
}

// A digits term is a text that stands for a field ID: it is nonempty and holds
// neither commas nor letters; "num" is the number it denotes.
func isDigits(t *Term) bool { return t.op == OpSym && strings.HasPrefix(t.s, "digits") }

func decimal(s string) bool {
	s = strings.TrimLeft(s, "+-")
	return s != "" && strings.Trim(s, "0123456789") == ""
}

func registerStrings(in *Interp) {
	m := in.models
	str := func(s string) *Term { return mkStr(s) }
	fold := func(name string, f func(c *callCtx, a []string) []*Term) {
		m[name] = func(in *Interp, st *State, c *callCtx) []Out {
			var a []string
			for _, x := range c.args {
				s, ok := strConst(x)
				if !ok && x.op == OpInt {
					continue
				}
				if !ok {
					return in.pureCall(st, c)
				}
				a = append(a, s)
			}
			r := f(c, a)
			if r == nil {
				return in.pureCall(st, c)
			}
			return one(st, c, r...)
		}
	}
	fold("strings.ToLower", func(c *callCtx, a []string) []*Term { return []*Term{str(strings.ToLower(a[0]))} })
	fold("strings.ToUpper", func(c *callCtx, a []string) []*Term { return []*Term{str(strings.ToUpper(a[0]))} })
	fold("strings.TrimSpace", func(c *callCtx, a []string) []*Term { return []*Term{str(strings.TrimSpace(a[0]))} })
	fold("strings.ReplaceAll", func(c *callCtx, a []string) []*Term { return []*Term{str(strings.ReplaceAll(a[0], a[1], a[2]))} })
	fold("strings.EqualFold", func(c *callCtx, a []string) []*Term { return []*Term{mkBool(strings.EqualFold(a[0], a[1]))} })
	fold("strings.HasPrefix", func(c *callCtx, a []string) []*Term { return []*Term{mkBool(strings.HasPrefix(a[0], a[1]))} })
	fold("strings.HasSuffix", func(c *callCtx, a []string) []*Term { return []*Term{mkBool(strings.HasSuffix(a[0], a[1]))} })
	fold("strings.TrimPrefix", func(c *callCtx, a []string) []*Term { return []*Term{str(strings.TrimPrefix(a[0], a[1]))} })
	fold("strings.TrimSuffix", func(c *callCtx, a []string) []*Term { return []*Term{str(strings.TrimSuffix(a[0], a[1]))} })
	fold("unicode/utf8.DecodeRuneInString", func(c *callCtx, a []string) []*Term {
		r, n := utf8.DecodeRuneInString(a[0])
		return []*Term{mkInt(32, uint64(r)), mkI(int64(n))}
	})
	runeFn := func(name string, f func(r rune) bool) {
		m[name] = func(in *Interp, st *State, c *callCtx) []Out {
			if c.args[0].op == OpInt {
				return one(st, c, mkBool(f(rune(c.args[0].sval()))))
			}
			return in.pureCall(st, c)
		}
	}
	runeFn("unicode.IsLetter", unicode.IsLetter)
	runeFn("unicode.IsNumber", unicode.IsNumber)
	runeFn("unicode.IsDigit", unicode.IsDigit)
	runeFn("unicode.IsSpace", unicode.IsSpace)
	runeFn("unicode.IsUpper", unicode.IsUpper)
	// segments of a string; nil if it is not known by segments
	index := func(in *Interp, st *State, c *callCtx, s *Term, want string) *Term {
		pos := mkI(0)
		for _, g := range in.contentOf(st, s) {
			switch {
			case g.s == "sp" && g.args[0].op == OpStr:
				if i := strings.Index(g.args[0].s, want); i >= 0 {
					return mkAdd(64, pos, mkI(int64(i)))
				}
			case g.s == "sp" && isDigits(g.args[0]) && len(want) == 1 && !strings.ContainsAny(want, "0123456789+-"):
			case g.s == "el" && g.args[0].op == OpInt:
				if len(want) == 1 && byte(g.args[0].u) == want[0] {
					return pos
				}
			default:
				return nil
			}
			pos = mkAdd(64, pos, segLen(g))
		}
		return mkI(-1)
	}
	m["strings.IndexByte"] = func(in *Interp, st *State, c *callCtx) []Out {
		if c.args[1].op == OpInt {
			if r := index(in, st, c, c.args[0], string([]byte{byte(c.args[1].u)})); r != nil {
				return one(st, c, r)
			}
		}
		return in.pureCall(st, c)
	}
	m["strings.Index"] = func(in *Interp, st *State, c *callCtx) []Out {
		if w, ok := strConst(c.args[1]); ok {
			if r := index(in, st, c, c.args[0], w); r != nil {
				return one(st, c, r)
			}
		}
		return in.pureCall(st, c)
	}
	m["strings.IndexRune"] = func(in *Interp, st *State, c *callCtx) []Out {
		if c.args[1].op == OpInt {
			if r := index(in, st, c, c.args[0], string(rune(c.args[1].u))); r != nil {
				return one(st, c, r)
			}
		}
		return in.pureCall(st, c)
	}
	// search for a character in a constant text of ASCII
	for _, name := range []string{"IndexRune", "IndexByte", "ContainsRune"} {
		before := m["strings."+name]
		m["strings."+name] = func(in *Interp, st *State, c *callCtx) []Out {
			s, ok := strConst(c.args[0])
			for i := range s {
				ok = ok && s[i] < 128
			}
			x := c.args[1]
			if !ok || len(s) > 32 || x.op == OpInt && before != nil {
				if before != nil {
					return before(in, st, c)
				}
				return in.pureCall(st, c)
			}
			res := func(i int) *Term {
				if name == "ContainsRune" {
					return mkBool(i >= 0)
				}
				return mkI(int64(i))
			}
			var outs []Out
			for i := range s {
				if strings.IndexByte(s, s[i]) != i {
					continue
				}
				eq := mkEq(x, mkInt(x.width(), uint64(s[i])))
				if st2 := st.clone(); st2.assume(eq, true) {
					outs = append(outs, ret(st2, c, res(i)))
				}
				if !st.assume(eq, false) {
					return outs
				}
			}
			return append(outs, ret(st, c, res(-1)))
		}
	}
	m["strings.Cut"] = func(in *Interp, st *State, c *callCtx) []Out {
		if w, ok := strConst(c.args[1]); ok {
			if r := index(in, st, c, c.args[0], w); r != nil {
				s := c.args[0]
				if r.op == OpInt && r.sval() < 0 {
					return one(st, c, s, mkStr(""), tFalse)
				}
				a := in.sliceOf(st, s, mkI(0), r, tString, c.pos)
				b := in.sliceOf(st, s, mkAdd(64, r, mkI(int64(len(w)))), nil, tString, c.pos)
				return one(st, c, a, b, tTrue)
			}
		}
		return in.pureCall(st, c)
	}
	trimFunc := func(left, right bool) modelFn {
		return func(in *Interp, st *State, c *callCtx) []Out {
			s, ok := strConst(c.args[0])
			if !ok {
				return in.pureCall(st, c)
			}
			test := func(r rune) (bool, bool) {
				outs := in.callTerm(st.clone(), c.args[1], []*Term{mkInt(32, uint64(r))}, nil, c.pos, nil)
				if len(outs) != 1 || outs[0].kind != outRet || outs[0].st.eval(outs[0].val) == unknown {
					return false, false
				}
				return outs[0].st.eval(outs[0].val) == yes, true
			}
			for left && len(s) > 0 {
				r, n := utf8.DecodeRuneInString(s)
				b, ok := test(r)
				if !ok {
					return in.pureCall(st, c)
				}
				if !b {
					break
				}
				s = s[n:]
			}
			for right && len(s) > 0 {
				r, n := utf8.DecodeLastRuneInString(s)
				b, ok := test(r)
				if !ok {
					return in.pureCall(st, c)
				}
				if !b {
					break
				}
				s = s[:len(s)-n]
			}
			return one(st, c, mkStr(s))
		}
	}
	m["strings.TrimLeftFunc"] = trimFunc(true, false)
	m["strings.TrimRightFunc"] = trimFunc(false, true)
	m["strings.TrimFunc"] = trimFunc(true, true)
	m["strings.IndexFunc"] = func(in *Interp, st *State, c *callCtx) []Out {
		s, ok := strConst(c.args[0])
		if !ok {
			return in.pureCall(st, c)
		}
		for i, r := range s {
			outs := in.callTerm(st.clone(), c.args[1], []*Term{mkInt(32, uint64(r))}, nil, c.pos, nil)
			if len(outs) != 1 || outs[0].kind != outRet || outs[0].st.eval(outs[0].val) == unknown {
				return in.pureCall(st, c)
			}
			if outs[0].st.eval(outs[0].val) == yes {
				return one(st, c, mkI(int64(i)))
			}
		}
		return one(st, c, mkI(-1))
	}
	// strconv: the text of a field ID denotes num(text)
	parse := func(signed bool, typ types.Type, sized bool) modelFn {
		return func(in *Interp, st *State, c *callCtx) []Out {
			s := c.args[0]
			bits := int64(64)
			base := int64(10)
			if sized {
				if c.args[1].op != OpInt || c.args[2].op != OpInt {
					return in.pureCall(st, c)
				}
				base, bits = c.args[1].sval(), c.args[2].sval()
				if bits == 0 {
					bits = 64
				}
			}
			w, _, _ := intInfo(typ)
			if t, ok := strConst(s); ok {
				if signed {
					v, err := strconv.ParseInt(t, int(base), int(bits))
					if err == nil {
						return one(st, c, mkInt(w, uint64(v)), tNil)
					}
				} else if v, err := strconv.ParseUint(t, int(base), int(bits)); err == nil {
					return one(st, c, mkInt(w, v), tNil)
				}
				return one(st, c, mkApp("parsed", typ, s), in.freshErr(st, "parse"))
			}
			if hasOther(in.contentOf(st, s)) && base == 10 {
				return one(st, c, mkApp("parsed", typ, s), in.freshErr(st, "parse"))
			}
			if !isDigits(s) || base != 10 {
				st2 := st.clone()
				return []Out{ret(st, c, mkApp("parsed", typ, s), tNil), ret(st2, c, mkApp("parsed", typ, s), in.freshErr(st2, "parse"))}
			}
			n := digitsNum(s)
			bad := st.clone()
			var outs []Out
			if signed {
				lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
				if bits == 64 {
					lo, hi = -1<<63, 1<<63-1
				}
				if st.assume(mkLt(n, mkI(lo), true), false) && st.assume(mkLt(mkI(hi), n, true), false) {
					outs = append(outs, ret(st, c, n, tNil))
				}
				b2 := bad.clone()
				if bits < 64 {
					if bad.assume(mkLt(n, mkI(lo), true), true) {
						outs = append(outs, ret(bad, c, mkI(lo), in.freshErr(bad, "parse")))
					}
					if b2.assume(mkLt(mkI(hi), n, true), true) {
						outs = append(outs, ret(b2, c, mkI(hi), in.freshErr(b2, "parse")))
					}
				}
			} else {
				b2 := bad.clone()
				if st.assume(mkLt(n, mkI(0), true), false) && (bits == 64 || st.assume(mkLt(mkI(1<<bits-1), n, true), false)) {
					outs = append(outs, ret(st, c, n, tNil))
				}
				if bad.assume(mkLt(n, mkI(0), true), true) {
					outs = append(outs, ret(bad, c, mkI(0), in.freshErr(bad, "parse")))
				}
				if bits < 64 && b2.assume(mkLt(mkI(1<<bits-1), n, true), true) {
					outs = append(outs, ret(b2, c, mkI(1<<bits-1), in.freshErr(b2, "parse")))
				}
			}
			return outs
		}
	}
	m["strconv.ParseInt"] = parse(true, types.Typ[types.Int64], true)
	m["strconv.ParseUint"] = parse(false, types.Typ[types.Uint64], true)
	m["strconv.Atoi"] = parse(true, types.Typ[types.Int], false)
	for _, s := range []string{"fmt.Errorf", "errors.New"} {
		nonNilApps[s] = true
	}
	_ = constant.Int
	_ = token.ADD
	_ = ssa.NaiveForm
}

// hasOther: a text holds a character that no decimal number has.
func hasOther(segs []*Term) bool {
	for _, g := range segs {
		switch {
		case g.s == "sp" && g.args[0].op == OpStr:
			if strings.Trim(g.args[0].s, "0123456789+-_") != "" {
				return true
			}
		case g.s == "el" && g.args[0].op == OpInt:
			if !strings.ContainsRune("0123456789+-_", rune(g.args[0].u)) {
				return true
			}
		}
	}
	return false
}

// digitsNum is the number a digits text denotes.
func digitsNum(s *Term) *Term { return mkNamed("num:"+s.s, types.Typ[types.Int64]) }

func mkDigits(name string) *Term { return mkNamed("digits:"+name, tString) }
