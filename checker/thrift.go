package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The thrift package: Marshal and Unmarshal over symbolic Go types, run
// against an arbitrary Reader or Writer.  The codec of the type at hand is
// interpreted; the codecs of its components are opaque (induction over the
// type), known by the calls made to them.

const (
	catSeq      cat = "sequence" // wrong, missing or extra calls
	catMapping  cat = "type-mapping"
	catMutate   cat = "mutation"
	catStale    cat = "stale-data"
	catMismatch cat = "mismatch"
	catShare    cat = "shared-state"
	catSelect   cat = "field-selection"
	catTag      cat = "field-rules"
	catEndless  cat = "endless-recursion"
	catErrKind  cat = "error-report"
)

type tctx struct {
	c    *Ctx
	j    *judge
	w    *wctx
	in   *Interp
	base *State
	wT   types.Type // thriftwire.Writer
	rT   types.Type
	tyT  types.Type // thriftwire.Type
	ws   *Term
	rs   *Term

	opaque bool // codec functions are not entered
	nested int  // they are, this often
}

// codec is a codec found in the cache.
type codec struct {
	wire      *Term
	marshal   *Term
	unmarshal *Term
	obj       *Term
}

func newTctx(c *Ctx, j *judge) *tctx {
	t := &tctx{c: c, j: j}
	t.in = newInterp(c.ld)
	t.in.material = true
	t.in.inline = 3
	t.in.unroll, t.in.fan, t.in.forks = 600, 20, 100
	t.w = &wctx{c: c, in: t.in}
	t.wT = c.ld.typ("encoding/thriftwire", "Writer")
	t.rT = c.ld.typ("encoding/thriftwire", "Reader")
	t.tyT = c.ld.typ("encoding/thriftwire", "Type")
	t.ws, t.rs = mkNamed("w", t.wT), mkNamed("r", t.rT)
	t.in.invokeHook = t.invoke
	t.in.callHook = t.inner
	t.in.fnHook = func(in *Interp, st *State, fn *ssa.Function, cc *callCtx) ([]Out, bool) {
		if fn.Name() == "Skip" && fn.Signature.Recv() == nil && fn.Pkg == c.ld.pkg("encoding/thriftwire") {
			return in.opaqueCall(st, "invoke", "Skip", cc.args, fn.Signature.Results(), cc.pos), true
		}
		if (t.opaque || t.nested > 0) && (fn.Parent() != nil || len(fn.FreeVars) > 0) {
			return t.inner(in, st, nil, cc)
		}
		return nil, false
	}
	t.base = t.in.baseState("encoding/thriftwire", "thrift")
	t.w.base = t.base
	t.in.refl.baseObjs = t.in.nobj + 1
	return t
}

func (t *tctx) invoke(in *Interp, st *State, recv *Term, m *types.Func, cc *callCtx) ([]Out, bool) {
	if o, ok := in.typeInvoke(st, recv, m, cc); ok {
		return o, true
	}
	if m.Name() == "IsZero" {
		if recv.op == OpApp && recv.s == "ifaceof" {
			T, c := recv.args[0], recv.args[1]
			ptr, _ := in.kindIn(st, T, reflect.Pointer)
			if ptr != nil {
				isNil, not := decide(ptr, in.isNilC(c))
				var outs []Out
				if isNil != nil {
					outs = append(outs, Out{st: isNil, kind: outPanic, val: mkStr("IsZero is called on a nil pointer"), pos: cc.pos})
				}
				if not != nil {
					outs = append(outs, ret(not, cc, mkApp("IsZero()", types.Typ[types.Bool], recv)))
				}
				return outs, true
			}
		}
		return one(st, cc, mkApp("IsZero()", types.Typ[types.Bool], recv)), true
	}
	if recv == t.ws || recv == t.rs {
		outs := in.opaqueCall(st, "invoke", m.Name(), append([]*Term{recv}, cc.args...), m.Type().(*types.Signature).Results(), cc.pos)
		if h := headerSize[strings.TrimPrefix(m.Name(), "Read")]; h != "" && recv == t.rs {
			for _, o := range outs {
				o.st.narrow(t.w.field(o.results()[0], h, "Size"), iv{0, 1<<31 - 1})
			}
		}
		return outs, true
	}
	return nil, false
}

// cachedKey is the type whose opaque codec a term belongs to.
func cachedKey(x *Term) *Term {
	if x.op == OpApp && x.s == "cached" {
		return x.args[0]
	}
	for _, a := range x.args {
		if k := cachedKey(a); k != nil {
			return k
		}
	}
	return nil
}

func findRV(x *Term) *Term {
	if isRV(x) || isInvalidRV(x) {
		return x
	}
	if x.op == OpStruct {
		for _, a := range x.args {
			if r := findRV(a); r != nil {
				return r
			}
		}
	}
	return nil
}

// arguments of an inner event
const (
	inKey = iota
	inStream
	inType
	inPlace
	inContent
	inClean
	inWire
	inOpts
	inDone
)

// inner models the call of a component's codec.
func (t *tctx) inner(in *Interp, st *State, f *Term, cc *callCtx) ([]Out, bool) {
	var key *Term
	if f != nil {
		if key = cachedKey(f); key == nil {
			return nil, false
		}
	}
	var stream, rv, wt *Term
	var opts []*Term
	for _, a := range cc.args {
		switch {
		case a == t.ws || a == t.rs:
			stream = a
		case findRV(a) != nil:
			rv = findRV(a)
		case isIntTerm(a) && a.width() == 8:
			wt = a
		default:
			opts = append(opts, a)
		}
	}
	if stream == nil || rv == nil {
		return nil, false
	}
	if key == nil {
		if t.nested == 1 { // the codec at hand
			t.nested = 2
			return nil, false
		}
		if isInvalidRV(rv) || wt == nil && stream == t.rs {
			return nil, false
		}
		key = rv.args[0]
	}
	if isInvalidRV(rv) {
		return []Out{{st: st, kind: outPanic, val: mkStr("codec called with the invalid Value"), pos: cc.pos}}, true
	}
	name := "marshal"
	if stream == t.rs {
		name = "unmarshal"
	}
	p := rv.args[1]
	clean := tFalse
	if p.s == "ix" {
		if v, ok := st.omem.get(cleanKey(p.args[0])); ok {
			clean = v
		}
	}
	if wt == nil {
		wt = tNil
	}
	args := []*Term{key, stream, rv.args[0], p, in.content(st, p), clean, wt, mkTuple(opts...), mkSym("decoded", nil)}
	res := types.NewTuple(types.NewVar(token.NoPos, nil, "", errType))
	outs := in.opaqueCall(st, "inner", name, args, res, cc.pos)
	if name == "unmarshal" && p.s != "val" {
		for _, o := range outs {
			in.setPlace(o.st, p, args[inDone])
		}
	}
	return outs, true
}

// ---- codecs

// codecOf gets the codec of T by way of the exported API.
// codecOf gets the codec of T by way of the exported API: as it is when it is
// published, and as it is after its first use.
func (t *tctx) codecOf(st *State, T *Term) []stCodec {
	var res []stCodec
	t.in.refl.fresh = func(k *Term) bool { return k == T }
	in := mkApp("ifaceof", t.in.refl.anyT, t.in.ptrTo(T), mkApp("new", nil, T, mkNamed("arg", nil)))
	mark := st.log
	add := func(st *State) bool {
		for k, v := range st.omem.m {
			if k.op == OpApp && k.s == "smap" && k.args[1] == T {
				cd, ok := t.codecIn(st, v)
				if !ok {
					t.in.fail("the cached codec is not understood: %s", v)
				}
				st.log = mark
				res = append(res, stCodec{st, cd})
				return true
			}
		}
		return false
	}
	t.in.snapEvents = true
	outs := t.in.callFn(st, t.c.ld.fn("thrift", "Marshal"), []*Term{t.ws, in}, nil, token.NoPos, nil)
	t.in.snapEvents = false
	seen := map[*Ev]bool{}
	for _, o := range outs {
		if o.st.undec != "" {
			t.in.fail("%s", o.st.undec)
		}
		for _, e := range eventsSince(o.st.log, mark) {
			if e.kind == "publish" && e.snap != nil && !seen[e] {
				seen[e] = true
				if add(e.snap) {
					break
				}
			}
		}
		if o.kind == outRet {
			add(o.st)
		}
	}
	if len(res) == 0 {
		t.in.fail("no codec is cached for the type")
	}
	return res
}

func (t *tctx) codecIn(st *State, v *Term) (codec, bool) {
	var cd codec
	if v.op != OpIface {
		return cd, false
	}
	cd.obj = v.args[0]
	s := v.args[0]
	typ := v.typ
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
		s = t.in.load(st, s, typ)
	}
	u, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return cd, false
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i).Type()
		x := t.in.project(st, s, mkI(int64(i)), true, f)
		if types.Identical(f, t.tyT) {
			cd.wire = x
		}
		if sig, ok := f.Underlying().(*types.Signature); ok {
			for k := 0; k < sig.Params().Len(); k++ {
				switch {
				case types.Identical(sig.Params().At(k).Type(), t.wT):
					cd.marshal = x
				case types.Identical(sig.Params().At(k).Type(), t.rT):
					cd.unmarshal = x
				}
			}
		}
	}
	return cd, cd.wire != nil && cd.marshal != nil && cd.unmarshal != nil
}

func (t *tctx) sig(f *Term) *types.Signature {
	if f.op == OpClosure || f.op == OpFunc {
		return f.fn.Signature
	}
	t.in.fail("codec function %s", f)
	return nil
}

const depthCap = 1 << 20

// tcall describes a call of a codec.
type tcall struct {
	T     *Term
	place *Term
	wt    *Term
	ints  []*Term // the integers of the options, for the depth
	c0    *Term   // content of the value before the call
	outs  []Out
	mark  *Ev
	name  string
	enc   bool
}

// call runs a codec function on the value at place.
func (t *tctx) call(st *State, f *Term, T, place *Term, name string) *tcall {
	tc := &tcall{T: T, place: place, name: name}
	sig := t.sig(f)
	var args []*Term
	for k := 0; k < sig.Params().Len(); k++ {
		pt := sig.Params().At(k).Type()
		switch {
		case types.Identical(pt, t.wT):
			args = append(args, t.ws)
			tc.enc = true
		case types.Identical(pt, t.rT):
			args = append(args, t.rs)
		case types.Identical(pt, t.tyT):
			tc.wt = mkSym("wt", t.tyT)
			args = append(args, tc.wt)
		default:
			args = append(args, t.arg(st, pt, tc))
		}
	}
	tc.c0 = t.in.content(st, place)
	st.omem.set(cleanKey(place), tFalse)
	st.omem.set(lenKey(place), t.in.rlenOf(st, place))
	st.omem.set(capKey(place), t.in.rcapOf(st, place))
	st.omem.set(cellKey(place), tc.c0)
	tc.mark = st.log
	tc.outs = t.in.callTerm(st, f, args, sig, token.NoPos, nil)
	t.c.nPaths += len(tc.outs)
	return tc
}

func (t *tctx) arg(st *State, pt types.Type, tc *tcall) *Term {
	if isNamed(pt, "reflect", "Value") {
		return mkRV(tc.T, tc.place)
	}
	if u, ok := pt.Underlying().(*types.Struct); ok {
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = t.arg(st, u.Field(i).Type(), tc)
		}
		return mkStruct(as...)
	}
	v := mkSym("opt", pt)
	if _, _, ok := intInfo(pt); ok {
		st.narrow(v, iv{-depthCap, depthCap})
		tc.ints = append(tc.ints, v)
	}
	return v
}

// ---- scenarios

// typeSym makes a type of one kind.
func (t *tctx) typeSym(st *State, name string, ks ...reflect.Kind) *Term {
	T := mkNamed("type:"+name, t.in.refl.rtype)
	k := t.in.kindOf(st, T)
	var d Dom
	for _, x := range ks {
		d = append(d, iv{int64(x), int64(x)})
	}
	if len(ks) > 0 {
		st.dom.set(k, sortDom(d))
	}
	st.facts.set(mkEq(T, tNil), false)
	return T
}

func ltyp(v *types.Interface, m string) bool {
	for i := 0; i < v.NumMethods(); i++ {
		if v.Method(i).Name() == m {
			return true
		}
	}
	return false
}

// kindScenario is a kind of Go types with the wire type it maps to.
type kindScenario struct {
	name string
	kind reflect.Kind
	wire int64
	ops  string // Write and Read method
	bits int
}

var scalarKinds = []kindScenario{
	{"bool", reflect.Bool, wBool, "Bool", 0},
	{"float32", reflect.Float32, wDouble, "Double", 0},
	{"float64", reflect.Float64, wDouble, "Double", 0},
	{"int8", reflect.Int8, wByte, "Byte", 8},
	{"int16", reflect.Int16, wI16, "I16", 16},
	{"int32", reflect.Int32, wI32, "I32", 32},
	{"int64", reflect.Int64, wI64, "I64", 64},
	{"uint8", reflect.Uint8, wByte, "Byte", 8},
	{"uint16", reflect.Uint16, wI16, "I16", 16},
	{"uint32", reflect.Uint32, wI32, "I32", 32},
	{"uint64", reflect.Uint64, wI64, "I64", 64},
	{"string", reflect.String, wString, "String", 0},
}

// relevant events of a codec call
func tEvents(log, mark *Ev) []*Ev {
	var r []*Ev
	for _, e := range eventsSince(log, mark) {
		switch e.kind {
		case "invoke", "inner":
			r = append(r, e)
		case "loop":
			if len(e.loop.iters) > 0 {
				for _, it := range e.loop.iters {
					if len(tEvents(it.log, iterMark(e.loop, it))) > 0 {
						r = append(r, e)
						break
					}
				}
			}
		}
	}
	return r
}

// eachEvent visits all events, those of loop iterations included.
func eachEvent(st *State, mark *Ev, f func(st *State, e *Ev)) { walkEvents(st, mark, f) }

// outcome checks what holds on every path: no panic, and failures of calls
// end the path and come out as its error. It gives the error state: nil error
// (ok), the error of a failed call (fail), or an error of its own (own).
type outcome uint8

const (
	ocBad outcome = iota
	ocOK
	ocFail
	ocOwn
)

func (t *tctx) outcome(tc *tcall, o Out) outcome {
	if !t.j.sane(o, tc.name, tc.mark) {
		return ocBad
	}
	st := o.st
	isNil := st.eval(mkEq(o.val, tNil))
	if isNil == unknown {
		t.j.bad(catUndecided, tc.name, st, o.pos, "cannot tell whether the returned error is nil")
		return ocBad
	}
	var failed *Ev
	past := false
	eachEvent(st, tc.mark, func(s *State, e *Ev) {
		if e.kind != "invoke" && e.kind != "inner" {
			return
		}
		if failed != nil {
			past = true
		}
		if e.fail {
			failed = e
		}
	})
	if failed == nil {
		if isNil == yes {
			return ocOK
		}
		return ocOwn
	}
	what := failed.name
	if failed.kind == "inner" {
		what = "the codec of " + failed.args[inKey].String()
	}
	if isNil == yes {
		t.j.bad(catSwallow, tc.name, st, failed.pos, "%s fails but the error returned is nil", what)
		return ocBad
	}
	if past {
		t.j.bad(catSwallow, tc.name, st, failed.pos, "goes on after %s failed", what)
		return ocBad
	}
	cause := failed.res[len(failed.res)-1]
	reached, sem := t.unwraps(st, o.val, cause)
	if !reached {
		t.j.bad(catSwallow, tc.name, st, o.pos, "%s fails but its error cannot be reached by unwrapping the one returned (%s)", what, o.val)
		return ocBad
	}
	if failed.kind == "invoke" && !sem {
		t.j.bad(catErrKind, tc.name, st, o.pos, "%s fails but the error returned is not a *SemanticError around its error", what)
	} else if failed.kind == "invoke" {
		t.semantic(tc, o, nil)
		t.j.ok(catErrKind)
	}
	t.j.ok(catSwallow)
	return ocFail
}

// unwraps reports whether following Unwrap from err leads to cause, and
// whether the outermost error is a *SemanticError.
func (t *tctx) unwraps(st *State, err, cause *Term) (reached, sem bool) {
	for n := 0; n < 6; n++ {
		if err == cause {
			return true, sem
		}
		if err.op == OpApp && err.s == "fmt.Errorf" {
			for _, s := range err.args[1].args {
				if s.s == "el" && (s.args[0] == cause || s.args[0].op == OpIface && s.args[0].args[0] == cause) && strings.Contains(err.args[0].s, "%w") {
					return true, sem
				}
			}
			return false, sem
		}
		if err.op != OpIface {
			return false, sem
		}
		if n == 0 && t.isSemantic(err) {
			sem = true
		}
		obj, _, _ := types.LookupFieldOrMethod(err.typ, true, nil, "Unwrap")
		if obj == nil {
			return false, sem
		}
		outs := t.in.callFn(st.clone(), t.in.methodOf(err, "Unwrap"), []*Term{err.args[0]}, nil, token.NoPos, nil)
		if len(outs) != 1 || outs[0].kind != outRet {
			return false, sem
		}
		err = outs[0].val
	}
	return false, sem
}

func (t *tctx) isSemantic(err *Term) bool {
	return err.op == OpIface && types.Identical(err.typ, types.NewPointer(t.c.ld.typ("thrift", "SemanticError")))
}

// semField reads an exported field of the *SemanticError err.
func (t *tctx) semField(st *State, err *Term, name string) *Term {
	if !t.isSemantic(err) {
		return nil
	}
	se := t.c.ld.typ("thrift", "SemanticError")
	u := se.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return t.in.project(st, t.in.load(st, err.args[0], se), mkI(int64(i)), true, u.Field(i).Type())
		}
	}
	return nil
}

// semantic checks that an error the codec reports is a *SemanticError that
// names the Go type, and tells the direction it arose in.
func (t *tctx) semantic(tc *tcall, o Out, goType *Term) bool {
	st := o.st
	if !t.isSemantic(o.val) {
		t.j.bad(catErrKind, tc.name, st, o.pos, "the error is not a *SemanticError: %s", o.val)
		return false
	}
	if goType != nil {
		if g := t.semField(st, o.val, "GoType"); g != goType {
			t.j.bad(catErrKind, tc.name, st, o.pos, "the error names the Go type %s, not %s", g, goType)
			return false
		}
	}
	if !t.j.cats[catErrKind] {
		return true
	}
	outs := t.in.callFn(st.clone(), t.in.methodOf(o.val, "Error"), []*Term{o.val.args[0]}, nil, token.NoPos, nil)
	want, other := " marshal", " unmarshal"
	if !tc.enc {
		want, other = other, want
	}
	for _, x := range outs {
		if x.st.undec != "" {
			continue
		}
		if x.kind != outRet {
			t.j.bad(catPanic, tc.name, st, x.pos, "the Error method of the returned error panics: %s", x.val)
			return false
		}
		text := constText(t.in.contentOf(x.st, x.val))
		if !strings.Contains(text, want) || strings.Contains(text, other) {
			t.j.bad(catErrKind, tc.name, st, o.pos, "the text of the error does not say%s: %q", want, text)
			return false
		}
	}
	t.j.ok(catErrKind)
	return true
}

func constText(segs []*Term) string {
	var sb strings.Builder
	for _, s := range segs {
		switch {
		case s.s == "el" && s.args[0].op == OpInt:
			sb.WriteByte(byte(s.args[0].u))
		case s.s == "sp" && s.args[0].op == OpStr:
			sb.WriteString(s.args[0].s)
		default:
			sb.WriteString("?")
		}
	}
	return sb.String()
}

// noChange checks that nothing that belongs to the caller was changed.
func (t *tctx) noChange(tc *tcall, o Out) {
	bad := false
	eachEvent(o.st, tc.mark, func(s *State, e *Ev) {
		if e.kind != "rset" {
			return
		}
		if r := rootOf(e.args[0]); r == rootOf(tc.place) && !bad {
			bad = true
			t.j.bad(catMutate, tc.name, o.st, e.pos, "%s changes the value being marshaled", e.name)
		}
	})
	if !bad {
		t.j.ok(catMutate)
	}
}

// made checks that memory is not set aside by a size the input declares.
func (t *tctx) made(tc *tcall, o Out) {
	bad := false
	eachEvent(o.st, tc.mark, func(s *State, e *Ev) {
		var n *Term
		switch e.kind {
		case "rmake":
			n = e.args[1]
		case "rgrow":
			n = e.args[3]
		case "makeslice":
			n = e.args[1]
		default:
			return
		}
		if _, hi := s.rng(n, true); hi > 1<<16 && !bad {
			bad = true
			t.j.bad(catAlloc, tc.name, o.st, e.pos, "room for %s elements is made before they are read", n)
		}
	})
	if !bad {
		t.j.ok(catAlloc)
	}
}

// grown checks the depth handed to the codecs of components.
func (t *tctx) depth(tc *tcall, o Out, strict bool) {
	bad := false
	eachEvent(o.st, tc.mark, func(s *State, e *Ev) {
		if e.kind != "inner" || bad {
			return
		}
		var in []*Term
		var leaves func(x *Term)
		leaves = func(x *Term) {
			if x.op == OpStruct || x.op == OpTuple {
				for _, a := range x.args {
					leaves(a)
				}
			} else if isIntTerm(x) {
				in = append(in, x)
			}
		}
		leaves(e.args[inOpts])
		ok := false
		for i := range tc.ints {
			if i >= len(in) {
				break
			}
			lo, hi := s.rng(in[i], true)
			if lo < -depthCap || hi > depthCap {
				continue
			}
			if in[i].width() == tc.ints[i].width() {
				d := mkSub(in[i].width(), in[i], tc.ints[i])
				if d.op == OpInt && (d.sval() != 0 || !strict) && d.sval() >= -1 && d.sval() <= 1 {
					// up to a bound above, or down to one below
					if d.sval() > 0 && hi < depthCap || d.sval() < 0 && lo > -depthCap || d.sval() == 0 {
						ok = true
					}
				}
			}
		}
		if !ok {
			bad = true
			t.j.bad(catDepth, tc.name, o.st, e.pos, "the codec of a component is called without a nesting depth that moves to a bound")
		}
	})
	if !bad {
		t.j.ok(catDepth)
	}
}

// seqMatch walks the calls of a path.
type seqMatch struct {
	t    *tctx
	tc   *tcall
	st   *State
	evs  []*Ev
	i    int
	msg  string
	done bool // a failing call ended the path
}

func (m *seqMatch) bad(format string, args ...any) bool {
	if m.msg == "" {
		m.msg = fmt.Sprintf(format, args...)
	}
	return false
}

func describe(e *Ev) string {
	switch e.kind {
	case "inner":
		return "the codec of " + e.args[inKey].String()
	case "loop":
		return "a loop of calls"
	}
	return e.name
}

// next takes the next event; nil if the path ended by a failure before.
func (m *seqMatch) next() *Ev {
	if m.i < len(m.evs) {
		e := m.evs[m.i]
		m.i++
		return e
	}
	return nil
}

func (m *seqMatch) call(names ...string) *Ev {
	e := m.next()
	if e == nil {
		m.bad("%s is not called", names[0])
		return nil
	}
	if e.kind == "invoke" {
		for _, n := range names {
			if e.name == n {
				if e.args[0] != m.t.ws && e.args[0] != m.t.rs {
					m.bad("%s is called on something else", n)
					return nil
				}
				m.done = e.fail
				return e
			}
		}
	}
	m.bad("%s is called where %s belongs", describe(e), names[0])
	return nil
}

// component expects the call of the codec of type T for the content c at place p
// (nil: not checked).
func (m *seqMatch) component(T, p, c *Term) *Ev {
	e := m.next()
	if e == nil {
		m.bad("the codec of %s is not called", T)
		return nil
	}
	if e.kind != "inner" || e.args[inKey] != T || e.args[inType] != T {
		m.bad("%s is called where the codec of %s belongs", describe(e), T)
		return nil
	}
	if p != nil && e.args[inPlace] != p && !samePlace(m.st, e.args[inPlace], p) {
		m.bad("the codec of %s works on %s, not on %s", T, e.args[inPlace], p)
		return nil
	}
	if c != nil && e.args[inContent] != c && !samePlace(m.st, e.args[inContent], c) {
		m.bad("the codec of %s is given %s, not %s", T, e.args[inContent], c)
		return nil
	}
	m.done = e.fail
	return e
}

func samePlace(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OpApp && b.op == OpApp && a.s == b.s && len(a.args) == len(b.args) {
		for i := range a.args {
			if isIntTerm(a.args[i]) && isIntTerm(b.args[i]) {
				if st.eval(mkEq(a.args[i], b.args[i])) != yes {
					return false
				}
			} else if !samePlace(st, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// end expects no more calls.
func (m *seqMatch) end() {
	if m.msg == "" && m.i < len(m.evs) {
		m.bad("%s is called after the last call of the value", describe(m.evs[m.i]))
	}
}

func (t *tctx) match(tc *tcall, o Out) *seqMatch {
	return &seqMatch{t: t, tc: tc, st: o.st, evs: tEvents(o.st.log, tc.mark)}
}

// verdict reports what a matcher found.
func (m *seqMatch) verdict(o Out) bool {
	m.end()
	if m.msg != "" {
		m.t.j.bad(catSeq, m.tc.name, o.st, o.pos, "%s", m.msg)
		return false
	}
	m.t.j.ok(catSeq)
	return true
}

// wireOf is the wire type of the opaque codec of T: a byte read from it.
func isWireOf(x, T *Term) bool {
	return isIntTerm(x) && x.width() == 8 && x.op != OpInt && cachedKey(x) == T
}
