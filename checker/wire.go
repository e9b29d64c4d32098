package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The Thrift binary and compact protocol encodings, as segment grammars, and
// scenarios that drive the repository's readers and writers over them.

type wireProto struct {
	name    string
	rel     string
	global  string
	compact bool
	strict  bool
	// reading: every valid encoding is produced, not only the canonical one
	lenient bool
}

var wireProtos = []wireProto{
	{"binary", "encoding/thriftbinary", "Protocol", false, true, false},
	{"binary-nonstrict", "encoding/thriftbinary", "ProtocolNonStrict", false, false, false},
	{"compact", "encoding/thriftcompact", "Protocol", true, false, false},
}

// wire types
const (
	wStop   = 0
	wBool   = 2
	wByte   = 3
	wDouble = 4
	wI16    = 6
	wI32    = 8
	wI64    = 10
	wString = 11
	wStruct = 12
	wMap    = 13
	wSet    = 14
	wList   = 15
	wUUID   = 16
)

var wireTypes = []int64{wBool, wByte, wDouble, wI16, wI32, wI64, wString, wStruct, wMap, wSet, wList, wUUID}

var compactCode = map[int64]int64{wStop: 0, wBool: 2, wByte: 3, wI16: 4, wI32: 5, wI64: 6, wDouble: 7, wString: 8, wList: 9, wSet: 10, wMap: 11, wStruct: 12, wUUID: 13}

// a wireOp is one value or marker of the protocol.
type wireOp struct {
	name string // MessageBegin, FieldBegin, Bool, ...
	a    map[string]*Term
	sub  []wireOp // SkipValue: the value skipped
}

func (o wireOp) String() string {
	var xs []string
	for _, k := range []string{"name", "type", "id", "key", "value", "elem", "size", "v"} {
		if t, ok := o.a[k]; ok {
			xs = append(xs, k+"="+t.String())
		}
	}
	return o.name + "(" + strings.Join(xs, ",") + ")"
}

// ---- the encodings

type encState struct {
	last    *Term   // compact: last field id
	stack   []*Term // compact: enclosing last ids
	pending *Term   // compact: id of a boolean field whose header is delayed
}

type encRes struct {
	st      *State
	es      encState
	segs    []*Term
	invalid bool
	neg     bool      // invalid because of a negative size
	alts    [][]*Term // other valid encodings
}

func be(t *Term, w int) []*Term {
	var r []*Term
	for i := w - 8; i >= 0; i -= 8 {
		r = append(r, segEl(mkConv(mkShr(w, t, i, false), w, false, 8)))
	}
	return r
}

func le(t *Term, w int) []*Term {
	var r []*Term
	for i := 0; i < w; i += 8 {
		r = append(r, segEl(mkConv(mkShr(w, t, i, false), w, false, 8)))
	}
	return r
}

func low32(t *Term) *Term { return mkConv(t, 64, true, 32) }

// decide forks a state on a condition.
func decide(st *State, b *Term) (t, f *State) {
	switch st.eval(b) {
	case yes:
		return st, nil
	case no:
		return nil, st
	}
	a, c := st.clone(), st.clone()
	if !a.assume(b, true) {
		a = nil
	}
	if !c.assume(b, false) {
		c = nil
	}
	return a, c
}

// sized splits on whether n is a size the protocol can carry.
func sized(st *State, n *Term, f func(*State) []encRes, es encState) []encRes {
	var r []encRes
	neg, nn := decide(st, mkLt(n, mkI(0), true))
	if neg != nil {
		r = append(r, encRes{st: neg, es: es, invalid: true, neg: true})
	}
	if nn != nil {
		big, ok := decide(nn, mkLt(mkI(1<<31-1), n, true))
		if big != nil {
			r = append(r, encRes{st: big, es: es, invalid: true})
		}
		if ok != nil {
			r = append(r, f(ok)...)
		}
	}
	return r
}

func constOf(st *State, t *Term) (int64, bool) {
	x := st.norm(t)
	if x.op == OpInt {
		return int64(x.u), true
	}
	return 0, false
}

func (p wireProto) encode(st *State, es encState, o wireOp) []encRes {
	one := func(segs ...*Term) []encRes { return []encRes{{st: st, es: es, segs: segs}} }
	str := func(v *Term) []encRes {
		return sized(st, lenTerm(v), func(s *State) []encRes {
			if p.compact {
				return []encRes{{st: s, es: es, segs: []*Term{segUv(lenTerm(v)), segSp(v)}}}
			}
			return []encRes{{st: s, es: es, segs: append(be(low32(lenTerm(v)), 32), segSp(v))}}
		}, es)
	}
	v := o.a["v"]
	code := func(t *Term) (*Term, bool) {
		k, ok := constOf(st, t)
		if !ok {
			return nil, false
		}
		c, ok := compactCode[k]
		if !ok || k == wStop {
			return nil, false
		}
		return mkInt(8, uint64(c)), true
	}
	switch o.name {
	case "MessageBegin":
		switch {
		case p.compact:
			rs := str(o.a["name"])
			for i := range rs {
				if !rs[i].invalid {
					ty := mkOr(8, mkInt(8, 1), mkShl(8, o.a["type"], 5))
					rs[i].segs = append([]*Term{segEl(mkInt(8, 0x82)), segEl(ty), segUv(mkConv(o.a["id"], 32, false, 64))}, rs[i].segs...)
				}
			}
			return rs
		case p.strict:
			rs := str(o.a["name"])
			for i := range rs {
				if !rs[i].invalid {
					rs[i].segs = append(append([]*Term{segEl(mkInt(8, 0x80)), segEl(mkInt(8, 1)), segEl(mkInt(8, 0)), segEl(o.a["type"])}, rs[i].segs...), be(o.a["id"], 32)...)
				}
			}
			return rs
		default:
			rs := str(o.a["name"])
			for i := range rs {
				if !rs[i].invalid {
					rs[i].segs = append(append(rs[i].segs, segEl(o.a["type"])), be(o.a["id"], 32)...)
				}
			}
			return rs
		}
	case "MessageEnd", "FieldEnd", "MapEnd", "SetEnd", "ListEnd":
		return one()
	case "StructBegin":
		if p.compact {
			last := es.last
			if last == nil {
				last = mkInt(16, 0)
			}
			es.stack = append(es.stack[:len(es.stack):len(es.stack)], last)
			es.last = mkInt(16, 0)
		}
		return one()
	case "StructEnd":
		if p.compact {
			if len(es.stack) == 0 {
				return []encRes{{st: st, es: es, invalid: true}}
			}
			es.last = es.stack[len(es.stack)-1]
			es.stack = es.stack[:len(es.stack)-1]
		}
		if p.lenient {
			return one() // read by the stop field
		}
		return one(segEl(mkInt(8, 0)))
	case "FieldBegin":
		if !p.compact {
			return one(append([]*Term{segEl(o.a["type"])}, be(o.a["id"], 16)...)...)
		}
		if k, ok := constOf(st, o.a["type"]); ok && k == wBool {
			es.pending = o.a["id"]
			return one()
		}
		c, ok := code(o.a["type"])
		if !ok {
			return []encRes{{st: st, es: es, invalid: true}}
		}
		return p.fieldHeader(st, es, c, o.a["id"])
	case "Bool":
		if p.compact && es.pending != nil {
			var r []encRes
			t, f := decide(st, v)
			id := es.pending
			es.pending = nil
			if t != nil {
				r = append(r, p.fieldHeader(t, es, mkInt(8, 1), id)...)
			}
			if f != nil {
				r = append(r, p.fieldHeader(f, es, mkInt(8, 2), id)...)
			}
			return r
		}
		var r []encRes
		t, f := decide(st, v)
		if t != nil {
			r = append(r, encRes{st: t, es: es, segs: []*Term{segEl(mkInt(8, 1))}})
		}
		if f != nil {
			r = append(r, encRes{st: f, es: es, segs: []*Term{segEl(mkInt(8, 0))}})
		}
		return r
	case "MapBegin":
		n := o.a["size"]
		return sized(st, n, func(s *State) []encRes {
			if !p.compact {
				return []encRes{{st: s, es: es, segs: append([]*Term{segEl(o.a["key"]), segEl(o.a["value"])}, be(low32(n), 32)...)}}
			}
			var r []encRes
			z, nz := decide(s, mkEq(n, mkI(0)))
			if z != nil {
				r = append(r, encRes{st: z, es: es, segs: []*Term{segEl(mkInt(8, 0))}})
			}
			if nz != nil {
				k, ok1 := code(o.a["key"])
				v, ok2 := code(o.a["value"])
				if !ok1 || !ok2 {
					r = append(r, encRes{st: nz, es: es, invalid: true})
				} else {
					x := encRes{st: nz, es: es, segs: []*Term{segUv(n), segEl(mkOr(8, mkShl(8, k, 4), v))}}
					for _, a := range p.elemCodes(k) {
						for _, b := range p.elemCodes(v) {
							if a != k || b != v {
								x.alts = append(x.alts, []*Term{segUv(n), segEl(mkOr(8, mkShl(8, a, 4), b))})
							}
						}
					}
					r = append(r, x)
				}
			}
			return r
		}, es)
	case "SetBegin", "ListBegin":
		n := o.a["size"]
		return sized(st, n, func(s *State) []encRes {
			if !p.compact {
				return []encRes{{st: s, es: es, segs: append([]*Term{segEl(o.a["elem"])}, be(low32(n), 32)...)}}
			}
			var r []encRes
			if k, ok := constOf(s, o.a["elem"]); ok && k == wStop {
				z, nz := decide(s, mkEq(n, mkI(0)))
				if z != nil {
					r = append(r, encRes{st: z, es: es, segs: []*Term{segEl(mkInt(8, 0))}})
				}
				if nz != nil {
					r = append(r, encRes{st: nz, es: es, invalid: true})
				}
				return r
			}
			c, ok := code(o.a["elem"])
			if !ok {
				return []encRes{{st: s, es: es, invalid: true}}
			}
			short, long := decide(s, mkLt(n, mkI(15), true))
			if short != nil {
				x := encRes{st: short, es: es}
				for _, a := range p.elemCodes(c) {
					x.alts = append(x.alts, []*Term{segEl(mkOr(8, mkShl(8, mkConv(n, 64, true, 8), 4), a))})
				}
				if p.lenient { // a small size in the long form
					x.alts = append(x.alts, []*Term{segEl(mkOr(8, mkInt(8, 0xf0), c)), segUv(n)})
				}
				x.segs, x.alts = x.alts[0], x.alts[1:]
				r = append(r, x)
			}
			if long != nil {
				x := encRes{st: long, es: es}
				for _, a := range p.elemCodes(c) {
					x.alts = append(x.alts, []*Term{segEl(mkOr(8, mkInt(8, 0xf0), a)), segUv(n)})
				}
				x.segs, x.alts = x.alts[0], x.alts[1:]
				r = append(r, x)
			}
			return r
		}, es)
	case "Byte":
		return one(segEl(v))
	case "Double":
		bits := mkApp("f64bits", tUint64, v)
		if p.compact {
			return one(le(bits, 64)...)
		}
		return one(be(bits, 64)...)
	case "I16", "I32", "I64":
		w := map[string]int{"I16": 16, "I32": 32, "I64": 64}[o.name]
		if p.compact {
			return one(segUv(mkZigzag(mkConv(v, w, true, 64))))
		}
		return one(be(v, w)...)
	case "String", "Bytes":
		return str(v)
	case "UUID":
		return one(segSp(v))
	case "Stop":
		return one(segEl(mkInt(8, 0)))
	}
	panic("unknown op " + o.name)
}

// elemCodes lists the codes that stand for an element type; writers use the
// first, readers take them all.
func (p wireProto) elemCodes(c *Term) []*Term {
	if p.lenient && c.op == OpInt && c.u == 2 {
		return []*Term{c, mkInt(8, 1)}
	}
	return []*Term{c}
}

func (p wireProto) fieldHeader(st *State, es encState, code, id *Term) []encRes {
	last := es.last
	if last == nil {
		last = mkInt(16, 0)
	}
	es.last = id
	delta := mkSub(16, id, last)
	short := []*Term{segEl(mkOr(8, mkShl(8, mkConv(delta, 16, true, 8), 4), code))}
	long := []*Term{segEl(code), segUv(mkZigzag(mkConv(id, 16, true, 64)))}
	// The delta is due in the short form where it is mathematically in 1..15,
	// and allowed where it is so modulo 2^16 only, as it decodes to the same
	// ID in 16-bit arithmetic.
	d64 := mkSub(64, mkConv(id, 16, true, 64), mkConv(last, 16, true, 64))
	mpos, mle := mkLt(mkInt(64, 0), d64, true), mkLt(d64, mkInt(64, 16), true)
	var r []encRes
	other := func(st *State) {
		if st != nil && (st.eval(mpos) != yes || st.eval(mle) != yes) {
			r = append(r, encRes{st: st, es: es, segs: long})
		}
	}
	pos, np := decide(st, mkLt(mkInt(16, 0), delta, true))
	if pos != nil {
		s, l := decide(pos, mkLt(delta, mkInt(16, 16), true))
		if s != nil {
			m, wrap := decide(s, mpos)
			if m != nil && m.assume(mle, true) { // d64 is delta or delta - 2^16
				x := encRes{st: m, es: es, segs: short}
				if p.lenient {
					x.alts = [][]*Term{long}
				}
				r = append(r, x)
			}
			if wrap != nil {
				x := encRes{st: wrap, es: es, segs: long}
				if !p.lenient {
					x.alts = [][]*Term{short}
				}
				r = append(r, x)
			}
		}
		other(l)
	}
	other(np)
	return r
}

// ---- scenarios

type wctx struct {
	c    *Ctx
	p    wireProto
	in   *Interp
	base *State
}

func newWctx(c *Ctx, p wireProto) *wctx {
	w := &wctx{c: c, p: p, in: newInterp(c.ld)}
	w.in.materialInts = true
	w.in.merge = os.Getenv("TCHECK_NOMERGE") == ""
	w.base = w.in.baseState("encoding/thriftwire", "encoding/thriftbinary", "encoding/thriftcompact")
	return w
}

func (w *wctx) method(v *Term, name string) *ssa.Function { return w.in.methodOf(v, name) }

// proto returns the protocol value as an interface.
func (w *wctx) proto(st *State) *Term {
	g := w.c.ld.global(w.p.rel, w.p.global)
	ptr := w.in.globalPtr(st, g)
	t := w.in.otyp[int(ptr.n)]
	v := w.in.load(st, ptr, t)
	if types.IsInterface(t) {
		return v
	}
	return mkIface(t, v)
}

func (w *wctx) ioType(name string) types.Type { return w.in.stdType("io", name) }

type obj struct {
	st *State
	v  *Term // interface value
}

// open makes a reader or writer on x.
func (w *wctx) open(st *State, ctor string, x *Term) []obj {
	p := w.proto(st)
	var r []obj
	for _, o := range w.in.callFn(st, w.method(p, ctor), []*Term{p.args[0], x}, nil, token.NoPos, nil) {
		if o.kind == outPanic {
			w.in.fail("%s panics: %s", ctor, o.val)
		}
		if o.val.op != OpIface {
			w.in.fail("%s returns %s", ctor, o.val)
		}
		r = append(r, obj{o.st, o.val})
	}
	return r
}

func (w *wctx) call(st *State, v *Term, name string, args ...*Term) []Out {
	return w.in.callFn(st, w.method(v, name), append([]*Term{v.args[0]}, args...), nil, token.NoPos, nil)
}

func (w *wctx) wireType(name string) types.Type { return w.c.ld.typ("encoding/thriftwire", name) }

func (w *wctx) sym(st *State, name string, typ types.Type) *Term { return mkSym(name, typ) }

// header builds a thriftwire header from its field names.
func (w *wctx) header(typ string, f map[string]*Term) *Term {
	t := w.wireType(typ)
	s := t.Underlying().(*types.Struct)
	as := make([]*Term, s.NumFields())
	for i := range as {
		if v, ok := f[s.Field(i).Name()]; ok {
			as[i] = v
			delete(f, s.Field(i).Name())
		} else {
			as[i] = mkSym("unused."+s.Field(i).Name(), s.Field(i).Type())
		}
	}
	if len(f) > 0 {
		w.in.fail("type %s lacks an expected field", typ)
	}
	return mkStruct(as...)
}

func (w *wctx) field(h *Term, typ, name string) *Term {
	s := w.wireType(typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return w.in.project(nil, h, mkI(int64(i)), true, s.Field(i).Type())
		}
	}
	w.in.fail("type %s lacks field %s", typ, name)
	return nil
}

// writeArgs gives the arguments of the Write method for an operation.
func (w *wctx) writeArgs(st *State, o wireOp) []*Term {
	switch o.name {
	case "MessageBegin":
		return []*Term{w.header("MessageHeader", map[string]*Term{"Name": o.a["name"], "Type": o.a["type"], "ID": o.a["id"]})}
	case "StructBegin":
		return []*Term{w.header("StructHeader", map[string]*Term{})}
	case "FieldBegin":
		return []*Term{w.header("FieldHeader", map[string]*Term{"Type": o.a["type"], "ID": o.a["id"]})}
	case "MapBegin":
		return []*Term{w.header("MapHeader", map[string]*Term{"Key": o.a["key"], "Value": o.a["value"], "Size": o.a["size"]})}
	case "SetBegin":
		return []*Term{w.header("SetHeader", map[string]*Term{"Element": o.a["elem"], "Size": o.a["size"]})}
	case "ListBegin":
		return []*Term{w.header("ListHeader", map[string]*Term{"Element": o.a["elem"], "Size": o.a["size"]})}
	case "UUID":
		id := w.in.newObj(st, types.NewArray(tByte, 16), o.a["v"])
		return []*Term{mkPtr(id)}
	}
	if v, ok := o.a["v"]; ok {
		return []*Term{v}
	}
	return nil
}

// ops with symbolic arguments
func (w *wctx) opMessage() wireOp {
	t := mkSym("type", w.wireType("MessageType"))
	w.base.dom.set(t, Dom{{1, 4}})
	return wireOp{name: "MessageBegin", a: map[string]*Term{"name": mkSym("name", tString), "type": t, "id": mkSym("id", types.Typ[types.Int32])}}
}

func ty(k int64) *Term { return mkInt(8, uint64(k)) }

func opField(k int64, id *Term) wireOp {
	return wireOp{name: "FieldBegin", a: map[string]*Term{"type": ty(k), "id": id}}
}
func symID(n string) *Term { return mkSym(n, types.Typ[types.Int16]) }

func opValue(name string) wireOp {
	t := map[string]types.Type{"Bool": types.Typ[types.Bool], "Byte": tByte, "Double": types.Typ[types.Float64], "I16": types.Typ[types.Int16],
		"I32": types.Typ[types.Int32], "I64": types.Typ[types.Int64], "String": tString, "Bytes": byteSlice, "UUID": types.NewArray(tByte, 16)}[name]
	return wireOp{name: name, a: map[string]*Term{"v": mkSym("v", t)}}
}
func op0(name string) wireOp { return wireOp{name: name} }
func opMap(k, v int64) wireOp {
	return wireOp{name: "MapBegin", a: map[string]*Term{"key": ty(k), "value": ty(v), "size": mkSym("size", tInt)}}
}
func opSeq(name string, e int64) wireOp {
	return wireOp{name: name, a: map[string]*Term{"elem": ty(e), "size": mkSym("size", tInt)}}
}

// path renders the interesting events of a state.
func pathOf(ld *Loader, st *State) []string {
	var r []string
	for _, e := range eventsSince(st.trail, nil) {
		r = append(r, fmt.Sprintf("%s: branch %s", ld.pos(e.pos), e.args[0]))
	}
	for _, e := range eventsSince(st.log, nil) {
		r = append(r, fmt.Sprintf("%s: %s", ld.pos(e.pos), e))
	}
	if len(r) > 60 {
		r = append(r[:30], r[len(r)-30:]...)
	}
	return r
}

// judge categories
type cat string

const (
	catBytes     cat = "encoding"        // wrong bytes or value
	catSpurious  cat = "spurious-error"  // an error without cause
	catSwallow   cat = "error-swallowed" // a failure not reported
	catInvalid   cat = "invalid-accepted"
	catPanic     cat = "panic"
	catBounds    cat = "bounds"
	catUndecided cat = "undecided"
	catConsume   cat = "consumption"
	catOverread  cat = "overread"
	catAlloc     cat = "allocation"
)

type judge struct {
	c    *Ctx
	cats map[cat]bool
}

func newJudge(c *Ctx, cats ...cat) *judge {
	j := &judge{c: c, cats: map[cat]bool{catUndecided: true}}
	for _, k := range cats {
		j.cats[k] = true
	}
	return j
}

func (j *judge) bad(k cat, construct string, st *State, pos token.Pos, format string, args ...any) {
	if k == catUndecided && j.c.soft {
		j.c.undecided(construct, fmt.Sprintf(format, args...))
		return
	}
	if j.cats[k] {
		var p func() []string
		if st != nil {
			p = func() []string { return pathOf(j.c.ld, st) }
		}
		j.c.bad(string(k), construct, pos, p, format, args...)
	}
}
func (j *judge) ok(k cat) {
	if j.cats[k] {
		j.c.ok(string(k))
	}
}

// sane reports general trouble with an outcome; false if it must not be
// looked at further.
func (j *judge) sane(o Out, construct string, mark *Ev) bool {
	if o.st.undec != "" {
		j.bad(catUndecided, construct, o.st, o.pos, "not decided: %s", o.st.undec)
		return false
	}
	for _, e := range eventsSince(o.st.log, mark) {
		if e.kind == "oob" {
			j.bad(catBounds, construct, o.st, e.pos, "%s bounds not established: %s", e.name, e)
			return false
		}
	}
	if o.kind == outPanic {
		j.bad(catPanic, construct, o.st, o.pos, "panics: %s", o.val)
		return false
	}
	j.ok(catPanic)
	return true
}

func ioFailed(log, mark *Ev) *Ev {
	for _, e := range eventsSince(log, mark) {
		if e.fail && e.kind == "io" {
			return e
		}
		if e.loop != nil {
			// a failure an iteration goes past
			for _, it := range e.loop.iters {
				if f := ioFailed(it.log, iterMark(e.loop, it)); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// wstate is a writer in the middle of a script, with its specification.
type wstate struct {
	st   *State
	es   encState
	segs []*Term
	mark *Ev
}

func (w *wctx) pending(st *State, v *Term) (*Term, *Term) {
	// the bufio.Writer reachable from the writer object that received data
	var found, ptr *Term
	for id, x := range st.heap.m {
		if x != nil && x.op == OpApp && x.s == "bufioW" {
			if found != nil && len(x.args[1].args) == 0 {
				continue
			}
			found, ptr = x, mkPtr(id)
		}
	}
	return found, ptr
}

// delivered concatenates what was handed to dst: delivered plus pending.
func (w *wctx) output(st *State, mark *Ev, dst *Term) []*Term {
	var segs []*Term
	for _, e := range eventsSince(st.log, mark) {
		if e.kind == "deliver" && e.args[0] == dst {
			segs = append(segs, e.args[1].args...)
		}
	}
	for _, x := range st.heap.m {
		if x != nil && x.op == OpApp && x.s == "bufioW" && x.args[0] == dst {
			segs = append(segs, x.args[1].args...)
		}
	}
	return segs
}

func opsName(p wireProto, ops []wireOp, i int) string {
	var xs []string
	for k, o := range ops[:i+1] {
		n := o.name
		if t, ok := o.a["type"]; ok && t.op == OpInt {
			n += fmt.Sprintf("[type %d]", t.u)
		}
		if t, ok := o.a["elem"]; ok && t.op == OpInt {
			n += fmt.Sprintf("[elem %d]", t.u)
		}
		if t, ok := o.a["key"]; ok && t.op == OpInt {
			n += fmt.Sprintf("[key %d value %d]", t.u, o.a["value"].u)
		}
		_ = k
		xs = append(xs, n)
	}
	return p.name + " " + strings.Join(xs, " ")
}

// writeScript checks a sequence of writes, every prefix included.
func (w *wctx) writeScript(j *judge, ops []wireOp) {
	dst := mkSym("dst", w.ioType("Writer"))
	for _, ob := range w.open(w.base.clone(), "NewWriter", dst) {
		w.writeFrom(j, ob, dst, ops, "")
	}
}

// writeFrom performs the operations on the writer; ctx names the history.
func (w *wctx) writeFrom(j *judge, ob obj, dst *Term, ops []wireOp, ctx string) []wstate {
	cur := []wstate{{st: ob.st, mark: ob.st.log}}
	for i, o := range ops {
		cur = w.writeStep(j, ob.v, dst, cur, o, ctx+"write "+opsName(w.p, ops, i))
	}
	return cur
}

func (w *wctx) writeStep(j *judge, v, dst *Term, cur []wstate, o wireOp, name string) []wstate {
	var next []wstate
	for _, s := range cur {
		args := w.writeArgs(s.st, o)
		for _, out := range w.call(s.st.clone(), v, "Write"+o.name, args...) {
			w.c.nPaths++
			if !j.sane(out, name, s.mark) {
				continue
			}
			res := out.results()
			errv := res[len(res)-1]
			fail := ioFailed(out.st.log, s.mark)
			for _, sp := range w.p.encode(out.st, s.es, o) {
				isNil := sp.st.eval(mkEq(errv, tNil))
				switch {
				case sp.neg && w.p.compact && o.name == "MapBegin":
					// a map of negative size may be refused or written as an empty one
				case isNil == unknown:
					j.bad(catUndecided, name, sp.st, out.pos, "cannot tell whether the returned error %s is nil", errv)
				case fail != nil:
					if isNil == yes {
						j.bad(catSwallow, name, sp.st, fail.pos, "%s fails but the method returns a nil error", fail.name)
					} else {
						j.ok(catSwallow)
					}
				case sp.invalid:
					if isNil == yes {
						j.bad(catInvalid, name, sp.st, out.pos, "a value that has no encoding is accepted")
					} else {
						j.ok(catInvalid)
					}
				case isNil == no:
					j.bad(catSpurious, name, sp.st, out.pos, "returns an error for a valid value although no write failed")
				default:
					got := w.output(sp.st, s.mark, dst)
					want := append(append([]*Term(nil), s.segs...), sp.segs...)
					good := sp.st.equalSeq(got, want)
					for _, a := range sp.alts {
						if good {
							break
						}
						if x := append(append([]*Term(nil), s.segs...), a...); sp.st.equalSeq(got, x) {
							want, good = x, true
						}
					}
					if !good {
						j.bad(catBytes, name, sp.st, out.pos, "writes %s, the encoding is %s", mkSeq(sp.st.normSegs(got)...), mkSeq(sp.st.normSegs(want)...))
						continue
					}
					j.ok(catBytes)
					next = append(next, wstate{st: sp.st, es: sp.es, mark: s.mark})
				}
			}
		}
	}
	return w.joinWriters(v, dst, next, name)
}

// joinWriters forgets the verified output, of which the pending part becomes
// an arbitrary byte sequence, and joins states that agree.
func (w *wctx) joinWriters(v, dst *Term, ss []wstate, name string) []wstate {
	pend := segSp(mkSym("pending", byteSlice))
	sts := make([]*State, len(ss))
	for i := range ss {
		s := &ss[i]
		s.segs = nil
		s.mark = s.st.log
		for _, id := range sortedIDs(s.st.heap.m) {
			x := s.st.heap.m[id]
			if x != nil && x.op == OpApp && x.s == "bufioW" && x.args[0] == dst && len(x.args[1].args) > 0 {
				s.st.heap.set(id, withArg(x, 1, mkSeq(pend)))
				s.segs = append(s.segs, pend)
			}
		}
		sts[i] = s.st
	}
	var r []wstate
	for _, i := range w.in.joinAll(w.base, sts, func(i int) []*Term {
		s := ss[i]
		return append(append([]*Term{v, s.es.last, s.es.pending}, s.es.stack...), s.segs...)
	}, name) {
		r = append(r, ss[i])
	}
	return r
}

func sortedIDs(m map[int]*Term) []int {
	r := make([]int, 0, len(m))
	for id := range m {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

// ---- readers

type rstate struct {
	st   *State
	es   encState
	mark *Ev
}

// readOps is the sequence of reads for a sequence of writes.
func readOps(ops []wireOp) []wireOp {
	var r []wireOp
	for _, o := range ops {
		if o.name == "StructEnd" {
			r = append(r, op0("Stop"))
		}
		r = append(r, o)
	}
	return r
}

// readScript encodes the operations and checks that reading them back gives
// the same values and consumes exactly the encoding of each.
func (w *wctx) readScript(j *judge, ops []wireOp) {
	src := mkSym("src", w.ioType("Reader"))
	for _, ob := range w.open(w.base.clone(), "NewReader", src) {
		w.readFrom(j, ob, src, ops, "")
	}
}

func (w *wctx) readFrom(j *judge, ob obj, src *Term, ops []wireOp, ctx string) []rstate {
	w.p.lenient = true
	defer func() {
		w.p.lenient = false
		delete(w.in.streams, src)
	}()
	cur := []rstate{{st: ob.st, mark: ob.st.log}}
	ops = readOps(ops)
	for i := 0; i < len(ops); i++ {
		// what is encoded together is read together
		n := 1
		if ops[i].name == "FieldBegin" && i+1 < len(ops) && (ops[i+1].name == "Bool" || ops[i+1].name == "SkipValue") {
			n = 2
		}
		var next []rstate
		for _, s := range cur {
			next = append(next, w.readGroup(j, ob.v, src, s, ops, i, n, ctx)...)
		}
		cur = w.joinReaders(ob.v, src, next, ctx)
		i += n - 1
	}
	return cur
}

func (w *wctx) readGroup(j *judge, v, src *Term, s rstate, ops []wireOp, at, n int, ctx string) []rstate {
	type enc struct {
		st   *State
		es   encState
		segs []*Term
	}
	encs := []enc{{st: s.st, es: s.es}}
	for _, o := range ops[at : at+n] {
		if o.a["skip"] != nil {
			o.a = map[string]*Term{"v": o.a["v"]}
		}
		sub := []wireOp{o}
		if o.name == "SkipValue" {
			sub = readOps(o.sub)
		}
		for _, o := range sub {
			var r []enc
			for _, e := range encs {
				for _, x := range w.p.encode(e.st.clone(), e.es, o) {
					if x.invalid {
						continue
					}
					for _, segs := range append([][]*Term{x.segs}, x.alts...) {
						r = append(r, enc{x.st.clone(), x.es, append(e.segs[:len(e.segs):len(e.segs)], segs...)})
					}
				}
			}
			encs = r
		}
	}
	var res []rstate
	for _, e := range encs {
		w.in.streams[src] = e.segs
		w.in.gen++
		cur := []rstate{{e.st, e.es, s.mark}}
		for i := at; i < at+n; i++ {
			var next []rstate
			for _, x := range cur {
				next = append(next, w.readStep(j, v, x, ops, i, ctx)...)
			}
			cur = next
		}
		name := ctx + "read " + opsName(w.p, ops, at+n-1)
		for _, x := range cur {
			if w.consumed(j, src, x, name) {
				res = append(res, x)
			}
		}
	}
	return res
}

func (w *wctx) consumed(j *judge, src *Term, s rstate, name string) bool {
	r := w.readerObj(s.st, src)
	if r == nil {
		j.bad(catUndecided, name, s.st, token.NoPos, "cannot find the buffered reader of the source")
		return false
	}
	segs, _ := w.in.rest(r)
	left := s.st.normSegs(segs)
	beyond := int(r.args[rIdx].u) >= len(w.in.streams[src]) && s.st.eval(mkEq(r.args[rOff], mkI(0))) != yes
	if len(left) > 0 || beyond {
		j.bad(catConsume, name, s.st, token.NoPos, "does not consume exactly the encoding: left %s, beyond %v", mkSeq(left...), beyond)
		return false
	}
	j.ok(catConsume)
	return true
}

// joinReaders rewinds the readers to the begin of the next value and joins
// states that agree.
func (w *wctx) joinReaders(v, src *Term, ss []rstate, name string) []rstate {
	sts := make([]*State, len(ss))
	for i := range ss {
		s := &ss[i]
		s.mark = s.st.log
		for _, id := range sortedIDs(s.st.heap.m) {
			x := s.st.heap.m[id]
			if x != nil && x.op == OpApp && x.s == "bufioR" && x.args[0] == src && x.args[rFailed] == tNil {
				s.st.heap.set(id, newReaderTerm(src))
			}
		}
		sts[i] = s.st
	}
	var r []rstate
	for _, i := range w.in.joinAll(w.base, sts, func(i int) []*Term {
		s := ss[i]
		return append([]*Term{v, s.es.last, s.es.pending}, s.es.stack...)
	}, name) {
		r = append(r, ss[i])
	}
	return r
}

func (w *wctx) readerObj(st *State, src *Term) *Term {
	for _, x := range st.heap.m {
		if x != nil && x.op == OpApp && x.s == "bufioR" && x.args[0] == src {
			return x
		}
	}
	return nil
}

func (w *wctx) readStep(j *judge, v *Term, s rstate, ops []wireOp, i int, ctx string) []rstate {
	o := ops[i]
	name := ctx + "read " + opsName(w.p, ops, i)
	var next []rstate
	st := s.st.clone()
	method := "Read" + o.name
	var args []*Term
	var uuid *Term
	pre := mkSym("prefix", byteSlice)
	skip := o.a["skip"] != nil
	switch {
	case skip:
		method = "Skip" + strings.TrimSuffix(o.name, "Begin")
		if o.name == "Bytes" {
			method = "SkipString"
		}
	case o.name == "Stop":
		method = "ReadFieldBegin"
	case o.name == "Bytes":
		args = []*Term{pre}
	case o.name == "UUID":
		uuid = mkPtr(w.in.newObj(st, types.NewArray(tByte, 16), mkSym("old", types.NewArray(tByte, 16))))
		args = []*Term{uuid}
	}
	var outs []Out
	if o.name == "SkipValue" {
		skip = true
		outs = w.in.callFn(st, w.c.ld.fn("encoding/thriftwire", "Skip"), []*Term{v, o.a["type"]}, nil, token.NoPos, nil)
	} else {
		outs = w.call(st, v, method, args...)
	}
	for _, out := range outs {
		w.c.nPaths++
		if !j.sane(out, name, s.mark) {
			continue
		}
		for _, e := range eventsSince(out.st.log, s.mark) {
			if e.kind == "overread" {
				j.bad(catOverread, name, out.st, e.pos, "asks for %s bytes where the value has only %s left", e.args[0], e.args[1])
			}
		}
		res := out.results()
		var errv *Term = tNil
		if len(res) > 0 {
			errv = res[len(res)-1]
		}
		fail := ioFailed(out.st.log, s.mark)
		isNil := out.st.eval(mkEq(errv, tNil))
		switch {
		case isNil == unknown:
			j.bad(catUndecided, name, out.st, out.pos, "cannot tell whether the returned error %s is nil", errv)
		case fail != nil:
			if isNil == yes {
				j.bad(catSwallow, name, out.st, fail.pos, "%s fails but the method returns a nil error", fail.name)
			} else {
				j.ok(catSwallow)
			}
		case isNil == no:
			j.bad(catSpurious, name, out.st, out.pos, "returns error %s for a valid encoding although no read failed", errv)
		default:
			if skip || w.checkValue(j, name, out, o, res, pre, uuid) {
				j.ok(catOverread)
				next = append(next, rstate{out.st, s.es, s.mark})
			}
		}
	}
	return next
}

func (w *wctx) checkValue(j *judge, name string, out Out, o wireOp, res []*Term, pre, uuid *Term) bool {
	st := out.st
	eq := func(what string, got, want *Term) bool {
		if !st.equal(got, want) {
			j.bad(catBytes, name, st, out.pos, "%s is read as %s, encoded was %s", what, got, want)
			return false
		}
		j.ok(catBytes)
		return true
	}
	h := func() *Term { return res[0] }
	switch o.name {
	case "MessageBegin":
		return eq("the name", w.field(h(), "MessageHeader", "Name"), o.a["name"]) &&
			eq("the message type", w.field(h(), "MessageHeader", "Type"), o.a["type"]) &&
			eq("the sequence ID", w.field(h(), "MessageHeader", "ID"), o.a["id"])
	case "FieldBegin":
		return eq("the field type", w.field(h(), "FieldHeader", "Type"), o.a["type"]) &&
			eq("the field ID", w.field(h(), "FieldHeader", "ID"), o.a["id"])
	case "Stop":
		return eq("the field type", w.field(h(), "FieldHeader", "Type"), ty(wStop))
	case "MapBegin":
		n := o.a["size"]
		if !eq("the size", w.field(h(), "MapHeader", "Size"), n) {
			return false
		}
		if w.p.compact && st.eval(mkEq(n, mkI(0))) == yes {
			return true
		}
		return eq("the key type", w.field(h(), "MapHeader", "Key"), o.a["key"]) &&
			eq("the value type", w.field(h(), "MapHeader", "Value"), o.a["value"])
	case "SetBegin", "ListBegin":
		tn := strings.TrimSuffix(o.name, "Begin") + "Header"
		return eq("the size", w.field(h(), tn, "Size"), o.a["size"]) &&
			eq("the element type", w.field(h(), tn, "Element"), o.a["elem"])
	case "Bool":
		v := o.a["v"]
		return eq("the value", h(), v)
	case "Byte", "Double", "I16", "I32", "I64":
		want := o.a["v"]
		if o.name == "Double" {
			want = mkApp("f64frombits", types.Typ[types.Float64], mkApp("f64bits", tUint64, want))
			got := h()
			if got.op == OpApp && got.s == "f64frombits" {
				return eq("the bits of the value", got.args[0], want.args[0])
			}
			if got == o.a["v"] {
				return eq("the value", got, got)
			}
		}
		return eq("the value", h(), want)
	case "String":
		got := mkSeq(w.in.contentOf(st, h())...)
		return eq("the string", got, mkSeq(segSp(o.a["v"])))
	case "Bytes":
		got := mkSeq(w.in.contentOf(st, h())...)
		if x := h(); x.op == OpApp && (x.s == "view" || x.s == "win") {
			j.bad(catBytes, name, st, out.pos, "returns a slice of the read buffer, which later reads overwrite")
			return false
		}
		return eq("the bytes", got, mkSeq(segSp(pre), segSp(o.a["v"])))
	case "UUID":
		return eq("the UUID", w.in.load(st, uuid, types.NewArray(tByte, 16)), o.a["v"])
	}
	j.ok(catBytes)
	return true
}
