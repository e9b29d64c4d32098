package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// place of the value handed to a codec
func (t *tctx) valuePlace() *Term { return mkApp("deref", nil, mkNamed("value", nil)) }

// withCodec makes the codec of T and hands it on, together with the state.
func (t *tctx) withCodec(name string, st *State, T *Term, f func(st *State, cd codec)) {
	t.c.guard(name, func() {
		for _, x := range t.codecOf(st, T) {
			f(x.st, x.c)
		}
	})
}

// own checks an error the codec raises by itself: only with a reason.
func (t *tctx) ownError(tc *tcall, o Out, reason bool, why string) bool {
	if !reason {
		t.j.bad(catSpurious, tc.name, o.st, o.pos, "reports an error although %s", why)
		return false
	}
	return t.semantic(tc, o, tc.T)
}

func (t *tctx) overDepth(tc *tcall, o Out) bool {
	for _, d := range tc.ints {
		lo, hi := o.st.rng(d, true)
		if lo > 1000 || hi <= 1 { // far from where nesting starts
			return true
		}
	}
	return false
}

// noCalls checks that a path made no call on the stream or of a component.
func (t *tctx) noCalls(tc *tcall, o Out, k cat, when string) bool {
	if evs := tEvents(o.st.log, tc.mark); len(evs) > 0 {
		t.j.bad(k, tc.name, o.st, evs[0].pos, "%s is called although %s", describe(evs[0]), when)
		return false
	}
	return true
}

func (t *tctx) noSets(tc *tcall, o Out, k cat, when string) bool {
	good := true
	eachEvent(o.st, tc.mark, func(s *State, e *Ev) {
		if e.kind == "rset" && good {
			good = false
			t.j.bad(k, tc.name, o.st, e.pos, "%s changes the value although %s", e.name, when)
		}
	})
	return good
}

// mismatch checks a path of unmarshal whose wire type is not that of T:
// it must end in an error before anything is read or changed.
func (t *tctx) mismatch(tc *tcall, o Out, cd codec) (matched bool) {
	eq := o.st.eval(mkEq(tc.wt, cd.wire))
	if eq == yes {
		return true
	}
	if !t.j.sane(o, tc.name, tc.mark) {
		return false
	}
	isNil := o.st.eval(mkEq(o.val, tNil))
	what := fmt.Sprintf("the wire type is %s, that of the Go type %s", o.st.norm(tc.wt), cd.wire)
	if eq == unknown {
		// the codec did not look: only errors before any call are fine
		what = "the wire type may not be that of the Go type"
		if len(tEvents(o.st.log, tc.mark)) == 0 && isNil == no {
			t.j.ok(catMismatch)
			return false
		}
	}
	if isNil != no {
		t.j.bad(catMismatch, tc.name, o.st, o.pos, "succeeds although %s", what)
		return false
	}
	if t.noCalls(tc, o, catMismatch, what) && t.noSets(tc, o, catMismatch, what) {
		if !t.semantic(tc, o, tc.T) {
			return false
		}
		if w := t.semField(o.st, o.val, "ThriftType"); w != tc.wt && o.st.eval(mkEq(w, tc.wt)) != yes {
			t.j.bad(catErrKind, tc.name, o.st, o.pos, "the error names the wire type %s, not the one met", w)
			return false
		}
		t.j.ok(catMismatch)
	}
	return false
}

func (t *tctx) wireIs(name string, st *State, cd codec, want int64) bool {
	w := st.norm(cd.wire)
	if w.op != OpInt || int64(w.u) != want {
		t.j.bad(catMapping, name, st, 0, "has the wire type %s, not %d", w, want)
		return false
	}
	t.j.ok(catMapping)
	return true
}

// ---- scalars

func (t *tctx) scalars(enc, dec bool) {
	for _, k := range scalarKinds {
		k := k
		st := t.base.clone()
		T := t.typeSym(st, k.name, k.kind)
		t.scalar(k, st, T, enc, dec)
	}
	// byte strings and UUIDs
	for _, k := range []kindScenario{{"[]byte", reflect.Slice, wString, "Bytes", 0}, {"named []byte", reflect.Slice, wString, "Bytes", 0}, {"[16]byte", reflect.Array, wUUID, "UUID", 0}} {
		st := t.base.clone()
		var T *Term
		switch k.name {
		case "[]byte":
			T = mkRType(types.NewSlice(types.Typ[types.Uint8]))
		case "named []byte":
			tn := types.NewTypeName(token.NoPos, types.NewPackage("example.com/user", "user"), "Blob", nil)
			T = mkRType(types.NewNamed(tn, types.NewSlice(types.Typ[types.Uint8]), nil))
		default:
			T = mkRType(types.NewArray(types.Typ[types.Uint8], 16))
		}
		t.scalar(k, st, T, enc, dec)
	}
}

func (t *tctx) scalar(k kindScenario, st *State, T *Term, enc, dec bool) {
	name := "codec of " + k.name
	t.withCodec(name, st, T, func(st *State, cd codec) {
		if !t.wireIs(name, st, cd, k.wire) {
			return
		}
		p := t.valuePlace()
		if enc {
			tc := t.call(st.clone(), cd.marshal, T, p, "Marshal of "+k.name)
			for _, o := range tc.outs {
				oc := t.outcome(tc, o)
				t.noChange(tc, o)
				if oc == ocBad {
					continue
				}
				if oc == ocOwn {
					t.j.bad(catSpurious, tc.name, o.st, o.pos, "reports an error although no call failed")
					continue
				}
				m := t.match(tc, o)
				names := []string{"Write" + k.ops}
				if k.wire == wString {
					names = []string{"WriteString", "WriteBytes"}
				}
				if e := m.call(names...); e != nil {
					t.writtenValue(m, k, e, tc.c0, p)
				}
				m.verdict(o)
			}
		}
		if dec {
			tc := t.call(st.clone(), cd.unmarshal, T, p, "Unmarshal of "+k.name)
			for _, o := range tc.outs {
				if !t.mismatch(tc, o, cd) {
					continue
				}
				oc := t.outcome(tc, o)
				if oc == ocBad {
					continue
				}
				if oc == ocOwn {
					t.j.bad(catSpurious, tc.name, o.st, o.pos, "reports an error although no call failed")
					continue
				}
				m := t.match(tc, o)
				names := []string{"Read" + k.ops}
				if k.wire == wString {
					names = []string{"ReadString", "ReadBytes"}
				}
				if e := m.call(names...); e != nil && oc == ocOK {
					t.readValue(m, k, e, p)
				}
				m.verdict(o)
			}
		}
	})
}

func (t *tctx) writtenValue(m *seqMatch, k kindScenario, e *Ev, c0, p *Term) {
	st := m.st
	got := e.args[1]
	switch {
	case k.bits > 0:
		n := "Int"
		typ := types.Type(types.Typ[types.Int64])
		if k.kind >= reflect.Uint && k.kind <= reflect.Uint64 {
			n, typ = "Uint", types.Typ[types.Uint64]
		}
		want := mkConv(mkApp("v."+n, typ, c0), 64, n == "Int", k.bits)
		if got != want && !st.equal(got, want) {
			m.bad("%s is given %s, not the value", e.name, got)
		}
	case k.ops == "Bool":
		if want := mkApp("v.Bool", types.Typ[types.Bool], c0); got != want && st.eval(mkEq(got, want)) != yes {
			m.bad("%s is given %s, not the value", e.name, got)
		}
	case k.ops == "Double":
		if got != mkApp("v.Float", types.Typ[types.Float64], c0) {
			m.bad("%s is given %s, not the value", e.name, got)
		}
	case k.ops == "UUID":
		if !(got.op == OpApp && got.s == "arrptr" && got.args[0].op == OpApp && got.args[0].s == "arrbytes" && got.args[0].args[0] == p) {
			// a copy of the bytes is as good
			if x := t.in.load(st, got, types.NewArray(tByte, 16)); x.op == OpNil || !containsTerm(x, p) && !containsTerm(x, c0) {
				m.bad("%s is given %s, not the value", e.name, got)
			}
		}
	default:
		segs := t.in.contentOf(st, got)
		if len(segs) != 1 || segs[0].s != "sp" || !(segs[0].args[0] == mkApp("v.String", tString, c0) || segs[0].args[0].op == OpApp && segs[0].args[0].s == "v.Bytes" && segs[0].args[0].args[0] == c0) {
			m.bad("%s is given %s, not the value", e.name, got)
		}
	}
}

// pointsAt recognises a pointer to the array held by the value p.
func pointsAt(a, p *Term) bool {
	if a.op != OpApp {
		return false
	}
	switch {
	case a.s == "arrptr":
		x := a.args[0]
		return x.op == OpApp && x.s == "arrbytes" && x.args[0] == p
	case strings.HasPrefix(a.s, "as:*"):
		x := a.args[0]
		if x.op != OpApp || x.s != "ifaceof" || len(x.args) < 2 {
			return false
		}
		x = x.args[1]
		return x.op == OpApp && x.s == "addr" && x.args[0] == p
	}
	return false
}

// copied tells whether what was read to a at e is copied to the array held by p.
func (m *seqMatch) copied(e *Ev, a, p *Term) bool {
	after := false
	for _, x := range eventsSince(m.st.log, nil) {
		if x == e {
			after = true
		}
		if !after || x.kind != "copy" {
			continue
		}
		d, s := x.args[0], x.args[1]
		if d.op == OpApp && d.s == "arrbytes" && d.args[0] == p && s.op == OpSlice && s.args[0] == a && s.args[1] == mkI(0) && s.args[2] == mkI(16) {
			return true
		}
	}
	return false
}

func containsTerm(x, y *Term) bool { return occurs(x, y) }

func (t *tctx) readValue(m *seqMatch, k kindScenario, e *Ev, p *Term) {
	st := m.st
	if k.ops == "UUID" {
		a := e.args[1]
		if pointsAt(a, p) || m.copied(e, a, p) {
			return
		}
		if c := t.in.content(st, p); c.op == OpApp && c.s == "scalar" {
			return
		}
		m.bad("ReadUUID does not fill the value")
		return
	}
	if e.name == "ReadBytes" && st.eval(mkEq(lenTerm(st.norm(e.args[1])), mkI(0))) != yes {
		m.bad("ReadBytes is given bytes to append to")
		return
	}
	c := t.in.content(st, p)
	if c.op != OpApp || c.s != "scalar" {
		old := map[string]string{"ReadBool": "v.Bool", "ReadString": "v.String"}[e.name]
		if x := e.res[0]; old != "" && st.eval(mkEq(mkApp(old, x.typ, c), x)) == yes {
			return // it was there before
		}
		m.bad("what was read is not stored in the value")
		return
	}
	got, want := c.args[0], e.res[0]
	if k.bits > 0 {
		a, b := mkConv(got, 64, true, k.bits), want
		if a != b && !st.equal(a, b) {
			m.bad("%s is stored, not the value read", got)
		}
		return
	}
	if got == want {
		return
	}
	if k.wire == wString {
		x, y := t.in.contentOf(st, got), t.in.contentOf(st, want)
		if len(x) == len(y) {
			same := true
			for i := range x {
				same = same && x[i] == y[i]
			}
			if same {
				return
			}
		}
	}
	if k.ops == "Bool" && st.eval(mkEq(got, want)) == yes {
		return
	}
	m.bad("%s is stored, not the value read", got)
}
