package main

import (
	"go/token"
	"go/types"
	"reflect"
)

// Containers and pointers: the codec of the component type is opaque.

// iterate matches a run of rounds: the rounds of a loop, the round a failure
// ended, or none. body matches one round; it is given the number of the round.
// At the end of the rounds, their number is n.
func (m *seqMatch) iterate(n *Term, what string, body func(m *seqMatch, k *Term)) {
	if m.msg != "" || m.done {
		return
	}
	k := mkI(0)
	if m.i < len(m.evs) && m.evs[m.i].kind == "loop" {
		e := m.next()
		k = e.loop.K
		for _, it := range e.loop.iters {
			sub := &seqMatch{t: m.t, tc: m.tc, st: it, evs: tEvents(it.log, iterMark(e.loop, it))}
			body(sub, k)
			sub.end()
			if sub.msg == "" && sub.done {
				sub.bad("goes on after a failure")
			}
			if sub.msg != "" {
				m.bad("in a round of the loop: %s", sub.msg)
				return
			}
		}
	}
	for j := 0; j < 3; j++ {
		if m.i >= len(m.evs) || m.evs[m.i].kind != "inner" {
			break
		}
		body(m, k)
		if m.msg != "" || m.done {
			return
		}
		k = mkAdd(64, k, mkI(1))
	}
	if m.st.eval(mkEq(k, n)) != yes {
		m.bad("deals with %s %s where there are %s", m.st.norm(k), what, m.st.norm(n))
	}
}

// inPlaceOf says what the codec of a component has to work on: the place
// itself, or (if copies are fine) anything that holds its content.
func (m *seqMatch) elem(T, p, c *Term, copies bool) *Ev {
	e := m.component(T, nil, nil)
	if e == nil {
		return nil
	}
	if p != nil && (e.args[inPlace] == p || samePlace(m.st, e.args[inPlace], p)) {
		return e
	}
	if copies && c != nil && (e.args[inContent] == c || samePlace(m.st, e.args[inContent], c)) {
		return e
	}
	m.bad("the codec of %s works on %s, which holds %s, not on %s", T, e.args[inPlace], e.args[inContent], p)
	return nil
}

// decoded expects that the element k of the slice at p is decoded: in its
// place, or elsewhere and then stored or appended there.
func (m *seqMatch) decoded(T, p, k *Term) *Ev {
	e := m.component(T, nil, nil)
	if e == nil {
		return nil
	}
	ix := mkApp("ix", nil, p, k)
	if e.args[inPlace] == ix || samePlace(m.st, e.args[inPlace], ix) || m.done {
		return e
	}
	if rootOf(e.args[inPlace]) != rootOf(p) {
		if m.t.in.content(m.st, ix) == e.args[inDone] {
			return e
		}
		app, set := false, false
		for _, x := range eventsSince(m.st.log, e) {
			if x.kind == "inner" && app {
				break
			}
			if x.kind == "rappend" && x.args[0] == p && x.args[2] == e.args[inDone] && m.st.eval(mkEq(x.args[1], k)) == yes {
				app = true
			}
			if x.kind == "rset" && x.name == "Set" && x.args[0] == p {
				set = app
			}
		}
		if set {
			return e
		}
	}
	m.bad("the codec of %s works on %s, which holds %s, not on element %s", T, e.args[inPlace], e.args[inContent], k)
	return nil
}

type seqScenario struct {
	name string
	kind string // Set or List
	wire int64
	mk   func(t *tctx) *Term
}

func (t *tctx) generic(name string, arg types.Type) *Term {
	nt := t.c.ld.typ("thrift", name)
	x, err := types.Instantiate(nil, nt, []types.Type{arg}, false)
	if err != nil {
		t.in.fail("%s", err)
	}
	return mkRType(x)
}

var seqScenarios = []seqScenario{
	{"[]E", "List", wList, func(t *tctx) *Term { return mkRType(types.NewSlice(types.Typ[types.Int64])) }},
	{"thrift.List[E]", "List", wList, func(t *tctx) *Term { return t.generic("List", types.Typ[types.Int64]) }},
	{"thrift.List[byte]", "List", wList, func(t *tctx) *Term { return t.generic("List", types.Typ[types.Uint8]) }},
	{"thrift.Set[E]", "Set", wSet, func(t *tctx) *Term { return t.generic("Set", types.Typ[types.Int64]) }},
	{"thrift.Set[byte]", "Set", wSet, func(t *tctx) *Term { return t.generic("Set", types.Typ[types.Uint8]) }},
	{"[]int8", "List", wList, func(t *tctx) *Term { return mkRType(types.NewSlice(types.Typ[types.Int8])) }},
}

// compSym is a component type about which nothing is known.
func (t *tctx) compSym(st *State, name string) *Term {
	T := t.typeSym(st, name)
	return T
}

func (t *tctx) supported(st *State, w *Term) bool {
	return st.eval(mkEq(w, mkIntT(t.tyT, 0))) == no
}

// ownReason is the set of errors a container may raise by itself.
func (t *tctx) ownCheck(tc *tcall, o Out, comps ...*Term) bool {
	reason := t.overDepth(tc, o)
	if tc.enc {
		for _, w := range comps {
			if o.st.eval(mkEq(w, mkIntT(t.tyT, 0))) != no {
				reason = true // a component that cannot be sent
			}
		}
	}
	if !t.ownError(tc, o, reason, "the value can be sent or read") {
		return false
	}
	return t.noCalls(tc, o, catSeq, "an error is to be reported")
}

func (t *tctx) seqs(enc, dec bool) {
	for _, sc := range seqScenarios {
		sc := sc
		st := t.base.clone()
		T := sc.mk(t)
		E := t.compSym(st, "E")
		t.in.refl.elem[T] = E
		name := "codec of " + sc.name
		t.withCodec(name, st, T, func(st *State, cd codec) {
			if !t.wireIs(name, st, cd, sc.wire) {
				return
			}
			if enc {
				t.seqEnc(sc, st, T, E, cd)
			}
			if dec {
				t.seqDec(sc, st, T, E, cd)
			}
		})
	}
}

func (t *tctx) field(h *Term, typ, f string) *Term { return t.w.field(h, typ, f) }

func (t *tctx) seqEnc(sc seqScenario, st *State, T, E *Term, cd codec) {
	p := t.valuePlace()
	tc := t.call(st.clone(), cd.marshal, T, p, "Marshal of "+sc.name)
	n := mkApp("rlen", tInt, tc.c0)
	for _, o := range tc.outs {
		oc := t.outcome(tc, o)
		t.noChange(tc, o)
		if oc == ocBad {
			continue
		}
		if oc == ocOwn {
			t.ownCheck(tc, o, t.compWires(o.st, E)...)
			continue
		}
		t.depth(tc, o, true)
		m := t.match(tc, o)
		if e := m.call("Write" + sc.kind + "Begin"); e != nil {
			h := e.args[1]
			w, sz := t.field(h, sc.kind+"Header", "Element"), t.field(h, sc.kind+"Header", "Size")
			t.headerType(m, o.st, w, E, "Element")
			if o.st.eval(mkEq(sz, n)) != yes {
				m.bad("the header announces %s elements, not the length", sz)
			}
			if !m.done {
				m.iterate(n, "elements", func(m *seqMatch, k *Term) {
					m.elem(E, mkApp("ix", nil, p, k), mkApp("cix", nil, tc.c0, k), true)
				})
			}
			if m.msg == "" && !m.done {
				m.call("Write" + sc.kind + "End")
			}
		}
		m.verdict(o)
	}
}

// headerType checks a component type in a header that is written.
func (t *tctx) headerType(m *seqMatch, st *State, w, E *Term, what string) {
	if !isWireOf(st.norm(w), E) {
		m.bad("%s of the header is %s, not the wire type of the %s type", what, w, E)
		return
	}
	if !t.supported(st, w) {
		t.j.bad(catInvalid, m.tc.name, st, token.NoPos, "the header is written although the type of the %s cannot be sent", what)
		return
	}
	t.j.ok(catInvalid)
}

// compWires finds the wire types of opaque codecs a state knows about.
func (t *tctx) compWires(st *State, keys ...*Term) []*Term {
	var r []*Term
	for k := range st.dom.m {
		for _, E := range keys {
			if isWireOf(k, E) {
				r = append(r, k)
			}
		}
	}
	return r
}

func (t *tctx) seqDec(sc seqScenario, st *State, T, E *Term, cd codec) {
	p := t.valuePlace()
	tc := t.call(st.clone(), cd.unmarshal, T, p, "Unmarshal of "+sc.name)
	for _, o := range tc.outs {
		if !t.mismatch(tc, o, cd) {
			continue
		}
		oc := t.outcome(tc, o)
		if oc == ocBad {
			continue
		}
		if oc == ocOwn {
			t.ownCheck(tc, o)
			continue
		}
		t.depth(tc, o, true)
		t.made(tc, o)
		m := t.match(tc, o)
		if e := m.call("Read" + sc.kind + "Begin"); e != nil && !m.done {
			h := e.res[0]
			w, sz := t.field(h, sc.kind+"Header", "Element"), t.field(h, sc.kind+"Header", "Size")
			m.iterate(sz, "elements", func(m *seqMatch, k *Term) {
				if e := m.decoded(E, p, k); e != nil {
					if e.args[inWire] != w && m.st.eval(mkEq(e.args[inWire], w)) != yes {
						m.bad("the codec of the element is told the wire type %s, not the one of the header", e.args[inWire])
					}
					t.fresh(tc, m.st, e, E)
				}
			})
			if m.msg == "" && !m.done {
				if n := t.in.rlenOf(o.st, p); o.st.eval(mkEq(n, sz)) != yes {
					m.bad("the slice ends up with %s elements where the header announces %s", n, o.st.norm(sz))
				}
				m.call("Read" + sc.kind + "End")
			}
		}
		m.verdict(o)
	}
}

// fresh checks that a component is decoded into a zero value.
func (t *tctx) fresh(tc *tcall, st *State, e *Ev, E *Term) {
	c := e.args[inContent]
	if isZeroC(c) || e.args[inClean] == tTrue {
		t.j.ok(catStale)
		return
	}
	t.j.bad(catStale, tc.name, st, e.pos, "a value of type %s is decoded over %s", E, c)
}

// ---- maps

func (t *tctx) maps(enc, dec bool) {
	st := t.base.clone()
	K, V := t.compSym(st, "K"), t.compSym(st, "V")
	T := mkRType(types.NewMap(types.Typ[types.Int64], types.Typ[types.String]))
	t.in.refl.key[T], t.in.refl.elem[T] = K, V
	name := "codec of map[K]V"
	t.withCodec(name, st, T, func(st *State, cd codec) {
		if !t.wireIs(name, st, cd, wMap) {
			return
		}
		if enc {
			t.mapEnc(st, T, K, V, cd)
		}
		if dec {
			t.mapDec(st, T, K, V, cd)
		}
	})
}

func (t *tctx) mapEnc(st *State, T, K, V *Term, cd codec) {
	p := t.valuePlace()
	tc := t.call(st.clone(), cd.marshal, T, p, "Marshal of map[K]V")
	n := mkApp("rlen", tInt, tc.c0)
	for _, o := range tc.outs {
		oc := t.outcome(tc, o)
		t.noChange(tc, o)
		if oc == ocBad {
			continue
		}
		if oc == ocOwn {
			t.ownCheck(tc, o, t.compWires(o.st, K, V)...)
			continue
		}
		t.depth(tc, o, true)
		m := t.match(tc, o)
		if e := m.call("WriteMapBegin"); e != nil {
			h := e.args[1]
			t.headerType(m, o.st, t.field(h, "MapHeader", "Key"), K, "Key")
			t.headerType(m, o.st, t.field(h, "MapHeader", "Value"), V, "Value")
			if sz := t.field(h, "MapHeader", "Size"); o.st.eval(mkEq(sz, n)) != yes {
				m.bad("the header announces %s entries, not the length", sz)
			}
			if !m.done {
				m.iterate(n, "entries", func(m *seqMatch, k *Term) {
					kc := mkApp("rmapkey@", nil, tc.c0, k)
					vc := mkApp("rmapval@", nil, tc.c0, k)
					if m.elem(K, nil, kc, true) != nil && !m.done {
						m.elem(V, nil, vc, true)
					}
				})
			}
			if m.msg == "" && !m.done {
				m.call("WriteMapEnd")
			}
		}
		m.verdict(o)
	}
}

func (t *tctx) mapDec(st *State, T, K, V *Term, cd codec) {
	p := t.valuePlace()
	tc := t.call(st.clone(), cd.unmarshal, T, p, "Unmarshal of map[K]V")
	for _, o := range tc.outs {
		if !t.mismatch(tc, o, cd) {
			continue
		}
		oc := t.outcome(tc, o)
		if oc == ocBad {
			continue
		}
		if oc == ocOwn {
			t.ownCheck(tc, o)
			continue
		}
		t.depth(tc, o, true)
		t.made(tc, o)
		m := t.match(tc, o)
		if e := m.call("ReadMapBegin"); e != nil && !m.done {
			h := e.res[0]
			kw, vw, sz := t.field(h, "MapHeader", "Key"), t.field(h, "MapHeader", "Value"), t.field(h, "MapHeader", "Size")
			m.iterate(sz, "entries", func(m *seqMatch, k *Term) {
				t.mapEntry(tc, m, K, V, kw, vw)
			})
			if m.msg == "" && !m.done {
				m.call("ReadMapEnd")
			}
			if c := t.in.content(o.st, p); c != tc.c0 && o.st.eval(t.in.isNilC(tc.c0)) != yes {
				m.bad("the map the value holds already is replaced")
			}
			eachEvent(o.st, tc.mark, func(s *State, e *Ev) {
				if e.kind == "rset" && e.name == "SetMapIndex" && e.args[3] == tNil || e.kind == "rset" && e.name == "Clear" {
					m.bad("entries are removed from the map")
				}
			})
		}
		m.verdict(o)
	}
}

// mapEntry matches the decoding of one entry, and what is stored.
func (t *tctx) mapEntry(tc *tcall, m *seqMatch, K, V, kw, vw *Term) {
	ke := m.component(K, nil, nil)
	if ke == nil {
		return
	}
	if ke.args[inWire] != kw && m.st.eval(mkEq(ke.args[inWire], kw)) != yes {
		m.bad("the codec of the key is told the wire type %s, not the one of the header", ke.args[inWire])
		return
	}
	t.fresh(tc, m.st, ke, K)
	if m.done {
		return
	}
	ve := m.component(V, nil, nil)
	if ve == nil {
		return
	}
	if ve.args[inWire] != vw && m.st.eval(mkEq(ve.args[inWire], vw)) != yes {
		m.bad("the codec of the value is told the wire type %s, not the one of the header", ve.args[inWire])
		return
	}
	if rootOf(ke.args[inPlace]) == rootOf(ve.args[inPlace]) {
		m.bad("key and value are decoded into the same place")
		return
	}
	// the value merges into the entry of the same key, or starts from zero
	c := ve.args[inContent]
	if isZeroC(c) || ve.args[inClean] == tTrue || c.op == OpApp && c.s == "rmapval" && m.isEntry(c, ke, tc) {
		t.j.ok(catStale)
	} else {
		t.j.bad(catStale, tc.name, m.st, ve.pos, "the value of an entry is decoded over %s", c)
	}
	if m.done {
		return
	}
	// stored under the key that was decoded
	var put *Ev
	for e := m.st.log; e != nil && e != ve; e = e.prev {
		if e.kind == "rset" && e.name == "SetMapIndex" {
			put = e
		}
	}
	switch {
	case put == nil:
		m.bad("the entry is not stored in the map")
	case put.args[2] != t.decodedBy(m.st, ke):
		m.bad("the entry is stored under another key than the one decoded")
	case put.args[3] != t.decodedBy(m.st, ve):
		m.bad("the value stored is not the one decoded")
	default:
		// the map is the caller's, or a new one put in its place
		if p := put.args[0]; rootOf(p) != rootOf(tc.place) {
			if c := t.in.content(m.st, tc.place); c != t.in.content(m.st, p) {
				m.bad("the entry is stored in another map")
			}
		}
	}
}

// isEntry tells whether c is the entry the map had for the key decoded at ke.
func (m *seqMatch) isEntry(c *Term, ke *Ev, tc *tcall) bool {
	return c.args[1] == m.t.decodedBy(m.st, ke)
}

// decodedBy is the content a decoding call left in its place.
func (t *tctx) decodedBy(st *State, e *Ev) *Term { return e.args[inDone] }

// ---- pointers

func (t *tctx) pointers(enc, dec bool) {
	for _, two := range []bool{false, true} {
		st := t.base.clone()
		E := t.typeSym(st, "E", nonPointerKinds...)
		T := mkNamed("type:P", t.in.refl.rtype)
		name := "*E"
		if two {
			Q := mkNamed("type:Q", t.in.refl.rtype)
			t.setKind(st, Q, reflect.Pointer)
			t.in.refl.elem[Q] = E
			E = Q
			name = "**E"
		}
		t.setKind(st, T, reflect.Pointer)
		t.in.refl.elem[T] = E
		t.distinct(st, T, E, t.in.refl.elem[E])
		t.withCodec("codec of "+name, st, T, func(st *State, cd codec) {
			if !isWireOf(st.norm(cd.wire), E) {
				t.j.bad(catMapping, "codec of "+name, st, token.NoPos, "has the wire type %s, not the one of the element", cd.wire)
				return
			}
			t.j.ok(catMapping)
			p := t.valuePlace()
			if enc {
				tc := t.call(st.clone(), cd.marshal, T, p, "Marshal of "+name)
				for _, o := range tc.outs {
					oc := t.outcome(tc, o)
					t.noChange(tc, o)
					if oc == ocBad {
						continue
					}
					if oc == ocOwn {
						t.ownCheck(tc, o, t.compWires(o.st, E)...)
						continue
					}
					t.depth(tc, o, false)
					m := t.match(tc, o)
					if e := m.component(E, nil, nil); e != nil {
						c := e.args[inContent]
						switch o.st.eval(t.in.isNilC(tc.c0)) {
						case yes:
							if !isZeroC(c) {
								m.bad("a nil pointer is not sent as the zero value but as %s", c)
							}
						case no:
							if c != mkApp("at", nil, tc.c0) {
								m.bad("what is sent is %s, not what the pointer points to", c)
							}
						default:
							m.bad("a nil pointer is not told from others")
						}
					}
					m.verdict(o)
				}
			}
			if dec {
				tc := t.call(st.clone(), cd.unmarshal, T, p, "Unmarshal of "+name)
				for _, o := range tc.outs {
					oc := t.outcome(tc, o)
					if oc == ocBad {
						continue
					}
					if oc == ocOwn {
						// the pointer may refuse what its element would refuse
						if o.st.eval(mkEq(tc.wt, cd.wire)) != yes {
							t.noCalls(tc, o, catMismatch, "an error is to be reported")
							continue
						}
						t.ownCheck(tc, o)
						continue
					}
					t.depth(tc, o, false)
					m := t.match(tc, o)
					if e := m.component(E, nil, nil); e != nil {
						if e.args[inWire] != tc.wt && o.st.eval(mkEq(e.args[inWire], tc.wt)) != yes {
							m.bad("the codec of the element is told the wire type %s, not the one met", e.args[inWire])
						}
						pl := e.args[inPlace]
						switch o.st.eval(t.in.isNilC(tc.c0)) {
						case yes:
							// a new value, which the pointer points to
							c := t.in.content(o.st, p)
							if oc == ocOK && !(c.op == OpApp && c.s == "new" && pl == mkApp("deref", nil, c)) && !(c.op == OpApp && c.s == "addr" && pl == c.args[0]) {
								m.bad("the pointer ends up as %s, while the value was read into %s", c, pl)
							}
							t.fresh(tc, o.st, e, E)
						case no:
							if pl != mkApp("deref", nil, tc.c0) {
								m.bad("the value is read into %s, not into what the pointer points to", pl)
							}
							if c := t.in.content(o.st, p); c != tc.c0 {
								m.bad("the pointer is changed")
							}
						default:
							m.bad("a nil pointer is not told from others")
						}
					}
					m.verdict(o)
				}
			}
		})
	}
}

var nonPointerKinds = func() []reflect.Kind {
	var r []reflect.Kind
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		if k != reflect.Pointer {
			r = append(r, k)
		}
	}
	return r
}()

func (t *tctx) setKind(st *State, T *Term, k reflect.Kind) {
	st.dom.set(t.in.kindOf(st, T), Dom{{int64(k), int64(k)}})
	st.facts.set(mkEq(T, tNil), false)
}

// distinct makes type symbols stand for different types.
func (t *tctx) distinct(st *State, ts ...*Term) {
	for i, a := range ts {
		for _, b := range ts[:i] {
			if a != nil && b != nil && a != b {
				st.facts.set(mkEq(a, b), false)
			}
		}
	}
}
