package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Structs: the field IDs are symbolic, the codecs of the fields opaque.

type fieldScn struct {
	name     string
	tag      string // "#" stands for a symbolic field ID
	noTag    bool
	hidden   bool
	skip     bool // takes no part
	required bool
	method   string // IsZero of "value", "pointer" type, or of a value type that is a pointer: "ptr"
}

type structScn struct {
	name   string
	fields []fieldScn
	bad    bool // refused whatever the IDs
	rules  bool // only about the rules for tags
}

// theField is a field that takes part, in one run.
type theField struct {
	fieldScn
	i   int
	id  *Term // number denoted by the tag
	typ *Term
}

func (t *tctx) structType(st *State, sc structScn) (T *Term, fs []theField) {
	T = t.typeSym(st, "S:"+sc.name, reflect.Struct)
	t.in.refl.methods[T] = nil
	var specs []fieldSpec
	ts := []*Term{T}
	for i, f := range sc.fields {
		E := mkNamed(fmt.Sprintf("type:%s.%s", sc.name, f.name), t.in.refl.rtype)
		if f.method == "ptr" {
			t.setKind(st, E, reflect.Pointer)
		} else {
			var d Dom
			for _, k := range nonPointerKinds {
				if k != reflect.Interface {
					d = append(d, iv{int64(k), int64(k)})
				}
			}
			st.dom.set(t.in.kindOf(st, E), sortDom(d))
			st.facts.set(mkEq(E, tNil), false)
		}
		t.in.refl.methods[E] = nil
		t.in.refl.methods[t.in.ptrTo(E)] = nil
		switch f.method {
		case "ptr":
			t.in.refl.methods[E] = []string{"IsZero"}
		case "value":
			t.in.refl.methods[E] = []string{"IsZero"}
			t.in.refl.methods[t.in.ptrTo(E)] = []string{"IsZero"}
		case "pointer":
			t.in.refl.methods[t.in.ptrTo(E)] = []string{"IsZero"}
		}
		ts = append(ts, E)
		sp := fieldSpec{name: f.name, hidden: f.hidden, tagged: !f.noTag, typ: E}
		f.required = strings.HasSuffix(f.tag, ",required")
		x := theField{fieldScn: f, i: i, typ: E}
		if strings.HasPrefix(f.tag, "#") {
			// equal names are equal IDs
			name, opts := f.name, f.tag[1:]
			dg := mkDigits(sc.name + "." + name)
			x.id = digitsNum(dg)
			sp.tag = mkStrOf(mkSeq(mkApp("sp", nil, dg), mkApp("sp", nil, mkStr(opts))))
			ln := lenTerm(dg)
			st.narrow(ln, iv{1, 1 << 20})
		} else {
			sp.tag = mkStr(f.tag)
			var n int64
			if _, err := fmt.Sscanf(f.tag, "%d", &n); err == nil {
				x.id = mkI(n)
			}
		}
		specs = append(specs, sp)
		if !f.skip {
			fs = append(fs, x)
		}
	}
	t.distinct(st, ts...)
	t.in.refl.structs[T] = specs
	return T, fs
}

// fieldOrder sorts the fields by ID, as far as a path knows it.
func (t *tctx) fieldOrder(st *State, fs []theField) (r []theField, ok bool) {
	r = append(r, fs...)
	ok = true
	sort.SliceStable(r, func(i, j int) bool {
		switch st.eval(mkLt(r[i].id, r[j].id, true)) {
		case yes:
			return true
		case no:
			return false
		}
		ok = false
		return false
	})
	return r, ok
}

// idTrouble tells whether field IDs are out of range, or one is used twice;
// feasible is false if what a path knows of their order contradicts itself.
func (t *tctx) idTrouble(st *State, fs []theField) (r tri, feasible bool) {
	r = no
	// less is the strict order of the IDs, closed over chains of them
	less := make([][]bool, len(fs))
	for i, f := range fs {
		less[i] = make([]bool, len(fs))
		for j, g := range fs {
			less[i][j] = i != j && (st.eval(mkLt(f.id, g.id, true)) == yes ||
				st.eval(mkLt(g.id, f.id, true)) == no && st.eval(mkEq(f.id, g.id)) == no)
		}
	}
	for k := range fs {
		for i := range fs {
			for j := range fs {
				less[i][j] = less[i][j] || less[i][k] && less[k][j]
			}
		}
	}
	for i, f := range fs {
		if less[i][i] {
			return unknown, false
		}
		lo, hi := st.rng(f.id, true)
		switch {
		case lo > 32767 || hi < -32768:
			r = yes
		case r == no && (lo < -32768 || hi > 32767):
			r = unknown
		}
		for j, g := range fs[:i] {
			ordered := less[i][j] || less[j][i]
			switch st.eval(mkEq(f.id, g.id)) {
			case yes:
				if ordered {
					return unknown, false
				}
				r = yes
			case unknown:
				if !ordered && r == no {
					r = unknown
				}
			}
		}
	}
	return r, true
}

// mayBeRefused reports whether the IDs may be wrong.
func (t *tctx) mayBeRefused(st *State, fs []theField) bool {
	r, _ := t.idTrouble(st, fs)
	return r != no
}

// refused checks an error raised because of the fields of a struct.
func (t *tctx) refused(tc *tcall, o Out) {
	if t.noCalls(tc, o, catTag, "the struct type is not valid") && t.noSets(tc, o, catTag, "the struct type is not valid") && t.semantic(tc, o, tc.T) {
		t.j.ok(catTag)
	}
}

// zero is the condition that a field counts as zero; nil: it is not known.
func (t *tctx) isZero(st *State, f theField, p, c0 *Term) tri {
	c := mkApp("cfld", nil, c0, mkI(int64(f.i)))
	fp := mkApp("fld", nil, p, mkI(int64(f.i)))
	called := func(recv *Term) tri { return st.eval(mkApp("IsZero()", types.Typ[types.Bool], recv)) }
	switch f.method {
	case "value":
		if r := called(mkApp("ifaceof", t.in.refl.anyT, f.typ, c)); r != unknown {
			return r
		}
		fallthrough // the method of the pointer calls that of the value
	case "pointer":
		return called(mkApp("ifaceof", t.in.refl.anyT, t.in.ptrTo(f.typ), mkApp("addr", nil, fp)))
	case "ptr":
		if st.eval(t.in.isNilC(c)) == yes {
			return yes
		}
		return called(mkApp("ifaceof", t.in.refl.anyT, f.typ, c))
	}
	return st.eval(mkApp("iszero", types.Typ[types.Bool], c))
}

var structScns = []structScn{
	{name: "struct{}"},
	{name: "one", fields: []fieldScn{{name: "A", tag: "#"}}},
	{name: "required", fields: []fieldScn{{name: "A", tag: "#,required"}}},
	{name: "option", fields: []fieldScn{{name: "A", tag: "#,other"}}},
	{name: "zeroer", fields: []fieldScn{{name: "A", tag: "#", method: "value"}}},
	{name: "ptrzeroer", fields: []fieldScn{{name: "A", tag: "#", method: "pointer"}}},
	{name: "zeroerptr", fields: []fieldScn{{name: "A", tag: "#", method: "ptr"}}},
	{name: "requiredzeroer", fields: []fieldScn{{name: "A", tag: "#,required", method: "value"}}},
	{name: "requiredptr", fields: []fieldScn{{name: "A", tag: "#,required", method: "ptr"}}},
	{name: "mixed", fields: []fieldScn{{name: "A", tag: "#", method: "value"}, {name: "B", tag: "#"}, {name: "C", tag: "#,required", method: "pointer"}}},
	{name: "two", fields: []fieldScn{{name: "A", tag: "#"}, {name: "B", tag: "#,required"}}},
	{name: "ignored", fields: []fieldScn{{name: "X", tag: "-", skip: true}, {name: "A", tag: "#"}, {name: "y", hidden: true, noTag: true, skip: true}, {name: "z", hidden: true, tag: "-", skip: true}, {name: "B", tag: "#"}}},
	{name: "three", fields: []fieldScn{{name: "A", tag: "#,required"}, {name: "B", tag: "#,required"}, {name: "C", tag: "#,required"}}},
	{name: "allignored", fields: []fieldScn{{name: "X", tag: "-", skip: true}}},
	{name: "literal", fields: []fieldScn{{name: "A", tag: "32767"}, {name: "B", tag: "-32768,required"}, {name: "C", tag: "0"}, {name: "D", tag: "7"}}},
	{name: "many", fields: []fieldScn{{name: "A", tag: "12,required"}, {name: "B", tag: "-1,required"}, {name: "C", tag: "300,required"}, {name: "D", tag: "299"}, {name: "E", tag: "1,required"},
		{name: "F", tag: "256,required"}, {name: "G", tag: "-300,required"}, {name: "H", tag: "13,required"}, {name: "I", tag: "11,required"}, {name: "J", tag: "128,required"}, {name: strings.Repeat("K", 300), tag: "2,required"}}},
}

func (t *tctx) structs(scns []structScn, enc, dec bool) {
	for _, sc := range scns {
		sc := sc
		st := t.base.clone()
		T, fs := t.structType(st, sc)
		name := "codec of the struct " + sc.name
		t.withCodec(name, st, T, func(st *State, cd codec) {
			if !t.wireIs(name, st, cd, wStruct) {
				return
			}
			if enc {
				t.structEnc(sc, st, T, fs, cd)
			}
			if dec {
				t.structDec(sc, st, T, fs, cd)
			}
		})
	}
}

// valid reports whether the IDs of a path are fine; if not (or if they are
// not known to be) the path has to end in a refusal.
func (t *tctx) valid(tc *tcall, o Out, sc structScn, fs []theField) bool {
	tr := yes
	if !sc.bad {
		var feasible bool
		if tr, feasible = t.idTrouble(o.st, fs); !feasible {
			return false
		}
	}
	if tr == no {
		return true
	}
	if !t.j.sane(o, tc.name, tc.mark) {
		return false
	}
	switch o.st.eval(mkEq(o.val, tNil)) {
	case no:
		if tr == yes {
			t.refused(tc, o)
			return false
		}
		// an error of another cause, seen before the IDs were looked at
		return true
	case yes:
		if tr == yes {
			t.j.bad(catTag, tc.name, o.st, o.pos, "a struct type with bad field tags or IDs is accepted")
		} else {
			t.j.bad(catTag, tc.name, o.st, o.pos, "field IDs are not checked for range and repetition")
		}
		return false
	}
	return true
}

func (t *tctx) structEnc(sc structScn, st *State, T *Term, fs []theField, cd codec) {
	p := t.valuePlace()
	tc := t.call(st.clone(), cd.marshal, T, p, "Marshal of the struct "+sc.name)
	var comps []*Term
	for _, f := range fs {
		comps = append(comps, f.typ)
	}
	for _, o := range tc.outs {
		if !t.valid(tc, o, sc, fs) {
			continue
		}
		oc := t.outcome(tc, o)
		t.noChange(tc, o)
		if oc == ocBad {
			continue
		}
		if oc == ocOwn {
			reason := t.overDepth(tc, o)
			for _, w := range t.compWires(o.st, comps...) {
				if o.st.eval(mkEq(w, mkIntT(t.tyT, 0))) != no {
					reason = true // a field that cannot be sent
				}
			}
			if !reason {
				t.j.bad(catSpurious, tc.name, o.st, o.pos, "reports an error although the struct can be sent")
			} else if t.semantic(tc, o, nil) {
				t.j.ok(catSpurious)
			}
			continue
		}
		t.depth(tc, o, true)
		order, known := t.fieldOrder(o.st, fs)
		if !known {
			t.j.bad(catUndecided, tc.name, o.st, o.pos, "the order of the fields is open")
			continue
		}
		m := t.match(tc, o)
		if e := m.call("WriteStructBegin"); e != nil {
			if n := t.field(e.args[1], "StructHeader", "Name"); n != mkApp("t.Name", tString, T) {
				m.bad("the header names the struct %s", n)
			}
		}
		for _, f := range order {
			if m.msg != "" || m.done {
				break
			}
			t.fieldEnc(m, o, f, p, tc.c0)
		}
		if m.msg == "" && !m.done {
			m.call("WriteStructEnd")
		}
		m.verdict(o)
	}
}

func (t *tctx) fieldEnc(m *seqMatch, o Out, f theField, p, c0 *Term) {
	st := o.st
	z := no
	if !f.required {
		z = t.isZero(st, f, p, c0)
	}
	// does the next call begin this field?
	begins := m.i < len(m.evs) && m.evs[m.i].name == "WriteFieldBegin" && m.evs[m.i].kind == "invoke" &&
		st.eval(mkEq(t.field(m.evs[m.i].args[1], "FieldHeader", "ID"), mkConv(f.id, 64, true, 16))) == yes
	switch {
	case z == yes && begins:
		m.bad("field %s is sent although it is zero and not required", f.name)
		return
	case z == yes:
		return
	case z == unknown && !begins:
		m.bad("field %s is left out although it is not known to be zero", f.name)
		return
	case z == no && !begins:
		if m.i < len(m.evs) {
			m.bad("%s is called where field %s belongs", describe(m.evs[m.i]), f.name)
		} else {
			m.bad("field %s is not sent", f.name)
		}
		return
	case z == unknown:
		m.bad("field %s is sent without a test whether it is zero", f.name)
		return
	}
	e := m.call("WriteFieldBegin")
	h := e.args[1]
	t.headerType(m, st, t.field(h, "FieldHeader", "Type"), f.typ, "Type")
	if n := t.field(h, "FieldHeader", "Name"); n != mkStr(f.name) {
		m.bad("the header names field %s %s", f.name, n)
	}
	if m.msg != "" || m.done {
		return
	}
	i := mkI(int64(f.i))
	if m.elem(f.typ, mkApp("fld", nil, p, i), mkApp("cfld", nil, c0, i), true) == nil || m.done {
		return
	}
	m.call("WriteFieldEnd")
}

func (t *tctx) structDec(sc structScn, st *State, T *Term, fs []theField, cd codec) {
	p := t.valuePlace()
	tc := t.call(st.clone(), cd.unmarshal, T, p, "Unmarshal of the struct "+sc.name)
	for _, o := range tc.outs {
		if t.j.sane(o, tc.name, tc.mark) && o.st.eval(mkEq(tc.wt, cd.wire)) != yes && o.st.eval(mkEq(o.val, tNil)) == no && (sc.bad || t.mayBeRefused(o.st, fs)) {
			t.refused(tc, o) // bad tags may be reported first
			continue
		}
		if sc.bad {
			t.valid(tc, o, sc, fs)
			continue
		}
		if !t.mismatch(tc, o, cd) || !t.valid(tc, o, sc, fs) {
			continue
		}
		oc := t.outcome(tc, o)
		if oc == ocBad {
			continue
		}
		if oc == ocOwn {
			t.ownCheck(tc, o)
			continue
		}
		t.depth(tc, o, true)
		t.made(tc, o)
		m := t.match(tc, o)
		e := m.call("ReadStructBegin")
		if e == nil || m.done {
			m.verdict(o)
			continue
		}
		if m.i < len(m.evs) && m.evs[m.i].kind == "loop" {
			e := m.next()
			for _, it := range e.loop.iters {
				sub := &seqMatch{t: t, tc: tc, st: it, evs: tEvents(it.log, iterMark(e.loop, it))}
				if t.fieldDec(sub, fs, p) {
					sub.bad("goes on after the stop field")
				}
				sub.end()
				if sub.msg == "" && sub.done {
					sub.bad("goes on after a failure")
				}
				if sub.msg != "" {
					m.bad("in a round of the loop: %s", sub.msg)
				}
			}
		}
		eachEvent(o.st, tc.mark, func(s *State, e *Ev) {
			if e.kind != "rset" || m.msg != "" {
				return
			}
			if x := e.args[0]; x == p || x.op == OpApp && x.s == "fld" && x.args[0] == p {
				m.bad("%s changes the struct or a field apart from decoding it", e.name)
			}
		})
		stopped := false
		for n := 0; n < 4 && m.msg == "" && !m.done && !stopped; n++ {
			stopped = t.fieldDec(m, fs, p)
		}
		if m.msg == "" && !m.done {
			if !stopped {
				m.bad("the struct ends before its stop field")
			} else {
				m.call("ReadStructEnd")
			}
		}
		m.verdict(o)
	}
}

// fieldDec matches the reading of one field; true if it is the stop field.
func (t *tctx) fieldDec(m *seqMatch, fs []theField, p *Term) (stop bool) {
	e := m.call("ReadFieldBegin")
	if e == nil || m.done {
		return false
	}
	st := m.st
	typ, id := t.field(e.res[0], "FieldHeader", "Type"), t.field(e.res[0], "FieldHeader", "ID")
	switch st.eval(mkEq(typ, mkIntT(t.tyT, wStop))) {
	case yes:
		return true
	case unknown:
		m.bad("the stop field is not told from others")
		return false
	}
	if m.i >= len(m.evs) {
		m.bad("a field is neither read nor skipped")
		return false
	}
	var own *theField
	open := false
	for i := range fs {
		switch st.eval(mkEq(id, mkConv(fs[i].id, 64, true, 16))) {
		case yes:
			own = &fs[i]
		case unknown:
			open = true
		}
	}
	switch {
	case own != nil:
		x := m.elem(own.typ, mkApp("fld", nil, p, mkI(int64(own.i))), nil, false)
		if x == nil {
			return false
		}
		if x.args[inWire] != typ && st.eval(mkEq(x.args[inWire], typ)) != yes {
			m.bad("the codec of field %s is told the wire type %s, not the one of the header", own.name, x.args[inWire])
		}
	case open:
		m.bad("%s is called before the ID of the field is known", describe(m.evs[m.i]))
		return false
	default:
		x := m.next()
		if x.kind != "invoke" || x.name != "Skip" {
			m.bad("%s is called where an unknown field is to be skipped", describe(x))
			return false
		}
		hasR, hasT := false, false
		for _, a := range x.args {
			hasR = hasR || a == t.rs
			hasT = hasT || a == typ || isIntTerm(a) && a.width() == 8 && st.eval(mkEq(a, typ)) == yes
		}
		if !hasR || !hasT {
			m.bad("an unknown field is not skipped by its own type")
			return false
		}
		m.done = x.fail
	}
	if m.msg == "" && !m.done {
		m.call("ReadFieldEnd")
	}
	return false
}

// tagScns are the cases of the rules for tags; every tag is one a user may
// write.
var tagScns = func() []structScn {
	one := func(tag string, bad bool) structScn {
		return structScn{name: "with the tag " + tag, fields: []fieldScn{{name: "A", tag: tag}}, bad: bad}
	}
	var r []structScn
	for _, s := range []string{"", "x", "1.5", "32768", "-32769", "99999", "0x10", "1_0", " 1", "1 ", "#,", "#,,required", "#,required,required", "#,other,other", "#,Required", "#,REQUIRED", "#,re_quired", "#,required_", "#,!x", "#,'x'", "#, required", "#,required ", "#,1", "required", ",required", "#;required", "--", "-,", "-1-", "65537", "4294967297"} {
		r = append(r, one(s, true))
	}
	for _, s := range []string{"#", "1", "0", "-1", "32767", "-32768", "#,required", "#,other", "#,other,required", "#,x_y2,required", "#,_,required"} {
		r = append(r, one(s, false))
	}
	two := func(a, b string, bad bool) structScn {
		return structScn{name: "with the tags " + a + " and " + b, fields: []fieldScn{{name: "A", tag: a}, {name: "B", tag: b}}, bad: bad}
	}
	r = append(r, two("1", "1", true), two("1", "2", false), two("1", "01", true), two("-1", "1", false), two("7,required", "7", true), two("-", "1", false), two("#", "", true), two("", "#", true), two("#,required", "#,Required", true))
	r[len(r)-4].fields[0].skip = true
	r = append(r,
		structScn{name: "with an exported field that has no tag", fields: []fieldScn{{name: "A", noTag: true}}, bad: true},
		structScn{name: "with a later field that has no tag", fields: []fieldScn{{name: "A", tag: "#"}, {name: "B", noTag: true}}, bad: true},
		structScn{name: "with a tag on an unexported field", fields: []fieldScn{{name: "A", tag: "#"}, {name: "b", hidden: true, tag: "5"}}, bad: true},
		structScn{name: "with an empty tag on an unexported field", fields: []fieldScn{{name: "b", hidden: true, tag: ""}, {name: "A", tag: "#"}}, bad: true},
		structScn{name: "with unexported fields beside", fields: []fieldScn{{name: "b", hidden: true, noTag: true, skip: true}, {name: "A", tag: "#"}, {name: "c", hidden: true, tag: "-", skip: true}}},
		structScn{name: "with unexported fields only", fields: []fieldScn{{name: "b", hidden: true, noTag: true}}, bad: true},
		structScn{name: "struct{}"},
		structScn{name: "two", fields: []fieldScn{{name: "A", tag: "#"}, {name: "B", tag: "#"}}},
		structScn{name: "three", fields: []fieldScn{{name: "A", tag: "#"}, {name: "X", tag: "-", skip: true}, {name: "B", tag: "#"}, {name: "C", tag: "#"}}},
		structScn{name: "equal far apart", fields: []fieldScn{{name: "A", tag: "3"}, {name: "B", tag: "2"}, {name: "C", tag: "1"}, {name: "D", tag: "3"}}, bad: true},
		structScn{name: "equal first and last", fields: []fieldScn{{name: "A", tag: "-5"}, {name: "B", tag: "0"}, {name: "C", tag: "-5,required"}}, bad: true},
	)
	return r
}()

// everything runs all value scenarios.
func (t *tctx) everything(enc, dec bool) {
	t.scalars(enc, dec)
	t.seqs(enc, dec)
	t.maps(enc, dec)
	t.pointers(enc, dec)
	t.structs(structScns, enc, dec)
	t.c.cover(t.in)
}

func init() {
	reg := func(id string, min int, rule string, cats []cat, run func(t *tctx)) {
		register(id, min, rule, func(c *Ctx) {
			t := newTctx(c, newJudge(c, cats...))
			run(t)
			c.cover(t.in)
		})
	}
	seq := []cat{catMapping, catSeq, catSpurious}
	reg("T01", 12, "every scalar Go type has its wire type and is written by the one matching call with its value", seq, func(t *tctx) { t.scalars(true, false) })
	reg("T02", 12, "every scalar Go type is read by the one matching call, and what was read is what the value holds after", seq, func(t *tctx) { t.scalars(false, true) })
	reg("T03", 26, "a wire type other than that of the Go type is refused before anything is read or changed", []cat{catMismatch}, func(t *tctx) { t.everything(false, true) })
	reg("T04", 19, "a list, set or map is written as its header, its elements in order and its end; a pointer as what it points to", seq, func(t *tctx) { t.seqs(true, false); t.maps(true, false); t.pointers(true, false) })
	reg("T05", 47, "a list, set or map is read as its header announces, and ends up holding what was read; a pointer ends up pointing to it", seq, func(t *tctx) { t.seqs(false, true); t.maps(false, true); t.pointers(false, true) })
	reg("T06", 259, "a struct is written as its fields in the order of their IDs, each with its header, zero ones left out unless required", seq, func(t *tctx) { t.structs(structScns, true, false) })
	reg("T07", 221, "a struct is read field by field up to the stop field: each into the Go field of its ID, others skipped", seq, func(t *tctx) { t.structs(structScns, false, true) })
	reg("T08", 80, "a struct type is refused, before anything is read or written, exactly if its tags break the rules", []cat{catTag, catSpurious}, func(t *tctx) { t.structs(tagScns, true, true) })
	reg("T09", 127, "what is decoded into is zero, the entry of the same key, or what a pointer points to", []cat{catStale}, func(t *tctx) { t.seqs(false, true); t.maps(false, true); t.pointers(false, true) })
	reg("T10", 1106, "a failed call ends the work and comes out as the error, within a *SemanticError that names the Go type and direction", []cat{catSwallow, catErrKind}, func(t *tctx) { t.everything(true, true) })
	reg("T11", 265, "Marshal changes nothing that belongs to the value", []cat{catMutate}, func(t *tctx) { t.everything(true, false) })
	reg("T12", 164, "what goroutines share changes only within Once.Do, under a lock, or before it is published", []cat{catShare}, func(t *tctx) { t.sharing() })
	reg("T13", 490, "codecs of recursive types are finished, and nesting of values is bounded", []cat{catDepth, catEndless}, func(t *tctx) {
		t.recursion()
		t.arguments()
		t.seqs(true, true)
		t.maps(true, true)
		t.pointers(true, true)
		t.structs(structScns, true, true)
	})
	reg("T14", 22, "invalid arguments and types without Thrift counterpart give a *SemanticError, and nothing is read or written; valid arguments are handed to the codec of their type", []cat{catInvalid, catPanic, catSeq, catSpurious}, func(t *tctx) { t.arguments() })
	reg("T15", 240, "no room is made for elements by the size a header announces", []cat{catAlloc}, func(t *tctx) { t.seqs(false, true); t.maps(false, true); t.structs(structScns, false, true) })
}
