package main

import (
	"go/token"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

const (
	catResult cat = "result"
	catOrder  cat = "order"
)

// sorters sort their first argument; the others of them compare with their
// second one.
var sorters = map[string]string{"sort.Sort": "less", "sort.Stable": "less", "sort.Slice": "index", "sort.SliceStable": "index",
	"slices.SortFunc": "cmp", "slices.SortStableFunc": "cmp"}

// parse analyses the result of Parse.
func (p *pctx) parse(cats ...cat) {
	w := p.newScan()
	step, scan := p.stepFn(w), p.scanFn()
	fn := p.c.ld.fn(tfPkg, "Parse")
	fileP := p.c.ld.typ(tfPkg, "File")
	inner := false
	p.in.fnHook = func(in *Interp, st *State, f *ssa.Function, cc *callCtx) ([]Out, bool) {
		unit := []Out{{st: st, val: tUnit, pos: cc.pos}}
		switch {
		case f == step || f == scan:
			p.pobj = p.objOf(cc.args[0])
			st.event("scan", "", cc.pos, []*Term{p.get(st, p.file), p.get(st, p.src), p.get(st, p.errFn)})
			p.freshChar(w, st)
			if f == scan {
				p.fresh(st)
			}
			// errors may be reported
			p.set(st, p.errs, p.freshErrs(in, st))
			return unit, true
		case cc.name == "(*go/token.FileSet).AddFile":
			v := mkApp("file", p.file.typ, cc.args...)
			st.facts.set(mkEq(v, tNil), false)
			st.event("file", "", cc.pos, append(slices.Clone(cc.args), v))
			return one(st, cc, v), true
		case sorters[cc.name] != "":
			st.event("sort", cc.name, cc.pos, cc.args)
			return unit, true
		}
		if r := f.Signature.Results(); !inner && f.Pkg == p.pkg && f.Signature.Recv() != nil && r.Len() == 1 && types.Identical(r.At(0).Type(), types.NewPointer(fileP)) {
			p.pobj = p.objOf(cc.args[0])
			v := mkSym("f", r.At(0).Type())
			st.facts.set(mkEq(v, tNil), false)
			st.event("parse", "", cc.pos, []*Term{p.get(st, p.errs), v})
			p.fresh(st)
			p.set(st, p.errs, p.freshErrs(in, st))
			return one(st, cc, v), true
		}
		return nil, false
	}
	st := p.base.clone()
	var args []*Term
	var fset, name, src *Term
	for _, a := range fn.Params {
		v := p.in.freshValue(st, a.Name(), a.Type())
		args = append(args, v)
		switch a.Type().String() {
		case "*go/token.FileSet":
			fset = v
			st.facts.set(mkEq(v, tNil), false)
		case "string":
			name = v
		case "[]byte":
			src = v
			st.dom.set(lenTerm(v), Dom{{0, 1 << 40}})
		}
	}
	outs := p.in.callFn(st, fn, args, nil, token.NoPos, nil)
	p.c.nPaths += len(outs)
	var order []*Ev
	for _, o := range outs {
		if o.st.undec != "" {
			p.c.undecided("Parse", o.st.undec)
			continue
		}
		st := o.st
		bad := map[cat]bool{}
		rep := func(k cat, pos token.Pos, format string, args ...any) {
			bad[k] = true
			p.j.bad(k, "Parse", st, pos, format, args...)
		}
		if o.kind == outPanic {
			rep(catPanic, o.pos, "panics with %s", o.val)
			continue
		}
		var files, parses, sorts []*Ev
		evs := allEvents(eventsSince(st.log, nil))
		for i, e := range evs {
			switch e.kind {
			case "file":
				files = append(files, e)
			case "parse":
				parses = append(parses, e)
				if i == 0 || evs[i-1].kind != "scan" && evs[i-1].kind != "cb" {
					rep(catResult, e.pos, "the first token is not read before the file is parsed")
				}
			case "sort":
				sorts = append(sorts, e)
			case "scan":
				if len(files) == 0 || e.args[0] != files[0].args[4] || !st.equal(e.args[1], src) {
					rep(catResult, e.pos, "the source scanned or its file is not that given")
				} else if e.args[2].op == OpNil {
					rep(catResult, e.pos, "errors of the scanner are not recorded")
				} else if !p.callback(e, st, rep) {
					rep(catResult, e.pos, "an error of the scanner is not recorded at its position with its message")
				}
			case "oob":
				rep(catPanic, e.pos, "the index may be out of range")
			}
		}
		if len(files) != 1 {
			rep(catResult, o.pos, "%d files are added to the set", len(files))
		} else if a := files[0].args; a[0] != fset || !st.equal(a[1], name) || !st.equal(a[3], lenTerm(src)) || a[2].op == OpInt && a[2].sval() >= 0 {
			rep(catResult, files[0].pos, "the file added does not have the name and the size of the source")
		}
		if len(parses) != 1 {
			rep(catResult, o.pos, "the file is parsed %d times", len(parses))
			continue
		}
		if o.val.op != OpTuple || len(o.val.args) != 2 || o.val.args[0] != parses[0].args[1] {
			rep(catResult, o.pos, "the file returned is not that parsed")
			continue
		}
		errs, err := p.get(st, p.errs), o.val.args[1]
		for _, none := range []bool{true, false} {
			st2 := st.clone()
			if st2.eval(mkEq(lenTerm(errs), mkI(0))) == triOf(!none) || !st2.assume(mkEq(lenTerm(errs), mkI(0)), none) {
				continue
			}
			isNil := err.op == OpNil
			switch {
			case none && !isNil:
				rep(catResult, o.pos, "an error may be returned when there is none")
			case !none && isNil:
				rep(catResult, o.pos, "no error is returned when there is one")
			case !none && !(err.op == OpIface && types.Identical(err.typ, p.errs.typ) && st2.equal(err.args[0], errs)):
				rep(catResult, o.pos, "the error returned is not the list of errors")
			case !none && len(sorts) == 0:
				rep(catOrder, o.pos, "the errors are not sorted")
			case !none:
				s := sorts[len(sorts)-1]
				x := s.args[0]
				if x.op == OpIface {
					x = x.args[0]
				}
				if !st2.equal(x, errs) {
					rep(catOrder, s.pos, "the errors sorted are not those returned")
				} else if !slices.ContainsFunc(order, func(e *Ev) bool { return e.name == s.name && e.pos == s.pos }) {
					order = append(order, s)
					p.sorted(s, st, rep)
				}
			}
		}
		for _, k := range cats {
			if !bad[k] {
				p.j.ok(k)
			}
		}
	}
}

func (p *pctx) objOf(ptr *Term) int {
	if ptr.op != OpPtr || ptr.n < 0 {
		p.in.fail("the parser is not known")
	}
	return int(ptr.n)
}

func (p *pctx) freshErrs(in *Interp, st *State) *Term {
	v := mkSym("errs", p.errs.typ)
	st.dom.set(lenTerm(v), Dom{{0, 1 << 40}})
	return v
}

// callback checks that an error of the scanner is recorded.
func (p *pctx) callback(e *Ev, st *State, rep func(k cat, pos token.Pos, format string, args ...any)) bool {
	f := e.args[2]
	sig, ok := p.errFn.typ.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 2 {
		p.in.fail("the error function is not recognised")
	}
	st = st.clone()
	mark := st.event("cb", "", e.pos, nil)
	errs0 := p.get(st, p.errs)
	pos, msg := p.in.freshValue(st, "at", sig.Params().At(0).Type()), p.in.freshValue(st, "msg", sig.Params().At(1).Type())
	outs := p.in.callTerm(st, f, []*Term{pos, msg}, sig, e.pos, nil)
	for _, o := range outs {
		if o.kind == outPanic {
			rep(catPanic, o.pos, "panics with %s", o.val)
			continue
		}
		errs := p.get(o.st, p.errs)
		w := &walker{p: p}
		var at, m *Term
		n := 0
		for _, e := range allEvents(eventsSince(o.st.log, mark)) {
			if e.kind == "append" {
				n++
				if e.args[0] == errs0 {
					at, m, _ = w.isErr(e, o.st)
				}
			}
		}
		if n != 1 || at == nil || !o.st.equal(m, msg) || o.st.eval(mkEq(lenTerm(errs), mkAdd(64, lenTerm(errs0), mkI(1)))) != yes {
			return false
		}
		if o.st.equal(at, pos) {
			continue
		}
		// a position is that of its offset
		off := p.in.project(o.st, pos, mkI(1), true, types.Typ[types.Int])
		if at.op == OpApp && len(at.args) == 2 && at.args[0] == p.get(o.st, p.file) && isPosOf(at.args[1]) && at.args[1].args[0] == at.args[0] && o.st.equal(at.args[1].args[1], off) {
			continue
		}
		return false
	}
	return len(outs) > 0
}

// sorted checks that errors are in the order of their positions and messages.
func (p *pctx) sorted(e *Ev, st *State, rep func(k cat, pos token.Pos, format string, args ...any)) {
	in, st := p.in, st.clone()
	el := p.errElem
	pt, isPtr := el.(*types.Pointer)
	if isPtr {
		el = pt.Elem()
	}
	if !isStructType(el) {
		in.fail("the errors are not recognised")
	}
	var vs, els []*Term
	for _, n := range []string{"a", "b"} {
		v := in.freshValue(st, n, el)
		vs = append(vs, v)
		if isPtr {
			v = mkPtr(in.newObj(st, el, v))
		}
		els = append(els, v)
	}
	at := types.NewArray(p.errElem, 2)
	arr := in.newObj(st, at, mkArray(els...))
	list := mkSlice(mkPtr(arr), mkI(0), mkI(2), mkI(2))
	method := func(name string) *ssa.Function {
		fn := p.c.ld.prog.LookupMethod(p.errs.typ, p.pkg.Pkg, name)
		if fn == nil {
			in.fail("the order of errors is not recognised")
		}
		return fn
	}
	// the keys, most significant first
	var keys [][2]*Term
	u := el.Underlying().(*types.Struct)
	fields := func(v *Term, u *types.Struct, name string) *Term {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return in.project(st, v, mkI(int64(i)), true, u.Field(i).Type())
			}
		}
		return nil
	}
	var ps [2]*Term
	var pu *types.Struct
	var ms [2]*Term
	for i := 0; i < u.NumFields(); i++ {
		t := u.Field(i).Type()
		for k := range ps {
			f := in.project(st, vs[k], mkI(int64(i)), true, t)
			if isNamed(t, "go/token", "Position") {
				ps[k], pu = f, t.Underlying().(*types.Struct)
			} else if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				ms[k] = f
			}
		}
	}
	if ps[0] == nil || ms[0] == nil {
		in.fail("the errors are not recognised")
	}
	for _, n := range []string{"Filename", "Line", "Column"} {
		k := [2]*Term{fields(ps[0], pu, n), fields(ps[1], pu, n)}
		for _, t := range k {
			if isIntTerm(t) { // of a real file
				st.narrow(t, iv{0, 1 << 40})
			}
		}
		keys = append(keys, k)
	}
	keys = append(keys, ms)
	var outs []Out
	switch sorters[e.name] {
	case "less":
		if x := e.args[0]; x.op != OpIface || !types.Identical(x.typ, p.errs.typ) {
			rep(catOrder, e.pos, "the errors are sorted in another order")
			return
		}
		for _, o := range in.callFn(st.clone(), method("Len"), []*Term{list}, nil, e.pos, nil) {
			if o.kind == outPanic || !o.st.equal(o.val, mkI(2)) {
				rep(catOrder, o.pos, "Len is not the number of errors")
			}
		}
		for _, o := range in.callFn(st.clone(), method("Swap"), []*Term{list, mkI(0), mkI(1)}, nil, e.pos, nil) {
			if v, _ := o.st.heap.get(arr); o.kind == outPanic || v != mkArray(els[1], els[0]) {
				rep(catOrder, o.pos, "Swap does not exchange two errors")
			}
		}
		outs = in.callFn(st, method("Less"), []*Term{list, mkI(0), mkI(1)}, nil, e.pos, nil)
	case "index":
		outs = in.callTerm(st, subst(e.args[1], map[*Term]*Term{e.args[0]: list}), []*Term{mkI(0), mkI(1)}, nil, e.pos, nil)
	case "cmp":
		outs = in.callTerm(st, e.args[1], els, nil, e.pos, nil)
	}
	bt := types.Typ[types.Bool]
	for _, o := range outs {
		if o.st.undec != "" {
			p.c.undecided("Parse", o.st.undec)
			continue
		}
		if o.kind == outPanic {
			rep(catPanic, o.pos, "panics with %s", o.val)
			continue
		}
		for n := 0; n < 81; n++ {
			st2 := o.st.clone()
			ok, want, d := true, 0, n
			sub := map[*Term]*Term{}
			for _, k := range keys {
				c := d%3 - 1
				d /= 3
				if want == 0 {
					want = c
				}
				a, b := k[0], k[1]
				if isIntTerm(a) {
					ok = ok && st2.assume(mkLt(a, b, true), c < 0) && st2.assume(mkLt(b, a, true), c > 0)
				} else {
					sub[mkApp("<", bt, a, b)], sub[mkApp("<", bt, b, a)] = mkBool(c < 0), mkBool(c > 0)
					sub[mkEq(a, b)] = mkBool(c == 0)
				}
				for _, x := range cmpTerms(append(trailOf(st2), o.val), a, b) {
					v := c
					if x.args[0] == b {
						v = -c
					}
					sub[x] = mkInt(x.width(), uint64(int64(v)))
				}
			}
			for _, t := range trailOf(o.st) {
				ok = ok && st2.eval(subst(t, sub)) != no
			}
			for t, v := range o.st.facts.m {
				if s := subst(t, sub); ok && s != t {
					ok = st2.eval(s) != triOf(!v)
				}
			}
			if !ok {
				continue
			}
			v := subst(o.val, sub)
			var got tri
			if sorters[e.name] == "cmp" {
				got = st2.eval(mkLt(v, mkInt(v.width(), 0), true))
				if want > 0 && got == no {
					got = st2.eval(mkLt(mkInt(v.width(), 0), v, true)).not()
				}
			} else {
				got = st2.eval(v)
			}
			switch {
			case got == unknown:
				p.c.undecided("Parse", "the order of errors is not known: "+v.String())
				return
			case got != triOf(want < 0):
				rep(catOrder, o.pos, "errors are not in the order of file, line, column and message")
				return
			}
		}
	}
}

func trailOf(st *State) (r []*Term) {
	for _, e := range eventsSince(st.trail, nil) {
		r = append(r, e.args[0])
	}
	return
}

// cmpTerms lists the three-way comparisons of two values.
func cmpTerms(ts []*Term, a, b *Term) (r []*Term) {
	for _, n := range []string{"cmp.Compare", "strings.Compare"} {
		for _, x := range atomsOf(n, ts) {
			if len(x.args) == 2 && (x.args[0] == a && x.args[1] == b || x.args[0] == b && x.args[1] == a) {
				r = append(r, x)
			}
		}
	}
	return
}
