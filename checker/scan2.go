package main

import (
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The steps of the scanner from one character to the next, its initial state,
// and the reading of tokens by the parser.

// plainMethods lists the methods of a type without parameters and results.
func (p *pctx) plainMethods(t *types.Named) (r []*ssa.Function) {
	for i := 0; i < t.NumMethods(); i++ {
		if fn := p.c.ld.prog.FuncValue(t.Method(i)); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 0 {
			r = append(r, fn)
		}
	}
	return
}

// stores tells whether a function assigns a field of its receiver.
func stores(fn *ssa.Function, l tfLeaf) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			if f, ok := s.Addr.(*ssa.FieldAddr); ok && len(fn.Params) > 0 && f.X == fn.Params[0] && f.Field == l.path[len(l.path)-1] {
				return true
			}
		}
	}
	return false
}

// storesDeep tells whether a method, or a method it calls on its receiver,
// assigns a field of the receiver.
func storesDeep(fn *ssa.Function, l tfLeaf, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if stores(fn, l) {
		return true
	}
	for _, c := range selfCalls(fn) {
		if storesDeep(c, l, seen) {
			return true
		}
	}
	return false
}

// selfCalls lists the methods a method calls on its receiver.
func selfCalls(fn *ssa.Function) (r []*ssa.Function) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && len(fn.Params) > 0 && len(c.Common().Args) > 0 && c.Common().Args[0] == fn.Params[0] {
					r = append(r, f)
				}
			}
		}
	}
	return
}

// theMethod finds the method of a role: the one with a given name, else the
// only one, which does something itself; else by calls.
func (p *pctx) theMethod(t *types.Named, what, name string, l tfLeaf, calls func([]*ssa.Function) []*ssa.Function) *ssa.Function {
	var r, deep []*ssa.Function
	for _, fn := range p.plainMethods(t) {
		if storesDeep(fn, l, map[*ssa.Function]bool{}) {
			deep = append(deep, fn)
		}
		if !stores(fn, l) {
			continue
		}
		if fn.Name() == name {
			return fn
		}
		r = append(r, fn)
	}
	if len(r) != 1 {
		r = calls(deep)
	}
	if len(r) != 1 {
		p.in.fail("the function that %s is not recognised", what)
	}
	return r[0]
}

func (p *pctx) stepFn(w *swalker) *ssa.Function {
	return p.theMethod(p.scanT, "reads a character", "nextch", w.chT, func(fs []*ssa.Function) (r []*ssa.Function) {
		// the innermost one
		for _, fn := range fs {
			if !slices.ContainsFunc(selfCalls(fn), func(f *ssa.Function) bool { return slices.Contains(fs, f) }) {
				r = append(r, fn)
			}
		}
		return
	})
}

func (p *pctx) scanFn() *ssa.Function {
	return p.theMethod(p.scanT, "scans a token", "next", p.pos, func(fs []*ssa.Function) (r []*ssa.Function) {
		// the outermost one
		for _, fn := range fs {
			if !slices.ContainsFunc(fs, func(f *ssa.Function) bool { return f != fn && slices.Contains(selfCalls(f), fn) }) {
				r = append(r, fn)
			}
		}
		return
	})
}

// errHook records the errors reported by the scanner.
func (p *pctx) errHook(in *Interp, st *State, f *Term, cc *callCtx) ([]Out, bool) {
	if len(cc.args) != 2 || f != p.get(st, p.errFn) {
		return nil, false
	}
	st.event("err", "", cc.pos, cc.args)
	return []Out{{st: st, val: tUnit, pos: cc.pos}}, true
}

// lineHook records the lines added to the file and the characters decoded.
func (p *pctx) lineHook(in *Interp, st *State, fn *ssa.Function, cc *callCtx) ([]Out, bool) {
	switch cc.name {
	case "(*go/token.File).AddLine":
		st.event("line", "", cc.pos, cc.args)
		return []Out{{st: st, val: tUnit, pos: cc.pos}}, true
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		var outs []Out
		s := cc.args[0]
		res := func(st *State, r, n *Term) {
			st.event("decode", "", cc.pos, []*Term{s, r, n})
			outs = append(outs, Out{st: st, val: mkTuple(r, n), pos: cc.pos})
		}
		if st2 := st.clone(); st2.assume(mkEq(lenTerm(s), mkI(0)), true) {
			res(st2, mkInt(32, 0xfffd), mkI(0))
		}
		if !st.assume(mkEq(lenTerm(s), mkI(0)), false) {
			return outs, true
		}
		b := p.byteAt(in, st, s, mkI(0))
		r := in.convert(st, b, types.Typ[types.Uint8], types.Typ[types.Int32])
		if st2 := st.clone(); st2.assume(mkLt(b, mkInt(8, 0x80), false), true) {
			res(st2, r, mkI(1))
		}
		if !st.assume(mkLt(b, mkInt(8, 0x80), false), false) {
			return outs, true
		}
		res(st.clone(), mkInt(32, 0xfffd), mkI(1))
		if st2 := st.clone(); st2.assume(mkLt(lenTerm(s), mkI(3), true), false) {
			res(st2, mkInt(32, 0xfffd), mkI(3))
		}
		if !st.assume(mkLt(lenTerm(s), mkI(2), true), false) {
			return outs, true
		}
		r = mkSym("r", types.Typ[types.Int32])
		n := mkSym("w", types.Typ[types.Int])
		st.dom.set(r, Dom{{0x80, 0xfffc}, {0xfffe, 0x10ffff}})
		st.dom.set(n, Dom{{2, 4}})
		st.assume(mkLt(lenTerm(s), n, true), false)
		res(st, r, n)
		return outs, true
	}
	return nil, false
}

func (p *pctx) byteAt(in *Interp, st *State, s, k *Term) *Term {
	bt := types.Typ[types.Uint8]
	if s.op == OpSeq || s.op == OpApp && s.s == "str" {
		return in.seqIndex(st, s, k, bt)
	}
	return in.load(st, mkApp("&idx", types.NewPointer(bt), s, st.norm(k)), bt)
}

// step analyses the step from any character to the next.
func (p *pctx) step(cats ...cat) {
	w := p.newScan()
	fn := p.stepFn(w)
	p.in.fnHook, p.in.callHook = p.lineHook, p.errHook
	rd := p.readLeaf()
	st, _ := p.open()
	st.facts.set(mkEq(p.get(st, p.errFn), tNil), false)
	p.freshChar(w, st)
	src := p.get(st, p.src)
	ch0, off0, rd0, len0 := p.get(st, w.chT), p.get(st, p.off), p.get(st, rd), lenTerm(src)
	tok0, pos0 := p.get(st, p.tok), p.get(st, p.pos)
	st.assume(mkLt(rd0, off0, true), false) // what follows begins after the current character
	file := p.get(st, p.file)
	b := p.byteAt(p.in, st, src, rd0)
	next := p.in.sliceOf(st.clone(), src, rd0, len0, p.src.typ, token.NoPos)
	name := "scanner." + fn.Name()
	outs := p.in.callFn(st, fn, []*Term{p.scanPtr()}, nil, token.NoPos, nil)
	p.c.nPaths += len(outs)
	for _, o := range outs {
		if o.st.undec != "" {
			p.c.undecided(name, o.st.undec)
			continue
		}
		bad := map[cat]bool{}
		evs := eventsSince(o.st.log, nil)
		for _, e := range allEvents(evs) {
			if e.kind == "oob" {
				bad[catPanic] = true
				p.j.bad(catPanic, name, o.st, e.pos, "the index may be out of range")
			}
		}
		if o.kind == outPanic {
			p.j.bad(catPanic, name, o.st, o.pos, "panics with %s", o.val)
			continue
		}
		var lines, errs []*Ev
		var dec *Ev
		for _, e := range evs {
			switch e.kind {
			case "line":
				lines = append(lines, e)
			case "err":
				errs = append(errs, e)
			case "decode":
				dec = e
			}
		}
		var sub map[*Term]*Term
		// every case that the path does not settle is looked at
		check := func(st *State) {
			rep := func(k cat, pos token.Pos, format string, args ...any) {
				bad[k] = true
				p.j.bad(k, name, st, pos, format, args...)
			}
			eq := func(a, b *Term) bool { return w.same(st, a, b) }
			more := st.eval(mkLt(rd0, len0, true)) == yes
			at := len0
			if more {
				at = rd0
			}
			if !eq(p.get(st, p.off), at) {
				rep(catPos, o.pos, "the offset is %s, not that of the next character", p.get(st, p.off))
			}
			if p.get(st, p.tok) != tok0 || p.get(st, p.pos) != pos0 {
				rep(catPos, o.pos, "changes the token or its position")
			}
			if p.get(st, p.src) != src || p.get(st, p.file) != file {
				rep(catPos, o.pos, "changes the source")
			}
			lines := lines
			if !more {
				// a line at the end of the source is not added
				lines = slices.DeleteFunc(slices.Clone(lines), func(e *Ev) bool { return e.args[0] == file && eq(e.args[1], at) })
			}
			switch nl := st.eval(mkEq(ch0, mkInt(32, '\n'))) == yes && more; {
			case nl && len(lines) != 1:
				rep(catLine, o.pos, "adds %d lines after a newline", len(lines))
			case !nl && len(lines) > 0:
				rep(catLine, lines[0].pos, "adds a line where there is no newline")
			case nl && !(lines[0].args[0] == file && eq(lines[0].args[1], at)):
				rep(catLine, lines[0].pos, "the line added begins at %s, not after the newline", lines[0].args[1])
			case nl && len(errs) > 0 && slices.Index(evs, lines[0]) > slices.Index(evs, errs[0]):
				rep(catLine, lines[0].pos, "adds the line after an error on it is reported")
			}
			ch, n, due := mkInt(32, ^uint64(0)), mkI(0), false
			if more {
				ch, n = p.in.convert(st, b, types.Typ[types.Uint8], types.Typ[types.Int32]), mkI(1)
				due = st.eval(mkEq(b, mkInt(8, 0))) == yes
				if st.eval(mkLt(b, mkInt(8, 0x80), false)) == no {
					if dec == nil || !st.equal(dec.args[0], next) {
						rep(catChar, o.pos, "a character beyond ASCII is not decoded from where it begins")
						return
					}
					ch, n = dec.args[1], dec.args[2]
					due = st.eval(mkEq(ch, mkInt(32, 0xfffd))) == yes && st.eval(mkEq(n, mkI(1))) == yes ||
						st.eval(mkEq(ch, mkInt(32, 0xfeff))) == yes && st.eval(mkEq(at, mkI(0))) != yes
				}
			}
			if !st.equal(subst(p.get(st, w.chT), sub), subst(ch, sub)) {
				rep(catChar, o.pos, "the character is %s, not %s", p.get(st, w.chT), ch)
			}
			if !eq(p.get(st, rd), mkAdd(64, rd0, n)) {
				rep(catChar, o.pos, "goes on at %s, not after the character", p.get(st, rd))
			}
			switch {
			case due && len(errs) == 0:
				rep(catLexErr, o.pos, "an illegal character is not reported")
			case due && len(errs) > 1:
				rep(catLexErr, errs[1].pos, "an illegal character is reported %d times", len(errs))
			case !due && len(errs) > 0:
				rep(catLexOK, errs[0].pos, "reports an error for a legal character")
			case due && !eq(w.errAt(errs[0], st), at):
				rep(catLexErr, errs[0].pos, "reports the error at %s, not where the character is", w.errAt(errs[0], st))
			}
		}
		sts := []*State{o.st}
		split := func(b *Term) {
			var r []*State
			for _, st := range sts {
				for _, v := range []bool{true, false} {
					if st.eval(b) == triOf(!v) {
						continue
					}
					if st2 := st.clone(); st2.assume(b, v) {
						r = append(r, st2)
					}
				}
			}
			sts = r
		}
		split(mkLt(rd0, len0, true))
		split(mkEq(ch0, mkInt(32, '\n')))
		split(mkEq(rd0, mkI(0)))
		all := sts
		for _, st := range all {
			// the byte may be known as that of an index equal to the offset
			vals := []*Term{p.get(st, w.chT)}
			for _, e := range eventsSince(st.trail, nil) {
				vals = append(vals, e.args[0])
			}
			sub = map[*Term]*Term{}
			ok := true
			for _, a := range append(atomsOf("idx", vals), domAtoms(st, "idx")...) {
				if a != b && sub[a] == nil && a.args[0] == src && st.eval(mkEq(a.args[1], rd0)) == yes {
					sub[a] = b
					ok = ok && st.assume(mkEq(a, b), true)
					if d, has := st.dom.get(a); has && ok {
						st.dom.set(b, st.domOf(b).intersect(d))
						ok = len(st.domOf(b)) > 0
					}
				}
			}
			for _, e := range eventsSince(st.trail, nil) {
				ok = ok && st.assume(subst(e.args[0], sub), true)
			}
			if !ok {
				continue
			}
			sts = []*State{st}
			if st.eval(mkLt(rd0, len0, true)) == yes {
				split(mkEq(b, mkInt(8, 0)))
				split(mkLt(b, mkInt(8, 0x80), false))
				if dec != nil {
					split(mkEq(dec.args[1], mkInt(32, 0xfeff)))
				}
			}
			for _, st := range sts {
				check(st)
			}
		}
		for _, k := range cats {
			if !bad[k] {
				p.j.ok(k)
			}
		}
	}
}

// readLeaf is the offset of the next character.
func (p *pctx) readLeaf() tfLeaf {
	var r []tfLeaf
	for _, l := range p.leaves {
		if l.in == p.scanT && l.typ == types.Typ[types.Int] && l.name != p.off.name {
			if l.name == "rdOffset" {
				return l
			}
			r = append(r, l)
		}
	}
	if len(r) != 1 {
		p.in.fail("the offset of the next character is not recognised")
	}
	return r[0]
}

// start analyses the initial state of the scanner.
func (p *pctx) startScan(cats ...cat) {
	w := p.newScan()
	step, rd := p.stepFn(w), p.readLeaf()
	fn := p.c.ld.method(p.scanT, "init")
	p.in.callHook = p.errHook
	p.in.fnHook = func(in *Interp, st *State, f *ssa.Function, cc *callCtx) ([]Out, bool) {
		if f != step {
			return p.lineHook(in, st, f, cc)
		}
		st.event("char", "", cc.pos, []*Term{p.get(st, w.chT), p.get(st, p.off), p.get(st, rd), p.get(st, p.src), p.get(st, p.errFn), p.get(st, p.file)})
		p.freshChar(w, st)
		return []Out{{st: st, val: tUnit, pos: cc.pos}}, true
	}
	st, _ := p.open()
	args := []*Term{p.scanPtr()}
	var file, src, ef *Term
	for _, a := range fn.Params[1:] {
		v := p.in.freshValue(st, a.Name(), a.Type())
		args = append(args, v)
		switch {
		case types.Identical(a.Type(), p.file.typ):
			file = v
		case types.Identical(a.Type(), p.src.typ):
			src = v
		default:
			ef = v
		}
	}
	if file == nil || src == nil || ef == nil {
		p.in.fail("the arguments of scanner.init are not recognised")
	}
	st.facts.set(mkEq(ef, tNil), false)
	outs := p.in.callFn(st, fn, args, nil, token.NoPos, nil)
	p.c.nPaths += len(outs)
	name := "scanner.init"
	for _, o := range outs {
		if o.st.undec != "" {
			p.c.undecided(name, o.st.undec)
			continue
		}
		st := o.st
		bad := map[cat]bool{}
		rep := func(k cat, pos token.Pos, format string, args ...any) {
			bad[k] = true
			p.j.bad(k, name, st, pos, format, args...)
		}
		if o.kind == outPanic {
			rep(catPanic, o.pos, "panics with %s", o.val)
			continue
		}
		var steps []*Ev
		for _, e := range allEvents(eventsSince(st.log, nil)) {
			switch e.kind {
			case "char":
				steps = append(steps, e)
			case "line":
				rep(catLine, e.pos, "adds a line before the first character")
			case "err":
				rep(catLexOK, e.pos, "reports an error before the first character")
			case "oob":
				rep(catPanic, e.pos, "the index may be out of range")
			}
		}
		for i, e := range steps {
			a := e.args
			switch {
			case !st.equal(a[3], src) || a[4] != ef || a[5] != file:
				rep(catPos, e.pos, "reads before the source, the file and the error function are set")
			case i > 1:
				rep(catLexOK, e.pos, "skips more than a byte order mark")
			case i == 1 && st.eval(mkEq(a[0], mkInt(32, 0xfeff))) != yes:
				rep(catLex, e.pos, "skips a character that is no byte order mark")
			case i == 1:
			case !st.equal(a[2], mkI(0)):
				rep(catPos, e.pos, "the source is not read from its beginning")
			case st.eval(mkEq(a[0], mkInt(32, '\n'))) != no:
				rep(catLine, e.pos, "there may be a newline before the first line")
			}
		}
		switch {
		case len(steps) == 0:
			rep(catLex, o.pos, "no character is read")
		case len(steps) == 1 && st.eval(mkEq(p.get(st, w.chT), mkInt(32, 0xfeff))) != no:
			rep(catLexOK, o.pos, "does not skip a byte order mark at the beginning")
		}
		if p.get(st, p.file) != file || !st.equal(p.get(st, p.src), src) || p.get(st, p.errFn) != ef {
			rep(catPos, o.pos, "the source, the file or the error function is not that given")
		}
		for _, k := range cats {
			if !bad[k] {
				p.j.ok(k)
			}
		}
	}
}

// advance analyses how the parser goes on to the next token.
func (p *pctx) advance(cats ...cat) {
	scan := p.scanFn()
	fn := p.next
	p.in.fnHook = func(in *Interp, st *State, f *ssa.Function, cc *callCtx) ([]Out, bool) {
		kind := "scan"
		switch {
		case f == fn && slices.Contains(in.stack, fn):
			kind = "again"
		case f != scan:
			return nil, false
		}
		st.event(kind, "", cc.pos, []*Term{p.get(st, p.tok)})
		p.fresh(st)
		var d Dom
		for _, v := range p.tokVal {
			if v != 0 && (kind == "scan" || v != p.tokVal["COMMENT"]) {
				d = append(d, iv{v, v})
			}
		}
		st.dom.set(p.get(st, p.tok), sortDom(d).norm())
		return []Out{{st: st, val: tUnit, pos: cc.pos}}, true
	}
	st, ptr := p.open()
	outs := p.in.callFn(st, fn, []*Term{ptr}, nil, token.NoPos, nil)
	p.c.nPaths += len(outs)
	name := "parser." + fn.Name()
	comment := func(t *Term) *Term { return mkEq(t, mkInt(t.width(), uint64(p.tokVal["COMMENT"]))) }
	for _, o := range outs {
		if o.st.undec != "" {
			p.c.undecided(name, o.st.undec)
			continue
		}
		st := o.st
		bad := map[cat]bool{}
		rep := func(k cat, st *State, pos token.Pos, format string, args ...any) {
			bad[k] = true
			p.j.bad(k, name, st, pos, format, args...)
		}
		if o.kind == outPanic {
			rep(catPanic, st, o.pos, "panics with %s", o.val)
			continue
		}
		// 0: nothing scanned yet, 1: a token is scanned, 2: and known to be a comment
		var run func(evs []*Ev, st *State, qs map[int]bool) map[int]bool
		run = func(evs []*Ev, st *State, qs map[int]bool) map[int]bool {
			for _, e := range evs {
				switch {
				case e.kind == "scan" || e.kind == "again":
					if e.kind == "again" {
						rep(catNest, st, e.pos, "goes on to the next token from within itself, so what is skipped may exhaust the stack")
						if qs[0] {
							rep(catProgress, st, e.pos, "recurs without having scanned a token")
						}
					}
					if qs[1] && st.eval(comment(e.args[0])) != yes {
						rep(catComment, st, e.pos, "skips a token that is no comment")
					}
					qs = map[int]bool{1: true}
				case e.loop != nil:
					r := e.loop
					hs := map[int]bool{}
					for q := range qs {
						if q == 1 {
							if v := p.headVar(r, p.tok); v != nil && st.eval(comment(v.entry)) == yes {
								q = 2
							}
						}
						hs[q] = true
					}
					for again := true; again; {
						again = false
						for i, it := range r.iters {
							m := map[int]bool{}
							for q := range hs {
								m[q] = true
							}
							evs := eventsSince(it.log, iterMark(r, it))
							if !slices.ContainsFunc(allEvents(evs), func(e *Ev) bool { return e.kind == "scan" }) {
								rep(catProgress, it, r.pos, "the loop may go round without scanning a token")
							}
							for q := range run(evs, it, m) {
								if q == 1 {
									if v := p.headVar(r, p.tok); v != nil && it.eval(comment(v.next[i])) == yes {
										q = 2
									}
								}
								if !hs[q] {
									hs[q] = true
									again = true
								}
							}
						}
					}
					qs = hs
				}
			}
			return qs
		}
		qs := run(eventsSince(st.log, nil), st, map[int]bool{0: true})
		if qs[0] {
			rep(catComment, st, o.pos, "may return without having scanned a token")
		}
		if st.eval(comment(p.get(st, p.tok))) != no {
			rep(catComment, st, o.pos, "may stop at a comment")
		}
		for _, k := range cats {
			if !bad[k] {
				p.j.ok(k)
			}
		}
	}
}

func (p *pctx) headVar(r *LoopRec, l tfLeaf) *LoopVar {
	n := loopVarName(p.pobj, l)
	for i := range r.head {
		if r.head[i].name == n {
			return &r.head[i]
		}
	}
	return nil
}

func isPosOf(t *Term) bool {
	return t.op == OpApp && strings.HasSuffix(t.s, "File).Pos")
}

// atomsOf lists the applications of a function in terms.
func atomsOf(name string, ts []*Term) (r []*Term) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpApp && t.s == name {
			r = append(r, t)
		}
		for _, a := range t.args {
			f(a)
		}
		for _, b := range t.bits {
			for _, x := range b.xs {
				f(x.t)
			}
		}
	}
	for _, t := range ts {
		f(t)
	}
	return
}

// domAtoms lists the applications of a function whose values are restricted.
func domAtoms(st *State, name string) (r []*Term) {
	for t := range st.dom.m {
		if t.op == OpApp && t.s == name {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return
}
