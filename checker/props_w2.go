package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

const (
	catHelper cat = "helper"
	catRefuse cat = "refuse"
	catRoute  cat = "routing"
	catDepth  cat = "depth"
)

// ---- exported header helpers

func (ld *Loader) constant(rel, name string) (int64, bool) {
	if c, ok := ld.pkg(rel).Members[name].(*ssa.NamedConst); ok {
		return c.Value.Int64(), true
	}
	return 0, false
}

// maxLen bounds the length of a byte sequence.
func maxLen(st *State, segs []*Term) int64 {
	var n int64
	for _, s := range segs {
		_, hi := st.rng(segLen(s), true)
		if s.op == OpApp && s.s == "uv" {
			v := s.args[0]
			h := int64(10)
			if l, x := st.rng(v, true); l >= 0 {
				h = 1
				for x >= 128 {
					x >>= 7
					h++
				}
			}
			hi = min(hi, h)
		}
		if hi > 1<<20 {
			return 1 << 40
		}
		n += hi
	}
	return n
}

func (w *wctx) helpers(j *judge) {
	const rel = "encoding/thriftcompact"
	pre := mkSym("pre", byteSlice)
	type hop struct {
		op   wireOp
		name string
	}
	var hs []hop
	all := append([]int64{wStop, 1, 5, 7, 9, 17, 99}, wireTypes...)
	for _, k := range all {
		hs = append(hs, hop{opField(k, symID("id")), "Field"})
		hs = append(hs, hop{opSeq("SetBegin", k), "Set"}, hop{opSeq("ListBegin", k), "List"})
		hs = append(hs, hop{opMap(k, wBool), "Map"}, hop{opMap(wI64, k), "Map"})
	}
	for _, h := range hs {
		fn := w.c.ld.fn(rel, "Append"+h.name+"Header")
		limit, ok := w.c.ld.constant(rel, "Max"+h.name+"HeaderSize")
		if !ok {
			w.in.fail("constant Max%sHeaderSize is missing", h.name)
		}
		name := fmt.Sprintf("Append%sHeader%s", h.name, h.op)
		w.c.guard(name, func() {
			st := w.base.clone()
			args := append([]*Term{pre}, w.writeArgs(st, h.op)...)
			last, isTrue := symID("last"), mkSym("isTrue", types.Typ[types.Bool])
			es := encState{last: last}
			o := []wireOp{h.op}
			if h.name == "Field" {
				args = append(args, isTrue, last)
				if k, _ := constOf(st, h.op.a["type"]); k == wBool {
					o = append(o, wireOp{name: "Bool", a: map[string]*Term{"v": isTrue}})
				}
			}
			mark := st.log
			for _, out := range w.in.callFn(st, fn, args, nil, token.NoPos, nil) {
				w.c.nPaths++
				if !j.sane(out, name, mark) {
					continue
				}
				res := out.results()
				isNil := out.st.eval(mkEq(res[1], tNil))
				if isNil == unknown {
					j.bad(catUndecided, name, out.st, out.pos, "cannot tell whether the error is nil")
					continue
				}
				encs := []encRes{{st: out.st, es: es}}
				for _, x := range o {
					var next []encRes
					for _, e := range encs {
						if e.invalid {
							next = append(next, e)
							continue
						}
						for _, r := range w.p.encode(e.st.clone(), e.es, x) {
							r.segs = append(e.segs[:len(e.segs):len(e.segs)], r.segs...)
							next = append(next, r)
						}
					}
					encs = next
				}
				for _, e := range encs {
					want := append([]*Term{segSp(pre)}, e.segs...)
					got := seqOfBytes(res[0])
					switch {
					case e.invalid && e.neg && h.name == "Map":
						// an empty map, or an error
					case e.invalid && isNil == yes:
						j.bad(catHelper, name, e.st, out.pos, "encodes a header which has no encoding, as %s", res[0])
					case e.invalid:
						if e.st.equalSeq(got, []*Term{segSp(pre)}) {
							j.ok(catHelper)
						} else {
							j.bad(catHelper, name, e.st, out.pos, "returns %s with the error, not the buffer it was given", res[0])
						}
					case isNil == no:
						j.bad(catHelper, name, e.st, out.pos, "refuses a valid header")
					default:
						good := e.st.equalSeq(got, want)
						for _, a := range e.alts {
							good = good || e.st.equalSeq(got, append([]*Term{segSp(pre)}, a...))
						}
						if !good {
							j.bad(catHelper, name, e.st, out.pos, "returns %s, expected is %s", mkSeq(e.st.normSegs(got)...), mkSeq(e.st.normSegs(want)...))
							continue
						}
						j.ok(catHelper)
						if n := maxLen(e.st, e.segs); n > limit {
							j.bad(catHelper, name, e.st, out.pos, "appends up to %d bytes, Max%sHeaderSize is %d", n, h.name, limit)
						} else {
							j.ok(catHelper)
						}
					}
				}
			}
		})
	}
	// the reading side
	w.p.lenient = true
	defer func() { w.p.lenient = false }()
	for _, h := range hs {
		if h.name == "Field" {
			continue
		}
		fn := w.c.ld.fn(rel, "Read"+h.name+"Header")
		name := fmt.Sprintf("Read%sHeader%s", h.name, h.op)
		w.c.guard(name, func() {
			for _, e := range w.p.encode(w.base.clone(), encState{}, h.op) {
				if e.invalid {
					continue
				}
				for _, segs := range append([][]*Term{e.segs}, e.alts...) {
					st := e.st.clone()
					src := mkSym("src", w.ioType("Reader"))
					w.in.streams[src] = segs
					w.in.gen++
					bt := w.in.stdType("bufio", "Reader")
					b := mkPtr(w.in.newObj(st, bt, newReaderTerm(src)))
					mark := st.log
					for _, out := range w.in.callFn(st, fn, []*Term{b}, nil, token.NoPos, nil) {
						w.c.nPaths++
						if !j.sane(out, name, mark) {
							continue
						}
						res := out.results()
						fail := ioFailed(out.st.log, mark)
						isNil := out.st.eval(mkEq(res[1], tNil))
						switch {
						case isNil == unknown:
							j.bad(catUndecided, name, out.st, out.pos, "cannot tell whether the error is nil")
						case fail != nil && isNil == yes:
							j.bad(catHelper, name, out.st, fail.pos, "%s fails but the error is nil", fail.name)
						case fail != nil:
							j.ok(catHelper)
						case isNil == no:
							j.bad(catHelper, name, out.st, out.pos, "refuses a valid header")
						default:
							jj := newJudge(w.c, catBytes)
							if !w.checkValue(jj, name, out, h.op, res, nil, nil) {
								continue
							}
							j.ok(catHelper)
							w.consumed(newJudge(w.c, catConsume), src, rstate{out.st, e.es, mark}, name)
						}
					}
				}
			}
		})
	}
}

func seqOfBytes(t *Term) []*Term {
	if t.op == OpApp && t.s == "seq" {
		return t.args
	}
	return mkSeq(segSp(t)).args
}

// ---- malformed input which must be refused

// refusals checks the malformed inputs whose operation is named (all, if none is).
func (w *wctx) refusals(j *judge, ops ...string) {
	b := func(n string) *Term { return mkSym(n, tByte) }
	rest := mkSym("rest", byteSlice)
	type tc struct {
		name  string
		op    string
		segs  []*Term
		conds []*Term
	}
	var cs []tc
	i32 := func(v *Term) []*Term { return be(v, 32) }
	if w.p.compact {
		b0, b1 := b("b0"), b("b1")
		low := mkConv(b1, 8, false, 32)
		cs = append(cs,
			tc{"a message with another protocol ID", "MessageBegin", []*Term{segEl(b0), segSp(rest)}, []*Term{mkNot(mkEq(b0, mkInt(8, 0x82)))}},
			tc{"a message with another version", "MessageBegin", []*Term{segEl(mkInt(8, 0x82)), segEl(b1), segSp(rest)}, []*Term{mkNot(mkEq(mkAnd(32, low, mkInt(32, 31)), mkInt(32, 1)))}},
		)
		// one representative per combination of the bits that matter
		for _, code := range []uint64{14, 15} {
			cs = append(cs, tc{fmt.Sprintf("a field of type code %d", code), "FieldBegin", []*Term{segEl(mkOr(8, mkShl(8, b0, 4), mkInt(8, code))), segSp(rest)}, nil})
			for _, k := range []string{"SetBegin", "ListBegin"} {
				cs = append(cs, tc{fmt.Sprintf("a %s of type code %d", k[:len(k)-5], code), k, []*Term{segEl(mkOr(8, mkShl(8, b0, 4), mkInt(8, code))), segSp(rest)}, nil})
			}
			n := mkSym("n", types.Typ[types.Int])
			cs = append(cs,
				tc{fmt.Sprintf("a map with keys of type code %d", code), "MapBegin", []*Term{segUv(n), segEl(mkOr(8, mkInt(8, code<<4), mkAnd(8, b0, mkInt(8, 15)))), segSp(rest)}, []*Term{mkLt(mkI(0), n, true), mkLt(n, mkI(1<<31), true)}},
				tc{fmt.Sprintf("a map with values of type code %d", code), "MapBegin", []*Term{segUv(n), segEl(mkOr(8, mkShl(8, b0, 4), mkInt(8, code))), segSp(rest)}, []*Term{mkLt(mkI(0), n, true), mkLt(n, mkI(1<<31), true)}})
		}
	} else {
		v := mkSym("v", types.Typ[types.Int32])
		neg := mkLt(v, mkInt(32, 0), true)
		for i := 16; i < 31; i++ {
			// any version with this bit wrong
			bad := uint64(0x80010000) ^ 1<<i
			x := mkOr(32, mkAnd(32, v, mkInt(32, 0x7fffffff&^(1<<i))), mkInt(32, bad&(1<<31|1<<i)))
			cs = append(cs, tc{fmt.Sprintf("a message of another version (bit %d)", i), "MessageBegin", append(i32(x), segSp(rest)), nil})
		}
		if w.p.strict {
			cs = append(cs, tc{"a message without a version", "MessageBegin", append(i32(v), segSp(rest)), []*Term{mkNot(neg)}})
		}
	}
	// sizes beyond the range
	if w.p.compact {
		n := mkSym("n", types.Typ[types.Uint64])
		e := mkInt(8, 0xf8)
		big := []*Term{mkLt(mkI(1<<31-1), n, false)}
		cs = append(cs,
			tc{"a string of more than 2^31-1 bytes", "String", []*Term{segUv(n), segSp(rest)}, big},
			tc{"bytes of more than 2^31-1 bytes", "Bytes", []*Term{segUv(n), segSp(rest)}, big},
			tc{"a map of more than 2^31-1 entries", "MapBegin", []*Term{segUv(n), segSp(rest)}, big},
			tc{"a list of more than 2^31-1 elements", "ListBegin", []*Term{segEl(e), segUv(n), segSp(rest)}, big},
			tc{"a set of more than 2^31-1 elements", "SetBegin", []*Term{segEl(e), segUv(n), segSp(rest)}, big})
	} else {
		v := mkSym("v", types.Typ[types.Int32])
		neg := []*Term{mkLt(v, mkInt(32, 0), true)}
		t1, t2 := segEl(b("t1")), segEl(b("t2"))
		cs = append(cs,
			tc{"a string of negative size", "String", append(i32(v), segSp(rest)), neg},
			tc{"bytes of negative size", "Bytes", append(i32(v), segSp(rest)), neg},
			tc{"a map of negative size", "MapBegin", append(append([]*Term{t1, t2}, i32(v)...), segSp(rest)), neg},
			tc{"a list of negative size", "ListBegin", append(append([]*Term{t1}, i32(v)...), segSp(rest)), neg},
			tc{"a set of negative size", "SetBegin", append(append([]*Term{t1}, i32(v)...), segSp(rest)), neg})
	}
	for _, c := range cs {
		if len(ops) > 0 && !slices.Contains(ops, c.op) {
			continue
		}
		skips := []bool{false}
		if c.op == "String" {
			skips = append(skips, true)
		}
		for _, sk := range skips {
			name := "read " + w.p.name + " " + c.name
			o := wireOp{name: c.op, a: map[string]*Term{}}
			if sk {
				o.a["skip"] = tTrue
				name = "skip " + w.p.name + " " + c.name
			}
			w.c.guard(name, func() {
				src := mkSym("src", w.ioType("Reader"))
				for _, ob := range w.open(w.base.clone(), "NewReader", src) {
					st := ob.st
					ok := true
					for _, x := range c.conds {
						ok = ok && st.assume(x, true)
					}
					if !ok {
						w.in.fail("inconsistent scenario")
					}
					w.in.streams[src] = c.segs
					w.in.gen++
					mark := st.log
					for _, out := range w.callRead(st, ob.v, o) {
						w.c.nPaths++
						if !j.sane(out, name, mark) {
							continue
						}
						res := out.results()
						switch out.st.eval(mkEq(res[len(res)-1], tNil)) {
						case yes:
							j.bad(catRefuse, name, out.st, out.pos, "is accepted")
						case no:
							j.ok(catRefuse)
						default:
							j.bad(catUndecided, name, out.st, out.pos, "cannot tell whether the error is nil")
						}
					}
				}
			})
		}
	}
}

// ---- JoinProtocol

func joinProtocol(c *Ctx, j *judge) {
	in := newInterp(c.ld)
	base := in.baseState("encoding/thriftwire")
	fn := c.ld.fn("encoding/thriftwire", "JoinProtocol")
	pt := c.ld.typ("encoding/thriftwire", "Protocol")
	in.invokeHook = func(in *Interp, st *State, recv *Term, m *types.Func, cc *callCtx) ([]Out, bool) {
		return in.opaqueCall(st, "invoke", m.Name(), append([]*Term{recv}, cc.args...), m.Type().(*types.Signature).Results(), cc.pos), true
	}
	r, wr := mkSym("r", pt), mkSym("w", pt)
	for _, out := range in.callFn(base.clone(), fn, []*Term{r, wr}, nil, token.NoPos, nil) {
		if !j.sane(out, "JoinProtocol", base.log) {
			continue
		}
		for _, x := range []struct {
			name string
			to   *Term
			io   string
		}{{"NewReader", r, "Reader"}, {"NewWriter", wr, "Writer"}} {
			name := "JoinProtocol(r, w)." + x.name
			c.guard(name, func() {
				arg := mkSym("x", in.stdType("io", x.io))
				p := out.val
				mark := out.st.log
				var outs []Out
				if p == r || p == wr {
					outs = in.opaqueCall(out.st.clone(), "invoke", x.name, []*Term{p, arg}, in.methodSig(pt, x.name).Results(), token.NoPos)
				} else {
					outs = in.callFn(out.st.clone(), in.methodOf(p, x.name), []*Term{p.args[0], arg}, nil, token.NoPos, nil)
				}
				for _, o := range outs {
					c.nPaths++
					if !j.sane(o, name, mark) {
						continue
					}
					var evs []*Ev
					for _, e := range eventsSince(o.st.log, mark) {
						if e.kind == "invoke" {
							evs = append(evs, e)
						}
					}
					if len(evs) != 1 || evs[0].name != x.name || evs[0].args[0] != x.to || evs[0].args[1] != arg {
						j.bad(catRoute, name, o.st, o.pos, "does not make exactly the call %s on the right protocol: %v", x.name, evs)
					} else if o.val != evs[0].res[0] {
						j.bad(catRoute, name, o.st, o.pos, "does not return what that protocol made")
					} else {
						j.ok(catRoute)
					}
				}
			})
		}
	}
	c.cover(in)
}

func (in *Interp) methodSig(t types.Type, name string) *types.Signature {
	it := t.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i).Type().(*types.Signature)
		}
	}
	in.fail("no method %s", name)
	return nil
}

// ---- bounded recursion

// measure checks the recursive calls of Skip: an integer argument must move
// towards a constant bound on each.
func skipDepth(c *Ctx, j *judge) {
	in := newInterp(c.ld)
	base := in.baseState("encoding/thriftwire")
	rt := c.ld.typ("encoding/thriftwire", "Reader")
	skip := c.ld.fn("encoding/thriftwire", "Skip")
	in.invokeHook = func(in *Interp, st *State, recv *Term, m *types.Func, cc *callCtx) ([]Out, bool) {
		return in.opaqueCall(st, "invoke", m.Name(), append([]*Term{recv}, cc.args...), m.Type().(*types.Signature).Results(), cc.pos), true
	}
	// the functions that recur, found from Skip itself
	recs := map[*ssa.Function]bool{}
	in.recHook = func(st *State, fn *ssa.Function, outer, inner []*Term, pos token.Pos) { recs[fn] = true }
	r := mkSym("r", rt)
	for _, k := range wireTypes {
		in.callFn(base.clone(), skip, []*Term{r, ty(k)}, nil, token.NoPos, nil)
	}
	for fn := range recs {
		name := "recursion of " + fn.Name()
		for _, k := range []int64{wStruct, wMap, wSet, wList} {
			checkMeasure(c, j, in, base, fn, name, func(i int, t types.Type) *Term {
				if types.Identical(t, c.ld.typ("encoding/thriftwire", "Type")) {
					return ty(k)
				}
				return nil
			})
		}
	}
	if len(recs) == 0 {
		j.ok(catDepth) // nothing recurs
	}
	c.cover(in)
}

// checkMeasure interprets fn on symbolic arguments and looks for an integer
// parameter that every recursive call moves towards a bound.
func checkMeasure(c *Ctx, j *judge, in *Interp, base *State, fn *ssa.Function, name string, fix func(i int, t types.Type) *Term) {
	args := make([]*Term, len(fn.Params))
	st := base.clone()
	for i, p := range fn.Params {
		if args[i] = fix(i, p.Type()); args[i] == nil {
			args[i] = mkSym(p.Name(), p.Type())
		}
	}
	type cand struct{ down, up bool }
	cands := map[int]*cand{}
	other := false
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && args[i].op == OpSym {
			cands[i] = &cand{true, true}
		} else if fix(i, p.Type()) == nil {
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Struct:
				other = true
			}
		}
	}
	calls := 0
	var where token.Pos
	in.recHook = func(st *State, f *ssa.Function, outer, inner []*Term, pos token.Pos) {
		if f != fn {
			return
		}
		calls++
		where = pos
		for i, cd := range cands {
			p := args[i]
			sg := natSigned(p)
			a := inner[i]
			if cd.down {
				// smaller, and positive before
				cd.down = st.eval(mkLt(a, p, sg)) == yes && st.eval(mkLt(p, mkInt(p.width(), 0), true)) != yes
				if lo, _ := st.rng(a, true); lo < -16 {
					cd.down = false
				}
			}
			if cd.up {
				_, hi := st.rng(a, true)
				cd.up = st.eval(mkLt(p, a, sg)) == yes && hi <= 1<<24
			}
		}
	}
	c.guard(name, func() { in.callFn(st, fn, args, nil, token.NoPos, nil) })
	if calls == 0 {
		j.ok(catDepth)
		return
	}
	for _, cd := range cands {
		if cd.down || cd.up {
			c.nOblig += calls - 1
			j.ok(catDepth)
			return
		}
	}
	if other {
		j.bad(catUndecided, name, nil, where, "no integer parameter bounds the recursion, other state may")
		return
	}
	j.bad(catDepth, name, nil, where, "%s calls itself without any integer parameter moving towards a bound: the nesting of the input is the only limit", fn.Name())
}

func init() {
	register("W09", 196, "the exported header helpers of the compact protocol agree with the protocol and keep their bounds", func(c *Ctx) {
		j := newJudge(c, catHelper, catPanic, catBounds)
		eachWire(c, "compact", func(w *wctx) { w.helpers(j) })
	})
	register("W10", 49, "messages, types and sizes outside the protocol are refused when read", func(c *Ctx) {
		j := newJudge(c, catRefuse, catPanic)
		eachWire(c, "", func(w *wctx) { w.refusals(j) })
	})
	register("W12", 2, "a joined protocol reads by the first protocol and writes by the second", func(c *Ctx) {
		j := newJudge(c, catRoute, catPanic)
		joinProtocol(c, j)
	})
	register("W13", 9, "skipping recurs only to a bounded depth", func(c *Ctx) {
		j := newJudge(c, catDepth)
		skipDepth(c, j)
	})
}
