package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// walkEvents visits the events of a path, those of summarised loop
// iterations included, with the state in which they hold.
func walkEvents(st *State, mark *Ev, f func(st *State, e *Ev)) {
	for _, e := range eventsSince(st.log, mark) {
		if e.loop != nil {
			for _, it := range e.loop.iters {
				walkEvents(it, iterMark(e.loop, it), f)
			}
		}
		f(st, e)
	}
}

func (w *wctx) skipOps() [][]wireOp {
	sk := func(n string) wireOp {
		o := opValue(n)
		o.a["skip"] = tTrue
		return o
	}
	r := [][]wireOp{ops(sk("String"), opValue("Byte")), ops(sk("UUID"), opValue("Byte")), ops(sk("String"), sk("UUID"))}
	return r
}

func skipV(k int64, sub ...any) wireOp {
	return wireOp{name: "SkipValue", a: map[string]*Term{"type": ty(k)}, sub: ops(sub...)}
}

// sample is a value of type k as a sequence of operations.
func (w *wctx) sample(k int64, n string) []wireOp {
	sb, se, fe := op0("StructBegin"), op0("StructEnd"), op0("FieldEnd")
	switch k {
	case wStruct:
		return ops(sb, opField(wByte, mkInt(16, 700)), opValue("Byte"), fe, opField(wBool, mkInt(16, 702)), opValue("Bool"), fe, se)
	case wMap:
		return ops(map1(wString, wBool, 1), opValue("String"), opValue("Bool"), op0("MapEnd"))
	case wSet:
		return ops(sized1("SetBegin", wI16, 2), opValue("I16"), opValue("I16"), op0("SetEnd"))
	case wList:
		return ops(sized1("ListBegin", wDouble, 1), opValue("Double"), op0("ListEnd"))
	}
	return ops(opValue(valueOf[k]))
}

// skipScripts skip values of every type where values stand: in struct fields
// and after one another.
func (w *wctx) skipScripts() [][]wireOp {
	sb, se, fe := op0("StructBegin"), op0("StructEnd"), op0("FieldEnd")
	var r [][]wireOp
	// a skipped field among others
	around := func(k int64, sub ...any) []wireOp {
		return ops(sb, opField(wByte, symID("a")), opValue("Byte"), fe,
			opField(k, symID("s")), skipV(k, sub...), fe,
			opField(wI16, symID("b")), opValue("I16"), fe, se)
	}
	for _, k := range wireTypes {
		r = append(r, around(k, w.sample(k, "x")))
		if k != wBool {
			r = append(r, ops(skipV(k, w.sample(k, "x")), opValue("Byte")))
		}
	}
	for _, k := range wireTypes {
		r = append(r, ops(skipV(wStruct, sb, opField(k, symID("f")), w.sample(k, "x"), fe, opField(wByte, symID("g")), opValue("Byte"), fe, se), opValue("Byte")))
		r = append(r, ops(skipV(wList, sized1("ListBegin", k, 2), w.sample(k, "x"), w.sample(k, "y"), op0("ListEnd")), opValue("Byte")))
		r = append(r, ops(skipV(wSet, sized1("SetBegin", k, 1), w.sample(k, "x"), op0("SetEnd")), opValue("Byte")))
		r = append(r, ops(skipV(wMap, map1(k, wByte, 1), w.sample(k, "x"), opValue("Byte"), op0("MapEnd")), opValue("Byte")))
		r = append(r, ops(skipV(wMap, map1(wI16, k, 2), opValue("I16"), w.sample(k, "x"), opValue("I16"), w.sample(k, "y"), op0("MapEnd")), opValue("Byte")))
	}
	r = append(r,
		around(wStruct, sb, se),
		around(wList, sized1("ListBegin", wStruct, 0), op0("ListEnd")),
		around(wMap, map1(wByte, wStruct, 0), op0("MapEnd")),
		around(wStruct, sb, opField(wStruct, mkInt(16, 2)), sb, opField(wBool, mkInt(16, 300)), opValue("Bool"), fe, se, fe, opField(wList, mkInt(16, 3)), sized1("ListBegin", wStruct, 1), sb, opField(wI32, mkInt(16, 1)), opValue("I32"), fe, se, op0("ListEnd"), fe, se),
		around(wList, sized1("ListBegin", wBool, 3), opValue("Bool"), opValue("Bool"), opValue("Bool"), op0("ListEnd")),
	)
	return r
}

func swallowCats(c *Ctx) *judge { return newJudge(c, catSwallow) }

// writers opens a writer and performs the operations, giving up on paths
// that go wrong; it returns the states that went well.
func (w *wctx) flushCheck(j *judge, v, dst *Term, s wstate, name string) []wstate {
	var r []wstate
	for _, out := range w.call(s.st.clone(), v, "Flush") {
		w.c.nPaths++
		if !j.sane(out, name, s.mark) {
			continue
		}
		errv := out.val
		isNil := out.st.eval(mkEq(errv, tNil))
		var flushed, delivered *Ev
		okOrder := true
		var fail *Ev
		for _, e := range eventsSince(out.st.log, s.mark) {
			switch {
			case e.fail:
				if fail == nil {
					fail = e
				}
				if e.kind == "invoke" && e.name == "Flush" {
					flushed = e
				}
			case e.kind == "deliver" && e.args[0] == dst:
				delivered = e
				if flushed != nil {
					okOrder = false
				}
			case e.kind == "invoke" && e.name == "Flush" && e.args[0] == dst:
				flushed = e
			}
		}
		if isNil == unknown {
			j.bad(catUndecided, name, out.st, out.pos, "cannot tell whether the returned error %s is nil", errv)
			continue
		}
		if fail != nil {
			if isNil == yes {
				j.bad(catSwallow, name, out.st, fail.pos, "%s fails but Flush returns a nil error", fail.name)
			} else {
				j.ok(catSwallow)
			}
			continue
		}
		if isNil == no {
			j.bad(catSpurious, name, out.st, out.pos, "returns an error although nothing failed")
			continue
		}
		got := w.delivered(out.st, s.mark, dst)
		if !out.st.equalSeq(got, s.segs) {
			j.bad(catBytes, name, out.st, out.pos, "hands %s to the underlying writer, written was %s", mkSeq(out.st.normSegs(got)...), mkSeq(out.st.normSegs(s.segs)...))
			continue
		}
		j.ok(catBytes)
		isF := unknown
		for t, v := range out.st.facts.m {
			if t.op == OpApp && strings.HasPrefix(t.s, "is:") && len(t.args) == 1 && t.args[0] == dst {
				if !v {
					isF = no
				} else if isF == unknown {
					isF = yes
				}
			}
		}
		switch {
		case flushed == nil && isF != no:
			j.bad(catFlusher, name, out.st, out.pos, "returns without flushing an underlying writer that has a Flush method")
			continue
		case flushed != nil && !okOrder:
			j.bad(catFlusher, name, out.st, flushed.pos, "flushes the underlying writer before handing it all data")
			continue
		}
		_ = delivered
		j.ok(catFlusher)
		r = append(r, wstate{st: out.st, es: s.es, mark: s.mark})
	}
	return r
}

const catFlusher cat = "underlying-flush"
const catReset cat = "reset"
const catSkip cat = "skip"

func (w *wctx) delivered(st *State, mark *Ev, dst *Term) []*Term {
	var segs []*Term
	for _, e := range eventsSince(st.log, mark) {
		if e.kind == "deliver" && e.args[0] == dst {
			segs = append(segs, e.args[1].args...)
		}
	}
	return segs
}

func (w *wctx) writeThenFlush(j *judge, ops []wireOp) {
	dst := mkSym("dst", w.ioType("Writer"))
	for _, ob := range w.open(w.base.clone(), "NewWriter", dst) {
		for _, s := range w.writeFrom(j, ob, dst, ops, "") {
			if s.segs == nil && len(ops) > 0 {
				// nothing is pending: an operation without output
			}
			name := "flush after write " + opsName(w.p, ops, len(ops)-1)
			for _, s2 := range w.flushCheck(j, ob.v, dst, s, name) {
				// and once more: nothing is delivered twice
				s2.segs = nil
				s2.mark = s2.st.log
				w.flushCheck(j, ob.v, dst, s2, "second "+name)
			}
		}
	}
}

// shortScripts is a selection of scripts for properties that add a step.
func (w *wctx) shortScripts() [][]wireOp {
	sb, se, fe := op0("StructBegin"), op0("StructEnd"), op0("FieldEnd")
	var r [][]wireOp
	for _, n := range []string{"Bool", "Byte", "Double", "I16", "I32", "I64", "String", "Bytes", "UUID"} {
		r = append(r, ops(opValue(n)))
	}
	r = append(r, ops(w.opMessage()), ops(w.opMessage(), sb, opField(wBool, symID("a")), opValue("Bool"), fe, se, op0("MessageEnd")),
		ops(sb), ops(sb, opField(wI32, symID("a"))), ops(sb, opField(wBool, symID("a"))),
		ops(sb, opField(wStruct, symID("a")), sb, opField(wByte, symID("b")), opValue("Byte")),
		ops(opSeq("ListBegin", wI32)), ops(opSeq("SetBegin", wBool)), ops(opMap(wString, wI64)))
	return r
}

// ---- Reset

func (w *wctx) resetWriter(j *judge, before []wireOp) {
	dst, dst2 := mkSym("dst", w.ioType("Writer")), mkSym("dst2", w.ioType("Writer"))
	afters := w.resetAfter()
	pre := "write " + opsName(w.p, before, len(before)-1) + ", Reset, "
	if len(before) == 0 {
		pre = "Reset, "
	}
	for _, ob := range w.open(w.base.clone(), "NewWriter", dst) {
		// every state the operations leave, failures included
		cur := []*State{ob.st}
		for i, o := range before {
			var next []*State
			for _, st := range cur {
				for _, out := range w.call(st.clone(), ob.v, "Write"+o.name, w.writeArgs(st, o)...) {
					if out.kind == outRet && out.st.undec == "" {
						w.in.blur(out.st, w.base, i)
						next = append(next, out.st)
					}
				}
			}
			cur = w.joinSts(ob.v, next, pre)
		}
		var res []*State
		for _, st := range cur {
			mark := st.log
			for _, out := range w.call(st.clone(), ob.v, "Reset", dst2) {
				w.c.nPaths++
				if !j.sane(out, pre, mark) {
					continue
				}
				for _, e := range eventsSince(out.st.log, mark) {
					if e.kind == "deliver" && e.args[0] == dst2 {
						j.bad(catReset, pre, out.st, e.pos, "hands old data to the new writer")
					}
				}
				j.ok(catReset)
				res = append(res, out.st)
			}
		}
		w.unmatchedEnd(j, "Write", ob, res, pre)
		for _, st := range w.joinSts(ob.v, res, pre) {
			for _, after := range afters {
				w.c.guard(pre+opsName(w.p, after, len(after)-1), func() {
					for _, s := range w.writeFrom(j, obj{st.clone(), ob.v}, dst2, after, pre) {
						w.flushCheck(j, ob.v, dst2, s, pre+"write "+opsName(w.p, after, len(after)-1)+", Flush")
					}
				})
			}
		}
	}
}

// unmatchedEnd ends a struct which the stream after Reset has not begun: if
// this is refused when new, it is so after Reset.
func (w *wctx) unmatchedEnd(j *judge, dir string, ob obj, res []*State, pre string) {
	name := pre + strings.ToLower(dir) + " StructEnd"
	w.c.guard(name, func() {
		accepts := func(st *State) (bad *Out, refused bool) {
			refused = true
			for _, out := range w.call(st.clone(), ob.v, dir+"StructEnd") {
				w.c.nPaths++
				if out.kind != outRet || out.st.undec != "" {
					continue
				}
				switch out.st.eval(mkEq(out.val, tNil)) {
				case yes:
					return &out, false
				case unknown:
					refused = false
				}
			}
			return nil, refused
		}
		if _, refused := accepts(ob.st); !refused {
			return
		}
		for _, st := range res {
			if out, _ := accepts(st); out != nil {
				j.bad(catReset, name, out.st, out.pos, "ends a struct begun before Reset, which a new one refuses")
			} else {
				j.ok(catReset)
			}
		}
	})
}

func (w *wctx) joinSts(v *Term, sts []*State, name string) []*State {
	var r []*State
	for _, i := range w.in.joinAll(w.base, sts, func(i int) []*Term { return []*Term{v} }, name) {
		r = append(r, sts[i])
	}
	return r
}

func (w *wctx) resetAfter() [][]wireOp {
	sb, se, fe := op0("StructBegin"), op0("StructEnd"), op0("FieldEnd")
	return [][]wireOp{
		ops(opValue("Bool")), ops(opValue("String")),
		ops(w.opMessage(), sb, opField(wI32, symID("p")), opValue("I32"), fe, opField(wBool, symID("q")), opValue("Bool"), fe, se, op0("MessageEnd")),
	}
}

func (w *wctx) resetReader(j *judge, before []wireOp) {
	src, src2 := mkSym("src", w.ioType("Reader")), mkSym("src2", w.ioType("Reader"))
	afters := w.resetAfter()
	pre := "read " + opsName(w.p, before, len(before)-1) + ", Reset, "
	if len(before) == 0 {
		pre = "Reset, "
	}
	for _, ob := range w.open(w.base.clone(), "NewReader", src) {
		cur := []*State{ob.st}
		for i, o := range before {
			var next []*State
			for _, st := range cur {
				s2 := st.clone()
				for _, out := range w.callRead(s2, ob.v, o) {
					if out.kind == outRet && out.st.undec == "" {
						w.in.blur(out.st, w.base, i)
						next = append(next, out.st)
					}
				}
			}
			cur = w.joinSts(ob.v, next, pre)
		}
		var res []*State
		for _, st := range cur {
			mark := st.log
			for _, out := range w.call(st.clone(), ob.v, "Reset", src2) {
				w.c.nPaths++
				if !j.sane(out, pre, mark) {
					continue
				}
				for _, e := range eventsSince(out.st.log, mark) {
					if e.kind == "io" {
						j.bad(catReset, pre, out.st, e.pos, "Reset reads from a source")
					}
				}
				j.ok(catReset)
				res = append(res, out.st)
			}
		}
		w.unmatchedEnd(j, "Read", ob, res, pre)
		for _, st := range w.joinSts(ob.v, res, pre) {
			for _, after := range afters {
				w.c.guard(pre+opsName(w.p, after, len(after)-1), func() {
					w.readFrom(j, obj{st.clone(), ob.v}, src2, after, pre)
				})
			}
		}
	}
}

// callRead calls the read method for an operation with arbitrary input.
func (w *wctx) callRead(st *State, v *Term, o wireOp) []Out {
	var args []*Term
	switch o.name {
	case "Bytes":
		args = []*Term{mkSym("prefix", byteSlice)}
	case "UUID":
		args = []*Term{mkPtr(w.in.newObj(st, types.NewArray(tByte, 16), mkSym("old", types.NewArray(tByte, 16))))}
	}
	name := "Read" + o.name
	if o.a["skip"] != nil {
		name, args = "Skip"+o.name, nil
	}
	return w.call(st, v, name, args...)
}

// aliasCheck resets a reader or writer made on a bufio object of the caller.
func (w *wctx) aliasCheck(j *judge) {
	for _, kind := range []string{"Reader", "Writer"} {
		st := w.base.clone()
		bt := w.in.stdType("bufio", kind)
		inner := mkSym("inner", w.ioType(kind))
		content := newReaderTerm(inner)
		if kind == "Writer" {
			content = withArg(newWriterTerm(inner), 1, mkSeq(segSp(mkSym("pending", byteSlice))))
		}
		id := w.in.newObj(st, bt, content)
		ptr := mkPtr(id)
		x := mkIface(types.NewPointer(bt), ptr)
		for _, ob := range w.open(st, "New"+kind, x) {
			next := mkSym("next", w.ioType(kind))
			name := w.p.name + " Reset of a " + kind + " made on a *bufio." + kind
			for _, out := range w.call(ob.st.clone(), ob.v, "Reset", next) {
				w.c.nPaths++
				if !j.sane(out, name, ob.st.log) {
					continue
				}
				bad := false
				for _, e := range eventsSince(out.st.log, ob.st.log) {
					if (e.kind == "rreset" || e.kind == "wreset") && e.args[0] == ptr {
						j.bad(catReset, name, out.st, e.pos, "resets the *bufio.%s of the caller: it then reads or writes elsewhere", kind)
						bad = true
					}
				}
				if h, _ := out.st.heap.get(id); h != content && !bad {
					j.bad(catReset, name, out.st, out.pos, "changes the *bufio.%s of the caller", kind)
					bad = true
				}
				if !bad {
					j.ok(catReset)
				}
			}
		}
	}
}

// ---- hostile input

// readStates drives a reader through operations on arbitrary input.
func (w *wctx) hostile(j *judge, chk func(o wireOp, out Out, name string, mark *Ev)) {
	src := mkSym("src", w.ioType("Reader"))
	sb, se := op0("StructBegin"), op0("StructEnd")
	fb := wireOp{name: "FieldBegin"}
	sk := func(n string) wireOp { return wireOp{name: n, a: map[string]*Term{"skip": tTrue}} }
	var all []wireOp
	for _, n := range []string{"MessageBegin", "MessageEnd", "StructBegin", "FieldBegin", "FieldEnd", "MapBegin", "MapEnd", "SetBegin", "SetEnd", "ListBegin", "ListEnd",
		"Bool", "Byte", "Double", "I16", "I32", "I64", "String", "Bytes", "UUID"} {
		all = append(all, op0(n))
	}
	all = append(all, sk("String"), sk("UUID"))
	prefixes := [][]wireOp{nil, {sb}, {sb, fb}, {sb, fb, op0("FieldEnd")}, {sb, fb, sb}, {sb, fb, sb, se}, {op0("MessageBegin")}, {op0("ListBegin")}, {op0("Bool")}, {op0("String")}}
	if !w.c.thorough {
		prefixes = [][]wireOp{nil, {sb, fb}, {sb, fb, sb, se}, {op0("MessageBegin")}}
	}
	for _, ob := range w.open(w.base.clone(), "NewReader", src) {
		for _, pre := range prefixes {
			cur := []*State{ob.st}
			tail := all
			if len(pre) > 0 && pre[0].name == "StructBegin" && !(len(pre) == 4 && pre[3].name == "StructEnd") {
				tail = append(append([]wireOp(nil), all...), se)
			}
			for _, o := range pre {
				var next []*State
				for _, st := range cur {
					for _, out := range w.callRead(st.clone(), ob.v, o) {
						if out.kind == outRet && out.st.undec == "" {
							next = append(next, out.st)
						}
					}
				}
				for _, st := range next {
					w.in.blur(st, w.base, len(pre))
				}
				cur = w.joinSts(ob.v, next, "hostile input")
				if timing {
					fmt.Fprintf(os.Stderr, "hostile %s %s: %d of %d states %v\n", w.p.name, opsName(w.p, pre, len(pre)-1), len(cur), len(next), time.Now().Format("05.000"))
				}
			}
			for _, o := range tail {
				seq := append(append([]wireOp(nil), pre...), o)
				name := "read " + opsName(w.p, seq, len(seq)-1)
				if o.a["skip"] != nil {
					name = "read " + opsName(w.p, seq, len(seq)-2) + " Skip" + o.name
				}
				w.c.guard(name, func() {
					for _, st := range cur {
						for _, out := range w.callRead(st.clone(), ob.v, o) {
							w.c.nPaths++
							chk(o, out, name, st.log)
						}
					}
				})
			}
		}
	}
}

// bounded reports whether the allocation of n elements is justified by a
// constant, the buffer size, or data received.
func (w *wctx) boundedAlloc(st *State, n *Term, mark *Ev) bool {
	if _, hi := st.rng(n, true); hi <= 1<<16 {
		return true
	}
	var cands []*Term
	var sum *Term = mkI(0)
	for _, e := range eventsSince(st.log, mark) {
		if e.kind == "io" && !e.fail && len(e.args) > 1 && isIntTerm(e.args[1]) && e.args[1].width() == 64 {
			cands = append(cands, e.args[1])
			sum = mkAdd(64, sum, e.args[1])
		}
	}
	for t := range st.dom.m {
		if t.op == OpApp && t.s == "Size" {
			cands = append(cands, t)
		}
	}
	cands = append(cands, sum)
	for _, t := range w.sizeTerms(n) {
		cands = append(cands, t)
	}
	for _, b := range cands {
		for _, k := range []int64{1, 2} {
			if st.eval(mkLt(mkAdd(64, mkMul(64, mkI(k), b), mkI(1<<16)), n, true)) == no {
				return true
			}
			if st.eval(mkLt(b, n, true)) == no {
				return true
			}
		}
	}
	return false
}

func (w *wctx) sizeTerms(t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpApp && (t.s == "Size" || t.s == "len") {
			r = append(r, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return r
}

var headerSize = map[string]string{"MapBegin": "MapHeader", "SetBegin": "SetHeader", "ListBegin": "ListHeader"}

func init() {
	register("W01", 447, "every failure of the underlying writer makes the write or flush that ran into it return an error", func(c *Ctx) {
		j := swallowCats(c)
		eachWire(c, "", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
			w.eachScript(w.shortScripts(), func(ops []wireOp) { w.writeThenFlush(j, ops) })
		})
	})
	register("W02", 1779, "every failure of the underlying reader makes the read or skip that ran into it return an error", func(c *Ctx) {
		j := swallowCats(c)
		eachWire(c, "", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.eachScript(w.skipOps(), func(ops []wireOp) { w.readScript(j, ops) })
			w.in.inline = 6
			w.eachScript(w.skipScripts(), func(ops []wireOp) { w.readScript(j, ops) })
		})
	})
	register("W03", 1284, "sizes read are within 0..2^31-1 and no allocation is sized by an unverified length", func(c *Ctx) {
		j := newJudge(c, catAlloc, catInvalid)
		eachWire(c, "", func(w *wctx) {
			w.hostile(j, func(o wireOp, out Out, name string, mark *Ev) {
				if out.st.undec != "" {
					c.undecided(name, out.st.undec)
					return
				}
				walkEvents(out.st, mark, func(st *State, e *Ev) {
					if e.kind != "makeslice" {
						return
					}
					n := e.args[len(e.args)-1]
					if w.boundedAlloc(st, n, mark) {
						j.ok(catAlloc)
					} else {
						j.bad(catAlloc, name, st, e.pos, "allocates %s elements, a number the input chooses freely", n)
					}
				})
				if out.kind == outPanic {
					return
				}
				res := out.results()
				if h := headerSize[o.name]; h != "" && out.st.eval(mkEq(res[len(res)-1], tNil)) != no {
					n := w.field(res[0], h, "Size")
					if lo, hi := out.st.rng(n, true); lo < 0 || hi > 1<<31-1 {
						j.bad(catInvalid, name, out.st, out.pos, "returns a size in %d..%d without an error", lo, hi)
					} else {
						j.ok(catInvalid)
					}
				}
			})
		})
	})
	register("W04", 109, "a size that does not fit the encoding is refused when written", func(c *Ctx) {
		j := newJudge(c, catInvalid)
		eachWire(c, "", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
		})
	})
	register("W05", 518, "no read asks the source for bytes beyond the value it decodes", func(c *Ctx) {
		j := newJudge(c, catOverread)
		eachWire(c, "", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.eachScript(w.skipOps(), func(ops []wireOp) { w.readScript(j, ops) })
			w.in.inline = 6
			w.eachScript(w.skipScripts(), func(ops []wireOp) { w.readScript(j, ops) })
		})
	})
	register("W06", 3449, "skipping a value consumes exactly its encoding and leaves the reader as reading it would", func(c *Ctx) {
		j := newJudge(c, catBytes, catSpurious, catConsume, catPanic, catBounds, catSkip, catSwallow)
		eachWire(c, "", func(w *wctx) {
			w.eachScript(w.skipOps(), func(ops []wireOp) { w.readScript(j, ops) })
			w.in.inline = 6
			w.eachScript(w.skipScripts(), func(ops []wireOp) { w.readScript(j, ops) })
		})
		c.guard("Skip", func() { skipGrammar(c, j) })
	})
	register("W07", 154, "Flush hands all written bytes to the underlying writer, then flushes it, and reports what fails", func(c *Ctx) {
		j := newJudge(c, catBytes, catSpurious, catSwallow, catFlusher, catPanic)
		eachWire(c, "", func(w *wctx) {
			w.eachScript(w.shortScripts(), func(ops []wireOp) { w.writeThenFlush(j, ops) })
		})
	})
	register("W08", 2691, "Reset leaves nothing of the past: the reader or writer behaves like a new one on its new stream", func(c *Ctx) {
		j := newJudge(c, catReset, catBytes, catSpurious, catConsume, catFlusher, catPanic, catBounds)
		eachWire(c, "", func(w *wctx) {
			w.c.guard("alias", func() { w.aliasCheck(j) })
			for _, before := range append(w.shortScripts(), nil) {
				w.c.guard("reset", func() { w.resetWriter(j, before) })
				w.c.guard("reset", func() { w.resetReader(j, before) })
			}
		})
	})
	register("W11", 3511, "no input and no value makes a reader, a writer or Skip panic", func(c *Ctx) {
		j := newJudge(c, catPanic, catBounds)
		eachWire(c, "", func(w *wctx) {
			w.hostile(j, func(o wireOp, out Out, name string, mark *Ev) { j.sane(out, name, mark) })
			w.hostileWrites(j)
		})
	})
}

// hostileWrites writes headers with arbitrary content.
func (w *wctx) hostileWrites(j *judge) {
	dst := mkSym("dst", w.ioType("Writer"))
	tt := func(n string) *Term { return mkSym(n, w.wireType("Type")) }
	heads := func() []wireOp {
		return []wireOp{
			{name: "MessageBegin", a: map[string]*Term{"name": mkSym("name", tString), "type": mkSym("mtype", w.wireType("MessageType")), "id": mkSym("id", types.Typ[types.Int32])}},
			{name: "FieldBegin", a: map[string]*Term{"type": tt("t"), "id": symID("id")}},
			{name: "MapBegin", a: map[string]*Term{"key": tt("k"), "value": tt("v"), "size": mkSym("n", tInt)}},
			{name: "SetBegin", a: map[string]*Term{"elem": tt("e"), "size": mkSym("n", tInt)}},
			{name: "ListBegin", a: map[string]*Term{"elem": tt("e"), "size": mkSym("n", tInt)}},
			op0("StructBegin"), op0("MessageEnd"), op0("FieldEnd"), op0("MapEnd"), op0("SetEnd"), op0("ListEnd"),
			opValue("Bool"), opValue("Byte"), opValue("Double"), opValue("I16"), opValue("I32"), opValue("I64"), opValue("String"), opValue("Bytes"), opValue("UUID"),
		}
	}
	for _, ob := range w.open(w.base.clone(), "NewWriter", dst) {
		pres := [][]wireOp{nil, {op0("StructBegin")}}
		hs := heads()[:6]
		if !w.c.thorough {
			hs = hs[1:2]
		}
		for _, h := range hs {
			pres = append(pres, []wireOp{op0("StructBegin"), h})
		}
		for _, pre := range pres {
			cur := []*State{ob.st}
			for _, o := range pre {
				var next []*State
				for _, st := range cur {
					for _, out := range w.call(st.clone(), ob.v, "Write"+o.name, w.writeArgs(st, o)...) {
						if out.kind == outRet && out.st.undec == "" {
							next = append(next, out.st)
						}
					}
				}
				for _, st := range next {
					w.in.blur(st, w.base, len(pre))
				}
				cur = w.joinSts(ob.v, next, "hostile writes")
			}
			hs := heads()
			if len(pre) > 0 {
				hs = append(hs, op0("StructEnd"))
			}
			for _, o := range hs {
				name := "write " + w.p.name + " " + fmt.Sprint(append(append([]wireOp(nil), pre...), o))
				w.c.guard(name, func() {
					for _, st := range cur {
						s := st.clone()
						for _, out := range w.call(s, ob.v, "Write"+o.name, w.writeArgs(s, o)...) {
							w.c.nPaths++
							j.sane(out, name, st.log)
						}
					}
				})
			}
		}
	}
}

// ---- Skip over an arbitrary Reader

// skipGrammar checks Skip against the grammar of values, on any Reader.
func skipGrammar(c *Ctx, j *judge) {
	in := newInterp(c.ld)
	base := in.baseState("encoding/thriftwire")
	w := &wctx{c: c, in: in, base: base}
	rt := c.ld.typ("encoding/thriftwire", "Reader")
	skip := c.ld.fn("encoding/thriftwire", "Skip")
	in.invokeHook = func(in *Interp, st *State, recv *Term, m *types.Func, cc *callCtx) ([]Out, bool) {
		sig := m.Type().(*types.Signature)
		outs := in.opaqueCall(st, "invoke", m.Name(), append([]*Term{recv}, cc.args...), sig.Results(), cc.pos)
		if h := headerSize[strings.TrimPrefix(m.Name(), "Read")]; h != "" {
			for _, o := range outs {
				o.st.narrow(w.field(o.results()[0], h, "Size"), iv{0, 1<<31 - 1})
			}
		}
		return outs, true
	}
	types8 := append([]int64{0, 1, 5, 7, 9, 17, 255}, wireTypes...)
	for _, k := range types8 {
		name := fmt.Sprintf("Skip of type %d", k)
		c.guard(name, func() {
			r := mkSym("r", rt)
			for _, out := range in.callFn(base.clone(), skip, []*Term{r, ty(k)}, nil, token.NoPos, nil) {
				c.nPaths++
				if !j.sane(out, name, base.log) {
					continue
				}
				m := &skipMatch{w: w, r: r}
				msg := m.path(out, base.log, k)
				if strings.HasPrefix(msg, "?") {
					j.bad(catUndecided, name, out.st, out.pos, "%s", msg[1:])
				} else if msg != "" {
					j.bad(catSkip, name, out.st, out.pos, "%s", msg)
				} else {
					j.ok(catSkip)
				}
			}
		})
	}
	c.cover(in)
}

type skipMatch struct {
	w *wctx
	r *Term
}

var skipScalar = map[int64][]string{wBool: {"ReadBool"}, wByte: {"ReadByte"}, wDouble: {"ReadDouble"}, wI16: {"ReadI16"}, wI32: {"ReadI32"}, wI64: {"ReadI64"},
	wString: {"SkipString", "ReadString", "ReadBytes"}, wUUID: {"SkipUUID", "ReadUUID"}}

func relevant(log, mark *Ev) []*Ev {
	var r []*Ev
	for _, e := range eventsSince(log, mark) {
		if e.kind == "invoke" || e.kind == "rec" || e.kind == "loop" && len(e.loop.iters) > 0 {
			r = append(r, e)
		}
	}
	return r
}

// path checks one path through Skip; "" is fine.
func (m *skipMatch) path(out Out, mark *Ev, k int64) string {
	st := out.st
	isNil := st.eval(mkEq(out.val, tNil))
	if isNil == unknown {
		return "?cannot tell whether the returned error is nil"
	}
	evs := relevant(st.log, mark)
	for i, e := range evs {
		if e.fail {
			if isNil == yes {
				return e.name + " fails but Skip returns a nil error"
			}
			if i != len(evs)-1 {
				return "goes on after " + e.name + " failed"
			}
		}
	}
	failed := len(evs) > 0 && evs[len(evs)-1].fail
	known := skipScalar[k] != nil || k == wStruct || k == wMap || k == wSet || k == wList
	if !known {
		if len(evs) > 0 {
			return "reads something for an unknown type"
		}
		if isNil == yes {
			return "accepts an unknown type"
		}
		return ""
	}
	if !failed && isNil == no {
		return "returns an error although no read failed"
	}
	// the grammar; ok tells whether everything expected was seen
	i := 0
	next := func() *Ev {
		if i < len(evs) {
			i++
			return evs[i-1]
		}
		return nil
	}
	end := func(e *Ev) bool { return e == nil || e.fail }
	fin := func() string {
		if i < len(evs) {
			return fmt.Sprintf("calls %s which does not belong there", evs[i].name)
		}
		return ""
	}
	miss := func(e *Ev, what string) string {
		if e == nil {
			return "ends without " + what
		}
		return ""
	}
	call := func(e *Ev, names ...string) string {
		if e == nil {
			return ""
		}
		for _, n := range names {
			if e.kind == "invoke" && e.name == n && e.args[0] == m.r {
				return ""
			}
		}
		return fmt.Sprintf("calls %s where %s is due", e.name, strings.Join(names, " or "))
	}
	if ns := skipScalar[k]; ns != nil {
		e := next()
		if s := call(e, ns...); s != "" {
			return s
		}
		if s := miss(e, ns[0]); s != "" {
			return s
		}
		return fin()
	}
	kind := map[int64]string{wStruct: "Struct", wMap: "Map", wSet: "Set", wList: "List"}[k]
	e := next()
	if s := call(e, "Read"+kind+"Begin"); s != "" {
		return s
	}
	if end(e) {
		if s := miss(e, "Read"+kind+"Begin"); s != "" {
			return s
		}
		return fin()
	}
	var elems []*Term
	var size *Term
	hn := kind + "Header"
	switch k {
	case wMap:
		elems = []*Term{m.w.field(e.res[0], hn, "Key"), m.w.field(e.res[0], hn, "Value")}
		size = m.w.field(e.res[0], hn, "Size")
	case wSet, wList:
		elems = []*Term{m.w.field(e.res[0], hn, "Element")}
		size = m.w.field(e.res[0], hn, "Size")
	}
	if k == wStruct {
		f := fieldWalk{m: m, at: fwBegin}
		for i < len(evs) && !f.done {
			e := next()
			if s := f.step(st, e, true); s != "" {
				return s
			}
			if e.fail {
				return fin()
			}
		}
		if !f.done {
			return "leaves the struct before the stop field"
		}
		return fin()
	}
	e = next()
	if e != nil && e.kind == "loop" {
		for _, it := range e.loop.iters {
			if s := m.elemIter(it, iterMark(e.loop, it), elems); s != "" {
				return "an iteration " + s
			}
		}
		K := e.loop.K
		e = next()
		part := false
		for _, x := range elems {
			if e != nil && e.kind == "rec" {
				part = true
				if s := m.rec(e, x); s != "" {
					return s
				}
				if e.fail {
					return fin()
				}
				e = next()
			}
		}
		if part {
			return "leaves the container before its last element"
		}
		if st.eval(mkEq(K, size)) != yes {
			return fmt.Sprintf("skips %s elements where the header announces %s", st.norm(K), size)
		}
	} else if st.eval(mkEq(size, mkI(0))) != yes {
		return "?the elements are not skipped in a loop"
	}
	if s := call(e, "Read"+kind+"End"); s != "" {
		return s
	}
	if s := miss(e, "Read"+kind+"End"); s != "" {
		return s
	}
	return fin()
}

func (m *skipMatch) rec(e *Ev, typ *Term) string {
	if e == nil {
		return "ends before skipping the value"
	}
	if e.kind != "rec" {
		return fmt.Sprintf("calls %s where a value is to be skipped", e.name)
	}
	hasR, hasT := false, false
	for _, a := range e.args {
		hasR = hasR || a == m.r
		hasT = hasT || a == typ
	}
	if !hasR {
		return "skips a value on another reader"
	}
	if !hasT {
		return "skips a value of the wrong type"
	}
	return ""
}

func (m *skipMatch) elemIter(it *State, mark *Ev, elems []*Term) string {
	evs := relevant(it.log, mark)
	if len(evs) != len(elems) {
		return fmt.Sprintf("makes %d calls where %d values are to be skipped", len(evs), len(elems))
	}
	for i, e := range evs {
		if s := m.rec(e, elems[i]); s != "" {
			return s
		}
		if e.fail {
			return "goes on after a failure"
		}
	}
	return ""
}

// fieldWalk follows the calls that skip the fields of a struct:
//
//	(FieldBegin skip FieldEnd)* FieldBegin[stop] StructEnd
//
// wherever the loop over them begins.
type fieldWalk struct {
	m    *skipMatch
	at   int
	typ  *Term // type of the field whose header was read
	done bool
}

const (
	fwBegin = iota // a field header is due
	fwValue        // a value, or the end after the stop field
	fwEnd          // the end of the field
)

func (f *fieldWalk) step(st *State, e *Ev, ends bool) string {
	name := e.name
	if e.kind == "invoke" && e.args[0] != f.m.r {
		return "calls " + name + " of another reader"
	}
	if e.kind == "loop" {
		return f.loop(e)
	}
	switch f.at {
	case fwBegin:
		if e.kind != "invoke" || name != "ReadFieldBegin" {
			return "calls " + name + " where ReadFieldBegin is due"
		}
		if !e.fail {
			f.typ = f.m.w.field(e.res[0], "FieldHeader", "Type")
			f.at = fwValue
		}
	case fwValue:
		stop := st.eval(mkEq(f.typ, ty(wStop)))
		switch {
		case stop == unknown:
			return "?cannot tell whether the field is the stop field"
		case stop == yes && !ends:
			return "goes on after the stop field"
		case stop == yes:
			if e.kind != "invoke" || name != "ReadStructEnd" {
				return "calls " + name + " where ReadStructEnd is due"
			}
			f.done = !e.fail
		default:
			if e.kind == "invoke" && name == "ReadStructEnd" {
				return "leaves the struct before the stop field"
			}
			if s := f.m.rec(e, f.typ); s != "" {
				return s
			}
			f.at = fwEnd
		}
	case fwEnd:
		if e.kind != "invoke" || name != "ReadFieldEnd" {
			return "calls " + name + " where ReadFieldEnd is due"
		}
		f.at = fwBegin
	}
	return ""
}

func (f *fieldWalk) loop(e *Ev) string {
	// the field type held at the head of the loop
	var typ func(v func(LoopVar) *Term) *Term
	if f.at == fwValue {
		for i, v := range e.loop.head {
			i := i
			whole := v.entry != f.typ
			if whole && (v.entry == nil || v.entry.op != OpStruct && !isStructTerm(v.entry) || f.m.w.field(v.entry, "FieldHeader", "Type") != f.typ) {
				continue
			}
			typ = func(val func(LoopVar) *Term) *Term {
				t := val(e.loop.head[i])
				if whole {
					t = f.m.w.field(t, "FieldHeader", "Type")
				}
				return t
			}
			break
		}
		if typ == nil {
			return "?cannot tell the field type at the head of the loop"
		}
	}
	at := *f
	if typ != nil {
		at.typ = typ(func(v LoopVar) *Term { return v.gen })
	}
	for n, it := range e.loop.iters {
		g := at
		for _, x := range relevant(it.log, iterMark(e.loop, it)) {
			if x.fail {
				return "an iteration goes on after a failure"
			}
			if s := g.step(it, x, false); s != "" {
				return "an iteration " + s
			}
		}
		if g.at != f.at {
			return "an iteration does not read a field header, skip the value and read the field end"
		}
		if typ != nil {
			n := n
			t := typ(func(v LoopVar) *Term {
				if n < len(v.next) {
					return v.next[n]
				}
				return nil
			})
			if t != g.typ && (t == nil || it.eval(mkEq(t, g.typ)) != yes) {
				return "an iteration does not keep the type of the field that was read"
			}
		}
	}
	*f = at
	return ""
}

func isStructTerm(t *Term) bool { return t.typ != nil && isStructType(t.typ) }

var _ = ssa.BuilderMode(0)

var timing = os.Getenv("TCHECK_TIME") != ""
