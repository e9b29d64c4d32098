package main

import (
	"go/token"
	"go/types"
)

// Models of the standard library's I/O, by contract: each states what the
// library documents, with every documented failure.

// bufio.Reader object: bufioR(src, idx, off, avail, failed). The stream read
// is in.streams[src], a list of segments, followed by unknown bytes.
const (
	rSrc = iota
	rIdx
	rOff
	rAvail
	rFailed
)

func newReaderTerm(src *Term) *Term {
	return mkApp("bufioR", nil, src, mkI(0), mkI(0), mkI(0), tNil)
}

func newWriterTerm(dst *Term) *Term {
	return mkApp("bufioW", nil, dst, tEmpty, tNil)
}

func one(st *State, c *callCtx, vs ...*Term) []Out {
	return []Out{ret(st, c, vs...)}
}

func ret(st *State, c *callCtx, vs ...*Term) Out {
	var v *Term
	switch len(vs) {
	case 0:
		v = tUnit
	case 1:
		v = vs[0]
	default:
		v = mkTuple(vs...)
	}
	return Out{st: st, val: v, pos: c.pos}
}

func (in *Interp) stdGlobal(st *State, pkg, name string) *Term {
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		return mkNamed(pkg+"."+name, errType)
	}
	g := p.Var(name)
	ptr := in.globalPtr(st, g)
	return in.load(st, ptr, in.otyp[int(ptr.n)])
}

func (in *Interp) stdType(pkg, name string) types.Type {
	p := in.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// readerAt returns the reader object behind a *bufio.Reader.
func (in *Interp) readerAt(st *State, p *Term) *Term {
	if p.op == OpNil {
		return nil
	}
	v := in.load(st, p, in.stdType("bufio", "Reader"))
	if v.op == OpApp && v.s == "bufioR" {
		return v
	}
	return newReaderTerm(p) // an opaque reader is its own source
}

func (in *Interp) streamOf(src *Term) []*Term {
	if s, ok := in.streams[src]; ok {
		return s
	}
	return nil
}

func dataSeg(src *Term, gen int) *Term {
	return segSp(mkApp("data", types.NewSlice(tByte), src, mkI(int64(gen))))
}

// rest lists what is left of the stream from the position of r, the unknown
// bytes after the value included.
func (in *Interp) rest(r *Term) (segs []*Term, first int) {
	s := in.streamOf(r.args[rSrc])
	i := int(r.args[rIdx].u)
	off := r.args[rOff]
	for k := i; k < len(s); k++ {
		x := s[k]
		if k == i {
			x = restSeg(x, off)
			if x == nil {
				continue
			}
		}
		segs = append(segs, x)
	}
	return segs, i
}

// restSeg is segment s without its first off bytes.
func restSeg(s, off *Term) *Term {
	if off.op == OpInt && off.u == 0 {
		return s
	}
	switch s.s {
	case "el":
		return nil
	case "sp":
		if off == segLen(s) {
			return nil
		}
		return mkSubSeq(s.args[0], off, segLen(s))
	case "sub":
		lo := mkAdd(64, s.args[1], off)
		if lo == s.args[2] {
			return nil
		}
		return mkSubSeq(s.args[0], lo, s.args[2])
	case "uv":
		if off.op == OpInt {
			return segUv(mkShr(64, s.args[0], int(7*off.u), false))
		}
	}
	return mkSubSeq(mkSeq(s), off, segLen(s))
}

type taken struct {
	st   *State
	segs []*Term
	idx  int
	off  *Term
}

// take reads n bytes from position (idx, off); forks where the boundary is
// undecided. With fork unset it returns nil instead of forking.
func (in *Interp) take(st *State, r, n *Term, fork bool) []taken {
	s := in.streamOf(r.args[rSrc])
	type item struct {
		st   *State
		segs []*Term
		idx  int
		off  *Term
		n    *Term
	}
	work := []item{{st, nil, int(r.args[rIdx].u), r.args[rOff], n}}
	var done []taken
	for steps := 0; len(work) > 0; steps++ {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if steps > 2000 {
			in.fail("unbounded read of a stream")
		}
		if w.st.eval(mkEq(w.n, mkI(0))) == yes {
			done = append(done, taken{w.st, w.segs, w.idx, w.off})
			continue
		}
		if w.idx >= len(s) {
			// unknown bytes
			d := dataSeg(r.args[rSrc], in.gen)
			end := mkAdd(64, w.off, w.n)
			done = append(done, taken{w.st, append(w.segs[:len(w.segs):len(w.segs)], mkSubSeq(d.args[0], w.off, end)), w.idx, end})
			continue
		}
		seg := restSeg(s[w.idx], w.off)
		if seg == nil {
			work = append(work, item{w.st, w.segs, w.idx + 1, mkI(0), w.n})
			continue
		}
		ln := segLen(seg)
		add := func(x *Term) []*Term { return append(w.segs[:len(w.segs):len(w.segs)], x) }
		if w.st.eval(mkEq(w.n, ln)) == yes {
			if seg.s == "el" || seg.s == "uv" {
				done = append(done, taken{w.st, add(seg), w.idx + 1, mkI(0)})
			} else {
				done = append(done, taken{w.st, add(seg), w.idx, segLen(s[w.idx])})
			}
			continue
		}
		if seg.s == "uv" {
			u := seg.args[0]
			small := mkLt(u, mkInt(64, 128), false)
			v := w.st.eval(small)
			if v == unknown && w.n.op != OpInt {
				lt := mkLt(w.n, ln, true)
				switch w.st.eval(lt) {
				case no:
					work = append(work, item{w.st, add(seg), w.idx + 1, mkI(0), mkSub(64, w.n, ln)})
					continue
				case unknown:
					if !fork {
						return nil
					}
					st2 := w.st.clone()
					if w.st.assume(lt, false) {
						work = append(work, item{w.st, add(seg), w.idx + 1, mkI(0), mkSub(64, w.n, ln)})
					}
					if st2.assume(lt, true) {
						end := mkAdd(64, w.off, w.n)
						done = append(done, taken{st2, add(mkSubSeq(mkSeq(seg), mkI(0), w.n)), w.idx, end})
					}
					continue
				}
			}
			if v == unknown && !fork {
				return nil
			}
			if v != no {
				x := w.st
				if v == unknown {
					x = w.st.clone()
				}
				if x.assume(small, true) {
					work = append(work, item{x, add(segEl(mkConv(u, 64, false, 8))), w.idx + 1, mkI(0), mkSub(64, w.n, mkI(1))})
				}
			}
			if v != yes && w.st.assume(small, false) {
				b := mkOr(8, mkConv(u, 64, false, 8), mkInt(8, 0x80))
				work = append(work, item{w.st, add(segEl(b)), w.idx, mkAdd(64, w.off, mkI(1)), mkSub(64, w.n, mkI(1))})
			}
			continue
		}
		lt := mkLt(w.n, ln, true)
		v := w.st.eval(lt)
		if v == unknown && !fork {
			return nil
		}
		part := func(x *State) {
			// only part of this segment
			off := w.off
			if seg.s == "sp" || seg.s == "sub" {
				lo := mkI(0)
				if seg.s == "sub" {
					lo = seg.args[1]
				}
				done = append(done, taken{x, add(mkSubSeq(seg.args[0], lo, mkAdd(64, lo, w.n))), w.idx, mkAdd(64, off, w.n)})
				return
			}
			done = append(done, taken{x, add(mkSubSeq(mkSeq(seg), mkI(0), w.n)), w.idx, mkAdd(64, off, w.n)})
		}
		whole := func(x *State) {
			left := mkSub(64, w.n, ln)
			if x.eval(mkEq(left, mkI(0))) == yes && (seg.s == "sp" || seg.s == "sub") {
				done = append(done, taken{x, add(seg), w.idx, segLen(s[w.idx])})
				return
			}
			work = append(work, item{x, add(seg), w.idx + 1, mkI(0), left})
		}
		switch v {
		case yes:
			part(w.st)
		case no:
			whole(w.st)
		default:
			x := w.st.clone()
			if x.assume(lt, true) {
				part(x)
			}
			if w.st.assume(lt, false) {
				eq := mkEq(w.n, ln)
				y := w.st.clone()
				if y.assume(eq, true) {
					whole(y)
				}
				if w.st.assume(eq, false) {
					whole(w.st)
				}
			}
		}
	}
	return done
}

func (in *Interp) setReader(st *State, p, r *Term, pos token.Pos) {
	if p.op == OpPtr && p.n >= 0 {
		in.store(st, p, r, pos)
		return
	}
	st.omem.set(p, r)
}

func withArg(t *Term, i int, v *Term) *Term {
	as := append([]*Term(nil), t.args...)
	as[i] = v
	c := *t
	c.args = as
	return intern(&c)
}

type needRes struct {
	st  *State
	ok  bool
	m   *Term // bytes obtained on failure
	err *Term
}

// need asks for n bytes at the position of the reader.
func (in *Interp) need(st *State, p, n *Term, op string, pos token.Pos) []needRes {
	r := in.readerAt(st, p)
	if st.eval(mkEq(n, mkI(0))) == yes {
		return []needRes{{st: st, ok: true}}
	}
	if st.eval(mkLt(r.args[rAvail], n, true)) == no { // n <= avail
		return []needRes{{st: st, ok: true}}
	}
	if r.args[rFailed] != tNil {
		e := in.freshErr(st, op)
		ev := st.event("io", op, pos, []*Term{p, n}, e)
		ev.fail = true
		return []needRes{{st: st, ok: false, m: r.args[rAvail], err: e}}
	}
	// bytes beyond the value?
	left, enough := mkI(0), false
	segs, _ := in.rest(r)
	for _, s := range segs {
		left = mkAdd(64, left, segLen(s))
		enough = enough || st.eval(mkLt(left, n, true)) == no
	}
	if len(in.streamOf(r.args[rSrc])) > 0 && !enough {
		st.event("overread", op, pos, []*Term{n, left})
	}
	s2 := st.clone()
	var res []needRes
	{
		ev := st.event("io", op, pos, []*Term{p, n})
		_ = ev
		if !in.limit[r.args[rSrc]] {
			res = append(res, needRes{st: st, ok: true})
		}
	}
	e := in.freshErr(s2, op)
	m := mkSym("+got", tInt)
	if s2.assume(mkLt(m, n, true), true) {
		ev := s2.event("io", op, pos, []*Term{p, n}, e)
		ev.fail = true
		in.setReader(s2, p, withArg(withArg(r, rFailed, e), rAvail, m), pos)
		res = append(res, needRes{st: s2, ok: false, m: m, err: e})
	}
	return res
}

func (in *Interp) advance(st *State, p, n *Term, pos token.Pos) []*State {
	r := in.readerAt(st, p)
	av := r.args[rAvail]
	if st.eval(mkLt(av, n, true)) == no {
		av = mkSub(64, av, n)
	} else {
		av = mkI(0)
	}
	if r.args[rFailed] != tNil {
		in.setReader(st, p, withArg(r, rAvail, av), pos)
		return []*State{st}
	}
	var out []*State
	for _, t := range in.take(st, r, n, true) {
		x := withArg(withArg(withArg(r, rIdx, mkI(int64(t.idx))), rOff, t.off), rAvail, av)
		in.setReader(t.st, p, x, pos)
		out = append(out, t.st)
	}
	return out
}

func (in *Interp) setAvail(st *State, p, n *Term, pos token.Pos) {
	r := in.readerAt(st, p)
	if st.eval(mkLt(r.args[rAvail], n, true)) != no {
		in.setReader(st, p, withArg(r, rAvail, n), pos)
	}
}

var byteSlice = types.NewSlice(tByte)

// view is the content of the next n bytes, aliasing the reader's buffer.
func (in *Interp) view(st *State, p, n *Term) *Term {
	r := in.readerAt(st, p)
	if r.args[rFailed] == tNil {
		if ts := in.take(st, r, n, false); len(ts) == 1 {
			return mkApp("view", byteSlice, mkSeq(ts[0].segs...))
		}
	}
	return mkApp("win", byteSlice, r.args[rSrc], r.args[rIdx], r.args[rOff], n)
}

func (in *Interp) sizeOf(st *State, p *Term) *Term {
	t := mkApp("Size", tInt, p)
	st.bound(mkI(16), t, 0, true)
	return t
}

// settle decides whether the readers and writers among the arguments have
// failed where the state leaves it open (after a loop).
func (in *Interp) settle(st *State, args []*Term) []*State {
	sts := []*State{st}
	for _, a := range args {
		if a.op == OpIface {
			a = a.args[0]
		}
		if a.op != OpPtr || a.n < 0 {
			continue
		}
		x, ok := st.heap.get(int(a.n))
		if !ok || x == nil || x.op != OpApp || x.s != "bufioR" && x.s != "bufioW" {
			continue
		}
		i := rFailed
		if x.s == "bufioW" {
			i = 2
		}
		f := x.args[i]
		if f == tNil {
			continue
		}
		var next []*State
		for _, s := range sts {
			switch s.eval(mkEq(f, tNil)) {
			case yes:
				s.heap.set(int(a.n), withArg(x, i, tNil))
				next = append(next, s)
			case no:
				next = append(next, s)
			default:
				s2 := s.clone()
				if s.assume(mkEq(f, tNil), true) {
					s.heap.set(int(a.n), withArg(x, i, tNil))
					next = append(next, s)
				}
				if s2.assume(mkEq(f, tNil), false) {
					next = append(next, s2)
				}
			}
		}
		sts = next
	}
	return sts
}

func registerModels(in *Interp) {
	m := in.models
	in.limit = map[*Term]bool{}
	alloc := func(in *Interp, st *State, typ string, v *Term) *Term {
		return mkPtr(in.newObj(st, in.stdType("bufio", typ), v))
	}
	// ---- bufio.Reader
	newReader := func(in *Interp, st *State, c *callCtx) []Out {
		src := c.args[0]
		bt := in.stdType("bufio", "Reader")
		if src.op == OpIface && types.Identical(src.typ, types.NewPointer(bt)) {
			st2 := st.clone()
			return []Out{ret(st, c, src.args[0]), ret(st2, c, alloc(in, st2, "Reader", newReaderTerm(src)))}
		}
		return one(st, c, alloc(in, st, "Reader", newReaderTerm(src)))
	}
	m["bufio.NewReader"] = newReader
	m["bufio.NewReaderSize"] = newReader
	m["(*bufio.Reader).Reset"] = func(in *Interp, st *State, c *callCtx) []Out {
		st.event("rreset", "", c.pos, []*Term{c.args[0], c.args[1]})
		in.setReader(st, c.args[0], newReaderTerm(c.args[1]), c.pos)
		return one(st, c)
	}
	m["(*bufio.Reader).Size"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, in.sizeOf(st, c.args[0]))
	}
	m["(*bufio.Reader).Buffered"] = func(in *Interp, st *State, c *callCtx) []Out {
		b := mkSym("+buffered", tInt)
		r := in.readerAt(st, c.args[0])
		st.bound(b, in.sizeOf(st, c.args[0]), 0, true)
		if r.args[rFailed] != tNil {
			return one(st, c, r.args[rAvail])
		}
		if st.eval(mkEq(r.args[rAvail], mkI(0))) != yes {
			st.bound(r.args[rAvail], b, 0, true)
		}
		in.setReader(st, c.args[0], withArg(r, rAvail, b), c.pos)
		return one(st, c, b)
	}
	m["(*bufio.Reader).Peek"] = func(in *Interp, st *State, c *callCtx) []Out {
		p, n := c.args[0], c.args[1]
		var outs []Out
		neg := mkLt(n, mkI(0), true)
		if st.eval(neg) != no {
			s := st.clone()
			if s.assume(neg, true) {
				outs = append(outs, ret(s, c, tNil, in.stdGlobal(s, "bufio", "ErrNegativeCount")))
			}
			if !st.assume(neg, false) {
				return outs
			}
		}
		over := mkLt(in.sizeOf(st, p), n, true)
		if st.eval(over) != no && st.eval(mkLt(in.readerAt(st, p).args[rAvail], n, true)) != no {
			s := st.clone()
			if s.assume(over, true) {
				sz := in.sizeOf(s, p)
				for _, x := range in.need(s, p, sz, "Peek", c.pos) {
					if x.ok {
						in.setAvail(x.st, p, sz, c.pos)
						outs = append(outs, ret(x.st, c, in.view(x.st, p, sz), in.stdGlobal(x.st, "bufio", "ErrBufferFull")))
					} else {
						outs = append(outs, ret(x.st, c, in.view(x.st, p, x.m), x.err))
					}
				}
			}
			if !st.assume(over, false) {
				return outs
			}
		}
		for _, x := range in.need(st, p, n, "Peek", c.pos) {
			if x.ok {
				in.setAvail(x.st, p, n, c.pos)
				outs = append(outs, ret(x.st, c, in.view(x.st, p, n), tNil))
			} else {
				outs = append(outs, ret(x.st, c, in.view(x.st, p, x.m), x.err))
			}
		}
		return outs
	}
	m["(*bufio.Reader).Discard"] = func(in *Interp, st *State, c *callCtx) []Out {
		p, n := c.args[0], c.args[1]
		var outs []Out
		neg := mkLt(n, mkI(0), true)
		if st.eval(neg) != no {
			s := st.clone()
			if s.assume(neg, true) {
				outs = append(outs, ret(s, c, mkI(0), in.stdGlobal(s, "bufio", "ErrNegativeCount")))
			}
			if !st.assume(neg, false) {
				return outs
			}
		}
		for _, x := range in.need(st, p, n, "Discard", c.pos) {
			if x.ok {
				for _, s := range in.advance(x.st, p, n, c.pos) {
					outs = append(outs, ret(s, c, n, tNil))
				}
			} else {
				outs = append(outs, ret(x.st, c, x.m, x.err))
			}
		}
		return outs
	}
	m["(*bufio.Reader).ReadByte"] = func(in *Interp, st *State, c *callCtx) []Out {
		var outs []Out
		p := c.args[0]
		for _, x := range in.need(st, p, mkI(1), "ReadByte", c.pos) {
			if !x.ok {
				outs = append(outs, ret(x.st, c, mkInt(8, 0), x.err))
				continue
			}
			for _, t := range in.take(x.st, in.readerAt(x.st, p), mkI(1), true) {
				v := in.seqIndex(t.st, mkSeq(t.segs...), mkI(0), tByte)
				for _, s := range in.advance(t.st, p, mkI(1), c.pos) {
					outs = append(outs, ret(s, c, v, tNil))
				}
			}
		}
		return outs
	}
	m["(*bufio.Reader).UnreadByte"] = func(in *Interp, st *State, c *callCtx) []Out {
		p := c.args[0]
		r := in.readerAt(st, p)
		i, off := int64(r.args[rIdx].u), r.args[rOff]
		if off.op == OpInt && off.u == 0 && i > 0 {
			s := in.streamOf(r.args[rSrc])[i-1]
			i--
			off = mkSub(64, segLen(s), mkI(1))
		} else {
			off = mkSub(64, off, mkI(1))
		}
		x := withArg(withArg(withArg(r, rIdx, mkI(i)), rOff, off), rAvail, mkAdd(64, r.args[rAvail], mkI(1)))
		in.setReader(st, p, x, c.pos)
		return one(st, c, tNil)
	}
	readFull := func(in *Interp, st *State, p, buf *Term, op string, c *callCtx) []Out {
		var outs []Out
		n := lenTerm(buf)
		for _, x := range in.need(st, p, n, op, c.pos) {
			if !x.ok {
				outs = append(outs, ret(x.st, c, x.m, x.err))
				continue
			}
			for _, t := range in.take(x.st, in.readerAt(x.st, p), n, true) {
				in.fillAny(t.st, buf, mkSeq(t.segs...), c.pos)
				for _, s := range in.advance(t.st, p, n, c.pos) {
					outs = append(outs, ret(s, c, n, tNil))
				}
			}
		}
		return outs
	}
	bufR := func(in *Interp, st *State, r *Term) *Term { // the *bufio.Reader behind an io.Reader
		bt := in.stdType("bufio", "Reader")
		if r.op != OpIface {
			return nil
		}
		if types.Identical(r.typ, types.NewPointer(bt)) {
			return r.args[0]
		}
		return in.promoted(st, r, bt)
	}
	m["slices.Grow"] = func(in *Interp, st *State, c *callCtx) []Out {
		x, n := c.args[0], c.args[1]
		if sl, ok := c.typ.Underlying().(*types.Slice); x.op == OpSlice || !ok || !types.Identical(sl.Elem().Underlying(), tByte) || st.eval(mkLt(n, mkI(0), true)) != no {
			return in.interpret(st, c)
		}
		st.event("makeslice", "Grow", c.pos, []*Term{n, n})
		if x.op == OpNil {
			x = tEmpty
		}
		st.omem.set(mkApp("room", nil, x), n)
		return one(st, c, x)
	}
	m["io.ReadFull"] = func(in *Interp, st *State, c *callCtx) []Out {
		p := bufR(in, st, c.args[0])
		if p == nil {
			return in.external(st, c)
		}
		return readFull(in, st, p, c.args[1], "ReadFull", c)
	}
	m["io.ReadAtLeast"] = func(in *Interp, st *State, c *callCtx) []Out {
		p := bufR(in, st, c.args[0])
		if p == nil || st.eval(mkEq(c.args[2], lenTerm(c.args[1]))) != yes {
			return in.external(st, c)
		}
		return readFull(in, st, p, c.args[1], "ReadAtLeast", c)
	}
	m["(*bufio.Reader).Read"] = func(in *Interp, st *State, c *callCtx) []Out {
		p, buf := c.args[0], c.args[1]
		n := mkSym("+short", tInt)
		var outs []Out
		s2 := st.clone()
		if st.bound(n, lenTerm(buf), 0, true) && st.assume(mkLt(mkI(0), n, true), true) {
			// a short read: the rest of the buffer keeps its old content
			for _, x := range in.need(st, p, n, "Read", c.pos) {
				if !x.ok {
					outs = append(outs, ret(x.st, c, mkI(0), x.err))
					continue
				}
				for _, t := range in.take(x.st, in.readerAt(x.st, p), n, true) {
					in.fillAny(t.st, buf, mkSeq(append(t.segs[:len(t.segs):len(t.segs)], mkSubSeq(mkSym("stale", byteSlice), n, lenTerm(buf)))...), c.pos)
					for _, s := range in.advance(t.st, p, n, c.pos) {
						outs = append(outs, ret(s, c, n, tNil))
					}
				}
			}
		}
		_ = s2
		return outs
	}
	// a byte known to be below 0x80 is a whole varint
	tiny := func(st *State, seg *Term) bool {
		return seg.s == "el" && st.eval(mkLt(seg.args[0], mkInt(8, 0x80), false)) == yes
	}
	readUv := func(signed bool) modelFn {
		return func(in *Interp, st *State, c *callCtx) []Out {
			p := bufR(in, st, c.args[0])
			if p == nil {
				return in.interpret(st, c)
			}
			r := in.readerAt(st, p)
			segs, _ := in.rest(r)
			conv := func(u *Term) *Term {
				if signed {
					return mkUnzigzag(u)
				}
				return u
			}
			var outs []Out
			if len(segs) > 0 && segs[0].s == "uv" {
				u := segs[0].args[0]
				n := mkUvLen(u)
				for _, x := range in.need(st, p, n, "ReadUvarint", c.pos) {
					if !x.ok {
						outs = append(outs, ret(x.st, c, mkSym("partial", tUint64), x.err))
						continue
					}
					for _, s := range in.advance(x.st, p, n, c.pos) {
						outs = append(outs, ret(s, c, conv(u), tNil))
					}
				}
				return outs
			}
			if len(segs) > 0 && tiny(st, segs[0]) {
				for _, x := range in.need(st, p, mkI(1), "ReadUvarint", c.pos) {
					if !x.ok {
						outs = append(outs, ret(x.st, c, mkSym("partial", tUint64), x.err))
						continue
					}
					for _, s := range in.advance(x.st, p, mkI(1), c.pos) {
						outs = append(outs, ret(s, c, conv(mkConv(segs[0].args[0], 8, false, 64)), tNil))
					}
				}
				return outs
			}
			// arbitrary bytes: any value, or an overflow error
			n := mkSym("+uvbytes", tInt)
			st.narrow(n, iv{1, 10})
			for _, x := range in.need(st, p, n, "ReadUvarint", c.pos) {
				if !x.ok {
					outs = append(outs, ret(x.st, c, mkSym("partial", tUint64), x.err))
					continue
				}
				bad := x.st.clone()
				for _, s := range in.advance(x.st, p, n, c.pos) {
					u := mkSym("uvarint", tUint64)
					outs = append(outs, ret(s, c, conv(u), tNil))
				}
				e := in.freshErr(bad, "overflow")
				bad.event("io", "ReadUvarint", c.pos, []*Term{p, n}, e).fail = true
				outs = append(outs, ret(bad, c, mkSym("partial", tUint64), e))
			}
			return outs
		}
	}
	m["encoding/binary.ReadUvarint"] = readUv(false)
	m["encoding/binary.ReadVarint"] = readUv(true)
	uvarint := func(signed bool) modelFn {
		return func(in *Interp, st *State, c *callCtx) []Out {
			conv := func(u *Term) *Term {
				if signed {
					return mkUnzigzag(u)
				}
				return u
			}
			b := c.args[0]
			var segs []*Term
			ln := lenTerm(b)
			if b.op == OpApp && b.s == "win" {
				segs, _ = in.rest(mkApp("bufioR", nil, b.args[0], b.args[1], b.args[2], mkI(0), tNil))
				ln = b.args[3]
			} else {
				segs = in.contentOf(st, b)
			}
			var outs []Out
			if len(segs) > 0 && (segs[0].s == "uv" || tiny(st, segs[0])) {
				u := segs[0].args[0]
				if segs[0].s == "el" {
					u = mkConv(u, 8, false, 64)
				}
				n := segLen(segs[0])
				short := mkLt(ln, n, true)
				s2 := st.clone()
				if st.assume(short, false) {
					outs = append(outs, ret(st, c, conv(u), n))
				}
				if s2.assume(short, true) {
					outs = append(outs, ret(s2, c, mkInt(64, 0), mkI(0)))
				}
				return outs
			}
			// arbitrary bytes
			s2, s3 := st.clone(), st.clone()
			n := mkSym("+uvbytes", tInt)
			if st.narrow(n, iv{1, 10}) && st.bound(n, ln, 0, true) {
				outs = append(outs, ret(st, c, conv(mkSym("uvarint", tUint64)), n))
			}
			outs = append(outs, ret(s2, c, mkInt(64, 0), mkI(0)))
			k := mkSym("uvneg", tInt)
			if s3.narrow(k, iv{-11, -1}) {
				outs = append(outs, ret(s3, c, mkInt(64, 0), k))
			}
			return outs
		}
	}
	m["encoding/binary.Uvarint"] = uvarint(false)
	m["encoding/binary.Varint"] = uvarint(true)
	putUv := func(signed, app bool) modelFn {
		return func(in *Interp, st *State, c *callCtx) []Out {
			u := c.args[1]
			if signed {
				u = mkZigzag(u)
			}
			if app {
				as := in.contentOf(st, c.args[0])
				if c.args[0].op == OpApp && c.args[0].s == "empty" {
					as = nil
				}
				return one(st, c, mkSeq(append(append([]*Term(nil), as...), segUv(u))...))
			}
			n := mkUvLen(u)
			if st.eval(mkLt(lenTerm(c.args[0]), n, true)) != no {
				st.event("oob", "PutUvarint", c.pos, []*Term{lenTerm(c.args[0]), n})
			}
			in.fillAny(st, c.args[0], mkSeq(segUv(u)), c.pos)
			return one(st, c, n)
		}
	}
	m["encoding/binary.PutUvarint"] = putUv(false, false)
	m["encoding/binary.PutVarint"] = putUv(true, false)
	m["encoding/binary.AppendUvarint"] = putUv(false, true)
	m["encoding/binary.AppendVarint"] = putUv(true, true)

	m["math.Float64frombits"] = func(in *Interp, st *State, c *callCtx) []Out {
		u := c.args[0]
		if u.op == OpApp && u.s == "f64bits" {
			return one(st, c, u.args[0])
		}
		return one(st, c, mkApp("f64frombits", types.Typ[types.Float64], u))
	}
	m["math.Float64bits"] = func(in *Interp, st *State, c *callCtx) []Out {
		f := c.args[0]
		if f.op == OpApp && f.s == "f64frombits" {
			return one(st, c, f.args[0])
		}
		return one(st, c, mkApp("f64bits", tUint64, f))
	}

	// ---- bufio.Writer
	newWriter := func(in *Interp, st *State, c *callCtx) []Out {
		dst := c.args[0]
		bt := in.stdType("bufio", "Writer")
		if dst.op == OpIface && types.Identical(dst.typ, types.NewPointer(bt)) {
			st2 := st.clone()
			return []Out{ret(st, c, dst.args[0]), ret(st2, c, alloc(in, st2, "Writer", newWriterTerm(dst)))}
		}
		return one(st, c, alloc(in, st, "Writer", newWriterTerm(dst)))
	}
	m["bufio.NewWriter"] = newWriter
	m["bufio.NewWriterSize"] = newWriter
	writerAt := func(in *Interp, st *State, p *Term) *Term {
		v := in.load(st, p, in.stdType("bufio", "Writer"))
		if v.op == OpApp && v.s == "bufioW" {
			return v
		}
		return newWriterTerm(p)
	}
	in.writerAt = func(st *State, p *Term) *Term { return writerAt(in, st, p) }
	in.doWrite = func(st *State, p *Term, segs []*Term, op string, pos token.Pos) []needRes {
		w := writerAt(in, st, p)
		if w.args[2] != tNil {
			ev := st.event("io", op, pos, []*Term{p}, w.args[2])
			ev.fail = true
			return []needRes{{st: st, err: w.args[2]}}
		}
		s2 := st.clone()
		st.event("io", op, pos, []*Term{p, mkSeq(segs...)})
		in.setReader(st, p, withArg(w, 1, mkSeq(append(append([]*Term(nil), w.args[1].args...), segs...)...)), pos)
		e := in.freshErr(s2, op)
		s2.event("io", op, pos, []*Term{p}, e).fail = true
		in.setReader(s2, p, withArg(w, 2, e), pos)
		return []needRes{{st: st, ok: true}, {st: s2, err: e}}
	}
	m["(*bufio.Writer).WriteByte"] = func(in *Interp, st *State, c *callCtx) []Out {
		var outs []Out
		for _, x := range in.doWrite(st, c.args[0], []*Term{segEl(c.args[1])}, "WriteByte", c.pos) {
			if x.ok {
				outs = append(outs, ret(x.st, c, tNil))
			} else {
				outs = append(outs, ret(x.st, c, x.err))
			}
		}
		return outs
	}
	write := func(in *Interp, st *State, c *callCtx) []Out {
		var outs []Out
		n := lenTerm(c.args[1])
		for _, x := range in.doWrite(st, c.args[0], in.contentOf(st, c.args[1]), "Write", c.pos) {
			if x.ok {
				outs = append(outs, ret(x.st, c, n, tNil))
			} else {
				m := mkSym("+wrote", tInt)
				x.st.bound(m, n, 0, true)
				outs = append(outs, ret(x.st, c, m, x.err))
			}
		}
		return outs
	}
	m["(*bufio.Writer).Write"] = write
	m["(*bufio.Writer).WriteString"] = write
	m["io.WriteString"] = func(in *Interp, st *State, c *callCtx) []Out {
		bt := in.stdType("bufio", "Writer")
		w := c.args[0]
		if w.op == OpIface {
			p := w.args[0]
			if !types.Identical(w.typ, types.NewPointer(bt)) {
				// a type that embeds *bufio.Writer may override WriteString
				if f := in.prog.LookupMethod(w.typ, nil, "WriteString"); f != nil {
					d := *c
					d.args = []*Term{w.args[0], c.args[1]}
					return in.callFn(st, f, d.args, nil, c.pos, nil)
				}
				return in.external(st, c)
			}
			d := *c
			d.args = []*Term{p, c.args[1]}
			return write(in, st, &d)
		}
		return in.external(st, c)
	}
	m["(*bufio.Writer).Flush"] = func(in *Interp, st *State, c *callCtx) []Out {
		p := c.args[0]
		w := writerAt(in, st, p)
		if w.args[2] != tNil {
			st.event("io", "Flush", c.pos, []*Term{p}, w.args[2]).fail = true
			return one(st, c, w.args[2])
		}
		s2 := st.clone()
		st.event("deliver", "", c.pos, []*Term{w.args[0], w.args[1]})
		in.setReader(st, p, withArg(w, 1, tEmpty), c.pos)
		outs := []Out{ret(st, c, tNil)}
		if st.eval(mkEq(lenTerm(w.args[1]), mkI(0))) != yes {
			e := in.freshErr(s2, "Flush")
			s2.event("io", "Flush", c.pos, []*Term{p}, e).fail = true
			in.setReader(s2, p, withArg(w, 2, e), c.pos)
			outs = append(outs, ret(s2, c, e))
		}
		return outs
	}
	m["(*bufio.Writer).Reset"] = func(in *Interp, st *State, c *callCtx) []Out {
		w := writerAt(in, st, c.args[0])
		st.event("wreset", "", c.pos, []*Term{c.args[0], c.args[1], w.args[1]})
		in.setReader(st, c.args[0], newWriterTerm(c.args[1]), c.pos)
		return one(st, c)
	}
	m["(*bufio.Writer).AvailableBuffer"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, tEmpty)
	}
	m["(*bufio.Writer).Available"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, mkSym("+available", tInt))
	}
	m["(*bufio.Writer).Buffered"] = m["(*bufio.Writer).Available"]
	m["(*bufio.Writer).Size"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, in.sizeOf(st, c.args[0]))
	}

	// ---- builders
	builder := func(pkg, typ string) {
		pre := "(*" + pkg + "." + typ + ")."
		get := func(in *Interp, st *State, p *Term) []*Term {
			v := in.load(st, p, in.stdType(pkg, typ))
			if v.op == OpApp && v.s == "sbuild" {
				return v.args[0].args
			}
			return nil
		}
		put := func(in *Interp, st *State, p *Term, segs []*Term, pos token.Pos) {
			in.setReader(st, p, mkApp("sbuild", nil, mkSeq(segs...)), pos)
		}
		app := func(in *Interp, st *State, p *Term, segs []*Term, pos token.Pos) {
			put(in, st, p, append(append([]*Term(nil), get(in, st, p)...), segs...), pos)
		}
		w := func(in *Interp, st *State, c *callCtx) []Out {
			st.event("append", pre, c.pos, []*Term{c.args[1]})
			app(in, st, c.args[0], in.contentOf(st, c.args[1]), c.pos)
			return one(st, c, lenTerm(c.args[1]), tNil)
		}
		m[pre+"Write"] = w
		m[pre+"WriteString"] = w
		m[pre+"WriteByte"] = func(in *Interp, st *State, c *callCtx) []Out {
			app(in, st, c.args[0], []*Term{segEl(c.args[1])}, c.pos)
			return one(st, c, tNil)
		}
		m[pre+"WriteRune"] = func(in *Interp, st *State, c *callCtx) []Out {
			s := mkApp("runestr", tString, c.args[1])
			app(in, st, c.args[0], []*Term{segSp(s)}, c.pos)
			return one(st, c, lenTerm(s), tNil)
		}
		m[pre+"Grow"] = func(in *Interp, st *State, c *callCtx) []Out {
			st.event("makeslice", "Grow", c.pos, []*Term{c.args[1], c.args[1]})
			return one(st, c)
		}
		m[pre+"Len"] = func(in *Interp, st *State, c *callCtx) []Out {
			return one(st, c, lenTerm(mkSeq(get(in, st, c.args[0])...)))
		}
		m[pre+"Cap"] = func(in *Interp, st *State, c *callCtx) []Out { return one(st, c, mkSym("+cap", tInt)) }
		m[pre+"Reset"] = func(in *Interp, st *State, c *callCtx) []Out {
			put(in, st, c.args[0], nil, c.pos)
			return one(st, c)
		}
		m[pre+"String"] = func(in *Interp, st *State, c *callCtx) []Out {
			return one(st, c, mkStrOf(mkSeq(get(in, st, c.args[0])...)))
		}
		m[pre+"Bytes"] = func(in *Interp, st *State, c *callCtx) []Out {
			return one(st, c, mkSeq(get(in, st, c.args[0])...))
		}
	}
	builder("strings", "Builder")
	builder("bytes", "Buffer")

	m["io.CopyN"] = func(in *Interp, st *State, c *callCtx) []Out {
		p := bufR(in, st, c.args[1])
		dst := c.args[0]
		n := c.args[2]
		if p == nil || dst.op != OpIface && dst.op != OpSym && dst.op != OpApp {
			return in.external(st, c)
		}
		discard := dst.op != OpIface
		if discard && !(dst.op == OpSym && dst.s == "io.Discard") {
			return in.external(st, c)
		}
		var outs []Out
		for _, x := range in.need(st, p, n, "CopyN", c.pos) {
			if !x.ok {
				outs = append(outs, ret(x.st, c, x.m, x.err))
				continue
			}
			for _, t := range in.take(x.st, in.readerAt(x.st, p), n, true) {
				sts := []*State{t.st}
				if !discard {
					f := in.prog.LookupMethod(dst.typ, nil, "Write")
					if f == nil {
						return in.external(st, c)
					}
					sts = nil
					for _, o := range in.callFn(t.st, f, []*Term{dst.args[0], mkSeq(t.segs...)}, nil, c.pos, nil) {
						sts = append(sts, o.st)
					}
				}
				for _, s0 := range sts {
					for _, s := range in.advance(s0, p, n, c.pos) {
						outs = append(outs, ret(s, c, n, tNil))
					}
				}
			}
		}
		return outs
	}

	// ---- errors
	nonNilApps["newerr"] = true
	nonNilApps["fmt.Errorf"] = true
	m["errors.New"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, mkApp("newerr", errType, c.args[0], mkSym("e", nil)))
	}
	m["fmt.Errorf"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, mkApp("fmt.Errorf", errType, c.args[0], mkSeq(in.contentOf(st, c.args[1])...), mkSym("e", nil)))
	}
	m["errors.Is"] = func(in *Interp, st *State, c *callCtx) []Out {
		switch st.evalEq(c.args[0], c.args[1]) {
		case yes:
			return one(st, c, tTrue)
		}
		if c.args[0] == tNil {
			return one(st, c, mkEq(c.args[1], tNil))
		}
		return one(st, c, mkApp("errors.Is", types.Typ[types.Bool], c.args...))
	}
	registerModels2(in)
}

// fillAny overwrites the beginning of a slice with content.
func (in *Interp) fillAny(st *State, dst, content *Term, pos token.Pos) {
	switch {
	case dst.op == OpSlice:
		in.fillSlice(st, dst, content, pos)
	case dst == tNil || dst == tEmpty:
	case dst.op == OpApp && dst.s == "spare":
		st.omem.set(mkApp("spareof", nil, dst.args[0]), content)
	default:
		st.event("fill", "", pos, []*Term{dst, content})
		st.undecided("bytes read into %s", dst)
		st.omem.set(mkApp("content", nil, dst), content)
	}
}

// promoted finds the embedded *T of a struct behind an interface when the
// method set of the interface value comes from it.
func (in *Interp) promoted(st *State, r *Term, bt types.Type) *Term {
	pt, ok := r.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() && types.Identical(f.Type(), types.NewPointer(bt)) {
			for _, name := range []string{"ReadByte", "Read"} {
				obj, idx, _ := types.LookupFieldOrMethod(r.typ, true, nil, name)
				if obj != nil && len(idx) == 1 {
					return nil // overridden
				}
			}
			return in.load(st, in.subPtr(r.args[0], mkI(int64(i)), types.NewPointer(f.Type())), f.Type())
		}
	}
	return nil
}

// interpret runs the body of a modelled function.
func (in *Interp) interpret(st *State, c *callCtx) []Out {
	m := in.models[c.name]
	delete(in.models, c.name)
	if c.fn.Blocks == nil {
		c.fn.Pkg.Build()
	}
	outs := in.callBody(st, c.fn, c.args, nil, c.pos, nil)
	in.models[c.name] = m
	return outs
}
