package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of package thriftfile: the functions of the parser are interpreted
// over symbolic tokens, those of the scanner over symbolic characters.

const tfPkg = "tools/thriftfile"

type tfLeaf struct {
	path []int
	name string
	typ  types.Type
	in   *types.Named // the struct the field belongs to
}

type pctx struct {
	c       *Ctx
	j       *judge
	in      *Interp
	base    *State
	pkg     *ssa.Package
	parserT *types.Named
	scanT   *types.Named
	tokT    *types.Named
	nodeT   *types.Interface
	leaves  []tfLeaf
	tok     tfLeaf
	pos     tfLeaf
	off     tfLeaf
	src     tfLeaf
	file    tfLeaf
	errs    tfLeaf
	errFn   tfLeaf
	errElem types.Type

	tokVal  map[string]int64 // const name without underscore
	tokName map[int64]string
	tokDom  Dom

	next    *ssa.Function    // reads the next token
	target  string           // function being analysed
	sums    map[string]*inst // functions abstracted at calls
	order   []*inst
	inl     map[string]bool // not abstracted
	pobj    int
	follows map[string]tokSet
	deps    map[*inst]bool
	sample  *State
	callee  map[*Ev]*inst
	cnts    []counter
	roots   map[*inst]bool // called outside of all nesting only
	noRoots bool
	entered bool // the target
}

// counter is an integer of the parser, which may account for nesting.
type counter struct {
	tfLeaf
	init int64 // its value outside of all nesting
	sign int64 // whether nesting makes it larger or smaller
	any  iv    // all values it may have
	inv  iv    // the values it is supposed to have in all functions
}

// counters lists the values of the integers of the parser.
func (p *pctx) counters(st *State) (r []*Term) {
	for _, c := range p.cnts {
		r = append(r, p.get(st, c.tfLeaf))
	}
	return
}

// findCounters finds the integers of the parser, and from the constants stored
// in and compared with them what they may be used for. What is guessed here is
// checked later.
func (p *pctx) findCounters() {
	var fns []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn.Pkg == p.pkg {
			fns = append(fns, fn)
			for _, a := range fn.AnonFuncs {
				add(a)
			}
		}
	}
	for _, fn := range p.methods() {
		add(fn)
	}
	for _, m := range p.pkg.Members {
		if fn, ok := m.(*ssa.Function); ok {
			add(fn)
		}
	}
	for _, l := range p.leaves {
		if _, _, ok := intInfo(l.typ); !ok || l.in != p.parserT {
			continue
		}
		var stored, limit int64
		for _, fn := range fns {
			var max int64
			uses := false
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					switch i := i.(type) {
					case *ssa.FieldAddr:
						if pt, ok := i.X.Type().Underlying().(*types.Pointer); !ok || !types.Identical(pt.Elem(), p.parserT) || i.Field != l.path[0] {
							continue
						}
						uses = true
						for _, u := range *i.Referrers() {
							if s, ok := u.(*ssa.Store); ok {
								if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Int64() > stored {
									stored = c.Int64()
								}
							}
						}
					case *ssa.BinOp:
						for _, x := range []ssa.Value{i.X, i.Y} {
							if c, ok := x.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() > max {
								max = c.Int64()
							}
						}
					}
				}
			}
			if uses && max > limit {
				limit = max
			}
		}
		const inf = 1<<62 - 1
		c := counter{tfLeaf: l, sign: 1, any: iv{0, inf}}
		c.inv = c.any
		if limit >= deepNest {
			c.inv.hi = limit
		}
		if stored >= deepNest {
			c.init, c.sign, c.any, c.inv = stored, -1, iv{-inf, stored}, iv{0, stored}
		}
		p.cnts = append(p.cnts, c)
	}
}

// deepNest is the least nesting depth that may be refused.
const deepNest = 1000

// inst is a function of the parser, called with constants besides the parser,
// and what its callers may rely on.
type inst struct {
	fn       *ssa.Function
	args     []*Term
	key      string
	name     string // production
	nullable bool
	panics   map[string]*Term // value panicked with, by text
	lazy     bool             // may panic before it has consumed a token
	leak     map[int]bool     // counters not restored when it panics
}

func newPctx(c *Ctx, j *judge) *pctx {
	p := &pctx{c: c, j: j, sums: map[string]*inst{}, inl: map[string]bool{}, callee: map[*Ev]*inst{}}
	p.in = newInterp(c.ld)
	p.pkg = c.ld.pkg(tfPkg)
	p.base = p.in.baseState(tfPkg)
	p.parserT = c.ld.typ(tfPkg, "parser").(*types.Named)
	p.scanT = c.ld.typ(tfPkg, "scanner").(*types.Named)
	p.tokT = c.ld.typ(tfPkg, "token").(*types.Named)
	p.nodeT = c.ld.typ(tfPkg, "Node").Underlying().(*types.Interface)
	p.tokVal, p.tokName = map[string]int64{}, map[int64]string{}
	sc := p.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), p.tokT) {
			continue
		}
		v, _ := constant.Int64Val(k.Val())
		if strings.HasPrefix(n, "_") {
			p.tokVal[n[1:]] = v
			p.tokName[v] = n[1:]
			if n != "_ILLEGAL" && n != "_COMMENT" {
				p.tokDom = append(p.tokDom, iv{v, v})
			}
		}
	}
	p.tokDom = sortDom(p.tokDom).norm()
	p.collect(p.parserT, nil)
	for _, l := range p.leaves {
		switch {
		case types.Identical(l.typ, p.tokT):
			p.tok = l
		case isNamed(l.typ, "go/token", "Pos") && l.in == p.scanT:
			p.pos = l
		case l.typ.String() == "*go/token.File":
			p.file = l
		case l.typ.String() == "[]byte":
			p.src = l
		case l.name == "offset":
			p.off = l
		case isSigType(l.typ):
			p.errFn = l
		default:
			if sl, ok := l.typ.Underlying().(*types.Slice); ok {
				if types.Implements(sl.Elem(), errType.Underlying().(*types.Interface)) {
					p.errs, p.errElem = l, sl.Elem()
				}
			}
		}
	}
	for _, l := range []tfLeaf{p.tok, p.pos, p.file, p.src, p.off, p.errs, p.errFn} {
		if l.typ == nil {
			p.in.fail("the state of the parser is not recognised")
		}
	}
	p.next = c.ld.method(p.parserT, "next")
	p.findCounters()
	p.in.fnHook = p.hook
	p.in.models["(*go/token.File).Offset"] = func(in *Interp, st *State, c *callCtx) []Out {
		return one(st, c, p.offsetOf(c.args[0], c.args[1]))
	}
	return p
}

func (p *pctx) collect(t types.Type, path []int) {
	n, _ := t.(*types.Named)
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		q := append(append([]int(nil), path...), i)
		if isStructType(ft) {
			p.collect(ft, q)
			continue
		}
		p.leaves = append(p.leaves, tfLeaf{q, u.Field(i).Name(), ft, n})
	}
}

func (p *pctx) get(st *State, l tfLeaf) *Term {
	return p.in.load(st, p.ptr(l), l.typ)
}

func (p *pctx) set(st *State, l tfLeaf, v *Term) {
	o, _ := st.heap.get(p.pobj)
	st.heap.set(p.pobj, setLeaf(o, l.path, v))
}

func (p *pctx) ptr(l tfLeaf) *Term {
	ks := make([]*Term, len(l.path))
	for i, k := range l.path {
		ks[i] = mkI(int64(k))
	}
	return mkPtr(p.pobj, ks...)
}

// fresh makes the state of the scanner that of an unknown next token.
func (p *pctx) fresh(st *State) {
	for _, l := range p.leaves {
		if l.in != p.scanT {
			continue
		}
		if _, ok := l.typ.Underlying().(*types.Basic); !ok {
			continue
		}
		p.set(st, l, mkSym(l.name, l.typ))
	}
	t := p.get(st, p.tok)
	st.dom.set(t, p.tokDom)
	// the text of the token lies within the source
	lo := p.start(st)
	off := p.get(st, p.off)
	st.assume(mkLt(lo, mkI(0), true), false)
	st.assume(mkLt(off, lo, true), false)
	st.assume(mkLt(lenTerm(p.get(st, p.src)), off, true), false)
}

func (p *pctx) start(st *State) *Term {
	return p.offsetOf(p.get(st, p.file), p.get(st, p.pos))
}

// offsetOf is the offset of a position in a file.
func (p *pctx) offsetOf(file, pos *Term) *Term {
	if pos.op == OpApp && pos.s == "(*go/token.File).Pos" && pos.args[0] == file {
		return pos.args[1]
	}
	return mkApp("(*go/token.File).Offset", types.Typ[types.Int], file, pos)
}

// text is the source text of the current token.
func (p *pctx) text(st *State) *Term {
	st = st.clone() // the bounds are not of interest
	src := p.get(st, p.src)
	s := p.in.sliceOf(st, src, p.start(st), p.get(st, p.off), p.src.typ, token.NoPos)
	return p.in.convert(st, s, p.src.typ, types.Typ[types.String])
}

// open makes a parser about to read an unknown token.
func (p *pctx) open() (*State, *Term) {
	st := p.base.clone()
	v := p.in.freshValue(st, "p", p.parserT)
	p.pobj = p.in.newObj(st, p.parserT, v)
	st.dom.set(lenTerm(p.get(st, p.src)), Dom{{0, 1 << 40}})
	p.fresh(st)
	return st, mkPtr(p.pobj)
}

// nodeOf is the AST type a function of the parser returns.
func (p *pctx) nodeOf(fn *ssa.Function) types.Type {
	s := fn.Signature
	if s.Recv() == nil || s.Results().Len() != 1 || fn.Pkg != p.pkg {
		return nil
	}
	if pt, ok := s.Recv().Type().(*types.Pointer); !ok || !types.Identical(pt.Elem(), p.parserT) {
		return nil
	}
	t := s.Results().At(0).Type()
	if !types.Implements(t, p.nodeT) {
		return nil
	}
	return t
}

func instKey(fn *ssa.Function, args []*Term) string {
	k := fn.String()
	for _, a := range args {
		k += "," + a.String()
	}
	return k
}

// instance is the abstraction of a call, if it has one.
func (p *pctx) instance(fn *ssa.Function, args []*Term) *inst {
	if p.nodeOf(fn) == nil || !p.opaque(fn) {
		return nil
	}
	for _, a := range args {
		if a.op != OpInt && a.op != OpBool && a.op != OpStr {
			return nil
		}
	}
	k := instKey(fn, args)
	if p.inl[k] {
		return nil
	}
	s := p.sums[k]
	if s == nil {
		s = &inst{fn: fn, args: args, key: k, name: typName(p.nodeOf(fn)), panics: map[string]*Term{}, leak: map[int]bool{}}
		if grammar[s.name] == nil && grammar[s.name+"{}"] != nil {
			s.name += "{}"
		}
		p.sums[k] = s
		p.order = append(p.order, s)
	}
	return s
}

func (p *pctx) hook(in *Interp, st *State, fn *ssa.Function, cc *callCtx) ([]Out, bool) {
	if fn == p.next && p.target != fn.String() {
		st.event("tok", "", cc.pos, []*Term{p.get(st, p.tok), p.get(st, p.pos), p.text(st)})
		p.fresh(st)
		return []Out{{st: st, val: tUnit, pos: cc.pos}}, true
	}
	if r := fn.Signature.Recv(); r != nil && types.Identical(r.Type(), p.tokT) && fn.Name() == "String" {
		return one(st, cc, mkApp("tokstr", types.Typ[types.String], cc.args[0])), true
	}
	if len(cc.args) == 0 {
		return nil, false
	}
	s := p.instance(fn, cc.args[1:])
	if s == nil {
		return nil, false
	}
	if s.key == p.target && !p.entered {
		p.entered = true
		return nil, false
	}
	if p.deps != nil {
		p.deps[s] = true
	}
	return p.nonterminal(st, s, cc), true
}

func typName(t types.Type) string {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// opaque tells whether calls of fn are abstracted: it makes the node it
// returns, or returns one of several kinds.
func (p *pctx) opaque(fn *ssa.Function) bool {
	t := p.nodeOf(fn)
	switch typName(t) {
	case "Ident", "Int", "Float", "String":
		return false
	}
	if types.IsInterface(t) {
		return true
	}
	el := t.(*types.Pointer).Elem()
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), el) {
				return true
			}
		}
	}
	return false
}

func (p *pctx) nonterminal(st *State, s *inst, cc *callCtx) []Out {
	fn, name := s.fn, s.name
	entry := append([]*Term{p.get(st, p.tok), p.get(st, p.pos)}, p.counters(st)...)
	var outs []Out
	after := func(st *State, kind string) *Ev {
		ev := st.event(kind, name, cc.pos, entry)
		p.callee[ev] = s
		p.fresh(st)
		p.set(st, p.errs, mkSym("errs", p.errs.typ))
		return ev
	}
	for _, v := range s.panics {
		st2 := st.clone()
		after(st2, "ntpanic").fail = s.lazy
		for k := range s.leak {
			x := mkSym(p.cnts[k].name, p.cnts[k].typ)
			st2.narrow(x, p.cnts[k].any)
			p.set(st2, p.cnts[k].tfLeaf, x)
		}
		outs = append(outs, Out{st: st2, kind: outPanic, val: v, pos: cc.pos})
	}
	if s.nullable {
		st2 := st.clone()
		st2.event("ntnil", name, cc.pos, entry)
		outs = append(outs, Out{st: st2, val: tNil, pos: cc.pos})
	}
	ev := after(st, "nt")
	r := mkSym(name, p.nodeOf(fn))
	st.facts.set(mkEq(r, tNil), false)
	ev.res = []*Term{r}
	return append(outs, Out{st: st, val: r, pos: cc.pos})
}

func isSigType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}
