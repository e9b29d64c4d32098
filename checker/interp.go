package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(in *Interp, st *State, c *callCtx) []Out

type callCtx struct {
	fn   *ssa.Function
	name string
	args []*Term
	typ  types.Type // result type (tuple or single), nil if none
	pos  token.Pos
}

type Interp struct {
	ld      *Loader
	prog    *ssa.Program
	infos   map[*ssa.Function]*fnInfo
	nobj    int
	otyp    map[int]types.Type
	globals map[*ssa.Global]int
	steps   int
	max     int
	stack   []*ssa.Function
	depth   int

	models             map[string]modelFn
	invokeHook         func(in *Interp, st *State, recv *Term, m *types.Func, c *callCtx) ([]Out, bool)
	callHook           func(in *Interp, st *State, fn *Term, c *callCtx) ([]Out, bool) // call of an opaque function value
	argStack           [][]*Term
	recHook            func(st *State, fn *ssa.Function, outer, inner []*Term, pos token.Pos)
	fnHook             func(in *Interp, st *State, fn *ssa.Function, c *callCtx) ([]Out, bool) // before interpreting a function
	derefHook          func(st *State, p *Term, typ types.Type) *Term
	gen                int // distinguishes the unknown bytes after each stream
	refl               *reflModel
	onceCall           func(st *State, f *Term, c *callCtx) []Out // call of the result of sync.OnceFunc and the like
	materialInts       bool                                       // the same for slices of integers other than bytes
	material           bool                                       // slices made by append have a backing array of their own
	streams            map[*Term][]*Term                          // content of symbolic readers
	recursive          map[*ssa.Function][]*Term
	visited            map[*ssa.Function]bool // functions interpreted (coverage)
	callsites          int
	snapEvents         bool // keep the state at events of synchronisation
	noRecursion        bool
	unroll, fan, forks int
	merge              bool // join paths that agree on memory
	live               map[*ssa.BasicBlock][]int
	inline             int // recursive calls followed before one is abstracted
	// loadHook is told about the loads from objects of the heap
	loadHook func(st *State, p *Term, pos token.Pos)
	curPos   token.Pos
	// loopBounds are further values that may bound variables of loops
	loopBounds []*Term
	initing    bool
	limit      map[*Term]bool
	writerAt   func(st *State, p *Term) *Term
	doWrite    func(st *State, p *Term, segs []*Term, op string, pos token.Pos) []needRes
}

func newInterp(ld *Loader) *Interp {
	in := &Interp{ld: ld, prog: ld.prog, infos: map[*ssa.Function]*fnInfo{}, otyp: map[int]types.Type{}, globals: map[*ssa.Global]int{},
		max: 40_000_000, models: map[string]modelFn{}, streams: map[*Term][]*Term{}, recursive: map[*ssa.Function][]*Term{}, visited: map[*ssa.Function]bool{}}
	in.unroll, in.fan, in.forks = 80, 6, 14
	registerModels(in)
	return in
}

type undecidedErr struct{ msg string }

func (in *Interp) fail(format string, args ...any) {
	panic(undecidedErr{fmt.Sprintf(format, args...)})
}

type frame struct {
	fn       *ssa.Function
	fi       *fnInfo
	binds    []*Term
	panicVal *Term // value visible to recover() in this frame
}

type deferRec struct {
	fn   *Term
	inv  *types.Func
	args []*Term
	pos  token.Pos
}

type cfg struct {
	st      *State
	env     []*Term
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	entered bool
	defers  []deferRec
}

func (c *cfg) fork() *cfg {
	n := *c
	n.st = c.st.clone()
	n.env = append([]*Term(nil), c.env...)
	n.defers = append([]deferRec(nil), c.defers...)
	return &n
}

// callFn runs fn on args from st and returns all outcomes.
func (in *Interp) callFn(st *State, fn *ssa.Function, args, binds []*Term, pos token.Pos, panicVal *Term) []Out {
	c := &callCtx{fn: fn, name: fn.String(), args: args, pos: pos}
	if o := fn.Origin(); o != nil {
		c.name = o.String()
	}
	if fn.Signature.Results().Len() == 1 {
		c.typ = fn.Signature.Results().At(0).Type()
	} else {
		c.typ = fn.Signature.Results()
	}
	in.callsites++
	if in.fnHook != nil {
		if o, ok := in.fnHook(in, st, fn, c); ok {
			return o
		}
	}
	if m, ok := in.models[c.name]; ok {
		sts := in.settle(st, args)
		if len(sts) == 1 {
			return m(in, sts[0], c)
		}
		var outs []Out
		for _, s := range sts {
			c2 := *c
			outs = append(outs, m(in, s, &c2)...)
		}
		return outs
	}
	if fn.Synthetic == "package initializer" && !in.ownPkg(fn.Pkg) {
		return []Out{{st: st, val: tUnit}}
	}
	if len(fn.Blocks) == 0 || !in.interpretable(fn) {
		return in.external(st, c)
	}
	return in.callBody(st, fn, args, binds, pos, panicVal)
}

func (in *Interp) callBody(st *State, fn *ssa.Function, args, binds []*Term, pos token.Pos, panicVal *Term) []Out {
	c := &callCtx{fn: fn, name: fn.String(), args: args, pos: pos}
	same := 0
	for _, f := range in.stack {
		if f == fn {
			same++
		}
	}
	for _, f := range in.stack {
		if same <= in.inline {
			break
		}
		if f == fn && len(binds) == 0 && len(args) > 0 || f == fn && in.depth > 60 {
			if constArgs(args) && in.depth < 60 {
				continue
			}
			in.recursive[fn] = args
			if in.recHook != nil {
				outer := args
				for i, g := range in.stack {
					if g == fn {
						outer = in.argStack[i]
					}
				}
				in.recHook(st, fn, outer, args, pos)
			}
			return in.recurse(st, c)
		}
	}
	in.visited[fn] = true
	in.stack = append(in.stack, fn)
	in.argStack = append(in.argStack, args)
	in.depth++
	defer func() {
		in.stack = in.stack[:len(in.stack)-1]
		in.argStack = in.argStack[:len(in.argStack)-1]
		in.depth--
	}()
	fr := &frame{fn: fn, fi: in.info(fn), binds: binds, panicVal: panicVal}
	env := make([]*Term, fr.fi.n)
	for i, p := range fn.Params {
		env[fr.fi.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[fr.fi.num[p]] = binds[i]
		}
	}
	var entry *State
	since := symCount
	if in.merge {
		entry = st.clone()
	}
	start := &cfg{st: st, env: env, blk: fn.Blocks[0]}
	_, _, outs := in.explore(fr, []*cfg{start}, nil)
	if in.merge && len(outs) > 1 {
		outs = in.mergeOuts(entry, since, outs)
	}
	return outs
}

func constArgs(args []*Term) bool {
	for _, a := range args {
		switch a.op {
		case OpInt, OpStr, OpBool:
		default:
			return false
		}
	}
	return true
}

func (in *Interp) ownPkg(p *ssa.Package) bool {
	return p != nil && (p.Pkg.Path() == in.ld.modPath || strings.HasPrefix(p.Pkg.Path(), in.ld.modPath+"/"))
}

func (in *Interp) interpretable(fn *ssa.Function) bool {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	pkg := f.Pkg
	if pkg == nil && f.Object() != nil && f.Object().Pkg() != nil {
		pkg = in.prog.Package(f.Object().Pkg())
	}
	if pkg == nil {
		// synthetic wrapper: interpret, its callee is classified on its own
		return true
	}
	path := pkg.Pkg.Path()
	if strings.HasPrefix(path, in.ld.modPath) {
		return true
	}
	switch path {
	case "encoding/binary":
		return strings.Contains(fn.String(), "ndian)")
	case "slices", "maps", "cmp":
		return true
	case "math/bits":
		return false
	}
	// synthetic wrappers of standard methods (bound methods, thunks)
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && !strings.HasPrefix(fn.Synthetic, "instance") {
		return true
	}
	return false
}

// recurse abstracts a recursive call: an event with fresh results.
func (in *Interp) recurse(st *State, c *callCtx) []Out {
	return in.opaqueCall(st, "rec", c.fn.String(), c.args, c.fn.Signature.Results(), c.pos)
}

// opaqueCall records an event and returns fresh results; if the last result
// is an error the path forks into success and failure.
func (in *Interp) opaqueCall(st *State, kind, name string, args []*Term, res *types.Tuple, pos token.Pos) []Out {
	n := res.Len()
	vals := make([]*Term, n)
	errIdx := -1
	for i := 0; i < n; i++ {
		t := res.At(i).Type()
		if i == n-1 && isErrorType(t) {
			errIdx = i
			continue
		}
		vals[i] = in.freshValue(st, name, t)
	}
	mk := func(st *State, e *Term) Out {
		v := append([]*Term(nil), vals...)
		if errIdx >= 0 {
			v[errIdx] = e
		}
		ev := st.event(kind, name, pos, args, v...)
		ev.fail = errIdx >= 0 && e != tNil
		var r *Term
		if n == 1 {
			r = v[0]
		} else {
			r = mkTuple(v...)
		}
		return Out{st: st, val: r, pos: pos}
	}
	if errIdx < 0 {
		return []Out{mk(st, nil)}
	}
	st2 := st.clone()
	e := in.freshErr(st2, name)
	return []Out{mk(st, tNil), mk(st2, e)}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var errType = types.Universe.Lookup("error").Type()

func (in *Interp) freshErr(st *State, name string) *Term {
	e := mkSym("err:"+name, errType)
	st.facts.set(mkEq(e, tNil), false)
	return e
}

// freshValue makes a symbolic value of type t; structs are expanded.
func (in *Interp) freshValue(st *State, name string, t types.Type) *Term {
	if u, ok := t.Underlying().(*types.Struct); ok && !isNamed(t, "reflect", "Value") {
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = in.freshValue(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return mkStruct(as...)
	}
	return mkSym(name, t)
}

func (in *Interp) external(st *State, c *callCtx) []Out {
	pkg := ""
	if c.fn.Pkg != nil {
		pkg = c.fn.Pkg.Pkg.Path()
	} else if o := c.fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if o := c.fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	if purePkgs[pkg] || in.initing {
		return in.pureCall(st, c)
	}
	st.undecided("call of %s is not modelled", c.name)
	return in.opaqueCall(st, "extern", c.name, c.args, c.fn.Signature.Results(), c.pos)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "fmt": true, "errors": true, "bytes": true, "slices": true, "maps": true, "cmp": true, "go/token": true}

func (in *Interp) pureCall(st *State, c *callCtx) []Out {
	return []Out{{st: st, val: in.pureApp(c.name, c.fn.Signature.Results(), c.args), pos: c.pos}}
}

func (in *Interp) pureApp(name string, res *types.Tuple, args []*Term) *Term {
	n := res.Len()
	if n == 0 {
		return tUnit
	}
	if n == 1 {
		return mkApp(name, res.At(0).Type(), args...)
	}
	vs := make([]*Term, n)
	for i := range vs {
		vs[i] = mkApp(fmt.Sprintf("%s.%d", name, i), res.At(i).Type(), args...)
	}
	return mkTuple(vs...)
}

// explore runs configurations until they leave the loop (or return).
func (in *Interp) explore(fr *frame, work []*cfg, loop *Loop) (exits, backs []*cfg, outs []Out) {
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if c.idx == 0 && !c.entered {
			if loop != nil && c.blk == loop.header {
				backs = append(backs, c)
				continue
			}
			if loop != nil && !loop.blocks[c.blk] {
				exits = append(exits, c)
				continue
			}
			if l := fr.fi.loops[c.blk]; l != nil {
				ex, os := in.execLoop(fr, c, l)
				work = append(work, ex...)
				outs = append(outs, os...)
				continue
			}
			in.phis(fr, c)
		}
		next, os := in.runBlock(fr, c)
		work = append(work, next...)
		outs = append(outs, os...)
		if len(outs) > 200000 || len(work) > 200000 {
			in.fail("too many paths in %s", fr.fn)
		}
	}
	return
}

func (in *Interp) phis(fr *frame, c *cfg) {
	c.entered = true
	if c.prev == nil { // the entry block, or the values are there already
		for _, ins := range c.blk.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				break
			}
			c.idx++
		}
		return
	}
	k := -1
	for i, p := range c.blk.Preds {
		if p == c.prev {
			k = i
			break
		}
	}
	var vals []*Term
	n := 0
	for _, ins := range c.blk.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, in.val(fr, c, phi.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		c.env[fr.fi.num[c.blk.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	c.idx = n
}

func (in *Interp) val(fr *frame, c *cfg, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constTerm(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Builtin:
		return intern(&Term{op: OpBuiltin, s: v.Name()})
	case *ssa.Global:
		return in.globalPtr(c.st, v)
	}
	t := c.env[fr.fi.num[v]]
	if t == nil {
		in.fail("no value for %s in %s", v.Name(), fr.fn)
	}
	return t
}

func (in *Interp) globalPtr(st *State, g *ssa.Global) *Term {
	id, ok := in.globals[g]
	if !ok {
		in.nobj++
		id = in.nobj
		in.globals[g] = id
		in.otyp[id] = g.Type().(*types.Pointer).Elem()
	}
	if _, ok := st.heap.get(id); !ok {
		t := in.otyp[id]
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), in.ld.modPath) {
			st.heap.set(id, zeroOf(t))
		} else {
			x := mkNamed(g.String(), t)
			if isErrorType(t) {
				st.facts.set(mkEq(x, tNil), false)
			}
			st.heap.set(id, x)
		}
	}
	return mkPtr(id)
}

func (in *Interp) constTerm(v *ssa.Const) *Term {
	if v.Value == nil {
		return zeroOf(v.Type())
	}
	if w, _, ok := intInfo(v.Type()); ok {
		if i, ok := constant.Int64Val(constant.ToInt(v.Value)); ok {
			return mkInt(w, uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(v.Value))
		return mkInt(w, u)
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v.Value))
	case constant.String:
		return mkStr(constant.StringVal(v.Value))
	case constant.Int, constant.Float:
		return intern(&Term{op: OpFloat, s: v.Value.ExactString()})
	}
	in.fail("constant %s", v)
	return nil
}

// runBlock executes the rest of a block; it returns successor configurations
// and finished outcomes.
func (in *Interp) runBlock(fr *frame, c *cfg) (next []*cfg, outs []Out) {
	for {
		in.steps++
		if in.steps > in.max {
			in.fail("step budget exhausted in %s", fr.fn)
		}
		if overTime.Load() {
			in.fail("time or memory exhausted in %s", fr.fn)
		}
		ins := c.blk.Instrs[c.idx]
		set := func(v *Term) { c.env[fr.fi.num[ins.(ssa.Value)]] = v }
		switch i := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			c.prev, c.blk, c.idx, c.entered = c.blk, c.blk.Succs[0], 0, false
			return []*cfg{c}, outs
		case *ssa.If:
			b := in.val(fr, c, i.Cond)
			v := c.st.eval(b)
			var cs []*cfg
			take := func(c *cfg, k int) {
				c.prev, c.blk, c.idx, c.entered = c.blk, c.blk.Succs[k], 0, false
				cs = append(cs, c)
			}
			switch v {
			case yes:
				take(c, 0)
			case no:
				take(c, 1)
			default:
				d := c.fork()
				if c.st.assume(b, true) {
					c.st.trail = &Ev{prev: c.st.trail, args: []*Term{b}, pos: in.condPos(i)}
					take(c, 0)
				}
				if d.st.assume(b, false) {
					d.st.trail = &Ev{prev: d.st.trail, args: []*Term{mkNot(b)}, pos: in.condPos(i)}
					take(d, 1)
				}
			}
			return append(next, cs...), outs
		case *ssa.Return:
			vs := make([]*Term, len(i.Results))
			for k, r := range i.Results {
				vs[k] = in.val(fr, c, r)
			}
			var v *Term
			if len(vs) == 1 {
				v = vs[0]
			} else {
				v = mkTuple(vs...)
			}
			outs = append(outs, Out{st: c.st, val: v, pos: i.Pos()})
			return next, outs
		case *ssa.Panic:
			v := in.val(fr, c, i.X)
			n, o := in.doPanic(fr, c, v, i.Pos())
			return append(next, n...), append(outs, o...)
		case *ssa.RunDefers:
			n, o := in.runDefers(fr, c, nil, c.defers)
			c.defers = nil
			if len(n) == 1 && len(o) == 0 && n[0] == c {
				break
			}
			for _, x := range n {
				x.idx++
				x.defers = nil
			}
			return append(next, n...), append(outs, o...)
		case *ssa.Defer:
			d := deferRec{pos: i.Pos()}
			if i.Call.IsInvoke() {
				d.inv = i.Call.Method
				d.fn = in.val(fr, c, i.Call.Value)
			} else {
				d.fn = in.val(fr, c, i.Call.Value)
			}
			for _, a := range i.Call.Args {
				d.args = append(d.args, in.val(fr, c, a))
			}
			c.defers = append(c.defers, d)
		case *ssa.Call:
			os := in.doCall(fr, c, &i.Call, i.Type(), i.Pos())
			if len(os) == 1 && os[0].kind == outRet {
				c.st = os[0].st
				set(in.fixVal(os[0].val))
				break
			}
			for k, o := range os {
				d := c
				if k < len(os)-1 {
					d = c.forkWith(o.st)
				} else {
					d.st = o.st
				}
				if o.kind == outPanic {
					n, po := in.doPanic(fr, d, o.val, o.pos)
					next = append(next, n...)
					outs = append(outs, po...)
					continue
				}
				d.env[fr.fi.num[i]] = in.fixVal(o.val)
				d.idx = c.idx
				if k < len(os)-1 {
					d.idx++
					next = append(next, d)
				} else {
					d.idx++
					next = append(next, d)
				}
			}
			return next, outs
		case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
			in.fail("concurrency primitive %s in %s", ins, fr.fn)
		case *ssa.Store:
			p := in.val(fr, c, i.Addr)
			if p.op == OpNil {
				n, o := in.doPanic(fr, c, mkStr("nil dereference"), i.Pos())
				return append(next, n...), append(outs, o...)
			}
			in.store(c.st, p, in.val(fr, c, i.Val), i.Pos())
		case *ssa.MapUpdate:
			m, k, v := in.val(fr, c, i.Map), in.val(fr, c, i.Key), in.val(fr, c, i.Value)
			if mt, ok := i.Map.Type().Underlying().(*types.Map); ok && in.isCache(mt, m) {
				in.cacheStore(c.st, mt, m, k, v, i.Pos())
			} else {
				in.mapUpdate(c.st, m, k, v, i.Pos())
			}
		case ssa.Value:
			if p := ins.Pos(); p.IsValid() {
				in.curPos = p
			}
			vs := in.evalInstr(fr, c, ins)
			if vs.panics != nil {
				n, o := in.doPanic(fr, c, vs.panics, ins.Pos())
				return append(next, n...), append(outs, o...)
			}
			if len(vs.alts) > 0 {
				for _, a := range vs.alts {
					d := c.forkWith(a.st)
					if a.panics != nil {
						n, o := in.doPanic(fr, d, a.panics, ins.Pos())
						next = append(next, n...)
						outs = append(outs, o...)
						continue
					}
					d.env[fr.fi.num[ins.(ssa.Value)]] = a.v
					d.idx++
					next = append(next, d)
				}
				return next, outs
			}
			set(vs.v)
		default:
			in.fail("instruction %T in %s", ins, fr.fn)
		}
		c.idx++
	}
}

func (in *Interp) condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p.IsValid() {
		return p
	}
	return i.Pos()
}

func (in *Interp) fixVal(v *Term) *Term {
	if v == nil {
		return tUnit
	}
	return v
}

func (c *cfg) forkWith(st *State) *cfg {
	n := *c
	n.st = st
	n.env = append([]*Term(nil), c.env...)
	n.defers = append([]deferRec(nil), c.defers...)
	return &n
}

// doPanic unwinds the frame.
func (in *Interp) doPanic(fr *frame, c *cfg, v *Term, pos token.Pos) (next []*cfg, outs []Out) {
	if v.op == OpBuiltin && v.s == "diverge" {
		return nil, nil
	}
	if len(c.defers) == 0 {
		return nil, []Out{{st: c.st, kind: outPanic, val: v, pos: pos}}
	}
	ds := c.defers
	c.defers = nil
	n, o := in.runDefers(fr, c, v, ds)
	outs = append(outs, o...)
	for _, x := range n {
		if !x.st.reco {
			outs = append(outs, Out{st: x.st, kind: outPanic, val: v, pos: pos})
			continue
		}
		x.st.reco = false
		if fr.fn.Recover == nil {
			outs = append(outs, Out{st: x.st, val: zeroOf(fr.fn.Signature.Results()), pos: pos})
			continue
		}
		x.prev, x.blk, x.idx, x.entered = nil, fr.fn.Recover, 0, true
		x.defers = nil
		next = append(next, x)
	}
	return
}

// runDefers runs the deferred calls in reverse order. The returned
// configurations continue after them.
func (in *Interp) runDefers(fr *frame, c *cfg, pval *Term, ds []deferRec) (next []*cfg, outs []Out) {
	cur := []*cfg{c}
	saved := c.st.reco
	c.st.reco = false
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		var nn []*cfg
		for _, x := range cur {
			pv := pval
			if x.st.reco {
				pv = nil
			}
			var os []Out
			if d.inv != nil {
				os = in.invoke(x.st, d.fn, d.inv, d.args, d.pos)
			} else {
				os = in.callTerm(x.st, d.fn, d.args, nil, d.pos, pv)
			}
			for j, o := range os {
				y := x
				if j < len(os)-1 {
					y = x.forkWith(o.st)
				} else {
					y.st = o.st
				}
				if o.kind == outPanic {
					// a panic in a deferred call replaces the current one
					// (re-panics): run the remaining defers with it
					n2, o2 := in.runDefers(fr, y, o.val, ds[:k])
					outs = append(outs, o2...)
					for _, z := range n2 {
						if z.st.reco {
							nn = append(nn, z)
						} else {
							outs = append(outs, Out{st: z.st, kind: outPanic, val: o.val, pos: o.pos})
						}
					}
					continue
				}
				nn = append(nn, y)
			}
		}
		cur = nn
	}
	if pval == nil {
		for _, x := range cur {
			x.st.reco = saved
		}
	}
	return cur, outs
}

func (in *Interp) doCall(fr *frame, c *cfg, cc *ssa.CallCommon, typ types.Type, pos token.Pos) []Out {
	args := make([]*Term, len(cc.Args))
	for k, a := range cc.Args {
		args[k] = in.val(fr, c, a)
	}
	if cc.IsInvoke() {
		return in.invoke(c.st, in.val(fr, c, cc.Value), cc.Method, args, pos)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, c.st, b, cc, args, typ, pos)
	}
	f := in.val(fr, c, cc.Value)
	return in.callTerm(c.st, f, args, cc.Signature(), pos, nil)
}

func (in *Interp) callTerm(st *State, f *Term, args []*Term, sig *types.Signature, pos token.Pos, pval *Term) []Out {
	switch f.op {
	case OpFunc:
		return in.callFn(st, f.fn, args, nil, pos, pval)
	case OpClosure:
		return in.callFn(st, f.fn, args, f.args, pos, pval)
	case OpNil:
		return []Out{{st: st, kind: outPanic, val: mkStr("call of nil function"), pos: pos}}
	case OpBuiltin:
		if f.s == "recover" {
			return in.doRecover(st, pval, pos)
		}
	}
	c := &callCtx{args: args, pos: pos}
	if sig == nil && f.typ != nil {
		sig, _ = f.typ.Underlying().(*types.Signature)
	}
	if sig != nil {
		if sig.Results().Len() == 1 {
			c.typ = sig.Results().At(0).Type()
		} else {
			c.typ = sig.Results()
		}
	}
	if f.op == OpApp && f.s == "oncefn" && in.onceCall != nil {
		return in.onceCall(st, f, c)
	}
	if in.callHook != nil {
		if o, ok := in.callHook(in, st, f, c); ok {
			return o
		}
	}
	if sig == nil {
		st.undecided("call of unknown function %s", f)
		return []Out{{st: st, val: tUnit}}
	}
	return in.opaqueCall(st, "call", "fn", append([]*Term{f}, args...), sig.Results(), pos)
}

func (in *Interp) doRecover(st *State, pval *Term, pos token.Pos) []Out {
	if pval == nil {
		return []Out{{st: st, val: tNil}}
	}
	st.reco = true
	st.event("recover", "", pos, []*Term{pval})
	return []Out{{st: st, val: pval}}
}

func (in *Interp) invoke(st *State, recv *Term, m *types.Func, args []*Term, pos token.Pos) []Out {
	if recv.op == OpIface {
		fn := in.prog.LookupMethod(recv.typ, m.Pkg(), m.Name())
		if fn == nil {
			in.fail("no method %s on %s", m.Name(), recv.typ)
		}
		return in.callFn(st, fn, append([]*Term{recv.args[0]}, args...), nil, pos, nil)
	}
	if recv.op == OpNil {
		return []Out{{st: st, kind: outPanic, val: mkStr("method call on nil interface"), pos: pos}}
	}
	sig := m.Type().(*types.Signature)
	c := &callCtx{name: m.Name(), args: args, pos: pos}
	if sig.Results().Len() == 1 {
		c.typ = sig.Results().At(0).Type()
	} else {
		c.typ = sig.Results()
	}
	if in.invokeHook != nil {
		if o, ok := in.invokeHook(in, st, recv, m, c); ok {
			return o
		}
	}
	if m.Name() == "Error" && isErrorType(recvIface(recv)) {
		return []Out{{st: st, val: mkApp("Error", tString, recv)}}
	}
	return in.opaqueCall(st, "invoke", m.Name(), append([]*Term{recv}, args...), sig.Results(), pos)
}

func recvIface(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

type alt struct {
	st     *State
	v      *Term
	panics *Term
}
type evalRes struct {
	v      *Term
	panics *Term
	alts   []alt
}

func (in *Interp) evalInstr(fr *frame, c *cfg, ins ssa.Instruction) evalRes {
	st := c.st
	V := func(v ssa.Value) *Term { return in.val(fr, c, v) }
	one := func(t *Term) evalRes { return evalRes{v: t} }
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		return one(mkPtr(in.newObj(st, t, zeroOf(t))))
	case *ssa.BinOp:
		return in.binop(st, i.Op, V(i.X), V(i.Y), i.X.Type(), i.Y.Type(), i.Type())
	case *ssa.UnOp:
		x := V(i.X)
		switch i.Op {
		case token.MUL:
			if x.op == OpNil {
				return evalRes{panics: mkStr("nil dereference")}
			}
			return one(in.load(st, x, i.Type()))
		case token.NOT:
			return one(mkNot(x))
		case token.SUB:
			if w, _, ok := intInfo(i.Type()); ok {
				return one(mkNeg(w, x))
			}
			return one(mkApp("neg", i.Type(), x))
		case token.XOR:
			w, _, _ := intInfo(i.Type())
			return one(mkNotBits(w, x))
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return one(V(*ins.Operands(nil)[0]))
	case *ssa.Convert:
		return one(in.convert(st, V(i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		return one(in.convert(st, V(i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		t := V(i.Tuple)
		if t.op == OpTuple && i.Index < len(t.args) {
			return one(t.args[i.Index])
		}
		return one(mkApp(fmt.Sprintf("f%d", i.Index), i.Type(), t))
	case *ssa.Field:
		return one(in.project(st, V(i.X), mkI(int64(i.Field)), true, i.Type()))
	case *ssa.FieldAddr:
		p := V(i.X)
		if p.op == OpNil {
			return evalRes{panics: mkStr("nil dereference")}
		}
		return one(in.subPtr(p, mkI(int64(i.Field)), i.Type()))
	case *ssa.IndexAddr:
		return in.indexAddr(st, V(i.X), in.asInt(V(i.Index), i.Index.Type()), i)
	case *ssa.Index:
		x, k := V(i.X), in.asInt(V(i.Index), i.Index.Type())
		return in.indexVal(st, x, k, i.X.Type(), i.Type(), i.Pos())
	case *ssa.Lookup:
		return in.lookup(st, i, V(i.X), V(i.Index))
	case *ssa.MakeClosure:
		bs := make([]*Term, len(i.Bindings))
		for k, b := range i.Bindings {
			bs[k] = V(b)
		}
		return one(mkClosure(i.Fn.(*ssa.Function), bs))
	case *ssa.MakeInterface:
		x := V(i.X)
		return one(mkIface(i.X.Type(), x))
	case *ssa.MakeMap:
		id := in.newObj(st, i.Type(), mkApp("map", nil))
		return one(mkPtr(id))
	case *ssa.MakeSlice:
		ln, cp := in.asInt(V(i.Len), i.Len.Type()), in.asInt(V(i.Cap), i.Cap.Type())
		st.event("makeslice", "", i.Pos(), []*Term{ln, cp})
		el := i.Type().Underlying().(*types.Slice).Elem()
		if ln.op == OpInt && ln.u == 0 {
			return one(tEmpty)
		}
		if cp.op == OpInt && cp.u <= 256 {
			at := types.NewArray(el, int64(cp.u))
			id := in.newObj(st, at, zeroOf(at))
			return one(mkSlice(mkPtr(id), mkI(0), ln, cp))
		}
		return one(in.zeroSlice(st, i.Type(), ln))
	case *ssa.Slice:
		return in.slice(fr, c, i)
	case *ssa.SliceToArrayPointer:
		x := V(i.X)
		n := i.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if x.op == OpSlice && x.args[1].op == OpInt && x.args[1].u == 0 {
			return one(x.args[0])
		}
		if st.eval(mkLt(lenTerm(x), mkI(n), true)) == yes {
			return evalRes{panics: mkStr("slice to array pointer: short slice")}
		}
		return one(mkApp("arrptr", i.Type(), x))
	case *ssa.TypeAssert:
		return in.typeAssert(st, V(i.X), i)
	case *ssa.Range:
		return one(in.rangeIter(st, V(i.X), i))
	case *ssa.Next:
		return in.next(st, V(i.Iter), i)
	case *ssa.Phi:
		in.fail("phi in the middle of a block")
	}
	in.fail("instruction %T in %s", ins, fr.fn)
	return evalRes{}
}

func (in *Interp) asInt(t *Term, typ types.Type) *Term {
	w, s, ok := intInfo(typ)
	if ok && w < 64 {
		return mkConv(t, w, s, 64)
	}
	return t
}

func (in *Interp) subPtr(p, k *Term, typ types.Type) *Term {
	if p.op == OpPtr {
		c := *p
		c.args = append(append([]*Term(nil), p.args...), k)
		return intern(&c)
	}
	return mkOPtr(p, k)
}

func (in *Interp) binop(st *State, op token.Token, x, y *Term, xt, yt, rt types.Type) evalRes {
	one := func(t *Term) evalRes { return evalRes{v: t} }
	if w, s, ok := intInfo(xt); ok {
		switch op {
		case token.ADD:
			return one(mkAdd(w, x, y))
		case token.SUB:
			return one(mkSub(w, x, y))
		case token.MUL:
			return one(mkMul(w, x, y))
		case token.AND:
			return one(mkAnd(w, x, y))
		case token.OR:
			return one(mkOr(w, x, y))
		case token.XOR:
			return one(mkXor(w, x, y))
		case token.AND_NOT:
			return one(mkAndNot(w, x, y))
		case token.SHL, token.SHR:
			y = st.norm(y)
			if y.op == OpInt {
				n := int(min(y.u, 64))
				if op == token.SHL {
					return one(mkShl(w, x, min(n, w)))
				}
				if n >= w {
					if s {
						n = w - 1
					} else {
						return one(mkInt(w, 0))
					}
				}
				return one(mkShr(w, x, n, s))
			}
			return one(mkApp(op.String(), rt, x, y))
		case token.QUO, token.REM:
			if y.op == OpInt && x.op == OpInt && y.u != 0 {
				if s {
					if op == token.QUO {
						return one(mkInt(w, uint64(x.sval()/y.sval())))
					}
					return one(mkInt(w, uint64(x.sval()%y.sval())))
				}
				if op == token.QUO {
					return one(mkInt(w, x.u/y.u))
				}
				return one(mkInt(w, x.u%y.u))
			}
			if y.op == OpInt && y.u != 0 && y.u&(y.u-1) == 0 {
				lo, _ := st.rng(x, s)
				if lo >= 0 {
					n := 0
					for y.u>>uint(n) != 1 {
						n++
					}
					if op == token.QUO {
						return one(mkShr(w, x, n, false))
					}
					return one(mkAnd(w, x, mkInt(w, y.u-1)))
				}
			}
			return one(mkApp(op.String(), rt, x, y))
		case token.EQL:
			return one(mkEq(x, y))
		case token.NEQ:
			return one(mkNot(mkEq(x, y)))
		case token.LSS:
			return one(mkLt(x, y, s))
		case token.GTR:
			return one(mkLt(y, x, s))
		case token.LEQ:
			return one(mkNot(mkLt(y, x, s)))
		case token.GEQ:
			return one(mkNot(mkLt(x, y, s)))
		}
	}
	switch op {
	case token.EQL:
		return one(in.eqTerm(st, x, y, xt, yt))
	case token.NEQ:
		return one(mkNot(in.eqTerm(st, x, y, xt, yt)))
	case token.ADD:
		if x.op == OpStr && y.op == OpStr {
			return one(mkStr(x.s + y.s))
		}
		if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return one(mkStrOf(mkSeq(append(append([]*Term{}, in.contentOf(st, x)...), in.contentOf(st, y)...)...)))
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.op == OpStr && y.op == OpStr {
			switch op {
			case token.LSS:
				return one(mkBool(x.s < y.s))
			case token.GTR:
				return one(mkBool(x.s > y.s))
			case token.LEQ:
				return one(mkBool(x.s <= y.s))
			default:
				return one(mkBool(x.s >= y.s))
			}
		}
		switch op {
		case token.GTR:
			return one(mkApp("<", rt, y, x))
		case token.LEQ:
			return one(mkNot(mkApp("<", rt, y, x)))
		case token.GEQ:
			return one(mkNot(mkApp("<", rt, x, y)))
		}
		return one(mkApp("<", rt, x, y))
	}
	return one(mkApp(op.String(), rt, x, y))
}

// eqTerm wraps a concrete operand compared with an interface.
func (in *Interp) eqTerm(st *State, x, y *Term, xt, yt types.Type) *Term {
	xi, yi := types.IsInterface(xt), types.IsInterface(yt)
	if xi && !yi && y.op != OpNil {
		y = mkIface(yt, y)
	}
	if yi && !xi && x.op != OpNil {
		x = mkIface(xt, x)
	}
	if x.op == OpStruct && y.op == OpStruct && st.evalEqGen(x, y) == no {
		return tFalse
	}
	return mkEq(x, y)
}

// mkStrOf makes a string with the given content.
func mkStrOf(seq *Term) *Term {
	if len(seq.args) == 0 {
		return mkStr("")
	}
	if len(seq.args) == 1 && seq.args[0].s == "sp" {
		c := seq.args[0].args[0]
		if c.op == OpStr {
			return c
		}
		if c.typ != nil {
			if b, ok := c.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return c
			}
		}
	}
	// all constant
	all := true
	for _, s := range seq.args {
		if !(s.s == "el" && s.args[0].op == OpInt) && !(s.s == "sp" && s.args[0].op == OpStr) {
			all = false
			break
		}
	}
	if all {
		var b strings.Builder
		for _, s := range seq.args {
			if s.s == "el" {
				b.WriteByte(byte(s.args[0].u))
			} else {
				b.WriteString(s.args[0].s)
			}
		}
		return mkStr(b.String())
	}
	return mkApp("str", tString, seq)
}

func (in *Interp) convert(st *State, x *Term, from, to types.Type) *Term {
	w1, s1, ok1 := intInfo(from)
	w2, _, ok2 := intInfo(to)
	if ok1 && ok2 {
		return mkConv(x, w1, s1, w2)
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	_, fs := from.Underlying().(*types.Slice)
	ts, tsl := to.Underlying().(*types.Slice)
	switch {
	case fs && tb != nil && tb.Info()&types.IsString != 0:
		return mkStrOf(mkSeq(in.contentOf(st, x)...))
	case fb != nil && fb.Info()&types.IsString != 0 && tsl:
		if b, ok := ts.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return mkSeq(in.contentOf(st, x)...)
		}
		return mkApp("runes", to, x)
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x
	case ok1 && tb != nil && tb.Info()&types.IsString != 0:
		if x.op == OpInt {
			return mkStr(string(rune(x.sval())))
		}
		return mkApp("runestr", tString, x)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if fb != nil && tb != nil {
		return mkApp("conv:"+from.String()+">"+to.String(), to, x)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	if _, ok := to.Underlying().(*types.Struct); ok {
		return x
	}
	st.undecided("conversion %s to %s", from, to)
	return mkApp("convert", to, x)
}

func (in *Interp) zeroSlice(st *State, typ types.Type, ln *Term) *Term {
	return mkSeq(mkApp("sp", nil, mkApp("zeros", typ, ln)))
}

func (in *Interp) indexVal(st *State, x, k *Term, xt, rt types.Type, pos token.Pos) evalRes {
	if x.op == OpStr && k.op == OpInt {
		if k.sval() < 0 || int(k.u) >= len(x.s) {
			return evalRes{panics: mkStr("index out of range")}
		}
		return evalRes{v: mkInt(8, uint64(x.s[k.u]))}
	}
	in.checkIndex(st, k, lenTerm(x), pos)
	if x.op == OpArray {
		k = st.norm(k)
		if k.op == OpInt && int(k.u) < len(x.args) {
			return evalRes{v: x.args[k.u]}
		}
		return evalRes{v: in.arrayAt(st, x, k, rt)}
	}
	if x.op == OpApp && x.s == "str" || x.op == OpSeq {
		return evalRes{v: in.seqIndex(st, x, k, rt)}
	}
	return evalRes{v: mkApp("idx", rt, x, k)}
}

// arrayAt reads a known array at an unknown index: an atom over the values.
func (in *Interp) arrayAt(st *State, x, k *Term, rt types.Type) *Term {
	v := mkApp("idx", rt, x, k)
	if w, s, ok := intInfo(rt); ok && w <= 32 {
		_ = s
		lo, hi := st.rng(k, true)
		var d Dom
		for j := max(lo, 0); j <= hi && j < int64(len(x.args)); j++ {
			if x.args[j].op != OpInt {
				return v
			}
			c, _ := st.rng(x.args[j], s)
			d = append(d, iv{c, c})
		}
		if len(d) > 0 {
			full := d[:1]
			for _, e := range d[1:] {
				full = append(full, e)
			}
			st.dom.set(v, sortDom(full))
		}
	}
	return v
}

func sortDom(d Dom) Dom {
	e := append(Dom(nil), d...)
	for i := 1; i < len(e); i++ {
		for j := i; j > 0 && e[j].lo < e[j-1].lo; j-- {
			e[j], e[j-1] = e[j-1], e[j]
		}
	}
	return e.norm()
}

func (in *Interp) checkIndex(st *State, k, ln *Term, pos token.Pos) {
	if st.eval(mkLt(k, ln, true)) == yes && st.eval(mkLt(k, mkI(0), true)) == no {
		return
	}
	st.event("oob", "index", pos, []*Term{k, ln})
}

func (in *Interp) indexAddr(st *State, x, k *Term, i *ssa.IndexAddr) evalRes {
	k = st.norm(k)
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		n := pt.Elem().Underlying().(*types.Array).Len()
		if x.op == OpNil {
			return evalRes{panics: mkStr("nil dereference")}
		}
		in.checkIndex(st, k, mkI(n), i.Pos())
		if st.eval(mkLt(k, mkI(n), true)) == no {
			return evalRes{panics: mkStr("index out of range")}
		}
		return evalRes{v: in.subPtr(x, k, i.Type())}
	}
	ln := lenTerm(x)
	in.checkIndex(st, k, ln, i.Pos())
	if st.eval(mkLt(k, ln, true)) == no || st.eval(mkLt(k, mkI(0), true)) == yes {
		return evalRes{panics: mkStr("index out of range")}
	}
	if x.op == OpSlice {
		return evalRes{v: in.subPtr(x.args[0], mkAdd(64, x.args[1], k), i.Type())}
	}
	return evalRes{v: mkApp("&idx", i.Type(), x, k)}
}

func (in *Interp) slice(fr *frame, c *cfg, i *ssa.Slice) evalRes {
	st := c.st
	x := in.val(fr, c, i.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return st.norm(in.asInt(in.val(fr, c, v), v.Type()))
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = mkI(0)
	}
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		n := pt.Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = mkI(n)
		}
		cp := mkI(n)
		if mx != nil {
			cp = mx
		}
		if x.op == OpNil {
			return evalRes{panics: mkStr("nil dereference")}
		}
		if st.eval(mkLt(mkI(n), hi, true)) != no {
			st.event("oob", "slice", i.Pos(), []*Term{hi, mkI(n)})
		}
		return evalRes{v: mkSlice(x, lo, mkSub(64, hi, lo), mkSub(64, cp, lo))}
	}
	return evalRes{v: in.sliceOf(st, x, lo, hi, i.Type(), i.Pos())}
}

func (in *Interp) sliceOf(st *State, x, lo, hi *Term, typ types.Type, pos token.Pos) *Term {
	ln := lenTerm(x)
	if hi == nil {
		hi = ln
	}
	_, isStr := typ.Underlying().(*types.Basic)
	// bounds
	if st.eval(mkLt(hi, lo, true)) != no {
		st.event("oob", "slice", pos, []*Term{lo, hi})
	}
	if lo.op == OpInt && lo.u == 0 && hi == ln {
		return x
	}
	if r := in.spare(st, x, lo, hi, ln); r != nil {
		return r
	}
	if st.eval(mkLt(ln, hi, true)) != no {
		// beyond the length: legal only within the capacity
		if isStr || x.op != OpSlice || st.eval(mkLt(x.args[3], hi, true)) != no {
			if !(hi.op == OpInt && hi.u == 0) {
				st.event("oob", "slice", pos, []*Term{hi, ln})
			}
		}
	}
	switch x.op {
	case OpStr:
		if lo.op == OpInt && hi.op == OpInt && lo.u <= hi.u && int(hi.u) <= len(x.s) {
			return mkStr(x.s[lo.u:hi.u])
		}
	case OpSlice:
		return mkSlice(x.args[0], mkAdd(64, x.args[1], lo), mkSub(64, hi, lo), mkSub(64, x.args[3], lo))
	case OpNil:
		return tNil
	}
	if x.op == OpApp && x.s == "view" {
		if r := in.seqSlice(st, x, lo, hi); r != nil {
			return mkApp("view", x.typ, r)
		}
	}
	if st.eval(mkEq(lo, hi)) == yes {
		if isStr {
			return mkStr("")
		}
		if hi.op == OpInt && hi.u == 0 && x.op != OpSeq {
			return mkApp("empty", typ, x) // zero length, keeps the backing array of x
		}
		return tEmpty
	}
	if r := in.seqSlice(st, x, lo, hi); r != nil {
		if isStr {
			return mkStrOf(r)
		}
		return r
	}
	if isStr {
		return mkStrOf(mkSeq(mkSubSeq(x, lo, hi)))
	}
	return mkSeq(mkSubSeq(x, lo, hi))
}

// spare slices into the room behind a slice that was made by growing it.
func (in *Interp) spare(st *State, x, lo, hi, ln *Term) *Term {
	room, ok := st.omem.get(mkApp("room", nil, x))
	if !ok || st.eval(mkLt(ln, hi, true)) == no || st.eval(mkEq(hi, ln)) == yes {
		return nil
	}
	n := mkSub(64, hi, ln)
	if st.eval(mkLt(room, n, true)) != no || st.eval(mkLt(n, mkI(0), true)) != no {
		return nil
	}
	if st.eval(mkEq(lo, ln)) == yes {
		return mkApp("spare", byteSlice, x, n)
	}
	content, ok := st.omem.get(mkApp("spareof", nil, x))
	if !ok {
		content = mkSym("stale", byteSlice)
		st.narrow(lenTerm(content), iv{0, 1 << 48})
	}
	var tail []*Term
	if st.eval(mkEq(n, lenTerm(content))) == yes {
		tail = in.contentOf(st, content)
	} else if cut := in.seqSlice(st, content, mkI(0), n); cut != nil {
		tail = in.contentOf(st, cut)
	} else {
		tail = []*Term{mkSubSeq(content, mkI(0), n)}
	}
	all := mkSeq(append(append([]*Term(nil), in.contentOf(st, x)...), tail...)...)
	if lo.op == OpInt && lo.u == 0 {
		return all
	}
	return in.seqSlice(st, all, lo, hi)
}

func (in *Interp) typeAssert(st *State, x *Term, i *ssa.TypeAssert) evalRes {
	mkres := func(v *Term, ok bool) *Term {
		if i.CommaOk {
			return mkTuple(v, mkBool(ok))
		}
		return v
	}
	zero := zeroOf(i.AssertedType)
	isIf := types.IsInterface(i.AssertedType)
	if x.op == OpIface {
		ok := false
		v := zero
		if isIf {
			ok = types.Implements(x.typ, i.AssertedType.Underlying().(*types.Interface))
			if ok {
				v = x
			}
		} else if types.Identical(x.typ, i.AssertedType) {
			ok = true
			v = x.args[0]
		}
		if !ok && !i.CommaOk {
			return evalRes{panics: mkStr("type assertion failed")}
		}
		return evalRes{v: mkres(v, ok)}
	}
	if x.op == OpNil {
		if !i.CommaOk {
			return evalRes{panics: mkStr("type assertion on nil")}
		}
		return evalRes{v: mkres(zero, false)}
	}
	if x.op == OpApp && x.s == "ifaceof" && isIf && in.refl != nil {
		if b, known := in.implements(x.args[0], mkRType(i.AssertedType)); known {
			if !b && !i.CommaOk {
				return evalRes{panics: mkStr("type assertion failed")}
			}
			if b {
				return evalRes{v: mkres(x, true)}
			}
			return evalRes{v: mkres(zero, false)}
		}
	}
	// opaque
	name := "is:" + typeShort(i.AssertedType)
	b := mkApp(name, types.Typ[types.Bool], x)
	v := x
	if !isIf {
		v = mkApp("as:"+typeShort(i.AssertedType), i.AssertedType, x)
	}
	if !i.CommaOk {
		st.event("assert", name, i.Pos(), []*Term{x})
		return evalRes{v: v}
	}
	if x.op == OpApp && x.s == "cached" { // of the type all values stored have
		return evalRes{v: mkTuple(v, tTrue)}
	}
	var alts []alt
	if st.eval(b) != no {
		s := st.clone()
		if s.assume(b, true) {
			alts = append(alts, alt{st: s, v: mkTuple(v, tTrue)})
		}
	}
	if st.eval(b) != yes {
		s := st.clone()
		if s.assume(b, false) {
			alts = append(alts, alt{st: s, v: mkTuple(zero, tFalse)})
		}
	}
	return evalRes{alts: alts}
}

// ---- maps
//
// The content of a map object is map(k1, v1, k2, v2, ...), newest last,
// possibly starting from an opaque map: map+(base, k1, v1, ...).

func (in *Interp) mapUpdate(st *State, m, k, v *Term, pos token.Pos) {
	if m.op == OpPtr && m.n >= 0 && len(m.args) == 0 {
		c, _ := st.heap.get(int(m.n))
		if c.op != OpApp || (c.s != "map" && c.s != "map+") {
			c = mkApp("map+", nil, c)
		}
		base := 0
		if c.s == "map+" {
			base = 1
		}
		as := append([]*Term(nil), c.args...)
		for j := base; j+1 < len(as); j += 2 {
			if st.evalEq(as[j], k) == yes {
				as[j+1] = v
				st.heap.set(int(m.n), mkApp(c.s, nil, as...))
				return
			}
		}
		st.heap.set(int(m.n), mkApp(c.s, nil, append(as, k, v)...))
		return
	}
	st.event("mapupdate", "", pos, []*Term{m, k, v})
	st.omem.set(mkApp("mapelem", nil, m, k), v)
}

func (in *Interp) lookup(st *State, i *ssa.Lookup, m, k *Term) evalRes {
	mt, isMap := i.X.Type().Underlying().(*types.Map)
	if !isMap {
		return in.indexVal(st, m, in.asInt(k, i.Index.Type()), i.X.Type(), i.Type(), i.Pos())
	}
	res := func(v *Term, ok *Term) *Term {
		if i.CommaOk {
			return mkTuple(v, ok)
		}
		return v
	}
	zero := zeroOf(mt.Elem())
	if m.op == OpNil {
		return evalRes{v: res(zero, tFalse)}
	}
	if in.isCache(mt, m) {
		if v, ok := in.cacheLoad(st, mt, m, k, i.Pos()); ok {
			return evalRes{v: res(v, tTrue)}
		}
		return evalRes{v: res(zero, tFalse)}
	}
	if in.loadHook != nil && m.op == OpPtr {
		in.loadHook(st, m, i.Pos())
	}
	var entries []*Term
	opaque := m
	closed := false
	if m.op == OpPtr && m.n >= 0 && len(m.args) == 0 {
		c, _ := st.heap.get(int(m.n))
		switch {
		case c.op == OpApp && c.s == "map":
			entries, closed = c.args, true
		case c.op == OpApp && c.s == "map+":
			entries, opaque = c.args[1:], c.args[0]
		default:
			opaque = c
		}
	} else if v, ok := st.omem.get(mkApp("mapelem", nil, m, k)); ok {
		return evalRes{v: res(v, tTrue)}
	}
	// newest first; decide by syntactic knowledge
	var cand []int
	for j := len(entries) - 2; j >= 0; j -= 2 {
		switch st.evalEq(entries[j], k) {
		case yes:
			if len(cand) == 0 {
				return evalRes{v: res(entries[j+1], tTrue)}
			}
			cand = append(cand, j)
		case unknown:
			cand = append(cand, j)
		}
	}
	if closed && len(cand) == 0 {
		return evalRes{v: res(zero, tFalse)}
	}
	// undecided: a fresh atom when all values are integers (a table)
	if closed && isTable(entries) {
		in1 := st.clone()
		in2 := st.clone()
		hit := mkApp("maphas", types.Typ[types.Bool], k, mkApp("tab", nil, entries...))
		var alts []alt
		if entries[0].op == OpInt {
			in1.trail = &Ev{prev: in1.trail, args: []*Term{hit}, pos: i.Pos()}
			in2.trail = &Ev{prev: in2.trail, args: []*Term{mkNot(hit)}, pos: i.Pos()}
		}
		if in1.assume(hit, true) {
			v := mkApp("mapget", mt.Elem(), k, mkApp("tab", nil, entries...))
			var d Dom
			_, s, _ := intInfo(mt.Elem())
			for j := 1; j < len(entries); j += 2 {
				x, _ := in1.rng(entries[j], s)
				d = append(d, iv{x, x})
			}
			in1.dom.set(v, sortDom(d))
			alts = append(alts, alt{st: in1, v: res(v, tTrue)})
		}
		if in2.assume(hit, false) {
			alts = append(alts, alt{st: in2, v: res(zero, tFalse)})
		}
		return evalRes{alts: alts}
	}
	var alts []alt
	cur := st.clone()
	for _, j := range cand {
		s := cur.clone()
		if s.assume(mkEq(entries[j], k), true) {
			alts = append(alts, alt{st: s, v: res(entries[j+1], tTrue)})
		}
		if !cur.assume(mkEq(entries[j], k), false) {
			cur = nil
			break
		}
	}
	if cur != nil {
		if closed {
			alts = append(alts, alt{st: cur, v: res(zero, tFalse)})
		} else {
			v := mkApp("mapget", mt.Elem(), opaque, k)
			if !i.CommaOk {
				alts = append(alts, alt{st: cur, v: v})
			} else {
				has := mkApp("maphas", types.Typ[types.Bool], opaque, k)
				s2 := cur.clone()
				if cur.assume(has, true) {
					alts = append(alts, alt{st: cur, v: res(v, tTrue)})
				}
				if s2.assume(has, false) {
					alts = append(alts, alt{st: s2, v: res(zero, tFalse)})
				}
			}
		}
	}
	return evalRes{alts: alts}
}

func isTable(entries []*Term) bool {
	if len(entries) < 6 {
		return false
	}
	for j := 1; j < len(entries); j += 2 {
		if entries[j].op != OpInt {
			return false
		}
	}
	return true
}

func (in *Interp) rangeIter(st *State, x *Term, i *ssa.Range) *Term {
	id := in.newObj(st, nil, mkApp("iter", nil, x, mkI(0)))
	return mkPtr(id)
}

func (in *Interp) next(st *State, it *Term, i *ssa.Next) evalRes {
	c, _ := st.heap.get(int(it.n))
	tt := i.Type().(*types.Tuple)
	typ := func(k int) types.Type { return tt.At(k).Type() }
	if c.op == OpApp && c.s == "iter" {
		x, n := c.args[0], c.args[1]
		if !i.IsString && x.op == OpPtr && x.n >= 0 && n.op == OpInt {
			m, _ := st.heap.get(int(x.n))
			if m.op == OpApp && m.s == "map" {
				// all orders are possible: visit in any order by forking on
				// the first element, then in insertion order
				nent := len(m.args) / 2
				if nent == 0 || int(n.u) >= nent {
					return evalRes{v: mkTuple(tFalse, safeZero(typ(1)), safeZero(typ(2)))}
				}
				if n.u == 0 && nent <= 4 && nent > 1 {
					var alts []alt
					for j := 0; j < nent; j++ {
						s := st.clone()
						rot := append(append([]*Term(nil), m.args[2*j:]...), m.args[:2*j]...)
						id := in.newObj(s, nil, mkApp("map", nil, rot...))
						s.heap.set(int(it.n), mkApp("iter", nil, mkPtr(id), mkI(1)))
						alts = append(alts, alt{st: s, v: mkTuple(tTrue, rot[0], rot[1])})
					}
					return evalRes{alts: alts}
				}
				st.heap.set(int(it.n), mkApp("iter", nil, x, mkI(int64(n.u)+1)))
				return evalRes{v: mkTuple(tTrue, m.args[2*n.u], m.args[2*n.u+1])}
			}
		}
	}
	s2 := st.clone()
	k := mkSym("rangekey", typ(1))
	v := mkSym("rangeval", typ(2))
	st.event("next", "", i.Pos(), []*Term{it}, k, v)
	s2.event("end", "", i.Pos(), []*Term{it})
	return evalRes{alts: []alt{{st: st.clone(), v: mkTuple(tTrue, k, v)}, {st: s2, v: mkTuple(tFalse, safeZero(typ(1)), safeZero(typ(2)))}}}
}

func safeZero(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tNil
	}
	return zeroOf(t)
}

// ---- builtins

func (in *Interp) builtin(fr *frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, typ types.Type, pos token.Pos) []Out {
	one := func(t *Term) []Out { return []Out{{st: st, val: t, pos: pos}} }
	switch b.Name() {
	case "len":
		if m, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			_ = m
			return one(in.mapLen(st, args[0]))
		}
		if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			return one(mkI(p.Elem().Underlying().(*types.Array).Len()))
		}
		return one(lenTerm(args[0]))
	case "cap":
		switch args[0].op {
		case OpSlice:
			return one(args[0].args[3])
		case OpNil:
			return one(mkI(0))
		}
		v := mkApp("cap", tInt, args[0])
		st.bound(lenTerm(args[0]), v, 0, true)
		return one(v)
	case "append":
		return one(in.doAppend(st, args[0], args[1], typ, pos))
	case "copy":
		return in.doCopy(st, args[0], args[1], pos)
	case "delete":
		m := args[0]
		if m.op == OpPtr && m.n >= 0 {
			c, _ := st.heap.get(int(m.n))
			if c.op == OpApp && c.s == "map" {
				var as []*Term
				ok := true
				for j := 0; j < len(c.args); j += 2 {
					switch st.evalEq(c.args[j], args[1]) {
					case no:
						as = append(as, c.args[j], c.args[j+1])
					case unknown:
						ok = false
					}
				}
				if ok {
					st.heap.set(int(m.n), mkApp("map", nil, as...))
					return one(tUnit)
				}
			}
			st.heap.set(int(m.n), mkSym("map?", nil))
			return one(tUnit)
		}
		st.event("delete", "", pos, args)
		return one(tUnit)
	case "min", "max":
		outs := []Out{{st: st, val: args[0]}}
		_, sg, ok := intInfo(typ)
		if !ok {
			return one(mkApp(b.Name(), typ, args...))
		}
		for _, a := range args[1:] {
			var n []Out
			for _, o := range outs {
				lt := mkLt(a, o.val, sg)
				if b.Name() == "max" {
					lt = mkLt(o.val, a, sg)
				}
				s2 := o.st.clone()
				if o.st.assume(lt, true) {
					n = append(n, Out{st: o.st, val: a})
				}
				if s2.assume(lt, false) {
					n = append(n, Out{st: s2, val: o.val})
				}
			}
			outs = n
		}
		return outs
	case "recover":
		return in.doRecover(st, fr.panicVal, pos)
	case "ssa:wrapnilchk":
		return one(args[0])
	case "print", "println":
		return one(tUnit)
	case "clear":
		m := args[0]
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok && m.op == OpPtr && m.n >= 0 {
			st.heap.set(int(m.n), mkApp("map", nil))
			return one(tUnit)
		}
		st.event("clear", "", pos, args)
		return one(tUnit)
	}
	in.fail("builtin %s", b.Name())
	return nil
}

func (in *Interp) mapLen(st *State, m *Term) *Term {
	if m.op == OpNil {
		return mkI(0)
	}
	if m.op == OpPtr && m.n >= 0 {
		c, _ := st.heap.get(int(m.n))
		if c.op == OpApp && c.s == "map" {
			distinct := true
			for i := 0; i < len(c.args); i += 2 {
				for j := i + 2; j < len(c.args); j += 2 {
					if st.evalEq(c.args[i], c.args[j]) != no {
						distinct = false
					}
				}
			}
			if distinct {
				return mkI(int64(len(c.args) / 2))
			}
		}
		return mkApp("len", tInt, c)
	}
	return mkApp("len", tInt, m)
}

func (in *Interp) doAppend(st *State, a, b *Term, typ types.Type, pos token.Pos) *Term {
	bs := in.contentOf(st, b)
	if len(bs) == 0 && b.op == OpNil {
		return a
	}
	as := in.contentOf(st, a)
	if a.op == OpApp && a.s == "empty" { // buf[:0]
		as = nil
	}
	if in.material || in.materialInts && intSlice(typ) {
		if r := in.appendArray(st, a, as, bs, typ, pos); r != nil {
			return r
		}
	}
	st.event("append", "", pos, []*Term{a, b})
	r := mkSeq(append(append([]*Term(nil), as...), bs...)...)
	return r
}

// intSlice tells slices of integers that are no bytes.
func intSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8
}

// appendArray appends known elements to a slice with a backing array of known
// size: in place where the capacity suffices, else in a new array.
func (in *Interp) appendArray(st *State, a *Term, as, bs []*Term, typ types.Type, pos token.Pos) *Term {
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	if _, basic := sl.Elem().Underlying().(*types.Basic); basic && !(in.materialInts && intSlice(typ)) {
		return nil
	}
	all := append(append([]*Term(nil), as...), bs...)
	if len(all) > 64 {
		return nil
	}
	els := make([]*Term, len(all))
	for i, s := range all {
		if s.s != "el" {
			return nil
		}
		els[i] = s.args[0]
	}
	n := mkI(int64(len(all)))
	if a.op == OpSlice && a.args[1].op == OpInt && a.args[3].op == OpInt && int(a.args[3].u) >= len(all) {
		for i := len(as); i < len(all); i++ {
			in.store(st, in.subPtr(a.args[0], mkI(int64(a.args[1].u)+int64(i)), types.NewPointer(sl.Elem())), els[i], pos)
		}
		return mkSlice(a.args[0], a.args[1], n, a.args[3])
	}
	at := types.NewArray(sl.Elem(), int64(len(all)))
	id := in.newObj(st, at, mkArray(els...))
	return mkSlice(mkPtr(id), mkI(0), n, n)
}

func (in *Interp) doCopy(st *State, dst, src *Term, pos token.Pos) []Out {
	// n = min(len(dst), len(src))
	ld, ls := lenTerm(dst), lenTerm(src)
	var outs []Out
	do := func(st *State, n *Term) {
		st.event("copy", "", pos, []*Term{dst, src, n})
		if dst.op == OpSlice {
			cut := in.seqSlice(st, src, mkI(0), n)
			if n == ls || st.eval(mkEq(n, ls)) == yes {
				cut = mkSeq(in.contentOf(st, src)...)
			}
			if cut == nil {
				st.undecided("copy of undecided content")
				cut = mkSeq(mkSubSeq(src, mkI(0), n))
			}
			in.fillSlice(st, dst, cut, pos)
		}
		outs = append(outs, Out{st: st, val: n})
	}
	lt := mkLt(ls, ld, true)
	s2 := st.clone()
	if st.assume(lt, true) {
		do(st, ls)
	}
	if s2.assume(lt, false) {
		do(s2, ld)
	}
	return outs
}

// fillSlice overwrites the beginning of dst (array backed) with content.
func (in *Interp) fillSlice(st *State, dst, content *Term, pos token.Pos) {
	arr, off := dst.args[0], dst.args[1]
	segs := content.args
	// elementwise when possible
	allEl := off.op == OpInt
	for _, s := range segs {
		if s.s != "el" {
			allEl = false
		}
	}
	at := in.arrType(arr)
	if allEl {
		for k, s := range segs {
			in.store(st, in.subPtr(arr, mkI(int64(off.u)+int64(k)), nil), s.args[0], pos)
		}
		return
	}
	// a whole array from one segment
	if at != nil && off.op == OpInt && off.u == 0 && len(segs) == 1 && segs[0].s == "sp" {
		if n, ok := at.Underlying().(*types.Array); ok && segLen(segs[0]).op == OpInt && segLen(segs[0]).sval() == n.Len() {
			in.store(st, arr, segs[0].args[0], pos)
			return
		}
	}
	old := in.load(st, arr, at)
	in.store(st, arr, mkApp("overlay", at, old, off, content), pos)
}
