package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Abstract values are hash-consed terms.
//
// Integers live in one of four normal forms: a constant, an atom (a symbol or
// an uninterpreted application), a linear combination of atoms modulo 2^w, or
// a vector of bits each of which is the parity of a set of atom bits.

type Op uint8

const (
	OpSym Op = iota
	OpInt
	OpBool
	OpStr
	OpFloat
	OpNil
	OpLin
	OpBits
	OpApp
	OpPtr    // n = object id (or -1 and args[0] = opaque base pointer); args = path
	OpStruct // args = fields
	OpArray  // args = elements
	OpTuple
	OpIface // typ = dynamic type, args[0] = value
	OpFunc  // fn
	OpClosure
	OpSlice // args = array pointer, off, len, cap
	OpSeq   // args = segments: a slice (or string content) value known by its content
	OpEq    // args = a, b
	OpLt    // args = a, b ; n = 1 if signed
	OpNot
	OpType // a reflect type: typ
	OpBuiltin
)

type BitRef struct {
	t *Term
	i int
}

// A Bit is the exclusive or of a constant and a sorted list of atom bits.
type Bit struct {
	c  bool
	xs []BitRef
}

type Term struct {
	id   int
	op   Op
	w    int
	s    string
	n    int64
	u    uint64
	args []*Term
	coef []uint64
	bits []Bit
	fn   *ssa.Function
	typ  types.Type
}

var (
	termTab  = map[string]*Term{}
	typeTab  typeutil.Map
	typeList []types.Type
	symCount int64
)

func typeID(t types.Type) int {
	if t == nil {
		return -1
	}
	if v := typeTab.At(t); v != nil {
		return v.(int)
	}
	id := len(typeList)
	typeTab.Set(t, id)
	typeList = append(typeList, t)
	return id
}

func intern(t *Term) *Term {
	var b strings.Builder
	b.Grow(64)
	wi := func(x int64) { b.WriteString(strconv.FormatInt(x, 36)); b.WriteByte(',') }
	wi(int64(t.op))
	wi(int64(t.w))
	wi(t.n)
	b.WriteString(strconv.FormatUint(t.u, 36))
	b.WriteByte('|')
	for _, a := range t.args {
		wi(int64(a.id))
	}
	b.WriteByte('|')
	for _, c := range t.coef {
		b.WriteString(strconv.FormatUint(c, 36))
		b.WriteByte(',')
	}
	b.WriteByte('|')
	for _, bt := range t.bits {
		if bt.c {
			b.WriteByte('!')
		}
		for _, x := range bt.xs {
			wi(int64(x.t.id))
			wi(int64(x.i))
		}
		b.WriteByte(';')
	}
	if t.fn != nil {
		fmt.Fprintf(&b, "|f%p", t.fn)
	}
	if t.typ != nil {
		// App and Sym terms carry the type only as an attribute of the
		// value, but two symbols of different type must stay distinct.
		wi(int64(typeID(t.typ)))
	}
	b.WriteByte('|')
	b.WriteString(t.s)
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	t.id = len(termTab)
	termTab[k] = t
	return t
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	if t == nil {
		return 0, false, false
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func mkSym(name string, typ types.Type) *Term {
	symCount++
	return intern(&Term{op: OpSym, s: name, n: symCount, typ: typ})
}

// named symbol: the same name and type yield the same symbol.
func mkNamed(name string, typ types.Type) *Term {
	return intern(&Term{op: OpSym, s: name, typ: typ})
}
func mkInt(w int, u uint64) *Term        { return intern(&Term{op: OpInt, w: w, u: u & mask(w)}) }
func mkI(v int64) *Term                  { return mkInt(64, uint64(v)) }
func mkIntT(t types.Type, v int64) *Term { w, _, _ := intInfo(t); return mkInt(w, uint64(v)) }

var (
	tTrue  *Term
	tFalse *Term
	tNil   *Term
	tEmpty *Term // empty Seq
	tUnit  *Term
)

func init() {
	tTrue = intern(&Term{op: OpBool, n: 1})
	tFalse = intern(&Term{op: OpBool})
	tNil = intern(&Term{op: OpNil})
	tEmpty = intern(&Term{op: OpSeq})
	tUnit = intern(&Term{op: OpTuple})
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return intern(&Term{op: OpStr, s: s}) }
func mkApp(name string, typ types.Type, args ...*Term) *Term {
	return intern(&Term{op: OpApp, s: name, typ: typ, args: args})
}
func mkStruct(args ...*Term) *Term { return intern(&Term{op: OpStruct, args: args}) }
func mkArray(args ...*Term) *Term  { return intern(&Term{op: OpArray, args: args}) }
func mkTuple(args ...*Term) *Term  { return intern(&Term{op: OpTuple, args: args}) }
func mkIface(t types.Type, v *Term) *Term {
	return intern(&Term{op: OpIface, typ: t, args: []*Term{v}})
}
func mkFunc(fn *ssa.Function) *Term { return intern(&Term{op: OpFunc, fn: fn}) }
func mkClosure(fn *ssa.Function, b []*Term) *Term {
	return intern(&Term{op: OpClosure, fn: fn, args: b})
}
func mkPtr(obj int, path ...*Term) *Term {
	return intern(&Term{op: OpPtr, n: int64(obj), args: path})
}
func mkOPtr(base *Term, path ...*Term) *Term { // pointer derived from an opaque pointer
	if len(path) == 0 {
		return base
	}
	return intern(&Term{op: OpPtr, n: -1, args: append([]*Term{base}, path...)})
}
func mkRType(t types.Type) *Term { return intern(&Term{op: OpType, typ: t}) }
func mkSlice(arr, off, ln, cp *Term) *Term {
	return intern(&Term{op: OpSlice, args: []*Term{arr, off, ln, cp}})
}

func (t *Term) isConst() bool { return t.op == OpInt }
func (t *Term) sval() int64 { // signed value of a constant
	sh := uint(64 - t.w)
	return int64(t.u<<sh) >> sh
}

// width of an integer term
func (t *Term) width() int {
	switch t.op {
	case OpInt, OpLin, OpBits:
		return t.w
	}
	w, _, ok := intInfo(t.typ)
	if !ok {
		return 0
	}
	return w
}

func isIntTerm(t *Term) bool {
	return t.width() > 0 && (t.op == OpInt || t.op == OpLin || t.op == OpBits || t.op == OpSym || t.op == OpApp)
}

// ---- linear forms

type lin struct {
	c uint64
	m map[*Term]uint64
}

func linOf(t *Term) lin {
	switch t.op {
	case OpInt:
		return lin{c: t.u}
	case OpLin:
		l := lin{c: t.u, m: map[*Term]uint64{}}
		for i, a := range t.args {
			l.m[a] = t.coef[i]
		}
		return l
	}
	return lin{m: map[*Term]uint64{t: 1}}
}

func (l lin) add(k lin, f uint64) lin {
	r := lin{c: l.c + k.c*f, m: map[*Term]uint64{}}
	for a, c := range l.m {
		r.m[a] = c
	}
	for a, c := range k.m {
		r.m[a] += c * f
	}
	return r
}

func (l lin) term(w int) *Term {
	mk := mask(w)
	var as []*Term
	for a, c := range l.m {
		if c&mk != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(w, l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c&mk == 0 && l.m[as[0]]&mk == 1 && as[0].width() == w {
		return as[0]
	}
	cs := make([]uint64, len(as))
	for i, a := range as {
		cs[i] = l.m[a] & mk
	}
	return intern(&Term{op: OpLin, w: w, u: l.c & mk, args: as, coef: cs})
}

func mkAdd(w int, a, b *Term) *Term {
	if a.op == OpInt && a.u == 0 {
		return b
	}
	if b.op == OpInt && b.u == 0 {
		return a
	}
	// disjoint addition is bitwise or
	if a.op == OpBits || b.op == OpBits {
		x, y := bitsOf(a, w), bitsOf(b, w)
		ok := true
		for i := range x {
			if !isZeroBit(x[i]) && !isZeroBit(y[i]) {
				ok = false
				break
			}
		}
		if ok && (a.op == OpBits || a.op == OpInt) && (b.op == OpBits || b.op == OpInt) {
			return mkOr(w, a, b)
		}
	}
	return linOf(a).add(linOf(b), 1).term(w)
}
func mkSub(w int, a, b *Term) *Term { return linOf(a).add(linOf(b), ^uint64(0)).term(w) }
func mkNeg(w int, a *Term) *Term {
	// negation of a single bit replicates it
	if a.op == OpBits {
		rest := true
		for _, b := range a.bits[1:] {
			if !isZeroBit(b) {
				rest = false
			}
		}
		if rest {
			bs := make([]Bit, w)
			for i := range bs {
				bs[i] = a.bits[0]
			}
			return mkBits(w, bs)
		}
	}
	return mkSub(w, mkInt(w, 0), a)
}
func mkMul(w int, a, b *Term) *Term {
	if b.op == OpInt {
		a, b = b, a
	}
	if a.op == OpInt {
		if a.u == 1 {
			return b
		}
		if a.u != 0 && a.u&(a.u-1) == 0 && b.op == OpBits {
			n := 0
			for a.u>>uint(n) != 1 {
				n++
			}
			return mkShl(w, b, n)
		}
		return lin{}.add(linOf(b), a.u).term(w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("mul", intTypeOf(w, true), a, b)
}

func intTypeOf(w int, signed bool) types.Type {
	switch w {
	case 8:
		if signed {
			return types.Typ[types.Int8]
		}
		return types.Typ[types.Uint8]
	case 16:
		if signed {
			return types.Typ[types.Int16]
		}
		return types.Typ[types.Uint16]
	case 32:
		if signed {
			return types.Typ[types.Int32]
		}
		return types.Typ[types.Uint32]
	}
	if signed {
		return types.Typ[types.Int64]
	}
	return types.Typ[types.Uint64]
}

// ---- bit vectors

func isZeroBit(b Bit) bool { return !b.c && len(b.xs) == 0 }
func constBit(c bool) Bit  { return Bit{c: c} }

func bitsOf(t *Term, w int) []Bit {
	switch t.op {
	case OpInt:
		bs := make([]Bit, w)
		for i := range bs {
			bs[i].c = t.u>>uint(i)&1 == 1
		}
		return bs
	case OpBits:
		if len(t.bits) == w {
			return t.bits
		}
		return t.bits[:w]
	}
	if t.op == OpLin {
		if n := narrowLin(t); n != nil {
			bs := make([]Bit, w)
			for i := range bs {
				bs[i].xs = []BitRef{{t, i}}
			}
			copy(bs, bitsOf(n, n.width()))
			return bs
		}
	}
	bs := make([]Bit, w)
	for i := range bs {
		bs[i].xs = []BitRef{{t, i}}
	}
	return bs
}

func mkBits(w int, bs []Bit) *Term {
	allc := true
	var u uint64
	for i, b := range bs {
		if len(b.xs) != 0 {
			allc = false
			break
		}
		if b.c {
			u |= 1 << uint(i)
		}
	}
	if allc {
		return mkInt(w, u)
	}
	if top := bs[w-1]; len(top.xs) == 1 && top.xs[0].t.width() == w {
		t := top.xs[0].t
		id := true
		for i, b := range bitsOf(t, w) {
			if !eqBit(b, bs[i]) {
				id = false
				break
			}
		}
		if id {
			return t
		}
	}
	return intern(&Term{op: OpBits, w: w, bits: bs})
}

func xorBit(a, b Bit) Bit {
	r := Bit{c: a.c != b.c}
	i, j := 0, 0
	less := func(x, y BitRef) bool {
		if x.t != y.t {
			return x.t.id < y.t.id
		}
		return x.i < y.i
	}
	for i < len(a.xs) || j < len(b.xs) {
		switch {
		case i == len(a.xs):
			r.xs = append(r.xs, b.xs[j])
			j++
		case j == len(b.xs):
			r.xs = append(r.xs, a.xs[i])
			i++
		case a.xs[i] == b.xs[j]:
			i++
			j++
		case less(a.xs[i], b.xs[j]):
			r.xs = append(r.xs, a.xs[i])
			i++
		default:
			r.xs = append(r.xs, b.xs[j])
			j++
		}
	}
	return r
}

func eqBit(a, b Bit) bool {
	if a.c != b.c || len(a.xs) != len(b.xs) {
		return false
	}
	for i := range a.xs {
		if a.xs[i] != b.xs[i] {
			return false
		}
	}
	return true
}

func mkXor(w int, a, b *Term) *Term {
	x, y := bitsOf(a, w), bitsOf(b, w)
	r := make([]Bit, w)
	for i := range r {
		r[i] = xorBit(x[i], y[i])
	}
	return mkBits(w, r)
}

func bitwise(w int, a, b *Term, name string, f func(x, y Bit) (Bit, bool)) *Term {
	x, y := bitsOf(a, w), bitsOf(b, w)
	r := make([]Bit, w)
	for i := range r {
		v, ok := f(x[i], y[i])
		if !ok {
			if a.id > b.id {
				a, b = b, a
			}
			o := mkApp(name, intTypeOf(w, false), a, b)
			for j := range r {
				if v, ok := f(x[j], y[j]); ok {
					r[j] = v
				} else {
					r[j] = Bit{xs: []BitRef{{o, j}}}
				}
			}
			return mkBits(w, r)
		}
		r[i] = v
	}
	return mkBits(w, r)
}

func mkAnd(w int, a, b *Term) *Term {
	return bitwise(w, a, b, "and", func(x, y Bit) (Bit, bool) {
		switch {
		case len(x.xs) == 0:
			if x.c {
				return y, true
			}
			return Bit{}, true
		case len(y.xs) == 0:
			if y.c {
				return x, true
			}
			return Bit{}, true
		case eqBit(x, y):
			return x, true
		}
		return Bit{}, false
	})
}
func mkOr(w int, a, b *Term) *Term {
	return bitwise(w, a, b, "or", func(x, y Bit) (Bit, bool) {
		switch {
		case len(x.xs) == 0:
			if !x.c {
				return y, true
			}
			return constBit(true), true
		case len(y.xs) == 0:
			if !y.c {
				return x, true
			}
			return constBit(true), true
		case eqBit(x, y):
			return x, true
		}
		return Bit{}, false
	})
}
func mkNotBits(w int, a *Term) *Term   { return mkXor(w, a, mkInt(w, mask(w))) }
func mkAndNot(w int, a, b *Term) *Term { return mkAnd(w, a, mkNotBits(w, b)) }

func mkShl(w int, a *Term, n int) *Term {
	x := bitsOf(a, w)
	r := make([]Bit, w)
	for i := range r {
		if i >= n {
			r[i] = x[i-n]
		}
	}
	return mkBits(w, r)
}
func mkShr(w int, a *Term, n int, signed bool) *Term {
	x := bitsOf(a, w)
	r := make([]Bit, w)
	for i := range r {
		if i+n < w {
			r[i] = x[i+n]
		} else if signed {
			r[i] = x[w-1]
		}
	}
	return mkBits(w, r)
}

// mkConv converts an integer of width w1 (signedness s1) to width w2.
func mkConv(a *Term, w1 int, s1 bool, w2 int) *Term {
	if a.op == OpInt {
		u := a.u
		if s1 {
			u = uint64(a.sval())
		}
		return mkInt(w2, u)
	}
	if w1 == w2 {
		return a
	}
	x := bitsOf(a, w1)
	r := make([]Bit, w2)
	for i := range r {
		if i < w1 {
			r[i] = x[i]
		} else if s1 {
			r[i] = x[w1-1]
		}
	}
	return mkBits(w2, r)
}

// narrowLin is the sum of the values themselves if a sums values extended
// from one narrower width m: its bits are the low bits of a.
func narrowLin(a *Term) *Term {
	m := 0
	var as []*Term
	for _, x := range a.args {
		if x.op != OpBits || len(x.bits[0].xs) != 1 || x.bits[0].c {
			return nil
		}
		t := x.bits[0].xs[0].t
		if m == 0 {
			m = t.width()
		}
		if t.width() != m || m >= a.w || t.op == OpBits {
			return nil
		}
		for i := 0; i < m; i++ {
			if b := x.bits[i]; b.c || len(b.xs) != 1 || b.xs[0].t != t || b.xs[0].i != i {
				return nil
			}
		}
		as = append(as, t)
	}
	if m == 0 {
		return nil
	}
	r := mkInt(m, a.u)
	for i, t := range as {
		r = mkAdd(m, r, mkMul(m, t, mkInt(m, uint64(a.coef[i]))))
	}
	return r
}

func mkZigzag(v *Term) *Term { // of a 64-bit value
	return mkXor(64, mkShl(64, v, 1), mkShr(64, v, 63, true))
}
func mkUnzigzag(u *Term) *Term {
	return mkXor(64, mkShr(64, u, 1, false), mkNegBit(u))
}
func mkNegBit(u *Term) *Term {
	b := bitsOf(u, 64)[0]
	bs := make([]Bit, 64)
	for i := range bs {
		bs[i] = b
	}
	return mkBits(64, bs)
}

// ---- booleans

func mkNot(a *Term) *Term {
	switch a.op {
	case OpBool:
		return mkBool(a.n == 0)
	case OpNot:
		return a.args[0]
	}
	return intern(&Term{op: OpNot, args: []*Term{a}})
}
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OpEq, args: []*Term{a, b}})
}
func mkLt(a, b *Term, signed bool) *Term {
	if a == b {
		return tFalse
	}
	n := int64(0)
	if signed {
		n = 1
	}
	return intern(&Term{op: OpLt, n: n, args: []*Term{a, b}})
}

// subst replaces sub-terms by the given map, rebuilding normal forms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case OpLin:
			l := lin{c: t.u, m: map[*Term]uint64{}}
			ch := false
			for i, a := range t.args {
				b := f(a)
				if b != a {
					ch = true
				}
				l = l.add(linOf(b), t.coef[i])
			}
			if ch {
				r = l.term(t.w)
			}
		case OpBits:
			ch := false
			bs := make([]Bit, len(t.bits))
			for i, b := range t.bits {
				nb := Bit{c: b.c}
				for _, x := range b.xs {
					y := f(x.t)
					if y != x.t {
						ch = true
						nb = xorBit(nb, bitsOf(y, x.i+1)[x.i])
					} else {
						nb = xorBit(nb, Bit{xs: []BitRef{x}})
					}
				}
				bs[i] = nb
			}
			if ch {
				r = mkBits(t.w, bs)
			}
		default:
			if len(t.args) == 0 {
				break
			}
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = f(a)
				if as[i] != a {
					ch = true
				}
			}
			if !ch {
				break
			}
			switch t.op {
			case OpEq:
				r = mkEq(as[0], as[1])
			case OpLt:
				r = mkLt(as[0], as[1], t.n == 1)
			case OpNot:
				r = mkNot(as[0])
			case OpSeq:
				r = mkSeq(as...)
			case OpApp:
				r = rebuildApp(t, as)
			default:
				c := *t
				c.args = as
				r = intern(&c)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func occurs(t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		for _, b := range t.bits {
			for _, r := range b.xs {
				if f(r.t) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

func rebuildApp(t *Term, as []*Term) *Term {
	switch t.s {
	case "sub":
		return mkSubSeq(as[0], as[1], as[2])
	case "uvlen":
		return mkUvLen(as[0])
	case "idx":
		if a, k := as[0], as[1]; a.op == OpArray && k.op == OpInt && k.sval() >= 0 && int(k.u) < len(a.args) {
			return a.args[k.u]
		}
	case "maphas", "mapget":
		if k, tab := as[0], as[1]; k.op == OpInt && tab.op == OpApp && tab.s == "tab" {
			for j := len(tab.args) - 2; j >= 0; j -= 2 {
				if e := tab.args[j]; e.op != OpInt || e.width() != k.width() {
					break
				} else if e.u == k.u {
					if t.s == "maphas" {
						return tTrue
					}
					return tab.args[j+1]
				} else if j == 0 && t.s == "maphas" {
					return tFalse
				}
			}
		}
	}
	c := *t
	c.args = as
	return intern(&c)
}

// ---- sequences

var tInt = types.Typ[types.Int]
var tByte = types.Typ[types.Uint8]
var tString = types.Typ[types.String]
var tUint64 = types.Typ[types.Uint64]

// Segments: el(v) one element; sp(s) the whole content of s; sub(s,lo,hi) the
// content s[lo:hi]; uv(u) the base-128 varint encoding of the 64-bit u.
func segEl(v *Term) *Term { return mkApp("el", nil, v) }
func segUv(v *Term) *Term { return mkApp("uv", nil, v) }
func segSp(v *Term) *Term {
	return mkApp("sp", nil, v)
}
func mkSubSeq(s, lo, hi *Term) *Term {
	return mkApp("sub", nil, s, lo, hi)
}
func mkUvLen(u *Term) *Term {
	if u.op == OpInt {
		n := int64(1)
		for v := u.u; v >= 0x80; v >>= 7 {
			n++
		}
		return mkI(n)
	}
	return mkApp("uvlen", tInt, u)
}

func mkSeq(segs ...*Term) *Term {
	var out []*Term
	for _, s := range segs {
		switch {
		case s.op == OpApp && s.s == "sp" && s.args[0].op == OpSeq:
			out = append(out, s.args[0].args...)
			continue
		case s.op == OpApp && s.s == "sp" && s.args[0].op == OpNil:
			continue
		case s.op == OpApp && s.s == "sp" && s.args[0].op == OpStr:
			if s.args[0].s == "" {
				continue
			}
		case s.op == OpApp && s.s == "sub":
			if s.args[1] == s.args[2] {
				continue
			}
			if s.args[1].op == OpInt && s.args[1].u == 0 && s.args[2] == lenTerm(s.args[0]) {
				s = segSp(s.args[0])
			}
			if n := len(out); n > 0 && out[n-1].op == OpApp && out[n-1].s == "sub" && s.s == "sub" &&
				out[n-1].args[0] == s.args[0] && out[n-1].args[2] == s.args[1] {
				p := out[n-1].args[1]
				out = out[:n-1]
				if p.op == OpInt && p.u == 0 && s.args[2] == lenTerm(s.args[0]) {
					s = segSp(s.args[0])
				} else {
					s = mkSubSeq(s.args[0], p, s.args[2])
				}
			}
		}
		out = append(out, s)
	}
	// merge adjacent subs that became complete
	return intern(&Term{op: OpSeq, args: out})
}

// lenTerm is the length of a slice or string value.
func lenTerm(t *Term) *Term {
	switch t.op {
	case OpNil:
		return mkI(0)
	case OpStr:
		return mkI(int64(len(t.s)))
	case OpSlice:
		return t.args[2]
	case OpSeq:
		n := mkI(0)
		for _, s := range t.args {
			n = mkAdd(64, n, segLen(s))
		}
		return n
	case OpArray:
		return mkI(int64(len(t.args)))
	case OpApp:
		switch t.s {
		case "str", "view":
			return lenTerm(t.args[0])
		case "win":
			return t.args[3]
		case "empty":
			return mkI(0)
		case "zeros":
			return t.args[0]
		case "spare":
			return t.args[1]
		case "mapkeys":
			return t.args[1]
		}
	}
	if t.typ != nil {
		switch u := t.typ.Underlying().(type) {
		case *types.Array:
			return mkI(u.Len())
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return mkI(a.Len())
			}
		}
	}
	return mkApp("len", tInt, t)
}

func segLen(s *Term) *Term {
	switch s.s {
	case "el":
		return mkI(1)
	case "sp":
		return lenTerm(s.args[0])
	case "sub":
		return mkSub(64, s.args[2], s.args[1])
	case "uv":
		return mkUvLen(s.args[0])
	}
	return mkApp("seglen", tInt, s)
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	join := func(as []*Term) string {
		var xs []string
		for _, a := range as {
			xs = append(xs, a.str(d+1))
		}
		return strings.Join(xs, ", ")
	}
	switch t.op {
	case OpSym:
		if t.n > 0 {
			return fmt.Sprintf("%s#%d", t.s, t.n)
		}
		return t.s
	case OpInt:
		return strconv.FormatInt(t.sval(), 10)
	case OpBool:
		return strconv.FormatBool(t.n == 1)
	case OpStr:
		return strconv.Quote(t.s)
	case OpFloat:
		return t.s
	case OpNil:
		return "nil"
	case OpLin:
		var b strings.Builder
		for i, a := range t.args {
			if i > 0 {
				b.WriteString("+")
			}
			c := int64(t.coef[i]<<uint(64-t.w)) >> uint(64-t.w)
			if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			b.WriteString(a.str(d + 1))
		}
		if t.u != 0 {
			fmt.Fprintf(&b, "%+d", int64(t.u<<uint(64-t.w))>>uint(64-t.w))
		}
		return "(" + b.String() + ")"
	case OpBits:
		// one atom, each bit at most shifted or repeated
		if a := t.bits[0]; len(a.xs) == 1 && !a.c && d < 90 {
			x := a.xs[0]
			for _, w := range []int{8, 16, 32, 64} {
				for _, s := range []bool{false, true} {
					if w <= x.t.width() && w < t.w && mkConv(mkConv(x.t, x.t.width(), natSigned(x.t), w), w, s, t.w) == t {
						return fmt.Sprintf("%cext%d(%s)", map[bool]byte{true: 's', false: 'z'}[s], w, x.t)
					}
				}
			}
		}
		var b strings.Builder
		b.WriteString("bits[")
		i := len(t.bits) - 1
		first := true
		for i >= 0 {
			if !first {
				b.WriteByte(' ')
			}
			first = false
			x := t.bits[i]
			if len(x.xs) == 0 {
				j := i
				for j >= 0 && len(t.bits[j].xs) == 0 {
					if t.bits[j].c {
						b.WriteByte('1')
					} else {
						b.WriteByte('0')
					}
					j--
				}
				i = j
				continue
			}
			if len(x.xs) == 1 {
				j := i
				for j > 0 && len(t.bits[j-1].xs) == 1 && !t.bits[j-1].c && t.bits[j-1].xs[0].t == x.xs[0].t && t.bits[j-1].xs[0].i == t.bits[j].xs[0].i-1 {
					j--
				}
				if x.c {
					b.WriteByte('~')
				}
				if j == i {
					fmt.Fprintf(&b, "%s.%d", x.xs[0].t.str(d+1), x.xs[0].i)
				} else {
					fmt.Fprintf(&b, "%s.%d-%d", x.xs[0].t.str(d+1), x.xs[0].i, t.bits[j].xs[0].i)
				}
				i = j - 1
				continue
			}
			if x.c {
				b.WriteByte('~')
			}
			for k, r := range x.xs {
				if k > 0 {
					b.WriteByte('^')
				}
				fmt.Fprintf(&b, "%s.%d", r.t.str(d+1), r.i)
			}
			i--
		}
		b.WriteByte(']')
		return b.String()
	case OpApp:
		return t.s + "(" + join(t.args) + ")"
	case OpPtr:
		if t.n < 0 {
			return "&" + t.args[0].str(d+1) + "." + join(t.args[1:])
		}
		if len(t.args) == 0 {
			return fmt.Sprintf("&o%d", t.n)
		}
		return fmt.Sprintf("&o%d.%s", t.n, join(t.args))
	case OpStruct:
		return "{" + join(t.args) + "}"
	case OpArray:
		if len(t.args) > 20 {
			return "[…]"
		}
		return "[" + join(t.args) + "]"
	case OpTuple:
		return "(" + join(t.args) + ")"
	case OpIface:
		return typeShort(t.typ) + "(" + t.args[0].str(d+1) + ")"
	case OpFunc:
		return t.fn.Name()
	case OpClosure:
		return t.fn.Name() + "{" + join(t.args) + "}"
	case OpSlice:
		return "slice(" + join(t.args) + ")"
	case OpSeq:
		return "<" + join(t.args) + ">"
	case OpEq:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case OpLt:
		return t.args[0].str(d+1) + "<" + t.args[1].str(d+1)
	case OpNot:
		return "!(" + t.args[0].str(d+1) + ")"
	case OpType:
		return "type:" + typeShort(t.typ)
	}
	return "?"
}

func typeShort(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
