package main

import (
	"math"
	"sort"
	"strings"
)

// Numeric constraint domain: unions of intervals for integer terms, known
// bits for bit vectors, bounds on differences (zones) and boolean facts.

type iv struct{ lo, hi int64 }
type Dom []iv

const inf = math.MaxInt64

type kbits struct{ mask, val uint64 }

type cow[K comparable, V any] struct {
	m      map[K]V
	shared bool
}

func newCow[K comparable, V any]() cow[K, V] { return cow[K, V]{m: map[K]V{}} }
func (c *cow[K, V]) clone() cow[K, V] {
	c.shared = true
	return cow[K, V]{m: c.m, shared: true}
}
func (c *cow[K, V]) get(k K) (V, bool) { v, ok := c.m[k]; return v, ok }
func (c *cow[K, V]) set(k K, v V) {
	c.own()
	c.m[k] = v
}
func (c *cow[K, V]) del(k K) {
	if _, ok := c.m[k]; ok {
		c.own()
		delete(c.m, k)
	}
}
func (c *cow[K, V]) own() {
	if c.shared {
		n := make(map[K]V, len(c.m)+4)
		for k, v := range c.m {
			n[k] = v
		}
		c.m, c.shared = n, false
	}
}

type tri int8

const (
	no      tri = -1
	unknown tri = 0
	yes     tri = 1
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}
func (t tri) not() tri { return -t }

func typeRange(w int, signed bool) iv {
	if signed {
		return iv{-1 << uint(w-1), 1<<uint(w-1) - 1}
	}
	if w == 64 {
		return iv{0, inf}
	}
	return iv{0, 1<<uint(w) - 1}
}

func satAdd(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		if a > 0 {
			return math.MaxInt64, false
		}
		return math.MinInt64, false
	}
	return c, true
}

// negSat negates a bound; an unbounded side stays unbounded.
func negSat(x int64) int64 {
	switch x {
	case math.MinInt64:
		return math.MaxInt64
	case math.MaxInt64:
		return math.MinInt64
	}
	return -x
}

func satMul(a, k int64) (int64, bool) {
	if a == 0 || k == 0 {
		return 0, true
	}
	c := a * k
	if c/k != a || (a == math.MinInt64 && k == -1) || (k == math.MinInt64 && a == -1) {
		if (a > 0) == (k > 0) {
			return math.MaxInt64, false
		}
		return math.MinInt64, false
	}
	return c, true
}

const bigLen = 1 << 48

func intrinsic(t *Term) (Dom, bool) {
	if t.op == OpApp {
		switch t.s {
		case "len", "cap", "seglen", "NumField", "Size", "Buffered", "Available":
			return Dom{{0, bigLen}}, true
		case "uvlen":
			return Dom{{1, 10}}, true
		case "Kind":
			return Dom{{0, 26}}, true
		}
	}
	if t.op == OpSym && len(t.s) > 1 && t.s[0] == '+' { // non-negative by construction
		return Dom{{0, bigLen}}, true
	}
	return nil, false
}

// natural signedness of an atom
func natSigned(t *Term) bool {
	_, s, ok := intInfo(t.typ)
	return !ok || s
}

func (st *State) domOf(t *Term) Dom { // atoms only, natural signedness
	if d, ok := st.dom.get(t); ok {
		return d
	}
	if d, ok := intrinsic(t); ok {
		return d
	}
	return Dom{typeRange(t.width(), natSigned(t))}
}

func (d Dom) bounds() (int64, int64) {
	if len(d) == 0 {
		return 1, 0
	}
	return d[0].lo, d[len(d)-1].hi
}

func (d Dom) intersect(e Dom) Dom {
	var r Dom
	for _, a := range d {
		for _, b := range e {
			lo, hi := max(a.lo, b.lo), min(a.hi, b.hi)
			if lo <= hi {
				r = append(r, iv{lo, hi})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].lo < r[j].lo })
	return r.norm()
}

func (d Dom) norm() Dom {
	var r Dom
	for _, a := range d {
		if n := len(r); n > 0 && (r[n-1].hi == inf || a.lo <= r[n-1].hi+1) {
			if a.hi > r[n-1].hi {
				r[n-1].hi = a.hi
			}
			continue
		}
		r = append(r, a)
	}
	return r
}

func (d Dom) complementIn(full iv) Dom {
	var r Dom
	lo := full.lo
	done := false
	for _, a := range d {
		if a.lo > lo {
			r = append(r, iv{lo, a.lo - 1})
		}
		if a.hi >= full.hi {
			done = true
			break
		}
		lo = a.hi + 1
	}
	if !done && lo <= full.hi {
		r = append(r, iv{lo, full.hi})
	}
	return r
}

// lossless reports the atom a such that the bit vector t is the value
// preserving extension or truncation of a, read with the given signedness.
func (st *State) lossless(t *Term, signed bool) *Term {
	if t.op != OpBits {
		return nil
	}
	b0 := t.bits[0]
	var a *Term
	for _, b := range t.bits {
		if len(b.xs) == 1 && !b.c {
			a = b.xs[0].t
			break
		}
	}
	_ = b0
	if a == nil || a.op == OpBits {
		return nil
	}
	aw := a.width()
	if aw == 0 {
		return nil
	}
	lo, hi := st.rng(a, a.op == OpLin || natSigned(a))
	r := typeRange(t.w, signed)
	if lo < r.lo || hi > r.hi || (!(a.op == OpLin || natSigned(a)) && aw == 64 && hi == inf) {
		return nil
	}
	// compare all bits modulo what is known about a
	want := mkConv(a, aw, a.op == OpLin || natSigned(a), t.w)
	x, y := st.reduce(bitsOf(want, t.w)), st.reduce(t.bits)
	for i := range x {
		if !eqBit(x[i], y[i]) {
			return nil
		}
	}
	return a
}

// rng returns the bounds of the integer t read with the given signedness.
func (st *State) rng(t *Term, signed bool) (int64, int64) {
	w := t.width()
	full := typeRange(w, signed)
	switch t.op {
	case OpInt:
		if signed {
			return t.sval(), t.sval()
		}
		if t.u > math.MaxInt64 {
			return inf, inf
		}
		return int64(t.u), int64(t.u)
	case OpLin:
		lo, hi := full.lo, full.hi
		if m, ok := st.mathLin(t, signed); ok {
			lo, hi = st.mathRange(m)
		}
		if d, ok := st.dom.get(t); ok {
			l, h := d.bounds()
			// recorded with signed reading
			if signed || l >= 0 {
				lo, hi = max(lo, l), min(hi, h)
			}
		}
		return lo, hi
	case OpBits:
		lo, hi := full.lo, full.hi
		if d, ok := st.dom.get(t); ok {
			l, h := d.bounds()
			if signed || l >= 0 {
				lo, hi = max(lo, l), min(hi, h)
			}
		}
		bs := st.reduce(t.bits)
		// extension of an atom
		if a := st.extAtom(t, signed); a != nil {
			l, h := st.rng(a, natSigned(a))
			return max(lo, l), min(hi, h)
		}
		if a := st.lossless(t, signed); a != nil {
			l, h := st.rng(a, a.op == OpLin || natSigned(a))
			lo, hi = max(lo, l), min(hi, h)
		}
		// an atom with some bits set or cleared
		if a, set := maskedAtom(t); a != nil {
			if l, h := st.rng(a, natSigned(a)); l >= 0 && h < inf {
				if set {
					lo = max(lo, l)
				} else {
					hi = min(hi, h)
				}
			}
		}
		var mn, mx uint64
		for i, b := range bs {
			if len(b.xs) > 0 {
				mx |= 1 << uint(i)
			} else if b.c {
				mn |= 1 << uint(i)
				mx |= 1 << uint(i)
			}
		}
		top := bs[w-1]
		if signed {
			if len(top.xs) > 0 {
				// sign replicated bits: count how many high bits equal top
				k := w - 1
				for k > 0 && eqBit(bs[k-1], top) {
					k--
				}
				r := typeRange(k+1, true)
				return max(lo, r.lo), min(hi, r.hi)
			}
			a, b := mkInt(w, mn).sval(), mkInt(w, mx).sval()
			return max(lo, a), min(hi, b)
		}
		h := int64(inf)
		if mx <= math.MaxInt64 {
			h = int64(mx)
		}
		l := int64(inf)
		if mn <= math.MaxInt64 {
			l = int64(mn)
		}
		return max(lo, l), min(hi, h)
	}
	lo, hi := st.domOf(t).bounds()
	if k, ok := st.kb.get(t); ok && k.mask != 0 {
		ns := natSigned(t)
		if ns && k.mask>>uint(w-1)&1 == 1 {
			if k.val>>uint(w-1)&1 == 1 {
				hi = min(hi, -1)
			} else {
				lo = max(lo, 0)
			}
		}
		if !ns || lo >= 0 {
			mx := (mask(w) &^ k.mask) | k.val
			if ns {
				mx &= mask(w - 1)
			}
			if mx <= math.MaxInt64 {
				hi = min(hi, int64(mx))
			}
			if k.val <= math.MaxInt64 {
				lo = max(lo, int64(k.val))
			}
		}
	}
	if signed == natSigned(t) {
		return lo, hi
	}
	if lo >= 0 && hi <= full.hi && hi != inf {
		return lo, hi
	}
	if !signed && hi < 0 && w < 64 { // signed atom, always negative, read as unsigned
		return lo + 1<<uint(w), hi + 1<<uint(w)
	}
	return full.lo, full.hi
}

// maskedAtom: t is an atom of the same width with some bits set (or some
// cleared).
func maskedAtom(t *Term) (a *Term, set bool) {
	n0, n1 := 0, 0
	for i, b := range t.bits {
		switch {
		case len(b.xs) == 0 && b.c:
			n1++
		case len(b.xs) == 0:
			n0++
		case len(b.xs) == 1 && !b.c && b.xs[0].i == i && (a == nil || a == b.xs[0].t):
			a = b.xs[0].t
		default:
			return nil, false
		}
	}
	if a == nil || a.width() != t.w || n0 > 0 && n1 > 0 {
		return nil, false
	}
	return a, n1 > 0
}

// extAtom: t is syntactically the zero or sign extension of an atom and the
// natural reading of the atom gives the value of t.
func (st *State) extAtom(t *Term, signed bool) *Term {
	if t.op != OpBits || len(t.bits[0].xs) != 1 || t.bits[0].c {
		return nil
	}
	a := t.bits[0].xs[0].t
	if a.op != OpSym && a.op != OpApp {
		return nil
	}
	aw := a.width()
	if aw >= t.w {
		return nil
	}
	ns := natSigned(a)
	if ns && !signed {
		lo, _ := st.domOf(a).bounds()
		if lo < 0 {
			return nil
		}
	}
	if mkConv(a, aw, ns, t.w) != t {
		return nil
	}
	return a
}

// mathLin is the exact (unbounded) linear form of the value of t.
type mlin struct {
	c int64
	m map[*Term]int64
}

func (st *State) mathLin(t *Term, signed bool) (mlin, bool) {
	switch t.op {
	case OpInt:
		lo, _ := st.rng(t, signed)
		return mlin{c: lo}, true
	case OpLin:
		r := mlin{m: map[*Term]int64{}}
		sh := uint(64 - t.w)
		r.c = int64(t.u<<sh) >> sh
		okAll := true
		for i, a := range t.args {
			k := int64(t.coef[i]<<sh) >> sh
			am, ok := st.mathLin(a, a.op == OpBits || a.op == OpLin || natSigned(a))
			if !ok {
				okAll = false
				break
			}
			r = r.add(am, k)
		}
		if !okAll {
			return mlin{m: map[*Term]int64{t: 1}}, true
		}
		lo, hi, ok := st.mathRangeOK(r)
		full := typeRange(t.w, signed)
		if (!ok || lo < full.lo || hi > full.hi) && t.w == 64 && signed && st.relTighten(r) {
			lo, hi, ok = st.mathRangeOK(r)
		}
		if !ok || lo < full.lo || hi > full.hi {
			return mlin{m: map[*Term]int64{t: 1}}, false
		}
		return r, true
	case OpBits:
		if a := st.extAtom(t, signed); a != nil {
			return mlin{m: map[*Term]int64{a: 1}}, true
		}
		if a := st.lossless(t, signed); a != nil {
			if a.op == OpLin {
				return st.mathLin(a, true)
			}
			return mlin{m: map[*Term]int64{a: 1}}, true
		}
		return mlin{m: map[*Term]int64{t: 1}}, true
	}
	if natSigned(t) != signed {
		lo, hi := st.domOf(t).bounds()
		full := typeRange(t.width(), signed)
		if lo < 0 || hi > full.hi || hi == inf {
			return mlin{m: map[*Term]int64{t: 1}}, false
		}
	}
	return mlin{m: map[*Term]int64{t: 1}}, true
}

func (a mlin) add(b mlin, k int64) mlin {
	r := mlin{c: a.c + k*b.c, m: map[*Term]int64{}}
	for t, c := range a.m {
		r.m[t] = c
	}
	for t, c := range b.m {
		r.m[t] += c * k
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

// relTighten narrows the atoms of m by the differences known to other atoms.
func (st *State) relTighten(m mlin) bool {
	got := false
	for k, d := range st.dom.m {
		if k.op != OpLin || k.s != "m" || len(k.args) != 2 {
			continue
		}
		for i, a := range k.args {
			b := k.args[1-i]
			ca, cb := int64(k.coef[i]), int64(k.coef[1-i])
			if _, ok := m.m[a]; !ok || ca*ca != 1 || cb != -ca {
				continue
			}
			lo, hi := d.bounds() // lo <= ca*(a-b) <= hi
			if ca < 0 {
				lo, hi = negSat(hi), negSat(lo)
			}
			bl, bh := st.atomRange(b)
			x := iv{math.MinInt64, math.MaxInt64}
			if h, ok := satAdd(hi, bh); ok && hi != inf && bh != inf && hi != math.MaxInt64 {
				x.hi = h
			}
			if l, ok := satAdd(lo, bl); ok && lo != math.MinInt64 && lo != -inf && bl != -inf {
				x.lo = l
			}
			al, ah := st.atomRange(a)
			if x.lo <= al && x.hi >= ah {
				continue
			}
			if st.narrow(a, x) {
				got = true
			}
		}
	}
	return got
}

// core returns the normalized constant-free part as a term and the sign that
// relates it to m.
func (m mlin) core() (*Term, int64) {
	var as []*Term
	for t := range m.m {
		as = append(as, t)
	}
	if len(as) == 0 {
		return nil, 1
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	sg := int64(1)
	if m.m[as[0]] < 0 {
		sg = -1
	}
	cs := make([]uint64, len(as))
	for i, a := range as {
		cs[i] = uint64(sg * m.m[a])
	}
	if len(as) == 1 && cs[0] == 1 {
		return as[0], sg
	}
	return intern(&Term{op: OpLin, w: 64, args: as, coef: cs, s: "m"}), sg
}

func (st *State) atomRange(t *Term) (int64, int64) {
	return st.rng(t, t.op == OpBits || t.op == OpLin || natSigned(t))
}

func (st *State) mathRange(m mlin) (int64, int64) {
	lo, hi, _ := st.mathRangeOK(m)
	return lo, hi
}

func (st *State) mathRangeOK(m mlin) (int64, int64, bool) {
	lo, hi := m.c, m.c
	lok, hok := true, true
	for t, c := range m.m {
		var l, h int64
		if t.op == OpLin && t.s != "m" {
			// opaque wrapped linear form
			if d, ok := st.dom.get(t); ok {
				l, h = d.bounds()
			} else {
				r := typeRange(t.w, true)
				l, h = r.lo, r.hi
			}
		} else {
			l, h = st.atomRange(t)
		}
		if c < 0 {
			l, h = h, l
		}
		l2, o1 := satMul(l, c)
		h2, o2 := satMul(h, c)
		var o3, o4 bool
		lo, o3 = satAdd(lo, l2)
		hi, o4 = satAdd(hi, h2)
		lok = lok && o1 && o3
		hok = hok && o2 && o4
	}
	if c, sg := m.core(); c != nil {
		if c.op == OpLin && c.s == "m" {
			if d, ok := st.dom.get(c); ok {
				l, h := d.bounds()
				if sg < 0 {
					l, h = negSat(h), negSat(l)
				}
				if h != inf && h != math.MaxInt64 {
					if x, ok := satAdd(h, m.c); ok && (x <= hi || !hok) {
						hi, hok = x, true
					}
				}
				if l != math.MinInt64 && l != -inf {
					if x, ok := satAdd(l, m.c); ok && (x >= lo || !lok) {
						lo, lok = x, true
					}
				}
			}
		}
	}
	return lo, hi, lok && hok
}

func (st *State) atomKB(t *Term) kbits {
	k, _ := st.kb.get(t)
	if t.op == OpLin || t.op == OpBits {
		lo, hi := st.rng(t, true)
		return joinKB(k, prefixKB(lo, hi, t.w, true))
	}
	w := t.width()
	if w == 0 {
		return k
	}
	d, ok := st.dom.get(t)
	if !ok {
		if d, ok = intrinsic(t); !ok {
			return k
		}
	}
	// exact for small domains
	n := 0
	for _, x := range d {
		if x.hi-x.lo > 256 || n > 256 {
			n = 1000
			break
		}
		n += int(x.hi-x.lo) + 1
	}
	if n <= 256 && n > 0 {
		and, or := ^uint64(0), uint64(0)
		for _, x := range d {
			for v := x.lo; v <= x.hi; v++ {
				if uint64(v)&k.mask&mask(w) != k.val&mask(w) {
					continue
				}
				and &= uint64(v)
				or |= uint64(v)
			}
		}
		m := mask(w)
		known := (and | ^or) & m
		return joinKB(k, kbits{known, and & known})
	}
	lo, hi := d.bounds()
	return joinKB(k, prefixKB(lo, hi, w, natSigned(t)))
}

func joinKB(a, b kbits) kbits {
	return kbits{a.mask | b.mask, a.val | b.val}
}

func prefixKB(lo, hi int64, w int, signed bool) kbits {
	if !signed && hi == inf && w == 64 && lo >= 0 {
		// possibly an unsigned value beyond the signed range
		return kbits{}
	}
	if lo > hi {
		return kbits{}
	}
	if (lo < 0) != (hi < 0) {
		return kbits{}
	}
	x := uint64(lo) ^ uint64(hi)
	n := 0
	for x>>uint(n) != 0 {
		n++
		if n == 64 {
			return kbits{}
		}
	}
	m := ^(uint64(1)<<uint(n) - 1) & mask(w)
	return kbits{m, uint64(lo) & m}
}

// parityKey names the exclusive or of several atom bits.
func parityKey(xs []BitRef) *Term {
	return intern(&Term{op: OpBits, w: 1, bits: []Bit{{xs: xs}}, s: "parity"})
}

func (st *State) reduce(bs []Bit) []Bit {
	var r []Bit
	cache := map[*Term]kbits{}
	for i, b := range bs {
		for _, x := range b.xs {
			k, ok := cache[x.t]
			if !ok {
				k = st.atomKB(x.t)
				cache[x.t] = k
			}
			if k.mask>>uint(x.i)&1 == 1 {
				if r == nil {
					r = append([]Bit(nil), bs...)
				}
				nb := Bit{c: r[i].c != (k.val>>uint(x.i)&1 == 1)}
				for _, y := range r[i].xs {
					if y != x {
						nb.xs = append(nb.xs, y)
					}
				}
				r[i] = nb
			}
		}
		c := b
		if r != nil {
			c = r[i]
		}
		if len(c.xs) > 1 {
			if v, ok := st.facts.get(parityKey(c.xs)); ok {
				if r == nil {
					r = append([]Bit(nil), bs...)
				}
				r[i] = Bit{c: c.c != v}
			}
		}
	}
	if r == nil {
		return bs
	}
	return r
}

func (st *State) norm(t *Term) *Term { // reduce an integer under the known bits
	if !isIntTerm(t) || t.op == OpInt {
		return t
	}
	w := t.width()
	if t.op == OpBits {
		if a := st.lossless(t, true); a != nil && a.width() == w {
			return a
		}
	}
	if t.op == OpLin {
		return st.normLin(t)
	}
	return mkBits(w, st.reduce(bitsOf(t, w)))
}

// normLin replaces the bit vectors of a sum that are extensions of integers.
func (st *State) normLin(t *Term) *Term {
	w := t.width()
	l := lin{c: t.u, m: map[*Term]uint64{}}
	ch := false
	for i, a := range t.args {
		if a.op == OpBits {
			if x := st.norm(a); x != a {
				l = l.add(linOf(x), t.coef[i])
				ch = true
				continue
			}
		}
		l = l.add(linOf(a), t.coef[i])
	}
	if !ch {
		return t
	}
	return l.term(w)
}

// ---- evaluation

func (st *State) eval(b *Term) tri {
	switch b.op {
	case OpBool:
		return triOf(b.n == 1)
	case OpNot:
		return st.eval(b.args[0]).not()
	}
	if v, ok := st.facts.get(b); ok {
		return triOf(v)
	}
	switch b.op {
	case OpLt:
		return st.evalLt(b.args[0], b.args[1], b.n == 1)
	case OpEq:
		return st.evalEq(b.args[0], b.args[1])
	}
	return unknown
}

func (st *State) evalLt(a, b *Term, signed bool) tri {
	al, ah := st.rng(a, signed)
	bl, bh := st.rng(b, signed)
	if ah < bl {
		return yes
	}
	if al >= bh && !(bh == inf && !signed) {
		return no
	}
	ma, ok1 := st.mathLin(a, signed)
	mb, ok2 := st.mathLin(b, signed)
	if ok1 && ok2 {
		mx := ma.add(mb, -1)
		lo, hi, _ := st.mathRangeOK(mx)
		if hi < 0 {
			return yes
		}
		if lo >= 0 {
			return no
		}
		if len(mx.m) == 2 {
			return st.evalDiff(mx)
		}
	}
	return unknown
}

// evalDiff decides m < 0 for a difference of two atoms by the differences
// known of pairs of atoms on the way from one to the other.
func (st *State) evalDiff(m mlin) tri {
	var x, y *Term // m = x - y + m.c
	for t, c := range m.m {
		switch c {
		case 1:
			x = t
		case -1:
			y = t
		}
	}
	if x == nil || y == nil {
		return unknown
	}
	// edges[a][b] = c: a - b <= c
	edges := map[*Term]map[*Term]int64{}
	edge := func(a, b *Term, c int64) {
		if edges[a] == nil {
			edges[a] = map[*Term]int64{}
		}
		if o, ok := edges[a][b]; !ok || c < o {
			edges[a][b] = c
		}
	}
	for k, d := range st.dom.m {
		if k.op != OpLin || k.s != "m" || len(k.args) != 2 {
			continue
		}
		ca, cb := int64(k.coef[0]), int64(k.coef[1])
		if ca*ca != 1 || cb != -ca {
			continue
		}
		lo, hi := d.bounds() // lo <= ca*(a-b) <= hi
		if ca < 0 {
			lo, hi = negSat(hi), negSat(lo)
		}
		const big = 1 << 61
		if hi < big && hi > -big {
			edge(k.args[0], k.args[1], hi)
		}
		if lo < big && lo > -big {
			edge(k.args[1], k.args[0], -lo)
		}
	}
	reach := func(a, b *Term) (int64, bool) {
		dist := map[*Term]int64{a: 0}
		for n := 0; n < 8; n++ {
			ch := false
			for u, d := range dist {
				for v, c := range edges[u] {
					s, ok := satAdd(d, c)
					if o, seen := dist[v]; ok && (!seen || s < o) {
						dist[v] = s
						ch = true
					}
				}
			}
			if !ch {
				break
			}
		}
		d, ok := dist[b]
		return d, ok
	}
	if edges[x] != nil {
		if d, ok := reach(x, y); ok {
			if s, ok := satAdd(d, m.c); ok && s < 0 {
				return yes
			}
		}
	}
	if edges[y] != nil {
		if d, ok := reach(y, x); ok { // y - x <= d: m >= m.c - d
			if s, ok := satAdd(m.c, negSat(d)); ok && s >= 0 {
				return no
			}
		}
	}
	return unknown
}

func (st *State) evalEq(a, b *Term) tri {
	if a == b {
		return yes
	}
	if isIntTerm(a) && isIntTerm(b) {
		w := a.width()
		if b.width() != w {
			return unknown
		}
		na, nb := st.norm(a), st.norm(b)
		if na == nb {
			return yes
		}
		if a.op == OpBits && na.op != OpBits || b.op == OpBits && nb.op != OpBits {
			x, y := a, b
			if a.op == OpBits && na.op != OpBits {
				x = na
			}
			if b.op == OpBits && nb.op != OpBits {
				y = nb
			}
			if v := st.evalEq(x, y); v != unknown { // both or one fewer bit vectors
				return v
			}
		}
		x, y := bitsOf(na, w), bitsOf(nb, w)
		for i := range x {
			if len(x[i].xs) == 0 && len(y[i].xs) == 0 && x[i].c != y[i].c {
				return no
			}
			if len(x[i].xs) == 1 && len(y[i].xs) == 1 && x[i].xs[0] == y[i].xs[0] && x[i].c != y[i].c {
				return no
			}
		}
		for _, sg := range []bool{true, false} {
			al, ah := st.rng(a, sg)
			bl, bh := st.rng(b, sg)
			if (ah < bl || bh < al) && !(!sg && (ah == inf || bh == inf) && w == 64) {
				return no
			}
		}
		// membership in a union of intervals
		if v := st.notInDom(a, b); v {
			return no
		}
		ma, ok1 := st.mathLin(a, true)
		mb, ok2 := st.mathLin(b, true)
		if ok1 && ok2 {
			m := ma.add(mb, -1)
			lo, hi, ok := st.mathRangeOK(m)
			if lo > 0 || hi < 0 {
				return no
			}
			if ok && lo == 0 && hi == 0 {
				return yes
			}
			if c, sg := m.core(); c != nil && c.op == OpLin {
				if d, ok := st.dom.get(c); ok {
					v := -m.c * sg
					in := false
					for _, x := range d {
						if x.lo <= v && v <= x.hi {
							in = true
						}
					}
					if !in {
						return no
					}
				}
			}
		}
		if v, ok := st.facts.get(mkEq(na, nb)); ok {
			return triOf(v)
		}
		return unknown
	}
	return st.evalEqGen(a, b)
}

func (st *State) notInDom(a, b *Term) bool {
	if a.op == OpInt {
		a, b = b, a
	}
	if b.op != OpInt {
		return false
	}
	v := b.sval()
	at := a
	if a.op == OpBits {
		if x := st.extAtom(a, true); x != nil {
			at = x
		} else if x := st.extAtom(a, false); x != nil {
			at = x
			v = int64(b.u)
		} else if x := st.lossless(a, true); x != nil {
			at = x
		} else {
			return st.notInSmall(a, b)
		}
	}
	if at.op == OpSym || at.op == OpApp {
		if !natSigned(at) {
			if at.width() == a.width() {
				v = int64(b.u)
			}
			if at.width() == 64 && v < 0 {
				return false
			}
		}
		for _, x := range st.domOf(at) {
			if x.lo <= v && v <= x.hi || x.hi == inf && v > x.lo {
				return false
			}
		}
		return true
	}
	return false
}

// notInSmall: a is a bit function of one small atom; enumerate it.
func (st *State) notInSmall(a, b *Term) bool {
	x, vals := st.smallAtom(a)
	if x == nil {
		return false
	}
	for _, v := range vals {
		if evalBits(a, x, uint64(v)) == b.u {
			return false
		}
	}
	return true
}

// smallAtom: the single atom of width <= 16 (or with a small domain) that t is
// a bit function of, and the values it can take.
func (st *State) smallAtom(t *Term) (*Term, []int64) {
	var x *Term
	for _, b := range t.bits {
		for _, r := range b.xs {
			if x == nil {
				x = r.t
			} else if x != r.t {
				return nil, nil
			}
		}
	}
	if x == nil || (x.op != OpSym && x.op != OpApp) {
		return nil, nil
	}
	var vals []int64
	w := x.width()
	k, _ := st.kb.get(x)
	for _, d := range st.domOf(x) {
		if d.hi-d.lo > 1<<16 || len(vals) > 1<<16 {
			return nil, nil
		}
		for v := d.lo; v <= d.hi; v++ {
			if uint64(v)&k.mask&mask(w) == k.val {
				vals = append(vals, v)
			}
		}
	}
	return x, vals
}

// bitTables holds the values of bit functions of atoms of up to 16 bits.
var bitTables = map[*Term][]uint64{}

func evalBits(t, x *Term, v uint64) uint64 {
	if w := x.width(); w > 8 && w <= 16 && v&^mask(w) == 0 || int64(v) < 0 && int64(v) >= -1<<15 && w == 16 {
		tab := bitTables[t]
		if tab == nil && len(bitTables) < 256 {
			tab = make([]uint64, 1<<uint(w))
			for i := range tab {
				tab[i] = evalBits1(t, uint64(i))
			}
			bitTables[t] = tab
		}
		if tab != nil {
			return tab[v&mask(w)]
		}
	}
	return evalBits1(t, v)
}

func evalBits1(t *Term, v uint64) uint64 {
	var r uint64
	for i, b := range t.bits {
		c := b.c
		for _, y := range b.xs {
			if v>>uint(y.i)&1 == 1 {
				c = !c
			}
		}
		if c {
			r |= 1 << uint(i)
		}
	}
	return r
}

// distinct constructors
func (st *State) evalEqGen(a, b *Term) tri {
	if v, ok := st.facts.get(mkEq(a, b)); ok {
		return triOf(v)
	}
	if isDigits(a) && b.op == OpStr && !decimal(b.s) || isDigits(b) && a.op == OpStr && !decimal(a.s) {
		return no
	}
	if b.op == OpNil || (a.op != OpNil && b.op < a.op) {
		a, b = b, a
	}
	if a.op == OpNil {
		switch b.op {
		case OpIface, OpClosure, OpFunc, OpSlice, OpStruct, OpType, OpBuiltin:
			return no
		case OpPtr:
			return no
		case OpSeq:
			if len(b.args) > 0 && st.eval(mkEq(lenTerm(b), mkI(0))) == no {
				return no
			}
			return unknown
		case OpApp:
			if nonNilApps[b.s] || strings.HasPrefix(b.s, "as:") && len(b.args) > 0 && b.args[0].op == OpApp && b.args[0].s == "cached" {
				return no
			}
		case OpSym:
			if strings.HasPrefix(b.s, "err:") {
				return no
			}
		}
		return unknown
	}
	switch {
	case a.op == OpStr && b.op == OpStr, a.op == OpBool && b.op == OpBool, a.op == OpType && b.op == OpType:
		return no
	case a.op == OpFloat && b.op == OpFloat:
		return no
	case a.op == OpIface && b.op == OpIface:
		if typeID(a.typ) != typeID(b.typ) {
			return no
		}
		return st.evalEq(a.args[0], b.args[0])
	case a.op == OpPtr && b.op == OpPtr && a.n >= 0 && b.n >= 0:
		if a.n != b.n {
			return no
		}
		if len(a.args) == len(b.args) {
			allConst := true
			for i := range a.args {
				if a.args[i] != b.args[i] {
					if a.args[i].op != OpInt || b.args[i].op != OpInt {
						allConst = false
					}
				}
			}
			if allConst {
				return no
			}
		}
		return unknown
	case a.op == OpStruct && b.op == OpStruct && len(a.args) == len(b.args):
		r := yes
		for i := range a.args {
			switch st.evalEq(a.args[i], b.args[i]) {
			case no:
				return no
			case unknown:
				r = unknown
			}
		}
		return r
	case a.op == OpBool && b.op != OpBool, b.op == OpBool && a.op != OpBool:
		if a.op == OpBool {
			a, b = b, a
		}
		v := st.eval(a)
		if b.n == 0 {
			v = v.not()
		}
		return v
	case a.op == OpPtr && a.n >= 0 && b.op == OpSym:
		// a locally allocated object never equals a value made before it
		if st.private(a) {
			return no
		}
	case b.op == OpPtr && b.n >= 0 && a.op == OpSym:
		if st.private(b) {
			return no
		}
	case a.op == OpStr || b.op == OpStr:
		if a.op != OpStr {
			a, b = b, a
		}
		if st.eval(mkEq(lenTerm(a), lenTerm(b))) == no {
			return no
		}
		if a.s == "" {
			return st.eval(mkEq(lenTerm(b), mkI(0)))
		}
	}
	return unknown
}

func (st *State) private(p *Term) bool { return true }

var nonNilApps = map[string]bool{}

// ---- assumption

// assume adds the fact that b has value v; it reports whether the state stays
// feasible.
func (st *State) assume(b *Term, v bool) bool {
	switch st.eval(b) {
	case yes:
		return v
	case no:
		return !v
	}
	switch b.op {
	case OpNot:
		return st.assume(b.args[0], !v)
	}
	st.facts.set(b, v)
	switch b.op {
	case OpLt:
		x, y := b.args[0], b.args[1]
		signed := b.n == 1
		if !signed {
			if done, ok := st.boundUnsigned(x, y, v); done {
				return ok
			}
		}
		if v {
			return st.bound(x, y, -1, signed) // x - y <= -1
		}
		return st.bound(y, x, 0, signed) // y - x <= 0
	case OpEq:
		x, y := b.args[0], b.args[1]
		if isIntTerm(x) && isIntTerm(y) {
			return st.assumeEq(x, y, v)
		}
		if v {
			return st.assumeEqGen(x, y)
		}
	}
	return true
}

func (st *State) assumeEqGen(x, y *Term) bool {
	// string equality fixes the length
	if x.op == OpStr || y.op == OpStr {
		return st.assume(mkEq(lenTerm(x), lenTerm(y)), true)
	}
	if x.op == OpNil || y.op == OpNil {
		o := x
		if x.op == OpNil {
			o = y
		}
		switch o.op {
		case OpSym, OpApp, OpSeq:
			if isSliceish(o) {
				return st.assume(mkEq(lenTerm(o), mkI(0)), true)
			}
		}
	}
	return true
}

// boundUnsigned records x < y, or not, read without sign, where one is a
// constant and the other a signed atom that may be negative.
func (st *State) boundUnsigned(x, y *Term, v bool) (done, ok bool) {
	t, c := x, y
	in := iv{0, 0} // where t is if x < y is v
	switch {
	case y.op == OpInt && y.sval() > 0:
		in.hi = y.sval() - 1
	case x.op == OpInt && x.sval() >= 0:
		t, c = y, x
		in.hi = x.sval()
		v = !v
	default:
		return false, true
	}
	if t.op == OpInt || t.op == OpLin || t.op == OpBits || !natSigned(t) || c.width() != t.width() {
		return false, true
	}
	d := st.domOf(t)
	if lo, _ := d.bounds(); lo >= 0 {
		return false, true
	}
	to := Dom{in}
	if !v {
		to = to.complementIn(typeRange(t.width(), true))
	}
	if d = d.intersect(to); len(d) == 0 {
		return true, false
	}
	st.dom.set(t, d)
	return true, true
}

// bound records a - b <= c over the mathematical values.
func (st *State) bound(a, b *Term, c int64, signed bool) bool {
	ma, ok1 := st.mathLin(a, signed)
	mb, ok2 := st.mathLin(b, signed)
	if a.op == OpBits || b.op == OpBits {
		if !st.boundSmall(a, b, c, signed) {
			return false
		}
	}
	if !ok1 || !ok2 {
		// A wrapped linear form compared with a constant: keep it as an atom.
		if b.op == OpInt && signed {
			bl, _ := st.rng(b, signed)
			return st.narrow(a, iv{math.MinInt64, bl + c})
		}
		if a.op == OpInt && signed {
			al, _ := st.rng(a, signed)
			return st.narrow(b, iv{al - c, math.MaxInt64})
		}
		return true
	}
	m := ma.add(mb, -1)
	return st.mbound(m, c)
}

// mbound records m <= c.
func (st *State) mbound(m mlin, c int64) bool {
	k, o := satAdd(c, -m.c)
	if !o {
		return true
	}
	if len(m.m) == 0 {
		return m.c <= c
	}
	core, sg := m.core()
	if core.op != OpLin || core.s != "m" {
		// single atom with coefficient +-1
		if sg > 0 {
			return st.narrow(core, iv{math.MinInt64, k})
		}
		return st.narrow(core, iv{negSat(k), math.MaxInt64})
	}
	d, ok := st.dom.get(core)
	if !ok {
		d = Dom{{math.MinInt64, math.MaxInt64}}
	}
	if sg > 0 {
		d = d.intersect(Dom{{math.MinInt64, k}})
	} else {
		d = d.intersect(Dom{{negSat(k), math.MaxInt64}})
	}
	if len(d) == 0 {
		return false
	}
	st.dom.set(core, d)
	lo, hi := st.mathRange(m)
	_ = hi
	if lo > c {
		return false
	}
	// propagate to the atoms: coef*t <= k - sum(others)
	for t, f := range m.m {
		if f != 1 && f != -1 {
			continue
		}
		rest := mlin{m: map[*Term]int64{}}
		for t2, f2 := range m.m {
			if t2 != t {
				rest.m[t2] = f2
			}
		}
		rl, _, ok := st.mathRangeOK(rest)
		if !ok && rl == math.MinInt64 {
			continue
		}
		u, o := satAdd(k, -rl)
		if !o || rl == math.MinInt64 {
			continue
		}
		if t.op == OpLin {
			continue
		}
		if f == 1 {
			if !st.narrow(t, iv{math.MinInt64, u}) {
				return false
			}
		} else {
			if !st.narrow(t, iv{negSat(u), math.MaxInt64}) {
				return false
			}
		}
	}
	return true
}

// narrow intersects the domain of an atom (or opaque integer term).
func (st *State) narrow(t *Term, x iv) bool {
	if t.op == OpInt {
		v := t.sval()
		return x.lo <= v && v <= x.hi
	}
	var d Dom
	if t.op == OpLin || t.op == OpBits {
		if a, ok := st.dom.get(t); ok {
			d = a
		} else {
			d = Dom{typeRange(t.w, true)}
		}
	} else {
		d = st.domOf(t)
	}
	if len(d) > 0 && x.lo <= d[0].lo && (x.hi >= d[len(d)-1].hi) {
		return true
	}
	d = d.intersect(Dom{x})
	if len(d) == 0 {
		return false
	}
	st.dom.set(t, d)
	if lo, hi := st.rng(t, t.op == OpLin || t.op == OpBits || natSigned(t)); lo > hi {
		return false
	}
	return true
}

// boundSmall filters the domain of the single small atom of a bit function.
func (st *State) boundSmall(a, b *Term, c int64, signed bool) bool {
	t, flip := a, false
	if a.op != OpBits {
		t, flip = b, true
	}
	o := b
	if flip {
		o = a
	}
	if o.op != OpInt {
		return true
	}
	if !st.boundShifted(t, o, c, flip, signed) {
		return false
	}
	// sign tests
	ov, _ := st.rng(o, signed)
	x, vals := st.smallAtom(t)
	if x == nil {
		if signed {
			if !flip && ov+c <= -1 { // t <= negative
				return st.setBit(t.bits[t.w-1], true)
			}
			if flip && ov-c >= 0 { // t >= non-negative
				return st.setBit(t.bits[t.w-1], false)
			}
			if flip && ov-c < 0 {
				return true
			}
		}
		return true
	}
	return st.filter(x, vals, func(v int64) bool {
		u := evalBits(t, x, uint64(v))
		rv := int64(u)
		switch {
		case t.w < 64 && signed:
			rv = rv << uint(64-t.w) >> uint(64-t.w)
		case t.w == 64 && !signed:
			rv, _ = st.rng(mkInt(t.w, u), signed)
		}
		if flip {
			return ov-rv <= c
		}
		return rv-ov <= c
	})
}

// boundShifted uses a bound on t, a right shift of an atom read as unsigned:
// t - o <= c, or o - t <= c if flip.
func (st *State) boundShifted(t, o *Term, c int64, flip, signed bool) bool {
	ov, _ := st.rng(o, signed)
	lo, hi := int64(0), int64(inf)
	if flip {
		lo = ov - c
	} else {
		hi = ov + c
	}
	if signed && !(len(t.bits[t.w-1].xs) == 0 && !t.bits[t.w-1].c) || ov == inf {
		return true // t may be negative
	}
	if hi < 0 {
		return false
	}
	// all bits above the bound are zero
	if hi != inf {
		for i := 0; i < t.w; i++ {
			if i >= 62 || hi>>uint(i) == 0 {
				if !st.setBit(t.bits[i], false) {
					return false
				}
			}
		}
	}
	b0 := t.bits[0]
	if len(b0.xs) != 1 || b0.c {
		return true
	}
	a, k := b0.xs[0].t, b0.xs[0].i
	aw := a.width()
	if a.op != OpSym && a.op != OpApp || aw == 0 || aw > 64 {
		return true
	}
	for i, b := range t.bits {
		if i+k < aw {
			if b.c || len(b.xs) != 1 || b.xs[0] != (BitRef{a, i + k}) {
				return true
			}
		} else if !isZeroBit(b) {
			return true
		}
	}
	if aw-k > t.w {
		return true // the high part was cut off
	}
	// lo <= uint(a)>>k <= hi
	var d Dom
	top := uint64(1) << uint(aw-1) // as unsigned
	ulo := uint64(0)
	if lo > 0 {
		if bitsLen(uint64(lo))+k > 64 {
			return false
		}
		ulo = uint64(lo) << uint(k)
	}
	uhi := mask(aw)
	if hi != inf && bitsLen(uint64(hi)+1)+k <= 64 {
		if h := (uint64(hi)+1)<<uint(k) - 1; h < uhi {
			uhi = h
		}
	}
	if ulo > uhi {
		return false
	}
	if !natSigned(a) {
		if uhi > math.MaxInt64 {
			uhi = math.MaxInt64
			if ulo > uhi {
				return true
			}
		}
		return st.narrow(a, iv{int64(ulo), int64(uhi)})
	}
	if uhi >= top { // negative values
		l := uint64(top)
		if ulo > l {
			l = ulo
		}
		sh := uint(64 - aw)
		d = append(d, iv{int64(l<<sh) >> sh, int64(uhi<<sh) >> sh})
	}
	if ulo < top {
		h := top - 1
		if uhi < h {
			h = uhi
		}
		d = append(d, iv{int64(ulo), int64(h)})
	}
	nd := st.domOf(a).intersect(d)
	if len(nd) == 0 {
		return false
	}
	st.dom.set(a, nd)
	return true
}

func bitsLen(x uint64) int {
	n := 0
	for x != 0 {
		x >>= 1
		n++
	}
	return n
}

func (st *State) filter(x *Term, vals []int64, keep func(int64) bool) bool {
	var d Dom
	for _, v := range vals {
		if keep(v) {
			if n := len(d); n > 0 && d[n-1].hi+1 == v {
				d[n-1].hi = v
			} else {
				d = append(d, iv{v, v})
			}
		}
	}
	if len(d) == 0 {
		return false
	}
	st.dom.set(x, d)
	return true
}

func (st *State) setBit(b Bit, v bool) bool {
	rb := st.reduce([]Bit{b})[0]
	if len(rb.xs) == 0 {
		return rb.c == v
	}
	if len(rb.xs) > 1 {
		st.facts.set(parityKey(rb.xs), v != rb.c)
		return true
	}
	x := rb.xs[0]
	k, _ := st.kb.get(x.t)
	k.mask |= 1 << uint(x.i)
	if v != rb.c {
		k.val |= 1 << uint(x.i)
	}
	st.kb.set(x.t, k)
	// filter small domains
	if x.t.op == OpSym || x.t.op == OpApp {
		w := x.t.width()
		if w <= 8 {
			var vals []int64
			for _, d := range st.domOf(x.t) {
				for v := d.lo; v <= d.hi; v++ {
					vals = append(vals, v)
				}
			}
			return st.filter(x.t, vals, func(v int64) bool { return uint64(v)&k.mask&mask(w) == k.val })
		}
		if natSigned(x.t) && x.i == w-1 {
			if v != rb.c {
				return st.narrow(x.t, iv{math.MinInt64, -1})
			}
			return st.narrow(x.t, iv{0, math.MaxInt64})
		}
		if lo, hi := st.rng(x.t, natSigned(x.t)); lo > hi {
			return false
		}
	}
	return true
}

// roundTrip recognises the comparison of an atom with its truncation to k
// bits extended back: the atom and the range in which they are equal.
func roundTrip(a, b *Term) (*Term, iv, bool) {
	if a.op == OpBits {
		a, b = b, a
	}
	if b.op != OpBits || a.op != OpSym && a.op != OpApp || !isIntTerm(a) {
		return nil, iv{}, false
	}
	w := a.width()
	for _, k := range []int{8, 16, 31, 32} {
		for _, sg := range []bool{true, false} {
			if k >= w || k == 31 {
				continue
			}
			if mkConv(mkConv(a, w, natSigned(a), k), k, sg, w) == b {
				if !natSigned(a) && sg {
					return nil, iv{}, false
				}
				return a, typeRange(k, sg), true
			}
		}
	}
	return nil, iv{}, false
}

func (st *State) assumeEq(a, b *Term, v bool) bool {
	if x, r, ok := roundTrip(a, b); ok {
		d := Dom{r}
		if !v {
			d = d.complementIn(typeRange(x.width(), natSigned(x)))
		}
		nd := st.domOf(x).intersect(d)
		if len(nd) == 0 {
			return false
		}
		st.dom.set(x, nd)
		return true
	}
	if a.op == OpInt {
		a, b = b, a
	}
	if b.op == OpInt {
		w := a.width()
		if v {
			// every bit is known
			bs := bitsOf(a, w)
			for i := range bs {
				if !st.setBit(bs[i], b.u>>uint(i)&1 == 1) {
					return false
				}
			}
			if a.op == OpBits {
				if x, vals := st.smallAtom(a); x != nil {
					if !st.filter(x, vals, func(v int64) bool { return evalBits(a, x, uint64(v)) == b.u }) {
						return false
					}
				}
				if m, ok := st.mathLin(a, true); ok {
					if !st.mbound(m, b.sval()) || !st.mbound(mlin{}.add(m, -1), -b.sval()) {
						return false
					}
				}
				return true
			}
			if a.op == OpLin {
				if m, ok := st.mathLin(a, true); ok {
					return st.mbound(m, b.sval()) && st.mbound(mlin{}.add(m, -1), -b.sval())
				}
				return st.narrow(a, iv{b.sval(), b.sval()})
			}
			c := b.sval()
			if !natSigned(a) {
				if b.u > math.MaxInt64 {
					return true
				}
				c = int64(b.u)
			}
			return st.narrow(a, iv{c, c})
		}
		// disequality with a constant
		if a.op == OpBits {
			if x, vals := st.smallAtom(a); x != nil {
				return st.filter(x, vals, func(v int64) bool { return evalBits(a, x, uint64(v)) != b.u })
			}
			// a single unknown bit
			bs := st.reduce(a.bits)
			k := -1
			for i, bt := range bs {
				if len(bt.xs) > 0 {
					if k >= 0 {
						k = -2
						break
					}
					k = i
				} else if bt.c != (b.u>>uint(i)&1 == 1) {
					return true
				}
			}
			if k >= 0 {
				return st.setBit(bs[k], b.u>>uint(k)&1 == 0)
			}
			if x := st.extAtom(a, true); x != nil {
				return st.exclude(x, b.sval())
			}
			if x := st.extAtom(a, false); x != nil && b.u <= math.MaxInt64 {
				return st.exclude(x, int64(b.u))
			}
			if x := st.lossless(a, true); x != nil {
				if x.op == OpLin {
					return st.assumeEq(x, mkInt(x.w, uint64(b.sval())), v)
				}
				return st.exclude(x, b.sval())
			}
			return true
		}
		if a.op == OpLin {
			if m, ok := st.mathLin(a, true); ok {
				return st.excludeM(m, b.sval())
			}
			return true
		}
		c := b.sval()
		if !natSigned(a) {
			if b.u > math.MaxInt64 {
				return true
			}
			c = int64(b.u)
		}
		return st.exclude(a, c)
	}
	ma, ok1 := st.mathLin(a, true)
	mb, ok2 := st.mathLin(b, true)
	if ok1 && ok2 {
		m := ma.add(mb, -1)
		if v {
			return st.mbound(m, 0) && st.mbound(mlin{}.add(m, -1), 0)
		}
		return st.excludeM(m, 0)
	}
	return true
}

func (st *State) excludeM(m mlin, c int64) bool { // m != c
	core, sg := m.core()
	if core == nil {
		return m.c != c
	}
	v := (c - m.c) * sg
	if core.op == OpLin && core.s == "m" {
		d, ok := st.dom.get(core)
		if !ok {
			lo, hi := st.mathRange(mlin{m: mapOfCore(core)})
			d = Dom{{lo, hi}}
		}
		d = d.intersect(Dom{{v, v}}.complementIn(iv{math.MinInt64, math.MaxInt64}))
		if len(d) == 0 {
			return false
		}
		st.dom.set(core, d)
		return true
	}
	return st.exclude(core, v)
}

func mapOfCore(t *Term) map[*Term]int64 {
	m := map[*Term]int64{}
	for i, a := range t.args {
		m[a] = int64(t.coef[i])
	}
	return m
}

func (st *State) exclude(x *Term, v int64) bool {
	if x.op == OpLin || x.op == OpBits {
		return true
	}
	d := st.domOf(x)
	lo, hi := st.rng(x, natSigned(x))
	d = d.intersect(Dom{{lo, hi}})
	d = d.intersect(Dom{{v, v}}.complementIn(iv{math.MinInt64, math.MaxInt64}))
	if len(d) == 0 {
		return false
	}
	st.dom.set(x, d)
	return true
}

// equal decides equality of arbitrary terms under the state.
func (st *State) equal(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if isIntTerm(a) && isIntTerm(b) {
		return st.evalEq(a, b) == yes
	}
	if (a.op == OpBool || a.op == OpLt || a.op == OpEq || a.op == OpNot) || (b.op == OpBool || b.op == OpLt || b.op == OpEq || b.op == OpNot) {
		x, y := st.eval(a), st.eval(b)
		if x != unknown && x == y {
			return true
		}
	}
	if a.op == OpSeq && b.op == OpSeq {
		return st.equalSeq(a.args, b.args)
	}
	if a.op == OpApp && a.s == "str" || b.op == OpApp && b.s == "str" {
		if x, y := seqOf(a), seqOf(b); x != nil && y != nil {
			return st.equalSeq(x, y)
		}
	}
	if a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 && a.s == b.s && a.fn == b.fn && a.n == b.n && a.op != OpLin && a.op != OpBits && (a.typ == nil || typeID(a.typ) == typeID(b.typ)) {
		for i := range a.args {
			if !st.equal(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return st.evalEqGen(a, b) == yes
}

// normSegs expands a segment list to its canonical form under the state.
func (st *State) normSegs(segs []*Term) []*Term {
	var out []*Term
	for _, s := range mkSeq(segs...).args {
		switch s.s {
		case "uv":
			u := s.args[0]
			if lo, hi := st.rng(u, false); lo >= 0 && hi < 128 {
				out = append(out, segEl(st.norm(mkConv(u, 64, false, 8))))
				continue
			}
			if n := st.uvBytes(u); n > 0 {
				for i := 0; i < n; i++ {
					b := mkConv(mkShr(64, u, 7*i, false), 64, false, 8)
					b = mkAnd(8, b, mkInt(8, 0x7f))
					if i < n-1 {
						b = mkOr(8, b, mkInt(8, 0x80))
					}
					out = append(out, segEl(st.norm(b)))
				}
				continue
			}
			out = append(out, segUv(st.norm(u)))
			continue
		case "el":
			out = append(out, segEl(st.norm(s.args[0])))
			continue
		case "sp":
			c := s.args[0]
			if c.op == OpStr {
				for i := 0; i < len(c.s); i++ {
					out = append(out, segEl(mkInt(8, uint64(c.s[i]))))
				}
				continue
			}
			if c.op == OpApp && (c.s == "str" || c.s == "view") {
				out = append(out, st.normSegs(c.args[0].args)...)
				continue
			}
			if st.eval(mkEq(lenTerm(c), mkI(0))) == yes {
				continue
			}
		case "sub":
			if st.eval(mkEq(s.args[1], s.args[2])) == yes {
				continue
			}
			if st.eval(mkEq(s.args[1], mkI(0))) == yes && st.eval(mkEq(s.args[2], lenTerm(s.args[0]))) == yes {
				out = append(out, st.normSegs([]*Term{segSp(s.args[0])})...)
				continue
			}
			if n := len(out); n > 0 && out[n-1].s == "sub" && out[n-1].args[0] == s.args[0] && st.eval(mkEq(out[n-1].args[2], s.args[1])) == yes {
				p := out[n-1].args[1]
				out = out[:n-1]
				out = append(out, st.normSegs([]*Term{mkSubSeq(s.args[0], p, s.args[2])})...)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// uvBytes is the number of bytes of the varint of u, 0 if it is not known.
func (st *State) uvBytes(u *Term) int {
	c := mkInt(64, 128)
	for n := 1; n <= 10; n++ {
		switch st.eval(mkLt(mkShr(64, u, 7*(n-1), false), c, false)) {
		case yes:
			return n
		case unknown:
			return 0
		}
	}
	return 0
}

func (st *State) equalSeq(a, b []*Term) bool {
	x, y := st.normSegs(a), st.normSegs(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if x[i].s != y[i].s || len(x[i].args) != len(y[i].args) {
			return false
		}
		for j := range x[i].args {
			if !st.equal(x[i].args[j], y[i].args[j]) {
				return false
			}
		}
	}
	return true
}
