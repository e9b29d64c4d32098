package main

import (
	"fmt"
	"go/token"
	"math/bits"
	"slices"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The lexical grammar of .thrift files as an automaton over characters, and a
// matcher of the symbolic paths of the scanner against it.

const (
	catLex     cat = "token"
	catKeyword cat = "keyword"
	catPos     cat = "position"
	catLexErr  cat = "malformed-accepted"
	catLexOK   cat = "well-formed-refused"
	catChar    cat = "character"
	catLine    cat = "line"
	catComment cat = "comment"
	catNest    cat = "nesting"
)

// Characters: ASCII, the end of the source, and three kinds of others.
const (
	chEOF = 128 + iota
	chLetter
	chDigit
	chOther
	chCount
)

type chSet [3]uint64

func (s *chSet) add(c int)     { s[c/64] |= 1 << (c % 64) }
func (s chSet) has(c int) bool { return s[c/64]&(1<<(c%64)) != 0 }
func (s chSet) and(t chSet) chSet {
	return chSet{s[0] & t[0], s[1] & t[1], s[2] & t[2]}
}
func (s chSet) or(t chSet) chSet {
	return chSet{s[0] | t[0], s[1] | t[1], s[2] | t[2]}
}
func (s chSet) empty() bool { return s == chSet{} }
func (s chSet) one() int { // the only member, or -1
	n, c := 0, -1
	for i, x := range s {
		n += bits.OnesCount64(x)
		if x != 0 {
			c = i*64 + bits.TrailingZeros64(x)
		}
	}
	if n != 1 {
		return -1
	}
	return c
}
func (s chSet) each(yield func(int) bool) {
	for c := 0; c < chCount; c++ {
		if s.has(c) && !yield(c) {
			return
		}
	}
}

func chName(c int) string {
	switch c {
	case chEOF:
		return "the end"
	case chLetter:
		return "a letter beyond ASCII"
	case chDigit:
		return "a digit beyond ASCII"
	case chOther:
		return "another character beyond ASCII"
	}
	return fmt.Sprintf("%q", rune(c))
}

func (s chSet) String() string {
	var xs []string
	for c := range s.each {
		if len(xs) == 6 {
			xs = append(xs, "...")
			break
		}
		xs = append(xs, chName(c))
	}
	return strings.Join(xs, ", ")
}

var chAll = func() (s chSet) {
	for c := 0; c < chCount; c++ {
		s.add(c)
	}
	return
}()

var chEnd = func() (s chSet) {
	s.add(chEOF)
	return
}()

func isAlpha(c int) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
func isNum(c int) bool   { return '0' <= c && c <= '9' }

// lexOps are the tokens of one character.
var lexOps = map[int]string{'+': "ADD", '-': "SUB", '*': "MUL", '%': "REM", '&': "AND", '|': "OR", '^': "XOR", '<': "LSS", '>': "GTR", '!': "NOT",
	'(': "LPAREN", '[': "LBRACK", '{': "LBRACE", ',': "COMMA", '.': "PERIOD", ')': "RPAREN", ']': "RBRACK", '}': "RBRACE", ';': "SEMICOLON", ':': "COLON"}

// lexStep is the state after a character; "" if the token does not go on.
func lexStep(q string, c int) string {
	if c == chEOF {
		return ""
	}
	in := func(s string) bool { return c < 128 && strings.ContainsRune(s, rune(c)) }
	switch q {
	case "start":
		switch {
		case in(" \t\r\n"):
			return "start"
		case isAlpha(c) || c == '_' || c == chLetter || c == chDigit:
			return "ident"
		case c == '0':
			return "zero"
		case isNum(c):
			return "int"
		case c == '"':
			return "string\""
		case c == '\'':
			return "string'"
		case in("+-"):
			return "sign" + string(rune(c))
		case c == '/':
			return "slash"
		case c == '=':
			return "assign"
		case c == '#':
			return "line"
		case lexOps[c] != "":
			return "op" + lexOps[c]
		}
		return "start" // with an error
	case "ident":
		if isAlpha(c) || isNum(c) || in("_.") || c == chLetter || c == chDigit {
			return q
		}
	case "sign+", "sign-", "zero", "int":
		switch {
		case q == "zero" && in("xX"):
			return "hex"
		case strings.HasPrefix(q, "sign") && c == '0':
			return "zero"
		case isNum(c):
			return "int"
		case strings.HasPrefix(q, "sign"):
		case c == '.':
			return "frac"
		case in("eE"):
			return "exp0"
		}
	case "hex":
		if isNum(c) || in("abcdefABCDEF") {
			return q
		}
	case "frac":
		switch {
		case isNum(c):
			return q
		case in("eE"):
			return "exp0"
		}
	case "exp0", "exp":
		if isNum(c) || q == "exp0" && in("+-") {
			return "exp"
		}
	case "string\"", "string'":
		switch {
		case c == int(q[6]):
			return "done"
		case c == '\\':
			return "esc" + q[6:]
		case c == '\n':
			return ""
		}
		return q
	case "esc\"", "esc'":
		if c == int(q[3]) || in("\\nrt") {
			return "string" + q[3:]
		}
	case "slash":
		switch c {
		case '/':
			return "line"
		case '*':
			return "block"
		}
	case "line":
		if c != '\n' {
			return q
		}
	case "block", "star":
		switch {
		case c == '*':
			return "star"
		case q == "star" && c == '/':
			return "end"
		}
		return "block"
	case "assign":
		if c == '=' {
			return "opEQL"
		}
	}
	return ""
}

// lexErr tells whether an error is due for a character in a state.
func lexErr(q string, c int) bool {
	switch q {
	case "start":
		if c >= 128 {
			return c == chDigit || c == chOther
		}
		return lexStep(q, c) == "start" && !strings.ContainsRune(" \t\r\n", rune(c))
	case "string\"", "string'", "esc\"", "esc'", "block", "star":
		return lexStep(q, c) == ""
	}
	return false
}

// lexTok is the token that ends in a state.
func lexTok(q string, c int) string {
	switch q {
	case "start":
		if c == chEOF {
			return "EOF"
		}
		return ""
	case "ident":
		return "IDENT"
	case "zero", "int", "hex":
		return "INT"
	case "frac", "exp0", "exp":
		return "FLOAT"
	case "done", "string\"", "string'", "esc\"", "esc'":
		return "STRING"
	case "sign+":
		return "ADD"
	case "sign-":
		return "SUB"
	case "slash":
		return "QUO"
	case "line", "block", "star", "end":
		return "COMMENT"
	case "assign":
		return "ASSIGN"
	}
	return strings.TrimPrefix(q, "op")
}

// scfg is a state of the matcher on a path.
type scfg struct {
	q     string
	start []*Term // where the token begins, under all its names
	at    []*Term // the current offset, as known before loops
	owed  *Term   // where an error is due
	paid  bool    // the error due for the current character is reported
	low   bool    // only lower-case letters so far
	any   bool    // not matched (for progress only)
	prog  bool
	look  chSet
	seen  map[*Term]chSet // characters consumed
	facts string
	vals  map[*Term]*Term
}

func (c scfg) key() string {
	k := fmt.Sprint(c.q, c.start, c.at, c.owed, c.paid, c.low, c.any, c.prog, c.facts)
	for _, t := range sortedSeen(c.seen) {
		if x := c.seen[t].one(); x >= 0 {
			k += fmt.Sprint(" ", t, x)
		}
	}
	return k
}

func sortedSeen(m map[*Term]chSet) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

type swalker struct {
	p    *pctx
	chT  tfLeaf
	memo map[string]chSet
	bad  func(k cat, st *State, pos token.Pos, format string, args ...any)
	ids  map[*State]int
}

func unicodeApps(t *Term, m map[*Term]bool) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpApp && strings.HasPrefix(t.s, "unicode.") {
			m[t] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
}

// mask is the set of characters a term can be on a path.
func (w *swalker) mask(t *Term, st *State, c scfg) chSet {
	var conds []*Term
	for _, e := range eventsSince(st.trail, nil) {
		if occurs(e.args[0], t) {
			conds = append(conds, e.args[0])
		}
	}
	pre := map[*Term]*Term{}
	if w.ids[st] == 0 {
		w.ids[st] = len(w.ids) + 1
	}
	k := fmt.Sprint(t.id, " ", w.ids[st])
	for _, s := range sortedSeen(c.seen) {
		x := c.seen[s].one()
		if s == t || x < 0 || x >= 128 {
			continue
		}
		for _, b := range conds {
			if occurs(b, s) {
				pre[s] = mkInt(s.width(), uint64(x))
				k += fmt.Sprint(" ", s.id, x)
				break
			}
		}
	}
	if m, ok := w.memo[k]; ok {
		return m
	}
	var m chSet
	if t.op == OpInt {
		switch v := t.sval(); {
		case v == -1:
			m.add(chEOF)
		case 0 <= v && v < 128:
			m.add(int(v))
		case unicode.IsLetter(rune(v)):
			m.add(chLetter)
		case unicode.IsDigit(rune(v)):
			m.add(chDigit)
		default:
			m.add(chOther)
		}
		w.memo[k] = m
		return m
	}
	for i, b := range conds {
		if len(pre) > 0 {
			conds[i] = subst(b, pre)
		}
	}
	dom := st.domOf(t)
	for ch := 0; ch < chCount; ch++ {
		if ch <= chEOF {
			v := int64(ch)
			if ch == chEOF {
				v = -1
			}
			in := false
			for _, d := range dom {
				in = in || d.lo <= v && v <= d.hi
			}
			if !in {
				continue
			}
			sub := map[*Term]*Term{t: mkInt(t.width(), uint64(v))}
			ok := true
			for _, b := range conds {
				if st.eval(foldUnicode(subst(b, sub))) == no {
					ok = false
					break
				}
			}
			if ok {
				m.add(ch)
			}
			continue
		}
		st2 := st.clone()
		if !st2.narrow(t, iv{128, 0x10ffff}) {
			continue
		}
		apps := map[*Term]bool{}
		for _, b := range conds {
			unicodeApps(b, apps)
		}
		sub := map[*Term]*Term{}
		for a := range apps {
			if len(a.args) != 1 || a.args[0] != t {
				continue
			}
			switch a.s {
			case "unicode.IsLetter":
				sub[a] = mkBool(ch == chLetter)
			case "unicode.IsDigit":
				sub[a] = mkBool(ch == chDigit)
			}
		}
		// the path's own facts about the character may contradict the class
		st0 := newState()
		st0.narrow(t, iv{128, 0x10ffff})
		ok := true
		for _, b := range conds {
			b = subst(b, sub)
			if st0.eval(b) == no || st2.eval(b) == no {
				ok = false
				break
			}
		}
		if ok {
			m.add(ch)
		}
	}
	w.memo[k] = m
	return m
}

// foldUnicode evaluates predicates on constant characters.
func foldUnicode(t *Term) *Term {
	apps := map[*Term]bool{}
	unicodeApps(t, apps)
	sub := map[*Term]*Term{}
	for a := range apps {
		if len(a.args) != 1 || a.args[0].op != OpInt {
			continue
		}
		r := rune(a.args[0].sval())
		switch a.s {
		case "unicode.IsLetter":
			sub[a] = mkBool(unicode.IsLetter(r))
		case "unicode.IsDigit":
			sub[a] = mkBool(unicode.IsDigit(r))
		case "unicode.IsSpace":
			sub[a] = mkBool(unicode.IsSpace(r))
		case "unicode.IsControl":
			sub[a] = mkBool(unicode.IsControl(r))
		case "unicode.ToLower":
			sub[a] = mkInt(32, uint64(unicode.ToLower(r)))
		}
	}
	if len(sub) == 0 {
		return t
	}
	return subst(t, sub)
}

func (w *swalker) head(r *LoopRec, l tfLeaf) *LoopVar { return w.p.headVar(r, l) }

func loopVarName(obj int, l tfLeaf) string { return fmt.Sprintf("o%d%v", obj, l.path) }

// current is the character and offset before the event i.
func (w *swalker) current(evs []*Ev, i int, st *State) (ch, off *Term) {
	for ; i < len(evs); i++ {
		e := evs[i]
		if e.kind == "char" || e.kind == "again" {
			return e.args[0], e.args[1]
		}
		if e.loop != nil {
			if v := w.head(e.loop, w.chT); v != nil {
				ch = v.entry
			}
			if v := w.head(e.loop, w.p.off); v != nil {
				off = v.entry
			}
			if ch != nil && off != nil {
				return ch, off
			}
		}
	}
	return w.p.get(st, w.chT), w.p.get(st, w.p.off)
}

func (w *swalker) run(evs []*Ev, st *State, cs []scfg) []scfg {
	for i, e := range evs {
		if w.p.c.repeats > 20*enough {
			return nil // more of the same
		}
		var next []scfg
		switch {
		case e.kind == "char":
			ch, off := e.args[0], e.args[1]
			for _, c := range cs {
				m := c.look.and(w.mask(ch, st, c))
				next = append(next, w.consume(e, st, c, ch, off, m)...)
			}
		case e.kind == "err":
			ch, off := w.current(evs, i+1, st)
			for _, c := range cs {
				m := c.look.and(w.mask(ch, st, c))
				if m.empty() {
					continue
				}
				c.look = m
				switch at := w.errAt(e, st); {
				case c.any:
				case c.owed != nil && w.same(st, at, c.owed):
					c.owed = nil
				case !w.same(st, at, off):
					w.bad(catPos, st, e.pos, "the error is not reported at the character it is about")
					c.owed = nil
				default:
					for x := range m.each {
						if !lexErr(c.q, x) || c.paid {
							w.bad(catLexOK, st, e.pos, "reports an error at %s in state %s", chName(x), c.q)
							break
						}
					}
					c.paid = true
				}
				next = append(next, c)
			}
		case e.kind == "again":
			w.bad(catNest, st, e.pos, "scans the next token from within itself, so what is skipped may exhaust the stack")
			for _, c := range cs {
				m := c.look.and(w.mask(e.args[0], st, c))
				switch {
				case m.empty():
					continue
				case c.any:
				case c.q != "start" || c.paid:
					w.bad(catLex, st, e.pos, "scans another token in state %s", c.q)
					continue
				case c.owed != nil:
					w.bad(catLexErr, st, e.pos, "goes on without having reported the error")
					c.owed = nil
				}
				if !c.prog {
					w.bad(catProgress, st, e.pos, "scans again without having consumed a character")
				}
				c.look, c.q, c.at, c.start = chAll, "again", e.args[2:3], e.args[3:4]
				next = append(next, c)
			}
		case e.loop != nil:
			next = w.loop(e, st, cs)
		default:
			next = cs
		}
		cs = next
		if len(cs) == 0 {
			return nil
		}
	}
	return cs
}

// errAt is the offset an error is reported at.
func (w *swalker) errAt(e *Ev, st *State) *Term {
	x := e.args[0]
	if x.op == OpApp && strings.HasSuffix(x.s, ".Position") && len(x.args) == 2 {
		if y := x.args[1]; y.op == OpApp && strings.HasSuffix(y.s, "File).Pos") && len(y.args) == 2 {
			return y.args[1]
		}
	}
	return x
}

func (w *swalker) same(st *State, a, b *Term) bool {
	return a == b || isIntTerm(a) && isIntTerm(b) && st.equal(a, b)
}

func (w *swalker) consume(e *Ev, st *State, c scfg, ch, off *Term, m chSet) (next []scfg) {
	type grp struct {
		c   scfg
		set chSet
	}
	by := map[string]*grp{}
	var order []string
	for x := range m.each {
		n := c
		n.look = chAll
		if x == chEOF {
			n.look = chEnd
		}
		n.prog = c.prog || x != chEOF
		if !c.any && x != chEOF {
			q := lexStep(c.q, x)
			if c.owed != nil {
				w.bad(catLexErr, st, e.pos, "goes on without having reported the error")
				n.owed = nil
			}
			if q == "" {
				w.bad(catLex, st, e.pos, "takes %s into a token of state %s", chName(x), c.q)
				if lexErr(c.q, x) && !c.paid {
					w.bad(catLexErr, st, e.pos, "takes %s into a token of state %s without an error", chName(x), c.q)
				}
				continue
			}
			n.q = q
			if c.q == "start" {
				n.start = append(slices.Clone(c.at), off)
				if q == "start" {
					n.start = nil
				}
				n.low = true
			}
			n.low = n.low && 'a' <= x && x <= 'z'
			if lexErr(c.q, x) && !c.paid {
				n.owed = off
			}
			n.paid = false
			n.at = nil
		}
		k := n.key() + fmt.Sprint(x == '"', x == '\'', n.look)
		g := by[k]
		if g == nil {
			g = &grp{c: n}
			by[k] = g
			order = append(order, k)
		}
		g.set.add(x)
	}
	for _, k := range order {
		g := by[k]
		seen := make(map[*Term]chSet, len(c.seen)+1)
		for a, b := range c.seen {
			seen[a] = b
		}
		if ch.op != OpInt {
			seen[ch] = g.set
		}
		g.c.seen = seen
		next = append(next, g.c)
	}
	return
}

func (w *swalker) loop(e *Ev, st *State, cs []scfg) []scfg {
	rec := e.loop
	hv := w.head(rec, w.chT)
	heads := map[string]*scfg{}
	var order []string
	// only the characters that values kept around the loop depend on matter
	used := map[*Term]bool{}
	for _, it := range append([]*State{st}, rec.iters...) {
		for _, t := range eventsSince(it.trail, nil) {
			for _, c := range cs {
				for s := range c.seen {
					if !used[s] && occurs(t.args[0], s) {
						used[s] = true
					}
				}
			}
		}
	}
	strip := func(c *scfg) {
		seen := map[*Term]chSet{}
		for s, m := range c.seen {
			if used[s] {
				seen[s] = m
			}
		}
		c.seen = seen
	}
	add := func(c scfg) bool {
		k := c.key()
		h := heads[k]
		if h == nil {
			heads[k] = &c
			order = append(order, k)
			return true
		}
		ch := false
		if n := h.look.or(c.look); n != h.look {
			h.look = n
			ch = true
		}
		for s, m := range c.seen {
			if n := h.seen[s].or(m); n != h.seen[s] {
				h.seen[s] = n
				ch = true
			}
		}
		return ch
	}
	carry := func(c *scfg, st *State, val func(v *LoopVar) *Term) {
		c.facts, c.vals = "", map[*Term]*Term{}
		for i := range rec.head {
			v := &rec.head[i]
			if v.gen == nil || v == hv {
				continue
			}
			if x := w.known(c, st, val(v)); x != nil && (x.op == OpNil || x.op == OpBool || x.op == OpInt) {
				c.vals[v.gen] = x
				c.facts += fmt.Sprintf("%s=%s;", v.name, x)
			}
		}
	}
	possible := func(c scfg, st *State) bool {
		for g, x := range c.vals {
			b := mkEq(g, x)
			if x.op == OpBool {
				if b = g; x == tFalse {
					b = mkNot(g)
				}
			}
			if st.eval(b) == no {
				return false
			}
		}
		return true
	}
	for _, c := range cs {
		if hv != nil {
			c.look = c.look.and(w.mask(hv.entry, st, c))
			if c.look.empty() {
				continue
			}
		}
		carry(&c, st, func(v *LoopVar) *Term { return v.entry })
		if ov := w.head(rec, w.p.off); ov != nil && c.q == "start" && !c.any {
			c.at = append(slices.Clone(c.at), ov.entry)
		}
		strip(&c)
		add(c)
	}
	evs := make([][]*Ev, len(rec.iters))
	for i, it := range rec.iters {
		evs[i] = eventsSince(it.log, iterMark(rec, it))
	}
	type edge struct {
		to string
		it *State
	}
	var idle map[string][]edge
	for again := true; again; {
		again = false
		idle = map[string][]edge{}
		for n := 0; n < len(order); n++ {
			h := *heads[order[n]]
			for i, it := range rec.iters {
				if !possible(h, it) {
					continue
				}
				h1 := h
				h1.prog = false
				if hv != nil && hv.gen != nil {
					if h1.look = h1.look.and(w.mask(hv.gen, it, h1)); h1.look.empty() {
						continue
					}
				}
				for _, r := range w.run(evs[i], it, []scfg{h1}) {
					if hv != nil {
						r.look = r.look.and(w.mask(hv.next[i], it, r))
						if r.look.empty() {
							continue
						}
					}
					moved := r.prog
					r.prog = r.prog || h.prog
					carry(&r, it, func(v *LoopVar) *Term { return v.next[i] })
					strip(&r)
					if !moved {
						idle[order[n]] = append(idle[order[n]], edge{r.key(), it})
					}
					if add(r) {
						again = true
					}
				}
			}
		}
	}
	state := map[string]int{}
	var visit func(k string) *State
	visit = func(k string) *State {
		state[k] = 1
		for _, e := range idle[k] {
			if state[e.to] == 1 {
				return e.it
			}
			if state[e.to] == 0 {
				if it := visit(e.to); it != nil {
					return it
				}
			}
		}
		state[k] = 2
		return nil
	}
	for _, k := range order {
		if state[k] == 0 {
			if it := visit(k); it != nil {
				w.bad(catProgress, it, rec.pos, "the loop may go round without consuming a character")
				break
			}
		}
	}
	var out []scfg
	for _, k := range order {
		c := *heads[k]
		if !possible(c, st) {
			continue
		}
		if hv != nil && hv.gen != nil {
			if c.look = c.look.and(w.mask(hv.gen, st, c)); c.look.empty() {
				continue
			}
		}
		out = append(out, c)
	}
	return out
}

// known is the value of a condition about a character consumed, if it has the
// same value for all that it can have been.
func (w *swalker) known(c *scfg, st *State, x *Term) *Term {
	if x == nil || x.op != OpEq && x.op != OpLt && x.op != OpNot {
		return x
	}
	for s, m := range c.seen {
		if !occurs(x, s) {
			continue
		}
		r := unknown
		for ch := range m.each {
			var v tri
			switch {
			case ch < 128:
				v = st.eval(foldUnicode(subst(x, map[*Term]*Term{s: mkInt(s.width(), uint64(ch))})))
			case ch == chEOF:
				v = st.eval(subst(x, map[*Term]*Term{s: mkInt(s.width(), ^uint64(0))}))
			default:
				st0 := newState()
				st0.narrow(s, iv{128, 0x10ffff})
				v = st0.eval(x)
			}
			if v == unknown || r != unknown && v != r {
				return x
			}
			r = v
		}
		if r != unknown {
			return mkBool(r == yes)
		}
	}
	return x
}

// scanHook abstracts the step to the next character.
// A scan for a token within that of a token is taken to be right.
func (p *pctx) scanHook(w *swalker, step, next *ssa.Function) func(in *Interp, st *State, fn *ssa.Function, cc *callCtx) ([]Out, bool) {
	return func(in *Interp, st *State, fn *ssa.Function, cc *callCtx) ([]Out, bool) {
		off := p.get(st, p.off)
		switch {
		case fn == step:
			st.event("char", "", cc.pos, []*Term{p.get(st, w.chT), off})
		case fn == next && slices.Contains(in.stack, fn):
			tok, pos := mkSym("tok", p.tok.typ), mkSym("pos", p.pos.typ)
			st.event("again", "", cc.pos, []*Term{p.get(st, w.chT), off, tok, pos})
			p.set(st, p.tok, tok)
			p.set(st, p.pos, pos)
		default:
			return p.lineHook(in, st, fn, cc)
		}
		p.freshChar(w, st)
		st.assume(mkLt(p.get(st, p.off), off, true), false)
		return []Out{{st: st, val: tUnit, pos: cc.pos}}, true
	}
}

// freshChar makes the state of the scanner that at an unknown character.
func (p *pctx) freshChar(w *swalker, st *State) {
	for _, l := range p.leaves {
		if _, _, ok := intInfo(l.typ); !ok || l.in != p.scanT || l.name == p.tok.name || l.name == p.pos.name {
			continue
		}
		v := mkSym(l.name, l.typ)
		p.set(st, l, v)
		if l.name == w.chT.name {
			st.dom.set(v, Dom{{-1, 0x10ffff}})
			continue
		}
		st.assume(mkLt(v, mkI(0), true), false)
		st.assume(mkLt(lenTerm(p.get(st, p.src)), v, true), false)
	}
}

func (p *pctx) newScan() *swalker {
	w := &swalker{p: p, memo: map[string]chSet{}, ids: map[*State]int{}}
	for _, l := range p.leaves {
		if l.in == p.scanT && l.typ.String() == "rune" {
			w.chT = l
		}
	}
	if w.chT.typ == nil {
		p.in.fail("the scanner has no current character")
	}
	return w
}

func (p *pctx) scanPtr() *Term {
	l := p.tok.path[:len(p.tok.path)-1]
	ks := make([]*Term, len(l))
	for i, k := range l {
		ks[i] = mkI(int64(k))
	}
	return mkPtr(p.pobj, ks...)
}

// scanner analyses the reading of one token from any place in the source.
func (p *pctx) scanner(cats ...cat) {
	w := p.newScan()
	step, fn := p.stepFn(w), p.scanFn()
	p.in.fnHook = p.scanHook(w, step, fn)
	p.in.callHook = p.errHook
	st, _ := p.open()
	st.facts.set(mkEq(p.get(st, p.errFn), tNil), false)
	p.freshChar(w, st)
	p.in.loopBounds = []*Term{lenTerm(p.get(st, p.src))}
	outs := p.in.callFn(st, fn, []*Term{p.scanPtr()}, nil, token.NoPos, nil)
	name := "scanner.next"
	p.c.nPaths += len(outs)
	for _, o := range outs {
		if o.st.undec != "" {
			p.c.undecided(name, o.st.undec)
			continue
		}
		bad := map[cat]bool{}
		w.bad = func(k cat, st *State, pos token.Pos, format string, args ...any) {
			bad[k] = true
			p.j.bad(k, name, st, pos, format, args...)
		}
		evs := eventsSince(o.st.log, nil)
		cs := w.run(evs, o.st, []scfg{{q: "start", look: chAll}})
		if len(cs) == 0 {
			continue // cannot happen
		}
		for _, e := range allEvents(evs) {
			switch e.kind {
			case "oob":
				w.bad(catPanic, o.st, e.pos, "the index may be out of range")
			case "line":
				w.bad(catLine, o.st, e.pos, "adds a line while scanning a token")
			}
		}
		if o.kind == outPanic {
			w.bad(catPanic, o.st, o.pos, "panics with %s", o.val)
			continue
		}
		for _, c := range cs {
			w.exit(o, c)
		}
		for _, k := range cats {
			if !bad[k] {
				p.j.ok(k)
			}
		}
	}
}

// allEvents lists events and those of the iterations of loops.
func allEvents(evs []*Ev) (r []*Ev) {
	for _, e := range evs {
		r = append(r, e)
		if e.loop != nil {
			for _, it := range e.loop.iters {
				r = append(r, allEvents(eventsSince(it.log, iterMark(e.loop, it)))...)
			}
		}
	}
	return
}

// exit checks the token returned.
func (w *swalker) exit(o Out, c scfg) {
	p, st := w.p, o.st
	ch, off := p.get(st, w.chT), p.get(st, p.off)
	m := c.look.and(w.mask(ch, st, c))
	if m.empty() {
		return
	}
	if c.owed != nil {
		w.bad(catLexErr, st, o.pos, "ends the token without having reported the error")
	}
	if c.q == "again" {
		if p.get(st, p.tok) != c.at[0] || p.get(st, p.pos) != c.start[0] {
			w.bad(catLex, st, o.pos, "changes the token scanned")
		}
		return
	}
	start := c.start
	if start == nil {
		start = append(slices.Clone(c.at), off)
	}
	pos := p.get(st, p.pos)
	if !(pos.op == OpApp && strings.HasSuffix(pos.s, "File).Pos") &&
		slices.ContainsFunc(start, func(t *Term) bool { return w.same(st, pos.args[1], t) })) {
		w.bad(catPos, st, o.pos, "the position of the token is %s, not where it begins", pos)
	}
	v := p.get(st, p.tok)
	if v.op != OpInt { // from a table of characters
		pre := map[*Term]*Term{}
		for _, s := range sortedSeen(c.seen) {
			if x := c.seen[s].one(); x >= 0 && x < 128 {
				pre[s] = mkInt(s.width(), uint64(x))
			}
		}
		v = subst(v, pre)
	}
	for x := range m.each {
		if lexErr(c.q, x) {
			if !c.paid {
				w.bad(catLexErr, st, o.pos, "ends the token at %s in state %s without an error", chName(x), c.q)
				return
			}
		} else if lexStep(c.q, x) != "" {
			w.bad(catLex, st, o.pos, "ends the token before %s in state %s", chName(x), c.q)
			return
		}
		if lexErr(c.q, x) && lexStep(c.q, x) != "" {
			w.bad(catLex, st, o.pos, "ends the token before %s in state %s", chName(x), c.q)
			return
		}
		t := lexTok(c.q, x)
		if !c.prog && t != "EOF" {
			w.bad(catProgress, st, o.pos, "a token is returned without a character consumed")
			return
		}
		if t == "IDENT" {
			continue
		}
		if st.eval(mkEq(v, mkInt(v.width(), uint64(p.tokVal[t])))) != yes {
			w.bad(catLex, st, o.pos, "the token that ends in state %s is %s, not %s", c.q, p.tokTerm(v), t)
			return
		}
	}
	if c.q == "ident" {
		w.keyword(o, c, v)
	}
}

func (p *pctx) tokTerm(v *Term) string {
	if v.op == OpInt && p.tokName[int64(v.u)] != "" {
		return p.tokName[int64(v.u)]
	}
	return v.String()
}

// keyword checks which identifiers are keywords.
func (w *swalker) keyword(o Out, c scfg, v *Term) {
	p, st := w.p, o.st
	text := p.text(st)
	var conds []*Term
	for _, e := range eventsSince(st.trail, nil) {
		conds = append(conds, e.args[0])
	}
	var has []*Term
	for t, v := range st.facts.m {
		if t.op == OpApp && t.s == "maphas" {
			if !v {
				t = mkNot(t)
			}
			has = append(has, t)
		}
	}
	sort.Slice(has, func(i, j int) bool { return has[i].id < has[j].id })
	conds = append(conds, has...)
	want := map[string]string{}
	for _, k := range tfKeywords {
		want[strings.ToLower(k)] = k
	}
	for _, b := range append(conds, v) {
		for _, k := range mapKeys(b) {
			if want[k] == "" && lexIdent(k) {
				want[k] = "IDENT"
			}
		}
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range append(ks, "") {
		t := want[k]
		if t != "IDENT" && k != "" && !c.low {
			continue
		}
		st2 := st.clone()
		if k == "" {
			t = "IDENT"
		} else if !st2.assume(mkEq(lenTerm(text), mkI(int64(len(k)))), true) {
			continue
		}
		ok := true
		for _, b := range conds {
			if st2.eval(foldText(st, b, text, k)) == no {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		v2 := foldText(st, v, text, k)
		if st2.eval(mkEq(v2, mkInt(v.width(), uint64(p.tokVal[t])))) != yes {
			if k == "" {
				k = "a name that is no keyword"
			}
			w.bad(catKeyword, st, o.pos, "%s is the token %s, not %s (%s)", k, p.tokTerm(v2), t, text)
			return
		}
	}
}

func lexIdent(s string) bool {
	q := "start"
	for _, r := range s {
		c := int(r)
		if c >= 128 {
			return true
		}
		if q = lexStep(q, c); q != "ident" {
			return false
		}
	}
	return q == "ident"
}

// mapKeys lists the keys of the tables a term looks up, and the strings it
// compares with.
func mapKeys(t *Term) (ks []string) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpStr {
			ks = append(ks, t.s)
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return
}

// foldText evaluates a term for a text; "" is a text that is none of those
// looked for.
func foldText(st *State, t, text *Term, s string) *Term {
	sub := map[*Term]*Term{}
	same := func(x *Term) bool {
		return x == text || x.op == text.op && st.equal(x, text)
	}
	seen := map[*Term]bool{}
	var f func(x *Term)
	f = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			f(a)
		}
		switch {
		case x.op == OpApp && (x.s == "maphas" || x.s == "mapget") && same(x.args[0]) && x.args[1].s == "tab":
			tab := x.args[1].args
			for j := 0; j+1 < len(tab); j += 2 {
				if s != "" && tab[j].op == OpStr && tab[j].s == s {
					if x.s == "maphas" {
						sub[x] = tTrue
					} else {
						sub[x] = tab[j+1]
					}
				}
			}
			if x.s == "maphas" && sub[x] == nil {
				sub[x] = tFalse
			}
		case x.op == OpEq && (same(x.args[0]) || same(x.args[1])):
			for _, a := range x.args {
				if a.op == OpStr {
					sub[x] = mkBool(a.s == s)
				}
			}
		}
	}
	f(t)
	if len(sub) == 0 {
		return t
	}
	return subst(t, sub)
}

// sameSub tells whether two texts are the same part of the source.
func sameSub(st *State, a, b *Term) bool {
	for a.op == b.op && len(a.args) == 1 && len(b.args) == 1 {
		if a.s != b.s {
			return false
		}
		a, b = a.args[0], b.args[0]
	}
	if a.op != OpApp || a.s != "sub" || b.op != OpApp || b.s != "sub" || a.args[0] != b.args[0] {
		return a == b
	}
	return st.equal(a.args[1], b.args[1]) && st.equal(a.args[2], b.args[2])
}
