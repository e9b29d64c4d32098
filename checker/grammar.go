package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// The grammar of .thrift files, and a matcher of the symbolic paths of the
// parser's functions against it.

type gKind uint8

const (
	gTok   gKind = iota // a token of a set; flag set when taken
	gLeaf               // a token kept as a leaf node
	gNT                 // a node of the grammar
	gOpt                // at most one
	gStar               // any number
	gAlt                // one of
	gSeq                // all of, in order
	gClose              // end of a node
)

type gItem struct {
	kind gKind
	toks []string
	name string // of the node
	slot string // field of the enclosing node; "" is the node itself
	sub  []*gItem
	id   int
}

var gCount int

func gi(k gKind, name, slot string, toks []string, sub ...*gItem) *gItem {
	gCount++
	return &gItem{kind: k, name: name, slot: slot, toks: toks, sub: sub, id: gCount}
}

func gtok(toks ...string) *gItem           { return gi(gTok, "", "", toks) }
func gflag(slot string, tok string) *gItem { return gi(gTok, "", slot, []string{tok}) }
func gleaf(slot, name string, toks ...string) *gItem {
	if len(toks) == 0 {
		toks = []string{strings.ToUpper(name)}
	}
	return gi(gLeaf, name, slot, toks)
}
func gnt(slot, name string) *gItem { return gi(gNT, name, slot, nil) }
func gopt(xs ...*gItem) *gItem     { return gi(gOpt, "", "", nil, xs...) }
func gstar(xs ...*gItem) *gItem    { return gi(gStar, "", "", nil, xs...) }
func galt(xs ...*gItem) *gItem     { return gi(gAlt, "", "", nil, xs...) }
func gseq(xs ...*gItem) *gItem     { return gi(gSeq, "", "", nil, xs...) }
func seps() *gItem                 { return gstar(gtok("COMMA", "SEMICOLON")) }
func annots() *gItem               { return gopt(gnt("Annotations", "AnnotationList")) }

var tfKeywords = []string{"INCLUDE", "NAMESPACE", "CONST", "TYPEDEF", "ENUM", "STRUCT", "UNION", "EXCEPTION", "SERVICE", "REQUIRED", "OPTIONAL", "EXTENDS", "ONEWAY", "VOID", "THROWS", "MAP", "SET", "LIST"}

// grammar maps each kind of node to its production. A production of choices
// is that of an interface: its slot "" is the node chosen.
var grammar = map[string]*gItem{}

func init() {
	list := func(open, close, item string) *gItem {
		return gseq(gtok(open), gstar(gnt("List", item), seps()), gtok(close))
	}
	g := grammar
	g["File"] = gseq(gstar(gnt("Headers", "Header")), gstar(gnt("Defs", "Def")))
	g["Header"] = galt(gnt("", "Include"), gnt("", "Namespace"))
	g["Include"] = gseq(gtok("INCLUDE"), gleaf("Path", "String"))
	g["Namespace"] = gseq(gtok("NAMESPACE"), galt(gtok("MUL"), gleaf("Scope", "Ident")), gleaf("Name", "Ident"), annots())
	g["Def"] = galt(gnt("", "Const"), gnt("", "Typedef"), gnt("", "Enum"), gnt("", "Struct"), gnt("", "Service"))
	g["Const"] = gseq(gtok("CONST"), gnt("Type", "Type"), gleaf("Name", "Ident"), gtok("ASSIGN"), gnt("Value", "Value"), seps())
	g["Typedef"] = gseq(gtok("TYPEDEF"), gnt("Type", "Type"), gleaf("Name", "Ident"), annots(), seps())
	g["Enum"] = gseq(gtok("ENUM"), gleaf("Name", "Ident"), gnt("Values", "EnumValueList"), annots())
	g["EnumValueList"] = list("LBRACE", "RBRACE", "EnumValue")
	g["EnumValue"] = gseq(gleaf("Name", "Ident"), gopt(gtok("ASSIGN"), gleaf("Value", "Int")), annots())
	g["Struct"] = gseq(galt(gtok("STRUCT"), gflag("Union", "UNION"), gflag("Exception", "EXCEPTION")), gleaf("Name", "Ident"), gnt("Fields", "FieldList{}"), annots())
	g["FieldList{}"] = list("LBRACE", "RBRACE", "Field")
	g["FieldList()"] = list("LPAREN", "RPAREN", "Field")
	g["Field"] = gseq(gopt(gleaf("ID", "Int"), gtok("COLON")), gopt(galt(gflag("Required", "REQUIRED"), gflag("Optional", "OPTIONAL"))),
		gnt("Type", "Type"), gopt(gflag("Reference", "AND")), gleaf("Name", "Ident", append([]string{"IDENT"}, tfKeywords...)...),
		gopt(gtok("ASSIGN"), gnt("Default", "Value")), annots())
	g["Service"] = gseq(gtok("SERVICE"), gleaf("Name", "Ident"), gopt(gtok("EXTENDS"), gleaf("Extends", "Ident")), gnt("Methods", "MethodList"), annots())
	g["MethodList"] = list("LBRACE", "RBRACE", "Method")
	g["Method"] = gseq(gopt(gflag("OneWay", "ONEWAY")), galt(gflag("Void", "VOID"), gnt("Return", "Type")), gleaf("Name", "Ident"),
		gnt("Arguments", "FieldList()"), gopt(gtok("THROWS"), gnt("Throws", "FieldList()")), annots())
	g["Type"] = galt(gnt("", "Map"), gnt("", "Set"), gnt("", "List"), gnt("", "TypeRef"))
	g["Map"] = gseq(gtok("MAP"), gtok("LSS"), gnt("Key", "Type"), gtok("COMMA"), gnt("Value", "Type"), gtok("GTR"), annots())
	g["Set"] = gseq(gtok("SET"), gtok("LSS"), gnt("Element", "Type"), gtok("GTR"), annots())
	g["List"] = gseq(gtok("LIST"), gtok("LSS"), gnt("Element", "Type"), gtok("GTR"), annots())
	g["TypeRef"] = gseq(gleaf("Name", "Ident"), annots())
	g["Value"] = galt(gleaf("", "Ident"), gleaf("", "Int"), gleaf("", "Float"), gleaf("", "String"), gnt("", "ValueList"), gnt("", "KeyValuePairList"))
	g["ValueList"] = list("LBRACK", "RBRACK", "Value")
	g["KeyValuePairList"] = list("LBRACE", "RBRACE", "KeyValuePair")
	g["KeyValuePair"] = gseq(gnt("Key", "Value"), gtok("COLON"), gnt("Value", "Value"))
	g["AnnotationList"] = list("LPAREN", "RPAREN", "Annotation")
	g["Annotation"] = gseq(gleaf("Name", "Ident"), gopt(gtok("ASSIGN"), gleaf("Value", "String")))
}

// oneOf tells whether a node of kind y is one of kind x.
func oneOf(x, y string) bool {
	if x == y || strings.TrimRight(x, "{}()") == y {
		return true
	}
	p := grammar[x]
	if p == nil || p.kind != gAlt {
		return false
	}
	for _, s := range p.sub {
		if s.name == y {
			return true
		}
	}
	return false
}

type tokSet uint64

func (p *pctx) set1(names ...string) tokSet {
	var s tokSet
	for _, n := range names {
		v, ok := p.tokVal[n]
		if !ok {
			p.in.fail("no token %s", n)
		}
		s |= 1 << uint(v)
	}
	return s
}

func (p *pctx) allToks() tokSet {
	var s tokSet
	for _, d := range p.tokDom {
		for v := d.lo; v <= d.hi; v++ {
			s |= 1 << uint(v)
		}
	}
	return s
}

func (p *pctx) names(s tokSet) string {
	var r []string
	for x := uint64(s); x != 0; x &= x - 1 {
		r = append(r, p.tokName[int64(bits.TrailingZeros64(x))])
	}
	sort.Strings(r)
	if len(r) > 8 {
		r = append(r[:8], "...")
	}
	return strings.Join(r, " ")
}

// first is the set of tokens an item may begin with.
func (p *pctx) first(it *gItem) (s tokSet, nullable bool) {
	switch it.kind {
	case gTok, gLeaf:
		return p.set1(it.toks...), false
	case gNT:
		return p.first(grammar[it.name])
	case gOpt, gStar:
		s, _ = p.firstSeq(it.sub)
		return s, true
	case gAlt:
		for _, x := range it.sub {
			t, n := p.first(x)
			s |= t
			nullable = nullable || n
		}
		return s, nullable
	case gSeq:
		return p.firstSeq(it.sub)
	}
	return 0, true // gClose
}

func (p *pctx) firstSeq(xs []*gItem) (s tokSet, nullable bool) {
	for _, x := range xs {
		t, n := p.first(x)
		s |= t
		if !n {
			return s, false
		}
	}
	return s, true
}

// gStack is what remains to be matched.
type gStack struct {
	it   *gItem
	next *gStack
}

func push(xs []*gItem, k *gStack) *gStack {
	for i := len(xs) - 1; i >= 0; i-- {
		k = &gStack{xs[i], k}
	}
	return k
}

func (k *gStack) key() string {
	var sb strings.Builder
	for ; k != nil; k = k.next {
		fmt.Fprintf(&sb, "%d ", k.it.id)
	}
	return sb.String()
}

// trace records the nodes matched.
type gOp struct {
	prev *gOp
	kind string // open, close, leaf, nt, flag, mark, rep
	name string
	slot string
	val  *Term
}

var closeItem = gi(gClose, "", "", nil)

type gStep struct {
	k  *gStack
	tr *gOp
}

// allowed is the set of tokens that can come next; end tells that the match
// may be complete.
func (p *pctx) allowed(k *gStack) (s tokSet, end bool) {
	for ; k != nil; k = k.next {
		t, n := p.first(k.it)
		s |= t
		if !n {
			return s, false
		}
	}
	return s, true
}

// token advances over a token; nil if it cannot come next.
func (p *pctx) token(k *gStack, tr *gOp, tok int64, text *Term) *gStep {
	for k != nil {
		it := k.it
		s, nullable := p.first(it)
		if s&(1<<uint(tok)) == 0 {
			if !nullable {
				return nil
			}
			if it.kind == gClose {
				tr = &gOp{prev: tr, kind: "close"}
			}
			k = k.next
			continue
		}
		switch it.kind {
		case gTok:
			if it.slot != "" {
				tr = &gOp{prev: tr, kind: "flag", slot: it.slot}
			}
			return &gStep{k.next, tr}
		case gLeaf:
			return &gStep{k.next, &gOp{prev: tr, kind: "leaf", name: it.name, slot: it.slot, val: text}}
		}
		k, tr = p.expand(k, tr, tok, "")
	}
	return nil
}

// expand replaces the first item by its parts, towards the token or node.
func (p *pctx) expand(k *gStack, tr *gOp, tok int64, node string) (*gStack, *gOp) {
	it := k.it
	switch it.kind {
	case gNT:
		tr = &gOp{prev: tr, kind: "open", name: it.name, slot: it.slot}
		return &gStack{grammar[it.name], &gStack{closeItem, k.next}}, tr
	case gOpt:
		return push(it.sub, k.next), tr
	case gStar:
		return push(it.sub, k), tr
	case gSeq:
		return push(it.sub, k.next), tr
	case gAlt:
		for _, x := range it.sub {
			if node == "" {
				if s, _ := p.first(x); s&(1<<uint(tok)) != 0 {
					return &gStack{x, k.next}, tr
				}
			} else if p.begins(x, node) {
				return &gStack{x, k.next}, tr
			}
		}
	}
	return k.next, tr
}

// begins tells whether an item can begin with a node of the kind.
func (p *pctx) begins(it *gItem, node string) bool {
	switch it.kind {
	case gNT:
		return oneOf(it.name, node) || p.begins(grammar[it.name], node)
	case gOpt, gStar, gSeq:
		for _, x := range it.sub {
			if p.begins(x, node) {
				return true
			}
			if _, n := p.first(x); !n {
				return false
			}
		}
	case gAlt:
		for _, x := range it.sub {
			if p.begins(x, node) {
				return true
			}
		}
	}
	return false
}

// node advances over a node; nil if it cannot come next.
func (p *pctx) node(k *gStack, tr *gOp, name string, val *Term) *gStep {
	for k != nil {
		it := k.it
		if it.kind == gNT && oneOf(it.name, name) {
			return &gStep{k.next, &gOp{prev: tr, kind: "nt", name: name, slot: it.slot, val: val}}
		}
		if !p.begins(it, name) {
			if _, n := p.first(it); !n {
				return nil
			}
			if it.kind == gClose {
				tr = &gOp{prev: tr, kind: "close"}
			}
			k = k.next
			continue
		}
		k, tr = p.expand(k, tr, -1, name)
	}
	return nil
}

// finish closes what is open.
func (p *pctx) finish(k *gStack, tr *gOp) *gOp {
	for ; k != nil; k = k.next {
		if k.it.kind == gClose {
			tr = &gOp{prev: tr, kind: "close"}
		}
	}
	return tr
}

// gNode is a node matched; the value of a slot that is a list is its elements
// after those of rep.
type gNode struct {
	name  string
	text  *Term // of a leaf
	val   *Term // of an opaque node
	flags map[string]bool
	slots map[string][]*gNode
	rep   map[string]*Term
}

func newNode(name string) *gNode {
	return &gNode{name: name, flags: map[string]bool{}, slots: map[string][]*gNode{}, rep: map[string]*Term{}}
}

// build makes the tree of a trace.
func (tr *gOp) build(name string) (root *gNode, open []*gNode, ok bool) {
	var ops []*gOp
	for o := tr; o != nil; o = o.prev {
		ops = append(ops, o)
	}
	root = newNode(name)
	open = []*gNode{root}
	for i := len(ops) - 1; i >= 0; i-- {
		o := ops[i]
		top := open[len(open)-1]
		switch o.kind {
		case "open":
			n := newNode(strings.TrimRight(o.name, "{}()"))
			top.slots[o.slot] = append(top.slots[o.slot], n)
			open = append(open, n)
		case "close":
			if len(open) == 1 {
				return nil, nil, false
			}
			open = open[:len(open)-1]
		case "leaf":
			top.slots[o.slot] = append(top.slots[o.slot], &gNode{name: o.name, text: o.val})
		case "nt":
			top.slots[o.slot] = append(top.slots[o.slot], &gNode{name: o.name, val: o.val})
		case "flag":
			top.flags[o.slot] = true
		case "rep":
			top.slots[o.slot] = nil
			top.rep[o.slot] = o.val
		}
	}
	return root, open, true
}

// follow is the set of tokens that may come after a node.
func (p *pctx) follow(name string) tokSet {
	if p.follows == nil {
		p.follows = map[string]tokSet{"File": p.set1("EOF")}
		for n := -1; n != 0; {
			n = 0
			add := func(x string, s tokSet) {
				if s&^p.follows[x] != 0 {
					p.follows[x] |= s
					n++
				}
			}
			var walk func(it *gItem, s tokSet)
			walkSeq := func(xs []*gItem, s tokSet) {
				for i, x := range xs {
					f, null := p.firstSeq(xs[i+1:])
					if null {
						f |= s
					}
					walk(x, f)
				}
			}
			walk = func(it *gItem, s tokSet) {
				switch it.kind {
				case gNT:
					add(it.name, s)
				case gOpt, gSeq:
					walkSeq(it.sub, s)
				case gStar:
					f, _ := p.firstSeq(it.sub)
					walkSeq(it.sub, s|f)
				case gAlt:
					for _, x := range it.sub {
						walk(x, s)
					}
				}
			}
			for n, g := range grammar {
				walk(g, p.follows[n])
			}
		}
	}
	return p.follows[name]
}
