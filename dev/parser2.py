F = 'tools/thriftfile/parser.go'
MUTANTS = []
def m(name, *edits, kind='ok', expect=''):
    MUTANTS.append((name, kind, expect, [(F, a, b) for a, b in edits]))
# ---- helpers extracted / loops rewritten
m('ok2-header-loop', ('''	for h := p.header(); h != nil; h = p.header() {
		x.Headers = append(x.Headers, h)
	}
''', '''	for {
		h := p.header()
		if h == nil {
			break
		}
		x.Headers = append(x.Headers, h)
	}
'''))
m('ok2-header-tok', ('''	for h := p.header(); h != nil; h = p.header() {
		x.Headers = append(x.Headers, h)
	}
''', '''	for p.tok == _INCLUDE || p.tok == _NAMESPACE {
		x.Headers = append(x.Headers, p.header())
	}
'''))
m('ok2-headers-fn', ('''	for h := p.header(); h != nil; h = p.header() {
		x.Headers = append(x.Headers, h)
	}
	for p.tok != _EOF {
		x.Defs = append(x.Defs, p.def())
	}
	return &x
}
''', '''	x.Headers = p.headers()
	x.Defs = p.defs()
	return &x
}

func (p *parser) headers() []Header {
	var hs []Header
	for {
		switch p.tok {
		case _INCLUDE, _NAMESPACE:
			hs = append(hs, p.header())
		default:
			return hs
		}
	}
}

func (p *parser) defs() (ds []Def) {
	for p.tok != _EOF {
		ds = append(ds, p.def())
	}
	return
}
'''))
m('ok2-file-local', ('''	var x File
	for h := p.header(); h != nil; h = p.header() {
		x.Headers = append(x.Headers, h)
	}
	for p.tok != _EOF {
		x.Defs = append(x.Defs, p.def())
	}
	return &x
''', '''	var headers []Header
	for h := p.header(); h != nil; h = p.header() {
		headers = append(headers, h)
	}
	var defs []Def
	for p.tok != _EOF {
		d := p.def()
		defs = append(defs, d)
	}
	return &File{Headers: headers, Defs: defs}
'''))
m('ok2-list-inv', ('''	for p.tok != _EOF && p.tok != close {
		f()
		p.separator()
	}
''', '''	for {
		if p.tok == _EOF || p.tok == close {
			break
		}
		f()
		p.separator()
	}
'''))
m('ok2-list-atend', ('''	for p.tok != _EOF && p.tok != close {
		f()
		p.separator()
	}
	p.want(close)
}
''', '''	for !p.atEnd(close) {
		f()
		p.separator()
	}
	p.want(close)
}

func (p *parser) atEnd(close token) bool {
	return p.tok == _EOF || p.tok == close
}
'''))
m('ok2-sep-for', ('''	for p.tok == _COMMA || p.tok == _SEMICOLON {
		p.next()
	}
''', '''	for p.got(_COMMA) || p.got(_SEMICOLON) {
	}
'''))
m('ok2-sep-switch', ('''	for p.tok == _COMMA || p.tok == _SEMICOLON {
		p.next()
	}
''', '''	for {
		switch p.tok {
		case _COMMA, _SEMICOLON:
			p.next()
			continue
		}
		return
	}
'''))
m('ok2-next-loop', ('''	p.next0()
	for p.tok == _COMMENT {
		p.next0()
	}
''', '''	for {
		p.next0()
		if p.tok != _COMMENT {
			return
		}
	}
'''))
m('ok2-next-cond', ('''	p.next0()
	for p.tok == _COMMENT {
		p.next0()
	}
''', '''	for p.next0(); p.tok == _COMMENT; p.next0() {
	}
'''))
m('ok2-got-early', ('''	if p.tok == tok {
		p.next()
		return true
	}
	return false
''', '''	if p.tok != tok {
		return false
	}
	p.next()
	return true
'''))
m('ok2-got-var', ('''	if p.tok == tok {
		p.next()
		return true
	}
	return false
''', '''	ok := p.tok == tok
	if ok {
		p.next()
	}
	return ok
'''))
m('ok2-want-if', ('''	if !p.got(tok) {
		p.errorExpected(p.pos, "'"+tok.String()+"'")
		p.next()
	}
''', '''	if p.tok != tok {
		p.errorExpected(p.pos, "'"+tok.String()+"'")
	}
	p.next()
'''))
m('ok2-want-quote', ('''		p.errorExpected(p.pos, "'"+tok.String()+"'")
''', '''		p.errorExpected(p.pos, quote(tok))
'''), ('''			msg += ", found '" + p.tok.String() + "'"
''', '''			msg += ", found " + quote(p.tok)
'''), ('''func (p *parser) got(tok token) bool {''', '''func quote(tok token) string {
	return "'" + tok.String() + "'"
}

func (p *parser) got(tok token) bool {'''))
m('ok2-want-sprintf', ('''		p.errorExpected(p.pos, "'"+tok.String()+"'")
''', '''		p.errorExpected(p.pos, fmt.Sprintf("'%s'", tok))
'''))
m('ok2-exp-if', ('''		switch {
		case p.tok.isLiteral():
			msg += ", found " + p.scanner.lit()
		default:
			msg += ", found '" + p.tok.String() + "'"
		}
''', '''		found := "'" + p.tok.String() + "'"
		if p.tok.isLiteral() {
			found = p.scanner.lit()
		}
		msg += ", found " + found
'''))
m('ok2-exp-describe', ('''	msg = "expected " + msg
	if pos == p.pos {
		switch {
		case p.tok.isLiteral():
			msg += ", found " + p.scanner.lit()
		default:
			msg += ", found '" + p.tok.String() + "'"
		}
	}
	p.error(pos, msg)
}
''', '''	if pos != p.pos {
		p.error(pos, "expected "+msg)
		return
	}
	p.error(pos, "expected "+msg+", found "+p.describe())
}

// describe describes the current token.
func (p *parser) describe() string {
	if p.tok.isLiteral() {
		return p.scanner.lit()
	}
	return "'" + p.tok.String() + "'"
}
'''))
m('ok2-assign-switch', ('''	if p.got(_ASSIGN) {
		return true
	}
	if p.tok == _EQL {
		p.want(_ASSIGN)
		return true
	}
	return false
''', '''	switch p.tok {
	case _ASSIGN, _EQL:
		p.want(_ASSIGN)
		return true
	default:
		return false
	}
'''))
m('ok2-assign-bool', ('''	if p.got(_ASSIGN) {
		return true
	}
	if p.tok == _EQL {
		p.want(_ASSIGN)
		return true
	}
	return false
''', '''	if p.tok != _ASSIGN && p.tok != _EQL {
		return false
	}
	p.want(_ASSIGN)
	return true
'''))
m('ok2-lit-early', ('''	var lit string
	if p.tok == tok {
		lit = p.scanner.lit()
		p.next()
	} else {
		p.want(tok)
	}
	return lit
''', '''	if p.tok != tok {
		p.want(tok)
		return ""
	}
	lit := p.scanner.lit()
	p.next()
	return lit
'''))
m('ok2-lit-want', ('''	if p.tok == tok {
		lit = p.scanner.lit()
		p.next()
	} else {
		p.want(tok)
	}
	return lit
''', '''	if p.tok == tok {
		lit = p.scanner.lit()
	}
	p.want(tok)
	return lit
'''))
m('ok2-leaf-literal', ('''	var x Ident
	x.Name = p.lit(_IDENT)
	return &x
''', '''	return &Ident{Name: p.lit(_IDENT)}
'''), ('''	var x Int
	x.Value = p.lit(_INT)
	return &x
''', '''	x := new(Int)
	x.Value = p.lit(_INT)
	return x
'''), ('''	var x Float
	x.Value = p.lit(_FLOAT)
	return &x
''', '''	v := p.lit(_FLOAT)
	return &Float{Value: v}
'''))
m('ok2-badtok', ('''		p.errorExpected(p.pos, "definition")
		panic(badDef{})
''', '''		p.fail("definition")
		return nil
'''), ('''		p.errorExpected(p.pos, "type")
		panic(badDef{})
''', '''		p.fail("type")
		return nil
'''), ('''		p.errorExpected(p.pos, "value")
		panic(badDef{})
''', '''		p.fail("value")
		return nil
'''), ('''type badDef struct{}
''', '''type badDef struct{}

// fail reports what was expected, and gives up on the definition.
func (p *parser) fail(what string) {
	p.errorExpected(p.pos, what)
	panic(badDef{})
}
'''))
m('ok2-sync', ('''			for p.tok != _EOF && !p.tok.isDefinition() {
				p.next()
			}
			d = &BadDef{
				From: pos,
				To:   p.pos,
			}
''', '''			p.sync()
			d = &BadDef{From: pos, To: p.pos}
'''), ('''func (p *parser) const_() *Const {''', '''// sync skips to the next definition.
func (p *parser) sync() {
	for {
		if p.tok == _EOF || p.tok.isDefinition() {
			return
		}
		p.next()
	}
}

func (p *parser) const_() *Const {'''))
m('ok2-recover-method', ('''	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(badDef); !ok {
				panic(r)
			}
			for p.tok != _EOF && !p.tok.isDefinition() {
				p.next()
			}
			d = &BadDef{
				From: pos,
				To:   p.pos,
			}
		}
	}()
''', '''	defer func() {
		switch r := recover().(type) {
		case nil:
		case badDef:
			for p.tok != _EOF && !p.tok.isDefinition() {
				p.next()
			}
			d = &BadDef{From: pos, To: p.pos}
		default:
			panic(r)
		}
	}()
'''))
m('ok2-def-split', ('''	switch p.tok {
	case _CONST:
		return p.const_()
	case _TYPEDEF:
		return p.typedef()
	case _ENUM:
		return p.enum()
	case _STRUCT, _UNION, _EXCEPTION:
		return p.struct_(p.tok)
	case _SERVICE:
		return p.service()
	default:
		p.errorExpected(p.pos, "definition")
		panic(badDef{})
	}
}
''', '''	return p.definition()
}

func (p *parser) definition() Def {
	switch tok := p.tok; tok {
	case _STRUCT, _UNION, _EXCEPTION:
		return p.struct_(tok)
	case _SERVICE:
		return p.service()
	case _CONST:
		return p.const_()
	case _TYPEDEF:
		return p.typedef()
	case _ENUM:
		return p.enum()
	}
	p.errorExpected(p.pos, "definition")
	panic(badDef{})
}
'''))
m('ok2-struct-cmp', ('''	p.want(tok)
	x.Union = tok == _UNION
	x.Exception = tok == _EXCEPTION
	x.Name = p.ident()
''', '''	switch tok {
	case _UNION:
		x.Union = true
	case _EXCEPTION:
		x.Exception = true
	}
	p.want(tok)
	x.Name = p.ident()
'''))
m('ok2-struct-noarg', ('''		return p.struct_(p.tok)
''', '''		return p.struct_()
'''), ('''func (p *parser) struct_(tok token) *Struct {
	var x Struct
	p.want(tok)
	x.Union = tok == _UNION
	x.Exception = tok == _EXCEPTION
''', '''func (p *parser) struct_() *Struct {
	x := Struct{
		Union:     p.tok == _UNION,
		Exception: p.tok == _EXCEPTION,
	}
	p.next()
'''))
m('ok2-field-req', ('''	switch {
	case p.got(_REQUIRED):
		x.Required = true
	case p.got(_OPTIONAL):
		x.Optional = true
	}
''', '''	switch p.tok {
	case _REQUIRED:
		x.Required = true
		p.next()
	case _OPTIONAL:
		x.Optional = true
		p.next()
	}
'''))
m('ok2-field-req2', ('''	switch {
	case p.got(_REQUIRED):
		x.Required = true
	case p.got(_OPTIONAL):
		x.Optional = true
	}
''', '''	if x.Required = p.got(_REQUIRED); !x.Required {
		x.Optional = p.got(_OPTIONAL)
	}
'''))
m('ok2-field-parts', ('''	var x Field
	if p.tok == _INT {
		x.ID = p.int()
		p.want(_COLON)
	}
''', '''	x := Field{ID: p.fieldID()}
'''), ('''func (p *parser) field() *Field {''', '''func (p *parser) fieldID() *Int {
	if p.tok != _INT {
		return nil
	}
	id := p.int()
	p.want(_COLON)
	return id
}

func (p *parser) field() *Field {'''))
m('ok2-default-fn', ('''	if p.gotAssign() {
		x.Default = p.value()
	}
''', '''	x.Default = p.defaultValue()
'''), ('''func (p *parser) field() *Field {''', '''func (p *parser) defaultValue() Value {
	if p.gotAssign() {
		return p.value()
	}
	return nil
}

func (p *parser) field() *Field {'''))
m('ok2-fieldname', ('''	var x Ident
	if p.tok == _IDENT || p.tok.isKeyword() {
		x.Name = p.scanner.lit()
		p.next()
	} else {
		p.want(_IDENT)
	}
	return &x
''', '''	if !p.tok.isKeyword() {
		return p.ident()
	}
	x := &Ident{Name: p.scanner.lit()}
	p.next()
	return x
'''))
m('ok2-fieldname2', ('''	var x Ident
	if p.tok == _IDENT || p.tok.isKeyword() {
		x.Name = p.scanner.lit()
		p.next()
	} else {
		p.want(_IDENT)
	}
	return &x
''', '''	tok := _IDENT
	if p.tok.isKeyword() {
		tok = p.tok
	}
	return &Ident{Name: p.lit(tok)}
'''))
m('ok2-fields-named', ('''	var x FieldList
	p.list(open, close, func() {
		x.List = append(x.List, p.field())
	})
	return &x
''', '''	x := new(FieldList)
	one := func() {
		f := p.field()
		x.List = append(x.List, f)
	}
	p.list(open, close, one)
	return x
'''))
m('ok2-fields-local', ('''	var x FieldList
	p.list(open, close, func() {
		x.List = append(x.List, p.field())
	})
	return &x
''', '''	var fields []*Field
	p.list(open, close, func() {
		fields = append(fields, p.field())
	})
	return &FieldList{List: fields}
'''))
m('ok2-annots-fn', ('''	if p.tok != _LPAREN {
		return nil
	}
	var x AnnotationList
	p.list(_LPAREN, _RPAREN, func() {
		x.List = append(x.List, p.annotation())
	})
	return &x
''', '''	if p.tok == _LPAREN {
		x := new(AnnotationList)
		p.list(_LPAREN, _RPAREN, func() {
			x.List = append(x.List, p.annotation())
		})
		return x
	}
	return nil
'''))
m('ok2-method-oneway', ('''	if p.got(_ONEWAY) {
		x.OneWay = true
	}
	if p.got(_VOID) {
		x.Void = true
	} else {
		x.Return = p.type_()
	}
''', '''	x.OneWay = p.got(_ONEWAY)
	x.Void = p.got(_VOID)
	if !x.Void {
		x.Return = p.type_()
	}
'''))
m('ok2-method-throws', ('''	if p.got(_THROWS) {
		x.Throws = p.fields(_LPAREN, _RPAREN)
	}
''', '''	x.Throws = p.throws()
'''), ('''func (p *parser) method() *Method {''', '''func (p *parser) throws() *FieldList {
	if !p.got(_THROWS) {
		return nil
	}
	return p.fields(_LPAREN, _RPAREN)
}

func (p *parser) method() *Method {'''))
m('ok2-open-close', ('''	p.want(_MAP)
	p.want(_LSS)
	x.Key = p.type_()
	p.want(_COMMA)
	x.Value = p.type_()
	p.want(_GTR)
	x.Annotations = p.annotations()
''', '''	p.next()
	p.want(_LSS)
	x.Key = p.type_()
	p.want(_COMMA)
	x.Value = p.type_()
	p.want(_GTR)
	x.Annotations = p.annotations()
'''), ('''	p.want(_SET)
	p.want(_LSS)
	x.Element = p.type_()
	p.want(_GTR)
	x.Annotations = p.annotations()
''', '''	p.want(_SET)
	x.Element = p.element()
	x.Annotations = p.annotations()
'''), ('''	p.want(_LIST)
	p.want(_LSS)
	x.Element = p.type_()
	p.want(_GTR)
	x.Annotations = p.annotations()
''', '''	p.want(_LIST)
	x.Element = p.element()
	x.Annotations = p.annotations()
'''), ('''func (p *parser) set() *Set {''', '''// element parses the type parameter of a set or list.
func (p *parser) element() Type {
	p.want(_LSS)
	t := p.type_()
	p.want(_GTR)
	return t
}

func (p *parser) set() *Set {'''))
m('ok2-nest-two', ('''func (p *parser) nest() func() {
	if p.depth++; p.depth > maxDepth {
		p.depth--
		p.error(p.pos, "exceeded maximum nesting depth")
		panic(badDef{})
	}
	return func() { p.depth-- }
}
''', '''func (p *parser) enter() {
	if p.depth >= maxDepth {
		p.error(p.pos, "exceeded maximum nesting depth")
		panic(badDef{})
	}
	p.depth++
}

func (p *parser) leave() {
	p.depth--
}
'''), ('''func (p *parser) type_() Type {
	defer p.nest()()
''', '''func (p *parser) type_() Type {
	p.enter()
	defer p.leave()
'''), ('''func (p *parser) value() Value {
	defer p.nest()()
''', '''func (p *parser) value() Value {
	p.enter()
	defer p.leave()
'''))
m('ok2-nest-reset', ('''func (p *parser) nest() func() {
	if p.depth++; p.depth > maxDepth {
		p.depth--
		p.error(p.pos, "exceeded maximum nesting depth")
		panic(badDef{})
	}
	return func() { p.depth-- }
}
''', '''func (p *parser) nest() func() {
	depth := p.depth
	if depth == maxDepth {
		p.error(p.pos, "exceeded maximum nesting depth")
		panic(badDef{})
	}
	p.depth = depth + 1
	return func() { p.depth = depth }
}
'''))
m('ok2-nest-down', ('''	depth int // nesting depth of the type or value being parsed
''', '''	avail int // levels of types and values left
'''), ('''	p.next()
}

func (p *parser) error(''', '''	p.avail = maxDepth
	p.next()
}

func (p *parser) error('''), ('''	if p.depth++; p.depth > maxDepth {
		p.depth--
		p.error(''', '''	if p.avail == 0 {
		p.error('''), ('''	return func() { p.depth-- }
''', '''	p.avail--
	return func() { p.avail++ }
'''))
m('ok2-value-var', ('''	case _IDENT:
		return p.ident()
	case _INT:
		return p.int()
	case _FLOAT:
		return p.float()
	case _STRING:
		return p.string()
	case _LBRACK:
		return p.values()
	case _LBRACE:
		return p.keyValuePairs()
	default:
		p.errorExpected(p.pos, "value")
		panic(badDef{})
	}
}
''', '''	case _LBRACK:
		return p.values()
	case _LBRACE:
		return p.keyValuePairs()
	}
	if v := p.scalar(); v != nil {
		return v
	}
	p.errorExpected(p.pos, "value")
	panic(badDef{})
}

// scalar returns nil if there is none.
func (p *parser) scalar() Value {
	switch p.tok {
	case _IDENT:
		return p.ident()
	case _INT:
		return p.int()
	case _FLOAT:
		return p.float()
	case _STRING:
		return p.string()
	}
	return nil
}
'''))
m('ok2-value-defer', ('''func (p *parser) value() Value {
	defer p.nest()()
	switch p.tok {
	case _IDENT:
		return p.ident()
''', '''func (p *parser) value() (v Value) {
	done := p.nest()
	defer func() { done() }()
	switch p.tok {
	case _IDENT:
		v = p.ident()
		return v
'''))
m('ok2-pair-literal', ('''	var x KeyValuePair
	x.Key = p.value()
	p.want(_COLON)
	x.Value = p.value()
	return &x
''', '''	key := p.value()
	p.want(_COLON)
	return &KeyValuePair{Key: key, Value: p.value()}
'''))
m('ok2-pairs-inline', ('''	p.list(_LBRACE, _RBRACE, func() {
		x.List = append(x.List, p.keyValuePair())
	})
	return &x
''', '''	p.list(_LBRACE, _RBRACE, func() {
		pair := new(KeyValuePair)
		pair.Key = p.value()
		p.want(_COLON)
		pair.Value = p.value()
		x.List = append(x.List, pair)
	})
	return &x
'''))
m('ok2-parse-var', ('''	var p parser
	defer func() {
		p.errs.sort()
		err = p.errs.err()
	}()
	p.init(fset, filename, src)
	f = p.file_()
	return f, err
''', '''	p := new(parser)
	p.init(fset, filename, src)
	f = p.file_()
	p.errs.sort()
	return f, p.errs.err()
'''))
m('ok2-parse-len', ('''	defer func() {
		p.errs.sort()
		err = p.errs.err()
	}()
	p.init(fset, filename, src)
	f = p.file_()
	return f, err
''', '''	p.init(fset, filename, src)
	f = p.file_()
	if len(p.errs) > 0 {
		p.errs.sort()
		return f, p.errs
	}
	return f, nil
'''))
m('ok2-err-val', ('''type errors_ []*error_
''', '''type errors_ []error_
'''), ('''	*p = append(*p, &error_{pos, msg})
''', '''	*p = append(*p, error_{pos: pos, msg: msg})
'''))
m('ok2-init-handler', ('''	p.scanner.init(fset.AddFile(filename, -1, len(src)), src, func(pos gotoken.Position, msg string) {
		p.error(p.file.Pos(pos.Offset), msg)
	})
	p.next()
}
''', '''	file := fset.AddFile(filename, fset.Base(), len(src))
	p.scanner.init(file, src, p.scanError)
	p.next()
}

// scanError reports an error of the scanner.
func (p *parser) scanError(pos gotoken.Position, msg string) {
	p.error(p.file.Pos(pos.Offset), msg)
}
'''))
m('ok2-error-pos', ('''	p.errs.add(p.file.Position(pos), msg)
''', '''	position := p.file.Position(pos)
	p.errs.add(position, msg)
'''))
m('ok2-service-lit', ('''	if p.got(_EXTENDS) {
		x.Extends = p.ident()
	}
	x.Methods = p.methods()
	x.Annotations = p.annotations()
	return &x
''', '''	var parent *Ident
	if p.got(_EXTENDS) {
		parent = p.ident()
	}
	x.Extends, x.Methods = parent, p.methods()
	x.Annotations = p.annotations()
	return &x
'''))
m('ok2-enumvalues', ('''	x.Values = p.enumValues()
	x.Annotations = p.annotations()
''', '''	values := p.enumValues()
	annotations := p.annotations()
	x.Values, x.Annotations = values, annotations
'''))
m('ok2-errsort-slices', ('''	sort.Sort(p)
''', '''	slices.SortFunc(p, compareErrors)
'''), ('''	"sort"
)
''', '''	"slices"
	"strings"
)
'''), ('''func (p errors_) Len() int      { return len(p) }
func (p errors_) Swap(i, j int) { p[i], p[j] = p[j], p[i] }

func (p errors_) Less(i, j int) bool {
	e := &p[i].pos
	f := &p[j].pos
	// Note that it is not sufficient to simply compare file offsets because
	// the offsets do not reflect modified line information (through //line
	// comments).
	if e.Filename != f.Filename {
		return e.Filename < f.Filename
	}
	if e.Line != f.Line {
		return e.Line < f.Line
	}
	if e.Column != f.Column {
		return e.Column < f.Column
	}
	return p[i].msg < p[j].msg
}
''', '''func compareErrors(a, b *error_) int {
	if c := strings.Compare(a.pos.Filename, b.pos.Filename); c != 0 {
		return c
	}
	if c := a.pos.Line - b.pos.Line; c != 0 {
		return c
	}
	if c := a.pos.Column - b.pos.Column; c != 0 {
		return c
	}
	return strings.Compare(a.msg, b.msg)
}
'''))
m('ok2-less-switch', ('''	if e.Filename != f.Filename {
		return e.Filename < f.Filename
	}
	if e.Line != f.Line {
		return e.Line < f.Line
	}
	if e.Column != f.Column {
		return e.Column < f.Column
	}
	return p[i].msg < p[j].msg
''', '''	switch {
	case e.Filename != f.Filename:
		return e.Filename < f.Filename
	case e.Line != f.Line:
		return e.Line < f.Line
	case e.Column != f.Column:
		return e.Column < f.Column
	default:
		return p[i].msg < p[j].msg
	}
'''))
NOD = [('''	return func() { p.depth-- }
}
''', '''}
'''), ('''func (p *parser) nest() func() {''', '''func (p *parser) nest() {'''),
('''func (p *parser) type_() Type {
	defer p.nest()()
	switch''', '''func (p *parser) type_() Type {
	p.nest()
	t := p.bareType()
	p.depth--
	return t
}

func (p *parser) bareType() Type {
	switch'''),
('''func (p *parser) value() Value {
	defer p.nest()()
	switch''', '''func (p *parser) value() Value {
	p.nest()
	v := p.bareValue()
	p.depth--
	return v
}

func (p *parser) bareValue() Value {
	switch''')]
m('ok2-nest-nodefer', *NOD, ('''			for p.tok != _EOF && !p.tok.isDefinition() {''', '''			p.depth = 0
			for p.tok != _EOF && !p.tok.isDefinition() {'''))
m('nest2-nodefer-noreset', *NOD, kind='bad', expect='P09')
m('nest2-reset-late', ('''func (p *parser) def() (d Def) {
''', '''func (p *parser) def() (d Def) {
	p.depth = 0
'''), ('''	return func() { p.depth-- }
''', '''	return func() {}
'''), kind='bad', expect='P09')
m('nest2-down-zero', ('''	depth int // nesting depth of the type or value being parsed
''', '''	avail int // levels of types and values left
'''), ('''	p.next()
}

func (p *parser) error(''', '''	p.avail = maxDepth
	p.next()
}

func (p *parser) error('''), ('''	if p.depth++; p.depth > maxDepth {
		p.depth--
		p.error(''', '''	if p.avail == -1 {
		p.error('''), ('''	return func() { p.depth-- }
''', '''	p.avail--
	return func() { p.avail += 2 }
'''), kind='bad', expect='P09')
