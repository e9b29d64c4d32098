P='tools/thriftfile/parser.go'; S='tools/thriftfile/scanner.go'; K='tools/thriftfile/tokens.go'
MUTANTS=[
# P06 grammar
('ns-mul-drop','bug','P06',[(P,'	if !p.got(_MUL) {\n		x.Scope','	if p.tok == _IDENT {\n		x.Scope')]),
('const-nosep','bug','P06',[(P,'	x.Value = p.value()\n	p.separator()','	x.Value = p.value()')]),
('typedef-noannot','bug','P06,P07',[(P,'	x.Name = p.ident()\n	x.Annotations = p.annotations()\n	p.separator()','	x.Name = p.ident()\n	p.separator()\n	x.Annotations = p.annotations()')]),
('sep-one','bug','P06',[(P,'	for p.tok == _COMMA || p.tok == _SEMICOLON {\n		p.next()','	if p.tok == _COMMA || p.tok == _SEMICOLON {\n		p.next()')]),
('sep-comma','bug','P06',[(P,'	for p.tok == _COMMA || p.tok == _SEMICOLON','	for p.tok == _COMMA')]),
('eql-silent','bug','P06',[(P,'	if p.tok == _EQL {\n		p.want(_ASSIGN)','	if p.tok == _EQL {\n		p.next()')]),
('list-no-close','bug','P06',[(P,'	p.want(close)\n}','	p.got(close)\n}')]),
('field-kw-range','bug','P06',[(P,'p.tok == _IDENT || p.tok.isKeyword() {','p.tok == _IDENT || p.tok.isDefinition() {')]),
('field-both','bug','P06',[(P,'	switch {\n	case p.got(_REQUIRED):\n		x.Required = true\n	case p.got(_OPTIONAL):\n		x.Optional = true\n	}','	x.Required = p.got(_REQUIRED)\n	x.Optional = p.got(_OPTIONAL)')]),
('value-no-float','bug','P06',[(P,'	case _FLOAT:\n		return p.float()\n','')]),
('map-key-ident','bug','P06',[(P,'	x.Key = p.value()\n	p.want(_COLON)','	x.Key = p.value()\n	p.got(_COLON)')]),
('headers-first','bug','P06',[(P,'	for p.tok != _EOF {\n		x.Defs','	for p.tok.isDefinition() {\n		x.Defs')]),
('def-exception','bug','P06',[(P,'case _STRUCT, _UNION, _EXCEPTION:','case _STRUCT, _UNION:')]),
('kw-def-1','bug','P06',[(K,'definition_beg < tok && tok < definition_end','definition_beg < tok && tok < definition_end-1')]),
('service-extends','bug','P06',[(P,'	if p.got(_EXTENDS) {\n		x.Extends = p.ident()','	for p.got(_EXTENDS) {\n		x.Extends = p.ident()')]),
('throws-order','bug','P06',[(P,'''	if p.got(_THROWS) {
		x.Throws = p.fields(_LPAREN, _RPAREN)
	}
	x.Annotations = p.annotations()''','''	x.Annotations = p.annotations()
	if p.got(_THROWS) {
		x.Throws = p.fields(_LPAREN, _RPAREN)
	}''')]),
('annot-value-opt','bug','P06',[(P,'	if p.gotAssign() {\n		x.Value = p.string()','	if p.gotAssign() && p.tok == _STRING {\n		x.Value = p.string()')]),
('ref-before-type','bug','P06',[(P,'	x.Type = p.type_()\n	x.Reference = p.got(_AND)','	x.Reference = p.got(_AND)\n	x.Type = p.type_()')]),
('set-two','bug','P06',[(P,'	p.want(_SET)\n	p.want(_LSS)\n	x.Element = p.type_()\n	p.want(_GTR)','	p.want(_SET)\n	p.want(_LSS)\n	x.Element = p.type_()\n	for p.got(_GTR) {\n	}')]),
('error-first-only','bug','P06',[(P,'func (p *parser) error(pos gotoken.Pos, msg string) {\n','func (p *parser) error(pos gotoken.Pos, msg string) {\n	if p.depth > 20 {\n		return\n	}\n')]),
('want-quiet-eof','bug','P06',[(P,'	if !p.got(tok) {\n		p.errorExpected','	if !p.got(tok) && p.tok != _EOF {\n		p.errorExpected')]),
('lit-kw','bug','P06',[(P,'	if p.tok == tok {\n		lit = p.scanner.lit()','	if p.tok == tok || tok == _IDENT && p.tok == _LIST {\n		lit = p.scanner.lit()')]),
# P07 tree
('union-exc','bug','P07',[(P,'	x.Exception = tok == _EXCEPTION','	x.Exception = tok != _STRUCT')]),
('lit-after','bug','P07',[(P,'		lit = p.scanner.lit()\n		p.next()\n	} else {\n		p.want(tok)\n	}\n	return lit','		p.next()\n		lit = p.scanner.lit()\n	} else {\n		p.want(tok)\n	}\n	return lit')]),
('map-swap','bug','P07',[(P,'	x.Key = p.type_()\n	p.want(_COMMA)\n	x.Value = p.type_()','	x.Value = p.type_()\n	p.want(_COMMA)\n	x.Key = p.type_()')]),
('list-prepend','bug','P07',[(P,'x.List = append(x.List, p.enumValue())','x.List = append([]*EnumValue{p.enumValue()}, x.List...)')]),
('list-dropfirst','bug','P07',[(P,'		x.List = append(x.List, p.value())','		v := p.value()\n		if id, ok := v.(*Ident); ok && id.Name == "" {\n			return\n		}\n		x.List = append(x.List, v)')]),
('oneway-void','bug','P07',[(P,'	if p.got(_ONEWAY) {\n		x.OneWay = true\n	}\n	if p.got(_VOID) {\n		x.Void = true','	if p.got(_ONEWAY) {\n		x.OneWay = true\n	}\n	if p.got(_VOID) {\n		x.Void = !x.OneWay')]),
('default-drop','bug','P07',[(P,'		x.Default = p.value()','		if v := p.value(); x.ID != nil {\n			x.Default = v\n		}')]),
('ns-scope-name','bug','P07',[(P,'	x.Name = p.ident()\n	x.Annotations = p.annotations()\n	return &x\n}\n\ntype badDef','	x.Name = p.ident()\n	if x.Scope == nil {\n		x.Scope = x.Name\n	}\n	x.Annotations = p.annotations()\n	return &x\n}\n\ntype badDef')]),
('annots-shared','bug','P07',[(P,'	if p.got(_THROWS) {\n		x.Throws = p.fields(_LPAREN, _RPAREN)','	if p.got(_THROWS) {\n		x.Throws = p.fields(_LPAREN, _RPAREN)\n		if len(x.Throws.List) == 0 {\n			x.Throws = nil\n		}')]),
('method-void-list','bug','P07',[(P,'	for h := p.header(); h != nil; h = p.header() {\n		x.Headers = append(x.Headers, h)','	for h := p.header(); h != nil; h = p.header() {\n		if n := len(x.Headers); n > 0 && x.Headers[n-1] == h {\n			continue\n		}\n		x.Headers = append(x.Headers[:0:0], h)')]),
# P08
('list-noeof','bug','P08',[(P,'	for p.tok != _EOF && p.tok != close {','	for p.tok != close {')]),
('want-nonext','bug','P08',[(P,"p.errorExpected(p.pos, \"'\"+tok.String()+\"'\")\n		p.next()","p.errorExpected(p.pos, \"'\"+tok.String()+\"'\")")]),
('badsync','bug','P08',[(P,'for p.tok != _EOF && !p.tok.isDefinition() {','for !p.tok.isDefinition() {')]),
('sync-none','bug','P08',[(P,'			for p.tok != _EOF && !p.tok.isDefinition() {\n				p.next()\n			}\n','')]),
# P11
('baddef-to','bug','P11',[(P,'				To:   p.pos,','				To:   p.pos + gotoken.Pos(len("x")) - 1 + gotoken.Pos(len(p.errs)-len(p.errs)) - (p.pos - pos),')]),
('err-pos','bug','P11',[(P,'	if !p.got(tok) {\n		p.errorExpected(p.pos, "\'"+tok.String()+"\'")\n		p.next()\n	}','	pos := p.pos\n	if !p.got(tok) {\n		p.next()\n		p.errorExpected(p.pos, "\'"+tok.String()+"\'")\n	}\n	_ = pos')]),
('sync-struct','bug','P11',[(K,'definition_beg < tok && tok < definition_end','definition_beg < tok && tok < definition_end || tok == _INCLUDE')]),
# P10
('res-nosort','bug','P10',[(P,'		p.errs.sort()\n','')]),
('res-late','bug','P10',[(P,'		p.errs.sort()\n		err = p.errs.err()\n	}()\n	p.init(fset, filename, src)\n	f = p.file_()\n','	}()\n	p.init(fset, filename, src)\n	p.errs.sort()\n	err = p.errs.err()\n	f = p.file_()\n')]),
('res-one','bug','P10',[(P,'	if len(p) == 0 {\n		return nil','	if len(p) == 0 || len(p) == 1 && p[0].pos.Line == 0 {\n		return nil')]),
('res-less-col','bug','P10',[(P,'	if e.Column != f.Column {\n		return e.Column < f.Column\n	}\n','')]),
('res-less-lt','bug','P10',[(P,'	if e.Line != f.Line {\n		return e.Line < f.Line\n	}','	if e.Line < f.Line {\n		return true\n	}')]),
('res-less-col2','bug','P10',[(P,'return e.Column < f.Column','return e.Column > f.Column')]),
('res-swap','bug','P10',[(P,'{ p[i], p[j] = p[j], p[i] }','{ p[i], p[j] = p[j], p[j] }')]),
('res-cb-msg','bug','P10',[(P,'		p.error(p.file.Pos(pos.Offset), msg)','		p.error(p.file.Pos(pos.Offset), "syntax error")')]),
('res-cb-off','bug','P10',[(P,'		p.error(p.file.Pos(pos.Offset), msg)','		p.error(p.file.Pos(pos.Column-1), msg)')]),
('res-cb-first','bug','P10',[(P,'		p.error(p.file.Pos(pos.Offset), msg)','		if len(p.errs) < 100 {\n			p.error(p.file.Pos(pos.Offset), msg)\n		}')]),
('res-cb-pos','bug','P10',[(P,'		p.error(p.file.Pos(pos.Offset), msg)','		p.error(p.pos, msg)')]),
('res-size','bug','P10',[(P,'fset.AddFile(filename, -1, len(src))','fset.AddFile(filename, -1, len(src)+1)')]),
('res-nil-file','bug','P10',[(P,'		err = p.errs.err()\n','		if err = p.errs.err(); err != nil {\n			f = nil\n		}\n')]),
('res-hdr-panic','bug','P08',[(P,'	p.want(_INCLUDE)\n','	p.want(_INCLUDE)\n	if p.tok == _EOF {\n		p.error(p.pos, "expected path")\n		panic(badDef{})\n	}\n')]),
# P09
('nest-none-value','bug','P09',[(P,'	defer p.nest()()\n	switch p.tok {\n	case _IDENT:\n		return p.ident()','	switch p.tok {\n	case _IDENT:\n		return p.ident()')]),
('nest-nodec','bug','P09',[(P,'		p.depth--\n		p.error(p.pos, "exceeded','		p.error(p.pos, "exceeded')]),
('nest-nodefer','bug','P09',[(P,'	defer p.nest()()\n	switch p.tok {\n	case _MAP:','	p.nest()\n	switch p.tok {\n	case _MAP:')]),
('nest-max','bug','P09',[(P,'const maxDepth = 10000','const maxDepth = 1 << 40')]),
('nest-eq','bug','P09',[(P,'p.depth > maxDepth {','p.depth > maxDepth && p.tok != _LIST {')]),
('nest-list','bug','P09',[(P,'	defer p.nest()()\n	switch p.tok {\n	case _MAP:\n		return p.map_()','	if p.tok == _MAP {\n		return p.map_()\n	}\n	defer p.nest()()\n	switch p.tok {')]),
# refactorings
('ok-res-plain','ok','',[(P,'	var p parser\n	defer func() {\n		p.errs.sort()\n		err = p.errs.err()\n	}()\n	p.init(fset, filename, src)\n	f = p.file_()\n	return f, err','	var p parser\n	p.init(fset, filename, src)\n	f = p.file_()\n	p.errs.sort()\n	return f, p.errs.err()')]),
('ok-res-len','ok','',[(P,'	if len(p) == 0 {\n		return nil\n	}\n	return p\n}','	if len(p) > 0 {\n		return p\n	}\n	return nil\n}')]),
('ok-res-less','ok','',[(P,'	if e.Filename != f.Filename {\n		return e.Filename < f.Filename\n	}\n	if e.Line != f.Line {\n		return e.Line < f.Line\n	}\n	if e.Column != f.Column {\n		return e.Column < f.Column\n	}\n	return p[i].msg < p[j].msg','	switch {\n	case e.Filename != f.Filename:\n		return e.Filename < f.Filename\n	case e.Line < f.Line:\n		return true\n	case e.Line > f.Line:\n		return false\n	case e.Column != f.Column:\n		return e.Column < f.Column\n	}\n	return p[i].msg < p[j].msg')]),
('ok-res-sortslice','ok','',[(P,'	sort.Sort(p)\n','	sort.SliceStable(p, p.Less)\n')]),
('ok-res-sortfunc','ok','',[(P,'	sort.Sort(p)\n','	slices.SortFunc(p, func(a, b *error_) int {\n		if c := strings.Compare(a.pos.Filename, b.pos.Filename); c != 0 {\n			return c\n		}\n		if c := cmp.Compare(a.pos.Line, b.pos.Line); c != 0 {\n			return c\n		}\n		if c := a.pos.Column - b.pos.Column; c != 0 {\n			return c\n		}\n		return strings.Compare(a.msg, b.msg)\n	})\n'),(P,'	"sort"\n','	"cmp"\n	"slices"\n	"strings"\n')]),
('ok-res-cb','ok','',[(P,'		p.error(p.file.Pos(pos.Offset), msg)','		p.errs.add(pos, msg)')]),
('ok-res-cb2','ok','',[(P,'	p.scanner.init(fset.AddFile(filename, -1, len(src)), src, func(pos gotoken.Position, msg string) {\n		p.error(p.file.Pos(pos.Offset), msg)\n	})','	file := fset.AddFile(filename, -1, len(src))\n	p.scanner.init(file, src, p.scanError)'),(P,'func (p *parser) error(','func (p *parser) scanError(pos gotoken.Position, msg string) {\n	p.error(p.file.Pos(pos.Offset), msg)\n}\n\nfunc (p *parser) error(')]),
('ok-got-switch','ok','',[(P,'	if p.tok == tok {\n		p.next()\n		return true\n	}\n	return false','	switch p.tok {\n	case tok:\n		p.next()\n		return true\n	default:\n		return false\n	}')]),
('ok-accept','ok','',[(P,'	if p.got(_ONEWAY) {\n		x.OneWay = true\n	}','	x.OneWay = p.got(_ONEWAY)')]),
('ok-list-for','ok','',[(P,'	for p.tok != _EOF && p.tok != close {\n		f()\n		p.separator()\n	}','	for {\n		if p.tok == _EOF || p.tok == close {\n			break\n		}\n		f()\n		p.separator()\n	}')]),
('ok-inline-values','ok','',[(P,'''	p.list(_LBRACK, _RBRACK, func() {
		x.List = append(x.List, p.value())
	})''','''	p.want(_LBRACK)
	for p.tok != _EOF && p.tok != _RBRACK {
		x.List = append(x.List, p.value())
		p.separator()
	}
	p.want(_RBRACK)''')]),
('ok-generic-list','ok','',[(P,'''	p.list(_LBRACK, _RBRACK, func() {
		x.List = append(x.List, p.value())
	})''','''	x.List = listOf(p, _LBRACK, _RBRACK, p.value)'''),(P,'func (p *parser) keyValuePair() ','''func listOf[T any](p *parser, open, close token, f func() T) (xs []T) {
	p.want(open)
	for p.tok != _EOF && p.tok != close {
		xs = append(xs, f())
		p.separator()
	}
	p.want(close)
	return xs
}

func (p *parser) keyValuePair() ''')]),
('ok-fieldmod','ok','',[(P,'''	if p.tok == _INT {
		x.ID = p.int()
		p.want(_COLON)
	}
''','''	x.ID = p.fieldID()
'''),(P,'func (p *parser) field() *Field {','''func (p *parser) fieldID() *Int {
	if p.tok != _INT {
		return nil
	}
	id := p.int()
	p.want(_COLON)
	return id
}

func (p *parser) field() *Field {''')]),
('ok-struct-lit','ok','',[(P,'''	var x KeyValuePair
	x.Key = p.value()
	p.want(_COLON)
	x.Value = p.value()
	return &x''','''	key := p.value()
	p.want(_COLON)
	return &KeyValuePair{Key: key, Value: p.value()}''')]),
('ok-file-while','ok','',[(P,'''	for h := p.header(); h != nil; h = p.header() {
		x.Headers = append(x.Headers, h)
	}''','''	for {
		h := p.header()
		if h == nil {
			break
		}
		x.Headers = append(x.Headers, h)
	}''')]),
('ok-file-tok','ok','',[(P,'''	for h := p.header(); h != nil; h = p.header() {
		x.Headers = append(x.Headers, h)
	}''','''	for p.tok == _INCLUDE || p.tok == _NAMESPACE {
		x.Headers = append(x.Headers, p.header())
	}''')]),
('ok-recover-fn','ok','',[(P,'''			for p.tok != _EOF && !p.tok.isDefinition() {
				p.next()
			}
			d = &BadDef{''','''			p.sync()
			d = &BadDef{'''),(P,'type badDef struct{}','''type badDef struct{}

// sync skips to the next definition.
func (p *parser) sync() {
	for !p.tok.isDefinition() && p.tok != _EOF {
		p.next()
	}
}''')]),
('ok-struct-split','ok','',[(P,'	case _STRUCT, _UNION, _EXCEPTION:\n		return p.struct_(p.tok)','	case _STRUCT:\n		return p.struct_(_STRUCT)\n	case _UNION:\n		return p.struct_(_UNION)\n	case _EXCEPTION:\n		return p.struct_(_EXCEPTION)')]),
('ok-struct-notok','ok','',[(P,'		return p.struct_(p.tok)','		return p.struct_()'),(P,'func (p *parser) struct_(tok token) *Struct {\n	var x Struct\n','func (p *parser) struct_() *Struct {\n	var x Struct\n	tok := p.tok\n')]),
('ok-type-annots','ok','',[(P,'	case _SET:\n		return p.set()\n	case _LIST:\n		return p.list_()\n	case _IDENT:\n		return p.typeRef()','	case _SET:\n		return p.set()\n	case _IDENT:\n		return p.typeRef()\n	case _LIST:\n		return p.list_()')]),
('ok-annot-new','ok','',[(P,'	var x AnnotationList\n	p.list(_LPAREN','	x := new(AnnotationList)\n	p.list(_LPAREN'),(P,'		x.List = append(x.List, p.annotation())\n	})\n	return &x','		x.List = append(x.List, p.annotation())\n	})\n	return x')]),
('ok-nest-begin','ok','',[(P,'	defer p.nest()()\n	switch p.tok {\n	case _MAP:','	leave := p.nest()\n	defer leave()\n	switch p.tok {\n	case _MAP:')]),
('ok-nest-inline','ok','',[(P,'	defer p.nest()()\n	switch p.tok {\n	case _MAP:','	p.enter()\n	defer p.leave()\n	switch p.tok {\n	case _MAP:'),(P,'// nest accounts','''func (p *parser) enter() {
	if p.depth >= maxDepth {
		p.error(p.pos, "exceeded maximum nesting depth")
		panic(badDef{})
	}
	p.depth++
}

func (p *parser) leave() { p.depth-- }

// nest accounts''')]),
('ok-want-pos','ok','',[(P,'	if !p.got(tok) {\n		p.errorExpected(p.pos, "\'"+tok.String()+"\'")\n		p.next()\n	}','	if p.got(tok) {\n		return\n	}\n	p.errorExpected(p.pos, "\'"+tok.String()+"\'")\n	p.next()')]),
('ok-method-ret','ok','',[(P,'	if p.got(_VOID) {\n		x.Void = true\n	} else {\n		x.Return = p.type_()\n	}','	x.Void = p.got(_VOID)\n	if !x.Void {\n		x.Return = p.type_()\n	}')]),
('ok-keywords-slice','ok','',[(K,'literal_beg < tok && tok < literal_end','tok > literal_beg && tok < literal_end')]),
('ok-errf','ok','',[(P,'	p.errs.add(p.file.Position(pos), msg)','	at := p.file.Position(pos)\n	p.errs = append(p.errs, &error_{pos: at, msg: msg})')]),
('ok-def-ret','ok','',[(P,'	switch p.tok {\n	case _CONST:\n		return p.const_()','	switch p.tok {\n	case _CONST:\n		d = p.const_()\n		return d')]),
('ok-got-deftail','ok','',[(P,'	x.Annotations = p.annotations()\n	p.separator()\n	return &x','	x.Annotations = p.annotations()\n	for p.got(_COMMA) || p.got(_SEMICOLON) {\n	}\n	return &x')]),
]
