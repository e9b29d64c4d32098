import re
S='tools/thriftfile/scanner.go'; K='tools/thriftfile/tokens.go'
SRC=open('/repo/'+S).read()
def fn(name, n=None):
    i=SRC.index('func %s' % name); j=SRC.index('\n}\n', i)+3
    return SRC[i:j]
INIT=fn('(s *scanner) init'); NEXTCH=fn('(s *scanner) nextch'); NEXT=fn('(s *scanner) next()'); IDENT=fn('(s *scanner) ident')
NUM=fn('(s *scanner) number'); STR=fn('(s *scanner) string'); ESC=fn('(s *scanner) escape'); LC=fn('(s *scanner) lineComment'); FC=fn('(s *scanner) fullComment'); AT=fn('(s *scanner) atIdent')
OPS={'*':'_MUL','%':'_REM','&':'_AND','|':'_OR','^':'_XOR','<':'_LSS','>':'_GTR','!':'_NOT','(':'_LPAREN','[':'_LBRACK','{':'_LBRACE',',':'_COMMA','.':'_PERIOD',')':'_RPAREN',']':'_RBRACK','}':'_RBRACE',';':'_SEMICOLON',':':'_COLON'}
def noops(default):
    n=NEXT
    for c,t in OPS.items():
        x="	case '%s':\n		s.nextch()\n		s.tok = %s\n\n" % (c,t)
        assert x in n, c
        n=n.replace(x,'')
    return n.replace('	default:\n		s.errorf(s.offset, "invalid', default+'		s.errorf(s.offset, "invalid')
opfn='func operator(ch rune) token {\n	switch ch {\n'+''.join("	case '%s':\n		return %s\n"%x for x in OPS.items())+'	}\n	return _ILLEGAL\n}\n\n'
opmap='var operators = map[rune]token{\n'+''.join("	'%s': %s,\n"%x for x in OPS.items())+'}\n\n'
oparr='var operators = [...]token{\n'+''.join("	'%s': %s,\n"%x for x in OPS.items())+'}\n\n'
DEF='''	default:
		if tok := operator(s.ch); tok != _ILLEGAL {
			s.nextch()
			s.tok = tok
			return
		}
'''
WHILE='''// skipWhile skips characters as long as f holds.
func (s *scanner) skipWhile(f func(rune) bool) {
	for f(s.ch) {
		s.nextch()
	}
}

'''
ACC='''// accept skips the current character if it is ch.
func (s *scanner) accept(ch rune) bool {
	if s.ch != ch {
		return false
	}
	s.nextch()
	return true
}

'''
MUTANTS=[
('ok2-ops-fn','ok','',[(S,NEXT,opfn+noops(DEF))]),
('ok2-ops-map','ok','',[(S,NEXT,opmap+noops('''	default:
		if tok, ok := operators[s.ch]; ok {
			s.nextch()
			s.tok = tok
			return
		}
'''))]),
('ok2-ops-arr','ok','',[(S,NEXT,oparr+noops('''	default:
		if s.ch >= 0 && int(s.ch) < len(operators) && operators[s.ch] != 0 {
			s.tok = operators[s.ch]
			s.nextch()
			return
		}
'''))]),
('ok2-while','ok','',[(S,NUM,WHILE+NUM.replace('				for isHex(s.ch) {\n					s.nextch()\n				}','				s.skipWhile(isHex)').replace('		for isDecimal(s.ch) {\n			s.nextch()\n		}','		s.skipWhile(isDecimal)')),
  (S,LC,LC.replace("	for s.ch >= 0 && s.ch != '\\n' {\n		s.nextch()\n	}","	s.skipWhile(func(ch rune) bool { return ch >= 0 && ch != '\\n' })"))]),
('ok2-accept','ok','',[(S,IDENT,ACC+IDENT),(S,"		s.nextch()\n		if s.ch == '=' {\n			s.nextch()\n			s.tok = _EQL\n		} else {\n			s.tok = _ASSIGN\n		}","		s.nextch()\n		s.tok = _ASSIGN\n		if s.accept('=') {\n			s.tok = _EQL\n		}"),
  (S,"			if s.ch == '/' {\n				s.nextch()\n				return\n			}","			if s.accept('/') {\n				return\n			}"),
  (S,"		if s.ch == '.' {\n			s.nextch()\n			seenPoint = true\n		}","		seenPoint = s.accept('.')"),
  (S,"		if s.ch == '+' || s.ch == '-' {\n			s.nextch()\n		}","		_ = s.accept('+') || s.accept('-')"),
  (S,"		if s.ch == quote {\n			s.nextch()\n			break\n		}","		if s.accept(quote) {\n			break\n		}")]),
('ok2-scan-loop','ok','',[(S,NEXT,NEXT.replace('''func (s *scanner) next() {
redo:
''','''func (s *scanner) next() {
	for !s.scan() {
	}
}

// scan scans one token; it returns false if there is none.
func (s *scanner) scan() bool {
''').replace('		s.ident()\n		return\n','		s.ident()\n		return true\n').replace('			s.lineComment()\n			return\n','			s.lineComment()\n			return true\n').replace('		goto redo\n	}\n','		return false\n	}\n	return true\n'))]),
('ok2-for-redo','ok','',[(S,NEXT,NEXT.replace('redo:\n	for s.ch','	for {\n	for s.ch').replace('		goto redo\n	}\n','		continue\n	}\n	return\n	}\n'))]),
('ok2-init-lit','ok','',[(S,INIT,'''func (s *scanner) init(file *gotoken.File, src []byte, err func(pos gotoken.Position, msg string)) {
	*s = scanner{file: file, src: src, err: err, ch: ' ', tok: _ILLEGAL, pos: gotoken.NoPos}
	if s.nextch(); s.ch == bom {
		s.nextch()
	}
}
''')]),
('ok2-decode','ok','',[(S,NEXTCH,'''func (s *scanner) nextch() {
	atLine := s.ch == '\\n'
	if s.rdOffset < len(s.src) {
		s.offset = s.rdOffset
	} else {
		s.offset = len(s.src)
	}
	if atLine {
		s.lineOffset = s.offset
		s.file.AddLine(s.offset)
	}
	if s.offset >= len(s.src) {
		s.ch = eof
		return
	}
	r, w := s.decode()
	s.ch = r
	s.rdOffset += w
}

// decode decodes the character at the current offset.
func (s *scanner) decode() (rune, int) {
	if b := s.src[s.offset]; b < utf8.RuneSelf {
		if b == 0 {
			s.error(s.offset, "illegal character NUL")
		}
		return rune(b), 1
	}
	r, w := utf8.DecodeRune(s.src[s.offset:])
	switch {
	case r == utf8.RuneError && w == 1:
		s.error(s.offset, "illegal UTF-8 encoding")
	case r == bom && s.offset > 0:
		s.error(s.offset, "illegal byte order mark")
	}
	return r, w
}
''')]),
('ok2-peek','ok','',[(S,"		s.nextch()\n		if s.ch == '/' {\n			s.nextch()\n			s.lineComment()\n			return\n		}\n		switch s.ch {","		s.nextch()\n		switch s.ch {")]),
('ok2-peek-byte','ok','',[(S,"		s.nextch()\n		if s.ch == '=' {\n			s.nextch()\n			s.tok = _EQL\n		} else {\n			s.tok = _ASSIGN\n		}","		if s.peek() == '=' {\n			s.nextch()\n			s.tok = _EQL\n		} else {\n			s.tok = _ASSIGN\n		}\n		s.nextch()"),(S,IDENT,'''// peek returns the byte after the current character.
func (s *scanner) peek() byte {
	if s.rdOffset < len(s.src) {
		return s.src[s.rdOffset]
	}
	return 0
}

'''+IDENT)]),
('ok2-ident-start','ok','',[(S,"		s.nextch()\n		s.ident()\n		return","		start := s.offset\n		s.nextch()\n		s.ident(start)\n		return"),(S,IDENT,IDENT.replace('ident()','ident(start int)').replace('lit := s.lit()','lit := string(s.src[start:s.offset])'))]),
('ok2-ident-ret','ok','',[(S,"		s.ident()\n		return","		s.tok = s.ident()\n		return"),(S,IDENT,IDENT.replace('ident() {','ident() token {').replace('			s.tok = tok\n			return\n','			return tok\n').replace('	s.tok = _IDENT\n','	return _IDENT\n'))]),
('ok2-num-ret','ok','',[(S,NEXT,NEXT.replace('s.number(false)','s.tok = s.number()')),(S,NUM,'''func (s *scanner) number() token {
	if s.ch == '0' {
		s.nextch()
		if lower(s.ch) == 'x' {
			s.nextch()
			for isHex(s.ch) {
				s.nextch()
			}
			return _INT
		}
	}
	s.decimals()
	tok := _INT
	if s.ch == '.' {
		s.nextch()
		s.decimals()
		tok = _FLOAT
	}
	if lower(s.ch) == 'e' {
		s.exponent()
		tok = _FLOAT
	}
	return tok
}

func (s *scanner) exponent() {
	s.nextch()
	switch s.ch {
	case '+', '-':
		s.nextch()
	}
	s.decimals()
}

func (s *scanner) decimals() {
	for isDecimal(s.ch) {
		s.nextch()
	}
}
''')]),
('ok2-str-switch','ok','',[(S,STR,'''func (s *scanner) string() {
	quote := s.ch
	s.tok = _STRING
	s.nextch()
	for {
		switch s.ch {
		case quote:
			s.nextch()
			return
		case '\\\\':
			s.nextch()
			if !s.escape(quote) {
				return
			}
		case '\\n':
			s.error(s.offset, "newline in string")
			return
		case eof:
			s.error(s.offset, "string not terminated")
			return
		default:
			s.nextch()
		}
	}
}
''')]),
('ok2-esc-inline','ok','',[(S,STR,'''func (s *scanner) string() {
	quote := s.ch
	s.tok = _STRING
	for s.nextch(); s.ch != quote; {
		if s.ch < 0 {
			s.error(s.offset, "string not terminated")
			return
		}
		if s.ch == '\\n' {
			s.error(s.offset, "newline in string")
			return
		}
		escaped := s.ch == '\\\\'
		s.nextch()
		if !escaped || s.ch < 0 {
			continue
		}
		if s.ch != quote && s.ch != '\\\\' && s.ch != 'n' && s.ch != 'r' && s.ch != 't' {
			s.error(s.offset, "unknown escape")
			return
		}
		s.nextch()
	}
	s.nextch()
}
'''),(S,ESC,'')]),
('ok2-esc-contains','ok','',[(S,ESC,'''func (s *scanner) escape(quote rune) bool {
	if s.ch < 0 {
		return true
	}
	if s.ch != quote && !strings.ContainsRune("\\\\nrt", s.ch) {
		s.error(s.offset, "unknown escape")
		return false
	}
	s.nextch()
	return true
}
'''),(S,'	gotoken "go/token"\n','	gotoken "go/token"\n	"strings"\n')]),
('ok2-fc-switch','ok','',[(S,FC,'''func (s *scanner) fullComment() {
	s.tok = _COMMENT
	for {
		switch s.ch {
		case eof:
			s.error(s.offset, "comment not terminated")
			return
		case '*':
			s.nextch()
			if s.ch == '/' {
				s.nextch()
				return
			}
		default:
			s.nextch()
		}
	}
}
''')]),
('ok2-fc-fn','ok','',[(S,FC,'''func (s *scanner) fullComment() {
	s.tok = _COMMENT
	if !s.skipFullComment() {
		s.error(s.offset, "comment not terminated")
	}
}

func (s *scanner) skipFullComment() bool {
	for s.ch != eof {
		star := s.ch == '*'
		s.nextch()
		if star && s.ch == '/' {
			s.nextch()
			return true
		}
	}
	return false
}
''')]),
('ok2-space-fn','ok','',[(S,"	for s.ch == '\\n' || s.ch == '\\r' || s.ch == '\\t' || s.ch == ' ' {","	for isSpace(s.ch) {"),(S,"func lower(ch rune)","func isSpace(ch rune) bool {\n	switch ch {\n	case ' ', '\\t', '\\n', '\\r':\n		return true\n	default:\n		return false\n	}\n}\n\nfunc lower(ch rune)")]),
('ok2-atident-split','ok','',[(S,AT,'''func (s *scanner) atIdent(first bool) bool {
	if s.ch == '_' || unicode.IsLetter(s.ch) {
		return true
	}
	if s.ch != '.' && !unicode.IsDigit(s.ch) {
		return false
	}
	if first {
		s.errorf(s.offset, "identifier cannot begin with %#U", s.ch)
	}
	return true
}
''')]),
('ok2-identstart-fn','ok','',[(S,"	for isLetter(s.ch) || s.ch >= utf8.RuneSelf && s.atIdent(true) {","	if s.identStart() {"),(S,IDENT,'''func (s *scanner) identStart() bool {
	if s.ch < utf8.RuneSelf {
		return isLetter(s.ch)
	}
	return s.atIdent(true)
}

'''+IDENT)]),
('ok2-ident-part','ok','',[(S,IDENT,IDENT.replace('''	for isLetter(s.ch) || isDecimal(s.ch) || s.ch == '.' {
		s.nextch()
	}
	if s.ch >= utf8.RuneSelf {
		for s.atIdent(false) {
			s.nextch()
		}
	}
''','''	for s.ch < utf8.RuneSelf && isIdentPart(s.ch) {
		s.nextch()
	}
	if s.ch >= utf8.RuneSelf {
		for unicode.IsLetter(s.ch) || unicode.IsDigit(s.ch) || s.ch == '_' || s.ch == '.' {
			s.nextch()
		}
	}
''')+'\nfunc isIdentPart(ch rune) bool { return isLetter(ch) || isDecimal(ch) || ch == \'.\' }\n')]),
('ok2-switch-early','ok','',[(S,NEXT,NEXT.replace('''	switch s.ch {
	case eof:
		s.tok = _EOF

	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
		s.number(false)

	case''','''	if isDecimal(s.ch) {
		s.number(false)
		return
	}

	switch s.ch {
	case eof:
		s.tok = _EOF

	case'''))]),
('ok2-save-ch','ok','',[(S,NEXT,re.sub(r"(\tcase '[*%&|^<>!(\[{,.)\]};:]':\n)\t\ts\.nextch\(\)\n", r"\1", NEXT).replace('	switch s.ch {\n	case eof:\n','	ch := s.ch\n	if singles[ch] {\n		s.nextch()\n	}\n	switch ch {\n	case eof:\n')),(S,'const (\n	bom','var singles = map[rune]bool{\n'+''.join("	'%s': true,\n"%c for c in OPS)+'}\n\nconst (\n	bom')]),
('ok2-tok-first','ok','',[(S,"		s.nextch()\n		s.tok = _MUL","		s.tok = _MUL\n		s.nextch()"),(S,"		s.nextch()\n		s.tok = _REM","		s.tok = _REM\n		s.nextch()"),(S,"		s.nextch()\n		s.tok = _COMMA","		s.tok = _COMMA\n		s.nextch()")]),
('ok2-comment-one','ok','',[(S,NEXT,NEXT.replace('''		s.nextch()
		if s.ch == '/' {
			s.nextch()
			s.lineComment()
			return
		}
		switch s.ch {
		case '/':
			s.nextch()
			s.lineComment()
		case '*':
			s.nextch()
			s.fullComment()
		default:
			s.tok = _QUO
		}
''','''		s.nextch()
		s.slash()
''')),(S,IDENT,'''// slash scans what follows a slash.
func (s *scanner) slash() {
	if s.ch != '/' && s.ch != '*' {
		s.tok = _QUO
		return
	}
	full := s.ch == '*'
	s.nextch()
	if full {
		s.fullComment()
	} else {
		s.lineComment()
	}
}

'''+IDENT)]),
('ok2-report','ok','',[(S,'''	if s.err != nil {
		s.err(s.file.Position(s.file.Pos(offs)), msg)
	}''','''	if s.err == nil {
		return
	}
	pos := s.file.Pos(offs)
	s.err(s.file.Position(pos), msg)''')]),
('ok2-hex-fn','ok','',[(S,NUM,NUM.replace('''			switch lower(s.ch) {
			case 'x':
				s.nextch()
				for isHex(s.ch) {
					s.nextch()
				}
				s.tok = _INT
				return
			}
''','''			if lower(s.ch) == 'x' {
				s.hex()
				return
			}
''')+'''
func (s *scanner) hex() {
	for s.nextch(); isHex(s.ch); s.nextch() {
	}
	s.tok = _INT
}
''')]),
]
