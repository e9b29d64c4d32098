S='tools/thriftfile/scanner.go'; K='tools/thriftfile/tokens.go'; P='tools/thriftfile/parser.go'
MUTANTS=[
('id-no-dot','bug','P01',[(S,"isDecimal(s.ch) || s.ch == '.' {","isDecimal(s.ch) {")]),
('id-uni-dot','bug','P01',[(S,"unicode.IsDigit(s.ch) || s.ch == '.':","unicode.IsDigit(s.ch):")]),
('id-uni-digit','bug','P01',[(S,"case unicode.IsDigit(s.ch) || s.ch == '.':\n		if first {","case first && unicode.IsDigit(s.ch) || s.ch == '.':\n		if first {")]),
('kw-len3','bug','P01',[(S,"len(lit) > 2 {","len(lit) > 3 {")]),
('kw-len9','bug','P01',[(S,"len(lit) > 2 {","len(lit) > 2 && len(lit) < 9 {")]),
('kw-marker','bug','P01',[(K,"		if i == definition_beg || i == definition_end {\n			continue // markers, not keywords\n		}\n","")]),
('kw-last','bug','P01',[(K,"i := keyword_beg + 1; i < keyword_end; i++","i := keyword_beg + 1; i < keyword_end-1; i++")]),
('kw-case','bug','P01',[(S,"keywords[lit]","keywords[string(rune(lower(rune(lit[0]))))+lit[1:]]")]),
('num-hexlet','bug','P01',[(S,"'a' <= lower(ch) && lower(ch) <= 'f'","'a' <= lower(ch) && lower(ch) < 'f'")]),
('num-x-upper','bug','P01',[(S,"switch lower(s.ch) {\n			case 'x':","switch s.ch {\n			case 'x':")]),
('num-e-upper','bug','P01',[(S,"	if lower(s.ch) == 'e' {","	if s.ch == 'e' {")]),
('num-exp-int','bug','P01',[(S,"		s.nextch()\n		tok = _FLOAT\n","		s.nextch()\n")]),
('num-exp-sign','bug','P01',[(S,"if s.ch == '+' || s.ch == '-' {","if s.ch == '-' {")]),
('num-exp-zero','bug','P01',[(S,"	if lower(s.ch) == 'e' {","	if lower(s.ch) == 'e' && (seenPoint || s.rdOffset > 1) {")]),
('num-frac-zero','bug','P01',[(S,"		if s.ch == '.' {\n			s.nextch()\n			seenPoint = true","		if s.ch == '.' {\n			s.nextch()\n			seenPoint = isDecimal(s.ch)")]),
('num-sign-dot','bug','P01',[(S,"	case '-':\n		s.nextch()\n		if isDecimal(s.ch) {","	case '-':\n		s.nextch()\n		if isDecimal(s.ch) || s.ch == '.' {")]),
('num-hex-sign','bug','P01',[(S,"		if s.ch == '0' {\n			s.nextch()\n			switch","		if s.ch == '0' && s.src[s.offset-1] != '-' {\n			s.nextch()\n			switch")]),
('eql','bug','P01',[(S,"		if s.ch == '=' {\n			s.nextch()\n			s.tok = _EQL\n","		if s.ch == '=' {\n			s.tok = _EQL\n")]),
('lss-gtr','bug','P01',[(S,"	case '<':\n		s.nextch()\n		s.tok = _LSS","	case '<':\n		s.nextch()\n		if s.ch == '>' {\n			s.nextch()\n			s.tok = _NOT\n			return\n		}\n		s.tok = _LSS")]),
('cmt-star','bug','P01',[(S,"		for s.ch == '*' {\n			s.nextch()","		if s.ch == '*' {\n			s.nextch()")]),
('cmt-slash','bug','P01',[(S,"	case '*':\n			s.nextch()\n			s.fullComment()","	case '*':\n			s.fullComment()")]),
('cmt-line-cr','bug','P01',[(S,"for s.ch >= 0 && s.ch != '\\n' {\n		s.nextch()\n	}\n}","for s.ch >= 0 && s.ch != '\\n' && s.ch != '\\r' {\n		s.nextch()\n	}\n}")]),
('cmt-line-eat','bug','P01',[(S,"func (s *scanner) lineComment() {\n	s.tok = _COMMENT\n	for s.ch >= 0 && s.ch != '\\n' {\n		s.nextch()\n	}","func (s *scanner) lineComment() {\n	s.tok = _COMMENT\n	for s.ch >= 0 && s.ch != '\\n' {\n		if s.ch == '\\\\' {\n			s.nextch()\n		}\n		s.nextch()\n	}")]),
('cmt-unterm','bug','P03',[(S,'	s.error(s.offset, "comment not terminated")\n','')]),
('cmt-unterm-pos','bug','P02',[(S,'	s.error(s.offset, "comment not terminated")\n','	s.error(s.file.Offset(s.pos), "comment not terminated")\n')]),
('str-esc-r','bug','P03',[(S,"case quote, '\\\\', 'n', 'r', 't':","case quote, '\\\\', 'n', 't':")]),
('str-esc-any','bug','P03',[(S,"case quote, '\\\\', 'n', 'r', 't':","case '\"', '\\'', '\\\\', 'n', 'r', 't':")]),
('str-esc-eof','bug','P03',[(S,"		if s.ch < 0 {\n			return true\n		}\n		s.error(s.offset, \"unknown escape\")","		if s.ch < 0 {\n			return false\n		}\n		s.error(s.offset, \"unknown escape\")")]),
('str-nl','bug','P03',[(S,"		if s.ch == '\\n' {\n			s.error(s.offset, \"newline in string\")\n			return\n		}\n","")]),
('str-nl-quiet','bug','P03',[(S,"			s.error(s.offset, \"newline in string\")\n","")]),
('str-esc-double','bug','P01',[(S,"			if !s.escape(quote) {\n				return\n			}\n			continue","			if !s.escape(quote) {\n				return\n			}")]),
('str-tok-late','bug','P01',[(S,"	s.tok = _STRING\n	s.nextch()\n	for {\n		if s.ch == quote {","	s.nextch()\n	for {\n		if s.ch == quote {\n			s.tok = _STRING")]),
('str-eof-loop','bug','P04',[(S,"			s.error(s.offset, \"string not terminated\")\n			break","			if s.tok != _STRING {\n				s.error(s.offset, \"string not terminated\")\n				break\n			}")]),
('inv-noadvance','bug','P04',[(S,"		s.errorf(s.offset, \"invalid character %#U\", s.ch)\n		s.nextch()","		s.errorf(s.offset, \"invalid character %#U\", s.ch)\n		if s.ch < utf8.RuneSelf {\n			s.nextch()\n		}")]),
('inv-quiet','bug','P03',[(S,"		s.errorf(s.offset, \"invalid character %#U\", s.ch)\n","		if s.ch != 0 {\n			s.errorf(s.offset, \"invalid character %#U\", s.ch)\n		}\n")]),
('pos-early','bug','P02',[(S,"redo:\n	for s.ch","redo:\n	s.pos = s.file.Pos(s.offset)\n	for s.ch"),(S,"	s.pos = s.file.Pos(s.offset)\n\n	for isLetter","\n	for isLetter")]),
('pos-redo','bug','P02',[(S,"redo:\n	for s.ch","	first := true\nredo:\n	for s.ch"),(S,"	s.pos = s.file.Pos(s.offset)\n\n	for isLetter","	if first {\n		s.pos = s.file.Pos(s.offset)\n	}\n	first = false\n\n	for isLetter")]),
('ws-ff','bug','P01',[(S,"s.ch == '\\t' || s.ch == ' ' {","s.ch == '\\t' || s.ch == ' ' || s.ch == '\\f' {")]),
('ws-cr','bug','P01',[(S,"s.ch == '\\n' || s.ch == '\\r' || s.ch","s.ch == '\\n' || s.ch")]),
('eof-err','bug','P03',[(S,"		s.tok = _EOF\n","		s.tok = _EOF\n		if s.offset != len(s.src) || len(s.src) == 0 {\n			s.error(s.offset, \"empty\")\n		}\n")]),
('id-first-digit','bug','P03',[(S,"		if first {\n			s.errorf","		if first && s.ch == '.' {\n			s.errorf")]),
('lit-end','bug','P02',[(S,"return string(s.src[s.file.Offset(s.pos):s.offset])","return string(s.src[s.file.Offset(s.pos):s.rdOffset])")]),
# nextch
('nl-line','bug','P02',[(S,"			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w","			s.lineOffset = s.offset\n			s.file.AddLine(s.offset - 1)\n		}\n		r, w")]),
('ok-nl-eof','ok','',[(S,"		s.offset = len(s.src)\n		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n","		s.offset = len(s.src)\n")]),
('nl-cr','bug','P02',[(S,"		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w","		if s.ch == '\\n' || s.ch == '\\r' && s.src[s.offset] != '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w")]),
('nul','bug','P03',[(S,"		case r == 0:\n			s.error(s.offset, \"illegal character NUL\")\n","")]),
('utf8-w','bug','P03',[(S,"r == utf8.RuneError && w == 1","r == utf8.RuneError")]),
('utf8-off','bug','P03',[(S,"				s.error(s.offset, \"illegal UTF-8 encoding\")","				s.error(s.rdOffset+w, \"illegal UTF-8 encoding\")")]),
('bom-mid','bug','P03',[(S,"r == bom && s.offset > 0","r == bom && s.offset > 3")]),
('bom-init','bug','P03',[(S,"	if s.ch == bom {\n		s.nextch()\n	}\n","")]),
('rd-w','bug','P02',[(S,"		s.rdOffset += w\n","		s.rdOffset += w\n		if r == utf8.RuneError {\n			s.rdOffset = s.offset + 1\n		}\n")]),
('nl-order','bug','P02',[(S,"		s.offset = s.rdOffset\n		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w := rune(s.src[s.rdOffset]), 1\n","		nl := s.ch == '\\n'\n		s.offset = s.rdOffset\n		defer func() {\n			if nl {\n				s.lineOffset = s.offset\n				s.file.AddLine(s.offset)\n			}\n		}()\n		r, w := rune(s.src[s.rdOffset]), 1\n")]),
('eof-off','bug','P02',[(S,"		s.offset = len(s.src)\n		if","		s.offset = s.rdOffset - 1 + 1\n		if s.ch == eof {\n			s.offset = s.rdOffset - 1\n		}\n		if")]),
('comment-one','bug','P01',[(P,"	for p.tok == _COMMENT {\n		p.next0()","	if p.tok == _COMMENT {\n		p.next0()")]),
('comment-ill','bug','P01',[(P,"	for p.tok == _COMMENT {","	for p.tok <= _COMMENT && p.tok != _EOF {")]),
# refactorings
('ok-skip-ws','ok','',[(S,"	for s.ch == '\\n' || s.ch == '\\r' || s.ch == '\\t' || s.ch == ' ' {\n		s.nextch()\n	}\n","	s.skipSpace()\n"),(S,"func (s *scanner) ident() {","func (s *scanner) skipSpace() {\n	for {\n		switch s.ch {\n		case ' ', '\\t', '\\r', '\\n':\n			s.nextch()\n		default:\n			return\n		}\n	}\n}\n\nfunc (s *scanner) ident() {")]),
('ok-if-letter','ok','',[(S,"	for isLetter(s.ch) || s.ch >= utf8.RuneSelf && s.atIdent(true) {","	if isLetter(s.ch) || s.ch >= utf8.RuneSelf && s.atIdent(true) {")]),
('ok-ops-table','ok','',[(S,"	case '*':\n		s.nextch()\n		s.tok = _MUL\n\n","	case '*':\n		s.op(_MUL)\n\n"),(S,"	case '%':\n		s.nextch()\n		s.tok = _REM\n","	case '%':\n		s.op(_REM)\n"),(S,"func (s *scanner) ident() {","func (s *scanner) op(tok token) {\n	s.tok = tok\n	s.nextch()\n}\n\nfunc (s *scanner) ident() {")]),
('ok-sign-merge','ok','',[(S,"	case '+':\n		s.nextch()\n		if isDecimal(s.ch) {\n			s.number(false)\n		} else {\n			s.tok = _ADD\n		}\n\n	case '-':\n		s.nextch()\n		if isDecimal(s.ch) {\n			s.number(false)\n		} else {\n			s.tok = _SUB\n		}\n","	case '+', '-':\n		tok := _ADD\n		if s.ch == '-' {\n			tok = _SUB\n		}\n		s.nextch()\n		if !isDecimal(s.ch) {\n			s.tok = tok\n			break\n		}\n		s.number(false)\n")]),
('ok-ident-oneloop','ok','',[(S,"	for isLetter(s.ch) || isDecimal(s.ch) || s.ch == '.' {\n		s.nextch()\n	}\n	if s.ch >= utf8.RuneSelf {\n		for s.atIdent(false) {\n			s.nextch()\n		}\n	}\n","	for isLetter(s.ch) || isDecimal(s.ch) || s.ch == '.' || s.ch >= utf8.RuneSelf && s.atIdent(false) {\n		s.nextch()\n	}\n")]),
('ok-kw-nolen','ok','',[(S,"	if lit := s.lit(); len(lit) > 2 {\n		if tok, ok := keywords[lit]; ok {\n			s.tok = tok\n			return\n		}\n	}\n	s.tok = _IDENT","	s.tok = _IDENT\n	if tok, ok := keywords[s.lit()]; ok {\n		s.tok = tok\n	}")]),
('ok-kw-len10','ok','',[(S,"len(lit) > 2 {","len(lit) >= 3 && len(lit) <= 9 {")]),
('ok-number-digits','ok','',[(S,"	if seenPoint {\n		tok = _FLOAT\n		for isDecimal(s.ch) {\n			s.nextch()\n		}\n	}\n","	if seenPoint {\n		tok = _FLOAT\n		s.digits()\n	}\n"),(S,"func (s *scanner) string() {","func (s *scanner) digits() {\n	for isDecimal(s.ch) {\n		s.nextch()\n	}\n}\n\nfunc (s *scanner) string() {")]),
('ok-number-noarg','ok','',[(S,"	if !seenPoint {\n		if s.ch == '0' {","	{\n		if s.ch == '0' {")]),
('ok-hex-if','ok','',[(S,"			switch lower(s.ch) {\n			case 'x':\n				s.nextch()\n				for isHex(s.ch) {\n					s.nextch()\n				}\n				s.tok = _INT\n				return\n			}","			if s.ch == 'x' || s.ch == 'X' {\n				s.nextch()\n				for isHex(s.ch) {\n					s.nextch()\n				}\n				s.tok = _INT\n				return\n			}")]),
('ok-string-switch','ok','',[(S,"		if s.ch == quote {\n			s.nextch()\n			break\n		}\n","		if s.ch == quote {\n			s.nextch()\n			return\n		}\n")]),
('ok-string-order','ok','',[(S,"		if s.ch == '\\n' {\n			s.error(s.offset, \"newline in string\")\n			return\n		}\n		if s.ch < 0 {\n			s.error(s.offset, \"string not terminated\")\n			break\n		}\n","		if s.ch < 0 {\n			s.error(s.offset, \"string not terminated\")\n			return\n		}\n		if s.ch == '\\n' {\n			s.error(s.offset, \"newline in string\")\n			return\n		}\n")]),
('ok-string-full','ok','',[(S,"	for {\n		if s.ch == quote {\n			s.nextch()\n			break\n		}\n		if s.ch == '\\\\' {\n			s.nextch()\n			if !s.escape(quote) {\n				return\n			}\n			continue\n		}\n		if s.ch == '\\n' {\n			s.error(s.offset, \"newline in string\")\n			return\n		}\n		if s.ch < 0 {\n			s.error(s.offset, \"string not terminated\")\n			break\n		}\n		s.nextch()\n	}","	for s.ch != quote {\n		switch s.ch {\n		case '\\\\':\n			s.nextch()\n			if !s.escape(quote) {\n				return\n			}\n		case '\\n':\n			s.error(s.offset, \"newline in string\")\n			return\n		case eof:\n			s.error(s.offset, \"string not terminated\")\n			return\n		default:\n			s.nextch()\n		}\n	}\n	s.nextch()")]),
('ok-cmt-flat','ok','',[(S,"	for s.ch >= 0 {\n		for s.ch == '*' {\n			s.nextch()\n			if s.ch == '/' {\n				s.nextch()\n				return\n			}\n		}\n		s.nextch()\n	}\n","	star := false\n	for s.ch >= 0 {\n		if star && s.ch == '/' {\n			s.nextch()\n			return\n		}\n		star = s.ch == '*'\n		s.nextch()\n	}\n")]),
('ok-cmt-prev','ok','',[(S,"	for s.ch >= 0 {\n		for s.ch == '*' {\n			s.nextch()\n			if s.ch == '/' {\n				s.nextch()\n				return\n			}\n		}\n		s.nextch()\n	}\n","	for s.ch >= 0 {\n		c := s.ch\n		s.nextch()\n		if c == '*' && s.ch == '/' {\n			s.nextch()\n			return\n		}\n	}\n")]),
('next-recursive','bug','P09',[(S,"		s.errorf(s.offset, \"invalid character %#U\", s.ch)\n		s.nextch()\n		goto redo\n","		s.errorf(s.offset, \"invalid character %#U\", s.ch)\n		s.nextch()\n		s.next()\n"),(S,"redo:\n","")]),
('ok-tok-start','ok','',[(S,"	s.pos = s.file.Pos(s.offset)\n\n	for isLetter","	start := s.offset\n	s.pos = s.file.Pos(start)\n\n	for isLetter")]),
('ok-eof-if','ok','',[(S,"	switch s.ch {\n	case eof:\n		s.tok = _EOF\n\n	case '0'","	if s.ch < 0 {\n		s.tok = _EOF\n		return\n	}\n\n	switch s.ch {\n	case '0'")]),
('ok-newline-fn','ok','',[(S,"		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w","		s.line()\n		r, w"),(S,"		s.offset = len(s.src)\n		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n","		s.offset = len(s.src)\n		s.line()\n"),(S,"func (s *scanner) next() {","func (s *scanner) line() {\n	if s.ch == '\\n' {\n		s.lineOffset = s.offset\n		s.file.AddLine(s.offset)\n	}\n}\n\nfunc (s *scanner) next() {")]),
('ok-nextch-early','ok','',[(S,"func (s *scanner) nextch() {\n	if s.rdOffset < len(s.src) {\n","func (s *scanner) nextch() {\n	if len(s.src) > s.rdOffset {\n")]),
('ok-nextch-merge','ok','',[(S,"	if s.rdOffset < len(s.src) {\n		s.offset = s.rdOffset\n		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n","	s.offset = min(s.rdOffset, len(s.src))\n	if s.ch == '\\n' {\n		s.lineOffset = s.offset\n		s.file.AddLine(s.offset)\n	}\n	if s.rdOffset < len(s.src) {\n"),(S,"		s.offset = len(s.src)\n		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n","")]),
('ok-bom-offset','ok','',[(S,"r == bom && s.offset > 0","r == bom && s.offset != 0")]),
('ok-no-lineoffset','ok','',[(S,"			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w","			s.file.AddLine(s.offset)\n		}\n		r, w"),(S,"			s.lineOffset = s.offset\n			s.file.AddLine","			s.file.AddLine"),(S,"	lineOffset int\n",""),(S,"	s.lineOffset = 0\n","")]),
('ok-lookup-fn','ok','',[(S,"	if lit := s.lit(); len(lit) > 2 {\n		if tok, ok := keywords[lit]; ok {\n			s.tok = tok\n			return\n		}\n	}\n	s.tok = _IDENT","	s.tok = lookup(s.lit())"),(K,"func (tok token) isLiteral()","// lookup maps an identifier to its keyword token.\nfunc lookup(lit string) token {\n	if tok, ok := keywords[lit]; ok {\n		return tok\n	}\n	return _IDENT\n}\n\nfunc (tok token) isLiteral()")]),
('ok-lower-range','ok','',[(S,"return 'a' <= lower(ch) && lower(ch) <= 'z' || ch == '_'","return 'a' <= ch && ch <= 'z' || 'A' <= ch && ch <= 'Z' || ch == '_'")]),
]
