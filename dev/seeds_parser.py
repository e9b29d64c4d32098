SEEDS = globals().get('SEEDS', [])
def seed(**k): SEEDS.append(k)
S='tools/thriftfile/scanner.go'; P='tools/thriftfile/parser.go'; K='tools/thriftfile/tokens.go'
PHEAD='''
package thriftfile_test

import (
	"fmt"
	"go/token"
	"strings"
	"testing"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

var _ = fmt.Sprint
var _ = strings.Repeat

func parse(src string) (*thriftfile.File, *token.FileSet, error) {
	fset := token.NewFileSet()
	f, err := thriftfile.Parse(fset, "a.thrift", []byte(src))
	return f, fset, err
}
'''
def pseed(**k): seed(pkg='tools/thriftfile', **k)
def pdemo(b): return PHEAD + b

pseed(id='ident-dot-after-letter', property='P01',
 edits=[(S,"	case unicode.IsDigit(s.ch) || s.ch == '.':\n","	case unicode.IsDigit(s.ch):\n")],
 needs='a qualified name with two letters outside ASCII in front of a dot',
 breaks='a qualified identifier is split at the dot',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	f, _, err := parse("typedef éé.b x")
	if err != nil {
		t.Fatal(err)
	}
	if n := f.Defs[0].(*thriftfile.Typedef).Type.(*thriftfile.TypeRef).Name.Name; n != "éé.b" {
		t.Fatal(n)
	}
}
'''))
pseed(id='exponent-upper', property='P01',
 edits=[(S,"	if lower(s.ch) == 'e' {","	if s.ch == 'e' {")],
 needs='a number whose exponent is written with an upper case E',
 breaks='1.5E3 is no longer one number',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	f, _, err := parse("const double d = 1.5E3")
	if err != nil {
		t.Fatal(err)
	}
	if v := f.Defs[0].(*thriftfile.Const).Value.(*thriftfile.Float).Value; v != "1.5E3" {
		t.Fatal(v)
	}
}
'''))
pseed(id='line-at-lone-cr', property='P02',
 edits=[(S,"		s.offset = s.rdOffset\n		if s.ch == '\\n' {","		s.offset = s.rdOffset\n		if s.ch == '\\n' || s.ch == '\\r' && s.src[s.offset] != '\\n' {")],
 needs='a carriage return without a line feed in front of an error',
 breaks='lines are counted that the file does not have',
 demo=pdemo("""
func TestDemo(t *testing.T) {
	_, _, err := parse("struct A {}\\r $")
	if err == nil || !strings.HasPrefix(err.Error(), "a.thrift:1:14:") {
		t.Fatal(err)
	}
}
"""))
pseed(id='token-pos-after-invalid', property='P02',
 edits=[(S,"redo:\n	for s.ch == '\\n' || s.ch == '\\r' || s.ch == '\\t' || s.ch == ' ' {\n		s.nextch()\n	}\n	s.pos = s.file.Pos(s.offset)\n","	for s.ch == '\\n' || s.ch == '\\r' || s.ch == '\\t' || s.ch == ' ' {\n		s.nextch()\n	}\n	s.pos = s.file.Pos(s.offset)\nredo:\n	for s.ch == '\\n' || s.ch == '\\r' || s.ch == '\\t' || s.ch == ' ' {\n		s.nextch()\n	}\n")],
 needs='an invalid character in front of an identifier',
 breaks='the text of the token begins at the invalid character',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	f, _, err := parse("struct $ A {}")
	if err == nil {
		t.Fatal("no error")
	}
	if n := f.Defs[0].(*thriftfile.Struct).Name.Name; n != "A" {
		t.Fatalf("%q", n)
	}
}
'''))
pseed(id='escape-in-other-quote', property='P03',
 edits=[(S,"	case quote, '\\\\', 'n', 'r', 't':","	case '\"', '\\\\', 'n', 'r', 't':")],
 needs='a string in single quotes with an escaped single quote',
 breaks='a legal string is refused',
 demo=pdemo(r'''
func TestDemo(t *testing.T) {
	f, _, err := parse(`const string s = 'it\'s'`)
	if err != nil {
		t.Fatal(err)
	}
	_ = f
}
'''))
pseed(id='replacement-char-refused', property='P03',
 edits=[(S,"r == utf8.RuneError && w == 1","r == utf8.RuneError && w > 0")],
 needs='U+FFFD, correctly encoded, in a string or a comment',
 breaks='a file in correct UTF-8 is refused',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	_, _, err := parse("// \\uFFFD\\nstruct A {}")
	if err != nil {
		t.Fatal(err)
	}
}
'''))
pseed(id='string-eof-loop', property='P04',
 edits=[(S,"		if s.ch < 0 {\n			s.error(s.offset, \"string not terminated\")\n			break\n		}\n","		if s.ch < 0 && s.offset > s.file.Offset(s.pos)+1 {\n			s.error(s.offset, \"string not terminated\")\n			break\n		}\n")],
 needs='a quote as the last character of the file',
 breaks='the scanner never returns',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() { parse("include \\""); done <- true }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("Parse does not return")
	}
}
''').replace('	"testing"\n','	"testing"\n	"time"\n'))
pseed(id='separator-once', property='P06',
 edits=[(P,'	for p.tok == _COMMA || p.tok == _SEMICOLON {\n		p.next()','	if p.tok == _COMMA || p.tok == _SEMICOLON {\n		p.next()')],
 needs='two separators in a row',
 breaks='a file the grammar of this parser allows is refused',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	_, _, err := parse("struct A { 1: i32 a,; 2: i32 b }")
	if err != nil {
		t.Fatal(err)
	}
}
'''))
pseed(id='map-colon-optional', property='P06',
 edits=[(P,'	x.Key = p.value()\n	p.want(_COLON)','	x.Key = p.value()\n	if !p.got(_COLON) {\n		p.got(_ASSIGN)\n	}')],
 needs='a map value without a colon between key and value',
 breaks='a file which is not well-formed is accepted',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	_, _, err := parse("const map<i32,i32> m = {1 2}")
	if err == nil {
		t.Fatal("accepted")
	}
}
'''))
pseed(id='oneway-void-lost', property='P07',
 edits=[(P,'	if p.got(_VOID) {\n		x.Void = true','	if p.got(_VOID) {\n		x.Void = !x.OneWay')],
 needs='a oneway method',
 breaks='the method is neither void nor does it have a return type',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	f, _, err := parse("service S { oneway void a() }")
	if err != nil {
		t.Fatal(err)
	}
	m := f.Defs[0].(*thriftfile.Service).Methods.List[0]
	if !m.Void || !m.OneWay {
		t.Fatal(m)
	}
}
'''))
pseed(id='empty-throws-dropped', property='P07',
 edits=[(P,'	if p.got(_THROWS) {\n		x.Throws = p.fields(_LPAREN, _RPAREN)\n	}','	if p.got(_THROWS) {\n		if l := p.fields(_LPAREN, _RPAREN); len(l.List) > 0 {\n			x.Throws = l\n		}\n	}')],
 needs='a method with an empty throws clause',
 breaks='the clause is missing in the tree',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	f, _, err := parse("service S { void a() throws () }")
	if err != nil {
		t.Fatal(err)
	}
	if f.Defs[0].(*thriftfile.Service).Methods.List[0].Throws == nil {
		t.Fatal("no throws")
	}
}
'''))
pseed(id='list-at-eof-loop', property='P08',
 edits=[(P,'	for p.tok != _EOF && p.tok != close {','	for p.tok != close {\n		if p.tok == _EOF && open == _LBRACE {\n			break\n		}')],
 needs='a file that ends within parentheses or brackets',
 breaks='the parser never returns',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer func() { recover() }()
		parse("struct A {} (a")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("Parse does not return")
	}
}
''').replace('	"testing"\n','	"testing"\n	"time"\n'))
pseed(id='comment-lookahead-eof', property='P08',
 edits=[(S,"		for s.ch == '*' {\n			s.nextch()\n			if s.ch == '/' {\n				s.nextch()\n				return\n			}\n		}\n		s.nextch()","		if s.ch == '*' && s.src[s.rdOffset] == '/' {\n			s.nextch()\n			s.nextch()\n			return\n		}\n		s.nextch()")],
 needs='a file that ends with a star within a comment',
 breaks='Parse panics',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	_, _, err := parse("/* *")
	if err == nil {
		t.Fatal("no error")
	}
}
'''))
pseed(id='errors-by-column', property='P10',
 edits=[(P,'	if e.Line != f.Line {\n		return e.Line < f.Line\n	}','	if e.Line < f.Line {\n		return true\n	}')],
 needs='two errors, the later of which is in a smaller column',
 breaks='errors are not reported in the order of the file',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	_, _, err := parse("struct A { $ }\\n$\\n    $\\nstruct B { $ }\\n$")
	if err == nil || !strings.HasPrefix(err.Error(), "a.thrift:1:12:") {
		t.Fatal(err)
	}
}
'''))
pseed(id='recover-skips-union', property='P11',
 edits=[(K,'definition_beg < tok && tok < definition_end','definition_beg < tok && tok < definition_end-1')],
 needs='an error within a definition, followed by a definition of the last kind in the table',
 breaks='the definition behind the broken one is lost',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	for _, d := range []string{"const i32 x = 1", "typedef i32 x", "enum x {}", "struct x {}", "union x {}", "exception x {}", "service x {}"} {
		f, _, err := parse("= =\\n" + d)
		if err == nil {
			t.Fatal("no error")
		}
		if len(f.Defs) != 2 {
			t.Fatal(d, len(f.Defs))
		}
		if _, ok := f.Defs[1].(*thriftfile.BadDef); ok {
			t.Fatal(d)
		}
	}
}
'''))

pseed(id='separators-recursive', property='P09',
 edits=[(P,'	for p.tok == _COMMA || p.tok == _SEMICOLON {\n		p.next()\n	}','	if p.tok == _COMMA || p.tok == _SEMICOLON {\n		p.next()\n		p.separator()\n	}')],
 needs='a source with millions of separators in a row',
 breaks='parsing exhausts the stack',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	defer debug.SetMaxStack(debug.SetMaxStack(64 << 20))
	_, _, err := parse("const i32 a = 1" + strings.Repeat(",", 8<<20))
	if err != nil {
		t.Fatal(err)
	}
}
''').replace('	"strings"\n','	"runtime/debug"\n	"strings"\n'))
pseed(id='invalid-chars-recursive', property='P09',
 edits=[(S,"		s.nextch()\n		goto redo\n","		s.nextch()\n		s.next()\n"),(S,"redo:\n","")],
 needs='a source with millions of invalid characters in a row',
 breaks='parsing exhausts the stack',
 demo=pdemo('''
func TestDemo(t *testing.T) {
	defer debug.SetMaxStack(debug.SetMaxStack(16 << 20))
	_, _, err := parse(strings.Repeat("$", 500000))
	if err == nil {
		t.Fatal("no error")
	}
}
''').replace('	"strings"\n','	"runtime/debug"\n	"strings"\n'))
