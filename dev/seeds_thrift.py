SEEDS = globals().get('SEEDS', [])
def seed(**k): SEEDS.append(k)
D='thrift/arshal_default.go'; F='thrift/fields.go'; A='thrift/arshal.go'
HEAD='''
package thrift_test

import (
	"bytes"
	"testing"
%s
	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

var _ = thriftwire.Stop

func enc(t *testing.T, v any) *bytes.Buffer {
	t.Helper()
	buf := new(bytes.Buffer)
	w := thriftbinary.Protocol.NewWriter(buf)
	if err := thrift.Marshal(w, v); err != nil {
		t.Fatal(err)
	}
	if err := w.(thriftwire.Flusher).Flush(); err != nil {
		t.Fatal(err)
	}
	return buf
}

func dec(t *testing.T, buf *bytes.Buffer, v any) {
	t.Helper()
	if err := thrift.Unmarshal(thriftbinary.Protocol.NewReader(buf), v); err != nil {
		t.Fatal(err)
	}
}
'''
def demo(body, *imps): return HEAD % ''.join('\t"%s"\n' % i for i in imps) + body

seed(id='list-stale-elements', property='T09', pkg='thrift',
 edits=[(D,'mustZero := true // we do not know the cleanliness of unused capacity','mustZero := va.Len() < va.Cap() // we do not know the cleanliness of unused capacity')],
 needs='a slice of structs without spare capacity that holds elements already, and elements on the wire that leave fields out',
 breaks='fields of former elements show up in decoded elements',
 demo=demo('''
type stE struct {
	A int32 `thrift:"1"`
	B int32 `thrift:"2"`
}

func TestDemo(t *testing.T) {
	got := []stE{{1, 2}, {3, 4}}
	dec(t, enc(t, &[]stE{{A: 5}, {B: 6}}), &got)
	if got[0] != (stE{A: 5}) || got[1] != (stE{B: 6}) {
		t.Fatal(got)
	}
}
'''))
seed(id='map-empty-replaced', property='T05', pkg='thrift',
 edits=[(D,'			if va.IsNil() {\n				va.Set(reflect.MakeMap(t))','			if va.Len() == 0 {\n				va.Set(reflect.MakeMap(t))')],
 needs='unmarshalling into an empty map which is not nil and which something else refers to',
 breaks='the map the value holds is replaced by another one, so its other owner does not see the entries',
 demo=demo('''
func TestDemo(t *testing.T) {
	m := map[string]int32{}
	alias := m
	dec(t, enc(t, &map[string]int32{"a": 1}), &m)
	if alias["a"] != 1 || m["a"] != 1 {
		t.Fatal(alias, m)
	}
}
'''))
seed(id='struct-empty-map-omitted', property='T06', pkg='thrift',
 edits=[(D,'(f.isZero == nil && v.IsZero())','(f.isZero == nil && (v.IsZero() || v.Kind() == reflect.Map && v.Len() == 0))')],
 needs='a field that holds an empty map which is not nil',
 breaks='a field that is not zero is left out',
 demo=demo('''
type emS struct {
	M map[string]int32 `thrift:"1"`
}

func TestDemo(t *testing.T) {
	a, b := enc(t, &emS{M: map[string]int32{}}), enc(t, &emS{})
	if bytes.Equal(a.Bytes(), b.Bytes()) {
		t.Fatal("the empty map is left out")
	}
}
'''))
seed(id='struct-mismatch-skipped', property='T07', pkg='thrift',
 edits=[(D,'			if !ok {\n				if err := thriftwire.Skip','			if !ok || f.fncs.wireType != h.Type {\n				if err := thriftwire.Skip')],
 needs='a field on the wire whose ID is known and whose type is another one',
 breaks='the field is skipped silently instead of being handed to the codec, which refuses it',
 demo=demo('''
type mmA struct {
	X int32 `thrift:"1"`
}
type mmB struct {
	X string `thrift:"1"`
}

func TestDemo(t *testing.T) {
	var b mmB
	if err := thrift.Unmarshal(thriftbinary.Protocol.NewReader(enc(t, &mmA{7})), &b); err == nil {
		t.Fatal("no error")
	}
}
'''))
seed(id='tag-base', property='T08', pkg='thrift',
 edits=[(F,'strconv.ParseInt(tag[:i], 10, 16)','strconv.ParseInt(tag[:i], 0, 16)')],
 needs='a field ID with a leading zero or a prefix in a tag',
 breaks='malformed field IDs are accepted, and 010 means 8',
 demo=demo('''
type tbS struct {
	A int32 `thrift:"0x10"`
}

func TestDemo(t *testing.T) {
	if err := thrift.Marshal(thriftbinary.Protocol.NewWriter(new(bytes.Buffer)), &tbS{1}); err == nil {
		t.Fatal("no error")
	}
}
'''))
seed(id='field-end-error', property='T10', pkg='thrift',
 edits=[(D,'if err := w.WriteFieldEnd(); err != nil {','if err := w.WriteFieldEnd(); err != nil && i < len(fields.sorted)-1 {')],
 needs='a writer whose WriteFieldEnd fails for the last field of a struct',
 breaks='the failure is lost and the end of the struct is written',
 demo=demo('''
type feW struct {
	thriftwire.Writer
	n int
}

func (w *feW) WriteFieldEnd() error {
	if w.n--; w.n < 0 {
		return errors.New("full")
	}
	return w.Writer.WriteFieldEnd()
}

type feS struct {
	A int32 `thrift:"1"`
	B int32 `thrift:"2"`
}

func TestDemo(t *testing.T) {
	for n := 0; n < 2; n++ {
		if err := thrift.Marshal(&feW{thriftbinary.Protocol.NewWriter(new(bytes.Buffer)), n}, &feS{1, 2}); err == nil {
			t.Fatal("no error", n)
		}
	}
}
''','errors'))
seed(id='marshal-allocates', property='T11', pkg='thrift',
 edits=[(D,'''		if va.IsNil() {
			v := newAddressableValue(t.Elem())
			return valFncs.marshal(w, v, mo)
		}
''','''		if va.IsNil() {
			va.Set(reflect.New(t.Elem()))
		}
''')],
 needs='marshalling a required nil pointer, or a list of nil pointers',
 breaks='Marshal replaces nil pointers in the value',
 demo=demo('''
func TestDemo(t *testing.T) {
	v := []*int32{nil}
	enc(t, &v)
	if v[0] != nil {
		t.Fatal("the value changed")
	}
}
'''))
seed(id='shared-error', property='T12', pkg='thrift',
 edits=[(D,'''			err := *errInit // shallow copy SemanticError
			err.action = "unmarshal"
			return &err
''','''			errInit.action = "unmarshal"
			return errInit
''')],
 needs='goroutines that marshal and unmarshal values of an invalid struct type, or an error kept while another is made',
 breaks='the error all goroutines share is changed by every Unmarshal',
 demo=demo('''
type seS struct {
	A int32 `thrift:"x"`
}

func TestDemo(t *testing.T) {
	var s seS
	e1 := thrift.Unmarshal(thriftbinary.Protocol.NewReader(new(bytes.Buffer)), &s)
	e2 := thrift.Unmarshal(thriftbinary.Protocol.NewReader(new(bytes.Buffer)), &s)
	if e1 == nil || e1 == e2 {
		t.Fatal("the error is shared")
	}
}
'''))
seed(id='depth-reset', property='T13', pkg='thrift',
 edits=[(D,'f.fncs.marshal(w, v, mo)','f.fncs.marshal(w, v, marshalOptions{})')],
 needs='a value that contains itself by way of struct fields',
 breaks='nesting in fields is not bounded, so Marshal of a cyclic value exhausts the stack',
 demo=demo('''
type drS struct {
	Next *drS `thrift:"1"`
}

func TestDemo(t *testing.T) {
	v := &drS{}
	for i := 0; i < 30000; i++ {
		v = &drS{Next: v}
	}
	if err := thrift.Marshal(thriftbinary.Protocol.NewWriter(new(bytes.Buffer)), v); err == nil {
		t.Fatal("no error")
	}
}
'''))
seed(id='grow-by-header', property='T15', pkg='thrift',
 edits=[(D,'					va.Grow(1)\n','					va.Grow(sh.Size - i)\n')],
 needs='a header that announces far more elements than follow',
 breaks='memory is allocated for the announced number of elements',
 demo=demo('''
func TestDemo(t *testing.T) {
	buf := new(bytes.Buffer)
	w := thriftbinary.Protocol.NewWriter(buf)
	w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.I64, Size: 1 << 24})
	w.(thriftwire.Flusher).Flush()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var v []int64
	if err := thrift.Unmarshal(thriftbinary.Protocol.NewReader(buf), &v); err == nil {
		t.Fatal("no error")
	}
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 32<<20 {
		t.Fatal("allocated ", b.TotalAlloc-a.TotalAlloc)
	}
}
''','runtime'))
seed(id='string-to-valid', property='T01', pkg='thrift',
 edits=[(D,'w.WriteString(va.String())','w.WriteString(strings.ToValidUTF8(va.String(), "?"))'),(D,'import (\n	"reflect"\n','import (\n	"reflect"\n	"strings"\n')],
 needs='a string that is not valid UTF-8',
 breaks='the string is altered when marshaled',
 demo=demo('''
func TestDemo(t *testing.T) {
	in, out := "a\\xffb", ""
	dec(t, enc(t, &in), &out)
	if in != out {
		t.Fatalf("%q", out)
	}
}
'''))
seed(id='float-overflow-kept', property='T02', pkg='thrift',
 edits=[(D,'		va.SetFloat(v)\n','		if !va.OverflowFloat(v) {\n			va.SetFloat(v)\n		}\n')],
 needs='a double beyond the range of float32 read into a float32',
 breaks='the value keeps what it held before',
 demo=demo('''
func TestDemo(t *testing.T) {
	in, out := 1e300, float32(5)
	dec(t, enc(t, &in), &out)
	if out == 5 {
		t.Fatal(out)
	}
}
'''))
seed(id='list-accepts-set', property='T03', pkg='thrift',
 edits=[(D,'		if wt != wireType {\n			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}\n		}\n		if uo','		if wt != thriftwire.List && wt != thriftwire.Set {\n			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}\n		}\n		if uo')],
 needs='a set on the wire where the Go type is a list',
 breaks='a wire type other than that of the Go type is accepted',
 demo=demo('''
type lsA struct {
	X thrift.Set[int32] `thrift:"1"`
}
type lsB struct {
	X []int32 `thrift:"1"`
}

func TestDemo(t *testing.T) {
	var b lsB
	if err := thrift.Unmarshal(thriftbinary.Protocol.NewReader(enc(t, &lsA{thrift.Set[int32]{7}})), &b); err == nil {
		t.Fatal("no error")
	}
}
'''))
seed(id='map-keys-lookup', property='T04', pkg='thrift',
 edits=[(D,'''			for iter := va.MapRange(); iter.Next(); {
				k.SetIterKey(iter)
''','''			for _, key := range va.MapKeys() {
				k.Set(key)
'''),(D,'				v.SetIterValue(iter)\n','				if e := va.MapIndex(key); e.IsValid() {\n					v.Set(e)\n				}\n')],
 needs='a map with a NaN key',
 breaks='the value of the NaN key is not written, but the one of another entry',
 demo=demo('''
func TestDemo(t *testing.T) {
	in := map[float64]int32{math.NaN(): 7}
	out := map[float64]int32{}
	dec(t, enc(t, &in), &out)
	for _, v := range out {
		if v != 7 {
			t.Fatal(out)
		}
	}
}
''','math'))
seed(id='nil-pointer-target', property='T14', pkg='thrift',
 edits=[(A,'if !v.IsValid() || v.Kind() != reflect.Pointer || v.IsNil() {','if !v.IsValid() || v.Kind() != reflect.Pointer {')],
 needs='a typed nil pointer as the target',
 breaks='Unmarshal panics',
 demo=demo('''
func TestDemo(t *testing.T) {
	if err := thrift.Unmarshal(thriftbinary.Protocol.NewReader(new(bytes.Buffer)), (*int32)(nil)); err == nil {
		t.Fatal("no error")
	}
}
'''))
seed(id='required-iszero', property='T06', pkg='thrift',
 edits=[(D,'if !f.required && ((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v))) {','if (f.isZero == nil && !f.required && v.IsZero()) || (f.isZero != nil && f.isZero(v)) {')],
 needs='a required field whose type has a method IsZero, holding a zero value',
 breaks='a required field is left out',
 demo=demo('''
type riZ int32

func (z riZ) IsZero() bool { return z == 0 }

type riS struct {
	Z riZ `thrift:"1,required"`
}
type riP struct {
	Z int32 `thrift:"1,required"`
}

func TestDemo(t *testing.T) {
	if a, b := enc(t, &riS{}), enc(t, &riP{}); !bytes.Equal(a.Bytes(), b.Bytes()) {
		t.Fatal("the required field is left out")
	}
}
'''))
seed(id='named-bytes-list', property='T01', pkg='thrift',
 edits=[(D,'		case t.AssignableTo(bytesType):','		case t == bytesType:')],
 needs='a named type of byte slices',
 breaks='its values are written as lists of bytes instead of strings',
 demo=demo('''
type nbB []byte
type nbS struct {
	B nbB `thrift:"1"`
}
type nbT struct {
	B []byte `thrift:"1"`
}

func TestDemo(t *testing.T) {
	if a, b := enc(t, &nbS{nbB("abc")}), enc(t, &nbT{[]byte("abc")}); !bytes.Equal(a.Bytes(), b.Bytes()) {
		t.Fatal("a named byte slice is not written as string")
	}
}
'''))
