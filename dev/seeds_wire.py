SEEDS = globals().get('SEEDS', [])
def seed(**k): SEEDS.append(k)
CB='encoding/thriftbinary/thriftbinary.go'; CC='encoding/thriftcompact/thriftcompact.go'; CT='encoding/thriftcompact/types.go'; CW='encoding/thriftwire/bufio.go'; CV='encoding/thriftwire/varint.go'; CS='encoding/thriftwire/skip.go'
seed(id='compact-field-stack', property='C04', pkg='encoding/thriftcompact',
 edits=[(CC, '''	if len(x.lastFieldIDs) == 0 {
		return fmt.Errorf("thriftcompact: ReadStructEnd called without matching ReadStructBegin")
	}
	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]
''', '''	if len(x.lastFieldIDs) == 0 {
		return fmt.Errorf("thriftcompact: ReadStructEnd called without matching ReadStructBegin")
	}
	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)/2]
''')],
 needs='three levels of nested structs with distinct field IDs before them, and a delta-encoded field after the innermost ended',
 breaks='the reader restores the wrong last field ID when a struct at depth three ends',
 demo='''
package thriftcompact_test

import (
	"bytes"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := thriftcompact.Protocol.NewWriter(&buf)
	id := []int16{10, 20, 30, 40, 50}
	for i := 0; i < 5; i++ {
		w.WriteStructBegin(thriftwire.StructHeader{})
		if i < 4 {
			w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Struct, ID: id[i]})
		}
	}
	for i := 4; i >= 0; i-- {
		if i < 4 {
			w.WriteFieldEnd()
		}
		w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Byte, ID: id[i] + 1})
		w.WriteByte(1)
		w.WriteFieldEnd()
		w.WriteStructEnd()
	}
	w.(thriftwire.Flusher).Flush()
	r := thriftcompact.Protocol.NewReader(&buf)
	for i := 0; i < 5; i++ {
		r.ReadStructBegin()
		if i < 4 {
			if h, err := r.ReadFieldBegin(); err != nil || h.ID != id[i] {
				t.Fatal(h, err)
			}
		}
	}
	for i := 4; i >= 0; i-- {
		if i < 4 {
			r.ReadFieldEnd()
		}
		h, err := r.ReadFieldBegin()
		if err != nil || h.ID != id[i]+1 {
			t.Fatalf("field %d: got %v, %v", id[i]+1, h, err)
		}
		r.ReadByte()
		r.ReadFieldEnd()
		if h, err := r.ReadFieldBegin(); err != nil || h.Type != thriftwire.Stop {
			t.Fatal(h, err)
		}
		if err := r.ReadStructEnd(); err != nil {
			t.Fatal(err)
		}
	}
}
''')
seed(id='string-chunk-error', property='W02', pkg='encoding/thriftwire',
 edits=[(CW, '''		c, err := Next(b, min(left, b.Size()))
		buf = append(buf, c...)
		left -= len(c)
		if err != nil {
			if left''', '''		c, err := Next(b, min(left, b.Size()))
		buf = append(buf, c...)
		left -= len(c)
		if err != nil && len(c) == 0 {
			if left'''), (CW, '''			return buf, err
		}
	}
	return buf, nil
''','''			return buf, err
		}
		if len(c) < b.Size() {
			break
		}
	}
	return buf, nil
''')],
 needs='a byte string longer than the read buffer which is cut off inside its last chunk',
 breaks='a truncated byte string is returned as if it were complete',
 demo='''
package thriftwire_test

import (
	"bufio"
	"bytes"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("x"), 10000)
	for _, n := range []int{10000, 10001, 4097, 8192, 9999, 12288} {
		r := bufio.NewReader(bytes.NewReader(data))
		got, err := thriftwire.ReadBytes(r, n, nil)
		if n <= len(data) && (err != nil || len(got) != n) {
			t.Errorf("ReadBytes(%d) = %d bytes, %v", n, len(got), err)
		}
		if n > len(data) && err == nil {
			t.Errorf("ReadBytes(%d) of %d bytes: no error", n, len(data))
		}
	}
}
''')
seed(id='compact-delta-16', property='C03', pkg='encoding/thriftcompact',
 edits=[(CC, 'delta > 0 && delta <= 15 {', 'delta > 0 && delta <= 16 {')],
 needs='a field whose ID is exactly 16 more than the last one in its struct',
 breaks='the delta 16 overflows the four bits it has and the header reads as one with a full ID',
 demo='''
package thriftcompact_test

import (
	"bytes"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := thriftcompact.Protocol.NewWriter(&buf)
	w.WriteStructBegin(thriftwire.StructHeader{})
	w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.I32, ID: 16})
	w.WriteI32(-77)
	w.WriteFieldEnd()
	w.WriteStructEnd()
	w.(thriftwire.Flusher).Flush()
	r := thriftcompact.Protocol.NewReader(&buf)
	r.ReadStructBegin()
	h, err := r.ReadFieldBegin()
	if err != nil || h.ID != 16 || h.Type != thriftwire.I32 {
		t.Fatal(h, err)
	}
	if v, err := r.ReadI32(); v != -77 || err != nil {
		t.Fatal(v, err)
	}
}
''')
seed(id='flush-order', property='W07', pkg='encoding/thriftbinary',
 edits=[(CB, '''	if err := x.Writer.Flush(); err != nil {
		return err
	}
	return thriftwire.Flush(x.w)
''', '''	if x.Buffered() > 0 {
		if err := x.Writer.Flush(); err != nil {
			return err
		}
		return thriftwire.Flush(x.w)
	}
	return nil
''')],
 needs='a flush when this layer buffers nothing while the underlying writer still holds bytes (a value larger than the buffer passes straight through)',
 breaks='bytes which went straight to the underlying writer are not flushed further',
 demo='''
package thriftbinary_test

import (
	"bytes"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

type fw struct {
	bytes.Buffer
	flushed int
}

func (w *fw) Flush() error { w.flushed = w.Len(); return nil }

func TestDemo(t *testing.T) {
	u := &fw{}
	w := thriftbinary.Protocol.NewWriter(u)
	w.WriteI32(0)
	w.(thriftwire.Flusher).Flush()
	n := u.Len()
	big := make([]byte, 1<<16)
	w.WriteBytes(big)
	if err := w.(thriftwire.Flusher).Flush(); err != nil {
		t.Fatal(err)
	}
	if u.flushed != n+4+len(big) {
		t.Fatalf("flushed %d of %d", u.flushed, n+4+len(big))
	}
	w.(thriftwire.Writer).(interface{ Write([]byte) (int, error) }).Write(big)
	if err := w.(thriftwire.Flusher).Flush(); err != nil || u.flushed != u.Len() {
		t.Fatal("not flushed", u.flushed, u.Len())
	}
}
''')
seed(id='skip-map-value', property='W06', pkg='encoding/thriftwire',
 edits=[(CS, '''		for i := 0; i < h.Size; i++ {
			if err := skip(r, h.Key, depth); err != nil {
				return err
			}
''', '''		if h.Size > 0 && h.Key == h.Value {
			h.Size = 2*h.Size - 1
		}
		for i := 0; i < h.Size; i++ {
			if err := skip(r, h.Key, depth); err != nil {
				return err
			}
			if h.Key == h.Value && i > 0 {
				continue
			}
''')],
 needs='a skipped map of two or more entries whose keys and values have the same type', breaks='x', demo='')
SEEDS.pop()
