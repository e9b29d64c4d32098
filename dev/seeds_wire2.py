SEEDS = globals().get('SEEDS', [])
def seed(**k): SEEDS.append(k)
CB='encoding/thriftbinary/thriftbinary.go'; CC='encoding/thriftcompact/thriftcompact.go'; CW='encoding/thriftwire/bufio.go'; CS='encoding/thriftwire/skip.go'; CP='encoding/thriftwire/protocol.go'
def test(pkg, imports, body):
    return 'package %s_test\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
G='github.com/itstarsun/go-thrift/encoding/'
seed(id='negative-zero', property='B01', pkg='encoding/thriftbinary',
 edits=[(CB,'''	binary.BigEndian.PutUint64(buf, math.Float64bits(v))
''','''	if v == 0 {
		clear(buf) // x.buf holds what was written before
	} else {
		binary.BigEndian.PutUint64(buf, math.Float64bits(v))
	}
''')],
 needs='a double that is the negative zero', breaks='the binary writer encodes -0.0 as +0.0',
 demo=test('thriftbinary',['bytes','math','testing',G+'thriftbinary'],'''	var buf bytes.Buffer
	w := thriftbinary.Protocol.NewWriter(&buf)
	w.WriteDouble(math.Copysign(0, -1))
	w.Flush()
	if !bytes.Equal(buf.Bytes(), []byte{0x80, 0, 0, 0, 0, 0, 0, 0}) {
		t.Fatalf("% x", buf.Bytes())
	}
'''))
seed(id='nonstrict-long-name', property='B02', pkg='encoding/thriftbinary',
 edits=[(CB,'''	h.Name, err = thriftwire.ReadString(x.Reader, n)
	if err != nil {
		return h, err
	}
''','''	name, err := thriftwire.Next(x.Reader, n)
	if err != nil {
		return h, err
	}
	h.Name = string(name)
''')],
 needs='an old-style message header whose method name is longer than the read buffer', breaks='the non-strict binary reader refuses a message with a name longer than 4096 bytes',
 demo=test('thriftbinary',['bytes','strings','testing',G+'thriftbinary',G+'thriftwire'],'''	var buf bytes.Buffer
	h := thriftwire.MessageHeader{Name: strings.Repeat("n", 5000), Type: thriftwire.Call, ID: 7}
	w := thriftbinary.ProtocolNonStrict.NewWriter(&buf)
	w.WriteMessageBegin(h)
	w.Flush()
	r := thriftbinary.ProtocolNonStrict.NewReader(&buf)
	if got, err := r.ReadMessageBegin(); err != nil || got != h {
		t.Fatal(len(got.Name), got.Type, got.ID, err)
	}
'''))
seed(id='delta-byte', property='C01', pkg='encoding/thriftcompact',
 edits=[(CC,"""	if delta := opts.h.ID - opts.lastFieldID; delta > 0 && delta <= 15 {
		return append(buf, byte(delta<<4)|byte(t)), nil
""","""	if delta := uint8(opts.h.ID - opts.lastFieldID); delta > 0 && delta <= 15 {
		return append(buf, delta<<4|byte(t)), nil
""")],
 needs='a field ID of which the distance to the last one is 1 to 15 modulo 256', breaks='the compact writer uses the short form for a field ID 257 after the last one',
 demo=test('thriftcompact',['bytes','testing',G+'thriftcompact',G+'thriftwire'],"""	buf, err := thriftcompact.AppendFieldHeader(nil, thriftwire.FieldHeader{ID: 300, Type: thriftwire.I32}, false, 40)
	if err != nil || !bytes.Equal(buf, []byte{0x05, 0xd8, 0x04}) {
		t.Fatalf("% x %v", buf, err)
	}
"""))
seed(id='long-form-size', property='C02', pkg='encoding/thriftcompact',
 edits=[(CC,'''	h.Size = int(st >> 4)
	if h.Size == 15 {
		h.Size, err = readSize(b)
''','''	h.Size = int(st >> 4)
	for h.Size == 15 {
		h.Size, err = readSize(b)
''')],
 needs='a list or set of exactly 15 elements', breaks='the compact reader takes the first element of a container of 15 elements for its size',
 demo=test('thriftcompact',['bytes','testing',G+'thriftcompact'],'''	r := thriftcompact.Protocol.NewReader(bytes.NewReader([]byte{0xf3, 15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}))
	if h, err := r.ReadListBegin(); err != nil || h.Size != 15 {
		t.Fatal(h, err)
	}
'''))
seed(id='bool-header-error', property='W01', pkg='encoding/thriftcompact',
 edits=[(CC,'''		err := x.writeFieldHeader(x.boolField, v)
		if err != nil {
			return err
		}
		x.boolField.Type = thriftwire.Stop
		return nil
''','''		if err := x.writeFieldHeader(x.boolField, v); err == nil {
			x.boolField.Type = thriftwire.Stop
		}
		return nil
''')],
 needs='a failure of the underlying writer while the header of a boolean field is written', breaks='WriteBool returns nil although the field was not written',
 demo=test('thriftcompact',['errors','testing',G+'thriftcompact',G+'thriftwire'],'''	w := thriftcompact.Protocol.NewWriter(failing{})
	w.WriteStructBegin(thriftwire.StructHeader{})
	for i := 0; i < 5000; i++ {
		w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Bool, ID: int16(i + 1)})
		if err := w.WriteBool(true); err != nil {
			return
		}
		w.WriteFieldEnd()
	}
	t.Fatal("5000 fields were written to a failing writer")
''')+'''
type failing struct{}

func (failing) Write([]byte) (int, error) { return 0, errors.New("no") }
''')
seed(id='string-grow', property='W03', pkg='encoding/thriftwire',
 edits=[(CW,'''	var sb strings.Builder
	left := n
''','''	var sb strings.Builder
	sb.Grow(n) // n is known
	left := n
'''),(CW,'''		sb.Write(c)
		left -= len(c)
''','''		sb.Write(c)
		left = n - sb.Len()
''')],
 needs='a string whose announced size far exceeds the input', breaks='a few bytes of input make the reader allocate the announced size',
 demo=test('thriftwire',['bytes','runtime','testing',G+'thriftbinary'],'''	var a, b runtime.MemStats
	r := thriftbinary.Protocol.NewReader(bytes.NewReader([]byte{0x20, 0, 0, 0, 'x'}))
	runtime.ReadMemStats(&a)
	if _, err := r.ReadString(); err == nil {
		t.Fatal("no error")
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<24 {
		t.Fatalf("%d bytes allocated for 5 bytes of input", n)
	}
'''))
seed(id='map-size-wrap', property='W04', pkg='encoding/thriftbinary',
 edits=[(CB,'''	if err := x.writeType(h.Value); err != nil {
		return err
	}
	return x.writeSize(h.Size)
''','''	if err := x.writeType(h.Value); err != nil {
		return err
	}
	return x.WriteI32(int32(h.Size))
''')],
 needs='a map size of 2^31 or more', breaks='the binary writer writes the low 32 bits of a map size that does not fit',
 demo=test('thriftbinary',['io','testing',G+'thriftbinary',G+'thriftwire'],'''	w := thriftbinary.Protocol.NewWriter(io.Discard)
	if err := w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Byte, Value: thriftwire.Byte, Size: 1<<32 + 5}); err == nil {
		t.Fatal("accepted")
	}
'''))
seed(id='field-peek', property='W05', pkg='encoding/thriftcompact',
 edits=[(CC,'''	dt, err := x.ReadByte()
	if err != nil {
		return h, err
	}
	t := compactType(dt & 15)
''','''	buf, err := x.Peek(2) // the header and the first byte of the ID or the value
	if len(buf) == 0 {
		return h, err
	}
	dt := buf[0]
	_, _ = x.Discard(1)
	t := compactType(dt & 15)
''')],
 needs='a connection on which nothing follows the stop byte until the peer gets an answer', breaks='the compact reader waits for a byte after the stop field',
 demo=test('thriftcompact',['io','testing','time',G+'thriftcompact',G+'thriftwire'],'''	pr, pw := io.Pipe()
	go pw.Write([]byte{0})
	done := make(chan bool)
	go func() {
		r := thriftcompact.Protocol.NewReader(pr)
		r.ReadStructBegin()
		h, err := r.ReadFieldBegin()
		done <- err == nil && h.Type == thriftwire.Stop
	}()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("no stop field")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("blocks after the stop byte")
	}
'''))
seed(id='set-count-16', property='W06', pkg='encoding/thriftwire',
 edits=[(CS,'''		h, err := r.ReadSetBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
''','''		h, err := r.ReadSetBegin()
		if err != nil {
			return err
		}
		for n := uint16(h.Size); n > 0; n-- {
''')],
 needs='a set of more than 65535 elements', breaks='Skip leaves elements of large sets unread',
 demo=test('thriftwire',['bytes','testing',G+'thriftbinary',G+'thriftwire'],'''	data := append([]byte{byte(thriftwire.Byte), 0, 1, 0, 2}, make([]byte, 65538)...)
	data = append(data, 42)
	r := thriftbinary.Protocol.NewReader(bytes.NewReader(data))
	if err := thriftwire.Skip(r, thriftwire.Set); err != nil {
		t.Fatal(err)
	}
	if b, err := r.ReadByte(); err != nil || b != 42 {
		t.Fatal(b, err)
	}
'''))
seed(id='reset-bool', property='W08', pkg='encoding/thriftcompact',
 edits=[(CC,'''		Reader:       bufio.NewReader(r),
		lastFieldIDs: x.lastFieldIDs[:0],
	}
''','''		Reader:       bufio.NewReader(r),
		boolField:    x.boolField,
		lastFieldIDs: x.lastFieldIDs[:0:cap(x.lastFieldIDs)],
	}
''')],
 needs='a Reset between the header of a boolean field and its value', breaks='after Reset the compact reader returns a boolean of the previous input',
 demo=test('thriftcompact',['bytes','testing',G+'thriftcompact'],'''	r := thriftcompact.Protocol.NewReader(bytes.NewReader([]byte{0x11}))
	if _, err := r.ReadFieldBegin(); err != nil {
		t.Fatal(err)
	}
	r.Reset(bytes.NewReader([]byte{0}))
	if v, err := r.ReadBool(); err != nil || v {
		t.Fatal(v, err)
	}
'''))
seed(id='empty-list-type', property='W09', pkg='encoding/thriftcompact',
 edits=[(CC,"""	return AppendSetHeader(buf, thriftwire.SetHeader(h))
""","""	if h.Size != 0 {
		return AppendSetHeader(buf, thriftwire.SetHeader(h))
	}
	return append(buf, byte(_STOP)), nil
""")],
 needs='the exported AppendListHeader on an empty list', breaks='the element type of an empty list is lost',
 demo=test('thriftcompact',['testing',G+'thriftcompact',G+'thriftwire'],"""	buf, err := thriftcompact.AppendListHeader(nil, thriftwire.ListHeader{Element: thriftwire.Byte})
	if err != nil || len(buf) != 1 || buf[0] != 0x03 {
		t.Fatalf("% x %v", buf, err)
	}
"""))
seed(id='version-mask', property='W10', pkg='encoding/thriftcompact',
 edits=[(CC,'''	version := vt & 0x1f
''','''	version := vt & 0x0f
''')],
 needs='a message header of version 17', breaks='the compact reader accepts messages of another version',
 demo=test('thriftcompact',['bytes','testing',G+'thriftcompact'],'''	r := thriftcompact.Protocol.NewReader(bytes.NewReader([]byte{0x82, 0x31, 0, 0}))
	if h, err := r.ReadMessageBegin(); err == nil {
		t.Fatal(h)
	}
'''))
seed(id='short-double', property='W11', pkg='encoding/thriftcompact',
 edits=[(CC,'''	buf, err := thriftwire.Next(x.Reader, 8)
	if err != nil {
		return 0, err
	}
	return math.Float64frombits(binary.LittleEndian''','''	buf, err := thriftwire.Next(x.Reader, 8)
	if err == io.EOF || err == io.ErrUnexpectedEOF {
		return 0, err
	}
	return math.Float64frombits(binary.LittleEndian''')],
 needs='a read failure other than the end of the input while a double is read', breaks='the compact reader panics where the underlying reader fails within a double',
 demo=test('thriftcompact',['errors','testing','testing/iotest',G+'thriftcompact'],'''	r := thriftcompact.Protocol.NewReader(iotest.ErrReader(errors.New("no")))
	if _, err := r.ReadDouble(); err == nil {
		t.Fatal("no error")
	}
'''))
seed(id='nested-join', property='W12', pkg='encoding/thriftwire',
 edits=[(CP,'''	return joinedProtocol{r, w}
''','''	if p, ok := r.(joinedProtocol); ok {
		r = p.r
	}
	if p, ok := w.(joinedProtocol); ok {
		w = p.r
	}
	return joinedProtocol{r, w}
'''),(CP,'''type joinedProtocol struct{ r, w Protocol }
''','''type joinedProtocol struct {
	r, w Protocol // not joined themselves
}
''')],
 needs='a joined protocol joined again as the writing side', breaks='a nested join writes by the protocol it should only read by',
 demo=test('thriftwire',['bytes','testing',G+'thriftbinary',G+'thriftcompact',G+'thriftwire'],'''	in := thriftwire.JoinProtocol(thriftbinary.Protocol, thriftcompact.Protocol)
	p := thriftwire.JoinProtocol(thriftbinary.Protocol, in)
	var buf bytes.Buffer
	w := p.NewWriter(&buf)
	w.WriteI32(1)
	w.Flush()
	if buf.Len() != 1 {
		t.Fatalf("% x", buf.Bytes())
	}
'''))
