B='encoding/thriftbinary/thriftbinary.go'; C='encoding/thriftcompact/thriftcompact.go'; T='encoding/thriftcompact/types.go'
W='encoding/thriftwire/bufio.go'; V='encoding/thriftwire/varint.go'; K='encoding/thriftwire/skip.go'
def wr(n, put): return '	buf := x.buf[:%d]\n	binary.BigEndian.PutUint%d(buf, %s)\n	_, err := x.Write(buf)\n	return err' % (n, 8*n, put)
READSTR='''	var sb strings.Builder
	left := n
	for left > 0 {
		c, err := Next(b, min(left, b.Size()))
		sb.Write(c)
		left -= len(c)
		if err != nil {
			if left != n && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return sb.String(), err
		}
	}
	return sb.String(), nil'''
READBYTES='''	left := n
	for left > 0 {
		c, err := Next(b, min(left, b.Size()))
		buf = append(buf, c...)
		left -= len(c)
		if err != nil {
			if left != n && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return buf, err
		}
	}
	return buf, nil'''
FH='''	var t compactType
	if opts.h.Type == thriftwire.Bool {
		if opts.isTrue {
			t = _BOOLEAN_TRUE
		} else {
			t = _BOOLEAN_FALSE
		}
	} else {
		t, err = typeCompact(opts.h.Type)
		if err != nil {
			return buf, err
		}
	}
'''
MSG='''	n := int(v)
	if n < 0 {
		version := int64(n) & versionMask
		if version != version1 {
			return h, fmt.Errorf("thriftbinary: bad version %x", version)
		}
		h.Type = thriftwire.MessageType(n)
		h.Name, err = x.ReadString()
		if err != nil {
			return h, err
		}
		h.ID, err = x.ReadI32()
		return h, err
	} else if x.strict {
		return h, fmt.Errorf("thriftbinary: missing version")
	}
	h.Name, err = thriftwire.ReadString(x.Reader, n)
	if err != nil {
		return h, err
	}
	h.Type, err = x.readMessageType()
	if err != nil {
		return h, err
	}
	h.ID, err = x.ReadI32()
	return h, err
'''
SKIPSTRUCT='''		if _, err = r.ReadStructBegin(); err != nil {
			return err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return err
			}
			if h.Type == Stop {
				break
			}
			if err := skip(r, h.Type, depth); err != nil {
				return err
			}
			if err := r.ReadFieldEnd(); err != nil {
				return err
			}
		}
		return r.ReadStructEnd()
'''
def seqskip(k): return '''		h, err := r.Read%sBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := skip(r, h.Element, depth); err != nil {
				return err
			}
		}
		return r.Read%sEnd()
''' % (k, k)
MAPSKIP='''		h, err := r.ReadMapBegin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := skip(r, h.Key, depth); err != nil {
				return err
			}
			if err := skip(r, h.Value, depth); err != nil {
				return err
			}
		}
		return r.ReadMapEnd()
'''
SWTYPE=open('/repo/'+T).read(); SWTYPE=SWTYPE[SWTYPE.index('func typeCompact'):]
MUTANTS=[
('ok3-bin-put','ok','',[(B,wr(2,'uint16(v)'),'	binary.BigEndian.PutUint16(x.buf[:], uint16(v))\n	return x.put(2)'),(B,wr(4,'uint32(v)'),'	binary.BigEndian.PutUint32(x.buf[:], uint32(v))\n	return x.put(4)'),(B,wr(8,'uint64(v)'),'	binary.BigEndian.PutUint64(x.buf[:], uint64(v))\n	return x.put(8)'),(B,'func (x *writer) writeMessageType','// put writes the first n bytes of the scratch buffer.\nfunc (x *writer) put(n int) error {\n	_, err := x.Write(x.buf[:n])\n	return err\n}\n\nfunc (x *writer) writeMessageType')]),
('ok3-bin-double-i64','ok','',[(B,wr(8,'math.Float64bits(v)'),'	return x.WriteI64(int64(math.Float64bits(v)))'),(B,'	buf, err := thriftwire.Next(x.Reader, 8)\n	if err != nil {\n		return 0, err\n	}\n	return math.Float64frombits(binary.BigEndian.Uint64(buf)), nil','	v, err := x.ReadI64()\n	return math.Float64frombits(uint64(v)), err')]),
('ok3-bin-boolvar','ok','',[(B,'	if v {\n		return x.WriteByte(1)\n	}\n	return x.WriteByte(0)','	var b byte\n	if v {\n		b = 1\n	}\n	return x.WriteByte(b)')]),
('ok3-bin-boolswitch','ok','',[(B,'	v, err := x.ReadByte()\n	return v != 0, err\n','	switch v, err := x.ReadByte(); {\n	case err != nil:\n		return false, err\n	case v == 0:\n		return false, nil\n	default:\n		return true, nil\n	}\n')]),
('ok3-bin-shifts','ok','',[(B,'int16(binary.BigEndian.Uint16(buf))','int16(buf[0])<<8 | int16(buf[1])'),(B,'int32(binary.BigEndian.Uint32(buf))','int32(buf[0])<<24 | int32(buf[1])<<16 | int32(buf[2])<<8 | int32(buf[3])')]),
('ok3-bin-msg-split','ok','',[(B,MSG,'''	if v < 0 {
		return x.readVersioned(uint32(v))
	}
	if x.strict {
		return h, fmt.Errorf("thriftbinary: missing version")
	}
	return x.readUnversioned(int(v))
}

func (x *reader) readVersioned(v uint32) (h thriftwire.MessageHeader, err error) {
	if version := v & versionMask; version != version1 {
		return h, fmt.Errorf("thriftbinary: bad version %x", version)
	}
	h.Type = thriftwire.MessageType(v & 0xff)
	if h.Name, err = x.ReadString(); err != nil {
		return h, err
	}
	h.ID, err = x.ReadI32()
	return h, err
}

func (x *reader) readUnversioned(n int) (h thriftwire.MessageHeader, err error) {
	if h.Name, err = thriftwire.ReadString(x.Reader, n); err != nil {
		return h, err
	}
	if h.Type, err = x.readMessageType(); err != nil {
		return h, err
	}
	h.ID, err = x.ReadI32()
	return h, err
''')]),
('ok3-bin-msg-errchain','ok','',[(B,MSG,'''	if v >= 0 && x.strict {
		return h, fmt.Errorf("thriftbinary: missing version")
	}
	if v >= 0 {
		h.Name, err = thriftwire.ReadString(x.Reader, int(v))
		if err == nil {
			h.Type, err = x.readMessageType()
		}
	} else {
		if uint32(v)>>16 != version1>>16 {
			return h, fmt.Errorf("thriftbinary: bad version %x", uint32(v)&versionMask)
		}
		h.Type = thriftwire.MessageType(v)
		h.Name, err = x.ReadString()
	}
	if err == nil {
		h.ID, err = x.ReadI32()
	}
	return h, err
''')]),
('ok3-bin-wmsg','ok','',[(B,'''	if x.strict {
		if err := x.WriteI32(int32(uint32(h.Type) | version1)); err != nil {
			return err
		}
		if err := x.WriteString(h.Name); err != nil {
			return err
		}
		return x.WriteI32(h.ID)
	}
	if err := x.WriteString(h.Name); err != nil {
		return err
	}
	if err := x.writeMessageType(h.Type); err != nil {
		return err
	}
	return x.WriteI32(h.ID)''','''	if x.strict {
		v := uint32(version1) + uint32(h.Type)
		if err := x.WriteI32(int32(v)); err != nil {
			return err
		}
	}
	if err := x.WriteString(h.Name); err != nil {
		return err
	}
	if !x.strict {
		if err := x.writeMessageType(h.Type); err != nil {
			return err
		}
	}
	return x.WriteI32(h.ID)''')]),
('ok3-bin-types2','ok','',[(B,'''	h.Key, err = x.readType()
	if err != nil {
		return h, err
	}
	h.Value, err = x.readType()
	if err != nil {
		return h, err
	}
	h.Size, err = x.readSize()
	return h, err''','''	for _, t := range []*thriftwire.Type{&h.Key, &h.Value} {
		if *t, err = x.readType(); err != nil {
			return h, err
		}
	}
	h.Size, err = x.readSize()
	return h, err''')]),
('ok3-bin-types-next','ok','',[(B,'''	h.Key, err = x.readType()
	if err != nil {
		return h, err
	}
	h.Value, err = x.readType()
	if err != nil {
		return h, err
	}
	h.Size, err = x.readSize()
	return h, err''','''	kv, err := thriftwire.Next(x.Reader, 2)
	if err != nil {
		return h, err
	}
	h.Key, h.Value = thriftwire.Type(kv[0]), thriftwire.Type(kv[1])
	h.Size, err = x.readSize()
	return h, err''')]),
('ok3-bin-field-switch','ok','',[(B,'''	h.Type, err = x.readType()
	if err != nil || h.Type == thriftwire.Stop {
		return h, err
	}
	h.ID, err = x.ReadI16()
	return h, err''','''	switch h.Type, err = x.readType(); {
	case err != nil:
	case h.Type != thriftwire.Stop:
		h.ID, err = x.ReadI16()
	}
	return''')]),
('ok3-bin-size-uint','ok','',[(B,'	if v < 0 || v > math.MaxInt32 {','	if uint(v) > math.MaxInt32 {')]),
('ok3-bin-rsize','ok','',[(B,'	if v < 0 {\n		return 0, fmt.Errorf("thriftbinary: negative size %d", v)\n	}\n	return int(v), nil','	if n := int(v); n >= 0 {\n		return n, nil\n	}\n	return 0, fmt.Errorf("thriftbinary: negative size %d", v)')]),
('ok3-bin-flush','ok','',[(B,'	if err := x.Writer.Flush(); err != nil {\n		return err\n	}\n	return thriftwire.Flush(x.w)','	err := x.Writer.Flush()\n	if err == nil {\n		err = thriftwire.Flush(x.w)\n	}\n	return err')]),
('ok3-bin-flush-inline','ok','',[(B,'	return thriftwire.Flush(x.w)','	if f, ok := x.w.(thriftwire.Flusher); ok {\n		return f.Flush()\n	}\n	return nil')]),
('ok3-bin-uuid-next','ok','',[(B,'	_, err := io.ReadFull(x.Reader, v[:])\n	return err','	buf, err := thriftwire.Next(x.Reader, len(v))\n	copy(v[:], buf)\n	return err')]),
('ok3-bin-string-bytes','ok','',[(B,'	_, err := x.Writer.WriteString(v)\n	return err','	_, err := io.WriteString(x.Writer, v)\n	return err')]),
('ok3-bin-string-viabytes','ok','',[(B,'	if err := x.writeSize(len(v)); err != nil {\n		return err\n	}\n	_, err := x.Writer.WriteString(v)\n	return err','	return x.WriteBytes([]byte(v))')]),
('ok3-bin-reset-new','ok','',[(B,'''	if x.w == io.Writer(x.Writer) {
		x.Writer = bufio.NewWriter(w) // x.Writer is a bufio.Writer of the caller
	} else {
		x.Writer.Reset(w)
	}
	x.w = w''','''	*x = writer{Writer: bufio.NewWriter(w), w: w, strict: x.strict}''')]),
('ok3-bin-list-fields','ok','',[(B,'	return x.WriteSetBegin(thriftwire.SetHeader(h))','	return x.writeSeqBegin(h.Element, h.Size)'),(B,'''	if err := x.writeType(h.Element); err != nil {
		return err
	}
	return x.writeSize(h.Size)
}
''','''	return x.writeSeqBegin(h.Element, h.Size)
}

func (x *writer) writeSeqBegin(t thriftwire.Type, n int) error {
	if err := x.writeType(t); err != nil {
		return err
	}
	return x.writeSize(n)
}
''')]),
# compact
('ok3-cmp-varint-own','ok','',[(C,'	return binary.ReadVarint(x.Reader)','	ux, err := x.readUvarint()\n	v := int64(ux >> 1)\n	if ux&1 != 0 {\n		v = ^v\n	}\n	return v, err')]),
('ok3-cmp-varint-wire','ok','',[(C,'	return binary.ReadVarint(x.Reader)','	return thriftwire.ReadVarint(x.Reader)')]),
('ok3-cmp-zigzag-xor','ok','',[(C,'	buf := x.buf[:]\n	n := binary.PutVarint(buf, v)\n	_, err := x.Write(buf[:n])\n	return err','	return x.writeUvarint(uint64(v<<1) ^ uint64(v>>63))')]),
('ok3-cmp-append','ok','',[(C,'	buf := x.buf[:]\n	n := binary.PutVarint(buf, v)\n	_, err := x.Write(buf[:n])\n	return err','	_, err := x.Write(binary.AppendVarint(x.buf[:0], v))\n	return err')]),
('ok3-cmp-fieldtype','ok','',[(C,FH,'	t, err := fieldType(opts.h.Type, opts.isTrue)\n	if err != nil {\n		return buf, err\n	}\n'),(C,'// AppendFieldHeader appends h','func fieldType(t thriftwire.Type, isTrue bool) (compactType, error) {\n	if t == thriftwire.Bool && isTrue {\n		return _BOOLEAN_TRUE, nil\n	}\n	return typeCompact(t)\n}\n\n// AppendFieldHeader appends h')]),
('ok3-cmp-delta-int','ok','',[(C,'	if delta := opts.h.ID - opts.lastFieldID; delta > 0 && delta <= 15 {','	if delta := int(opts.h.ID) - int(opts.lastFieldID); delta >= 1 && delta < 16 {')]),
('ok3-cmp-delta-inv','ok','',[(C,'''	if delta := opts.h.ID - opts.lastFieldID; delta > 0 && delta <= 15 {
		return append(buf, byte(delta<<4)|byte(t)), nil
	}
	buf = append(buf, byte(t))
	buf = appendI16(buf, opts.h.ID)
	return buf, nil''','''	delta := opts.h.ID - opts.lastFieldID
	if delta <= 0 || delta > 15 {
		return appendI16(append(buf, byte(t)), opts.h.ID), nil
	}
	return append(buf, byte(t)|byte(delta)<<4), nil''')]),
('ok3-cmp-set-inv','ok','',[(C,'''	if h.Size >= 0 && h.Size < 15 {
		return append(buf, byte(h.Size<<4)|byte(e)), nil
	}
	if err := checkSize(h.Size); err != nil {
		return buf, err
	}
	buf = append(buf, 0xf0|byte(e))
	buf = appendSize(buf, h.Size)
	return buf, nil''','''	if err := checkSize(h.Size); err != nil {
		return buf, err
	}
	if h.Size > 14 {
		return appendSize(append(buf, 15<<4|byte(e)), h.Size), nil
	}
	return append(buf, byte(h.Size)<<4+byte(e)), nil''')]),
('ok3-cmp-map-order','ok','',[(C,'''	k, err := typeCompact(h.Key)
	if err != nil {
		return buf, err
	}
	v, err := typeCompact(h.Value)
	if err != nil {
		return buf, err
	}
	if err := checkSize(h.Size); err != nil {
		return buf, err
	}
	buf = appendSize(buf, h.Size)
	buf = append(buf, byte(k<<4)|byte(v))
	return buf, nil''','''	if err := checkSize(h.Size); err != nil {
		return buf, err
	}
	k, kerr := typeCompact(h.Key)
	v, verr := typeCompact(h.Value)
	if kerr != nil {
		return buf, kerr
	}
	if verr != nil {
		return buf, verr
	}
	return append(appendSize(buf, h.Size), byte(k)<<4|byte(v)), nil''')]),
('ok3-cmp-wbool-take','ok','',[(C,'''	if x.boolField.Type != thriftwire.Stop {
		err := x.writeFieldHeader(x.boolField, v)
		if err != nil {
			return err
		}
		x.boolField.Type = thriftwire.Stop
		return nil
	}
	if v {
		return x.WriteByte(1)
	}
	return x.WriteByte(0)''','''	if h := x.boolField; h.Type != thriftwire.Stop {
		if err := x.writeFieldHeader(h, v); err != nil {
			return err
		}
		x.boolField = thriftwire.FieldHeader{}
		return nil
	}
	var b byte
	if v {
		b++
	}
	return x.WriteByte(b)''')]),
('ok3-cmp-wbool-flag','ok','',[(C,'	boolField    thriftwire.FieldHeader\n','	boolField    thriftwire.FieldHeader\n	hasBool      bool\n'),(C,'		x.boolField = h\n		return nil\n','		x.boolField, x.hasBool = h, true\n		return nil\n'),(C,'	if x.boolField.Type != thriftwire.Stop {','	if x.hasBool {'),(C,'		x.boolField.Type = thriftwire.Stop\n','		x.hasBool = false\n')]),
('ok3-cmp-rbool-two','ok','',[(C,'	boolField    boolField\n}','	hasBool      bool\n	boolValue    bool\n}'),(C,'	x.boolField.set(t)\n','	if t == _BOOLEAN_TRUE || t == _BOOLEAN_FALSE {\n		x.hasBool, x.boolValue = true, t == _BOOLEAN_TRUE\n	}\n'),(C,'	if x.boolField != boolNone {\n		v := x.boolField == boolTrue\n		x.boolField = boolNone\n		return v, nil\n	}','	if x.hasBool {\n		x.hasBool = false\n		return x.boolValue, nil\n	}'),(C,'func (f *boolField) set(t compactType) {\n	switch t {\n	case _BOOLEAN_TRUE:\n		*f = boolTrue\n	case _BOOLEAN_FALSE:\n		*f = boolFalse\n	}\n}\n',''),(C,'type boolField byte\n\nconst (\n	boolNone boolField = iota\n	boolTrue\n	boolFalse\n)\n','')]),
('ok3-cmp-rbool-switch','ok','',[(C,'	if x.boolField != boolNone {\n		v := x.boolField == boolTrue\n		x.boolField = boolNone\n		return v, nil\n	}\n	v, err := x.ReadByte()\n	return v != 0, err','	f := x.boolField\n	x.boolField = boolNone\n	switch f {\n	case boolTrue:\n		return true, nil\n	case boolFalse:\n		return false, nil\n	}\n	v, err := x.ReadByte()\n	return v != 0, err')]),
('ok3-cmp-stackgen','ok','',[(C,'	lastFieldIDs []int16\n	lastFieldID  int16\n	boolField    boolField\n','	stack\n	boolField boolField\n'),(C,'	lastFieldIDs []int16\n	lastFieldID  int16\n	boolField    thriftwire.FieldHeader\n','	stack\n	boolField thriftwire.FieldHeader\n'),
 (C,'''	x.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)
	x.lastFieldID = 0
	return h, nil''','''	x.push()
	return h, nil'''),(C,'''	x.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)
	x.lastFieldID = 0
	return nil''','''	x.push()
	return nil'''),
 (C,'''	if len(x.lastFieldIDs) == 0 {
		return fmt.Errorf("thriftcompact: ReadStructEnd called without matching ReadStructBegin")
	}
	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]
	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]
	return nil''','''	if !x.pop() {
		return fmt.Errorf("thriftcompact: ReadStructEnd called without matching ReadStructBegin")
	}
	return nil'''),
 (C,'''	if len(x.lastFieldIDs) == 0 {
		return fmt.Errorf("thriftcompact: WriteStructEnd called without matching WriteStructBegin")
	}
	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]
	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]
	return x''','''	if !x.pop() {
		return fmt.Errorf("thriftcompact: WriteStructEnd called without matching WriteStructBegin")
	}
	return x'''),
 (C,'		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],\n','		Reader: bufio.NewReader(r),\n		stack:  stack{lastFieldIDs: x.lastFieldIDs[:0]},\n'),
 (C,'		Writer:       bw,\n		uw:           uw,\n		lastFieldIDs: x.lastFieldIDs[:0],\n','		Writer: bw,\n		uw:     uw,\n		stack:  stack{lastFieldIDs: x.lastFieldIDs[:0]},\n'),
 (C,'type boolField byte\n','''// stack tracks the last field ID of the struct being coded and of those around it.
type stack struct {
	lastFieldIDs []int16
	lastFieldID  int16
}

func (s *stack) push() {
	s.lastFieldIDs = append(s.lastFieldIDs, s.lastFieldID)
	s.lastFieldID = 0
}

func (s *stack) pop() bool {
	n := len(s.lastFieldIDs)
	if n == 0 {
		return false
	}
	s.lastFieldID, s.lastFieldIDs = s.lastFieldIDs[n-1], s.lastFieldIDs[:n-1]
	return true
}

type boolField byte
''')]),
('ok3-cmp-topstack','ok','',[(C,'	lastFieldIDs []int16\n	lastFieldID  int16\n	boolField    boolField\n','	ids       []int16 // last field IDs, that of the innermost struct last\n	boolField boolField\n'),
 (C,'''	x.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)
	x.lastFieldID = 0
	return h, nil''','''	x.ids = append(x.ids, 0)
	return h, nil'''),
 (C,'''	if len(x.lastFieldIDs) == 0 {
		return fmt.Errorf("thriftcompact: ReadStructEnd called without matching ReadStructBegin")
	}
	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]
	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]
	return nil''','''	if len(x.ids) == 0 {
		return fmt.Errorf("thriftcompact: ReadStructEnd called without matching ReadStructBegin")
	}
	x.ids = x.ids[:len(x.ids)-1]
	return nil'''),
 (C,'		h.ID = x.lastFieldID + modifier\n	}\n	x.lastFieldID = h.ID\n','		h.ID = modifier\n		if len(x.ids) > 0 {\n			h.ID += x.ids[len(x.ids)-1]\n		}\n	}\n	if len(x.ids) > 0 {\n		x.ids[len(x.ids)-1] = h.ID\n	}\n'),
 (C,'		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],\n','		Reader: bufio.NewReader(r),\n		ids:    x.ids[:0],\n')]),
('ok3-cmp-nogeneric','ok','',[(C,'	opts := appendFieldHeaderOptions{h, isTrue, x.lastFieldID}\n	if err := appendWrite(x, MaxFieldHeaderSize, appendFieldHeader, opts); err != nil {\n		return err\n	}','	if err := x.appendWrite(MaxFieldHeaderSize, func(buf []byte) ([]byte, error) {\n		return AppendFieldHeader(buf, h, isTrue, x.lastFieldID)\n	}); err != nil {\n		return err\n	}'),
 (C,'appendWrite(x, MaxMapHeaderSize, AppendMapHeader, h)','x.appendWrite(MaxMapHeaderSize, func(buf []byte) ([]byte, error) { return AppendMapHeader(buf, h) })'),
 (C,'appendWrite(x, MaxSetHeaderSize, AppendSetHeader, h)','x.appendWrite(MaxSetHeaderSize, func(buf []byte) ([]byte, error) { return AppendSetHeader(buf, h) })'),
 (C,'func appendWrite[IN any](x *writer, max int, f func([]byte, IN) ([]byte, error), in IN) error {','func (x *writer) appendWrite(max int, f func([]byte) ([]byte, error)) error {'),(C,'	buf, err := f(buf, in)','	buf, err := f(buf)')]),
('ok3-cmp-avail-inline','ok','',[(C,'	if err := x.ensureAvailable(max); err != nil {\n		return err\n	}\n	buf := x.AvailableBuffer()\n	buf, err := f(buf, in)\n','	if x.Available() < max {\n		if err := x.Writer.Flush(); err != nil {\n			return err\n		}\n	}\n	buf, err := f(x.AvailableBuffer(), in)\n'),(C,'func (x *writer) ensureAvailable(n int) error {\n	if x.Available() >= n {\n		return nil\n	}\n	return x.Writer.Flush()\n}\n','')]),
('ok3-cmp-noflush','ok','',[(C,'	if err := x.ensureAvailable(max); err != nil {\n		return err\n	}\n	buf := x.AvailableBuffer()\n','	buf := make([]byte, 0, max)\n'),(C,'func (x *writer) ensureAvailable(n int) error {\n	if x.Available() >= n {\n		return nil\n	}\n	return x.Writer.Flush()\n}\n','')]),
('ok3-cmp-msg-next','ok','',[(C,'''	p, err := x.ReadByte()
	if err != nil {
		return h, err
	}
	if p != protocolID {
		return h, fmt.Errorf("thriftcompact: bad protocol ID %x", p)
	}
	vt, err := x.ReadByte()
	if err != nil {
		return h, err
	}
	version := vt & 0x1f
	if version != version1 {
		return h, fmt.Errorf("thriftcompact: bad version %d", version)
	}
''','''	buf, err := thriftwire.Next(x.Reader, 2)
	if err != nil {
		return h, err
	}
	p, vt := buf[0], buf[1]
	switch version := vt & 0x1f; {
	case p != protocolID:
		return h, fmt.Errorf("thriftcompact: bad protocol ID %x", p)
	case version != version1:
		return h, fmt.Errorf("thriftcompact: bad version %d", version)
	}
''')]),
('ok3-cmp-wmsg','ok','',[(C,'''	err = x.WriteByte(protocolID)
	if err != nil {
		return err
	}
	err = x.WriteByte(version1 | byte(h.Type)<<5)
	if err != nil {
		return err
	}
	err = x.writeUvarint(uint64(uint32(h.ID)))
	if err != nil {
		return err
	}
	return x.WriteString(h.Name)''','''	buf := append(x.buf[:0], protocolID, byte(h.Type)<<5|version1)
	buf = binary.AppendUvarint(buf, uint64(uint32(h.ID)))
	if _, err := x.Write(buf); err != nil {
		return err
	}
	return x.WriteString(h.Name)''')]),
('ok3-cmp-rsize','ok','',[(C,'	if v > math.MaxInt32 {\n		return 0, fmt.Errorf("thriftcompact: size %d out of range", v)\n	}\n	return int(v), nil','	n := int(v)\n	if err := checkSize(n); err != nil {\n		return 0, err\n	}\n	return n, nil')]),
('ok3-cmp-set-shift','ok','',[(C,'''	h.Element, err = compactType(st & 15).wire()
	if err != nil {
		return h, err
	}
	h.Size = int(st >> 4)
	if h.Size == 15 {
		h.Size, err = readSize(b)
		if err != nil {
			return h, err
		}
	}
	return h, nil''','''	if h.Element, err = compactType(st % 16).wire(); err != nil {
		return h, err
	}
	if n := st >> 4; n < 15 {
		h.Size = int(n)
		return h, nil
	}
	h.Size, err = readSize(b)
	return h, err''')]),
('ok3-cmp-arrays','ok','',[(T,SWTYPE,'''var compactTypes = [...]compactType{
	thriftwire.Bool:   _BOOLEAN_FALSE,
	thriftwire.Byte:   _I8,
	thriftwire.I16:    _I16,
	thriftwire.I32:    _I32,
	thriftwire.I64:    _I64,
	thriftwire.Double: _DOUBLE,
	thriftwire.String: _BINARY,
	thriftwire.List:   _LIST,
	thriftwire.Set:    _SET,
	thriftwire.Map:    _MAP,
	thriftwire.Struct: _STRUCT,
	thriftwire.UUID:   _UUID,
}

func typeCompact(t thriftwire.Type) (compactType, error) {
	if int(t) < len(compactTypes) {
		if c := compactTypes[t]; c != _STOP {
			return c, nil
		}
	}
	return _STOP, thriftwire.InvalidTypeError(t)
}

var wireTypes = [...]thriftwire.Type{
	thriftwire.Stop, thriftwire.Bool, thriftwire.Bool, thriftwire.Byte, thriftwire.I16, thriftwire.I32, thriftwire.I64,
	thriftwire.Double, thriftwire.String, thriftwire.List, thriftwire.Set, thriftwire.Map, thriftwire.Struct, thriftwire.UUID,
}

func (t compactType) wire() (thriftwire.Type, error) {
	if int(t) >= len(wireTypes) {
		return thriftwire.Stop, invalidCompactTypeError(t)
	}
	return wireTypes[t], nil
}
''')]),
# wire
('ok3-next-noerr','ok','',[(W,'''	buf, err := b.Peek(n)
	_, _ = b.Discard(len(buf))
	if len(buf) == n {
		err = nil
	} else if len(buf) > 0 && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return buf, err''','''	buf, err := b.Peek(n)
	b.Discard(len(buf))
	switch {
	case len(buf) == n:
		return buf, nil
	case len(buf) != 0 && err == io.EOF:
		return buf, io.ErrUnexpectedEOF
	default:
		return buf, err
	}''')]),
('ok3-readbytes-append','ok','',[(W,READBYTES,'''	for left := n; left > 0; {
		c, err := Next(b, min(left, b.Size()))
		buf = append(buf, c...)
		left -= len(c)
		switch {
		case err == nil:
		case err == io.EOF && left < n:
			return buf, io.ErrUnexpectedEOF
		default:
			return buf, err
		}
	}
	return buf, nil''')]),
('ok3-read-chunks','ok','',[(W,READBYTES,'''	err := chunks(b, n, func(c []byte) { buf = append(buf, c...) })
	return buf, err'''),(W,READSTR,'''	var sb strings.Builder
	err := chunks(b, n, func(c []byte) { sb.Write(c) })
	return sb.String(), err'''),(W,'// ReadString reads','''func chunks(b *bufio.Reader, n int, f func([]byte)) error {
	left := n
	for left > 0 {
		c, err := Next(b, min(left, b.Size()))
		f(c)
		left -= len(c)
		if err != nil {
			if left != n && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return err
		}
	}
	return nil
}

// ReadString reads''')]),
('ok3-readbytes-full','ok','',[(W,READBYTES,'''	for read := 0; read < n; {
		k := min(n-read, b.Size())
		buf = slices.Grow(buf, k)
		m, err := io.ReadFull(b, buf[len(buf):len(buf)+k])
		buf = buf[:len(buf)+m]
		if err != nil {
			if read > 0 && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return buf, err
		}
		read += k
	}
	return buf, nil'''),(W,'	"io"\n','	"io"\n	"slices"\n')]),
('ok3-uvarint-buffered','ok','',[(V,'''	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
		if x, n := binary.Uvarint(buf); n > 0 {
			_, err := b.Discard(n)
			return x, err
		}
	}
	return binary.ReadUvarint(b)''','''	if n := min(b.Buffered(), binary.MaxVarintLen64); n > 0 {
		buf, _ := b.Peek(n)
		x, k := binary.Uvarint(buf)
		if k > 0 {
			_, err := b.Discard(k)
			return x, err
		}
	}
	return binary.ReadUvarint(b)''')]),
('ok3-uvarint-simple','ok','',[(V,'''	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
		if x, n := binary.Uvarint(buf); n > 0 {
			_, err := b.Discard(n)
			return x, err
		}
	}
	return binary.ReadUvarint(b)''','''	return binary.ReadUvarint(b)''')]),
('ok3-skip-n','ok','',[(K,MAPSKIP,'''		h, err := r.ReadMapBegin()
		if err != nil {
			return err
		}
		if err := skipN(r, h.Size, depth, h.Key, h.Value); err != nil {
			return err
		}
		return r.ReadMapEnd()
'''),(K,seqskip('Set'),'''		h, err := r.ReadSetBegin()
		if err != nil {
			return err
		}
		if err := skipN(r, h.Size, depth, h.Element); err != nil {
			return err
		}
		return r.ReadSetEnd()
'''),(K,seqskip('List'),'''		h, err := r.ReadListBegin()
		if err != nil {
			return err
		}
		if err := skipN(r, h.Size, depth, h.Element); err != nil {
			return err
		}
		return r.ReadListEnd()
'''),(K,'func skip(r Reader','''// skipN skips n times values of the types ts.
func skipN(r Reader, n, depth int, ts ...Type) error {
	for ; n > 0; n-- {
		for _, t := range ts {
			if err := skip(r, t, depth); err != nil {
				return err
			}
		}
	}
	return nil
}

func skip(r Reader''')]),
('ok3-skip-funcs','ok','',[(K,SKIPSTRUCT,'		return skipStruct(r, depth)\n'),(K,MAPSKIP,'		return skipMap(r, depth)\n'),(K,'func skip(r Reader','func skipStruct(r Reader, depth int) error {\n	if _, err := r.ReadStructBegin(); err != nil {\n		return err\n	}\n	for {\n		more, err := skipField(r, depth)\n		if err != nil {\n			return err\n		}\n		if !more {\n			return r.ReadStructEnd()\n		}\n	}\n}\n\nfunc skipField(r Reader, depth int) (more bool, err error) {\n	h, err := r.ReadFieldBegin()\n	if err != nil || h.Type == Stop {\n		return false, err\n	}\n	if err := skip(r, h.Type, depth); err != nil {\n		return false, err\n	}\n	return true, r.ReadFieldEnd()\n}\n\nfunc skipMap(r Reader, depth int) error {\n	h, err := r.ReadMapBegin()\n	for i := 0; err == nil && i < h.Size; i++ {\n		if err = skip(r, h.Key, depth); err == nil {\n			err = skip(r, h.Value, depth)\n		}\n	}\n	if err != nil {\n		return err\n	}\n	return r.ReadMapEnd()\n}\n\nfunc skip(r Reader')]),
('ok3-skip-range','ok','',[(K,seqskip('Set'),seqskip('Set').replace('for i := 0; i < h.Size; i++','for left := h.Size; left > 0; left--'))]),
('ok3-skip-setlist','ok','',[(K,'	case Set:\n'+seqskip('Set')+'	case List:\n'+seqskip('List'),'''	case Set, List:
		begin, end := r.ReadListBegin, r.ReadListEnd
		if t == Set {
			begin = func() (ListHeader, error) {
				h, err := r.ReadSetBegin()
				return ListHeader(h), err
			}
			end = r.ReadSetEnd
		}
		h, err := begin()
		if err != nil {
			return err
		}
		for i := 0; i < h.Size; i++ {
			if err := skip(r, h.Element, depth); err != nil {
				return err
			}
		}
		return end()
''')]),
('ok3-skip-while','ok','',[(K,SKIPSTRUCT,'''		if _, err = r.ReadStructBegin(); err != nil {
			return err
		}
		h, err := r.ReadFieldBegin()
		for err == nil && h.Type != Stop {
			if err = skip(r, h.Type, depth); err != nil {
				return err
			}
			if err = r.ReadFieldEnd(); err != nil {
				return err
			}
			h, err = r.ReadFieldBegin()
		}
		if err != nil {
			return err
		}
		return r.ReadStructEnd()
''')]),
]
