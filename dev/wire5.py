B='encoding/thriftbinary/thriftbinary.go'; C='encoding/thriftcompact/thriftcompact.go'; T='encoding/thriftcompact/types.go'
W='encoding/thriftwire/bufio.go'; V='encoding/thriftwire/varint.go'; K='encoding/thriftwire/skip.go'
src=open('/repo/'+V).read()
MUTANTS=[
('reset-stack','bug','W08',[(C,'		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],','		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs,')]),
('skip-map0','bug','W06',[(K,'		h, err := r.ReadMapBegin()\n		if err != nil {\n			return err\n		}','		h, err := r.ReadMapBegin()\n		if err != nil || h.Size == 0 {\n			return err\n		}')]),
('flush-buffered','bug','W07',[(C,'	if err := x.Writer.Flush(); err != nil {\n		return err\n	}\n	return thriftwire','	if x.Buffered() == 0 {\n		return nil\n	}\n	if err := x.Writer.Flush(); err != nil {\n		return err\n	}\n	return thriftwire')]),
('reset-uw','bug','W08',[(C,'		Writer:       bw,\n		uw:           uw,\n		lastFieldIDs','		Writer:       bw,\n		uw:           x.uw,\n		lastFieldIDs')]),
('boolfield-id','bug','C03',[(C,'	if x.boolField.Type != thriftwire.Stop {','	if x.boolField.ID != 0 {'),(C,'		x.boolField.Type = thriftwire.Stop\n','		x.boolField.ID = 0\n')]),
('set-eof','bug','W02',[(C,'		h.Size, err = readSize(b)\n		if err != nil {','		h.Size, err = readSize(b)\n		if err != nil && err != io.EOF {')]),
('uvarint-32','ok','',[(V,src.count('x') and 'if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {\n		if x, n := binary.Uvarint','if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen32)); len(buf) > 0 {\n		if x, n := binary.Uvarint')]),
('skip-uuid-15','bug','W06',[(C,'	_, err := x.Discard(16)\n	return err','	_, err := x.Discard(16)\n	if err == io.ErrUnexpectedEOF {\n		return nil\n	}\n	return err'),]),
('skipstr-part','bug','W02',[(C,'	_, err = x.Discard(n)\n	return err','	if m, err := x.Discard(n); m == 0 {\n		return err\n	}\n	return nil')]),
('bool-err-none','bug','C03',[(C,'		err := x.writeFieldHeader(x.boolField, v)\n		if err != nil {\n			return err\n		}\n		x.boolField.Type = thriftwire.Stop\n		return nil','		defer func() { x.boolField = thriftwire.FieldHeader{} }()\n		return x.writeFieldHeader(x.boolField, v)'),]),
('list-int8','bug','C01',[(C,'	if h.Size >= 0 && h.Size < 15 {','	if n := int8(h.Size); n >= 0 && n < 15 {')]),
('wfield-16','bug','C03',[(C,'	if h.Type == thriftwire.Bool {\n		x.boolField = h\n		return nil\n	}','	if h.Type == thriftwire.Bool {\n		x.boolField = h\n		x.lastFieldID = h.ID - 1\n		return nil\n	}')]),
('structend-pop','bug','C04',[(C,'	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]\n	return nil\n}\n\nfunc (x *reader) ReadFieldBegin','	if len(x.lastFieldIDs) > 1 {\n		x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]\n	}\n	return nil\n}\n\nfunc (x *reader) ReadFieldBegin')]),
('msg-name-first','bug','C02',[(C,'	version := vt & 0x1f\n','	version := vt & 0x0f\n')]),
]
