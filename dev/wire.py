B='encoding/thriftbinary/thriftbinary.go'; C='encoding/thriftcompact/thriftcompact.go'; T='encoding/thriftcompact/types.go'; W='encoding/thriftwire/bufio.go'; V='encoding/thriftwire/varint.go'; S='encoding/thriftwire/skip.go'
MUTANTS=[
('bin-i16-le','bug','B01',[(B,'binary.BigEndian.PutUint16(buf, uint16(v))','binary.LittleEndian.PutUint16(buf, uint16(v))')]),
('bin-bool-2','bug','B01',[(B,'return x.WriteByte(1)','return x.WriteByte(2)')]),
('bin-type-sign','bug','B01',[(B,'int32(uint32(h.Type) | version1)','int32(uint32(int32(h.Type)<<1) | version1)')]),
('bin-i32-16','bug','B02',[(B,'return int32(binary.BigEndian.Uint32(buf)), nil','return int32(int16(binary.BigEndian.Uint32(buf))), nil')]),
('bin-skip-short','bug','B02',[(B,'_, err := x.Discard(16)','_, err := x.Discard(15)')]),
('bin-strict-missing','bug','B02',[(B,'} else if x.strict {','} else if x.strict && n > 1<<20 {')]),
('bin-flush-swallow','bug','',[(B,'if err := x.Writer.Flush(); err != nil {\n\t\treturn err\n\t}','x.Writer.Flush()')]),
('bin-flush-nounder','bug','',[(B,'return thriftwire.Flush(x.w)','return nil')]),
('bin-size-noneg','bug','',[(B,'if v < 0 {\n\t\treturn 0, fmt','if v < -1 {\n\t\treturn 0, fmt')]),
('bin-wsize','bug','',[(B,'if v < 0 || v > math.MaxInt32','if v < 0 || v > math.MaxUint32')]),
('bin-nonstrict-err','bug','',[(B,'if err := x.writeMessageType(h.Type); err != nil {\n\t\treturn err\n\t}\n','x.writeMessageType(h.Type)\n')]),
('bin-version-type-hi','bug','',[(B,'h.Type = thriftwire.MessageType(n)','h.Type = thriftwire.MessageType(n & 3)')]),
('bin-reset-keepold','bug','',[(B,'\tx.w = w\n','')]),
('next-eof','bug','',[(W,'} else if len(buf) > 0 && err == io.EOF {\n\t\terr = io.ErrUnexpectedEOF\n\t}\n\treturn buf, err','}\n\tif len(buf) > 0 && err == io.EOF {\n\t\terr = nil\n\t}\n\treturn buf, err')]),
('readstring-chunk','bug','',[(W,'sb.Write(c)\n','if len(c) > 16 {\n\t\t\tsb.Write(c[:len(c)-1])\n\t\t} else {\n\t\t\tsb.Write(c)\n\t\t}\n')]),
('readstring-big','bug','',[(W,'sb.Write(c)\n\t\tleft -= len(c)','sb.Write(c[:min(len(c), left-1)])\n\t\tleft -= len(c)')]),
('readbytes-loses','bug','',[(W,'buf = append(buf, c...)\n\t\tleft','buf = append(buf[:len(buf):len(buf)], c...)\n\t\tif left > 1<<20 {\n\t\t\tbuf = append([]byte(nil), c...)\n\t\t}\n\t\tleft')]),
('readbytes-alloc','bug','',[(W,'	left := n\n	for left > 0 {\n		c, err := Next(b, min(left, b.Size()))\n		buf =','	left := n\n	buf = append(make([]byte, 0, len(buf)+n), buf...)\n	for left > 0 {\n		c, err := Next(b, min(left, b.Size()))\n		buf =')]),
('readstring-exact','bug','',[(W,'if b.Size() >= n {\n\t\tc, err := Next(b, n)\n\t\treturn string(c), err','if b.Size() > n-1 {\n\t\tc, err := Next(b, n+1)\n\t\treturn string(c[:min(n, len(c))]), err')]),
('readstring-overread','bug','',[(W,'c, err := Next(b, min(left, b.Size()))\n\t\tsb.Write','c, err := Next(b, b.Size())\n\t\tc = c[:min(left, len(c))]\n\t\tsb.Write')]),
('varint-overread','bug','',[(V,'min(b.Buffered(), ','min(10, ')]),
('compact-delta16','bug','',[(C,'delta > 0 && delta <= 15','delta > 0 && delta < 15')]),
('compact-delta0','bug','',[(C,'delta > 0 && delta <= 15','delta >= 0 && delta <= 15')]),
('compact-delta17','bug','',[(C,'delta > 0 && delta <= 15','delta > 0 && delta <= 16')]),
('compact-list15','bug','',[(C,'h.Size >= 0 && h.Size < 15','h.Size >= 0 && h.Size <= 15')]),
('compact-listr','bug','',[(C,'if h.Size == 15 {','if h.Size >= 14 {')]),
('compact-mapkv','bug','',[(C,'byte(k<<4)|byte(v)','byte(v<<4)|byte(k)')]),
('compact-types','bug','',[(T,'case thriftwire.List:\n\t\treturn _LIST','case thriftwire.List:\n\t\treturn _SET')]),
('compact-typesr','bug','',[(T,'case _I16:\n\t\treturn thriftwire.I16','case _I16:\n\t\treturn thriftwire.I32')]),
('compact-boolelem','bug','',[(T,'return _BOOLEAN_FALSE, nil','return _BOOLEAN_TRUE, nil')]),
('compact-boolpersist','bug','',[(C,'x.boolField = boolNone\n\t\treturn v, nil','return v, nil')]),
('compact-wboolpersist','bug','',[(C,'x.boolField.Type = thriftwire.Stop\n','')]),
('compact-lastid-nopush','bug','',[(C,'x.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)\n\tx.lastFieldID = 0\n\treturn nil','x.lastFieldIDs = append(x.lastFieldIDs, x.lastFieldID)\n\treturn nil')]),
('compact-rlastid','bug','',[(C,'	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]\n	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]\n	return nil','	x.lastFieldID = x.lastFieldIDs[0]\n	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]\n	return nil')]),
('compact-wlastid','bug','',[(C,'	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]\n	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]\n	return x.','	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]\n	x.lastFieldIDs = x.lastFieldIDs[:max(0,len(x.lastFieldIDs)-2)]\n	return x.')]),
('compact-reset-bool','bug','',[(C,'	*x = reader{\n		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],\n	}','	*x = reader{\n		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],\n		boolField: x.boolField,\n	}')]),
('compact-reset-last','bug','',[(C,'		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],\n','		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs,\n\t\tlastFieldID: x.lastFieldID,\n')]),
('compact-wreset','bug','',[(C,'		uw:           uw,\n		lastFieldIDs: x.lastFieldIDs[:0],\n','		uw:           uw,\n		lastFieldIDs: x.lastFieldIDs[:0],\n\t\tlastFieldID: x.lastFieldID,\n')]),
('compact-size-swallow','bug','',[(C,'	if v > math.MaxInt32 {\n		return 0, fmt','	if v > math.MaxInt32 && v != math.MaxUint64 {\n		return 0, fmt')]),
('compact-seqid','bug','',[(C,'uint64(uint32(h.ID))','uint64(h.ID)')]),
('compact-mtype','bug','',[(C,'vt >> 5','(vt >> 5) & 3')]),
('compact-ensure','bug','',[(C,'	if x.Available() >= n {\n		return nil\n	}\n	return x.Writer.Flush()','	if x.Available() >= n {\n		return nil\n	}\n	x.Writer.Flush()\n\treturn nil')]),
('compact-stop-nofield','bug','',[(C,'	return x.WriteByte(byte(_STOP))','	x.WriteByte(byte(_STOP))\n\treturn nil')]),
('compact-mapsize0','bug','',[(C,'if err != nil || h.Size == 0 {','if err != nil || h.Size <= 1 {')]),
('compact-i64-zz','bug','',[(C,'n := binary.PutVarint(buf, v)','n := binary.PutUvarint(buf, uint64(v))')]),
('compact-double-be','bug','',[(C,'binary.LittleEndian.PutUint64(buf','binary.BigEndian.PutUint64(buf')]),
('compact-skipuuid','bug','',[(C,'_, err := x.Discard(16)','_, err := x.Discard(8)')]),
('compact-field-lasterr','bug','',[(C,'	x.lastFieldID = h.ID\n	x.boolField.set(t)','	x.boolField.set(t)\n\tif h.Type != thriftwire.Bool {\n\t\tx.lastFieldID = h.ID\n\t}')]),
# refactorings
('ok-bin-helper','ok','',[(B,'	buf := x.buf[:2]\n	binary.BigEndian.PutUint16(buf, uint16(v))\n	_, err := x.Write(buf)\n	return err','	x.buf[0] = byte(uint16(v) >> 8)\n	x.buf[1] = byte(v)\n	_, err := x.Write(x.buf[:2])\n	return err')]),
('ok-bin-append','ok','',[(B,'	buf := x.buf[:4]\n	binary.BigEndian.PutUint32(buf, uint32(v))\n	_, err := x.Write(buf)\n	return err','	buf := binary.BigEndian.AppendUint32(x.buf[:0], uint32(v))\n	if _, err := x.Write(buf); err != nil {\n\t\treturn err\n\t}\n	return nil')]),
('ok-readstring-loop','ok','',[(W,'	var sb strings.Builder\n	left := n\n	for left > 0 {\n		c, err := Next(b, min(left, b.Size()))\n		sb.Write(c)\n		left -= len(c)\n		if err != nil {\n			if left != n && err == io.EOF {\n				err = io.ErrUnexpectedEOF\n			}\n			return sb.String(), err\n		}\n	}\n	return sb.String(), nil','	var sb strings.Builder\n	for read := 0; read < n; {\n		k := n - read\n		if k > b.Size() {\n			k = b.Size()\n		}\n		c, err := Next(b, k)\n		sb.Write(c)\n		read += len(c)\n		if err != nil {\n			if read > 0 && err == io.EOF {\n				err = io.ErrUnexpectedEOF\n			}\n			return sb.String(), err\n		}\n	}\n	return sb.String(), nil')]),
('ok-readstring-viabytes','ok','',[(W,'	var sb strings.Builder\n	left := n\n	for left > 0 {\n		c, err := Next(b, min(left, b.Size()))\n		sb.Write(c)\n		left -= len(c)\n		if err != nil {\n			if left != n && err == io.EOF {\n				err = io.ErrUnexpectedEOF\n			}\n			return sb.String(), err\n		}\n	}\n	return sb.String(), nil','	buf, err := ReadBytes(b, n, nil)\n	return string(buf), err'),(W,'"io"\n\t"strings"','"io"')]),
('ok-compact-table','ok','',[(T,'	switch t {\n	case thriftwire.Bool:','	if c, ok := wireToCompact[t]; ok {\n		return c, nil\n	}\n	return _STOP, thriftwire.InvalidTypeError(t)\n}\n\nvar wireToCompact = map[thriftwire.Type]compactType{thriftwire.Bool: _BOOLEAN_FALSE, thriftwire.Byte: _I8, thriftwire.I16: _I16, thriftwire.I32: _I32, thriftwire.I64: _I64, thriftwire.Double: _DOUBLE, thriftwire.String: _BINARY, thriftwire.List: _LIST, thriftwire.Set: _SET, thriftwire.Map: _MAP, thriftwire.Struct: _STRUCT, thriftwire.UUID: _UUID}\n\nfunc typeCompactOld(t thriftwire.Type) (compactType, error) {\n	switch t {\n	case thriftwire.Bool:')]),
('ok-compact-stack','ok','',[(C,'	x.lastFieldID = x.lastFieldIDs[len(x.lastFieldIDs)-1]\n	x.lastFieldIDs = x.lastFieldIDs[:len(x.lastFieldIDs)-1]\n	return nil','	top := len(x.lastFieldIDs) - 1\n	last := x.lastFieldIDs[top]\n	x.lastFieldIDs = x.lastFieldIDs[:top]\n	x.lastFieldID = last\n	return nil')]),
('ok-compact-zigzag','ok','',[(C,'	n := binary.PutVarint(buf, v)\n','	ux := uint64(v) << 1\n	if v < 0 {\n		ux = ^ux\n	}\n	n := binary.PutUvarint(buf, ux)\n')]),
('ok-compact-manualvarint','ok','',[(C,'	buf := x.buf[:]\n	n := binary.PutUvarint(buf, v)\n	_, err := x.Write(buf[:n])\n	return err','	n := 0\n	for v >= 0x80 {\n		x.buf[n] = byte(v) | 0x80\n		v >>= 7\n		n++\n	}\n	x.buf[n] = byte(v)\n	_, err := x.Write(x.buf[:n+1])\n	return err')]),
('ok-compact-rsetreset','ok','',[(C,'	*x = reader{\n		Reader:       bufio.NewReader(r),\n		lastFieldIDs: x.lastFieldIDs[:0],\n	}','	x.Reader = bufio.NewReader(r)\n	x.lastFieldIDs = nil\n	x.lastFieldID = 0\n	x.boolField = boolNone')]),
('ok-compact-writefield','ok','',[(C,'	opts := appendFieldHeaderOptions{h, isTrue, x.lastFieldID}\n	if err := appendWrite(x, MaxFieldHeaderSize, appendFieldHeader, opts); err != nil {\n		return err\n	}','	buf, err := AppendFieldHeader(x.buf[:0], h, isTrue, x.lastFieldID)\n	if err != nil {\n		return err\n	}\n	if _, err := x.Write(buf); err != nil {\n		return err\n	}')]),
('ok-bin-size64','ok','',[(B,'	if v < 0 || v > math.MaxInt32 {','	if int(int32(v)) != v || v < 0 {')]),
('ok-compact-rfield','ok','',[(C,'	modifier := int16(dt >> 4)\n	if modifier == 0 {\n		h.ID, err = x.ReadI16()\n		if err != nil {\n			return h, err\n		}\n	} else {\n		h.ID = x.lastFieldID + modifier\n	}','	if delta := dt >> 4; delta != 0 {\n		h.ID = x.lastFieldID + int16(delta)\n	} else if h.ID, err = x.ReadI16(); err != nil {\n		return h, err\n	}')]),
]
