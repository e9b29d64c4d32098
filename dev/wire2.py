B='encoding/thriftbinary/thriftbinary.go'; C='encoding/thriftcompact/thriftcompact.go'; T='encoding/thriftcompact/types.go'; W='encoding/thriftwire/bufio.go'; V='encoding/thriftwire/varint.go'; S='encoding/thriftwire/skip.go'; R='encoding/thriftwire/protocol.go'
MUTANTS=[
('max-field','bug','W09',[(C,'MaxFieldHeaderSize = 1 + binary.MaxVarintLen16','MaxFieldHeaderSize = binary.MaxVarintLen16')]),
('append-err-nil','bug','W09',[(C,'	e, err := typeCompact(h.Element)\n	if err != nil {\n		return buf, err','	e, err := typeCompact(h.Element)\n	if err != nil {\n		return nil, err')]),
('append-fresh','bug','W09',[(C,'buf = append(buf, 0xf0|byte(e))','buf = append(buf[:0], 0xf0|byte(e))')]),
('append-wrapper','bug','W09',[(C,'appendFieldHeaderOptions{h, isTrue, lastFieldID})','appendFieldHeaderOptions{h, !isTrue, lastFieldID})')]),
('version-mask','bug','W10',[(C,'version := vt & 0x1f','version := vt & 0x0f')]),
('code14','bug','W10',[(T,'case _UUID:\n\t\treturn thriftwire.UUID','case _UUID, _UUID + 1:\n\t\treturn thriftwire.UUID')]),
('bin-vmask','bug','W10',[(B,'versionMask = 0xffff0000','versionMask = 0xffff0000 &^ (1<<20)')]),
('join-swap','bug','W12',[(R,'return p.w.NewWriter(w)','return p.r.NewWriter(w)')]),
('depth-dec','bug','W13',[(S,'	depth--\n','')]),
('depth-check','bug','W13',[(S,'	if depth <= 0 {','	if depth == 0 && t != Struct {')]),
('depth-one','bug','W13',[(S,'if err := skip(r, h.Value, depth)','if err := skip(r, h.Value, depth+1)')]),
('ok-depth-up','ok','',[(S,'	return skip(r, t, maxSkipDepth)','	return skip(r, t, 0)'),(S,'	if depth <= 0 {','	if depth >= maxSkipDepth {'),(S,'	depth--\n','	depth++\n')]),
('ok-join-func','ok','',[(R,'	return joinedProtocol{r, w}','	return &joinedProtocol{r, w}')]),
]
