A='thrift/arshal.go'; D='thrift/arshal_default.go'; F='thrift/fields.go'; E='thrift/errors.go'
MUTANTS=[
# T01/T02
('float-as-32','bug','T01',[(D,'w.WriteDouble(va.Float())','w.WriteDouble(float64(float32(va.Float())))')]),
('u32-i16','bug','T01',[(D,'return makeUintArshaler(t, thriftwire.I32, "WriteI32", thriftwire.Writer.WriteI32, "ReadI32", thriftwire.Reader.ReadI32)','return makeUintArshaler(t, thriftwire.I32, "WriteI32", func(w thriftwire.Writer, v int32) error { return w.WriteI32(v & 0x7fffffff) }, "ReadI32", thriftwire.Reader.ReadI32)')]),
('int-sat','bug','T02',[(D,'		set(va, U(v))','		if v < 0 {\n			v = -v\n		}\n		set(va, U(v))')]),
('string-trunc','bug','T02',[(D,'		va.SetString(v)','		if len(v) > 1<<20 {\n			v = v[:1<<20]\n		}\n		va.SetString(v)')]),
('bytes-append','bug','T02',[(D,'r.ReadBytes(va.Bytes()[:0])','r.ReadBytes(va.Bytes())')]),
('bytes-cap','bug','T02',[(D,'		va.SetBytes(v)','		if len(v) > 0 {\n			va.SetBytes(v)\n		}')]),
('uuid-copy','bug','T02',[(D,'err := r.ReadUUID((*[16]byte)(va.Bytes()))','var u [16]byte\n		err := r.ReadUUID(&u)\n		if u[15] != 0 {\n			copy(va.Bytes(), u[:])\n		}')]),
('int8-uint','bug','T02',[(D,'case reflect.Int64:\n		return makeIntArshaler','case reflect.Int64, reflect.Int:\n		return makeIntArshaler')]),
# T03
('str-accepts-list','bug','T03',[(D,'''		if wt != thriftwire.String {
			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
		}
		v, err := r.ReadBytes''','''		if wt != thriftwire.String && wt != thriftwire.List {
			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
		}
		v, err := r.ReadBytes''')]),
('map-late-check','bug','T03',[(D,'''		if wt != thriftwire.Map {
			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
		}''','''		if va.IsNil() {
			va.Set(reflect.MakeMap(t))
		}
		if wt != thriftwire.Map {
			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
		}''')]),
('elem-wt','bug','T03',[(D,'valFncs.unmarshal(r, v, uo, sh.Element)','valFncs.unmarshal(r, v, uo, valFncs.wireType)')]),
('map-key-wt','bug','T03',[(D,'keyFncs.unmarshal(r, k, uo, h.Key)','keyFncs.unmarshal(r, k, uo, keyFncs.wireType)')]),
# T04
('map-kv-swap','bug','T04',[(D,'			Key:   keyFncs.wireType,\n			Value: valFncs.wireType,','			Key:   valFncs.wireType,\n			Value: keyFncs.wireType,')]),
('list-n-1','bug','T04',[(D,'for i := 0; i < n; i++ {\n			v := addressableValue{va.Index(i)}','for i := 0; i < n; i++ {\n			if i == 1<<16 {\n				break\n			}\n			v := addressableValue{va.Index(i)}')]),
('list-rev','bug','T04',[(D,'v := addressableValue{va.Index(i)} // indexed slice element is always addressable\n			if err := valFncs.marshal','v := addressableValue{va.Index(n - 1 - i)} // indexed slice element is always addressable\n			if err := valFncs.marshal')]),
('map-skip-zero','bug','T04',[(D,'				k.SetIterKey(iter)\n','				k.SetIterKey(iter)\n				if k.IsZero() && n > 1 {\n					continue\n				}\n')]),
('ptr-nil','bug','T04',[(D,'			v := newAddressableValue(t.Elem())\n			return valFncs.marshal(w, v, mo)','			return nil')]),
('set-as-list','bug','T04',[(D,'		thriftwire.Set,\n		"WriteSetBegin",','		thriftwire.List,\n		"WriteSetBegin",')]),
('list-size-cap','bug','T04',[(D,'n := va.Len()\n		err := writeBegin','n := va.Cap()\n		err := writeBegin')]),
('iter-value-key','bug','T04',[(D,'v.SetIterValue(iter)','v.SetIterKey(iter)')]),
# T05
('len-cap','bug','T05',[(D,'			va.SetLen(i)\n		} else {','			if i > cap {\n				va.SetLen(i)\n			}\n		} else {')]),
('empty-keeps','bug','T05',[(D,'		} else {\n			va.SetLen(0)\n		}','		}')]),
('map-set-after','bug','T05',[(D,'				va.SetMapIndex(k.Value, v.Value)\n				if err != nil {','				if !v.IsZero() {\n					va.SetMapIndex(k.Value, v.Value)\n				}\n				if err != nil {')]),
('map-replace','bug','T05',[(D,'			if va.IsNil() {\n				va.Set(reflect.MakeMap(t))\n			}\n			k :=','			if va.IsNil() || va.Len() > h.Size {\n				va.Set(reflect.MakeMap(t))\n			}\n			k :=')]),
('ptr-always-new','bug','T05',[(D,'		if va.IsNil() {\n			va.Set(reflect.New(t.Elem()))\n		}\n		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.unmarshal','		va.Set(reflect.New(t.Elem()))\n		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.unmarshal')]),
('list-one-more','bug','T05',[(D,'for i < sh.Size {','for i < sh.Size || i == 1<<30 {')]),
('no-end','bug','T05',[(D,'			va.SetLen(0)\n		}\n		err = readEnd(r)','			va.SetLen(0)\n			return nil\n		}\n		err = readEnd(r)')]),
# T06
('required-skip','bug','T06',[(D,'if !f.required && ((f.isZero','if (!f.required || f.id < 0) && ((f.isZero')]),
('zero-none','bug','T06',[(D,'(f.isZero == nil && v.IsZero())','(f.isZero == nil && v.Kind() != reflect.Bool && v.IsZero())')]),
('sort-abs','bug','T06',[(F,'return allFields[i].id < allFields[j].id','return uint16(allFields[i].id) < uint16(allFields[j].id)')]),
('nosort','bug','T06',[(F,'	sort.SliceStable(allFields, func(i, j int) bool {\n		return allFields[i].id < allFields[j].id\n	})','	sort.SliceStable(allFields[len(allFields)/3:], func(i, j int) bool {\n		return allFields[i].id < allFields[j].id\n	})')]),
('iszero-ptr','bug','T06',[(F,'return va.IsNil() || va.Interface().(isZeroer).IsZero()','return va.IsNil()')]),
('iszero-value','bug','T06',[(F,'		case reflect.PointerTo(sf.Type).Implements(isZeroerType):\n			f.isZero = func(va addressableValue) bool { return va.Addr().Interface().(isZeroer).IsZero() }\n','')]),
('field-name','bug','T06',[(F,'	out.name = sf.Name\n','	out.name = strings.ToLower(sf.Name)\n')]),
('field-index','bug','T06',[(D,'v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable\n			if len(f.index) > 1 {\n				v = v.fieldByIndex(f.index[1:], false)','v := addressableValue{va.Field(i)} // addressable if struct value is addressable\n			if len(f.index) > 1 {\n				v = v.fieldByIndex(f.index[1:], false)')]),
# T07
('stop-early','bug','T07',[(D,'			if h.Type == thriftwire.Stop {\n				break','			if h.Type == thriftwire.Stop || h.ID == -32768 {\n				break')]),
('skip-wrong','bug','T07',[(D,'thriftwire.Skip(r, h.Type); err','thriftwire.Skip(r, thriftwire.Struct); err')]),
('mismatch-skip','bug','T07',[(D,'			if !ok {\n				if err := thriftwire.Skip','			if !ok || f.fncs.wireType != h.Type {\n				if err := thriftwire.Skip')]),
('id-lookup','bug','T07',[(D,'f, ok := fields.byID[h.ID]','f, ok := fields.byID[h.ID&0xff]')]),
('zero-struct','bug','T07',[(D,'		_, err := r.ReadStructBegin()','		va.SetZero()\n		_, err := r.ReadStructBegin()')]),
('no-field-end','bug','T07',[(D,'			if err := r.ReadFieldEnd(); err != nil {','			if !ok {\n				continue\n			}\n			if err := r.ReadFieldEnd(); err != nil {')]),
('byid-alias','bug','T07',[(F,'	for i := range fs.sorted {\n		f := &fs.sorted[i]','	for i, f := range fs.sorted {\n		f := &f'),(F,'		fs.byID[f.id] = f\n','		fs.byID[f.id] = &fs.sorted[i/2*2%len(fs.sorted)]\n')]),
# T08
('id32','bug','T08',[(F,'strconv.ParseInt(tag[:i], 10, 16)','strconv.ParseInt(tag[:i], 10, 32)')]),
('id-base0','bug','T08',[(F,'strconv.ParseInt(tag[:i], 10, 16)','strconv.ParseInt(tag[:i], 0, 16)')]),
('id-trim','bug','T08',[(F,'strconv.ParseInt(tag[:i], 10, 16)','strconv.ParseInt(strings.TrimSpace(tag[:i]), 10, 16)')]),
('dup-adjacent','bug','T08',[(F,'if f2, ok := fs.byID[f.id]; ok {','if f2, ok := fs.byID[f.id]; ok && f.required == f2.required {')]),
('dup-opt','bug','T08',[(F,'		case seenOpts[opt]:','		case seenOpts[opt] && !out.required:')]),
('unexported-tag','bug','T08',[(F,'		if hasTag {\n','		if hasTag && tag != "" {\n')]),
('trailing-comma','bug','T08',[(F,'				err = firstError(err, fmt.Errorf("Go struct field %s has malformed `thrift` tag: invalid trailing \',\' character", sf.Name))\n','')]),
('norm-lower','bug','T08',[(F,'strings.ReplaceAll(strings.ToLower(opt), "_", "")','strings.ToLower(opt)')]),
('first-error','bug','T08',[(E,'		if err != nil {\n			return err','		if err == nil {\n			return err')]),
('ignored-dash','bug','T08',[(F,'	if tag == "-" {','	if tag == "-" || tag == "" {')]),
('no-fields-ok','bug','T08',[(F,'if !isEmptyStruct && !hasAnyThriftTag && !hasAnyThriftField','if isEmptyStruct && !hasAnyThriftTag && !hasAnyThriftField')]),
# T09
('stale-elem','bug','T09',[(D,'mustZero := true //','mustZero := cap(make([]byte, 0)) > 0 //')]),
('stale-elem2','bug','T09',[(D,'				if mustZero {\n','				if mustZero && i < cap {\n')]),
('stale-key','bug','T09',[(D,'				k.SetZero()\n','				if i == 0 {\n					k.SetZero()\n				}\n')]),
('stale-val','bug','T09',[(D,'				} else {\n					v.SetZero()\n				}','				}')]),
('stale-len','bug','T09',[(D,'				va.SetLen(cap)\n			}\n			var i int','				va.SetLen(cap)\n				mustZero = va.Len() < cap\n			}\n			var i int')]),
('stale-grow','bug','T09',[(D,'					va.Grow(1)\n					cap = va.Cap()\n					va.SetLen(cap)\n					mustZero = false','					va.SetLen(0)\n					va.Grow(1)\n					cap = va.Cap()\n					va.SetLen(cap)\n					mustZero = false')]),
# T10
('swallow-skip','bug','T10',[(D,'				if err := thriftwire.Skip(r, h.Type); err != nil {','				if err := thriftwire.Skip(r, h.Type); err != nil && h.Type != thriftwire.Bool {')]),
('shadow-end','bug','T10',[(D,'		err = readEnd(r)\n		if err != nil {','		if err := readEnd(r); err != nil && sh.Size > 0 {')]),
('map-val-err','bug','T10',[(D,'				va.SetMapIndex(k.Value, v.Value)\n				if err != nil {','				va.SetMapIndex(k.Value, v.Value)\n				if err != nil && i == h.Size-1 {')]),
('err-action','bug','T10',[(D,'err := &wireError{action: "ReadMapEnd", err: err}\n			return &SemanticError{action: "unmarshal"','err := &wireError{action: "ReadMapEnd", err: err}\n			return &SemanticError{action: "marshal"')]),
('unwrap-nil','bug','T10',[(E,'func (e *wireError) Unwrap() error {\n	return e.err','func (e *wireError) Unwrap() error {\n	return nil')]),
('unwrap-nil2','bug','T10',[(E,'func (e *SemanticError) Unwrap() error {\n	return e.Err','func (e *SemanticError) Unwrap() error {\n	if e.ThriftType == thriftwire.Map {\n		return nil\n	}\n	return e.Err')]),
('list-err-break','bug','T10',[(D,'				return err\n			}\n		}\n		err = writeEnd(w)','				break\n			}\n		}\n		err = writeEnd(w)')]),
('field-err-wrap','bug','T10',[(D,'			if err := f.fncs.marshal(w, v, mo); err != nil {\n				return err','			if err := f.fncs.marshal(w, v, mo); err != nil {\n				return &SemanticError{action: "marshal", GoType: t}')]),
# T11
('marshal-alloc','bug','T11',[(D,'		if va.IsNil() {\n			v := newAddressableValue(t.Elem())\n			return valFncs.marshal(w, v, mo)\n		}','		if va.IsNil() {\n			va.Set(reflect.New(t.Elem()))\n		}')]),
('marshal-len','bug','T11',[(D,'n := va.Len()\n		err := writeBegin','n := va.Len()\n		if n > 0 && n < va.Cap() {\n			va.SetCap(n)\n		}\n		err := writeBegin')]),
# T12
('shared-buf','bug','T12',[(D,'	fncs.wireType = thriftwire.Map\n','	fncs.wireType = thriftwire.Map\n	var scratch addressableValue\n'),(D,'			k := newAddressableValue(t.Key())\n			v := newAddressableValue(t.Elem())\n			for iter','			if !scratch.IsValid() {\n				scratch = newAddressableValue(t.Key())\n			}\n			k := scratch\n			v := newAddressableValue(t.Elem())\n			for iter')]),
('errinit-mut','bug','T12',[(D,'			err := *errInit // shallow copy SemanticError\n			err.action = "marshal"\n			return &err','			errInit.action = "marshal"\n			return errInit')]),
('once-flag','bug','T12',[(D,'	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {\n		once.Do(init)\n		if keyFncs','	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {\n		if keyFncs == nil {\n			init()\n		}\n		if keyFncs')]),
('cache-map','bug','T12',[(A,'func lookupArshaler(t reflect.Type) *arshaler {\n','var lastArshaler struct {\n	t    reflect.Type\n	fncs *arshaler\n}\n\nfunc lookupArshaler(t reflect.Type) *arshaler {\n	if lastArshaler.t == t {\n		return lastArshaler.fncs\n	}\n'),(A,'	return v.(*arshaler)\n}\n','	lastArshaler.t, lastArshaler.fncs = t, v.(*arshaler)\n	return v.(*arshaler)\n}\n')]),
# T13
('no-depth-map','bug','T13',[(D,'		if mo.depth++; mo.depth > maxDepth {\n			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map','		if mo.depth > maxDepth {\n			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map')]),
('depth-reset','bug','T13',[(D,'if err = valFncs.unmarshal(r, v, uo, sh.Element)','if err = valFncs.unmarshal(r, v, unmarshalOptions{}, sh.Element)')]),
('eager-map','bug','T13',[(D,'	fncs.wireType = thriftwire.Map\n','	fncs.wireType = thriftwire.Map\n	once.Do(init)\n')]),
('cyclic-two','bug','T13',[(D,'for t.Kind() == reflect.Pointer {','for n := 0; t.Kind() == reflect.Pointer && n < 2; n++ {')]),
# T14
('nil-ok','bug','T14',[(A,'	if !v.IsValid() || (v.Kind() == reflect.Pointer && v.IsNil()) {','	if !v.IsValid() {')]),
('array-ok','bug','T14',[(D,'		if t == uuidType {','		if t.Len() == 16 {')]),
# T15
('map-size','bug','T15',[(D,'reflect.MakeMap(t)','reflect.MakeMapWithSize(t, h.Size)')]),
('grow-size','bug','T15',[(D,'va.Grow(1)','va.Grow(sh.Size - i)')]),
('grow-min','bug','T15',[(D,'			var i int\n			for i < sh.Size','			if cap == 0 && sh.Size < 1<<24 {\n				va.Grow(sh.Size)\n				cap = va.Cap()\n				va.SetLen(cap)\n			}\n			var i int\n			for i < sh.Size')]),
# refactorings
('ok-helper','ok','',[(D,'		err := w.WriteBool(va.Bool())\n		if err != nil {\n			err := &wireError{action: "WriteBool", err: err}\n			return &SemanticError{action: "marshal", ThriftType: thriftwire.Bool, GoType: t, Err: err}\n		}\n		return nil','		return marshalErr("WriteBool", thriftwire.Bool, t, w.WriteBool(va.Bool()))'),(D,'func makeBoolArshaler','func marshalErr(action string, wt thriftwire.Type, t reflect.Type, err error) error {\n	if err == nil {\n		return nil\n	}\n	return &SemanticError{action: "marshal", ThriftType: wt, GoType: t, Err: &wireError{action, err}}\n}\n\nfunc makeBoolArshaler')]),
('ok-fori','ok','',[(D,'		for i := range fields.sorted {\n			f := &fields.sorted[i]','		for i := 0; i < len(fields.sorted); i++ {\n			f := &fields.sorted[i]')]),
('ok-fcopy','ok','',[(D,'		for i := range fields.sorted {\n			f := &fields.sorted[i]','		for _, f := range fields.sorted {')]),
('ok-slice','ok','',[(D,'''			mustZero := true // we do not know the cleanliness of unused capacity
			cap := va.Cap()
			if cap > 0 {
				va.SetLen(cap)
			}
			var i int
			for i < sh.Size {
				if i == cap {
					va.Grow(1)
					cap = va.Cap()
					va.SetLen(cap)
					mustZero = false // reflect.Value.Grow ensures new capacity is zero-initialized
				}
				v := addressableValue{va.Index(i)} // indexed slice element is always addressable
				i++
				if mustZero {
					v.SetZero()
				}
				if err = valFncs.unmarshal(r, v, uo, sh.Element); err != nil {
					va.SetLen(i)
					return err
				}
			}
			va.SetLen(i)
		} else {
			va.SetLen(0)
		}''','''			va.SetLen(0)
			for i := 0; i < sh.Size; i++ {
				if i == va.Cap() {
					va.Grow(1)
				}
				va.SetLen(i + 1)
				v := addressableValue{va.Index(i)}
				v.SetZero()
				if err := valFncs.unmarshal(r, v, uo, sh.Element); err != nil {
					return err
				}
			}
		} else {
			va.SetLen(0)
		}''')]),
('ok-append','ok','',[(D,'''			mustZero := true // we do not know the cleanliness of unused capacity
			cap := va.Cap()
			if cap > 0 {
				va.SetLen(cap)
			}
			var i int
			for i < sh.Size {
				if i == cap {
					va.Grow(1)
					cap = va.Cap()
					va.SetLen(cap)
					mustZero = false // reflect.Value.Grow ensures new capacity is zero-initialized
				}
				v := addressableValue{va.Index(i)} // indexed slice element is always addressable
				i++
				if mustZero {
					v.SetZero()
				}
				if err = valFncs.unmarshal(r, v, uo, sh.Element); err != nil {
					va.SetLen(i)
					return err
				}
			}
			va.SetLen(i)
		} else {
			va.SetLen(0)
		}''','''			va.SetLen(0)
			for i := 0; i < sh.Size; i++ {
				v := newAddressableValue(t.Elem())
				if err := valFncs.unmarshal(r, v, uo, sh.Element); err != nil {
					return err
				}
				va.Set(reflect.Append(va.Value, v.Value))
			}
		} else {
			va.SetLen(0)
		}''')]),
('ok-map-fresh','ok','',[(D,'''				k.SetZero()
				if err''','''				k := newAddressableValue(t.Key())
				if err'''),(D,'			k := newAddressableValue(t.Key())\n			v := newAddressableValue(t.Elem())\n			for i :=','			v := newAddressableValue(t.Elem())\n			for i :=')]),
('ok-unm-rest','ok','',[(D,'			if h.Type == thriftwire.Stop {\n				break\n			}\n			f, ok := fields.byID[h.ID]\n			if !ok {','			if h.Type == thriftwire.Stop {\n				break\n			}\n			if f, ok := fields.byID[h.ID]; !ok {')]),
('ok-linear','ok','',[(D,'			f, ok := fields.byID[h.ID]\n','			f, ok := fields.find(h.ID)\n'),(F,'type structField struct','func (s *structFields) find(id int16) (*structField, bool) {\n	for i := range s.sorted {\n		if s.sorted[i].id == id {\n			return &s.sorted[i], true\n		}\n	}\n	return nil, false\n}\n\ntype structField struct')]),
('ok-sort','ok','',[(F,'sort.SliceStable(allFields, func','sort.Slice(allFields, func')]),
('ok-isletter','ok','',[(F,'func isLetterOrDigit(r rune) bool {\n	return r ==','func isLetterOrDigit(r rune) bool {\n	if r == 95 {\n		return true\n	}\n	return r ==')]),
('ok-cut','ok','',[(F,'	i := strings.IndexByte(tag, \',\')\n	if i == -1 {\n		i = len(tag)\n	}\n	id64, idErr := strconv.ParseInt(tag[:i], 10, 16)\n	tag = tag[i:]\n','	num, _, _ := strings.Cut(tag, ",")\n	tag = tag[len(num):]\n	id64, idErr := strconv.ParseInt(num, 10, 16)\n')]),
('ok-lookup','ok','',[(A,'	fncs := makeDefaultArshaler(t)\n\n	// Use the last stored so that duplicate arshalers can be garbage collected.\n	v, _ := lookupArshalerCache.LoadOrStore(t, fncs)\n	return v.(*arshaler)','	fncs := makeDefaultArshaler(t)\n	if prev, loaded := lookupArshalerCache.LoadOrStore(t, fncs); loaded {\n		return prev.(*arshaler)\n	}\n	return fncs')]),
('ok-mutex','ok','',[(A,'var lookupArshalerCache sync.Map // map[reflect.Type]*arshaler','var (\n	lookupArshalerMu    sync.RWMutex\n	lookupArshalerCache = make(map[reflect.Type]*arshaler)\n)'),(A,'	if v, ok := lookupArshalerCache.Load(t); ok {\n		return v.(*arshaler)\n	}','	lookupArshalerMu.RLock()\n	v, ok := lookupArshalerCache[t]\n	lookupArshalerMu.RUnlock()\n	if ok {\n		return v\n	}'),(A,'	v, _ := lookupArshalerCache.LoadOrStore(t, fncs)\n	return v.(*arshaler)','	lookupArshalerMu.Lock()\n	defer lookupArshalerMu.Unlock()\n	if v, ok := lookupArshalerCache[t]; ok {\n		return v\n	}\n	lookupArshalerCache[t] = fncs\n	return fncs')]),
('mutex-norlock','bug','T12',[(A,'var lookupArshalerCache sync.Map // map[reflect.Type]*arshaler','var (\n	lookupArshalerMu    sync.RWMutex\n	lookupArshalerCache = make(map[reflect.Type]*arshaler)\n)'),(A,'	if v, ok := lookupArshalerCache.Load(t); ok {\n		return v.(*arshaler)\n	}','	v, ok := lookupArshalerCache[t]\n	if ok {\n		return v\n	}'),(A,'	v, _ := lookupArshalerCache.LoadOrStore(t, fncs)\n	return v.(*arshaler)','	lookupArshalerMu.Lock()\n	defer lookupArshalerMu.Unlock()\n	if v, ok := lookupArshalerCache[t]; ok {\n		return v\n	}\n	lookupArshalerCache[t] = fncs\n	return fncs')]),
('ok-depthfn','ok','',[(D,'		if uo.depth++; uo.depth > maxDepth {\n			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map','		uo.depth += 1\n		if maxDepth < uo.depth {\n			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map')]),
('ok-switch','ok','',[(D,'		if t == uuidType {\n			return makeUUIDArshaler(t)\n		}\n		return makeInvalidArshaler(t)','		switch t {\n		case uuidType:\n			return makeUUIDArshaler(t)\n		default:\n			return makeInvalidArshaler(t)\n		}')]),
('ok-ptr','ok','',[(D,'			v := newAddressableValue(t.Elem())\n			return valFncs.marshal(w, v, mo)\n		}\n		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.marshal(w, v, mo)','			va = addressableValue{reflect.New(t.Elem())}\n		}\n		return valFncs.marshal(w, addressableValue{va.Elem()}, mo)')]),
]
