D='thrift/arshal_default.go'; F='thrift/fields.go'; A='thrift/arshal.go'; E='thrift/errors.go'
src=open('/repo/'+D).read(); fsrc=open('/repo/'+F).read()
def werr(ind, act, dr, tt): return ind+'if err != nil {\n'+ind+'	err := &wireError{action: "%s", err: err}\n'%act+ind+'	return &SemanticError{action: "%s", ThriftType: thriftwire.%s, GoType: t, Err: err}\n'%(dr,tt)+ind+'}\n'
HELP='''// codecError wraps the error of a call of the reader or writer, if there is one.
func codecError(dir, action string, tt thriftwire.Type, t reflect.Type, err error) error {
	if err == nil {
		return nil
	}
	return &SemanticError{action: dir, ThriftType: tt, GoType: t, Err: &wireError{action: action, err: err}}
}

func makeBoolArshaler('''
def fn(name):
    i=src.index('func '+name); j=src.index('\n}\n',i)+3
    return src[i:j]
MARSHFIELD=src[src.index('			f := &fields.sorted[i]\n			if f.fncs'):src.index('		err = w.WriteStructEnd()')]
LISTBODY=src[src.index('		if sh.Size > 0 {\n			mustZero'):src.index('		err = readEnd(r)')]
UNF=src[src.index('			f, ok := fields.byID[h.ID]\n'):src.index('			if err := r.ReadFieldEnd()')]
OPTLOOP=fsrc[fsrc.index('	seenOpts := make'):fsrc.index('	return out, false, err\n')]
def once(body): return body
M=[
('ok4-helper-all','ok','',[(D,'func makeBoolArshaler(',HELP),
  (D,'		err := w.WriteBool(va.Bool())\n'+werr('		','WriteBool','marshal','Bool')+'		return nil\n','		return codecError("marshal", "WriteBool", thriftwire.Bool, t, w.WriteBool(va.Bool()))\n'),
  (D,'		err := w.WriteDouble(va.Float())\n'+werr('		','WriteDouble','marshal','Double')+'		return nil\n','		return codecError("marshal", "WriteDouble", thriftwire.Double, t, w.WriteDouble(va.Float()))\n'),
  (D,werr('		','ReadString','unmarshal','String'),'		if err := codecError("unmarshal", "ReadString", thriftwire.String, t, err); err != nil {\n			return err\n		}\n'),
  (D,'		err = r.ReadStructEnd()\n'+werr('		','ReadStructEnd','unmarshal','Struct')+'		return nil\n','		return codecError("unmarshal", "ReadStructEnd", thriftwire.Struct, t, r.ReadStructEnd())\n'),
  (D,'		err = w.WriteMapEnd()\n'+werr('		','WriteMapEnd','marshal','Map')+'		return nil\n','		return codecError("marshal", "WriteMapEnd", thriftwire.Map, t, w.WriteMapEnd())\n')]),
('ok4-marshal-field','ok','',[(D,MARSHFIELD,'''			if err := fields.sorted[i].marshal(w, va, mo, t); err != nil {
				return err
			}
		}
'''),(D,'func (va addressableValue) fieldByIndex','''// marshal writes the field of the struct va of type t, unless it is omitted.
func (f *structField) marshal(w thriftwire.Writer, va addressableValue, mo marshalOptions, t reflect.Type) error {
	if f.fncs.wireType == thriftwire.Stop {
		return &SemanticError{action: "marshal", GoType: f.typ}
	}
	v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
	if len(f.index) > 1 {
		v = v.fieldByIndex(f.index[1:], false)
		if !v.IsValid() {
			return nil // implies a nil inlined field
		}
	}
	if !f.required && ((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v))) {
		return nil
	}
	if err := w.WriteFieldBegin(thriftwire.FieldHeader{Name: f.name, Type: f.fncs.wireType, ID: f.id}); err != nil {
		err := &wireError{action: "WriteFieldBegin", err: err}
		return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: err}
	}
	if err := f.fncs.marshal(w, v, mo); err != nil {
		return err
	}
	if err := w.WriteFieldEnd(); err != nil {
		err := &wireError{action: "WriteFieldEnd", err: err}
		return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: err}
	}
	return nil
}

func (va addressableValue) fieldByIndex''')]),
('ok4-omit','ok','',[(D,'if !f.required && ((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v))) {','if f.omit(v) {'),(F,'func makeStructFields','''// omit reports whether the field is left out as its value is v.
func (f *structField) omit(v addressableValue) bool {
	switch {
	case f.required:
		return false
	case f.isZero != nil:
		return f.isZero(v)
	default:
		return v.IsZero()
	}
}

func makeStructFields''')]),
('ok4-iszero-default','ok','',[(D,'if !f.required && ((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v))) {','if !f.required && f.isZero(v) {'),(F,'''return va.Addr().Interface().(isZeroer).IsZero() }
		}
''','''return va.Addr().Interface().(isZeroer).IsZero() }
		default:
			f.isZero = func(va addressableValue) bool { return va.IsZero() }
		}
''')]),
('ok4-iszero-methexpr','ok','',[(D,'if !f.required && ((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v))) {','if !f.required && f.isZero(v) {'),(F,'''return va.Addr().Interface().(isZeroer).IsZero() }
		}
''','''return va.Addr().Interface().(isZeroer).IsZero() }
		default:
			f.isZero = addressableValue.IsZero
		}
''')]),
('ok4-unm-field','ok','',[(D,UNF,'''			if err := unmarshalField(r, &fields, va, uo, h, t); err != nil {
				return err
			}
'''),(D,'func (va addressableValue) fieldByIndex','''func unmarshalField(r thriftwire.Reader, fields *structFields, va addressableValue, uo unmarshalOptions, h thriftwire.FieldHeader, t reflect.Type) error {
	if f := fields.byID[h.ID]; f != nil {
		v := addressableValue{va.Field(f.index[0])}
		if len(f.index) > 1 {
			v = v.fieldByIndex(f.index[1:], true)
		}
		return f.fncs.unmarshal(r, v, uo, h.Type)
	}
	if err := thriftwire.Skip(r, h.Type); err != nil {
		return &SemanticError{action: "unmarshal", ThriftType: h.Type, GoType: t, Err: &wireError{action: "Skip", err: err}}
	}
	return nil
}

func (va addressableValue) fieldByIndex''')]),
('ok4-fieldbyindex','ok','',[(D,'''				v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
				if len(f.index) > 1 {
					v = v.fieldByIndex(f.index[1:], true)
				}
''','''				v := va.fieldByIndex(f.index, true)
'''),(D,'''			v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
			if len(f.index) > 1 {
				v = v.fieldByIndex(f.index[1:], false)
				if !v.IsValid() {
					continue // implies a nil inlined field
				}
			}
''','''			v := va.fieldByIndex(f.index, false)
			if !v.IsValid() {
				continue // implies a nil inlined field
			}
''')]),
('ok4-index-int','ok','',[(D,'''				v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
				if len(f.index) > 1 {
					v = v.fieldByIndex(f.index[1:], true)
				}
''','''				v := addressableValue{va.Field(f.index)} // addressable if struct value is addressable
'''),(D,'''			v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
			if len(f.index) > 1 {
				v = v.fieldByIndex(f.index[1:], false)
				if !v.IsValid() {
					continue // implies a nil inlined field
				}
			}
''','''			v := addressableValue{va.Field(f.index)} // addressable if struct value is addressable
'''),(F,'	index  []int\n','	index  int\n'),(F,'sf.Index,','i,'),(D,fn('(va addressableValue) fieldByIndex'),''),(D,fn('(va addressableValue) indirect'),'')]),
('ok4-oncefunc','ok','',[(D,'''	var (
		once    sync.Once
		fields  structFields
		errInit *SemanticError
	)
	init := func() {
		fields, errInit = makeStructFields(t)
	}
''','''	initFields := sync.OnceValues(func() (structFields, *SemanticError) {
		return makeStructFields(t)
	})
'''),(D,'		once.Do(init)\n		if errInit != nil {\n			err := *errInit // shallow copy SemanticError\n			err.action = "marshal"','		fields, errInit := initFields()\n		if errInit != nil {\n			err := *errInit // shallow copy SemanticError\n			err.action = "marshal"'),(D,'		once.Do(init)\n		if errInit != nil {\n			err := *errInit // shallow copy SemanticError\n			err.action = "unmarshal"','		fields, errInit := initFields()\n		if errInit != nil {\n			err := *errInit // shallow copy SemanticError\n			err.action = "unmarshal"')]),
('ok4-oncefunc-map','ok','',[(D,'''	var (
		once    sync.Once
		keyFncs *arshaler
		valFncs *arshaler
	)
	init := func() { // lazily, as t may be recursive
		keyFncs = lookupArshaler(t.Key())
		valFncs = lookupArshaler(t.Elem())
	}
	fncs.wireType = thriftwire.Map
	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
		once.Do(init)
''','''	var keyFncs, valFncs *arshaler
	init := sync.OnceFunc(func() { // lazily, as t may be recursive
		keyFncs = lookupArshaler(t.Key())
		valFncs = lookupArshaler(t.Elem())
	})
	fncs.wireType = thriftwire.Map
	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
		init()
'''),(D,'		once.Do(init)\n		if wt != thriftwire.Map {','		init()\n		if wt != thriftwire.Map {')]),
('ok4-lazy-type','ok','',[(D,'''	var (
		once    sync.Once
		keyFncs *arshaler
		valFncs *arshaler
	)
	init := func() { // lazily, as t may be recursive
		keyFncs = lookupArshaler(t.Key())
		valFncs = lookupArshaler(t.Elem())
	}
	fncs.wireType = thriftwire.Map
	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
		once.Do(init)
''','''	key, val := lazyArshaler{typ: t.Key()}, lazyArshaler{typ: t.Elem()}
	fncs.wireType = thriftwire.Map
	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
		keyFncs, valFncs := key.get(), val.get()
'''),(D,'		once.Do(init)\n		if wt != thriftwire.Map {','		keyFncs, valFncs := key.get(), val.get()\n		if wt != thriftwire.Map {'),(D,'func makeMapArshaler','''// lazyArshaler looks the arshaler of a type up when it is needed first.
type lazyArshaler struct {
	typ  reflect.Type
	once sync.Once
	fncs *arshaler
}

func (l *lazyArshaler) get() *arshaler {
	l.once.Do(func() { l.fncs = lookupArshaler(l.typ) })
	return l.fncs
}

func makeMapArshaler''')]),
('ok4-lookup-each','ok','',[(D,'''	var (
		once    sync.Once
		valFncs *arshaler
	)
	init := func() { // lazily, as t may be recursive
		valFncs = lookupArshaler(t.Elem())
	}
''',''),(D,'		once.Do(init)\n		if valFncs.wireType','		valFncs := lookupArshaler(t.Elem())\n		if valFncs.wireType'),(D,'		once.Do(init)\n		if wt != wireType','		valFncs := lookupArshaler(t.Elem())\n		if wt != wireType')]),
('ok4-map-iter','ok','',[(D,'''			for iter := va.MapRange(); iter.Next(); {
				k.SetIterKey(iter)
				if err = keyFncs.marshal(w, k, mo); err != nil {
					return err
				}
				v.SetIterValue(iter)
				if err = valFncs.marshal(w, v, mo); err != nil {
					return err
				}
			}
''','''			iter := va.MapRange()
			for iter.Next() {
				k.SetIterKey(iter)
				v.SetIterValue(iter)
				if err := keyFncs.marshal(w, k, mo); err != nil {
					return err
				}
				if err := valFncs.marshal(w, v, mo); err != nil {
					return err
				}
			}
''')]),
('ok4-map-iterset','ok','',[(D,'				k.SetIterKey(iter)\n','				k.Set(iter.Key())\n'),(D,'				v.SetIterValue(iter)\n','				v.Set(iter.Value())\n')]),
('ok4-map-always','ok','',[(D,'''		if n > 0 {
			k := newAddressableValue(t.Key())
			v := newAddressableValue(t.Elem())
			for iter := va.MapRange(); iter.Next(); {
				k.SetIterKey(iter)
				if err = keyFncs.marshal(w, k, mo); err != nil {
					return err
				}
				v.SetIterValue(iter)
				if err = valFncs.marshal(w, v, mo); err != nil {
					return err
				}
			}
		}
''','''		for iter := va.MapRange(); iter.Next(); {
			k, v := newAddressableValue(t.Key()), newAddressableValue(t.Elem())
			k.Set(iter.Key())
			v.Set(iter.Value())
			err = keyFncs.marshal(w, k, mo)
			if err == nil {
				err = valFncs.marshal(w, v, mo)
			}
			if err != nil {
				return err
			}
		}
''')]),
('ok4-map-newpair','ok','',[(D,'''			k := newAddressableValue(t.Key())
			v := newAddressableValue(t.Elem())
			for i := 0; i < h.Size; i++ {
				k.SetZero()
				if err = keyFncs.unmarshal(r, k, uo, h.Key); err != nil {
					return err
				}
				if v2 := va.MapIndex(k.Value); v2.IsValid() {
					v.Set(v2)
				} else {
					v.SetZero()
				}
''','''			for left := h.Size; left > 0; left-- {
				k := newAddressableValue(t.Key())
				if err = keyFncs.unmarshal(r, k, uo, h.Key); err != nil {
					return err
				}
				v := newAddressableValue(t.Elem())
				if v2 := va.MapIndex(k.Value); v2.IsValid() {
					v.Set(v2)
				}
''')]),
('ok4-map-early','ok','',[(D,'			if va.IsNil() {\n				va.Set(reflect.MakeMap(t))\n			}\n			k :=','			if va.IsNil() {\n				m := reflect.MakeMap(va.Type())\n				va.Set(m)\n			}\n			k :=')]),
('ok4-list-append','ok','',[(D,LISTBODY,'''		va.SetLen(0)
		for i := 0; i < sh.Size; i++ {
			if i == va.Cap() {
				va.Grow(1)
			}
			va.SetLen(i + 1)
			v := addressableValue{va.Index(i)} // indexed slice element is always addressable
			v.SetZero()
			if err := valFncs.unmarshal(r, v, uo, sh.Element); err != nil {
				return err
			}
		}
''')]),
('ok4-list-inv','ok','',[(D,'		if sh.Size > 0 {\n			mustZero','		if sh.Size <= 0 {\n			va.SetLen(0)\n		} else {\n			mustZero'),(D,'			va.SetLen(i)\n		} else {\n			va.SetLen(0)\n		}\n','			va.SetLen(i)\n		}\n')]),
('ok4-list-fn','ok','',[(D,LISTBODY,'		if err := unmarshalElems(r, va, uo, valFncs, sh); err != nil {\n			return err\n		}\n'),(D,'func makeSetArshaler(','''func unmarshalElems(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, fncs *arshaler, h thriftwire.SetHeader) (err error) {
	if h.Size <= 0 {
		va.SetLen(0)
		return nil
	}
	var i int
	defer func() { va.SetLen(i) }()
	mustZero := true // we do not know the cleanliness of unused capacity
	cap := va.Cap()
	va.SetLen(cap)
	for i < h.Size {
		if i == cap {
			va.Grow(1)
			cap = va.Cap()
			va.SetLen(cap)
			mustZero = false
		}
		v := addressableValue{va.Index(i)}
		i++
		if mustZero {
			v.SetZero()
		}
		if err = fncs.unmarshal(r, v, uo, h.Element); err != nil {
			return err
		}
	}
	return nil
}

func makeSetArshaler(''')]),
('ok4-list-marshal-fn','ok','',[(D,'''		for i := 0; i < n; i++ {
			v := addressableValue{va.Index(i)} // indexed slice element is always addressable
			if err := valFncs.marshal(w, v, mo); err != nil {
				return err
			}
		}
''','''		if err := marshalElems(w, va, mo, valFncs); err != nil {
			return err
		}
'''),(D,'func makeSetArshaler(','''func marshalElems(w thriftwire.Writer, va addressableValue, mo marshalOptions, fncs *arshaler) (err error) {
	for i, n := 0, va.Len(); i < n && err == nil; i++ {
		err = fncs.marshal(w, addressableValue{va.Index(i)}, mo)
	}
	return err
}

func makeSetArshaler(''')]),
('ok4-ptr-merge','ok','',[(D,'''		if va.IsNil() {
			v := newAddressableValue(t.Elem())
			return valFncs.marshal(w, v, mo)
		}
		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable
		return valFncs.marshal(w, v, mo)''','''		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable
		if !v.IsValid() {
			v = newAddressableValue(t.Elem())
		}
		return valFncs.marshal(w, v, mo)'''),(D,'''		if va.IsNil() {
			va.Set(reflect.New(t.Elem()))
		}
		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable
		return valFncs.unmarshal(r, v, uo, wt)''','''		return valFncs.unmarshal(r, va.indirect(true), uo, wt)''')]),
('ok4-kind-table','ok','',[(D,'''	case reflect.Bool:
		return makeBoolArshaler(t)
	case reflect.Float32, reflect.Float64:
		return makeDoubleArshaler(t)
''',''),(D,'func makeDefaultArshaler(t reflect.Type) *arshaler {\n','''var simpleArshalers = map[reflect.Kind]func(reflect.Type) *arshaler{
	reflect.Bool:    makeBoolArshaler,
	reflect.Float32: makeDoubleArshaler,
	reflect.Float64: makeDoubleArshaler,
}

func makeDefaultArshaler(t reflect.Type) *arshaler {
	if f, ok := simpleArshalers[t.Kind()]; ok {
		return f(t)
	}
''')]),
('ok4-default-split','ok','',[(D,'''	case reflect.Slice:
		switch {
		case t.Implements(setType):
			return makeSetArshaler(t)
		case t.Implements(listType):
			return makeListArshaler(t)
		case t.AssignableTo(bytesType):
			return makeBytesArshaler(t)
		default:
			return makeListArshaler(t)
		}
''','''	case reflect.Slice:
		return makeSliceArshaler(t)
'''),(D,'func makeBoolArshaler(','''func makeSliceArshaler(t reflect.Type) *arshaler {
	if t.Implements(setType) {
		return makeSetArshaler(t)
	}
	if !t.Implements(listType) && t.AssignableTo(bytesType) {
		return makeBytesArshaler(t)
	}
	return makeListArshaler(t)
}

func makeBoolArshaler(''')]),
('ok4-int-closures','ok','',[(D,'thriftwire.Byte, "WriteByte", thriftwire.Writer.WriteByte, "ReadByte", thriftwire.Reader.ReadByte)\n	case reflect.Int16','thriftwire.Byte, "WriteByte", func(w thriftwire.Writer, b byte) error { return w.WriteByte(b) }, "ReadByte", func(r thriftwire.Reader) (byte, error) { return r.ReadByte() })\n	case reflect.Int16')]),
('ok4-int-direct','ok','',[(D,'	return makeIntArshaler2(t, wt, writeAction, write, readAction, read, addressableValue.Int, addressableValue.SetInt)','''	get := func(va addressableValue) int64 { return va.Int() }
	set := func(va addressableValue, v int64) { va.SetInt(v) }
	return makeIntArshaler2(t, wt, writeAction, write, readAction, read, get, set)''')]),
('ok4-uuid-addr','ok','',[(D,'r.ReadUUID((*[16]byte)(va.Bytes()))','r.ReadUUID(va.Addr().Interface().(*[16]byte))'),(D,'w.WriteUUID((*[16]byte)(va.Bytes()))','w.WriteUUID(va.Addr().Interface().(*[16]byte))')]),
('ok4-uuid-tmp','ok','',[(D,'		err := r.ReadUUID((*[16]byte)(va.Bytes()))\n','		var u [16]byte\n		err := r.ReadUUID(&u)\n		copy(va.Bytes(), u[:])\n')]),
('ok4-bytes-var','ok','',[(D,'		v, err := r.ReadBytes(va.Bytes()[:0])\n','		buf := va.Bytes()\n		v, err := r.ReadBytes(buf[:0])\n')]),
('ok4-marshal-check','ok','',[(A,'''	if !v.IsValid() || (v.Kind() == reflect.Pointer && v.IsNil()) {
		var t reflect.Type
		if v.Kind() == reflect.Pointer {
			t = v.Type().Elem()
		}
		err := errors.New("value must be passed as a non-nil pointer reference")
		return &SemanticError{action: "marshal", GoType: t, Err: err}
	}
	// Shallow copy non-pointer values to obtain an addressable value.
	// It is beneficial to performance to always pass pointers to avoid this.
	if v.Kind() != reflect.Pointer {
		v2 := reflect.New(v.Type())
		v2.Elem().Set(v)
		v = v2
	}
	va := addressableValue{v.Elem()}
''','''	var va addressableValue
	switch {
	case !v.IsValid():
		return &SemanticError{action: "marshal", Err: errNotPointer}
	case v.Kind() != reflect.Pointer:
		// Shallow copy non-pointer values to obtain an addressable value.
		// It is beneficial to performance to always pass pointers to avoid this.
		va = newAddressableValue(v.Type())
		va.Set(v)
	case v.IsNil():
		return &SemanticError{action: "marshal", GoType: v.Type().Elem(), Err: errNotPointer}
	default:
		va.Value = v.Elem()
	}
'''),(A,'type marshalOptions struct','var errNotPointer = errors.New("value must be passed as a non-nil pointer reference")\n\ntype marshalOptions struct')]),
('ok4-unmarshal-check','ok','',[(A,'''	if !v.IsValid() || v.Kind() != reflect.Pointer || v.IsNil() {
		var t reflect.Type
		if v.IsValid() {
			t = v.Type()
			if t.Kind() == reflect.Pointer {
				t = t.Elem()
			}
		}
		err := errors.New("value must be passed as a non-nil pointer reference")
		return &SemanticError{action: "unmarshal", GoType: t, Err: err}
	}
	va :=''','''	if v.Kind() != reflect.Pointer || v.IsNil() {
		t := reflect.TypeOf(out)
		if t != nil && t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		err := errors.New("value must be passed as a non-nil pointer reference")
		return &SemanticError{action: "unmarshal", GoType: t, Err: err}
	}
	va :=''')]),
('ok4-cache-type','ok','',[(A,'var lookupArshalerCache sync.Map // map[reflect.Type]*arshaler','''type arshalerCache struct{ m sync.Map } // map[reflect.Type]*arshaler

func (c *arshalerCache) load(t reflect.Type) *arshaler {
	v, _ := c.m.Load(t)
	fncs, _ := v.(*arshaler)
	return fncs
}

func (c *arshalerCache) store(t reflect.Type, fncs *arshaler) *arshaler {
	v, _ := c.m.LoadOrStore(t, fncs)
	return v.(*arshaler)
}

var lookupArshalerCache arshalerCache'''),(A,'''	if v, ok := lookupArshalerCache.Load(t); ok {
		return v.(*arshaler)
	}

	fncs := makeDefaultArshaler(t)

	// Use the last stored so that duplicate arshalers can be garbage collected.
	v, _ := lookupArshalerCache.LoadOrStore(t, fncs)
	return v.(*arshaler)
''','''	if fncs := lookupArshalerCache.load(t); fncs != nil {
		return fncs
	}

	// Use the last stored so that duplicate arshalers can be garbage collected.
	return lookupArshalerCache.store(t, makeDefaultArshaler(t))
''')]),
('ok4-cyclic-floyd','ok','',[(D,'''	seen := make(map[reflect.Type]bool)
	for t.Kind() == reflect.Pointer {
		if seen[t] {
			return true
		}
		seen[t] = true
		t = t.Elem()
	}
	return false''','''	slow := t
	for odd := false; t.Kind() == reflect.Pointer; odd = !odd {
		t = t.Elem()
		if t == slow {
			return true
		}
		if odd {
			slow = slow.Elem()
		}
	}
	return false''')]),
('ok4-cyclic-set','ok','',[(D,'	seen := make(map[reflect.Type]bool)\n','	seen := make(map[reflect.Type]struct{})\n'),(D,'		if seen[t] {\n			return true\n		}\n		seen[t] = true\n','		if _, ok := seen[t]; ok {\n			return true\n		}\n		seen[t] = struct{}{}\n')]),
('ok4-depth-enter','ok','',[(D,'		if mo.depth++; mo.depth > maxDepth {\n			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}\n		}\n','		if !mo.enter() {\n			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}\n		}\n'),(A,'// Marshal serializes a Go value','// enter goes a level deeper, and reports whether that is allowed.\nfunc (mo *marshalOptions) enter() bool {\n	mo.depth++\n	return mo.depth <= maxDepth\n}\n\n// Marshal serializes a Go value')]),
('ok4-depth-down','ok','',[(A,'	return marshalOptions{}.Marshal(out, in)','	return marshalOptions{left: maxDepth}.Marshal(out, in)'),(A,'type marshalOptions struct {\n	depth int // nesting depth of the value being marshaled','type marshalOptions struct {\n	left int // how much deeper values may nest')]+[(D,'		if mo.depth++; mo.depth > maxDepth {\n','		if mo.left--; mo.left < 0 {\n')]*3),
('ok4-sortfunc','ok','',[(F,'	sort.SliceStable(allFields, func(i, j int) bool {\n		return allFields[i].id < allFields[j].id\n	})\n','	slices.SortStableFunc(allFields, func(a, b structField) int {\n		return int(a.id) - int(b.id)\n	})\n'),(F,'	"sort"\n','	"slices"\n')]),
('ok4-sortfunc-cmp','ok','',[(F,'	sort.SliceStable(allFields, func(i, j int) bool {\n		return allFields[i].id < allFields[j].id\n	})\n','	slices.SortFunc(allFields, func(a, b structField) int { return cmp.Compare(a.id, b.id) })\n'),(F,'	"sort"\n','	"slices"\n'),(F,'import (\n','import (\n	"cmp"\n')]),
('ok4-dup-first','ok','',[(F,'''		if f2, ok := fs.byID[f.id]; ok {
			err := fmt.Errorf("Go struct fields %s and %s conflict over field ID %d", f2.name, f.name, f.id)
			return structFields{}, &SemanticError{GoType: t, Err: err}
		}
''',''),(F,'	isEmptyStruct :=','''	names := make(map[int16]string)
	for _, f := range allFields {
		if name, ok := names[f.id]; ok {
			err := fmt.Errorf("Go struct fields %s and %s conflict over field ID %d", name, f.name, f.id)
			return structFields{}, &SemanticError{GoType: t, Err: err}
		}
		names[f.id] = f.name
	}

	isEmptyStruct :=''')]),
('ok4-adjacent-dup','ok','',[(F,'''		if f2, ok := fs.byID[f.id]; ok {
			err :=''','''		if i > 0 && fs.sorted[i-1].id == f.id {
			f2 := &fs.sorted[i-1]
			err :=''')]),
('ok4-iszero-fn','ok','',[(F,fsrc[fsrc.index('		// Provide a function that uses'):fsrc.index('		f.fncs = lookupArshaler')],'		f.isZero = zeroFunc(sf.Type)\n'),(F,'func makeStructFields(','''// zeroFunc returns a function that uses the IsZero method of t, if it has one.
func zeroFunc(t reflect.Type) func(addressableValue) bool {
	switch {
	case t.Kind() == reflect.Interface && t.Implements(isZeroerType):
		return func(va addressableValue) bool {
			return va.IsNil() || (va.Elem().Kind() == reflect.Pointer && va.Elem().IsNil()) || va.Interface().(isZeroer).IsZero()
		}
	case t.Kind() == reflect.Pointer && t.Implements(isZeroerType):
		return func(va addressableValue) bool {
			return va.IsNil() || va.Interface().(isZeroer).IsZero()
		}
	case t.Implements(isZeroerType):
		return func(va addressableValue) bool { return va.Interface().(isZeroer).IsZero() }
	case reflect.PointerTo(t).Implements(isZeroerType):
		return func(va addressableValue) bool { return va.Addr().Interface().(isZeroer).IsZero() }
	}
	return nil
}

func makeStructFields(''')]),
('ok4-opts-fn','ok','',[(F,OPTLOOP,'	err = out.parseOptions(sf.Name, tag)\n'),(F,'func consumeTagOption(','func (out *fieldOptions) parseOptions(name, tag string) (err error) {\n'+OPTLOOP.replace('sf.Name','name')+'	return err\n}\n\nfunc consumeTagOption(')]),
('ok4-sem-ctor','ok','',[(D,'			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}\n		}\n		v, err := r.ReadBool()','			return mismatch(wt, t)\n		}\n		v, err := r.ReadBool()'),(D,'			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}\n		}\n		v, err := r.ReadDouble()','			return mismatch(wt, t)\n		}\n		v, err := r.ReadDouble()'),(D,'func makeBoolArshaler(','func mismatch(wt thriftwire.Type, t reflect.Type) error {\n	return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}\n}\n\nfunc makeBoolArshaler(')]),
('ok4-struct-while','ok','',[(D,'''		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				err := &wireError{action: "ReadFieldBegin", err: err}
				return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: err}
			}
			if h.Type == thriftwire.Stop {
				break
			}
''','''		for h := (thriftwire.FieldHeader{}); ; {
			h, err = r.ReadFieldBegin()
			if err != nil {
				err := &wireError{action: "ReadFieldBegin", err: err}
				return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: err}
			}
			if h.Type == thriftwire.Stop {
				break
			}
''')]),
('ok4-codec-type','ok','',[(D,fn('makeBoolArshaler'),'''type boolCodec struct{ t reflect.Type }

func (c boolCodec) marshal(w thriftwire.Writer, va addressableValue, _ marshalOptions) error {
	if err := w.WriteBool(va.Bool()); err != nil {
		err := &wireError{action: "WriteBool", err: err}
		return &SemanticError{action: "marshal", ThriftType: thriftwire.Bool, GoType: c.t, Err: err}
	}
	return nil
}

func (c boolCodec) unmarshal(r thriftwire.Reader, va addressableValue, _ unmarshalOptions, wt thriftwire.Type) error {
	if wt != thriftwire.Bool {
		return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: c.t}
	}
	v, err := r.ReadBool()
	if err != nil {
		err := &wireError{action: "ReadBool", err: err}
		return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Bool, GoType: c.t, Err: err}
	}
	va.SetBool(v)
	return nil
}

func makeBoolArshaler(t reflect.Type) *arshaler {
	c := boolCodec{t}
	return &arshaler{wireType: thriftwire.Bool, marshal: c.marshal, unmarshal: c.unmarshal}
}
''')]),
]
MUTANTS=M
