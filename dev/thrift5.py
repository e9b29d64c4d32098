D='thrift/arshal_default.go'; F='thrift/fields.go'; A='thrift/arshal.go'; E='thrift/errors.go'
UD='		if uo.depth++; uo.depth > maxDepth {\n			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}\n		}\n'
FB='			h, err := r.ReadFieldBegin()\n'
M=[
('depth-perfield','bug','T13',[(D,UD,''),(D,'		for {\n'+FB,'		for {\n	'+UD+FB)]),
('depth-wide','bug','T13',[(D,'			for iter := va.MapRange(); iter.Next(); {\n','			for iter := va.MapRange(); iter.Next(); {\n				mo.depth++\n')]),
('ptr-newdepth','bug','T13',[(D,'		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.marshal(w, v, mo)','		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.marshal(w, v, marshalOptions{})')]),
('bytes-elem','bug','T04',[(D,'		case t.AssignableTo(bytesType):','		case t.Elem().Kind() == reflect.Uint8:')]),
('bytes-exact','bug','T01',[(D,'		case t.AssignableTo(bytesType):','		case t == bytesType:')]),
('bytes-beforeset','bug','T04',[(D,'''		case t.Implements(setType):
			return makeSetArshaler(t)
		case t.Implements(listType):
			return makeListArshaler(t)
		case t.AssignableTo(bytesType):
			return makeBytesArshaler(t)
''','''		case t.AssignableTo(bytesType):
			return makeBytesArshaler(t)
		case t.Implements(setType):
			return makeSetArshaler(t)
		case t.Implements(listType):
			return makeListArshaler(t)
''')]),
('map-err-lost','bug','T05',[(D,'				err = valFncs.unmarshal(r, v, uo, h.Value)\n				va.SetMapIndex(k.Value, v.Value)\n				if err != nil {\n					return err\n				}','				va.SetMapIndex(k.Value, v.Value)\n				if err = valFncs.unmarshal(r, v, uo, h.Value); err != nil {\n					return err\n				}')]),
('list-grow2','bug','T09',[(D,'					va.Grow(1)\n					cap = va.Cap()\n					va.SetLen(cap)\n','					va.SetLen(i)\n					va.Grow(1)\n					cap = va.Cap()\n					va.SetLen(cap)\n')]),
('list-cap-1','bug','T09',[(D,'			cap := va.Cap()\n			if cap > 0 {\n				va.SetLen(cap)\n			}','			cap := va.Len()')]),
('iszero-addr-first','ok','',[(F,'''		case sf.Type.Implements(isZeroerType):
			f.isZero = func(va addressableValue) bool { return va.Interface().(isZeroer).IsZero() }
		case reflect.PointerTo(sf.Type).Implements(isZeroerType):
			f.isZero = func(va addressableValue) bool { return va.Addr().Interface().(isZeroer).IsZero() }
''','''		case reflect.PointerTo(sf.Type).Implements(isZeroerType):
			f.isZero = func(va addressableValue) bool { return va.Addr().Interface().(isZeroer).IsZero() }
''')]),
('iszero-default-or','bug','T06',[(D,'((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v)))','(v.IsZero() || (f.isZero != nil && f.isZero(v)))')]),
('required-zeroer','bug','T06',[(D,'if !f.required && ((f.isZero == nil && v.IsZero()) || (f.isZero != nil && f.isZero(v)))','if (f.isZero == nil && !f.required && v.IsZero()) || (f.isZero != nil && f.isZero(v))')]),
('tag-dash-opt','bug','T08',[(F,'	if tag == "-" {','	if strings.HasPrefix(tag, "-,") || tag == "-" {')]),
('sort-pos','bug','T06',[(F,'		return allFields[i].id < allFields[j].id','		return uint16(allFields[i].id) < uint16(allFields[j].id)')]),
('err-first-nil','bug','T08',[(E,'		if err != nil {\n			return err\n		}\n	}\n	return nil','		if err != nil {\n			return errs[len(errs)-1]\n		}\n	}\n	return nil')]),
('skip-act','bug','T07',[(D,'			if !ok {\n','			if !ok || f.fncs.wireType != h.Type && h.Type == thriftwire.Bool {\n')]),
('ptr-after','bug','T09',[(D,'		if va.IsNil() {\n			va.Set(reflect.New(t.Elem()))\n		}\n		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.unmarshal(r, v, uo, wt)','		if va.IsNil() || wt == thriftwire.Struct {\n			va.Set(reflect.New(t.Elem()))\n		}\n		v := addressableValue{va.Elem()} // dereferenced pointer is always addressable\n		return valFncs.unmarshal(r, v, uo, wt)')]),
('once-late','bug','T12',[(D,'	fields, errInit = makeStructFields(t)\n','	fields, errInit = makeStructFields(t)\n'),(D,'			f, ok := fields.byID[h.ID]\n','			f, ok := fields.byID[h.ID]\n			if !ok {\n				f, ok = nil, false\n			} else if h.Name != "" {\n				f.name = h.Name\n			}\n')]),
('lookup-store','bug','T12',[(A,'	fncs := makeDefaultArshaler(t)\n\n	// Use the last stored so that duplicate arshalers can be garbage collected.\n	v, _ := lookupArshalerCache.LoadOrStore(t, fncs)\n	return v.(*arshaler)','	fncs := &arshaler{}\n	v, loaded := lookupArshalerCache.LoadOrStore(t, fncs)\n	if !loaded {\n		*fncs = *makeDefaultArshaler(t)\n	}\n	return v.(*arshaler)')]),
('list-limit','bug','T05',[(D,'		sh := thriftwire.SetHeader(h)\n','		sh := thriftwire.SetHeader(h)\n		if sh.Size > 1<<20 {\n			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}\n		}\n')]),
('bool-only-true','bug','T02',[(D,'		va.SetBool(v)','		if v {\n			va.SetBool(v)\n		}')]),
('string-same','ok','',[(D,'		va.SetString(v)','		if va.String() != v {\n			va.SetString(v)\n		}')]),
('name-long','bug','T06',[(D,'				Name: f.name,\n				Type: f.fncs.wireType,','				Name: f.name[:min(len(f.name), 1<<8)],\n				Type: f.fncs.wireType,')]),
('fields-wide','bug','T06',[(F,'	sort.SliceStable(allFields','	if len(allFields) > 10 {\n		allFields = allFields[:10]\n	}\n	sort.SliceStable(allFields')]),
('byid-dense','bug','T07',[(D,'			f, ok := fields.byID[h.ID]\n','			var f *structField\n			ok := false\n			if n := int(h.ID); n >= 0 && n < len(fields.sorted) && fields.sorted[n].id == h.ID {\n				f, ok = &fields.sorted[n], true\n			} else if len(fields.sorted) < 1<<8 {\n				f, ok = fields.byID[int16(int8(h.ID))]\n			}\n')]),
('byid-dense-ok','ok','',[(D,'			f, ok := fields.byID[h.ID]\n','			var f *structField\n			ok := false\n			if n := int(h.ID) - 1; n >= 0 && n < len(fields.sorted) && fields.sorted[n].id == h.ID {\n				f, ok = &fields.sorted[n], true\n			} else {\n				f, ok = fields.byID[h.ID]\n			}\n')]),
('byid-last','ok','',[(D,'		for {\n			h, err := r.ReadFieldBegin()','		next := 0\n		for {\n			h, err := r.ReadFieldBegin()'),(D,'			f, ok := fields.byID[h.ID]\n','			var f *structField\n			ok := next < len(fields.sorted) && fields.sorted[next].id == h.ID\n			if ok {\n				f = &fields.sorted[next]\n				next++\n			} else {\n				f, ok = fields.byID[h.ID]\n			}\n')]),
('binsearch','ok','',[(D,'			f, ok := fields.byID[h.ID]\n','			n := sort.Search(len(fields.sorted), func(i int) bool { return fields.sorted[i].id >= h.ID })\n			ok := n < len(fields.sorted) && fields.sorted[n].id == h.ID\n			var f *structField\n			if ok {\n				f = &fields.sorted[n]\n			}\n'),(D,'	"reflect"\n','	"reflect"\n	"sort"\n')]),
]
MUTANTS=M
