From 75a94a8dd3b71fcabdc4fa66df280c52413ac4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 01/14] fix: thriftcompact: keep the underlying writer across
 Writer.Reset

Reset dropped it, so Flush after a Reset no longer flushed the
underlying writer.
---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From fd05ee04d1cad44bf5d4af6766ce7a529d1cd077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 02/14] fix: thriftcompact: write the sequence ID as a 32-bit
 varint

A negative ID was sign-extended to 64 bits and took ten bytes.
---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..9312392 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -312,7 +312,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a4e5a922d841dd3a56a7d29cecb6ec689637be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 03/14] fix: thriftfile: do not reserve the token range markers
 as keywords

The identifiers definition_beg and definition_end were scanned as
keyword tokens.
---
 tools/thriftfile/tokens.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/thriftfile/tokens.go b/tools/thriftfile/tokens.go
index bae47f8..1463f2d 100644
--- a/tools/thriftfile/tokens.go
+++ b/tools/thriftfile/tokens.go
@@ -83,6 +83,9 @@ var keywords map[string]token
 func init() {
 	keywords = make(map[string]token, keyword_end-(keyword_beg+1))
 	for i := keyword_beg + 1; i < keyword_end; i++ {
+		if i == definition_beg || i == definition_end {
+			continue // markers, not keywords
+		}
 		keywords[i.String()] = i
 	}
 }
-- 
2.43.0


From bae7e5bbfb5b963765a6c1786de45334297bd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 04/14] fix: thriftfile: set the token of a malformed string
 literal

The scanner returned the previous token again after a newline or an
unknown escape in a string.
---
 tools/thriftfile/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/thriftfile/scanner.go b/tools/thriftfile/scanner.go
index d8fa7e8..e93cf5a 100644
--- a/tools/thriftfile/scanner.go
+++ b/tools/thriftfile/scanner.go
@@ -317,6 +317,7 @@ func (s *scanner) number(seenPoint bool) {
 
 func (s *scanner) string() {
 	quote := s.ch
+	s.tok = _STRING
 	s.nextch()
 	for {
 		if s.ch == quote {
@@ -340,7 +341,6 @@ func (s *scanner) string() {
 		}
 		s.nextch()
 	}
-	s.tok = _STRING
 }
 
 func (s *scanner) escape(quote rune) bool {
-- 
2.43.0


From 71cd1ccdce321ad0c2dfcf6c3ebaf33be7481426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 05/14] fix: thriftcompact: accept empty sets and lists without
 an element type

The element type of an empty set or list may be Stop, and the reader
accepts such a header, but the writer refused it.
---
 encoding/thriftcompact/thriftcompact.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 9312392..0a13f27 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -429,6 +429,9 @@ const MaxSetHeaderSize = 1 + binary.MaxVarintLen64
 
 // AppendSetHeader appends h to buf and returns the extended buffer.
 func AppendSetHeader(buf []byte, h thriftwire.SetHeader) ([]byte, error) {
+	if h.Size == 0 && h.Element == thriftwire.Stop {
+		return append(buf, byte(_STOP)), nil
+	}
 	e, err := typeCompact(h.Element)
 	if err != nil {
 		return buf, err
-- 
2.43.0


From 8a6adb290faa71782a7495013d0e042f38870bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 06/14] fix: thrift: report a failure to skip an unknown field
 as a SemanticError

It was the only failure of the reader that Unmarshal returned as is.
---
 thrift/arshal_default.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..efee71b 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -345,7 +345,8 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			f, ok := fields.byID[h.ID]
 			if !ok {
 				if err := thriftwire.Skip(r, h.Type); err != nil {
-					return err
+					err := &wireError{action: "Skip", err: err}
+					return &SemanticError{action: "unmarshal", ThriftType: h.Type, GoType: t, Err: err}
 				}
 			} else {
 				v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
-- 
2.43.0


From 02b4db2d9d03070df9f729733fd3096eed2d894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 07/14] fix: reject sizes that are negative or do not fit in an
 i32 when reading

A map, set or list with such a size was read as an empty one.
---
 encoding/thriftbinary/thriftbinary.go   | 11 +++++++++--
 encoding/thriftcompact/thriftcompact.go | 13 +++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8af57f4..3c596f9 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -68,10 +68,11 @@ func newReader(r io.Reader, strict bool) *reader {
 }
 
 func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
-	n, err := x.readSize()
+	v, err := x.ReadI32()
 	if err != nil {
 		return h, err
 	}
+	n := int(v)
 	if n < 0 {
 		version := int64(n) & versionMask
 		if version != version1 {
@@ -247,7 +248,13 @@ func (x *reader) readType() (thriftwire.Type, error) {
 
 func (x *reader) readSize() (int, error) {
 	v, err := x.ReadI32()
-	return int(v), err
+	if err != nil {
+		return 0, err
+	}
+	if v < 0 {
+		return 0, fmt.Errorf("thriftbinary: negative size %d", v)
+	}
+	return int(v), nil
 }
 
 type writer struct {
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 0a13f27..47cea69 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -135,8 +135,14 @@ func (x *reader) ReadFieldEnd() error {
 }
 
 func readSize(b *bufio.Reader) (int, error) {
-	v, err := binary.ReadUvarint(b)
-	return int(v), err
+	v, err := thriftwire.ReadUvarint(b)
+	if err != nil {
+		return 0, err
+	}
+	if v > math.MaxInt32 {
+		return 0, fmt.Errorf("thriftcompact: size %d out of range", v)
+	}
+	return int(v), nil
 }
 
 // ReadMapHeader reads a map header from b.
@@ -282,8 +288,7 @@ func (x *reader) readUvarint() (uint64, error) {
 }
 
 func (x *reader) readSize() (int, error) {
-	v, err := x.readUvarint()
-	return int(v), err
+	return readSize(x.Reader)
 }
 
 func (x *reader) Reset(r io.Reader) {
-- 
2.43.0


From d417c694540df770d1959e49a6d0abcf5ae20acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/14] fix: refuse to write sizes that do not fit in an i32

The binary protocol truncated them silently, and the compact protocol
wrote sizes that no reader may accept.
---
 encoding/thriftbinary/thriftbinary.go   |  3 +++
 encoding/thriftcompact/thriftcompact.go | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 3c596f9..8c576e0 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -420,5 +420,8 @@ func (x *writer) writeType(t thriftwire.Type) error {
 }
 
 func (x *writer) writeSize(v int) error {
+	if v < 0 || v > math.MaxInt32 {
+		return fmt.Errorf("thriftbinary: size %d out of range", v)
+	}
 	return x.WriteI32(int32(v))
 }
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 47cea69..7b82fdd 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -416,6 +416,9 @@ func AppendMapHeader(buf []byte, h thriftwire.MapHeader) ([]byte, error) {
 	if err != nil {
 		return buf, err
 	}
+	if err := checkSize(h.Size); err != nil {
+		return buf, err
+	}
 	buf = appendSize(buf, h.Size)
 	buf = append(buf, byte(k<<4)|byte(v))
 	return buf, nil
@@ -444,6 +447,9 @@ func AppendSetHeader(buf []byte, h thriftwire.SetHeader) ([]byte, error) {
 	if h.Size >= 0 && h.Size < 15 {
 		return append(buf, byte(h.Size<<4)|byte(e)), nil
 	}
+	if err := checkSize(h.Size); err != nil {
+		return buf, err
+	}
 	buf = append(buf, 0xf0|byte(e))
 	buf = appendSize(buf, h.Size)
 	return buf, nil
@@ -574,7 +580,17 @@ func (x *writer) writeUvarint(v uint64) error {
 	return err
 }
 
+func checkSize(v int) error {
+	if v < 0 || v > math.MaxInt32 {
+		return fmt.Errorf("thriftcompact: size %d out of range", v)
+	}
+	return nil
+}
+
 func (x *writer) writeSize(v int) error {
+	if err := checkSize(v); err != nil {
+		return err
+	}
 	return x.writeUvarint(uint64(v))
 }
 
-- 
2.43.0


From b8ab184f54dafe0749bdf5ea8c88780987fb3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 09/14] fix: thrift: reject structs in which two fields share a
 field ID

Marshal wrote both fields and Unmarshal set only one of them.
---
 thrift/fields.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thrift/fields.go b/thrift/fields.go
index e67ecec..a117a56 100644
--- a/thrift/fields.go
+++ b/thrift/fields.go
@@ -83,7 +83,7 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 		return structFields{}, &SemanticError{GoType: t, Err: err}
 	}
 
-	sort.Slice(allFields, func(i, j int) bool {
+	sort.SliceStable(allFields, func(i, j int) bool {
 		return allFields[i].id < allFields[j].id
 	})
 
@@ -93,6 +93,10 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 	}
 	for i := range fs.sorted {
 		f := &fs.sorted[i]
+		if f2, ok := fs.byID[f.id]; ok {
+			err := fmt.Errorf("Go struct fields %s and %s conflict over field ID %d", f2.name, f.name, f.id)
+			return structFields{}, &SemanticError{GoType: t, Err: err}
+		}
 		fs.byID[f.id] = f
 	}
 
-- 
2.43.0


From 8802c47b08d3d5fa80b6f904828e2ecd10dbb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 10/14] fix: do not redirect a caller's bufio.Reader or
 bufio.Writer on Reset

bufio.NewReader and bufio.NewWriter return their argument when it is
already buffered, so Reset redirected the caller's own bufio.Reader or
bufio.Writer to the new stream and dropped what it had buffered.
---
 encoding/thriftbinary/thriftbinary.go   | 11 ++++++++++-
 encoding/thriftcompact/thriftcompact.go | 11 ++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8c576e0..b581d64 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -236,6 +236,11 @@ func (x *reader) SkipUUID() error {
 	return err
 }
 
+func (x *reader) Reset(r io.Reader) {
+	// Do not reset x.Reader, it may be a bufio.Reader of the caller.
+	x.Reader = bufio.NewReader(r)
+}
+
 func (x *reader) readMessageType() (thriftwire.MessageType, error) {
 	v, err := x.ReadByte()
 	return thriftwire.MessageType(v), err
@@ -407,7 +412,11 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(w io.Writer) {
-	x.Writer.Reset(w)
+	if x.w == io.Writer(x.Writer) {
+		x.Writer = bufio.NewWriter(w) // x.Writer is a bufio.Writer of the caller
+	} else {
+		x.Writer.Reset(w)
+	}
 	x.w = w
 }
 
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 7b82fdd..5e30977 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -292,7 +292,7 @@ func (x *reader) readSize() (int, error) {
 }
 
 func (x *reader) Reset(r io.Reader) {
-	x.Reader.Reset(r)
+	// Do not reset x.Reader, it may be a bufio.Reader of the caller.
 	*x = reader{
 		Reader:       bufio.NewReader(r),
 		lastFieldIDs: x.lastFieldIDs[:0],
@@ -545,9 +545,14 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(uw io.Writer) {
-	x.Writer.Reset(uw)
+	bw := x.Writer
+	if x.uw == io.Writer(bw) {
+		bw = bufio.NewWriter(uw) // bw is a bufio.Writer of the caller
+	} else {
+		bw.Reset(uw)
+	}
 	*x = writer{
-		Writer:       x.Writer,
+		Writer:       bw,
 		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
-- 
2.43.0


From 90e0c77389f48fac6a6750da39107ca8ad7dc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 11/14] fix: thrift: support recursive map, slice and pointer
 types

Looking up the arshaler of such a type recursed until the stack
overflowed. A type of nothing but pointers is reported as unsupported.
---
 thrift/arshal_default.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index efee71b..373065e 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -59,6 +59,9 @@ func makeDefaultArshaler(t reflect.Type) *arshaler {
 		}
 		return makeInvalidArshaler(t)
 	case reflect.Pointer:
+		if isCyclicPointer(t) {
+			return makeInvalidArshaler(t)
+		}
 		return makePointerArshaler(t)
 	default:
 		return makeInvalidArshaler(t)
@@ -398,10 +401,18 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() { // lazily, as t may be recursive
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -437,6 +448,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -491,9 +503,16 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() { // lazily, as t may be recursive
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -520,6 +539,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		return nil
 	}
 	fncs.unmarshal = func(r thriftwire.Reader, va addressableValue, uo unmarshalOptions, wt thriftwire.Type) error {
+		once.Do(init)
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
@@ -595,6 +615,20 @@ func makeListArshaler(t reflect.Type) *arshaler {
 	)
 }
 
+// isCyclicPointer reports whether t points to nothing but pointers,
+// such as P in "type P *P".
+func isCyclicPointer(t reflect.Type) bool {
+	seen := make(map[reflect.Type]bool)
+	for t.Kind() == reflect.Pointer {
+		if seen[t] {
+			return true
+		}
+		seen[t] = true
+		t = t.Elem()
+	}
+	return false
+}
+
 func makePointerArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
-- 
2.43.0


From 21b914ad5e4bcf4b12e819ab1a3f20a53576bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 12/14] fix: bound the nesting depth of marshaled, unmarshaled
 and skipped values

A few megabytes of nested input, or a cyclic Go value, overflowed the
stack, which a program cannot recover from.
---
 encoding/thriftwire/skip.go | 25 ++++++++++++++++++++-----
 thrift/arshal.go            | 13 +++++++++++--
 thrift/arshal_default.go    | 18 ++++++++++++++++++
 3 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..5540fe0 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,22 @@
 package thriftwire
 
+import "errors"
+
+// maxSkipDepth is the maximum nesting depth of values that can be skipped.
+const maxSkipDepth = 10000
+
+var errSkipDepth = errors.New("thriftwire: exceeded maximum nesting depth")
+
 // Skip skips over the next value.
 func Skip(r Reader, t Type) (err error) {
+	return skip(r, t, maxSkipDepth)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth <= 0 {
+		return errSkipDepth
+	}
+	depth--
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +46,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +60,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth); err != nil {
 				return err
 			}
 		}
@@ -59,7 +74,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
@@ -70,7 +85,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth); err != nil {
 				return err
 			}
 		}
diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..e78f8aa 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,7 +8,14 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth is the maximum nesting depth of structs, maps, sets and lists.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded maximum nesting depth")
+
+type marshalOptions struct {
+	depth int // nesting depth of the value being marshaled
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
 func Marshal(out thriftwire.Writer, in any) error {
@@ -37,7 +44,9 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+type unmarshalOptions struct {
+	depth int // nesting depth of the value being unmarshaled
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
 func Unmarshal(in thriftwire.Reader, out any) error {
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index 373065e..750801d 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -276,6 +276,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			err.action = "marshal"
 			return &err
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		err := w.WriteStructBegin(thriftwire.StructHeader{
 			Name: t.Name(),
 		})
@@ -331,6 +334,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
 			err := &wireError{action: "ReadStructBegin", err: err}
@@ -416,6 +422,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := w.WriteMapBegin(thriftwire.MapHeader{
 			Key:   keyFncs.wireType,
@@ -452,6 +461,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		h, err := r.ReadMapBegin()
 		if err != nil {
 			err := &wireError{action: "ReadMapBegin", err: err}
@@ -516,6 +528,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := writeBegin(w, H{
 			Element: valFncs.wireType,
@@ -543,6 +558,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		h, err := readBegin(r)
 		if err != nil {
 			err := &wireError{action: readBeginAction, err: err}
-- 
2.43.0


From 30bc760a404f4644c3e80ccae3c153a366c647ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 13/14] fix: thriftfile: bound the nesting depth of types and
 values

A few megabytes of nested types or values overflowed the stack, which a
program cannot recover from.
---
 tools/thriftfile/parser.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..683d958 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -75,9 +75,13 @@ func (p errors_) Error() string {
 	return fmt.Sprintf("%s (and %d more errors)", p[0], len(p)-1)
 }
 
+// maxDepth is the maximum nesting depth of types and values.
+const maxDepth = 10000
+
 type parser struct {
 	scanner
-	errs errors_
+	errs  errors_
+	depth int // nesting depth of the type or value being parsed
 }
 
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
@@ -185,6 +189,17 @@ func (p *parser) string() *String {
 	return &x
 }
 
+// nest accounts for a nested type or value, and returns a function
+// that must be called after it has been parsed.
+func (p *parser) nest() func() {
+	if p.depth++; p.depth > maxDepth {
+		p.depth--
+		p.error(p.pos, "exceeded maximum nesting depth")
+		panic(badDef{})
+	}
+	return func() { p.depth-- }
+}
+
 func (p *parser) file_() *File {
 	var x File
 	for h := p.header(); h != nil; h = p.header() {
@@ -401,6 +416,7 @@ func (p *parser) methods() *MethodList {
 }
 
 func (p *parser) type_() Type {
+	defer p.nest()()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +472,7 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	defer p.nest()()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From 8d8f75c183f2c1945c9435aa24e09acf508f384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 14/14] fix: thriftwire: do not wait for bytes beyond the
 varint when reading one

Peeking MaxVarintLen64 bytes blocked until the peer sent as many, so
reading a short message from a connection never returned.
---
 encoding/thriftwire/varint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..265fca4 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,7 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +18,7 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0

