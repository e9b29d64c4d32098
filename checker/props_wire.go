package main

import (
	"fmt"
	"os"
	"time"
)

var debugTime = os.Getenv("TCHECK_TIME") != ""

// scripts of single values, for readers and writers alike
func (w *wctx) valueScripts() [][]wireOp {
	var r [][]wireOp
	for _, n := range []string{"Bool", "Byte", "Double", "I16", "I32", "I64", "String", "Bytes", "UUID"} {
		r = append(r, []wireOp{opValue(n)})
	}
	r = append(r, []wireOp{w.opMessage()}, []wireOp{w.opMessage(), op0("MessageEnd")})
	types := wireTypes
	for _, k := range types {
		r = append(r, []wireOp{opSeq("SetBegin", k), op0("SetEnd")}, []wireOp{opSeq("ListBegin", k), op0("ListEnd")})
		for _, v := range types {
			r = append(r, []wireOp{opMap(k, v), op0("MapEnd")})
		}
	}
	return r
}

// fieldScript is a field of type k with a value; containers are followed by n
// elements at most.
func (w *wctx) fieldOps(k int64) []wireOp {
	f := opField(k, symID(fmt.Sprintf("id%d", k)))
	r := []wireOp{f}
	switch k {
	case wStruct:
		r = append(r, op0("StructBegin"), opField(wI32, symID("inner")), opValue("I32"), op0("FieldEnd"), op0("StructEnd"))
	case wMap:
		r = append(r, opMap(wI32, wBool), op0("MapEnd"))
	case wSet:
		r = append(r, opSeq("SetBegin", wByte), op0("SetEnd"))
	case wList:
		r = append(r, opSeq("ListBegin", wBool), op0("ListEnd"))
	default:
		r = append(r, opValue(valueOf[k]))
	}
	return append(r, op0("FieldEnd"))
}

func ops(xs ...any) []wireOp {
	var r []wireOp
	for _, x := range xs {
		switch x := x.(type) {
		case wireOp:
			r = append(r, x)
		case []wireOp:
			r = append(r, x...)
		}
	}
	return r
}

func fixed(name string, v *Term) wireOp { return wireOp{name: name, a: map[string]*Term{"v": v}} }
func sized1(name string, e, n int64) wireOp {
	return wireOp{name: name, a: map[string]*Term{"elem": ty(e), "size": mkI(n)}}
}
func map1(k, v, n int64) wireOp {
	return wireOp{name: "MapBegin", a: map[string]*Term{"key": ty(k), "value": ty(v), "size": mkI(n)}}
}

// structScripts are structs: nesting, sequences of fields with arbitrary IDs,
// and booleans, whose encoding depends on where they stand.
func (w *wctx) structScripts() [][]wireOp {
	sb, se, fe := op0("StructBegin"), op0("StructEnd"), op0("FieldEnd")
	i8 := func(n string) []wireOp { return ops(opField(wByte, symID(n)), opValue("Byte"), fe) }
	bo := func(n string) []wireOp { return ops(opField(wBool, symID(n)), opValue("Bool"), fe) }
	r := [][]wireOp{ops(sb, se)}
	for _, k := range wireTypes {
		r = append(r, ops(sb, w.fieldOps(k), se))
	}
	r = append(r,
		ops(sb, i8("a"), i8("b"), i8("c"), se),
		ops(sb, bo("a"), i8("b"), bo("c"), se),
		ops(sb, i8("a"), bo("b"), i8("c"), se),
		ops(sb, bo("a"), bo("b"), se, sb, i8("c"), se),
		// a boolean element right after a boolean field
		ops(sb, bo("a"), opField(wList, mkInt(16, 9)), sized1("ListBegin", wBool, 2), opValue("Bool"), opValue("Bool"), op0("ListEnd"), fe, bo("d"), se),
		ops(sb, opField(wMap, symID("m")), map1(wBool, wBool, 1), opValue("Bool"), opValue("Bool"), op0("MapEnd"), fe, bo("d"), se),
		ops(sb, opField(wSet, symID("m")), sized1("SetBegin", wBool, 1), opValue("Bool"), op0("SetEnd"), fe, se),
		// nesting: the IDs of the enclosing struct go on after the inner one
		ops(sb, i8("a"), opField(wStruct, symID("s")), sb, i8("b"), bo("c"), se, fe, i8("d"), bo("e"), se),
		ops(sb, opField(wStruct, symID("s")), sb, opField(wStruct, symID("t")), sb, i8("a"), se, fe, i8("b"), se, fe, i8("c"), se),
		ops(sb, opField(wList, symID("s")), sized1("ListBegin", wStruct, 2), sb, i8("a"), se, sb, i8("b"), se, op0("ListEnd"), fe, i8("c"), se),
		ops(sb, opField(wMap, symID("s")), map1(wI32, wStruct, 1), opValue("I32"), sb, bo("b"), se, op0("MapEnd"), fe, bo("c"), se),
		ops(w.opMessage(), sb, bo("a"), se, op0("MessageEnd"), w.opMessage(), sb, i8("b"), se, op0("MessageEnd")),
	)
	return r
}

var valueOf = map[int64]string{wBool: "Bool", wByte: "Byte", wDouble: "Double", wI16: "I16", wI32: "I32", wI64: "I64", wString: "String", wUUID: "UUID"}

// cats of the encoding properties
func encCats(c *Ctx) *judge {
	return newJudge(c, catBytes, catSpurious, catInvalid, catPanic, catBounds)
}
func decCats(c *Ctx) *judge {
	return newJudge(c, catBytes, catSpurious, catConsume, catPanic, catBounds)
}

// eachWire runs f for every protocol named.
func eachWire(c *Ctx, name string, f func(w *wctx)) {
	for _, p := range wireProtos {
		if name == "" || p.compact == (name == "compact") {
			c.guard(p.name, func() {
				w := newWctx(c, p)
				f(w)
				c.cover(w.in)
			})
		}
	}
}

func (w *wctx) eachScript(scripts [][]wireOp, f func(ops []wireOp)) {
	for _, s := range scripts {
		t0, n0 := time.Now(), w.c.nPaths
		w.c.guard(opsName(w.p, s, len(s)-1), func() { f(s) })
		if debugTime {
			fmt.Printf("time %.2f paths %d %s\n", time.Since(t0).Seconds(), w.c.nPaths-n0, opsName(w.p, s, len(s)-1))
		}
	}
}

func init() {
	register("B01", 492, "each write of the binary protocol emits exactly the bytes the protocol specifies", func(c *Ctx) {
		j := encCats(c)
		eachWire(c, "binary", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
		})
	})
	register("B02", 739, "each read of the binary protocol returns what was encoded and consumes exactly its encoding, and only the versions of the mode are accepted", func(c *Ctx) {
		j := newJudge(c, catBytes, catSpurious, catConsume, catPanic, catBounds, catRefuse)
		eachWire(c, "binary", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.refusals(j, "MessageBegin") // other versions, and none
		})
	})
	register("C01", 279, "each write of the compact protocol emits exactly the bytes the protocol specifies", func(c *Ctx) {
		j := encCats(c)
		eachWire(c, "compact", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
		})
	})
	register("C02", 280, "each read of the compact protocol returns what was encoded and consumes exactly its encoding", func(c *Ctx) {
		j := decCats(c)
		eachWire(c, "compact", func(w *wctx) {
			w.eachScript(w.valueScripts(), func(ops []wireOp) { w.readScript(j, ops) })
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.readScript(j, ops) })
		})
	})
	register("C03", 136, "a writer of the compact protocol keeps field IDs and booleans apart across fields and nested structs", func(c *Ctx) {
		j := encCats(c)
		eachWire(c, "compact", func(w *wctx) {
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.writeScript(j, ops) })
		})
	})
	register("C04", 277, "a reader of the compact protocol keeps field IDs and booleans apart across fields and nested structs", func(c *Ctx) {
		j := decCats(c)
		eachWire(c, "compact", func(w *wctx) {
			w.eachScript(w.structScripts(), func(ops []wireOp) { w.readScript(j, ops) })
		})
	})
}
