//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
)

// c19doc: a document is the same after any two writes, failed or not, and is
// written the same again.
func c19doc[D any](o outKit[D]) {
	d, st := subject(&o.docKit)
	n := o.write(d)
	st.check(d, "after writing")
	for i := 0; i < 2; i++ {
		switch sym.Choice("then"+string(rune('0'+i)), 3) {
		case 0:
			assertTree(o.write(d), n, "written again")
		case 1: // fails early or late, for good or once
			s := &sym.Sink{Limited: true, Limit: 20 * sym.Choice("limit"+string(rune('0'+i)), 3), Once: sym.Bool("once" + string(rune('0'+i)))}
			_ = o.out(d, s)
		default:
			st.check(d, "again")
		}
		st.check(d, "after writing again")
	}
	assertTree(o.write(d), n, "written again")
	sym.Reached("end")
}

func C19_api()     { c19doc(outAPI()) }
func C19_library() { c19doc(outLib()) }

// c19part: documentation items and XML settings.
func c19part[D any](kit docKit[D]) {
	d, st := subject(&kit)
	n := kit.write(d)
	st.check(d, "after writing")
	assertTree(kit.write(d), n, "written again")
	st.check(d, "after writing again")
	sym.Reached("end")
}

func C19_docs()     { c19part(kitDoc()) }
func c19xml(k kind) { c19part(kitXML(k.expr)) }

// c19type: a type with any one facet, with none or with all of them, read or
// built, is the same after writing it in any of the ways there are.
func c19type(k kind) {
	slim = true
	var t raml.DataType
	have := map[int]fv{}
	c := len(k.facets)
	switch i := sym.Choice("facet", c+2); {
	case i == c+1:
		t, have = start(&k, false, "i")
	case i == c:
		t, have = start(&k, true, "i")
	case k.facets[i].built != nil && sym.Bool("built"):
		t, have = start(&k, false, "i")
		have[i] = k.facets[i].built("v")
		have[i].set(t)
	default:
		slim = false
		have[i] = k.facets[i].parsed("v")
		t = parseTypeNode(declare(&k, []fv{have[i]}, 1))
	}
	n := writeType(t)
	checkAll(&k, t, have, "after writing")
	for i := 0; i < 2; i++ {
		switch sym.Choice("then"+string(rune('0'+i)), 3) {
		case 0:
			assertTree(writeType(t), n, "written again")
		case 1:
			text, err := t.ToRAML()
			sym.Assert(err == nil, "a type is written as text")
			assertTree(sym.Tree([]byte(text)), n, "written as text")
		default:
			failedWrite(t)
		}
		checkAll(&k, t, have, "after writing again")
	}
	assertTree(writeType(t), n, "written again")
	sym.Reached("end")
}

// c19tables: writing a type leaves the tables it was given as they are, the way
// they are written by themselves included.
func c19tables(k kind) {
	slim = true
	t, have := start(&k, sym.Bool("full"), "i")
	i := sym.Choice("table", len(k.facets))
	sym.Assume(k.facets[i].multi != nil)
	n := sym.Choice("entries", 3)
	v := k.facets[i].multi("e", n)
	v.set(t)
	delete(have, i)
	ordered := sym.Bool("ordered")
	v.mode(t, ordered)
	own := v.own(t)
	w := writeType(t)
	v.check(t, n, "after writing")
	assertTree(v.own(t), own, "the table by itself after writing")
	if sym.Bool("failed") {
		failedWrite(t)
	}
	assertTree(writeType(t), w, "written again")
	v.check(t, n, "after writing again")
	assertTree(v.own(t), own, "the table by itself after writing again")
	v.mode(t, !ordered)
	v.mode(t, ordered)
	assertTree(writeType(t), w, "written again")
	for j := range k.facets {
		if f, ok := have[j]; ok {
			f.check(t, "after writing")
		} else if j != i {
			k.facets[j].absent(t, "after writing")
		}
	}
	sym.Reached("end")
}

func failedWrite(t raml.DataType) {
	l := rbuild.NewLibrary()
	l.SetTypes(raml.NewDataTypeMap(1).SerializeOrdered(false).Put("T", t))
	_ = l.WriteRAML(&sym.Sink{Limited: true, Limit: 30})
}

// c19example: the same for examples.
func c19example(k kind) {
	e, st := exBuilt(&k)
	t := parseTypeNode(exprNode(&k))
	giveExample(&k, t, e)
	n := writeType(t)
	st.check(&k, e, "after writing")
	assertTree(writeType(t), n, "written again")
	failedWrite(t)
	st.check(&k, e, "after writing again")
	assertTree(writeType(t), n, "written again")
	sym.Reached("end")
}
