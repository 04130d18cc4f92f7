//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- types ----

// pollute puts entries into every table that the type hands out.
func pollute(k *kind, t raml.DataType) {
	t.ExtraFacets().Put("zz", 1)
	if a, ok := t.(annotated_); ok {
		a.Annotations().Put("(zz)", raml.NewUntypedMap(0))
	}
	if f, ok := t.(faceted_); ok {
		f.FacetDefinitions().Put("zz", raml.NewDataTypeMap(0))
	}
	if o, ok := t.(raml.ObjectType); ok {
		o.Properties().Put("zz", parseTypeNode(strNode("string")).(raml.Property))
	}
	if k.ex.add != nil {
		k.ex.add(t, "zz", k.ex.fresh())
	}
	if f := formatOf(t); f != nil {
		sym.Assert(f.UnmarshalYAML(strNode("zz")) == nil, "a format reads any text")
		sym.Assert(f.String() == "zz" && formatOf(t).String() == "zz", "a format is the one that was read")
	}
}

// formatOf is the format of the type, if it has one.
func formatOf(t raml.DataType) interface {
	String() string
	UnmarshalYAML(*yaml.Node) error
} {
	switch t := t.(type) {
	case raml.NumberType:
		if f := t.Format(); f != nil {
			return f
		}
	case raml.IntegerType:
		if f := t.Format(); f != nil {
			return f
		}
	case raml.DatetimeType:
		if f := t.Format(); f != nil {
			return f
		}
	}
	return nil
}

// meddle does anything to the type: any call, or changing its tables.
func meddle(k *kind, t raml.DataType, id string) {
	if k.ex.fresh == nil || sym.Bool(id+"tables") {
		pollute(k, t)
		return
	}
	change(k, t, map[int]fv{}, id)
}

// c20type: a type is not affected by anything that is done to another one of
// the same kind, created before or after it.
func c20type(k kind) {
	slim = true
	if sym.Tier() == 0 {
		each = 1
	}
	full := sym.Bool("full")
	var t raml.DataType
	var have map[int]fv
	first := sym.Bool("first")
	if first {
		t, have = start(&k, full, "i")
	}
	o, _ := start(&k, sym.Tier() > 0 && sym.Bool("otherFull"), "o")
	meddle(&k, o, "m0")
	writeType(o)
	if !first {
		t, have = start(&k, full, "i")
	}
	checkAll(&k, t, have, "read")
	n := writeType(t)
	if sym.Tier() > 0 {
		meddle(&k, o, "m1")
	} else {
		pollute(&k, o)
	}
	checkAll(&k, t, have, "after changing another type")
	assertTree(writeType(t), n, "after changing another type")
	sym.Reached("end")
}

// c20unset: what a type hands out after its tables were unset or set to
// nothing is its own.
func c20unset(k kind) {
	slim = true
	full := sym.Bool("full")
	a, _ := start(&k, full, "a")
	b, _ := start(&k, full, "b")
	clearAll := sym.Bool("nil")
	for _, t := range []raml.DataType{a, b} {
		for i := range k.facets {
			f := &k.facets[i]
			if f.unset != nil && (f.setNil == nil || !clearAll) {
				f.unset(t)
			} else if f.setNil != nil {
				f.setNil(t)
			}
		}
	}
	had := map[int]bool{}
	for i := range k.facets {
		if k.facets[i].unset != nil || k.facets[i].setNil != nil || !full {
			had[i] = true
			k.facets[i].absent(b, "unset")
		}
	}
	pollute(&k, a)
	for i := range k.facets {
		if had[i] {
			k.facets[i].absent(b, "after changing another type's tables")
		}
	}
	c := parseTypeNode(exprNode(&k))
	checkAll(&k, c, nil, "a type read later")
	if k.mk != nil {
		checkAll(&k, k.mk(), nil, "a type created later")
	}
	sym.Reached("end")
}

// c20example: examples do not affect each other.
func c20example(k kind) {
	full := sym.Bool("full")
	e, st := exStart(&k, full)
	o, ost := exStart(&k, false)
	if sym.Bool("tables") {
		o.Annotations().Put("(zz)", raml.NewUntypedMap(0))
		o.ExtraFacets().Put("zz", 1)
	} else {
		exChange(&k, o, ost, "m")
	}
	st.check(&k, e, "after changing another example")
	later, lst := exStart(&k, false)
	lst.check(&k, later, "created later")
	sym.Reached("end")
}

// ---- documents ----

// c20doc: a document is not affected by anything that is done to another one.
func c20doc[D any](kit docKit[D], pollute func(D)) {
	slim = true
	first, full := sym.Bool("first"), sym.Bool("full")
	var d D
	var st *state[D]
	if first {
		d, st = secStart(&kit, full)
	}
	kit2 := kit
	o, ost := secStart(&kit2, sym.Bool("otherFull"))
	if sym.Bool("unset") {
		for i := range kit.sections {
			if kit.sections[i].unset != nil {
				kit.sections[i].unset(o)
			}
		}
		pollute(o)
	} else if sym.Bool("tables") {
		pollute(o)
	} else {
		secChange(o, ost, "m0")
	}
	if sym.Bool("written") {
		kit.write(o)
	}
	if !first {
		d, st = secStart(&kit, full)
	}
	st.check(d, "after changing another document")
	w := kit.write(d)
	pollute(o)
	st.check(d, "after changing another document")
	assertTree(kit.write(d), w, "after changing another document")
	sym.Reached("end")
}

// c20lists: a list one type hands out, given to another, is that one's: what
// becomes of the first type's list later does not show there.
func c20lists(k kind) {
	i := sym.Choice("list", len(k.facets))
	f := &k.facets[i]
	sym.Assume(f.setList != nil)
	a, b, c := parseTypeNode(exprNode(&k)), parseTypeNode(exprNode(&k)), parseTypeNode(exprNode(&k))
	if k.mk != nil {
		b = k.mk()
	}
	var v fv
	if sym.Bool("parsed") {
		v = f.parsed("v")
		a = parseTypeNode(declare(&k, []fv{v}, 0))
	} else {
		v = f.built("v")
		v.set(a)
	}
	l := f.list(a)
	f.setList(b, l)
	w := writeType(b)
	switch sym.Choice("then", 4) {
	case 0:
		f.built("w").set(a)
	case 1:
		f.unset(a)
		f.built("w").set(a)
	case 2:
		f.setNil(a)
		f.built("w").set(a)
	default:
		writeType(a)
		f.unset(a)
	}
	v.check(b, "after changing the type the list is from")
	assertTree(writeType(b), w, "after changing the type the list is from")
	f.setList(c, l)
	v.check(c, "the list handed out before")
	sym.Reached("end")
}

// c20docLists: likewise for the lists of documents, which also fit each other.
func c20docLists[D any](kit docKit[D]) {
	sec := &kit.sections[sym.Choice("list", len(kit.sections))]
	to := &kit.sections[sym.Choice("to", len(kit.sections))]
	sym.Assume(sec.setList != nil && to.setList != nil)
	a, b, c := kit.fresh(), kit.fresh(), kit.fresh()
	var v sv[D]
	if sym.Bool("parsed") {
		v = sec.parsed("v")
		a = kit.read(mapNode(strNode(v.name), v.in))
	} else {
		v = sec.built("v")
		v.set(a)
	}
	l := sec.list(a)
	sym.Assume(to.setList(b, l))
	w := kit.write(b)
	switch sym.Choice("then", 4) {
	case 0:
		sec.built("w").set(a)
	case 1:
		sec.unset(a)
		sec.built("w").set(a)
	case 2:
		sec.setNil(a)
		sec.built("w").set(a)
	default:
		kit.write(a)
		sec.unset(a)
	}
	assertTree(kit.write(b), w, "after changing the document the list is from")
	sec.setList(b, to.list(b))
	v.check(b, "after changing the document the list is from")
	sec.setList(c, l)
	v.check(c, "the list handed out before")
	sym.Reached("end")
}

func C20_apiLists() { c20docLists(kitAPI()) }

// c20docUnset: tables that were unset are the document's own.
func c20docUnset[D any](kit docKit[D], pollute func(D)) {
	slim = true
	full, nils := sym.Bool("full"), sym.Bool("nil")
	a, _ := secStart(&kit, full)
	b, st := secStart(&kit, full)
	for _, d := range []D{a, b} {
		for i := range kit.sections {
			s := &kit.sections[i]
			if s.setNil != nil && nils {
				s.setNil(d)
			} else if s.unset != nil {
				s.unset(d)
			} else {
				continue
			}
			delete(st.have, i)
		}
	}
	st.check(b, "unset")
	pollute(a)
	st.check(b, "after changing another document's tables")
	c := kit.fresh()
	(&state[D]{kit: &kit}).check(c, "created later")
	sym.Reached("end")
}

func polluteAPI(d raml.APISpec) {
	for _, m := range []raml.UntypedMap{d.BaseURIParameters(), d.SecuritySchemes(), d.AnnotationTypes(), d.Traits(), d.ResourceTypes(), d.Resources()} {
		m.Put("zz", 1)
	}
	d.Uses().Put("zz", "zz")
	d.Types().Put("zz", parseTypeNode(strNode("string")))
	d.Annotations().Put("(zz)", raml.NewUntypedMap(0))
	d.ExtraFacets().Put("zz", 1)
}

func polluteLib(d raml.Library) {
	for _, m := range []raml.UntypedMap{d.SecuritySchemes(), d.AnnotationTypes(), d.Traits(), d.ResourceTypes()} {
		m.Put("zz", 1)
	}
	d.Uses().Put("zz", "zz")
	d.Types().Put("zz", parseTypeNode(strNode("string")))
	d.Annotations().Put("(zz)", raml.NewUntypedMap(0))
	d.ExtraFacets().Put("zz", 1)
}

func polluteDoc(d raml.Documentation) { d.SetTitle("zz").SetContent("zz").ExtraFacets().Put("zz", 1) }
func polluteXML(d raml.XML)           { d.SetName("zz").SetPrefix("zz").SetIsWrapped(true) }

func C20_api()          { c20doc(kitAPI(), polluteAPI) }
func C20_library()      { c20doc(kitLib(), polluteLib) }
func C20_docs()         { c20doc(kitDoc(), polluteDoc) }
func C20_xml()          { c20doc(kitXML("string"), polluteXML) }
func C20_apiUnset()     { c20docUnset(kitAPI(), polluteAPI) }
func C20_libraryUnset() { c20docUnset(kitLib(), polluteLib) }

// C20_history: reading a document gives the same after anything was read.
func C20_history() {
	name, text := anyString("name"), anyText("text")
	doc := mapNode(strNode("types"), mapNode(strNode(name), mapNode(strNode("type"), strNode("string"),
		strNode("pattern"), strNode(text), strNode("x"), strNode(text))), strNode("usage"), strNode(text))
	before := parseLib(doc)
	w := writeLib(before)
	what := content("h", 1)
	switch sym.Choice("before", 6) {
	case 0:
		_, _ = rparse.ParseLibrary(sym.Doc(headLib, mapNode(strNode("types"), what)))
	case 1:
		_, _ = rparse.ParseLibrary(sym.Doc(headLib, mapNode(strNode("types"), mapNode(strNode(name), what))))
	case 2:
		_, _ = rparse.ParseApiDoc(sym.Doc(headAPI, what))
	case 3:
		_, _ = rparse.ParseLibrary(sym.Doc(headLib, mapNode(strNode("types"), mapNode(strNode(name),
			mapNode(strNode("type"), strNode("string"), strNode("pattern"), what)))))
	case 4:
		_, _ = rparse.ParseApiDoc(sym.Doc(headAPI, mapNode(strNode("documentation"), what)))
	default:
		l, err := rparse.ParseLibrary(sym.Doc(headLib, mapNode(strNode("usage"), what)))
		if err == nil {
			polluteLib(l)
		}
	}
	for _, l := range []raml.Library{before, parseLib(doc)} {
		sym.Assert(l.Usage().IsPresent() && l.Usage().Get() == text, "usage")
		sym.Assert(l.Types().Len() == 1, "types")
		s, ok := theType(l.Types(), name).(raml.StringType)
		sym.Assert(ok, "a string type")
		sym.Assert(s.Pattern().IsPresent() && s.Pattern().Get() == text, "pattern")
		sym.Assert(s.MinLength() == 0 && s.MaxLength().IsNil() && s.XML() == nil, "nothing else")
		extraIs(s.ExtraFacets(), "x", strNode(text), "unknown facet")
		assertTree(writeLib(l), w, "written the same")
	}
	sym.Reached("end")
}

// C20_siblings: the types of one document do not affect each other.
func C20_siblings() {
	ks := []kind{kStringKind(), kObjectKind(), kArrayKind(), kAnyKind(), kUnionKind(), kIntegerKind(), kCustomKind()}
	slim = true
	k := &ks[sym.Choice("kind", len(ks))]
	if k.kind == rmeta.TypeUnion || k.kind == rmeta.TypeCustom {
		k.expr = sym.String("expr", 20)
		sym.Assume(k.expr != "" && k.expr[0] != '!' && kindOf(k.expr) == k.kind)
	}
	l := parseLib(mapNode(strNode("types"), mapNode(strNode("A"), exprNode(k), strNode("B"), exprNode(k))))
	a, b := theType(l.Types(), "A"), theType(l.Types(), "B")
	meddle(k, a, "m")
	checkAll(k, b, nil, "after changing a sibling")
	w := writeLib(l)
	tt, c := entry(w, "types")
	sym.Assert(c == 1, "the types are written")
	n, c := entry(tt, "B")
	sym.Assert(c == 1, "the sibling is written")
	assertTree(n, exprNode(k), "the sibling is written")
	sym.Reached("end")
}

// ---- maps ----

// c20map: maps do not affect each other.
func c20map[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = 2
	n, c := sym.Choice("entries", 3), 2*sym.Choice("capacity", 2)
	m, r := filled(kit, n)
	o := kit.mk(c)
	sym.Assert(o.Len() == 0, "a new map is empty")
	ro := &ref[K, V]{}
	for i := 0; i < 1+sym.Tier(); i++ {
		d := string(rune('0' + i))
		step(kit, o, ro, sym.Choice("op"+d, 4), kit.key("k"+d), kit.val("v"+d))
	}
	p := kit.key("p")
	agree(kit, m, r, p)
	agree(kit, o, ro, p)
	step(kit, m, r, sym.Choice("op", 4), p, kit.val("v"))
	agree(kit, m, r, p)
	agree(kit, o, ro, p)
	agree(kit, kit.mk(c), &ref[K, V]{}, p)
	sym.Reached("end")
}
