//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- the parts of one element ----

// twins: names and contents of two entries of a table, with or without
// content of their own.
func twins(prefix string, val func(id string) *yaml.Node) (names [2]string, bodies [2]*yaml.Node, n *yaml.Node) {
	n = mapNode()
	for i, id := range []string{"a", "b"} {
		names[i] = prefix + sym.String(id+".name", 4)
		bodies[i] = mapNode()
		if sym.Bool(id + ".content") {
			bodies[i] = mapNode(strNode("k"+sym.String(id+".key", 4)), val(id+".val"))
		}
		n.Content = append(n.Content, strNode(names[i]), bodies[i])
	}
	sym.Assume(names[0] != names[1])
	return
}

// twinAnnotations: the annotations a and b of an element, of which one is
// changed.
func twinAnnotations(get func(n *yaml.Node) (m raml.AnnotationMap, write func() *yaml.Node)) {
	names, bodies, n := twins("(", func(id string) *yaml.Node { return intNode(int64(sym.Choice(id, 2))) })
	m, write := get(n)
	sym.Assert(m.Len() == 2, "both annotations are read")
	i := sym.Choice("changed", 2)
	m.At(i).Val.Put("zz", 7)
	for j := range names {
		want := bodies[j]
		if i == j {
			want = mapNode(append(append([]*yaml.Node{}, want.Content...), strNode("zz"), intNode(7))...)
		}
		annIs(m, j, names[j], want, "after changing one annotation")
		bodies[j] = want
	}
	w := write()
	sym.Assert(w.Kind == yaml.MappingNode, "the element is written")
	for j := range names {
		v, c := entry(w, names[j])
		sym.Assert(c == 1, "every annotation is written")
		assertTree(v, bodies[j], "every annotation is written as it is")
	}
	sym.Reached("annotations")
}

// twinFacets: the same for two facet definitions.
func twinFacets(get func(n *yaml.Node) (m raml.FacetMap, write func() *yaml.Node)) {
	names, bodies, n := twins("", func(id string) *yaml.Node { return strNode("boolean") })
	m, write := get(n)
	sym.Assert(m.Len() == 2, "both facets are read")
	i := sym.Choice("changed", 2)
	m.At(i).Val.Put("zz", parseTypeNode(strNode("string")))
	w := write()
	for j := range names {
		sz := len(bodies[j].Content) / 2
		if i == j {
			sz++
		}
		sym.Assert(m.At(j).Key == names[j] && m.At(j).Val.Len() == sz, "after changing one facet")
		_, has := m.At(j).Val.Get("zz")
		sym.Assert(has == (i == j), "after changing one facet")
		v, c := entry(w, names[j])
		sym.Assert(c == 1 && v.Kind == yaml.MappingNode && len(v.Content) == 2*sz, "every facet is written as it is")
	}
	sym.Reached("facets")
}

// c20within: the annotations and facets of one type do not affect each other.
func c20within(k kind) {
	slim = true
	probe := parseTypeNode(exprNode(&k))
	if sym.Bool("facets") {
		_, ok := probe.(faceted_)
		sym.Assume(ok)
		twinFacets(func(n *yaml.Node) (raml.FacetMap, func() *yaml.Node) {
			t := parseTypeNode(mapNode(strNode("type"), exprNode(&k), strNode("facets"), n))
			return t.(faceted_).FacetDefinitions(), func() *yaml.Node {
				w := writeType(t)
				sym.Assert(w.Kind == yaml.MappingNode, "the type is written")
				f, c := entry(w, "facets")
				sym.Assert(c == 1, "the facets are written")
				return f
			}
		})
		return
	}
	_, ok := probe.(annotated_)
	sym.Assume(ok)
	twinAnnotations(func(n *yaml.Node) (raml.AnnotationMap, func() *yaml.Node) {
		t := parseTypeNode(mapNode(append([]*yaml.Node{strNode("type"), exprNode(&k)}, n.Content...)...))
		return t.(annotated_).Annotations(), func() *yaml.Node { return writeType(t) }
	})
}

// c20exWithin: the same for the annotations of an example.
func c20exWithin(k kind) {
	slim = true
	named := sym.Bool("named")
	twinAnnotations(func(n *yaml.Node) (raml.AnnotationMap, func() *yaml.Node) {
		key := "example"
		if named {
			key, n = "examples", mapNode(strNode("e"), n)
		}
		t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode(key), n))
		return exampleAt(&k, t, named, "e").Annotations(), func() *yaml.Node { return writtenExample(t, named, "e") }
	})
}

func C20_apiWithin() {
	twinAnnotations(func(n *yaml.Node) (raml.AnnotationMap, func() *yaml.Node) {
		d := parseAPI(n)
		return d.Annotations(), func() *yaml.Node { return writeAPI(d) }
	})
}

func C20_libraryWithin() {
	twinAnnotations(func(n *yaml.Node) (raml.AnnotationMap, func() *yaml.Node) {
		d := parseLib(n)
		return d.Annotations(), func() *yaml.Node { return writeLib(d) }
	})
}

// c10tables: what an example's tables are given through its accessors is in
// the example, whatever was done to the example before.
func c10tables(k kind) {
	slim = true
	e, st := exStart(&k, sym.Bool("full"))
	var ai, xi int
	for i := range k.ex.facets {
		switch k.ex.facets[i].name {
		case "(annotation)":
			ai = i
		case "unknown":
			xi = i
		}
	}
	switch sym.Choice("before", 3) {
	case 1:
		k.ex.facets[ai].unset(e)
		delete(st.have, ai)
	case 2:
		k.ex.facets[ai].setNil(e)
		delete(st.have, ai)
	}
	var ws []want
	for i := range k.ex.facets {
		if f, ok := st.have[i]; ok && !f.never {
			ws = append(ws, want{f.name, f.out, f.may})
		}
	}
	if st.val != nil {
		ws = append(ws, want{"value", st.val, false})
	}
	name := sym.String("name", 6)
	var v *yaml.Node
	if sym.Bool("unknown") {
		name = "zz" + name
		v = intNode(7)
		differs(name, ws)
		e.ExtraFacets().Put(name, 7)
		sym.Assert(e.ExtraFacets().Len() == 1+b2i(xiIn(st, xi)), "the entry that was put")
	} else {
		name = "(zz" + name
		v = mapNode(strNode("n"), intNode(1))
		if sym.Bool("empty") {
			v = mapNode()
		}
		differs(name, ws)
		e.Annotations().Put(name, builtAnn(v))
		sym.Assert(e.Annotations().Len() == 1+b2i(xiIn(st, ai)), "the annotation that was put")
	}
	ws = append(ws, want{name, v, false})
	t := parseTypeNode(exprNode(&k))
	giveExample(&k, t, e)
	assertEntries(writtenExample(t, false, ""), ws, "written")
	sym.Reached("end")
}

func differs(name string, ws []want) {
	for _, w := range ws {
		sym.Assume(w.key != name)
	}
}

func xiIn(st *exState, i int) bool { _, ok := st.have[i]; return ok }
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
