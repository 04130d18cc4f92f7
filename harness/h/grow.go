//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rbuild"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- the tables of an element, changed through what its accessors return ----

// growTable is one table of an element.
type growTable[D any] struct {
	name   string
	prefix string // of the names of its entries; "": they are written under the table's name
	val    *yaml.Node
	size   func(d D) int
	key    func(d D, i int) string
	put    func(d D, k string)
	del    func(d D, k string)
	renew  []func(d D) // everything that makes it empty
}

func emptied[D comparable, M any](set func(D, M) D, unset func(D) D, none, empty M) (out []func(d D)) {
	if set != nil {
		out = append(out, func(d D) { self(set(d, none), d) }, func(d D) { self(set(d, empty), d) })
	}
	if unset != nil {
		out = append(out, func(d D) { self(unset(d), d) })
	}
	return
}

func growUntyped[D comparable](name, prefix string, get func(D) raml.UntypedMap, set func(D, raml.UntypedMap) D, unset func(D) D) growTable[D] {
	return growTable[D]{name, prefix, intNode(1),
		func(d D) int { return get(d).Len() },
		func(d D, i int) string { return get(d).At(i).Key },
		func(d D, k string) { get(d).Put(k, 1) },
		func(d D, k string) { get(d).Delete(k) },
		emptied(set, unset, nil, raml.NewUntypedMap(2).SerializeOrdered(false))}
}

func growExtra[D comparable](get func(D) raml.AnyMap) growTable[D] {
	return growTable[D]{"unknown", "x", intNode(1),
		func(d D) int { return get(d).Len() },
		func(d D, i int) string { return get(d).At(i).Key.(string) },
		func(d D, k string) { get(d).Put(k, 1) },
		func(d D, k string) { get(d).Delete(k) }, nil}
}

func growAnn[D comparable](get func(D) raml.AnnotationMap, set func(D, raml.AnnotationMap) D, unset func(D) D) growTable[D] {
	return growTable[D]{"annotations", "(", mapNode(strNode("n"), intNode(1)),
		func(d D) int { return get(d).Len() },
		func(d D, i int) string { return get(d).At(i).Key },
		func(d D, k string) { get(d).Put(k, raml.NewUntypedMap(0).SerializeOrdered(false).Put("n", 1)) },
		func(d D, k string) { get(d).Delete(k) },
		emptied(set, unset, nil, raml.NewAnnotationMap(2).SerializeOrdered(false))}
}

func growUses[D comparable](get func(D) raml.StringMap, set func(D, raml.StringMap) D, unset func(D) D) growTable[D] {
	return growTable[D]{"uses", "", strNode("u"),
		func(d D) int { return get(d).Len() },
		func(d D, i int) string { return get(d).At(i).Key },
		func(d D, k string) { get(d).Put(k, "u") },
		func(d D, k string) { get(d).Delete(k) },
		emptied(set, unset, nil, raml.NewStringMap(2).SerializeOrdered(false))}
}

func growTypes[D comparable](get func(D) raml.DataTypeMap, set func(D, raml.DataTypeMap) D, unset func(D) D) growTable[D] {
	return growTable[D]{"types", "", strNode("boolean"),
		func(d D) int { return get(d).Len() },
		func(d D, i int) string { return get(d).At(i).Key },
		func(d D, k string) { get(d).Put(k, rbuild.NewBoolDataType()) },
		func(d D, k string) { get(d).Delete(k) },
		emptied(set, unset, nil, raml.NewDataTypeMap(2).SerializeOrdered(false))}
}

// grow: the element as created or read, with one or no entry in every table;
// one table is changed or made empty, and then given an entry through its
// accessor. It reports and writes exactly that.
func grow[D any](read func(n *yaml.Node) D, fresh func() D, write func(d D) *yaml.Node, always []string, ts []growTable[D]) {
	d, full := fresh(), 0
	switch sym.Choice("start", 3) {
	case 1:
		d = read(mapNode())
	case 2:
		full = 1
		n := mapNode()
		for i := range ts {
			if t := &ts[i]; t.prefix == "" {
				n.Content = append(n.Content, strNode(t.name), mapNode(strNode("a"), t.val))
			} else {
				n.Content = append(n.Content, strNode(t.prefix+"a"), t.val)
			}
		}
		d = read(n)
	}
	if sym.Bool("writtenBefore") {
		write(d)
	}
	i := sym.Choice("table", len(ts))
	t := &ts[i]
	old := full
	if r := sym.Choice("renewed", 4); r > 0 {
		sym.Assume(r <= len(t.renew))
		t.renew[r-1](d)
		old = 0
	}
	k := t.prefix + "b" + sym.String("key", 6)
	if sym.Bool("shared") {
		sym.Assume(t.prefix != "")
		k += ")"
	}
	t.put(d, k)
	if sym.Bool("changed") {
		t.put(d, k+"2")
		t.del(d, k)
		k += "2"
	}
	size := 0
	for j := range ts {
		want := full
		if j == i {
			want = old + 1
		}
		sym.Assert(ts[j].size(d) == want, "number of entries of every table")
		if want > 0 && ts[j].prefix == "" {
			size++
		} else {
			size += want
		}
	}
	sym.Assert(t.key(d, old) == k, "the entry that was put")
	w := write(d)
	sym.Assert(w.Kind == yaml.MappingNode, "a mapping is written")
	for _, a := range always {
		if _, c := entry(w, a); c == 1 {
			size++
		}
	}
	sym.Assert(len(w.Content) == 2*size, "nothing else is written")
	for j := range ts {
		n := full
		if j == i {
			n = old + 1
		}
		in := w
		if ts[j].prefix == "" && n > 0 {
			s, c := entry(w, ts[j].name)
			sym.Assert(c == 1 && s.Kind == yaml.MappingNode && len(s.Content) == 2*n, "a table is written under its name")
			in = s
		}
		if j == i && n == 1 || n == 2 {
			v, c := entry(in, k)
			sym.Assert(c == 1, "the entry that was put is written")
			assertTree(v, t.val, "the entry that was put")
		}
		if j != i && n == 1 || n == 2 {
			v, c := entry(in, ts[j].prefix+"a")
			sym.Assert(c == 1, "the other entries are written")
			assertTree(v, ts[j].val, "the other entries")
		}
	}
	sym.Reached("end")
}

func C11_tables() {
	type D = raml.APISpec
	var setSchemes, setAnnTypes func(D, raml.UntypedMap) D
	var unsetSchemes, unsetAnnTypes func(D) D
	if _, ok := rbuild.NewAPISpec().(schemesSetter); ok {
		setSchemes = func(d D, m raml.UntypedMap) D { return d.(schemesSetter).SetSecuritySchemes(m) }
		unsetSchemes = func(d D) D { return d.(schemesSetter).UnsetSecuritySchemes() }
	}
	if _, ok := rbuild.NewAPISpec().(annTypesSetter); ok {
		setAnnTypes = func(d D, m raml.UntypedMap) D { return d.(annTypesSetter).SetAnnotationTypes(m) }
		unsetAnnTypes = func(d D) D { return d.(annTypesSetter).UnsetAnnotationTypes() }
	}
	grow(parseAPI, rbuild.NewAPISpec, writeAPI, []string{"title"}, []growTable[D]{
		growUntyped[D]("baseUriParameters", "", D.BaseURIParameters, nil, nil),
		growUntyped[D]("securitySchemes", "", D.SecuritySchemes, setSchemes, unsetSchemes),
		growUntyped[D]("annotationTypes", "", D.AnnotationTypes, setAnnTypes, unsetAnnTypes),
		growUntyped[D]("traits", "", D.Traits, D.SetTraits, D.UnsetTraits),
		growUntyped[D]("resourceTypes", "", D.ResourceTypes, D.SetResourceTypes, D.UnsetResourceTypes),
		growUses[D](D.Uses, D.SetUses, D.UnsetUses),
		growTypes[D](D.Types, D.SetTypes, D.UnsetTypes),
		growAnn[D](D.Annotations, D.SetAnnotations, D.UnsetAnnotations),
		growUntyped[D]("resources", "/", D.Resources, nil, nil),
		growExtra[D](D.ExtraFacets),
	})
}

func C12_tables() {
	type D = raml.Library
	grow(parseLib, rbuild.NewLibrary, writeLib, nil, []growTable[D]{
		growUntyped[D]("securitySchemes", "", D.SecuritySchemes, nil, nil),
		growUntyped[D]("annotationTypes", "", D.AnnotationTypes, nil, nil),
		growUntyped[D]("traits", "", D.Traits, D.SetTraits, D.UnsetTraits),
		growUntyped[D]("resourceTypes", "", D.ResourceTypes, D.SetResourceTypes, D.UnsetResourceTypes),
		growUses[D](D.Uses, D.SetUses, D.UnsetUses),
		growTypes[D](D.Types, D.SetTypes, D.UnsetTypes),
		growAnn[D](D.Annotations, D.SetAnnotations, D.UnsetAnnotations),
		growExtra[D](D.ExtraFacets),
	})
}
