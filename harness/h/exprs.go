//go:build go1.21

package h

import (
	"strings"

	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// C06_expressions: any type expression, anywhere, in any form.
func C06_expressions() {
	s := sym.String("expr", 24)
	sym.Assume(len(s) > 0)
	sym.Assume(!strings.HasPrefix(s, "!include"))
	place := sym.Choice("place", places+1)
	form := sym.Choice("form", 5)
	n, zz := strNode(s), anyNode("zz")
	switch form {
	case 1:
		n = mapNode(strNode("type"), strNode(s))
	case 2:
		n = mapNode(strNode("schema"), strNode(s))
	case 3:
		n = mapNode(strNode("required"), boolNode(false), strNode("type"), strNode(s))
	case 4:
		n = mapNode(strNode("type"), strNode(s), strNode("zz"), zz)
	}
	t := parseAt2(place, n)
	sym.Assert(t.Type() == s, "the expression is kept")
	sym.Assert(t.Schema() == s, "the expression is kept as schema")
	sym.Assert(t.Kind() == kindOf(s), "the expression determines the kind")
	isType(t, t.Kind())
	w := writeType(t)
	switch form {
	case 3:
		assertEntries(w, []want{{"type", strNode(s), false}, {"required", boolNode(false), false}}, "written")
	case 4:
		assertEntries(w, []want{{"type", strNode(s), false}, {"zz", zz, false}}, "written")
	default:
		assertTree(w, strNode(s), "the expression is written back")
	}
	sym.Reached("end")
}

// parseAt2: as parseAt, and one more place: a custom facet's type.
func parseAt2(place int, n *yaml.Node) raml.DataType {
	if place < places {
		return parseAt(place, n)
	}
	t := parseTypeNode(mapNode(strNode("type"), strNode("string"), strNode("facets"),
		mapNode(strNode("f"), mapNode(strNode("T"), n))))
	f, ok := t.(raml.StringType).FacetDefinitions().Get("f")
	sym.Assert(ok, "the declared facet is found")
	d, ok := f.Get("T")
	sym.Assert(ok && d != nil, "the declared facet type is found")
	return d
}

// isType: the element offers the methods of its kind.
func isType(t raml.DataType, k rmeta.DataTypeKind) {
	ok := false
	switch k {
	case rmeta.TypeAny:
		_, ok = t.(raml.AnyType)
	case rmeta.TypeArray:
		_, ok = t.(raml.ArrayType)
	case rmeta.TypeBool:
		_, ok = t.(raml.BoolType)
	case rmeta.TypeDateOnly:
		_, ok = t.(raml.DateOnlyType)
	case rmeta.TypeDatetime:
		_, ok = t.(raml.DatetimeType)
	case rmeta.TypeDatetimeOnly:
		_, ok = t.(raml.DatetimeOnlyType)
	case rmeta.TypeFile:
		_, ok = t.(raml.FileType)
	case rmeta.TypeInteger:
		_, ok = t.(raml.IntegerType)
	case rmeta.TypeNil:
		_, ok = t.(raml.NilType)
	case rmeta.TypeNumber:
		_, ok = t.(raml.NumberType)
	case rmeta.TypeObject:
		_, ok = t.(raml.ObjectType)
	case rmeta.TypeString:
		_, ok = t.(raml.StringType)
	case rmeta.TypeTimeOnly:
		_, ok = t.(raml.TimeOnlyType)
	case rmeta.TypeUnion:
		_, ok = t.(raml.UnionType)
	case rmeta.TypeCustom:
		_, ok = t.(raml.CustomType)
	case rmeta.TypeInclude:
		_, ok = t.(raml.IncludeType)
	}
	sym.Assert(ok, "the declaration is read as an element of its kind")
}

// C06_includes: an include tag, short or expanded, anywhere.
func C06_includes() {
	s := "a" + anyString("target")
	place := sym.Choice("place", places+1)
	inc := scalar("!include", s)
	n := inc
	ws := []want{{"type", inc, false}}
	form, zz := sym.Choice("form", 4), anyNode("zz")
	switch form {
	case 1:
		n = mapNode(strNode("type"), inc)
	case 2:
		n = mapNode(strNode("schema"), inc)
	case 3:
		n = mapNode(strNode("zz"), zz, strNode("type"), inc, strNode("required"), boolNode(false))
		ws = append(ws, want{"zz", zz, false}, want{"required", boolNode(false), false})
	}
	t := parseAt2(place, n)
	sym.Assert(t.Type() == s, "the include target is kept")
	sym.Assert(t.Kind() == rmeta.TypeInclude, "an include tag makes an include")
	isType(t, rmeta.TypeInclude)
	if form == 3 {
		assertEntries(writeType(t), ws, "written")
	} else {
		assertTree(writeType(t), inc, "the include is written back")
	}
	sym.Reached("end")
}

// C06_implied: declarations without a type expression.
func C06_implied() {
	place := sym.Choice("place", places+1)
	n := mapNode()
	props, items := false, false
	for i, c := 0, sym.Choice("facets", 4); i < c; i++ {
		d := string(rune('0' + i))
		switch sym.Choice("f"+d, 4) {
		case 0:
			sym.Assume(!props)
			props = true
			n.Content = append(n.Content, strNode("properties"), mapNode(strNode("p"), strNode("string")))
		case 1:
			sym.Assume(!items)
			items = true
			n.Content = append(n.Content, strNode("items"), strNode("string"))
		case 2:
			n.Content = append(n.Content, strNode("zz"+d), anyNode("zz"+d))
		default:
			n.Content = append(n.Content, strNode("q"+sym.String("q"+d, 12)), anyNode("zz"+d))
		}
	}
	want := rmeta.TypeString
	if props {
		want = rmeta.TypeObject
	} else if items {
		want = rmeta.TypeArray
	}
	if sym.Bool("empty") {
		sym.Assume(len(n.Content) == 0)
		n = nullNode("n")
	}
	t := parseAt2(place, n)
	sym.Assert(t.Kind() == want, "the facets determine the kind")
	sym.Assert(t.Type() == string(want), "the implied type expression")
	isType(t, want)
	sym.Reached("end")
}

// C06_order: the expression counts wherever it stands, whatever stands before
// it, and values are not mistaken for keys.
func C06_order() {
	s := sym.String("expr", 24)
	sym.Assume(len(s) > 0)
	sym.Assume(!strings.HasPrefix(s, "!include"))
	given := sym.Choice("given", 3) // none, type, schema
	pos := 3
	n := mapNode()
	props, items, names := false, false, 0
	if given > 0 {
		pos = sym.Choice("position", 3)
	}
	for i := 0; i < 3; i++ {
		d := string(rune('0' + i))
		if i == pos {
			n.Content = append(n.Content, strNode(sym.Pick(given, "", "type", "schema")), strNode(s))
			continue
		}
		switch sym.Choice("f"+d, 4) {
		case 0:
			sym.Assume(!props)
			props = true
			n.Content = append(n.Content, strNode("properties"), mapNode(strNode("p"), strNode("string")))
		case 1:
			sym.Assume(!items)
			items = true
			n.Content = append(n.Content, strNode("items"), strNode("string"))
		case 2:
			sym.Assume(names == 0)
			names = i + 1
			n.Content = append(n.Content, strNode("displayName"), strNode(sym.String("name", 12)))
		default:
			n.Content = append(n.Content, strNode("zz"+d), strNode(sym.String("zz"+d, 12)))
		}
	}
	want := rmeta.TypeString
	switch {
	case given > 0:
		want = kindOf(s)
	case props:
		want = rmeta.TypeObject
	case items:
		want = rmeta.TypeArray
	}
	t := parseTypeNode(n)
	sym.Assert(t.Kind() == want, "the expression or the facets determine the kind")
	isType(t, want)
	if given > 0 {
		sym.Assert(t.Type() == s && t.Schema() == s, "the expression is kept")
	} else {
		sym.Assert(t.Type() == string(want), "the implied type expression")
	}
	sym.Reached("end")
}

// C06_override: the expression can be replaced; the kind stays.
func c06override(k kind) {
	slim = true
	s := sym.String("expr", 8)
	t, have := start(&k, sym.Bool("full"), "i")
	if sym.Bool("override") {
		t.OverrideType(s)
	} else {
		setType(t, s)
	}
	sym.Assert(t.Type() == s && t.Schema() == s, "the replaced expression is reported")
	sym.Assert(t.Kind() == k.kind, "replacing the expression does not change the kind")
	for i := range k.facets {
		if f, ok := have[i]; ok {
			f.check(t, "after replacing the expression")
		} else {
			k.facets[i].absent(t, "after replacing the expression")
		}
	}
	w := writeType(t)
	if len(have) == 0 {
		assertTree(w, strNode(s), "the replaced expression is written")
	} else {
		v, c := entry(w, "type")
		sym.Assert(c == 1, "the replaced expression is written once")
		assertTree(v, strNode(s), "the replaced expression is written")
	}
	sym.Reached("end")
}

func setType(t raml.DataType, s string) {
	switch t := t.(type) {
	case raml.StringType:
		chained(t.SetType(s), t)
	case raml.IntegerType:
		chained(t.SetType(s), t)
	case raml.NumberType:
		chained(t.SetType(s), t)
	case raml.BoolType:
		chained(t.SetType(s), t)
	case raml.AnyType:
		chained(t.SetType(s), t)
	case raml.ArrayType:
		chained(t.SetType(s), t)
	case raml.ObjectType:
		chained(t.SetType(s), t)
	case raml.FileType:
		chained(t.SetType(s), t)
	case raml.UnionType:
		chained(t.SetType(s), t)
	case raml.CustomType:
		chained(t.SetType(s), t)
	case raml.DateOnlyType:
		chained(t.SetType(s), t)
	case raml.TimeOnlyType:
		chained(t.SetType(s), t)
	case raml.DatetimeType:
		chained(t.SetType(s), t)
	case raml.DatetimeOnlyType:
		chained(t.SetType(s), t)
	}
}
