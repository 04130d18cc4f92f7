//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ---- declarations within declarations ----

// level is one declaration around another.
type level struct {
	in    *yaml.Node
	enter func(t raml.DataType, what string) raml.DataType
}

// wrap: a declaration with properties, items or a custom facet that holds the
// given one, and a few facets of its own.
func wrap(id string, inner *yaml.Node) level {
	name, text := sym.String(id+".name", 8), sym.Text(id+".text", 8)
	desc := func(present bool, got string, what string) {
		sym.Assert(present && got == text, what+": a facet of an outer declaration")
	}
	own := []*yaml.Node{strNode("description"), strNode(text)}
	switch sym.Choice(id+".kind", 4) {
	case 0: // an object, with or without its type expression
		n := mapNode(strNode("properties"), mapNode(strNode(name), inner, strNode(name+"?"), strNode("boolean")))
		if sym.Bool(id + ".typed") {
			own = append(own, strNode("type"), strNode("object"))
		}
		n.Content = append(own, n.Content...)
		return level{n, func(t raml.DataType, what string) raml.DataType {
			o, ok := t.(raml.ObjectType)
			sym.Assert(ok, what+": an object")
			desc(o.Description().IsPresent(), o.Description().Get(), what)
			sym.Assert(o.Properties().Len() == 2, what+": number of properties")
			b, ok := o.Properties().Get(name + "?")
			sym.Assert(ok && b.Type() == "boolean", what+": a neighbour")
			p, ok := o.Properties().Get(name)
			sym.Assert(ok, what+": the inner declaration is found")
			return p
		}}
	case 1: // an array
		n := mapNode(append(own, strNode("items"), inner)...)
		if sym.Bool(id + ".typed") {
			n.Content = append([]*yaml.Node{strNode("type"), strNode("array")}, n.Content...)
		}
		return level{n, func(t raml.DataType, what string) raml.DataType {
			a, ok := t.(raml.ArrayType)
			sym.Assert(ok, what+": an array")
			desc(a.Description().IsPresent(), a.Description().Get(), what)
			sym.Assert(a.Items() != nil, what+": the inner declaration is found")
			return a.Items()
		}}
	case 2: // a custom facet of a string
		n := mapNode(append(own, strNode("facets"), mapNode(strNode("f"), mapNode(strNode("other"), strNode("integer"), strNode(name+"+"), inner)))...)
		return level{n, func(t raml.DataType, what string) raml.DataType {
			s, ok := t.(raml.StringType)
			sym.Assert(ok, what+": a string")
			desc(s.Description().IsPresent(), s.Description().Get(), what)
			f, ok := s.FacetDefinitions().Get("f")
			sym.Assert(ok && f.Len() == 2, what+": the custom facet is found")
			sym.Assert(f.At(0).Key == "other" && f.At(0).Val.Type() == "integer", what+": a neighbour")
			x, ok := f.Get(name + "+")
			sym.Assert(ok, what+": the inner declaration is found")
			return x
		}}
	default: // a property of a custom type's declaration keeps it verbatim
		n := mapNode(append(own, strNode("type"), strNode("Cust"), strNode("required"), boolNode(false), strNode("minProperties"), inner)...)
		return level{n, func(t raml.DataType, what string) raml.DataType {
			c, ok := t.(raml.CustomType)
			sym.Assert(ok, what+": a custom type")
			desc(c.Description().IsPresent(), c.Description().Get(), what)
			sym.Assert(!t.(raml.Property).Required(), what+": required")
			v, ok := c.ExtraFacets().Get("minProperties")
			sym.Assert(ok, what+": the unknown entry is found")
			assertTree(sym.NodeTree(v), inner, what+": content of an unknown entry")
			return nil
		}}
	}
}

// nest: a declaration of the kind within depth others, and its check.
func nest(k *kind, depth int) (*yaml.Node, func(t raml.DataType, what string)) {
	slim = true
	have := map[int]fv{}
	var fs []fv
	if i := sym.Choice("facet", len(k.facets)+1); i < len(k.facets) {
		have[i] = k.facets[i].parsed("v0")
		fs = append(fs, have[i])
	}
	n := declare(k, fs, 0)
	var ls []level
	for i := 0; i < depth; i++ {
		l := wrap("l"+string(rune('0'+i)), n)
		ls = append(ls, l)
		n = l.in
	}
	return n, func(t raml.DataType, what string) {
		for i := len(ls) - 1; i >= 0; i-- {
			t = ls[i].enter(t, what)
			if t == nil {
				return
			}
		}
		checkAll(k, t, have, what)
	}
}

// c07nested: any facet of the kind in a declaration within others.
func c07nested(k kind) {
	n, check := nest(&k, 2+sym.Tier())
	check(parseTypeNode(n), "read")
	sym.Reached("end")
}

// c09nested: as c07nested, written and read again twice.
func c09nested(k kind) {
	n, check := nest(&k, 2+sym.Tier())
	t := parseTypeNode(n)
	w := writeType(t)
	again := parseTypeNode(w)
	check(again, "read again")
	assertTree(writeType(again), w, "written again")
	check(t, "after writing")
	sym.Reached("end")
}

// C09_deep: a long chain of declarations within declarations.
func C09_deep() {
	slim = true
	n := mapNode(strNode("minLength"), intNode(3))
	var ls []level
	depth := []int{6 + 2*sym.Tier(), 40}[sym.Choice("depth", 2)]
	first := sym.Choice("first", 3)
	step := sym.Choice("step", 3)
	for i := 0; i < depth; i++ {
		x := "t" + string(rune('0'+i))
		if i < 8 {
			x = sym.String("text"+string(rune('0'+i)), 4)
		}
		d := []*yaml.Node{strNode("displayName"), strNode(x)}
		var l level
		switch (first + i*step) % 3 {
		case 0:
			l = level{mapNode(append(d, strNode("properties"), mapNode(strNode("p"), n))...), func(t raml.DataType, what string) raml.DataType {
				o := t.(raml.ObjectType)
				sym.Assert(o.DisplayName().Get() == x, what+": a facet of an outer declaration")
				p, ok := o.Properties().Get("p")
				sym.Assert(ok, what+": the inner declaration is found")
				return p
			}}
		case 1:
			l = level{mapNode(append(d, strNode("items"), n)...), func(t raml.DataType, what string) raml.DataType {
				a := t.(raml.ArrayType)
				sym.Assert(a.DisplayName().Get() == x, what+": a facet of an outer declaration")
				return a.Items()
			}}
		default:
			l = level{mapNode(append(d, strNode("facets"), mapNode(strNode("f"), mapNode(strNode("x"), n)))...), func(t raml.DataType, what string) raml.DataType {
				s := t.(raml.StringType)
				sym.Assert(s.DisplayName().Get() == x, what+": a facet of an outer declaration")
				f, ok := s.FacetDefinitions().Get("f")
				sym.Assert(ok, what+": the custom facet is found")
				in, ok := f.Get("x")
				sym.Assert(ok, what+": the inner declaration is found")
				return in
			}}
		}
		ls = append(ls, l)
		n = l.in
	}
	check := func(t raml.DataType, what string) {
		for i := depth - 1; i >= 0; i-- {
			t = ls[i].enter(t, what)
		}
		m := t.(raml.StringType).MinLength()
		sym.Assert(m == 3, what+": the innermost facet")
	}
	t := parseTypeNode(n)
	check(t, "read")
	check(parseTypeNode(writeType(t)), "read again")
	sym.Reached("end")
}

// chain: nested declarations of arrays and objects, one of which has one facet
// of its own, before or after the inner declaration.
func chain(depth int) (*yaml.Node, func(t raml.DataType, what string)) {
	slim = true
	first, step := sym.Choice("first", 2), sym.Choice("step", 2)
	at := sym.Choice("level", depth)
	n := strNode("string")
	var ks []kind
	have := map[int]fv{}
	for i := depth - 1; i >= 0; i-- {
		k, name := kArrayKind(), "items"
		in := n
		if (first+i*step)%2 == 1 {
			k, name = kObjectKind(), "properties"
			in = mapNode(strNode("p"), n)
		}
		ks = append([]kind{k}, ks...)
		n = mapNode(strNode("type"), strNode(k.expr), strNode(name), in)
		if i == at {
			j := sym.Choice("facet", len(k.facets))
			sym.Assume(k.facets[j].name != name)
			f := k.facets[j].parsed("v")
			have[j] = f
			if sym.Bool("after") {
				n.Content = append(n.Content, strNode(f.name), f.in)
			} else {
				n.Content = append([]*yaml.Node{strNode(f.name), f.in}, n.Content...)
			}
		}
	}
	return n, func(t raml.DataType, what string) {
		for i := 0; i < depth; i++ {
			k := &ks[i]
			sym.Assert(t.Kind() == k.kind && t.Type() == k.expr, what+": kind")
			for j := range k.facets {
				if name := k.facets[j].name; name == "items" || name == "properties" {
					continue
				}
				if f, ok := have[j]; ok && i == at {
					f.check(t, what)
				} else {
					k.facets[j].absent(t, what)
				}
			}
			if a, ok := t.(raml.ArrayType); ok {
				t = a.Items()
				sym.Assert(t != nil, what+": the inner declaration is found")
			} else {
				ps := t.(raml.ObjectType).Properties()
				sym.Assert(ps.Len() == 1, what+": one property")
				p, ok := ps.Get("p")
				sym.Assert(ok, what+": the inner declaration is found")
				t = p
			}
		}
		sym.Assert(t.Kind() == rmeta.TypeString && t.Type() == "string", what+": the innermost declaration")
	}
}

// C07_chain: a facet of one of several nested declarations is its alone.
func C07_chain() {
	n, check := chain(4)
	check(parseTypeNode(n), "read")
	sym.Reached("end")
}

// C09_chain: as C07_chain, written and read again.
func C09_chain() {
	n, check := chain(3 + sym.Tier())
	t := parseTypeNode(n)
	check(parseTypeNode(writeType(t)), "read again")
	check(t, "after writing")
	sym.Reached("end")
}

// withExpr: any expression of the kind, with any one facet or none.
func withExpr(k *kind) (*yaml.Node, map[int]fv, []fv) {
	slim = true
	k.expr = sym.String("expr", 10)
	sym.Assume(k.expr != "" && k.expr[0] != '!' && (k.kind == rmeta.TypeInclude || kindOf(k.expr) == k.kind))
	have := map[int]fv{}
	i := sym.Choice("facet", len(k.facets)+1)
	if i == len(k.facets) {
		return exprNode(k), have, nil
	}
	have[i] = k.facets[i].parsed("v")
	fs := []fv{have[i]}
	return declare(k, fs, sym.Choice("place", 2)), have, fs
}

// c06facet: the expression is kept beside any facet.
func c06facet(k kind) {
	n, have, fs := withExpr(&k)
	t := parseTypeNode(n)
	checkAll(&k, t, have, "read")
	assertWrittenType(writeType(t), &k, fs, "written")
	sym.Reached("end")
}

// c09expr: as c06facet, read again.
func c09expr(k kind) {
	n, have, _ := withExpr(&k)
	t := parseTypeNode(writeType(parseTypeNode(n)))
	checkAll(&k, t, have, "read again")
	sym.Reached("end")
}
