//go:build go1.21

package h

import (
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
)

// c07pairs: any two facets of the kind, in any order, with any values.
func c07pairs(k kind) {
	slim = sym.Tier() == 0
	n := len(k.facets)
	i := sym.Choice("first", n)
	j := sym.Choice("second", n)
	sym.Assume(i != j)
	have := map[int]fv{i: k.facets[i].parsed("v0"), j: k.facets[j].parsed("v1")}
	fs := []fv{have[i], have[j]}
	t := parseTypeNode(declare(&k, fs, (i+2*j)%3))
	checkAll(&k, t, have, "read")
	sym.Reached("end")
}

// c07all: every facet at once, but one, in three orders.
func c07all(k kind) {
	slim = true
	have := map[int]fv{}
	for i := range k.facets {
		have[i] = k.facets[i].parsed("v" + string(rune('a'+i)))
	}
	if i := sym.Choice("without", len(k.facets)+1); i < len(k.facets) {
		delete(have, i)
	}
	fs := valuesOf(have)
	switch sym.Choice("order", 3) {
	case 1: // backwards
		for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
			fs[i], fs[j] = fs[j], fs[i]
		}
	case 2: // the second half first
		fs = append(append([]fv{}, fs[len(fs)/2:]...), fs[:len(fs)/2]...)
	}
	t := parseTypeNode(declare(&k, fs, 0))
	checkAll(&k, t, have, "read")
	sym.Reached("end")
}

// c07places: any facet of the kind, at any place of a declaration.
func c07places(k kind) {
	slim = false
	have := map[int]fv{}
	var fs []fv
	if i := sym.Choice("facet", len(k.facets)+1); i < len(k.facets) {
		have[i] = k.facets[i].parsed("v0")
		fs = append(fs, have[i])
	}
	t := parseAt(sym.Choice("place", places), declare(&k, fs, sym.Choice("position", 1+len(fs))))
	checkAll(&k, t, have, "read")
	sym.Reached("end")
}

// start: a new element of the kind, or one that was read with every facet set.
func start(k *kind, full bool, id string) (raml.DataType, map[int]fv) {
	have := map[int]fv{}
	if full {
		var fs []fv
		for i := range k.facets {
			have[i] = k.facets[i].parsed(id + string(rune('a'+i)))
			fs = append(fs, have[i])
		}
		return parseTypeNode(declare(k, fs, 0)), have
	}
	if k.mk != nil && sym.Bool(id+"parsed") {
		return k.mk(), have
	}
	return parseTypeNode(exprNode(k)), have
}

// change: one configuring call on the element.
func change(k *kind, t raml.DataType, have map[int]fv, id string) {
	i := sym.Choice(id+"facet", len(k.facets))
	f := &k.facets[i]
	switch sym.Choice(id+"call", 3) {
	case 0:
		sym.Assume(f.built != nil)
		v := f.built(id + "v")
		v.set(t)
		have[i] = v
	case 1:
		sym.Assume(f.unset != nil)
		f.unset(t)
		delete(have, i)
	default:
		sym.Assume(f.setNil != nil)
		f.setNil(t)
		delete(have, i)
	}
}

// c08built: any two configuring calls on a new element.
func c08built(k kind) {
	slim = sym.Tier() == 0
	t, have := start(&k, false, "i")
	change(&k, t, have, "c0")
	if sym.Tier() > 0 && sym.Bool("writtenBefore") {
		writeType(t)
		checkAll(&k, t, have, "written")
	}
	change(&k, t, have, "c1")
	assertWrittenType(writeType(t), &k, valuesOf(have), "written")
	sym.Reached("end")
}

// c08modified: any configuring call on an element with every facet set.
func c08modified(k kind) {
	slim = true
	t, have := start(&k, true, "i")
	slim = false
	if sym.Bool("writtenBefore") {
		writeType(t)
		_, err := t.ToRAML()
		sym.Assert(err == nil, "a type is written as text without error")
		checkAll(&k, t, have, "written")
	}
	change(&k, t, have, "c0")
	assertWrittenType(writeType(t), &k, valuesOf(have), "written")
	text, err := t.ToRAML()
	sym.Assert(err == nil, "a type is written as text without error")
	assertWrittenType(sym.Tree([]byte(text)), &k, valuesOf(have), "written as text")
	sym.Reached("end")
}

// c08once: one call on a new element that was written before.
func c08once(k kind) {
	t, have := start(&k, false, "i")
	writeType(t)
	_, err := t.ToRAML()
	sym.Assert(err == nil, "a type is written as text without error")
	change(&k, t, have, "c0")
	assertWrittenType(writeType(t), &k, valuesOf(have), "written")
	sym.Reached("end")
}

// c13built: after any two (thorough: three) calls on a new element, every
// accessor reports exactly the last call for its facet.
func c13built(k kind) {
	slim = true
	t, have := start(&k, false, "i")
	for i := 0; i < 2+sym.Tier(); i++ {
		change(&k, t, have, "c"+string(rune('0'+i)))
	}
	checkAll(&k, t, have, "after the calls")
	sym.Reached("end")
}

// c13modified: any call on an element with every facet set.
func c13modified(k kind) {
	slim = true
	t, have := start(&k, true, "i")
	checkAll(&k, t, have, "read")
	slim = false
	change(&k, t, have, "c0")
	checkAll(&k, t, have, "after the call")
	sym.Reached("end")
}

// tables: giving any number of entries to a table of an element with every
// facet or none set, and one more through the accessor.
func tables(k *kind, f func(t raml.DataType, have map[int]fv, i int, v mv, n int, what string)) {
	slim = true
	t, have := start(k, sym.Bool("full"), "i")
	var v mv
	i := sym.Choice("table", len(k.facets))
	sym.Assume(k.facets[i].multi != nil)
	n := sym.Choice("entries", 6)
	if n < 4 {
		v = k.facets[i].multi("e", n)
		v.set(t)
	} else {
		v = k.facets[i].multi("e", 0)
		if n == 4 {
			sym.Assume(k.facets[i].unset != nil)
			k.facets[i].unset(t)
		} else {
			sym.Assume(k.facets[i].setNil != nil)
			k.facets[i].setNil(t)
		}
		n = 0
	}
	delete(have, i)
	f(t, have, i, v, n, "after the call")
	v.add(t)
	f(t, have, i, v, n+1, "after putting one more")
	sym.Reached("end")
}

// c13tables: exactly the given entries are reported, in order, and nothing
// else changes.
func c13tables(k kind) {
	tables(&k, func(t raml.DataType, have map[int]fv, i int, v mv, n int, what string) {
		sym.Assert(t.Kind() == k.kind && t.Type() == k.expr && t.Schema() == k.expr, what+": type expression")
		v.check(t, n, what)
		for j := range k.facets {
			if j == i {
				continue
			}
			if f, ok := have[j]; ok {
				f.check(t, what)
			} else {
				k.facets[j].absent(t, what)
			}
		}
	})
}

// c08tables: exactly the given entries are written.
func c08tables(k kind) {
	tables(&k, func(t raml.DataType, have map[int]fv, i int, v mv, n int, what string) {
		fs := valuesOf(have)
		switch {
		case v.nested && n > 0:
			fs = append(fs, fv{name: k.facets[i].name, out: mapNode(v.pairs[:2*n]...)})
		case !v.nested:
			for j := 0; j < n; j++ {
				fs = append(fs, fv{name: v.pairs[2*j].Value, out: v.pairs[2*j+1]})
			}
		}
		assertWrittenType(writeType(t), &k, fs, what)
	})
}

// c09single: any facet with any value, at any place, written and read again.
func c09single(k kind) {
	slim = false
	have := map[int]fv{}
	var fs []fv
	if i := sym.Choice("facet", len(k.facets)+1); i < len(k.facets) {
		have[i] = k.facets[i].parsed("v0")
		fs = append(fs, have[i])
	}
	t := parseTypeNode(declare(&k, fs, 0))
	n := writeType(t)
	again := parseAt(sym.Choice("place", places), n)
	checkAll(&k, again, have, "read again")
	sym.Reached("end")
}

// c09all: every facet at once but one.
func c09all(k kind) {
	slim = true
	t, have := start(&k, true, "i")
	if i := sym.Choice("without", len(k.facets)+1); i < len(k.facets) {
		var fs []fv
		delete(have, i)
		fs = valuesOf(have)
		t = parseTypeNode(declare(&k, fs, len(fs)))
	}
	checkAll(&k, t, have, "read")
	again := parseTypeNode(writeType(t))
	checkAll(&k, again, have, "read again")
	sym.Reached("end")
}

// c07facetTypes: a custom facet declared by a type expression, as RAML has it.
func c07facetTypes(k kind) {
	name := anyString("name")
	x := sym.Pick(sym.Range("ty", 3), "string", "boolean", "Cust")
	_, err := rparse.ParseLibrary(sym.Doc(headLib, mapNode(strNode("types"), mapNode(strNode("T"),
		mapNode(strNode("type"), strNode(k.expr), strNode("facets"), mapNode(strNode(name), strNode(x)))))))
	sym.AssertKnown("facet-type", err == nil, "a custom facet's type expression is read")
	sym.Reached("end")
}
