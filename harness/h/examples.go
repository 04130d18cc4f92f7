//go:build go1.21

package h

import (
	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rparse"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// ev is one entry of an expanded example, with its value.
type ev struct {
	name  string
	in    *yaml.Node
	out   *yaml.Node
	never bool
	may   bool
	set   func(e raml.Example)
	check func(e raml.Example, what string)
}

// exFacet: everything about one entry of an example.
type exFacet struct {
	name   string
	parsed func(id string) ev
	built  func(id string) ev // nil: no setter
	unset  func(e raml.Example)
	setNil func(e raml.Example)
	absent func(e raml.Example, what string)
	bad    func(id string) *yaml.Node
}

func exText[E exT[E]](name string, get func(E) option.String, set func(E, string) E, unset func(E) E) exFacet {
	have := func(s string) func(raml.Example, string) {
		return func(e raml.Example, what string) {
			o := get(e.(E))
			sym.Assert(o.IsPresent() && !o.IsNil(), what+": "+name+" present")
			sym.Assert(o.Get() == s, what+": "+name)
		}
	}
	return exFacet{
		name: name,
		parsed: func(id string) ev {
			s := anyText(id)
			return ev{name: name, in: strNode(s), out: strNode(s), check: have(s)}
		},
		built: func(id string) ev {
			s := anyText(id)
			return ev{name: name, out: strNode(s), check: have(s),
				set: func(e raml.Example) { exChained(set(e.(E), s), e) }}
		},
		unset:  func(e raml.Example) { exChained(unset(e.(E)), e) },
		absent: func(e raml.Example, what string) { isAbsent[string](get(e.(E)), what+": "+name) },
		bad:    strClass.bad,
	}
}

func exFacets[E exT[E]]() []exFacet {
	annIsIn := func(name string, body *yaml.Node) func(raml.Example, string) {
		return func(e raml.Example, what string) {
			m := e.Annotations()
			sym.Assert(m.Len() == 1, what+": one annotation")
			annIs(m, 0, name, body, what+": annotation")
		}
	}
	return []exFacet{
		exText[E]("displayName", func(e E) option.String { return e.DisplayName() },
			func(e E, s string) E { return e.SetDisplayName(s) }, func(e E) E { return e.UnsetDisplayName() }),
		exText[E]("description", func(e E) option.String { return e.Description() },
			func(e E, s string) E { return e.SetDescription(s) }, func(e E) E { return e.UnsetDescription() }),
		{
			name: "strict",
			parsed: func(id string) ev {
				b := sym.Bool(id)
				return ev{name: "strict", in: boolNode(b), out: boolNode(b), never: b,
					check: func(e raml.Example, what string) { sym.Assert(e.Strict() == b, what+": strict") }}
			},
			built: func(id string) ev {
				b := sym.Bool(id)
				return ev{name: "strict", out: boolNode(b), never: b,
					set:   func(e raml.Example) { exChained(e.(E).SetStrict(b), e) },
					check: func(e raml.Example, what string) { sym.Assert(e.Strict() == b, what+": strict") }}
			},
			absent: func(e raml.Example, what string) { sym.Assert(e.Strict(), what+": strict by default") },
			bad:    boolClass.bad,
		},
		{
			name: "(annotation)",
			parsed: func(id string) ev {
				name, body := annName(id), annBody(id)
				return ev{name: name, in: body, out: body, check: annIsIn(name, body)}
			},
			built: func(id string) ev {
				name, body := annName(id), annBody(id)
				m := raml.NewAnnotationMap(0).SerializeOrdered(false).Put(name, builtAnn(body))
				ck := annIsIn(name, body)
				return ev{name: name, out: body,
					set: func(e raml.Example) { exChained(e.(E).SetAnnotations(m), e) },
					check: func(e raml.Example, what string) {
						sym.Assert(e.Annotations() == m, what+": the annotations that were set")
						ck(e, what)
					}}
			},
			unset:  func(e raml.Example) { exChained(e.(E).UnsetAnnotations(), e) },
			setNil: func(e raml.Example) { exChained(e.(E).SetAnnotations(nil), e) },
			absent: func(e raml.Example, what string) { sym.Assert(e.Annotations().Len() == 0, what+": no annotations") },
		},
		{
			name: "unknown",
			parsed: func(id string) ev {
				name, n := extraName(id), anyNode(id)
				return ev{name: name, in: n, out: n,
					check: func(e raml.Example, what string) { extraIs(e.ExtraFacets(), name, n, what) }}
			},
			absent: func(e raml.Example, what string) { sym.Assert(e.ExtraFacets().Len() == 0, what+": no unknown entries") },
		},
	}
}

// exState is what an example is expected to hold.
type exState struct {
	have map[int]ev
	val  *yaml.Node // as written, nil: no value
	ck   func(e raml.Example, what string)
}

func (s *exState) check(k *kind, e raml.Example, what string) {
	for i := range k.ex.facets {
		if f, ok := s.have[i]; ok {
			f.check(e, what)
		} else {
			k.ex.facets[i].absent(e, what)
		}
	}
	if s.val != nil {
		s.ck(e, what)
	} else {
		k.ex.absent(e, what)
	}
}

// written: the bare value when there is nothing else to say, otherwise
// exactly the entries.
func (s *exState) written(n *yaml.Node, what string) {
	var ws []want
	for i := 0; i < 10; i++ {
		if f, ok := s.have[i]; ok && !f.never {
			ws = append(ws, want{f.name, f.out, f.may})
		}
	}
	if len(ws) == 0 && s.val != nil {
		assertTree(n, s.val, what+": bare value")
		return
	}
	if s.val != nil {
		ws = append(ws, want{"value", s.val, false})
	}
	assertEntries(n, ws, what)
}

// exampleAt: the type's single example, or its only named one.
func exampleAt(k *kind, t raml.DataType, named bool, name string) raml.Example {
	if !named {
		sym.Assert(k.ex.has(t), "the example is found")
		sym.Assert(len(k.ex.named(t)) == 0, "there are no named examples")
		return k.ex.get(t)
	}
	sym.Assert(!k.ex.has(t), "there is no single example")
	all := k.ex.named(t)
	sym.Assert(len(all) == 1 && all[0].name == name, "the named example is found")
	e, ok := k.ex.lookup(t, name)
	sym.Assert(ok && e == all[0].ex, "the named example is found by name")
	return all[0].ex
}

// writtenExample is the example in the written type.
func writtenExample(t raml.DataType, named bool, name string) *yaml.Node {
	n := writeType(t)
	sym.Assert(n.Kind == yaml.MappingNode && len(n.Content) == 4, "the written type has its expression and the example")
	key := "example"
	if named {
		key = "examples"
	}
	v, c := entry(n, key)
	sym.Assert(c == 1, "the example is written under its name")
	if named {
		sym.Assert(v.Kind == yaml.MappingNode && len(v.Content) == 2 && v.Content[0].Value == name, "the example is written in the table")
		v = v.Content[1]
	}
	return v
}

// c10expanded: an expanded example with any two entries, with or without a
// value, in any order; read, written and read again.
func c10expanded(k kind) {
	slim = true
	st := exState{have: map[int]ev{}}
	n := mapNode()
	fs := k.ex.facets
	i := sym.Choice("first", len(fs)+1)
	j := sym.Choice("second", len(fs)+1)
	sym.Assume(i != j || i == len(fs))
	vpos := 0 // position of the value; 3: none
	if i == len(fs) && j == len(fs) {
		slim = false
	} else {
		vpos = sym.Choice("value", 3)
	}
	if vpos == 2 {
		vpos = 3
	}
	put := func(c, pos int, id string) {
		if pos == vpos {
			in, out, ck := k.ex.parsed("val")
			st.val, st.ck = out, ck
			n.Content = append(n.Content, strNode("value"), in)
		}
		if c < len(fs) {
			f := fs[c].parsed(id)
			st.have[c] = f
			n.Content = append(n.Content, strNode(f.name), f.in)
		}
	}
	put(i, 0, "f0")
	put(j, 1, "f1")
	put(len(fs), 2, "")
	if len(n.Content) == 0 {
		sym.Assume(false)
	}
	named := sym.Bool("named")
	name := anyString("name")
	d := n
	key := "example"
	if named {
		d, key = mapNode(strNode(name), n), "examples"
	}
	t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode(key), d))
	e := exampleAt(&k, t, named, name)
	st.check(&k, e, "read")
	w := writtenExample(t, named, name)
	st.written(w, "written")
	if w.Kind == yaml.MappingNode && st.val != nil && w == st.val {
		return // a bare mapping: see c10bare
	}
	if v, c := entry(w, "value"); w.Kind == yaml.MappingNode && len(st.have) == 0 && (c == 0 || v != st.val) {
		return // as above
	}
	again := parseTypeNode(writeType(t))
	st.check(&k, exampleAt(&k, again, named, name), "read again")
	sym.Reached("end")
}

// c10bare: a bare value; read, written and read again.
func c10bare(k kind) {
	slim = false
	in, out, ck := k.ex.parsed("val")
	named := sym.Bool("named")
	name := anyString("name")
	d := in
	key := "example"
	if named {
		d, key = mapNode(strNode(name), in), "examples"
	}
	decl := mapNode(strNode("type"), strNode(k.expr), strNode(key), d)
	if in.Kind == yaml.MappingNode {
		_, c := entry(in, "value")
		sym.Assume(c == 0)
		l, err := rparse.ParseLibrary(sym.Doc(headLib, mapNode(strNode("types"), mapNode(strNode("T"), decl))))
		sym.AssertKnown("bare-mapping", err == nil, "a mapping can be given as a bare example")
		e := exampleAt(&k, theType(l.Types(), "T"), named, name)
		x, ok := e.(interface{ Value() option.Untyped })
		sym.AssertKnown("bare-mapping", ok && x.Value().IsPresent(), "a mapping given as a bare example is its value")
		sym.Reached("mapping")
		return
	}
	t := parseTypeNode(decl)
	e := exampleAt(&k, t, named, name)
	st := exState{val: out, ck: ck}
	st.check(&k, e, "read")
	w := writtenExample(t, named, name)
	st.written(w, "written")
	again := parseTypeNode(writeType(t))
	st.check(&k, exampleAt(&k, again, named, name), "read again")
	sym.Reached("end")
}

// exStart: a fresh example, or one that was read with every entry set.
func exStart(k *kind, full bool) (raml.Example, *exState) {
	st := &exState{have: map[int]ev{}}
	if !full {
		return k.ex.fresh(), st
	}
	n := mapNode()
	for i := range k.ex.facets {
		f := k.ex.facets[i].parsed("i" + string(rune('a'+i)))
		if f.name == "strict" {
			sym.Assume(!f.never)
		}
		st.have[i] = f
		n.Content = append(n.Content, strNode(f.name), f.in)
	}
	in, out, ck := k.ex.parsed("ival")
	st.val, st.ck = out, ck
	n.Content = append(n.Content, strNode("value"), in)
	t := parseTypeNode(mapNode(strNode("type"), strNode(k.expr), strNode("example"), n))
	return k.ex.get(t), st
}

func exChange(k *kind, e raml.Example, st *exState, id string) {
	fs := k.ex.facets
	i := sym.Choice(id+"facet", len(fs)+1)
	call := sym.Choice(id+"call", 3)
	if i == len(fs) {
		switch call {
		case 0:
			set, out, ck := k.ex.built(id + "v")
			set(e)
			st.val, st.ck = out, ck
		case 1:
			k.ex.unset(e)
			st.val = nil
		default:
			sym.Assume(false)
		}
		return
	}
	f := &fs[i]
	switch call {
	case 0:
		sym.Assume(f.built != nil)
		v := f.built(id + "v")
		v.set(e)
		st.have[i] = v
	case 1:
		sym.Assume(f.unset != nil)
		f.unset(e)
		delete(st.have, i)
	default:
		sym.Assume(f.setNil != nil)
		f.setNil(e)
		delete(st.have, i)
	}
}

// c10built: any two calls on a fresh example, or one on one with every entry.
func c10built(k kind) {
	e, st := exBuilt(&k)
	t := parseTypeNode(exprNode(&k))
	giveExample(&k, t, e)
	st.written(writtenExample(t, false, ""), "written")
	sym.Reached("end")
}

// c13example: the same, observed through the accessors.
func c13example(k kind) {
	e, st := exBuilt(&k)
	st.check(&k, e, "after the calls")
	sym.Reached("end")
}

func exBuilt(k *kind) (raml.Example, *exState) {
	slim = true
	full := sym.Bool("full")
	e, st := exStart(k, full)
	slim = false
	before := sym.Bool("writtenBefore")
	write := func() {
		t := parseTypeNode(exprNode(k))
		giveExample(k, t, e)
		writeType(t)
		st.check(k, e, "written")
	}
	if full && before {
		write()
	}
	exChange(k, e, st, "c0")
	if !full && before {
		write()
	}
	if !full || sym.Tier() > 0 {
		slim = true
		exChange(k, e, st, "c1")
	}
	if !full && sym.Tier() > 0 {
		exChange(k, e, st, "c2")
	}
	return e, st
}

func giveExample(k *kind, t raml.DataType, e raml.Example) {
	sym.Assert(k.ex.give != nil, "setter")
	k.ex.give(t, e)
}
