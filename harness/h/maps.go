//go:build go1.21

package h

import (
	"errors"
	"strconv"

	"github.com/Foxcapades/goop/v1/pkg/option"
	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
	"github.com/Foxcapades/lib-go-raml/v0/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// mapLike is what all twenty-one map types have in common.
type mapLike[S any, K any, V any] interface {
	Put(k K, v V) S
	ReplaceOrPut(k K, v V) S
	ReplaceIfExists(k K, v V) S
	Get(k K) (V, bool)
	Len() int
	Has(k K) bool
	IndexOf(k K) int
	Delete(k K) S
	ForEach(func(k K, v V)) S
	SerializeOrdered(bool) S
}

// mapKit: how to work with one map type.
type mapKit[S mapLike[S, K, V], K any, V any] struct {
	mk     func(n int) S
	at     func(s S, i int) (K, V)
	key    func(name string) K
	val    func(name string) V
	eqK    func(a, b K) bool
	eqV    func(a, b V) bool
	same   func(a, b S) bool
	putOpt func(m S, k K, v *V) S
}

type ent[K any, V any] struct {
	k K
	v V
}

// ref is the insertion-ordered dictionary.
type ref[K any, V any] struct{ es []ent[K, V] }

func (r *ref[K, V]) find(eq func(a, b K) bool, k K) int {
	for i := range r.es {
		if eq(r.es[i].k, k) {
			return i
		}
	}
	return -1
}

func (r *ref[K, V]) del(i int) {
	if i >= 0 {
		n := make([]ent[K, V], 0, len(r.es))
		n = append(n, r.es[:i]...)
		r.es = append(n, r.es[i+1:]...)
	}
}

// step applies one operation to the map and to the dictionary.
func step[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], m S, r *ref[K, V], op int, k K, v V) {
	var res S
	i := r.find(kit.eqK, k)
	switch op {
	case 0:
		res = m.Put(k, v)
		r.del(i)
		r.es = append(r.es, ent[K, V]{k, v})
	case 1:
		res = m.Delete(k)
		r.del(i)
	case 2:
		res = m.ReplaceOrPut(k, v)
		if i >= 0 {
			r.es[i].v = v
		} else {
			r.es = append(r.es, ent[K, V]{k, v})
		}
	default:
		res = m.ReplaceIfExists(k, v)
		if i >= 0 {
			r.es[i].v = v
		}
	}
	sym.Assert(kit.same(res, m), "every operation returns the same map")
}

// agree: every view of the map shows exactly the dictionary.
func agree[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], m S, r *ref[K, V], probe K) {
	sym.Assert(m.Len() == len(r.es), "length")
	for i := range r.es {
		k, v := kit.at(m, i)
		sym.Assert(kit.eqK(k, r.es[i].k), "key at position")
		sym.Assert(kit.eqV(v, r.es[i].v), "value at position")
	}
	n := 0
	res := m.ForEach(func(k K, v V) {
		if n < len(r.es) {
			sym.Assert(kit.eqK(k, r.es[n].k), "iteration: key")
			sym.Assert(kit.eqV(v, r.es[n].v), "iteration: value")
		}
		n++
	})
	sym.Assert(kit.same(res, m), "ForEach returns the same map")
	sym.Assert(n == len(r.es), "iteration: number of entries")
	look(kit, m, r, probe)
}

func look[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], m S, r *ref[K, V], k K) {
	i := r.find(kit.eqK, k)
	sym.Assert(m.Has(k) == (i >= 0), "membership")
	sym.Assert(m.IndexOf(k) == i, "position of key")
	v, ok := m.Get(k)
	sym.Assert(ok == (i >= 0), "lookup: presence")
	if i >= 0 {
		sym.Assert(kit.eqV(v, r.es[i].v), "lookup: value")
	}
}

// ---- keys and values ----

// textMax: the length of keys and values (set by every harness that uses them).
var textMax int

func stringKey(name string) string { return sym.String(name, textMax) }
func stringVal(name string) string { return sym.String(name, textMax) }
func eqString(a, b string) bool    { return a == b }
func eqAny(a, b interface{}) bool  { return a == b }

func anyKey(name string) interface{} {
	switch name {
	case "k0", "fk1", "fk4":
		return sym.String(name, 2)
	case "fk0", "fk2", "fk3":
		return sym.Int64(name + ".int")
	}
	if sym.Choice(name+".kind", 2) == 0 {
		return sym.String(name, 2)
	}
	return sym.Int64(name + ".int")
}

func untypedVal(name string) interface{} {
	if name[len(name)-1] == '0' && sym.Choice(name+".kind", 2) == 1 {
		return nil
	}
	return sym.String(name, textMax)
}

// fx is a stand-in element: its identity is its address and its content text.
type fx struct{ text string }

func mkfx(name string) fx { return fx{sym.String(name, textMax)} }

func (f fx) toYAML() (*yaml.Node, error) {
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: f.text}, nil
}

func (f fx) toJSON() ([]byte, error) { return sym.ToJSON(f.text) }

func fxText(v interface{}) (string, bool) {
	t, ok := v.(interface{ content() string })
	if ok {
		return t.content(), true
	}
	return "", false
}

func (f fx) content() string { return f.text }

// ---- C01 ----

// history: n operations on an empty map, each view compared after the last.
func history[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = 2
	m := kit.mk(sym.Choice("size", 2))
	r := &ref[K, V]{}
	for i := 0; i < 3; i++ {
		d := string(rune('0' + i))
		step(kit, m, r, sym.Choice("op"+d, 4), kit.key("k"+d), kit.val("v"+d))
	}
	agree(kit, m, r, kit.key("p"))
	sym.Reached("end")
}

// deep: a map of several entries of arbitrary distinct keys, then one
// operation (thorough: two) of any kind on any key.
func deep[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = 2
	n := 4
	if sym.Tier() > 0 {
		n = sym.Choice("entries", 5)
	}
	m, r := filled(kit, n)
	for i := 0; i < 1+sym.Tier(); i++ {
		d := string(rune('0' + i))
		step(kit, m, r, sym.Choice("op"+d, 4), kit.key("k"+d), kit.val("v"+d))
	}
	agree(kit, m, r, kit.key("p"))
	sym.Reached("end")
}

// large: a map of many entries, then one operation (thorough: two) of any kind
// on any of the keys or another one.
func large[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = 4
	m, r := many(kit, []int{9, 20}[sym.Choice("entries", 2)])
	agree(kit, m, r, r.es[3].k)
	for i := 0; i < 1+sym.Tier(); i++ {
		d := string(rune('0' + i))
		k := kit.key("k" + d)
		step(kit, m, r, sym.Choice("op"+d, 4), k, kit.val("v"+d))
		agree(kit, m, r, k)
	}
	sym.Reached("end")
}

// drained: a map made for any number of entries that had many entries, most of
// which were deleted again in some order, then one operation.
func drained[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = 2
	n := []int{4, 20}[sym.Choice("entries", 2)]
	m, r := made(kit, []int{1, 16, 64}[sym.Choice("size", 3)], n)
	left, where := sym.Choice("left", 4), sym.Choice("where", 3)
	for i := n; i > left; i-- {
		j := 0
		if where == 1 {
			j = i - 1
		} else if where == 2 {
			j = i / 2
		}
		k := r.es[j].k
		sym.Assert(kit.same(m.Delete(k), m), "every operation returns the same map")
		r.del(j)
		if i <= left+2 {
			agree(kit, m, r, k)
		}
	}
	step(kit, m, r, sym.Choice("op", 4), kit.key("k0"), kit.val("v0"))
	agree(kit, m, r, kit.key("p"))
	sym.Reached("end")
}

// huge: a map of 300 entries, then one operation.
func huge[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = 2
	n := 300
	m, r := kit.mk(1), &ref[K, V]{}
	v := kit.val("v")
	for i := 0; i < n; i++ {
		k := any(scattered(i)).(K)
		m.Put(k, v)
		r.es = append(r.es, ent[K, V]{k, v})
	}
	k := any(scattered([]int{0, 150, n - 1, n}[sym.Choice("which", 4)])).(K)
	step(kit, m, r, sym.Choice("op", 4), k, kit.val("w"))
	agree(kit, m, r, k)
	agree(kit, m, r, any(scattered(271)).(K))
	sym.Reached("end")
}

// hugeForms: its two forms.
func hugeForms[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], json bool) {
	textMax = 2
	m, r := kit.mk(1), &ref[K, V]{}
	v := kit.val("v")
	for i := 0; i < 300; i++ {
		k := any(scattered(i)).(K)
		m.Put(k, v)
		r.es = append(r.es, ent[K, V]{k, v})
	}
	ordered := sym.Bool("ordered")
	m.SerializeOrdered(ordered)
	if json {
		checkJSON(m, r, ordered, func(j *sym.J, v V) { assertJSON(j, v) })
	} else {
		checkYAML(m, r, ordered, func(v V) *yaml.Node { return plainTree(v) })
	}
	sym.Reached("end")
}

// many: a map of n entries of fixed distinct keys, in no particular order.
func many[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], n int) (S, *ref[K, V]) {
	return made(kit, 1, n)
}

func made[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], size, n int) (S, *ref[K, V]) {
	m := kit.mk(size)
	r := &ref[K, V]{}
	for i := 0; i < n; i++ {
		k, v := any(scattered(i)).(K), kit.val("mv"+string(rune('A'+i)))
		m.Put(k, v)
		r.es = append(r.es, ent[K, V]{k, v})
	}
	return m, r
}

// scattered: the i-th of a list of names in no particular order (i < 997).
func scattered(i int) string {
	i = (i*411 + 17) % 997
	return "k" + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
}

// filled: a map of n entries with distinct keys.
func filled[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], n int) (S, *ref[K, V]) {
	m := kit.mk(1)
	r := &ref[K, V]{}
	for i := 0; i < n; i++ {
		d := string(rune('0' + i))
		k, v := kit.key("fk"+d), kit.val("fv"+d)
		for _, e := range r.es {
			sym.Assume(!kit.eqK(e.k, k))
		}
		m.Put(k, v)
		r.es = append(r.es, ent[K, V]{k, v})
	}
	return m, r
}

// ---- C02 ----

// optionals: an optional put on a map that may already hold the key.
func optionals[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	textMax = long
	m, r := filled(kit, sym.Choice("entries", 3+sym.Tier()))
	for i := 0; i < 1+sym.Tier(); i++ {
		d := string(rune('0' + i))
		k := kit.key("k" + d)
		if sym.Bool("nil" + d) {
			res := kit.putOpt(m, k, nil)
			sym.Assert(kit.same(res, m), "an optional put returns the same map")
		} else {
			var v V
			if !sym.Bool("zero" + d) {
				v = kit.val("v" + d)
			}
			p := v
			res := kit.putOpt(m, k, &p)
			sym.Assert(kit.same(res, m), "an optional put returns the same map")
			r.del(r.find(kit.eqK, k))
			r.es = append(r.es, ent[K, V]{k, v})
		}
	}
	agree(kit, m, r, kit.key("p"))
	sym.Reached("end")
}

// anyMapLike: the maps of arbitrary values.
type anyMapLike[S any, K any] interface {
	mapLike[S, K, interface{}]
	PutIfNotNil(k K, v interface{}) S
	GetOpt(k K) option.Untyped
}

// word is a text with its own forms, boxed likewise.
type word string

func (w word) String() string { return "word " + string(w) }

func (w word) MarshalText() ([]byte, error) { return []byte("text " + string(w)), nil }

func (w word) IsNil() bool { return true }

type boxed struct{ s string }

func (b boxed) String() string { return "boxed " + b.s }

func (b boxed) Error() string { return "error " + b.s }

func (b boxed) Get() string { return "got " + b.s }

func (b boxed) IsNil() bool { return false }

// kinds: optional puts of every kind of value into a map of arbitrary values.
func kinds[S anyMapLike[S, K], K any](kit mapKit[S, K, interface{}]) {
	textMax = long
	m, r := filled(kit, sym.Choice("entries", 3))
	k := kit.key("k0")
	s, n, b := sym.String("s", long), sym.Int64("i"), sym.Bool("b")
	u, f := uint(sym.Uint64("u")), sym.Float("f")
	kind := sym.Choice("value", 23)
	var put, want interface{}
	var eq func(got interface{}) bool
	switch kind {
	case 0: // nothing
	case 1:
		put = (*string)(nil)
	case 2:
		put = []string(nil)
	case 3:
		put = map[string]int(nil)
	case 4:
		put = (*int64)(nil)
	case 5:
		put = (*interface{})(nil)
	case 6:
		put, want = s, s
	case 7:
		put, want = &s, s
	case 8:
		put, want = n, n
	case 9:
		put, want = &n, n
	case 10:
		put, want = &b, b
	case 11:
		put, want = &u, u
	case 12:
		put, want = &f, f
	case 13:
		l := []string{s}
		put = l
		eq = func(got interface{}) bool {
			x, ok := got.([]string)
			return ok && len(x) == 1 && x[0] == s
		}
	case 14:
		l := []interface{}{}
		put = l
		eq = func(got interface{}) bool {
			x, ok := got.([]interface{})
			return ok && len(x) == 0 && x != nil
		}
	case 15:
		l := map[string]int{"a": 1}
		put = l
		eq = func(got interface{}) bool {
			x, ok := got.(map[string]int)
			return ok && len(x) == 1 && x["a"] == 1
		}
	case 16:
		var e interface{} = s
		put, want = &e, s
	case 17:
		put, want = word(s), word(s)
	case 18:
		w := word(s)
		put, want = &w, word(s)
	case 19:
		put, want = boxed{s}, boxed{s}
	case 20:
		put, want = &boxed{s}, boxed{s}
	case 21:
		e := errors.New(s)
		put = &e
		eq = func(got interface{}) bool { return got == interface{}(e) }
	default:
		put, want = false, false
		if b {
			put, want = 0, 0
		}
	}
	res := m.PutIfNotNil(k, put)
	sym.Assert(kit.same(res, m), "an optional put returns the same map")
	if kind < 6 {
		agree(kit, m, r, kit.key("p"))
		sym.Reached("nil")
		return
	}
	if eq == nil {
		r.del(r.find(kit.eqK, k))
		r.es = append(r.es, ent[K, interface{}]{k, want})
		agree(kit, m, r, kit.key("p"))
	}
	got, ok := m.Get(k)
	sym.Assert(ok, "the value is present")
	if eq == nil {
		sym.Assert(got == want, "the pointed-to value is stored")
	} else {
		sym.Assert(eq(got), "the given value is stored")
	}
	_, last := kit.at(m, m.Len()-1)
	if eq == nil {
		sym.Assert(last == want, "the value is stored last")
	} else {
		sym.Assert(eq(last), "the value is stored last")
	}
	sym.Reached("value")
}

// lookups: optional lookups after a history that may store entries without a
// value.
func lookups[S anyMapLike[S, K], K any](kit mapKit[S, K, interface{}]) {
	textMax = long
	m := kit.mk(1)
	r := &ref[K, interface{}]{}
	for i := 0; i < 2; i++ {
		d := string(rune('0' + i))
		k := kit.key("k" + d)
		s, n := sym.String("s"+d, long), sym.Int64("n"+d)
		var v interface{}
		switch sym.Choice("value"+d, 6) {
		case 0:
			v = s
		case 1:
			v = n
		case 2:
			v = nil
		case 3:
			v = (*string)(nil)
		case 4:
			v = sym.Bool("b" + d)
		default:
			v = []string(nil)
		}
		if sym.Choice("op"+d, 2) == 0 {
			m.Put(k, v)
			r.del(r.find(kit.eqK, k))
			r.es = append(r.es, ent[K, interface{}]{k, v})
		} else {
			m.ReplaceOrPut(k, v)
			if j := r.find(kit.eqK, k); j >= 0 {
				r.es[j].v = v
			} else {
				r.es = append(r.es, ent[K, interface{}]{k, v})
			}
		}
	}
	p := kit.key("p")
	var o option.Untyped
	msg, panicked := sym.Caught(func() { o = m.GetOpt(p) })
	sym.Assert(!panicked, "an optional lookup never fails: "+msg)
	j := r.find(kit.eqK, p)
	some := false
	var want interface{}
	if j >= 0 {
		want = r.es[j].v
		switch want.(type) {
		case string, int64, bool:
			some = true
		}
	}
	sym.Assert(o.IsPresent() == some, "presence of an optional lookup")
	sym.Assert(o.IsNil() == !some, "absence of an optional lookup")
	if some {
		sym.Assert(o.Get() == want, "value of an optional lookup")
	}
	sym.Reached("end")
}

func C02_AnyMapKinds()        { kinds(kitAnyMap()) }
func C02_UntypedMapKinds()    { kinds(kitUntypedMap()) }
func C02_AnyExampleMapKinds() { kinds(kitAnyExampleMap()) }

func C02_AnyMapLookups()        { lookups(kitAnyMap()) }
func C02_UntypedMapLookups()    { lookups(kitUntypedMap()) }
func C02_AnyExampleMapLookups() { lookups(kitAnyExampleMap()) }

func C02_StringMapLookups() {
	textMax = long
	kit := kitStringMap()
	m, r := filled(kit, 2)
	step(kit, m, r, sym.Choice("op0", 4), kit.key("k0"), kit.val("v0"))
	p := kit.key("p")
	var o option.String
	msg, panicked := sym.Caught(func() { o = m.GetOpt(p) })
	sym.Assert(!panicked, "an optional lookup never fails: "+msg)
	j := r.find(kit.eqK, p)
	sym.Assert(o.IsPresent() == (j >= 0), "presence of an optional lookup")
	if j >= 0 {
		sym.Assert(o.Get() == r.es[j].v, "value of an optional lookup")
	}
	sym.Reached("end")
}

// ---- C03 and C04 ----

// mutate brings the map into one of its two modes after a short history, with
// mode switches in between that must have no effect.
func mutate[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) (S, *ref[K, V], bool) {
	n := sym.Choice("entries", 3)
	textMax = long
	if n == 2 {
		textMax = 2
	}
	m, r := filled(kit, n)
	ordered := true
	sw := sym.Choice("switch", 4)
	if sw >= 2 {
		ordered = sw == 3
		sym.Assert(kit.same(m.SerializeOrdered(ordered), m), "switching the mode returns the same map")
	}
	step(kit, m, r, sym.Choice("op0", 4), kit.key("k0"), kit.val("v0"))
	if sw == 1 {
		ordered = false
		m.SerializeOrdered(false)
	}
	return m, r, ordered
}

func yamlForm[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	m, r, ordered := mutate(kit)
	checkYAML(m, r, ordered, func(v V) *yaml.Node { return plainTree(v) })
	agree(kit, m, r, kit.key("p"))
	sym.Reached("end")
}

// largeForms: both forms and both modes of a map of many entries.
func largeForms[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], json bool) {
	textMax = 4
	m, r := many(kit, 12)
	k := kit.key("k0")
	form := func(ordered bool) {
		if json {
			checkJSON(m, r, ordered, func(j *sym.J, v V) { assertJSON(j, v) })
		} else {
			checkYAML(m, r, ordered, func(v V) *yaml.Node { return plainTree(v) })
		}
	}
	form(true)
	step(kit, m, r, sym.Choice("op0", 4), k, kit.val("v0"))
	ordered := sym.Bool("ordered")
	m.SerializeOrdered(ordered)
	form(ordered)
	agree(kit, m, r, k)
	sym.Reached("end")
}

// alikeKeys are names that are nearly the same as k.
func alikeKeys(k string) []string {
	return []string{k, " " + k, k + " ", k + "\n", k + "?", "(" + k + ")", "/" + k, k + k, k + ".0", "\"" + k + "\"", k + "\x00",
		"a" + k, "A" + k, k + "\u00e9", k + "e\u0301", filler(300) + k, filler(300) + "c"}
}

// alike: two keys that are nearly the same are different keys.
func alike[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], form int) {
	textMax = 2
	base := "b"
	if sym.Tier() > 0 {
		base = []string{"b", "", "é", "1"}[sym.Choice("base", 4)]
	}
	as := alikeKeys(base)
	m, r := kit.mk(1), &ref[K, V]{}
	at := sym.Choice("plain", 2) // which of the two is the plain one
	for i := 0; i < 2; i++ {
		k := base
		if i != at {
			k = as[sym.Choice("key", len(as))]
		}
		var v V
		if i == 0 || !sym.Bool("zero") {
			v = kit.val("v" + string(rune('0'+i)))
		}
		step(kit, m, r, 0, any(k).(K), v)
	}
	ordered := sym.Bool("ordered")
	m.SerializeOrdered(ordered)
	switch form {
	case 0:
		for i := range as {
			agree(kit, m, r, any(as[i]).(K))
		}
	case 1:
		checkYAML(m, r, ordered, func(v V) *yaml.Node { return plainTree(v) })
	case 2:
		checkJSON(m, r, ordered, func(j *sym.J, v V) { assertJSON(j, v) })
	}
	sym.Reached("end")
}

func checkYAML[S any, K any, V any](m S, r *ref[K, V], ordered bool, tree func(V) *yaml.Node) {
	want := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
	if ordered {
		want = &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!omap"}
	}
	for _, e := range r.es {
		k, v := plainTree(e.k), tree(e.v)
		if ordered {
			want.Content = append(want.Content, &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map", Content: []*yaml.Node{k, v}})
		} else {
			want.Content = append(want.Content, k, v)
		}
	}
	assertTree(sym.NodeTree(m), want, "YAML form")
	n, err := any(m).(interface{ ToYAML() (*yaml.Node, error) }).ToYAML()
	sym.Assert(err == nil, "the YAML form is built without an error")
	assertTree(sym.NodeTree(n), want, "YAML node")
}

// plainTree is the node for a plain scalar.
func plainTree(v interface{}) *yaml.Node {
	switch t := v.(type) {
	case nil:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null"}
	case string:
		return strNode(t)
	case int64:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: sym.IntText(t)}
	case int:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: sym.IntText(int64(t))}
	case uint:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!int", Value: sym.UintText(uint64(t))}
	case bool:
		return boolNode(t)
	case float64:
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!float", Value: sym.FloatText(t)}
	case interface{ content() string }:
		return strNode(t.content())
	}
	panic("harness: no plain tree")
}

func jsonForm[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V]) {
	m, r, ordered := mutate(kit)
	checkJSON(m, r, ordered, func(j *sym.J, v V) { assertJSON(j, v) })
	agree(kit, m, r, kit.key("p"))
	sym.Reached("end")
}

func checkJSON[S any, K any, V any](m S, r *ref[K, V], ordered bool, check func(*sym.J, V)) {
	b, err := any(m).(interface{ MarshalJSON() ([]byte, error) }).MarshalJSON()
	sym.Assert(err == nil, "the JSON form is built without an error")
	j := sym.JSON(b)
	if ordered {
		sym.Assert(j.Kind == "arr", "ordered JSON is an array")
		sym.Assert(len(j.Els) == len(r.es), "ordered JSON has one element per entry")
		for i, e := range r.es {
			o := j.Els[i]
			sym.Assert(o.Kind == "obj" && len(o.Keys) == 2, "an entry is an object of two members")
			for n, k := range o.Keys {
				if k == "key" {
					assertJSON(o.Els[n], e.k)
				} else {
					sym.Assert(k == "value", "the members of an entry are key and value")
					check(o.Els[n], e.v)
				}
			}
			sym.Assert(o.Keys[0] != o.Keys[1], "the members of an entry are key and value")
		}
		return
	}
	sym.Assert(j.Kind == "obj", "unordered JSON is an object")
	for i, e := range r.es {
		for _, f := range r.es[:i] {
			if keyText(e.k) == keyText(f.k) {
				sym.AssertKnown("same-text", len(j.Els) == len(r.es), "unordered JSON has one member per entry, also for keys of the same text")
				return
			}
		}
	}
	sym.Assert(len(j.Els) == len(r.es), "unordered JSON has one member per entry")
	for _, e := range r.es {
		name := keyText(e.k)
		hit := -1
		for n, k := range j.Keys {
			if k == name {
				hit = n
			}
		}
		sym.Assert(hit >= 0, "an entry's member has the key's text as name")
		check(j.Els[hit], e.v)
	}
}

func keyText(k interface{}) string {
	switch t := k.(type) {
	case string:
		return t
	case int64:
		return sym.IntText(t)
	case bool:
		if t {
			return "true"
		}
		return "false"
	}
	panic("harness: no key text")
}

func assertJSON(j *sym.J, v interface{}) {
	switch t := v.(type) {
	case nil:
		sym.Assert(j.Kind == "null", "JSON null")
	case string:
		sym.Assert(j.Kind == "str" && j.S == t, "JSON string")
	case int64:
		sym.Assert(j.Kind == "num" && j.N == sym.IntText(t), "JSON integer")
	case int:
		sym.Assert(j.Kind == "num" && j.N == sym.IntText(int64(t)), "JSON integer")
	case uint:
		sym.Assert(j.Kind == "num" && j.N == sym.UintText(uint64(t)), "JSON integer")
	case bool:
		sym.Assert(j.Kind == "bool" && j.B == t, "JSON boolean")
	case float64:
		sym.Assert(j.Kind == "num", "JSON number")
		f, err := strconv.ParseFloat(j.N, 64)
		sym.Assert(err == nil && f == t, "JSON number's value")
	case interface{ content() string }:
		sym.Assert(j.Kind == "str" && j.S == t.content(), "JSON of an element")
	default:
		panic("harness: no JSON check")
	}
}

// valueOf makes a value of any supported kind, its YAML tree and the check of
// its JSON form.
func valueOf(name string, kind int) (interface{}, *yaml.Node, func(*sym.J)) {
	s := sym.String(name+".s", long)
	switch kind {
	case 0, 1, 2, 3, 4, 5:
		var v interface{}
		switch kind {
		case 0:
			v = sym.Int64(name + ".i")
		case 1:
			v = int(sym.Int64(name + ".i"))
		case 2:
			v = uint(sym.Uint64(name + ".u"))
		case 3:
			v = sym.Bool(name + ".b")
		case 4:
			v = sym.Float(name + ".f")
		}
		return v, plainTree(v), func(j *sym.J) { assertJSON(j, v) }
	case 6:
		return &s, strNode(s), func(j *sym.J) { assertJSON(j, s) }
	case 7:
		return (*string)(nil), plainTree(nil), func(j *sym.J) { assertJSON(j, nil) }
	case 8:
		l := []string{s, sym.String(name+".t", long)}
		return l, seqNode(strNode(l[0]), strNode(l[1])), func(j *sym.J) {
			sym.Assert(j.Kind == "arr" && len(j.Els) == 2, "JSON of a list")
			assertJSON(j.Els[0], l[0])
			assertJSON(j.Els[1], l[1])
		}
	case 9:
		l := []interface{}{s, sym.Int64(name + ".i"), nil}
		return l, seqNode(plainTree(l[0]), plainTree(l[1]), plainTree(nil)), func(j *sym.J) {
			sym.Assert(j.Kind == "arr" && len(j.Els) == 3, "JSON of a list")
			for i := range l {
				assertJSON(j.Els[i], l[i])
			}
		}
	case 10:
		in := raml.NewStringMap(1).SerializeOrdered(false)
		in.Put("k", s)
		return in, mapNode(strNode("k"), strNode(s)), func(j *sym.J) {
			sym.Assert(j.Kind == "obj" && len(j.Keys) == 1 && j.Keys[0] == "k", "JSON of a nested map")
			assertJSON(j.Els[0], s)
		}
	case 11:
		return map[string]string{"k": s}, mapNode(strNode("k"), strNode(s)), func(j *sym.J) {
			sym.Assert(j.Kind == "obj" && len(j.Keys) == 1 && j.Keys[0] == "k", "JSON of a nested map")
			assertJSON(j.Els[0], s)
		}
	default:
		var n interface{} = s
		return &n, strNode(s), func(j *sym.J) { assertJSON(j, s) }
	}
}

const valueKinds = 13

type box struct{ i int }

func valuesForm[S anyMapLike[S, K], K any](kit mapKit[S, K, interface{}], json bool) {
	textMax = long
	m := kit.mk(0)
	ordered := sym.Bool("ordered")
	m.SerializeOrdered(ordered)
	var trees []*yaml.Node
	var js []func(*sym.J)
	r := &ref[K, box]{}
	for i := 0; i < 2; i++ {
		d := string(rune('0' + i))
		kind := 6
		if i == 0 {
			kind = sym.Choice("value"+d, valueKinds)
		}
		k := kit.key("k" + d)
		v, t, j := valueOf("v"+d, kind)
		for _, e := range r.es {
			sym.Assume(!kit.eqK(e.k, k))
		}
		m.Put(k, v)
		r.es = append(r.es, ent[K, box]{k, box{i}})
		trees = append(trees, t)
		js = append(js, j)
	}
	if json {
		checkJSON(m, r, ordered, func(j *sym.J, b box) { js[b.i](j) })
	} else {
		checkYAML(m, r, ordered, func(b box) *yaml.Node { return trees[b.i] })
	}
	sym.Reached("end")
}

// textsForm: texts with line breaks and other letters as keys and values.
func textsForm[S mapLike[S, K, V], K any, V any](kit mapKit[S, K, V], json bool) {
	textMax = 2
	m, r := kit.mk(1), &ref[K, V]{}
	n := 1 + sym.Choice("entries", 2)
	for i := 0; i < n; i++ {
		d := string(rune('0' + i))
		ks, vs := "k"+d, "v"+d
		if i == n-1 {
			ks, vs = sym.Text("key", 3), sym.Text("value", 3)
			if sym.Bool("odd") {
				ks, vs = odds[sym.Choice("oddKey", len(odds))], odds[sym.Choice("oddValue", len(odds))]
			}
		}
		sym.Assume(i == 0 || ks != "k0")
		k, v := any(ks).(K), any(vs).(V)
		m.Put(k, v)
		r.es = append(r.es, ent[K, V]{k, v})
	}
	ordered := sym.Bool("ordered")
	m.SerializeOrdered(ordered)
	if json {
		checkJSON(m, r, ordered, func(j *sym.J, v V) { assertJSON(j, v) })
	} else {
		checkYAML(m, r, ordered, func(v V) *yaml.Node { return plainTree(v) })
	}
	sym.Reached("end")
}

// odds are texts that need care when written.
var odds = []string{"", "~", "null", "yes", "1", "1.5", "2020-01-01", "<", "=", "- a", "a: b", "#", "!a", "&a", "*a", "<&>", "\"", "'", "\\",
	"\u2028", "\U0001F600", "a\nb\n", "a\n\n", "%", "@a", "`", "{", "[a]", ",", "? a", "|", ">", "0x10", "0o7", ".inf", "1_000", "e\u0301"}

func C03_StringMapTexts()  { textsForm(kitStringMap(), false) }
func C03_AnyMapTexts()     { textsForm(kitAnyMap(), false) }
func C03_UntypedMapTexts() { textsForm(kitUntypedMap(), false) }
func C04_StringMapTexts()  { textsForm(kitStringMap(), true) }
func C04_AnyMapTexts()     { textsForm(kitAnyMap(), true) }
func C04_UntypedMapTexts() { textsForm(kitUntypedMap(), true) }

func C03_AnyMapValues()        { valuesForm(kitAnyMap(), false) }
func C03_UntypedMapValues()    { valuesForm(kitUntypedMap(), false) }
func C03_AnyExampleMapValues() { valuesForm(kitAnyExampleMap(), false) }
func C04_AnyMapValues()        { valuesForm(kitAnyMap(), true) }
func C04_UntypedMapValues()    { valuesForm(kitUntypedMap(), true) }
func C04_AnyExampleMapValues() { valuesForm(kitAnyExampleMap(), true) }
