package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, fn *ssa.Function, args []Value) Value

type fallT struct{}

// fallThrough: the intrinsic does not apply to these arguments; interpret the body.
var fallThrough = &fallT{}

// NativeObj wraps a Go value that the interpreted code only handles opaquely.
type NativeObj struct{ v interface{} }

const modPath = "github.com/Foxcapades/lib-go-raml/v0/zzverif"

// replaced by model functions (interpreted Go in /verif/harness/model)
var modelNames = map[string]string{
	"gopkg.in/yaml.v3.NewDecoder":             "NewDecoder",
	"(*gopkg.in/yaml.v3.Decoder).Decode":      "Decode",
	"(*gopkg.in/yaml.v3.Decoder).KnownFields": "KnownFields",
	"gopkg.in/yaml.v3.NewEncoder":             "NewEncoder",
	"(*gopkg.in/yaml.v3.Encoder).Encode":      "Encode",
	"(*gopkg.in/yaml.v3.Encoder).SetIndent":   "SetIndent",
	"(*gopkg.in/yaml.v3.Encoder).Close":       "Close",
	"gopkg.in/yaml.v3.Unmarshal":              "Unmarshal",
	"gopkg.in/yaml.v3.Marshal":                "Marshal",
	"(*gopkg.in/yaml.v3.Node).Decode":         "NodeDecode",
	"(*gopkg.in/yaml.v3.Node).Encode":         "NodeEncode",
	"encoding/json.Marshal":                   "JSONMarshal",
	"encoding/json.MarshalIndent":             "JSONMarshalIndent",
	"encoding/json.NewEncoder":                "NewJSONEncoder",
	"(*encoding/json.Encoder).Encode":         "JSONEncode",
	"(*encoding/json.Encoder).SetEscapeHTML":  "JSONSetEscapeHTML",
	"(*encoding/json.Encoder).SetIndent":      "JSONSetIndent",
	"(*sync.Map).Load":                        "SyncLoad",
	"(*sync.Map).Store":                       "SyncStore",
	"(*sync.Map).LoadOrStore":                 "SyncLoadOrStore",
	"(*sync.Map).LoadAndDelete":               "SyncLoadAndDelete",
	"(*sync.Map).Delete":                      "SyncDelete",
	"(*sync.Map).Swap":                        "SyncSwap",
	"(*sync.Map).Range":                       "SyncRange",
	"(*sync.Map).Clear":                       "SyncClear",
	"(*sync/atomic.Value).Load":               "AtomicLoad",
	"(*sync/atomic.Value).Store":              "AtomicStore",
	"(*sync/atomic.Value).Swap":               "AtomicSwap",
	"fmt.Errorf":                              "Errorf",
	"errors.Is":                               "ErrorsIs",
	modPath + "/sym.DocText":                  "DocText",
	modPath + "/sym.Tree":                     "Tree",
	modPath + "/sym.NodeTree":                 "NodeTree",
	modPath + "/sym.JSON":                     "JSON",
}

func (w *Worker) findIntrinsic(fn *ssa.Function, name string) intrinsic {
	if m := modelNames[name]; m != "" {
		f := w.eng.models[m]
		if f == nil {
			panic("missing model " + m)
		}
		return func(w *Worker, _ *ssa.Function, args []Value) Value { return w.call(f, args, nil) }
	}
	if i := intrinsics[name]; i != nil {
		return i
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return func(w *Worker, fn *ssa.Function, args []Value) Value {
			if w.initCur == fn {
				w.initCur = nil
				return fallThrough
			}
			return nil
		}
	}
	pk := pkgOf(fn)
	switch pk {
	case "github.com/sirupsen/logrus", "log":
		return func(w *Worker, fn *ssa.Function, args []Value) Value { return w.zeroResults(fn) }
	case "regexp":
		return regexpIntrinsic(fn, name)
	}
	if f, ok := nativeFns[name]; ok {
		rf := reflect.ValueOf(f)
		return func(w *Worker, fn *ssa.Function, args []Value) Value { return w.native(rf, fn, args) }
	}
	return nil
}

// ---------- native calls on concrete (or choice) arguments ----------

func (w *Worker) toGo(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := w.strConc(v)
		return reflect.ValueOf(s).Convert(t), ok
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.Float32:
		c, ok := v.(*Term)
		if !ok || !c.isConst() {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		switch {
		case t.Kind() == reflect.Bool:
			r.SetBool(c.c != 0)
		case t.Kind() == reflect.Float64 || t.Kind() == reflect.Float32:
			r.SetFloat(fval(c.c, c.w))
		case r.CanInt():
			r.SetInt(sext(c.c, c.w))
		default:
			r.SetUint(c.c)
		}
		return r, true
	case reflect.Slice:
		s, ok := v.(*SliceV)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, 0, s.len)
		cs := w.sliceCells(s)
		for i := range cs {
			w.force(&cs[i])
			e, ok := w.toGo(cs[i].v, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r = reflect.Append(r, e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (w *Worker) fromGo(v reflect.Value) Value {
	t := v.Type()
	switch t.Kind() {
	case reflect.String:
		return conc(v.String())
	case reflect.Bool:
		return w.p.Bool(v.Bool())
	case reflect.Int, reflect.Int64:
		return w.p.BV(uint64(v.Int()), 64)
	case reflect.Int32:
		return w.p.BV(uint64(v.Int()), 32)
	case reflect.Int16:
		return w.p.BV(uint64(v.Int()), 16)
	case reflect.Int8:
		return w.p.BV(uint64(v.Int()), 8)
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return w.p.BV(v.Uint(), 64)
	case reflect.Uint32:
		return w.p.BV(v.Uint(), 32)
	case reflect.Uint16:
		return w.p.BV(v.Uint(), 16)
	case reflect.Uint8:
		return w.p.BV(v.Uint(), 8)
	case reflect.Float64:
		return w.p.BV(fbits(v.Float(), 64), 64)
	case reflect.Float32:
		return w.p.BV(fbits(v.Float(), 32), 32)
	case reflect.Slice:
		if v.IsNil() {
			return (*SliceV)(nil)
		}
		vals := make([]Value, v.Len())
		for i := range vals {
			vals[i] = w.fromGo(v.Index(i))
		}
		return w.newSlice(vals)
	case reflect.Interface:
		if v.IsNil() {
			return IfaceV{}
		}
		if e, ok := v.Interface().(error); ok {
			return w.mkError(e.Error())
		}
	}
	panic(unsupported{"result of native call: " + t.String()})
}

func (w *Worker) mkError(msg string) Value {
	return w.call(w.eng.errorsNew, []Value{conc(msg)}, nil)
}

func (w *Worker) results(out []reflect.Value) Value {
	switch len(out) {
	case 0:
		return nil
	case 1:
		return w.fromGo(out[0])
	}
	t := make(Tuple, len(out))
	for i := range out {
		t[i] = w.fromGo(out[i])
	}
	return t
}

func (w *Worker) native(rf reflect.Value, fn *ssa.Function, args []Value) Value {
	ft := rf.Type()
	if ft.NumIn() != len(args) {
		return fallThrough
	}
	in := make([]reflect.Value, len(args))
	choice := -1
	for i, a := range args {
		v, ok := w.toGo(a, ft.In(i))
		if ok {
			in[i] = v
			continue
		}
		s, isS := a.(*Str)
		if !isS {
			return w.orBody(fn, args, "symbolic argument")
		}
		switch s.k {
		case SChoice:
			if choice >= 0 && args[choice].(*Str).sel != s.sel {
				return w.native(rf, fn, w.concArgs(args))
			}
			if choice < 0 {
				choice = i
			}
		case SInt, SFloat:
			args = append([]Value(nil), args...)
			args[i] = conc(w.narrowStr(s))
			return w.native(rf, fn, args)
		case SOpaque:
			panic(unsupported{"inspection of an opaque text by " + fn.String()})
		default:
			return w.orBody(fn, args, "symbolic text")
		}
	}
	call := func(in []reflect.Value) (out []reflect.Value, pan interface{}) {
		defer func() { pan = recover() }()
		if ft.IsVariadic() {
			return rf.CallSlice(in), nil
		}
		return rf.Call(in), nil
	}
	if choice < 0 {
		out, p := call(in)
		if p != nil {
			w.rtPanic(fmt.Sprint(p))
		}
		return w.results(out)
	}
	// map over the alternatives
	s := args[choice].(*Str)
	var rs [][]reflect.Value
	for k := range s.opts {
		for i, a := range args {
			if x, ok := a.(*Str); ok && x.k == SChoice {
				in[i] = reflect.ValueOf(x.opts[k]).Convert(ft.In(i))
			}
		}
		out, p := call(in)
		if p != nil {
			return w.native(rf, fn, w.concArgs(args))
		}
		rs = append(rs, out)
	}
	res := make(Tuple, ft.NumOut())
	for j := range res {
		v := w.joinChoice(s, rs, j)
		if v == nil {
			return w.native(rf, fn, w.concArgs(args))
		}
		res[j] = v
	}
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return res
}

func (w *Worker) joinChoice(s *Str, rs [][]reflect.Value, j int) Value {
	switch rs[0][j].Kind() {
	case reflect.String:
		r := &Str{k: SChoice, sel: s.sel}
		same := true
		for _, o := range rs {
			r.opts = append(r.opts, o[j].String())
			if o[j].String() != rs[0][j].String() {
				same = false
			}
		}
		if same {
			return conc(r.opts[0])
		}
		return r
	case reflect.Bool, reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint64, reflect.Float64:
		r := w.fromGo(rs[len(rs)-1][j]).(*Term)
		for i := len(rs) - 2; i >= 0; i-- {
			r = w.p.Ite(w.p.Eq(s.sel, w.p.BV(uint64(i), s.sel.w)), w.fromGo(rs[i][j]).(*Term), r)
		}
		return r
	}
	return nil
}

func (w *Worker) concArgs(args []Value) []Value {
	out := append([]Value(nil), args...)
	for i, a := range out {
		if s, ok := a.(*Str); ok && s.k == SChoice {
			out[i] = conc(w.concretizeStr(s))
		}
	}
	return out
}

func (w *Worker) orBody(fn *ssa.Function, args []Value, why string) Value {
	if fn.Blocks != nil {
		return fallThrough
	}
	panic(unsupported{why + " in " + fn.String()})
}

var nativeFns = map[string]interface{}{
	"strings.ToTitle": strings.ToTitle, "strings.Title": strings.Title, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Fields": strings.Fields, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold,
	"strings.IndexAny": strings.IndexAny, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.IndexRune": strings.IndexRune, "strings.Compare": strings.Compare,
	"strings.LastIndexByte": strings.LastIndexByte,
	"strconv.ParseBool":     strconv.ParseBool, "strconv.Quote": strconv.Quote, "strconv.Unquote": strconv.Unquote, "strconv.FormatBool": nil,
	"strconv.ParseUint": strconv.ParseUint, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseFloat": strconv.ParseFloat, "strconv.Atoi": strconv.Atoi,
	"gopkg.in/yaml.v3.shortTag": yshort, "gopkg.in/yaml.v3.longTag": ylong,
	"(time.Duration).String": nil,
}

func init() {
	for k, v := range nativeFns {
		if v == nil {
			delete(nativeFns, k)
		}
	}
	for _, n := range []string{"ParseInt", "ParseUint", "ParseFloat", "Atoi"} {
		f := nativeFns["strconv."+n]
		delete(nativeFns, "strconv."+n)
		rf := reflect.ValueOf(f)
		n := n
		intrinsics["strconv."+n] = func(w *Worker, fn *ssa.Function, args []Value) Value { return w.parseNum(n, rf, fn, args) }
	}
}

func yshort(t string) string {
	const p = "tag:yaml.org,2002:"
	if strings.HasPrefix(t, p) {
		return "!!" + t[len(p):]
	}
	return t
}
func ylong(t string) string {
	if strings.HasPrefix(t, "!!") {
		return "tag:yaml.org,2002:" + t[2:]
	}
	return t
}

func (w *Worker) parseNum(n string, rf reflect.Value, fn *ssa.Function, args []Value) Value {
	s := args[0].(*Str)
	nilErr := IfaceV{}
	base, bits := uint64(10), uint64(64)
	switch n {
	case "ParseInt", "ParseUint":
		b, ok := args[1].(*Term)
		b2, ok2 := args[2].(*Term)
		if !ok || !ok2 || !b.isConst() || !b2.isConst() {
			panic(unsupported{"number parsing with a symbolic base"})
		}
		base, bits = b.c, b2.c
		if bits == 0 {
			bits = 64
		}
	case "ParseFloat":
		b2 := args[1].(*Term)
		bits = b2.c
	}
	bad := func() Value { return w.mkError("strconv." + n + ": value out of range") }
	switch s.k {
	case SChoice:
		args = append([]Value{conc(w.concretizeStr(s))}, args[1:]...)
		s = args[0].(*Str)
	case SInt:
		if n == "ParseFloat" {
			if bits == 32 {
				break
			}
			if s.uns {
				return Tuple{w.p.Un(OUToF, 64, s.num), nilErr}
			}
			return Tuple{w.p.Un(OSToF, 64, s.num), nilErr}
		}
		if base != 10 && base != 0 {
			break
		}
		if n == "ParseUint" {
			if !s.uns && w.branch(w.p.Bin(OSlt, s.num, w.p.BV(0, 64))) {
				return Tuple{w.p.BV(0, 64), w.mkError("strconv.ParseUint: invalid syntax")}
			}
			if bits < 64 && w.branch(w.p.Bin(OUlt, w.p.BV(mask(int(bits)), 64), s.num)) {
				return Tuple{w.p.BV(mask(int(bits)), 64), bad()}
			}
			return Tuple{s.num, nilErr}
		}
		if s.uns && w.branch(w.p.Bin(OSlt, s.num, w.p.BV(0, 64))) {
			return Tuple{w.p.BV(mask(63), 64), bad()}
		}
		if bits < 64 {
			hi := w.p.BV(mask(int(bits-1)), 64)
			lo := w.p.BV(^mask(int(bits-1)), 64)
			if w.branch(w.p.Or(w.p.Bin(OSlt, hi, s.num), w.p.Bin(OSlt, s.num, lo))) {
				return Tuple{w.p.Ite(w.p.Bin(OSlt, s.num, w.p.BV(0, 64)), lo, hi), bad()}
			}
		}
		if n == "Atoi" {
			return Tuple{s.num, nilErr}
		}
		return Tuple{s.num, nilErr}
	case SFloat:
		if n == "ParseFloat" {
			if bits == 32 {
				return Tuple{w.p.Un(OFToF, 64, w.p.Un(OFToF, 32, s.num)), nilErr}
			}
			return Tuple{s.num, nilErr}
		}
	case SSym:
		if _, ok := w.strConc(s); !ok {
			if w.branch(w.p.Eq(w.strLen(s), w.p.BV(0, 64))) || !w.branch(w.numStart(w.strIndex(s, w.p.BV(0, 64)), n == "ParseFloat")) {
				return Tuple{w.p.BV(0, 64), w.mkError("strconv." + n + ": invalid syntax")}
			}
			if n != "ParseFloat" {
				return fallThrough // Go's own parser, executed symbolically
			}
			args = append([]Value{conc(w.concretizeStr(s))}, args[1:]...)
		}
		return w.native(rf, fn, args)
	}
	return w.native(rf, fn, args)
}

// numStart: a number's text can begin with the byte.
func (w *Worker) numStart(b *Term, float bool) *Term {
	r := w.p.And(w.p.Bin(OUle, w.p.BV('0', 8), b), w.p.Bin(OUle, b, w.p.BV('9', 8)))
	set := "+-"
	if float {
		set += ".iInN"
	}
	for _, c := range []byte(set) {
		r = w.p.Or(r, w.p.Eq(b, w.p.BV(uint64(c), 8)))
	}
	return r
}

func regexpIntrinsic(fn *ssa.Function, name string) intrinsic {
	switch name {
	case "regexp.MustCompile", "regexp.Compile":
		return func(w *Worker, fn *ssa.Function, args []Value) Value {
			s, ok := w.strConc(args[0])
			if !ok {
				panic(unsupported{"symbolic regular expression"})
			}
			re, err := regexp.Compile(s)
			if fn.Name() == "MustCompile" {
				if err != nil {
					w.rtPanic("regexp: " + err.Error())
				}
				return &Cell{v: NativeObj{re}}
			}
			if err != nil {
				return Tuple{(*Cell)(nil), w.mkError(err.Error())}
			}
			return Tuple{&Cell{v: NativeObj{re}}, IfaceV{}}
		}
	}
	return func(w *Worker, fn *ssa.Function, args []Value) Value {
		if len(args) > 0 && fn.Signature.Recv() != nil {
			c, ok := args[0].(*Cell)
			if ok && c != nil {
				if o, ok := c.v.(NativeObj); ok {
					m := reflect.ValueOf(o.v).MethodByName(fn.Name())
					rest := append([]Value(nil), args[1:]...)
					for i, a := range rest {
						if s, ok := a.(*Str); ok && s.k == SSym {
							if _, isC := w.strConc(s); !isC {
								rest[i] = conc(w.concretizeStr(s))
							}
						}
					}
					r := w.native(m, fn, rest)
					if r != fallThrough {
						return r
					}
				}
			}
		}
		panic(unsupported{"call of " + fn.String()})
	}
}

// ---------- inputs ----------

func hashOf(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (w *Worker) setDefault(name string, v uint64) {
	if _, ok := w.model[name]; !ok {
		w.model[name] = v
	}
}

func argStr(w *Worker, v Value) string {
	s, ok := w.strConc(v)
	if !ok {
		panic(unsupported{"symbolic name"})
	}
	return s
}

func (w *Worker) intInput(name string, wd int, def uint64, wide bool) *Term {
	if v, ok := w.names[name]; ok {
		return v.(*Term)
	}
	t := w.p.Var(name, wd)
	w.setDefault(name, def&maskB(wd))
	w.names[name] = t
	w.inputs = append(w.inputs, InputVar{Name: name, Kind: "int", t: t})
	return t
}

// strInput is a text of at most max characters: printable ASCII or, if wide,
// also line breaks (unless it begins with a space) and the letters U+00C0 to U+00FF.
func (w *Worker) strInput(name string, max int, wide bool) *Str {
	if v, ok := w.names[name]; ok {
		return v.(*Str)
	}
	r := &Str{k: SSym}
	n8 := w.p.Var(name+".n", 8)
	h := hashOf(name)
	d := uint64(max)
	if d > 3 {
		d = 3
	}
	w.setDefault(name+".n", d)
	w.addPC(w.p.Bin(OUle, n8, w.p.BV(uint64(max), 8)))
	r.n = w.p.Resize(n8, 64, false)
	for i := 0; i < max; i++ {
		bn := fmt.Sprintf("%s.%d", name, i)
		b := w.p.Var(bn, 8)
		w.setDefault(bn, 'a'+(h>>uint(i*5%59))%26)
		if !wide {
			w.addPC(w.p.And(w.p.Bin(OUle, w.p.BV(0x20, 8), b), w.p.Bin(OUle, b, w.p.BV(0x7e, 8))))
		}
		r.b = append(r.b, b)
	}
	if wide {
		w.wide = true
		in := func(b *Term, lo, hi uint64) *Term {
			return w.p.And(w.p.Bin(OUle, w.p.BV(lo, 8), b), w.p.Bin(OUle, b, w.p.BV(hi, 8)))
		}
		lead := func(b *Term) *Term { return w.p.Eq(b, w.p.BV(0xc3, 8)) }
		for i, b := range r.b {
			c := w.p.Or(in(b, 0x20, 0x7e), w.p.Eq(b, w.p.BV(10, 8)))
			if i > 0 {
				c = w.p.Or(c, w.p.And(lead(r.b[i-1]), in(b, 0x80, 0xbf)))
				w.addPC(w.p.Not(w.p.And(lead(r.b[i-1]), w.p.Not(in(b, 0x80, 0xbf)))))
			}
			if i+1 < max {
				c = w.p.Or(c, w.p.And(lead(b), w.p.Bin(OUlt, w.p.BV(uint64(i+1), 8), n8)))
			}
			w.addPC(c)
			// the YAML emitter mangles several lines that begin with a space or a line break
			nl := w.p.Eq(b, w.p.BV(10, 8))
			if i == 0 {
				w.addPC(w.p.Not(nl))
			} else {
				w.addPC(w.p.Not(w.p.And(nl, w.p.Eq(r.b[0], w.p.BV(' ', 8)))))
			}
		}
	}
	if max == 0 {
		r = conc("")
	}
	w.names[name] = r
	if r.k == SSym {
		w.inputs = append(w.inputs, InputVar{Name: name, Kind: "str", s: r})
	}
	return r
}

// listedFloats are decimals beyond the dyadic fractions of the pool: no exact
// binary form, very large, very small (at most ten digits, see DESIGN.md).
var listedFloats = []float64{0.1, -0.3, 3.14159, 1e-6, -2.5e-7, 123456.789, 99999999.5, 1e22, 6.02e23, -1e100}

func (w *Worker) floatInput(name string) *Term {
	if v, ok := w.names[name]; ok {
		return v.(*Term)
	}
	t := w.p.Var(name, 64)
	h := hashOf(name)
	w.setDefault(name, (1023+h%6)<<52|(h>>20%256)<<44)
	low := w.p.Eq(w.p.Bin(OBAnd, t, w.p.BV(1<<44-1, 64)), w.p.BV(0, 64))
	e := w.p.Bin(OBAnd, w.p.Bin(OLshr, t, w.p.BV(52, 64)), w.p.BV(0x7ff, 64))
	in := w.p.And(w.p.Bin(OUle, w.p.BV(1021, 64), e), w.p.Bin(OUle, e, w.p.BV(1047, 64)))
	any := w.p.Or(w.p.And(low, in), w.p.Eq(t, w.p.BV(0, 64)))
	for _, f := range listedFloats {
		any = w.p.Or(any, w.p.Eq(t, w.p.BV(fbits(f, 64), 64)))
	}
	w.addPC(any)
	w.names[name] = t
	w.inputs = append(w.inputs, InputVar{Name: name, Kind: "int", t: t})
	return t
}

func cInt(w *Worker, v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		return int(int64(w.concretize(t)))
	}
	return int(sext(t.c, t.w))
}

func (w *Worker) cellsOf(v Value) []Value {
	s, _ := v.(*SliceV)
	cs := w.sliceCells(s)
	out := make([]Value, len(cs))
	for i := range cs {
		w.force(&cs[i])
		out[i] = cs[i].v
	}
	return out
}

var symIntr = map[string]intrinsic{
	"Int64": func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := argStr(w, a[0])
		return w.intInput(n, 64, hashOf(n)%1000, true)
	},
	"Uint64": func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := argStr(w, a[0])
		return w.intInput(n, 64, hashOf(n)%1000, true)
	},
	"Bool": func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := argStr(w, a[0])
		return w.intInput(n, 0, hashOf(n)>>7, false)
	},
	"Float": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.floatInput(argStr(w, a[0])) },
	"String": func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.strInput(argStr(w, a[0]), cInt(w, a[1]), false)
	},
	"Text": func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.strInput(argStr(w, a[0]), cInt(w, a[1]), true)
	},
	"Range": func(w *Worker, fn *ssa.Function, a []Value) Value {
		name, n := argStr(w, a[0]), cInt(w, a[1])
		if n <= 1 {
			return w.p.BV(0, 64)
		}
		if v, ok := w.names[name]; ok {
			return w.p.Resize(v.(*Term), 64, false)
		}
		t := w.intInput(name, 8, hashOf(name)%uint64(n), false)
		w.addPC(w.p.Bin(OUlt, t, w.p.BV(uint64(n), 8)))
		return w.p.Resize(t, 64, false)
	},
	"Choice": func(w *Worker, fn *ssa.Function, a []Value) Value {
		name, n := argStr(w, a[0]), cInt(w, a[1])
		if v, ok := w.names[name]; ok {
			return v
		}
		t := w.p.BV(uint64(w.choose(n)), 64)
		w.names[name] = t
		w.inputs = append(w.inputs, InputVar{Name: name, Kind: "int", t: t})
		return t
	},
	"Pick": func(w *Worker, fn *ssa.Function, a []Value) Value {
		i := a[0].(*Term)
		os := w.cellsOf(a[1])
		if i.isConst() {
			return os[i.c]
		}
		r := &Str{k: SChoice, sel: i}
		if i.op == OZext {
			r.sel = i.args[0]
		}
		for _, o := range os {
			r.opts = append(r.opts, argStr(w, o))
		}
		return r
	},
	"PickInt": func(w *Worker, fn *ssa.Function, a []Value) Value {
		i := a[0].(*Term)
		os := w.cellsOf(a[1])
		r := os[len(os)-1].(*Term)
		for k := len(os) - 2; k >= 0; k-- {
			r = w.p.Ite(w.p.Eq(i, w.p.BV(uint64(k), 64)), os[k].(*Term), r)
		}
		return r
	},
	"IntText": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.numStr(SInt, false, a[0].(*Term)) },
	"UintText": func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.numStr(SInt, true, a[0].(*Term))
	},
	"FloatText": func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.numStr(SFloat, false, a[0].(*Term))
	},
	"Tier":     func(w *Worker, fn *ssa.Function, a []Value) Value { return w.p.BV(uint64(w.eng.tier), 64) },
	"Symbolic": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.p.T },
	"Assume": func(w *Worker, fn *ssa.Function, a []Value) Value {
		w.assume(a[0].(*Term))
		return nil
	},
	"Assert": func(w *Worker, fn *ssa.Function, a []Value) Value {
		w.assertTerm(a[0].(*Term), argStr(w, a[1]), "")
		return nil
	},
	"AssertKnown": func(w *Worker, fn *ssa.Function, a []Value) Value {
		w.assertTerm(a[1].(*Term), argStr(w, a[2]), argStr(w, a[0]))
		return nil
	},
	"Reached": func(w *Worker, fn *ssa.Function, a []Value) Value {
		l := argStr(w, a[0])
		w.eng.mu.Lock()
		w.h.stat.Reached[l]++
		w.eng.mu.Unlock()
		return nil
	},
	"LazyNode": func(w *Worker, fn *ssa.Function, a []Value) Value {
		return &Cell{lazy: &Hook{fn: a[0]}}
	},
	"Untouched": func(w *Worker, fn *ssa.Function, a []Value) Value {
		c, _ := a[0].(*Cell)
		return w.p.Bool(c != nil && c.lazy != nil && !c.lazy.done)
	},
	"Unsupported": func(w *Worker, fn *ssa.Function, a []Value) Value {
		panic(unsupported{argStr(w, a[0])})
	},
	"Stash": func(w *Worker, fn *ssa.Function, a []Value) Value {
		w.stash = append(w.stash, a[0])
		return w.p.BV(uint64(len(w.stash)-1), 64)
	},
	"Unstash": func(w *Worker, fn *ssa.Function, a []Value) Value {
		i := cInt(w, a[0])
		if i < 0 || i >= len(w.stash) {
			return IfaceV{}
		}
		return w.stash[i]
	},
	"NilPtr": func(w *Worker, fn *ssa.Function, a []Value) Value {
		i := a[0].(IfaceV)
		return w.p.Bool(i.t == nil || isNilV(i.v))
	},
	"Parts": parts,
}

func (w *Worker) numStr(k StrKind, uns bool, t *Term) Value {
	s := &Str{k: k, uns: uns, num: t}
	if t.isConst() {
		return conc(numText(s, t.c))
	}
	return s
}

func (w *Worker) iface(t types.Type, v Value) Value {
	if types.IsInterface(t) {
		return v
	}
	return IfaceV{t: t, v: v}
}

func parts(w *Worker, fn *ssa.Function, a []Value) Value {
	i := a[0].(IfaceV)
	ret := func(kind string, keys []Value, vals []Value) Value {
		return Tuple{conc(kind), w.newSlice(keys), w.newSlice(vals)}
	}
	if i.t == nil || isNilV(i.v) {
		if _, ok := i.v.(*SliceV); !ok {
			return ret("nil", nil, nil)
		}
		return ret("nil", nil, nil)
	}
	var keys, vals []Value
	switch t := i.t.Underlying().(type) {
	case *types.Pointer:
		return ret("ptr", nil, []Value{w.iface(t.Elem(), w.load(i.v.(*Cell)))})
	case *types.Slice:
		for _, v := range w.cellsOf(i.v) {
			vals = append(vals, w.iface(t.Elem(), w.copyVal(v)))
		}
		return ret("slice", nil, vals)
	case *types.Map:
		for _, e := range i.v.(*MapV).es {
			if e.dead {
				continue
			}
			k, ok := e.k.(*Str)
			if !ok {
				panic(unsupported{"JSON of a map with other than string keys"})
			}
			keys = append(keys, k)
			vals = append(vals, w.iface(t.Elem(), w.copyVal(e.v)))
		}
		return ret("map", keys, vals)
	case *types.Struct:
		s := i.v.(*StructV)
		for f := 0; f < t.NumFields(); f++ {
			if !t.Field(f).Exported() {
				continue
			}
			name := t.Field(f).Name()
			tag := reflect.StructTag(t.Tag(f)).Get("json")
			if tag == "-" {
				continue
			}
			opts := strings.Split(tag, ",")
			if opts[0] != "" {
				name = opts[0]
			}
			w.force(&s.f[f])
			v := w.copyVal(s.f[f].v)
			omit := false
			for _, o := range opts[1:] {
				switch o {
				case "omitempty":
					omit = true
				case "string":
					panic(unsupported{"json string option"})
				}
			}
			if omit && w.emptyJSON(v) {
				continue
			}
			keys = append(keys, conc(name))
			vals = append(vals, w.iface(t.Field(f).Type(), v))
		}
		return ret("struct", keys, vals)
	case *types.Basic:
		return ret("basic "+t.Name(), nil, nil)
	}
	panic(unsupported{"parts of " + i.t.String()})
}

func (w *Worker) emptyJSON(v Value) bool {
	switch v := v.(type) {
	case *Str:
		return w.branch(w.p.Eq(w.strLen(v), w.p.BV(0, 64)))
	case *Term:
		if v.w == 0 {
			return !w.branch(v)
		}
		return w.branch(w.p.Eq(v, w.p.BV(0, v.w)))
	case *SliceV:
		return v == nil || v.len == 0
	case *MapV:
		return v == nil || v.n == 0
	}
	return isNilV(v)
}

// ---------- the rest ----------

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func noop(w *Worker, fn *ssa.Function, a []Value) Value { return w.zeroResults(fn) }

func str1(f func(w *Worker, s *Str, p string) *Term) intrinsic {
	return func(w *Worker, fn *ssa.Function, a []Value) Value {
		p, ok := w.strConc(a[1])
		if !ok {
			if _, ok := w.strConc(a[0]); ok || fn.Blocks == nil {
				return w.orBody(fn, a, "symbolic pattern")
			}
			return w.orBody(fn, a, "symbolic pattern")
		}
		s := a[0].(*Str)
		if s.k == SInt || s.k == SFloat {
			s = conc(w.narrowStr(s))
		}
		return f(w, s, p)
	}
}

func init() {
	for k, f := range symIntr {
		reg(modPath+"/sym."+k, f)
	}
	reg("strings.HasPrefix", str1(func(w *Worker, s *Str, p string) *Term { return w.hasPrefix(s, p) }))
	reg("strings.HasSuffix", str1(func(w *Worker, s *Str, p string) *Term { return w.hasSuffix(s, p) }))
	reg("internal/stringslite.Clone", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strings.Clone", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.HasPrefix", intrinsics["strings.HasPrefix"])
	reg("internal/stringslite.HasSuffix", intrinsics["strings.HasSuffix"])
	idx := str1(func(w *Worker, s *Str, p string) *Term { return w.indexOf(s, p, false) })
	reg("strings.Index", idx)
	reg("internal/stringslite.Index", idx)
	reg("strings.LastIndex", str1(func(w *Worker, s *Str, p string) *Term { return w.indexOf(s, p, true) }))
	reg("strings.Contains", str1(func(w *Worker, s *Str, p string) *Term {
		return w.p.Not(w.p.Eq(w.indexOf(s, p, false), w.p.BV(^uint64(0), 64)))
	}))
	ib := func(w *Worker, fn *ssa.Function, a []Value) Value {
		c, ok := a[1].(*Term)
		if !ok || !c.isConst() {
			return w.orBody(fn, a, "symbolic byte")
		}
		s := a[0].(*Str)
		if s.k == SInt || s.k == SFloat {
			s = conc(w.narrowStr(s))
		}
		return w.indexOf(s, string([]byte{byte(c.c)}), false)
	}
	reg("strings.IndexByte", ib)
	reg("internal/stringslite.IndexByte", ib)
	reg("internal/bytealg.IndexByteString", ib)
	reg("strings.ContainsRune", func(w *Worker, fn *ssa.Function, a []Value) Value {
		c := a[1].(*Term)
		s := a[0].(*Str)
		if !c.isConst() || c.c >= 0x80 || s.k == SOpaque {
			return w.orBody(fn, a, "symbolic rune")
		}
		if s.k == SInt || s.k == SFloat {
			s = conc(w.narrowStr(s))
		}
		return w.p.Not(w.p.Eq(w.indexOf(s, string(rune(c.c)), false), w.p.BV(^uint64(0), 64)))
	})
	delete(nativeFns, "strings.ContainsRune")
	reg("strings.ToLower", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.caseMap(a[0].(*Str), false) })
	reg("strings.ToUpper", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.caseMap(a[0].(*Str), true) })
	reg("strings.EqualFold", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.strEq(w.caseMap(a[0].(*Str), false), w.caseMap(a[1].(*Str), false))
	})
	reg("strings.Clone", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	bytesTerms := func(w *Worker, v Value) []*Term {
		var ts []*Term
		for _, x := range w.cellsOf(v) {
			ts = append(ts, x.(*Term))
		}
		return ts
	}
	firstOf := func(w *Worker, ts []*Term, c *Term, last bool) *Term {
		r := w.p.BV(^uint64(0), 64)
		if last {
			for i := 0; i < len(ts); i++ {
				r = w.p.Ite(w.p.Eq(ts[i], c), w.p.BV(uint64(i), 64), r)
			}
			return r
		}
		for i := len(ts) - 1; i >= 0; i-- {
			r = w.p.Ite(w.p.Eq(ts[i], c), w.p.BV(uint64(i), 64), r)
		}
		return r
	}
	reg("internal/bytealg.IndexByte", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return firstOf(w, bytesTerms(w, a[0]), a[1].(*Term), false)
	})
	reg("bytes.IndexByte", intrinsics["internal/bytealg.IndexByte"])
	reg("internal/bytealg.LastIndexByte", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return firstOf(w, bytesTerms(w, a[0]), a[1].(*Term), true)
	})
	count := func(w *Worker, ts []*Term, c *Term) *Term {
		r := w.p.BV(0, 64)
		for _, t := range ts {
			r = w.p.Bin(OAdd, r, w.p.Ite(w.p.Eq(t, c), w.p.BV(1, 64), w.p.BV(0, 64)))
		}
		return r
	}
	reg("internal/bytealg.Count", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return count(w, bytesTerms(w, a[0]), a[1].(*Term))
	})
	reg("internal/bytealg.CountString", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return count(w, w.bytesOfStr(a[0].(*Str)), a[1].(*Term))
	})
	eqb := func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.strEq(w.strOfBytes(bytesTerms(w, a[0])), w.strOfBytes(bytesTerms(w, a[1])))
	}
	reg("bytes.Equal", eqb)
	reg("internal/bytealg.Equal", eqb)
	cmp := func(w *Worker, x, y *Str) Value {
		return w.p.Ite(w.strLess(x, y), w.p.BV(^uint64(0), 64), w.p.Ite(w.strLess(y, x), w.p.BV(1, 64), w.p.BV(0, 64)))
	}
	reg("internal/bytealg.Compare", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return cmp(w, w.strOfBytes(bytesTerms(w, a[0])), w.strOfBytes(bytesTerms(w, a[1])))
	})
	reg("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	reg("internal/bytealg.CompareString", func(w *Worker, fn *ssa.Function, a []Value) Value { return cmp(w, a[0].(*Str), a[1].(*Str)) })
	reg("internal/bytealg.Index", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return idx(w, fn, []Value{w.strOfBytes(bytesTerms(w, a[0])), w.strOfBytes(bytesTerms(w, a[1]))})
	})
	reg("bytes.Index", intrinsics["internal/bytealg.Index"])
	reg("internal/bytealg.IndexString", idx)
	reg("internal/bytealg.MakeNoZero", func(w *Worker, fn *ssa.Function, a []Value) Value {
		n := cInt(w, a[0])
		return w.makeSlice(types.Typ[types.Uint8], n, n)
	})

	// strings.Builder
	type bld = *Cell
	add := func(w *Worker, c Value, s *Str) {
		k := c.(bld)
		if k == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		cur := w.builders[k]
		if cur == nil {
			cur = conc("")
		}
		w.builders[k] = w.strConcat(cur, s)
	}
	nilErr := IfaceV{}
	reg("(*strings.Builder).WriteString", func(w *Worker, fn *ssa.Function, a []Value) Value {
		s := a[1].(*Str)
		add(w, a[0], s)
		if s.k == SOpaque || s.k == SInt || s.k == SFloat {
			return Tuple{w.p.BV(0, 64), nilErr}
		}
		return Tuple{w.strLen(s), nilErr}
	})
	reg("(*strings.Builder).Write", func(w *Worker, fn *ssa.Function, a []Value) Value {
		ts := bytesTerms(w, a[1])
		add(w, a[0], w.strOfBytes(ts))
		return Tuple{w.p.BV(uint64(len(ts)), 64), nilErr}
	})
	reg("(*strings.Builder).WriteByte", func(w *Worker, fn *ssa.Function, a []Value) Value {
		add(w, a[0], w.strOfBytes([]*Term{a[1].(*Term)}))
		return nilErr
	})
	reg("(*strings.Builder).WriteRune", func(w *Worker, fn *ssa.Function, a []Value) Value {
		s := w.convert(types.Typ[types.Int32], types.Typ[types.String], a[1]).(*Str)
		add(w, a[0], s)
		return Tuple{w.strLen(s), nilErr}
	})
	reg("(*strings.Builder).String", func(w *Worker, fn *ssa.Function, a []Value) Value {
		if s := w.builders[a[0].(bld)]; s != nil {
			return s
		}
		return conc("")
	})
	reg("(*strings.Builder).Len", func(w *Worker, fn *ssa.Function, a []Value) Value {
		if s := w.builders[a[0].(bld)]; s != nil {
			return w.strLen(s)
		}
		return w.p.BV(0, 64)
	})
	reg("(*strings.Builder).Reset", func(w *Worker, fn *ssa.Function, a []Value) Value {
		delete(w.builders, a[0].(bld))
		return nil
	})
	reg("(*strings.Builder).Grow", func(w *Worker, fn *ssa.Function, a []Value) Value {
		add(w, a[0], conc(""))
		return nil
	})
	reg("(*strings.Builder).Cap", func(w *Worker, fn *ssa.Function, a []Value) Value {
		if s := w.builders[a[0].(bld)]; s != nil {
			return w.p.Bin(OAdd, w.strLen(s), w.p.BV(64, 64))
		}
		return w.p.BV(0, 64)
	})

	// strconv formatting
	reg("strconv.FormatInt", func(w *Worker, fn *ssa.Function, a []Value) Value {
		t, b := a[0].(*Term), a[1].(*Term)
		if b.isConst() && b.c == 10 {
			return w.numStr(SInt, false, t)
		}
		if !t.isConst() {
			t = w.narrowTerm(t)
		}
		return conc(strconv.FormatInt(int64(t.c), cInt(w, b)))
	})
	reg("strconv.FormatUint", func(w *Worker, fn *ssa.Function, a []Value) Value {
		t, b := a[0].(*Term), a[1].(*Term)
		if b.isConst() && b.c == 10 {
			return w.numStr(SInt, true, t)
		}
		if !t.isConst() {
			t = w.narrowTerm(t)
		}
		return conc(strconv.FormatUint(t.c, cInt(w, b)))
	})
	reg("strconv.Itoa", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.numStr(SInt, false, a[0].(*Term)) })
	reg("strconv.FormatBool", func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return conc(strconv.FormatBool(t.c != 0))
		}
		return &Str{k: SChoice, sel: w.p.Ite(t, w.p.BV(1, 8), w.p.BV(0, 8)), opts: []string{"false", "true"}}
	})
	reg("strconv.FormatFloat", func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		f, pr, bits := byte(a[1].(*Term).c), cInt(w, a[2]), cInt(w, a[3])
		if t.isConst() {
			return conc(strconv.FormatFloat(fval(t.c, 64), f, pr, bits))
		}
		exact := pr == -1 && bits == 64 || (f == 'g' || f == 'G') && pr >= 10 && bits == 64 || (f == 'e' || f == 'E') && pr >= 9 && bits == 64 || f == 'f' && pr >= 10 && bits == 64
		if exact {
			return &Str{k: SFloat, num: t}
		}
		if bits == 32 && pr == -1 {
			if narrow := w.p.Un(OFToF, 64, w.p.Un(OFToF, 32, t)); w.branch(w.p.Eq(narrow, t)) {
				return &Str{k: SFloat, num: t}
			}
			return w.lossyFloat(t, f, pr, bits)
		}
		// a lossy format: let the solver look for a value that the text loses
		return w.lossyFloat(t, f, pr, bits)
	})

	// fmt
	reg("fmt.Sprintf", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sprintf(a[0], w.cellsOf(a[1])) })
	reg("fmt.Sprint", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sprint(w.cellsOf(a[0]), false) })
	reg("fmt.Sprintln", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sprint(w.cellsOf(a[0]), true) })
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg("fmt."+n, noop)
	}
	fp := func(w *Worker, dst Value, s *Str) Value {
		i := dst.(IfaceV)
		if i.t == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := w.eng.prog.MethodSets.MethodSet(i.t).Lookup(nil, "Write")
		if m == nil {
			panic(unsupported{"Fprint to " + i.t.String()})
		}
		bs := w.bytesOfStr(s)
		vals := make([]Value, len(bs))
		for k := range bs {
			vals[k] = bs[k]
		}
		return w.call(w.eng.prog.MethodValue(m), []Value{i.v, w.newSlice(vals)}, nil)
	}
	reg("fmt.Fprintf", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return fp(w, a[0], w.sprintf(a[1], w.cellsOf(a[2])))
	})
	reg("fmt.Fprint", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return fp(w, a[0], w.sprint(w.cellsOf(a[1]), false))
	})
	reg("fmt.Fprintln", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return fp(w, a[0], w.sprint(w.cellsOf(a[1]), true))
	})

	reg("errors.As", func(w *Worker, fn *ssa.Function, a []Value) Value {
		err, tgt := a[0].(IfaceV), a[1].(IfaceV)
		pt, ok := tgt.t.(*types.Pointer)
		if !ok {
			panic(unsupported{"errors.As into this"})
		}
		it, isI := pt.Elem().Underlying().(*types.Interface)
		for n := 0; n < 20 && err.t != nil; n++ {
			if isI && w.implements(err.t, it) {
				w.store(tgt.v.(*Cell), err)
				return w.p.T
			} else if !isI && types.Identical(err.t, pt.Elem()) {
				w.store(tgt.v.(*Cell), w.copyVal(err.v))
				return w.p.T
			}
			m := w.eng.prog.MethodSets.MethodSet(err.t).Lookup(nil, "Unwrap")
			if m == nil {
				break
			}
			next, ok := w.call(w.eng.prog.MethodValue(m), []Value{err.v}, nil).(IfaceV)
			if !ok {
				panic(unsupported{"errors.As of several errors"})
			}
			err = next
		}
		return w.p.F
	})

	// sync and atomics (single-threaded execution)
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "runtime.KeepAlive",
		"internal/race.Enable", "internal/race.Disable", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge"} {
		reg(n, noop)
	}
	// a pool hands out what was put last
	reg("(*sync.Pool).Put", func(w *Worker, fn *ssa.Function, a []Value) Value {
		if v := a[1].(IfaceV); v.t != nil && !w.initPhase {
			w.pools[a[0].(*Cell)] = append(w.pools[a[0].(*Cell)], v)
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(w *Worker, fn *ssa.Function, a []Value) Value {
		if vs := w.pools[a[0].(*Cell)]; len(vs) > 0 {
			w.pools[a[0].(*Cell)] = vs[:len(vs)-1]
			return vs[len(vs)-1]
		}
		s := a[0].(*Cell).v.(*StructV)
		f := s.f[len(s.f)-1].v
		if isNilV(f) {
			return IfaceV{}
		}
		return w.callValue(f, nil)
	})
	reg("(*sync.Once).doSlow", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return fallThrough
	})
	for _, sz := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+sz, func(w *Worker, fn *ssa.Function, a []Value) Value { return w.load(a[0].(*Cell)) })
		reg("sync/atomic.Store"+sz, func(w *Worker, fn *ssa.Function, a []Value) Value { w.store(a[0].(*Cell), a[1]); return nil })
		reg("sync/atomic.Add"+sz, func(w *Worker, fn *ssa.Function, a []Value) Value {
			v := w.p.Bin(OAdd, w.load(a[0].(*Cell)).(*Term), a[1].(*Term))
			w.store(a[0].(*Cell), v)
			return v
		})
		reg("sync/atomic.Swap"+sz, func(w *Worker, fn *ssa.Function, a []Value) Value {
			o := w.load(a[0].(*Cell))
			w.store(a[0].(*Cell), a[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+sz, func(w *Worker, fn *ssa.Function, a []Value) Value {
			o := w.load(a[0].(*Cell))
			if w.branch(w.eq(o, a[1])) {
				w.store(a[0].(*Cell), a[2])
				return w.p.T
			}
			return w.p.F
		})
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		reg(n, func(w *Worker, fn *ssa.Function, a []Value) Value {
			s, _ := a[0].(IfaceV).v.(*SliceV)
			cs := w.sliceCells(s)
			for i := 1; i < len(cs); i++ {
				for j := i; j > 0; j-- {
					r := w.callValue(a[1], []Value{w.p.BV(uint64(j), 64), w.p.BV(uint64(j-1), 64)}).(*Term)
					if !w.branch(r) {
						break
					}
					x, y := w.load(&cs[j]), w.load(&cs[j-1])
					w.store(&cs[j], y)
					w.store(&cs[j-1], x)
				}
			}
			return nil
		})
	}
	reg("internal/abi.NoEscape", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	for name, f := range map[string]func(float64) bool{} {
		_, _ = name, f
	}
	reg("math.Float64bits", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("math.Float64frombits", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("math.Float32bits", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("math.Float32frombits", func(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("math.Abs", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.p.Bin(OBAnd, a[0].(*Term), w.p.BV(1<<63-1, 64))
	})
	for _, n := range []string{"Floor", "Ceil", "Trunc", "Round"} {
		n := n
		reg("math."+n, func(w *Worker, fn *ssa.Function, a []Value) Value { return w.roundF(n, a[0].(*Term)) })
	}
	reg("gopkg.in/yaml.v3.resolve", func(w *Worker, fn *ssa.Function, a []Value) Value {
		s := a[1].(*Str)
		tag, ok := w.strConc(a[0])
		if !ok {
			return fallThrough
		}
		if tag == "" {
			switch s.k {
			case SInt:
				return Tuple{conc("!!int"), IfaceV{}}
			case SFloat:
				return Tuple{conc("!!float"), IfaceV{}}
			}
		}
		switch s.k {
		case SConc:
			return fallThrough
		case SOpaque:
			panic(unsupported{"resolution of an opaque text"})
		}
		if _, ok := w.strConc(s); ok {
			return fallThrough
		}
		return w.call(fn, []Value{a[0], conc(w.concretizeStr(s))}, nil)
	})
}

func (w *Worker) narrowTerm(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if v, ok := w.spread(t, false); ok {
		return w.p.BV(v, t.w)
	}
	w.narrowed("number fixed to one value")
	v := w.modelValue(t)
	w.assume(w.p.Eq(t, w.p.BV(v, t.w)))
	return w.p.BV(v, t.w)
}

// lossyFloat narrows to a value; the pool's default values make it a fraction.
func (w *Worker) lossyFloat(t *Term, f byte, pr, bits int) Value {
	c := w.narrowTerm(t)
	return conc(strconv.FormatFloat(fval(c.c, 64), f, pr, bits))
}

func (w *Worker) roundF(n string, t *Term) *Term {
	if t.isConst() {
		f := fval(t.c, 64)
		return w.p.BV(fbits(map[string]func(float64) float64{"Floor": mfloor, "Ceil": mceil, "Trunc": mtrunc, "Round": mround}[n](f), 64), 64)
	}
	// values of the input domain are below 2^63 in magnitude
	tr := w.p.Un(OSToF, 64, w.p.Un(OFToS, 64, t))
	one := w.p.BV(fbits(1, 64), 64)
	switch n {
	case "Trunc":
		return tr
	case "Floor":
		return w.p.Ite(w.p.Bin(OFLt, t, tr), w.p.Bin(OFSub, tr, one), tr)
	case "Ceil":
		return w.p.Ite(w.p.Bin(OFLt, tr, t), w.p.Bin(OFAdd, tr, one), tr)
	}
	return w.roundF(n, w.narrowTerm(t))
}
