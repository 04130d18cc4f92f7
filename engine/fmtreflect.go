package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func mfloor(f float64) float64 { return math.Floor(f) }
func mceil(f float64) float64  { return math.Ceil(f) }
func mtrunc(f float64) float64 { return math.Trunc(f) }
func mround(f float64) float64 { return math.Round(f) }

// ---------- fmt ----------

// fmtArg yields the text of an operand under %v: a string piece.
func (w *Worker) fmtArg(v Value) *Str {
	i, ok := v.(IfaceV)
	if !ok || i.t == nil {
		return conc("<nil>")
	}
	if s := w.errText(i); s != nil {
		return s
	}
	switch x := i.v.(type) {
	case *Str:
		return x
	case *Term:
		if isBool(i.t) {
			if x.isConst() {
				return conc(fmt.Sprint(x.c != 0))
			}
			return &Str{k: SChoice, sel: w.p.Ite(x, w.p.BV(1, 8), w.p.BV(0, 8)), opts: []string{"false", "true"}}
		}
		if isFloat(i.t) {
			if x.isConst() {
				return conc(fmt.Sprint(fval(x.c, x.w)))
			}
			return &Str{k: SFloat, num: x}
		}
		sg := isSigned(i.t)
		return w.numStr(SInt, !sg, w.p.Resize(x, 64, sg)).(*Str)
	}
	if g, ok := w.goOperand(i); ok {
		return conc(fmt.Sprint(g))
	}
	return w.opaque()
}

func (w *Worker) errText(i IfaceV) *Str {
	if isNilV(i.v) {
		if _, ok := i.v.(*Cell); ok {
			return conc("<nil>")
		}
	}
	if _, ok := i.v.(RType); ok {
		return conc(i.v.(RType).t.String())
	}
	for _, n := range []string{"Error", "String"} {
		m := w.eng.prog.MethodSets.MethodSet(i.t).Lookup(nil, n)
		if m == nil {
			continue
		}
		sg := m.Type().(*types.Signature)
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
			continue
		}
		if s, ok := w.call(w.eng.prog.MethodValue(m), []Value{i.v}, nil).(*Str); ok {
			return s
		}
	}
	return nil
}

func (w *Worker) goOperand(i IfaceV) (interface{}, bool) {
	if i.t == nil {
		return nil, true
	}
	switch x := i.v.(type) {
	case *Str:
		s, ok := w.strConc(x)
		return s, ok
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		b, ok := i.t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return x.c != 0, true
		case b.Info()&types.IsFloat != 0:
			return fval(x.c, x.w), true
		case b.Info()&types.IsUnsigned != 0:
			return x.c, true
		case b.Kind() == types.Int32:
			return int32(x.c), true
		default:
			return sext(x.c, x.w), true
		}
	case *SliceV:
		st, ok := i.t.Underlying().(*types.Slice)
		if !ok || x == nil {
			return []interface{}{}, ok
		}
		var out []interface{}
		for _, v := range w.cellsOf(x) {
			g, ok := w.goOperand(w.iface(st.Elem(), v).(IfaceV))
			if !ok {
				return nil, false
			}
			out = append(out, g)
		}
		return out, true
	}
	return nil, false
}

func (w *Worker) sprintf(f Value, args []Value) *Str {
	format, ok := w.strConc(f)
	if !ok {
		return w.opaque()
	}
	out := conc("")
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = w.strConcat(out, conc(format[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(format) && (format[j] >= '0' && format[j] <= '9' || format[j] == '.' || format[j] == '+' || format[j] == '-' || format[j] == '#' || format[j] == ' ') {
			j++
		}
		if j >= len(format) {
			break
		}
		verb := format[i : j+1]
		i = j
		if format[j] == '%' {
			out = w.strConcat(out, conc("%"))
			continue
		}
		if ai >= len(args) {
			out = w.strConcat(out, conc("%!"+string(format[j])+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		iv, _ := a.(IfaceV)
		switch verb {
		case "%s", "%v", "%w", "%d", "%t":
			out = w.strConcat(out, w.fmtArg(a))
			continue
		case "%T":
			if iv.t == nil {
				out = w.strConcat(out, conc("<nil>"))
			} else {
				out = w.strConcat(out, conc(types.TypeString(iv.t, func(p *types.Package) string { return p.Name() })))
			}
			continue
		}
		if g, ok := w.goOperand(iv); ok {
			out = w.strConcat(out, conc(fmt.Sprintf(verb, g)))
			continue
		}
		s := w.fmtArg(a)
		if s.k == SConc {
			out = w.strConcat(out, conc(fmt.Sprintf(verb, s.s)))
			continue
		}
		out = w.opaque()
	}
	return out
}

func (w *Worker) sprint(args []Value, ln bool) *Str {
	out := conc("")
	for i, a := range args {
		if i > 0 {
			x, _ := args[i-1].(IfaceV)
			y, _ := a.(IfaceV)
			if ln || !(x.t != nil && isString(x.t)) && !(y.t != nil && isString(y.t)) {
				out = w.strConcat(out, conc(" "))
			}
		}
		out = w.strConcat(out, w.fmtArg(a))
	}
	if ln {
		out = w.strConcat(out, conc("\n"))
	}
	return out
}

// ---------- reflect ----------

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (w *Worker) rtypeIface(t types.Type) Value {
	if t == nil {
		return IfaceV{}
	}
	return IfaceV{t: w.eng.rtypeType, v: RType{t}}
}

func (w *Worker) bv(n int) *Term { return w.p.BV(uint64(n), 64) }

func (w *Worker) rtypeMethod(rt RType, name string, args []Value) Value {
	switch name {
	case "Kind":
		return w.p.BV(uint64(kindOf(rt.t)), 64)
	case "String":
		return conc(types.TypeString(rt.t, func(p *types.Package) string { return p.Name() }))
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return conc(n.Obj().Name())
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return conc(b.Name())
		}
		return conc("")
	case "PkgPath":
		if n, ok := rt.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return conc(n.Obj().Pkg().Path())
		}
		return conc("")
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return w.rtypeIface(u.Elem())
		case *types.Slice:
			return w.rtypeIface(u.Elem())
		case *types.Array:
			return w.rtypeIface(u.Elem())
		case *types.Map:
			return w.rtypeIface(u.Elem())
		}
		w.rtPanic("reflect: Elem of invalid type")
	case "Key":
		if m, ok := rt.t.Underlying().(*types.Map); ok {
			return w.rtypeIface(m.Key())
		}
	case "Comparable":
		return w.p.Bool(types.Comparable(rt.t))
	case "NumField":
		if s, ok := rt.t.Underlying().(*types.Struct); ok {
			return w.bv(s.NumFields())
		}
	case "Implements":
		i := args[0].(IfaceV).v.(RType)
		if it, ok := i.t.Underlying().(*types.Interface); ok {
			return w.p.Bool(types.Implements(rt.t, it))
		}
	case "AssignableTo":
		return w.p.Bool(types.AssignableTo(rt.t, args[0].(IfaceV).v.(RType).t))
	case "ConvertibleTo":
		return w.p.Bool(types.ConvertibleTo(rt.t, args[0].(IfaceV).v.(RType).t))
	}
	panic(unsupported{"reflect.Type." + name})
}

func rv(v Value) RVal {
	if r, ok := v.(RVal); ok {
		return r
	}
	panic(unsupported{fmt.Sprintf("reflect value %T", v)})
}

func (r RVal) val(w *Worker) Value {
	if r.addr != nil {
		return w.load(r.addr)
	}
	return r.v
}

func (w *Worker) reflectErr(m string, k reflect.Kind) {
	w.rtPanic("reflect: call of reflect.Value." + m + " on " + k.String() + " Value")
}

func (w *Worker) rInterface(r RVal) Value {
	if r.t == nil {
		w.reflectErr("Interface", reflect.Invalid)
	}
	return w.iface(r.t, r.val(w))
}

func rmeth(name string, f func(w *Worker, r RVal, a []Value) Value) {
	reg("(reflect.Value)."+name, func(w *Worker, fn *ssa.Function, a []Value) Value { return f(w, rv(a[0]), a[1:]) })
}

func init() {
	reg("reflect.ValueOf", func(w *Worker, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].(IfaceV)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	})
	reg("reflect.TypeOf", func(w *Worker, fn *ssa.Function, a []Value) Value {
		i, _ := a[0].(IfaceV)
		return w.rtypeIface(i.t)
	})
	reg("reflect.Indirect", func(w *Worker, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		if r.t == nil || kindOf(r.t) != reflect.Ptr {
			return r
		}
		return w.rElem(r)
	})
	reg("reflect.Zero", func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := a[0].(IfaceV).v.(RType).t
		return RVal{t: t, v: w.zeroField(t)}
	})
	reg("reflect.New", func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := a[0].(IfaceV).v.(RType).t
		return RVal{t: types.NewPointer(t), v: &Cell{v: w.zeroField(t)}}
	})
	reg("reflect.DeepEqual", func(w *Worker, fn *ssa.Function, a []Value) Value { return w.deepEq(a[0], a[1], 0) })
	reg("reflect.Copy", nil)
	delete(intrinsics, "reflect.Copy")
	rmeth("Kind", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil {
			return w.p.BV(0, 64)
		}
		return w.p.BV(uint64(kindOf(r.t)), 64)
	})
	rmeth("IsValid", func(w *Worker, r RVal, a []Value) Value { return w.p.Bool(r.t != nil) })
	rmeth("Type", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil {
			w.reflectErr("Type", reflect.Invalid)
		}
		return w.rtypeIface(r.t)
	})
	rmeth("IsNil", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil {
			w.reflectErr("IsNil", reflect.Invalid)
		}
		switch kindOf(r.t) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return w.p.Bool(isNilV(r.val(w)))
		}
		w.reflectErr("IsNil", kindOf(r.t))
		return nil
	})
	rmeth("IsZero", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil {
			w.reflectErr("IsZero", reflect.Invalid)
		}
		switch kindOf(r.t) {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan:
			return w.p.Bool(isNilV(r.val(w)))
		}
		return w.eq(r.val(w), w.zeroField(r.t))
	})
	rmeth("Elem", func(w *Worker, r RVal, a []Value) Value { return w.rElem(r) })
	rmeth("Interface", func(w *Worker, r RVal, a []Value) Value { return w.rInterface(r) })
	rmeth("CanInterface", func(w *Worker, r RVal, a []Value) Value { return w.p.Bool(r.t != nil) })
	rmeth("CanAddr", func(w *Worker, r RVal, a []Value) Value { return w.p.Bool(r.addr != nil) })
	rmeth("CanSet", func(w *Worker, r RVal, a []Value) Value { return w.p.Bool(r.addr != nil) })
	rmeth("Addr", func(w *Worker, r RVal, a []Value) Value {
		if r.addr == nil {
			w.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(r.t), v: r.addr}
	})
	rmeth("Set", func(w *Worker, r RVal, a []Value) Value {
		if r.addr == nil {
			w.rtPanic("reflect.Value.Set using unaddressable value")
		}
		x := rv(a[0])
		v := x.val(w)
		if types.IsInterface(r.t) && !types.IsInterface(x.t) {
			v = IfaceV{t: x.t, v: v}
		}
		w.store(r.addr, v)
		return nil
	})
	rmeth("Len", func(w *Worker, r RVal, a []Value) Value {
		switch x := r.val(w).(type) {
		case *SliceV:
			if x == nil {
				return w.bv(0)
			}
			return w.bv(x.len)
		case *MapV:
			if x == nil {
				return w.bv(0)
			}
			return w.bv(x.n)
		case *Str:
			return w.strLen(x)
		case *ArrayV:
			return w.bv(len(x.e))
		}
		w.reflectErr("Len", reflect.Invalid)
		return nil
	})
	rmeth("Index", func(w *Worker, r RVal, a []Value) Value {
		i := cInt(w, a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			cs := w.sliceCells(r.val(w).(*SliceV))
			if i < 0 || i >= len(cs) {
				w.rtPanic("reflect: slice index out of range")
			}
			return RVal{t: u.Elem(), addr: &cs[i]}
		case *types.Array:
			x := r.val(w).(*ArrayV)
			if i < 0 || i >= len(x.e) {
				w.rtPanic("reflect: array index out of range")
			}
			w.force(&x.e[i])
			return RVal{t: u.Elem(), v: w.copyVal(x.e[i].v)}
		}
		w.reflectErr("Index", kindOf(r.t))
		return nil
	})
	rmeth("NumField", func(w *Worker, r RVal, a []Value) Value {
		return w.bv(r.t.Underlying().(*types.Struct).NumFields())
	})
	rmeth("Field", func(w *Worker, r RVal, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.reflectErr("Field", kindOf(r.t))
		}
		i := cInt(w, a[0])
		if r.addr != nil {
			w.force(r.addr)
			return RVal{t: st.Field(i).Type(), addr: &r.addr.v.(*StructV).f[i]}
		}
		s := r.v.(*StructV)
		w.force(&s.f[i])
		return RVal{t: st.Field(i).Type(), v: w.copyVal(s.f[i].v)}
	})
	rmeth("String", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil {
			return conc("<invalid Value>")
		}
		if s, ok := r.val(w).(*Str); ok {
			return s
		}
		return conc("<" + r.t.String() + " Value>")
	})
	rmeth("Int", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil || !isSigned(r.t) {
			w.reflectErr("Int", reflect.Invalid)
		}
		return w.p.Resize(r.val(w).(*Term), 64, true)
	})
	rmeth("Uint", func(w *Worker, r RVal, a []Value) Value { return w.p.Resize(r.val(w).(*Term), 64, false) })
	rmeth("Float", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil || !isFloat(r.t) {
			w.reflectErr("Float", reflect.Invalid)
		}
		t := r.val(w).(*Term)
		if t.w == 32 {
			return w.p.Un(OFToF, 64, t)
		}
		return t
	})
	rmeth("Bool", func(w *Worker, r RVal, a []Value) Value {
		if r.t == nil || !isBool(r.t) {
			w.reflectErr("Bool", reflect.Invalid)
		}
		return r.val(w).(*Term)
	})
	rmeth("Pointer", func(w *Worker, r RVal, a []Value) Value { panic(unsupported{"reflect.Value.Pointer"}) })
	rmeth("MapRange", func(w *Worker, r RVal, a []Value) Value {
		m, ok := r.val(w).(*MapV)
		if !ok {
			w.reflectErr("MapRange", kindOf(r.t))
		}
		return &Cell{v: NativeObj{&rIter{it: w.rangeIter(m), t: r.t.Underlying().(*types.Map)}}}
	})
	rmeth("MapKeys", func(w *Worker, r RVal, a []Value) Value {
		m, ok := r.val(w).(*MapV)
		if !ok {
			w.reflectErr("MapKeys", kindOf(r.t))
		}
		var out []Value
		for _, e := range w.rangeIter(m).es {
			out = append(out, RVal{t: r.t.Underlying().(*types.Map).Key(), v: e.k})
		}
		return w.newSlice(out)
	})
	rmeth("MapIndex", func(w *Worker, r RVal, a []Value) Value {
		m, ok := r.val(w).(*MapV)
		if !ok {
			w.reflectErr("MapIndex", kindOf(r.t))
		}
		e := w.mapFind(m, rv(a[0]).val(w))
		if e == nil {
			return RVal{}
		}
		return RVal{t: r.t.Underlying().(*types.Map).Elem(), v: w.copyVal(e.v)}
	})
	iter := func(w *Worker, v Value) *rIter { return v.(*Cell).v.(NativeObj).v.(*rIter) }
	reg("(*reflect.MapIter).Next", func(w *Worker, fn *ssa.Function, a []Value) Value {
		x := iter(w, a[0])
		for x.it.pos < len(x.it.es) && x.it.es[x.it.pos].dead {
			x.it.pos++
		}
		if x.it.pos >= len(x.it.es) {
			return w.p.F
		}
		x.cur = x.it.es[x.it.pos]
		x.it.pos++
		return w.p.T
	})
	reg("(*reflect.MapIter).Key", func(w *Worker, fn *ssa.Function, a []Value) Value {
		x := iter(w, a[0])
		return RVal{t: x.t.Key(), v: x.cur.k}
	})
	reg("(*reflect.MapIter).Value", func(w *Worker, fn *ssa.Function, a []Value) Value {
		x := iter(w, a[0])
		return RVal{t: x.t.Elem(), v: w.copyVal(x.cur.v)}
	})
	reg("(reflect.Kind).String", func(w *Worker, fn *ssa.Function, a []Value) Value {
		return conc(reflect.Kind(a[0].(*Term).c).String())
	})
}

type rIter struct {
	it  *IterV
	cur *MapEntry
	t   *types.Map
}

func (w *Worker) rElem(r RVal) Value {
	if r.t == nil {
		w.reflectErr("Elem", reflect.Invalid)
	}
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		c, ok := r.val(w).(*Cell)
		if !ok || c == nil {
			return RVal{}
		}
		return RVal{t: u.Elem(), addr: c}
	case *types.Interface:
		i := r.val(w).(IfaceV)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	}
	w.reflectErr("Elem", kindOf(r.t))
	return nil
}

func (w *Worker) deepEq(x, y Value, d int) *Term {
	if d > 40 {
		panic(unsupported{"DeepEqual depth"})
	}
	switch a := x.(type) {
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			return w.p.F
		}
		if a.t == nil || b.t == nil {
			return w.p.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.p.F
		}
		if isFloat(a.t) {
			return w.p.Bin(OFEq, a.v.(*Term), b.v.(*Term))
		}
		return w.deepEq(a.v, b.v, d+1)
	case *Cell:
		b, ok := y.(*Cell)
		if !ok || a == b {
			return w.p.Bool(ok)
		}
		if a == nil || b == nil {
			return w.p.F
		}
		return w.deepEq(w.load(a), w.load(b), d+1)
	case *StructV:
		b := y.(*StructV)
		r := w.p.T
		for i := range a.f {
			w.force(&a.f[i])
			w.force(&b.f[i])
			r = w.p.And(r, w.deepEq(a.f[i].v, b.f[i].v, d+1))
		}
		return r
	case *ArrayV:
		b := y.(*ArrayV)
		r := w.p.T
		for i := range a.e {
			r = w.p.And(r, w.deepEq(a.e[i].v, b.e[i].v, d+1))
		}
		return r
	case *SliceV:
		b, _ := y.(*SliceV)
		if (a == nil) != (b == nil) {
			return w.p.F
		}
		ca, cb := w.cellsOf(a), w.cellsOf(b)
		if len(ca) != len(cb) {
			return w.p.F
		}
		r := w.p.T
		for i := range ca {
			r = w.p.And(r, w.deepEq(ca[i], cb[i], d+1))
		}
		return r
	case *MapV:
		b, _ := y.(*MapV)
		if (a == nil) != (b == nil) {
			return w.p.F
		}
		if a == nil {
			return w.p.T
		}
		if a.n != b.n {
			return w.p.F
		}
		r := w.p.T
		for _, e := range a.es {
			if e.dead {
				continue
			}
			f := w.mapFind(b, e.k)
			if f == nil {
				return w.p.F
			}
			r = w.p.And(r, w.deepEq(e.v, f.v, d+1))
		}
		return r
	case *Closure:
		return w.p.Bool(a == nil && isNilV(y))
	}
	return w.eq(x, y)
}
