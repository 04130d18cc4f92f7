package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term (bool, integer, float bits), *Str, *Cell (pointer),
// *StructV, *ArrayV, *SliceV, *MapV, IfaceV, *Closure, *ssa.Builtin, Tuple,
// RVal, RType, UnsafeP, *IterV.
type Value interface{}

type Hook struct {
	done bool
	v    Value
	fn   Value
	busy bool
}

type Cell struct {
	v    Value
	lazy *Hook
	base bool
}

type StructV struct{ f []Cell }
type ArrayV struct{ e []Cell }
type SliceV struct {
	a             *ArrayV
	off, len, cap int
}
type IfaceV struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Tuple []Value
type UnsafeP struct{ c *Cell }

// RVal models reflect.Value.
type RVal struct {
	t    types.Type
	v    Value
	addr *Cell
}

// RType models *reflect.rtype.
type RType struct{ t types.Type }

type MapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	es   []*MapEntry
	n    int
	base bool
	seed int
}
type IterV struct {
	es  []*MapEntry
	pos int
	// string iteration
	str   []*Term
	isStr bool
}

type StrKind uint8

const (
	SConc StrKind = iota
	SSym          // n, b
	SChoice
	SInt
	SFloat
	SOpaque
)

// Str is a string value.
type Str struct {
	k    StrKind
	s    string
	n    *Term   // SSym: length (64 bits)
	b    []*Term // SSym: bytes
	sel  *Term   // SChoice: 8-bit selector
	opts []string
	num  *Term // SInt (64 bits), SFloat (64 bits)
	uns  bool
	id   int
}

type targetPanic struct{ v Value }
type abortPath struct{ reason string }   // silently ends the path (assumption)
type unsupported struct{ reason string } // ends the path, reported as reduced bound
type exitPath struct{}                   // harness finished early

func conc(s string) *Str { return &Str{k: SConc, s: s} }

func (w *Worker) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return UnsafeP{}
		case t.Info()&types.IsBoolean != 0:
			return w.p.F
		case t.Info()&types.IsString != 0:
			return conc("")
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsComplex != 0:
			panic(unsupported{"complex number"})
		default:
			return w.p.BV(0, w.width(t))
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return (*SliceV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Chan:
		return (*Cell)(nil)
	case *types.Struct:
		s := &StructV{f: make([]Cell, t.NumFields())}
		for i := range s.f {
			s.f[i].v = w.zeroField(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{e: make([]Cell, int(t.Len()))}
		for i := range a.e {
			a.e[i].v = w.zeroField(t.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, t.Len())
		for i := range tp {
			tp[i] = w.zeroField(t.At(i).Type())
		}
		return tp
	}
	panic(unsupported{"zero of " + t.String()})
}

func (w *Worker) zeroField(t types.Type) Value {
	if isReflectValue(t) {
		return RVal{}
	}
	return w.zero(t)
}

func (w *Worker) width(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"width of " + t.String()})
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// copyVal copies inline aggregates (structs and arrays).
func (w *Worker) copyVal(v Value) Value {
	switch v := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Cell, len(v.f))}
		for i := range v.f {
			w.copyCell(&n.f[i], &v.f[i])
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Cell, len(v.e))}
		for i := range v.e {
			w.copyCell(&n.e[i], &v.e[i])
		}
		return n
	}
	return v
}

func (w *Worker) copyCell(dst, src *Cell) {
	if src.lazy != nil {
		if src.lazy.done {
			dst.v = w.copyVal(src.lazy.v)
		} else {
			dst.lazy = src.lazy
		}
		return
	}
	dst.v = w.copyVal(src.v)
}

func (w *Worker) newCell(v Value) *Cell { return &Cell{v: v, base: w.initPhase} }

func (w *Worker) load(c *Cell) Value {
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	w.force(c)
	return w.copyVal(c.v)
}

func (w *Worker) force(c *Cell) {
	if c.lazy == nil {
		return
	}
	h := c.lazy
	if !h.done {
		if h.busy {
			panic(unsupported{"recursive lazy value"})
		}
		h.busy = true
		v := w.callValue(h.fn, nil)
		h.v = v
		h.done = true
		h.busy = false
	}
	c.lazy = nil
	c.v = w.copyVal(h.v)
}

func (w *Worker) store(c *Cell, v Value) {
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch nv := v.(type) {
	case *StructV:
		if old, ok := c.v.(*StructV); ok && c.lazy == nil && len(old.f) == len(nv.f) {
			if old == nv {
				return
			}
			for i := range nv.f {
				if nv.f[i].lazy != nil && !nv.f[i].lazy.done {
					w.setCell(&old.f[i], nil)
					old.f[i].lazy = nv.f[i].lazy
					continue
				}
				x := nv.f[i].v
				if nv.f[i].lazy != nil {
					x = nv.f[i].lazy.v
				}
				w.store(&old.f[i], x)
			}
			return
		}
		v = w.copyVal(nv)
	case *ArrayV:
		if old, ok := c.v.(*ArrayV); ok && c.lazy == nil && len(old.e) == len(nv.e) {
			if old == nv {
				return
			}
			for i := range nv.e {
				w.force(&nv.e[i])
				w.store(&old.e[i], nv.e[i].v)
			}
			return
		}
		v = w.copyVal(nv)
	}
	w.setCell(c, v)
}

func (w *Worker) setCell(c *Cell, v Value) {
	if c.base && !w.initPhase {
		w.undo = append(w.undo, undoRec{c, c.v})
	}
	c.lazy = nil
	c.v = v
}

type undoRec struct {
	c *Cell
	v Value
}

func (w *Worker) sliceCells(s *SliceV) []Cell {
	if s == nil {
		return nil
	}
	return s.a.e[s.off : s.off+s.len]
}

func (w *Worker) newSlice(vals []Value) *SliceV {
	a := &ArrayV{e: make([]Cell, len(vals))}
	for i, v := range vals {
		a.e[i].v = v
		a.e[i].base = w.initPhase
	}
	return &SliceV{a: a, len: len(vals), cap: len(vals)}
}

func (w *Worker) markBase(v Value) {}

// ---------- equality ----------

// eq yields the term for x == y (both of the same static type t or dynamic type).
func (w *Worker) eq(x, y Value) *Term {
	switch a := x.(type) {
	case nil:
		return w.p.Bool(isNilV(y))
	case *Term:
		return w.p.Eq(a, y.(*Term))
	case *Str:
		return w.strEq(a, y.(*Str))
	case *Cell:
		b, ok := y.(*Cell)
		return w.p.Bool(ok && a == b)
	case UnsafeP:
		return w.p.Bool(a == y.(UnsafeP))
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			return w.p.Bool(a.t == nil && isNilV(y))
		}
		if a.t == nil || b.t == nil {
			return w.p.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.p.F
		}
		if !types.Comparable(a.t) {
			w.rtPanic("comparing uncomparable type " + a.t.String())
		}
		if isFloat(a.t) {
			return w.p.Bin(OFEq, a.v.(*Term), b.v.(*Term))
		}
		return w.eq(a.v, b.v)
	case *StructV:
		b := y.(*StructV)
		r := w.p.T
		for i := range a.f {
			w.force(&a.f[i])
			w.force(&b.f[i])
			r = w.p.And(r, w.eq(a.f[i].v, b.f[i].v))
		}
		return r
	case *ArrayV:
		b := y.(*ArrayV)
		r := w.p.T
		for i := range a.e {
			w.force(&a.e[i])
			w.force(&b.e[i])
			r = w.p.And(r, w.eq(a.e[i].v, b.e[i].v))
		}
		return r
	case *SliceV:
		return w.p.Bool(a == nil && isNilV(y))
	case *MapV:
		return w.p.Bool(a == nil && isNilV(y) || isMap(y, a))
	case *Closure:
		return w.p.Bool(a == nil && isNilV(y))
	case *ssa.Function, *ssa.Builtin:
		return w.p.F
	case RType:
		b, ok := y.(RType)
		return w.p.Bool(ok && types.Identical(a.t, b.t))
	}
	panic(unsupported{fmt.Sprintf("== on %T", x)})
}

func isMap(y Value, a *MapV) bool { b, ok := y.(*MapV); return ok && a == b }

func isNilV(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Cell:
		return v == nil
	case *SliceV:
		return v == nil
	case *MapV:
		return v == nil
	case *Closure:
		return v == nil
	case IfaceV:
		return v.t == nil
	case UnsafeP:
		return v.c == nil
	}
	return false
}

// ---------- maps ----------

func (w *Worker) mapFind(m *MapV, k Value) *MapEntry {
	if ik, ok := k.(IfaceV); ok && ik.t != nil && !types.Comparable(ik.t) {
		w.rtPanic("hash of unhashable type " + ik.t.String())
	}
	if m == nil {
		return nil
	}
	for _, e := range m.es {
		if e.dead {
			continue
		}
		if w.branch(w.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *MapV, k, v Value) {
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	e := w.mapFind(m, k)
	w.mapSave(m)
	if e != nil {
		if m.base {
			for i := range m.es {
				if m.es[i] == e {
					m.es[i] = &MapEntry{k: e.k, v: v}
					return
				}
			}
		}
		e.v = v
		return
	}
	m.es = append(m.es, &MapEntry{k: k, v: v})
	m.n++
}

func (w *Worker) mapSave(m *MapV) {
	if m.base && !w.initPhase {
		if _, ok := w.mapUndo[m]; !ok {
			cp := *m
			cp.es = append([]*MapEntry(nil), m.es...)
			w.mapUndo[m] = cp
			m.es = append([]*MapEntry(nil), m.es...)
		}
	}
}

func (w *Worker) mapDelete(m *MapV, k Value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.mapSave(m)
	out := make([]*MapEntry, 0, len(m.es))
	for _, x := range m.es {
		if x != e {
			out = append(out, x)
		}
	}
	if !m.base {
		e.dead = true
	}
	m.es = out
	m.n--
}
