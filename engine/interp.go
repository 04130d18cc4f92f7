package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	slots     map[ssa.Value]int
	n         int
	name      string
	intrinsic intrinsic
	repo      bool // counts as code under test
	steps     int64
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	inv  func()
	next *deferred
}

type frame struct {
	w         *Worker
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panicV    interface{}
	caller    *frame
}

func (w *Worker) infoOf(fn *ssa.Function) *fnInfo {
	if fi := w.fns[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{slots: map[ssa.Value]int{}}
	fi.name = fn.String()
	if fn.Origin() != nil && fn.Origin() != fn {
		fi.name = fn.Origin().String()
	}
	add := func(v ssa.Value) { fi.slots[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.intrinsic = w.findIntrinsic(fn, fi.name)
	if p := pkgOf(fn); p != "" {
		fi.repo = strings.Contains(p, "Foxcapades/") && !strings.Contains(p, "zzverif")
	}
	w.fns[fn] = fi
	return fi
}

func pkgOf(fn *ssa.Function) string {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Path()
		}
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return fn.Object().Pkg().Path()
		}
		if fn.Origin() != nil && fn.Origin() != fn {
			fn = fn.Origin()
			continue
		}
		fn = fn.Parent()
	}
	return ""
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.w.constVal(v)
	case *ssa.Global:
		return fr.w.global(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	if i, ok := fr.info.slots[v]; ok {
		return fr.regs[i]
	}
	panic(fmt.Sprintf("no slot for %T %v", v, v))
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.info.slots[v]] = x }

func (w *Worker) global(g *ssa.Global) *Cell {
	if c := w.globals[g]; c != nil {
		return c
	}
	t := g.Type().(*types.Pointer).Elem()
	c := &Cell{v: w.zeroField(t)}
	// globals live in the base heap
	w.setBase(c)
	w.globals[g] = c
	return c
}

func (w *Worker) setBase(c *Cell) {
	c.base = true
	switch v := c.v.(type) {
	case *StructV:
		for i := range v.f {
			w.setBase(&v.f[i])
		}
	case *ArrayV:
		for i := range v.e {
			w.setBase(&v.e[i])
		}
	}
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if v, ok := w.consts[c]; ok {
		return v
	}
	v := w.constVal0(c)
	switch v.(type) {
	case *Term, *Str:
		w.consts[c] = v
	}
	return v
}

func (w *Worker) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zeroField(c.Type())
	}
	t := c.Type().Underlying().(*types.Basic)
	switch {
	case t.Info()&types.IsBoolean != 0:
		return w.p.Bool(constant.BoolVal(c.Value))
	case t.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return conc(constant.StringVal(c.Value))
		}
		return conc(string(rune(c.Int64())))
	case t.Info()&types.IsFloat != 0:
		return w.p.BV(fbits(c.Float64(), w.width(t)), w.width(t))
	case t.Info()&types.IsUnsigned != 0:
		return w.p.BV(c.Uint64(), w.width(t))
	case t.Info()&types.IsInteger != 0:
		return w.p.BV(uint64(c.Int64()), w.width(t))
	}
	panic(unsupported{"constant " + c.String()})
}

func (w *Worker) rtPanic(msg string) {
	panic(targetPanic{w.runtimeError(msg)})
}

func (w *Worker) runtimeError(msg string) Value {
	if w.eng.rtErrType != nil {
		return IfaceV{t: w.eng.rtErrType, v: conc("runtime error: " + msg)}
	}
	return IfaceV{t: types.Typ[types.String], v: conc("runtime error: " + msg)}
}

// callValue calls a func value.
func (w *Worker) callValue(f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.call(f.fn, args, f.env)
	case *ssa.Function:
		return w.call(f, args, nil)
	case NativeFn:
		return f(w, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", f)})
}

type NativeFn func(w *Worker, args []Value) Value

func (w *Worker) call(fn *ssa.Function, args []Value, env []Value) Value {
	fi := w.infoOf(fn)
	if fi.intrinsic != nil {
		if !w.initPhase {
			w.intrUsed[fi.name]++
		}
		if r := fi.intrinsic(w, fn, args); r != Value(fallThrough) {
			return r
		}
	}
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + fi.name})
	}
	w.depth++
	if w.depth > 3000 {
		w.depth = 0
		panic(targetPanic{w.runtimeError("stack overflow (call depth above 3000)")})
	}
	fr := &frame{w: w, fn: fn, info: fi, regs: make([]Value, fi.n), env: env, block: fn.Blocks[0], caller: w.cur}
	for i, p := range fn.Params {
		fr.regs[fi.slots[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[fi.slots[p]] = env[i]
	}
	saved := w.cur
	w.cur = fr
	for fr.block != nil {
		fr.run()
	}
	w.cur = saved
	w.depth--
	return fr.result
}

func (fr *frame) run() {
	if fr.fn.Recover == nil && !fr.hasDefer() {
		fr.loop()
		return
	}
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		depth := fr.w.depthOf(fr)
		fr.w.depth = depth
		fr.w.cur = fr
		fr.panicking = true
		fr.panicV = r
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = fr.w.zeroResults(fr.fn)
		}
	}()
	fr.loop()
}

func (w *Worker) zeroResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return w.zeroField(rs.At(0).Type())
	}
	return w.zero(rs)
}

func (w *Worker) depthOf(fr *frame) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

func (fr *frame) hasDefer() bool {
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicV = r
				}
			}()
			fr.w.deferFrame = fr
			d.inv()
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) loop() {
	w := fr.w
	for {
	block:
		for idx := 0; idx < len(fr.block.Instrs); idx++ {
			in := fr.block.Instrs[idx]
			w.steps++
			fr.info.steps++
			if w.steps > w.maxSteps {
				panic(unsupported{"step bound reached"})
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				// evaluate all phis of the block simultaneously
				var vals []Value
				j := idx
				pi := -1
				for k, p := range fr.block.Preds {
					if p == fr.prev {
						pi = k
						break
					}
				}
				for ; j < len(fr.block.Instrs); j++ {
					ph, ok := fr.block.Instrs[j].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[pi]))
				}
				for k := idx; k < j; k++ {
					fr.set(fr.block.Instrs[k].(*ssa.Phi), vals[k-idx])
				}
				idx = j - 1
			case *ssa.UnOp:
				fr.set(in, fr.unop(in))
			case *ssa.BinOp:
				fr.set(in, w.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
			case *ssa.Call:
				fr.set(in, fr.doCall(&in.Call))
			case *ssa.ChangeInterface:
				fr.set(in, fr.get(in.X))
			case *ssa.ChangeType:
				fr.set(in, fr.get(in.X))
			case *ssa.Convert:
				fr.set(in, w.convert(in.X.Type(), in.Type(), fr.get(in.X)))
			case *ssa.MultiConvert:
				fr.set(in, w.convert(in.X.Type(), in.Type(), fr.get(in.X)))
			case *ssa.SliceToArrayPointer:
				panic(unsupported{"slice to array pointer"})
			case *ssa.MakeInterface:
				fr.set(in, IfaceV{t: in.X.Type(), v: w.copyVal(fr.get(in.X))})
			case *ssa.Extract:
				fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
			case *ssa.Slice:
				fr.set(in, fr.slice(in))
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for i, r := range in.Results {
						t[i] = fr.get(r)
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.RunDefers:
				fr.runDefers()
			case *ssa.Panic:
				panic(targetPanic{fr.get(in.X)})
			case *ssa.Store:
				w.store(fr.get(in.Addr).(*Cell), fr.get(in.Val))
			case *ssa.If:
				s := 1
				if w.branch(fr.get(in.Cond).(*Term)) {
					s = 0
				}
				fr.prev, fr.block = fr.block, fr.block.Succs[s]
				break block
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, fr.block.Succs[0]
				break block
			case *ssa.Defer:
				fr.addDefer(in)
			case *ssa.Alloc:
				c := &Cell{v: w.zeroField(in.Type().(*types.Pointer).Elem())}
				if w.initPhase {
					w.setBase(c)
				}
				fr.set(in, c)
			case *ssa.MakeSlice:
				n := int(int64(w.concretize(w.p.Resize(fr.get(in.Len).(*Term), 64, isSigned(in.Len.Type())))))
				cp := int(int64(w.concretize(w.p.Resize(fr.get(in.Cap).(*Term), 64, isSigned(in.Cap.Type())))))
				if n < 0 || n > 1<<22 {
					w.rtPanic("makeslice: len out of range")
				}
				if cp < n || cp > 1<<22 {
					w.rtPanic("makeslice: cap out of range")
				}
				et := in.Type().Underlying().(*types.Slice).Elem()
				fr.set(in, w.makeSlice(et, n, cp))
			case *ssa.MakeMap:
				fr.set(in, &MapV{base: w.initPhase})
			case *ssa.MakeClosure:
				c := &Closure{fn: in.Fn.(*ssa.Function)}
				for _, b := range in.Bindings {
					c.env = append(c.env, fr.get(b))
				}
				fr.set(in, c)
			case *ssa.FieldAddr:
				c := fr.get(in.X).(*Cell)
				if c == nil {
					w.rtPanic("invalid memory address or nil pointer dereference")
				}
				w.force(c)
				s, ok := c.v.(*StructV)
				if !ok {
					panic(unsupported{fmt.Sprintf("field of %T in %s", c.v, fr.fn)})
				}
				fr.set(in, &s.f[in.Field])
			case *ssa.Field:
				s, ok := fr.get(in.X).(*StructV)
				if !ok {
					panic(unsupported{fmt.Sprintf("field of %T in %s", fr.get(in.X), fr.fn)})
				}
				w.force(&s.f[in.Field])
				fr.set(in, w.copyVal(s.f[in.Field].v))
			case *ssa.IndexAddr:
				fr.set(in, fr.indexAddr(in))
			case *ssa.Index:
				switch x := fr.get(in.X).(type) {
				case *ArrayV:
					i := w.boundedIndex(fr.get(in.Index).(*Term), isSigned(in.Index.Type()), len(x.e))
					w.force(&x.e[i])
					fr.set(in, w.copyVal(x.e[i].v))
				case *Str:
					fr.set(in, w.strIndex(x, w.p.Resize(fr.get(in.Index).(*Term), 64, isSigned(in.Index.Type()))))
				default:
					panic(unsupported{fmt.Sprintf("index of %T", x)})
				}
			case *ssa.Lookup:
				fr.set(in, fr.lookup(in))
			case *ssa.MapUpdate:
				w.mapSet(fr.get(in.Map).(*MapV), fr.get(in.Key), w.copyVal(fr.get(in.Value)))
			case *ssa.Range:
				fr.set(in, w.rangeIter(fr.get(in.X)))
			case *ssa.Next:
				fr.set(in, w.next(in, fr.get(in.Iter).(*IterV)))
			case *ssa.TypeAssert:
				fr.set(in, w.typeAssert(in, fr.get(in.X).(IfaceV)))
			default:
				panic(unsupported{fmt.Sprintf("instruction %T in %s", in, fr.fn)})
			}
		}
	}
}

func (w *Worker) makeSlice(et types.Type, n, cp int) *SliceV {
	a := &ArrayV{e: make([]Cell, cp)}
	for i := range a.e {
		a.e[i].v = w.zeroField(et)
		if w.initPhase {
			w.setBase(&a.e[i])
		}
	}
	return &SliceV{a: a, len: n, cap: cp}
}

func (w *Worker) boundedIndex(i *Term, signed bool, n int) int {
	i = w.p.Resize(i, 64, signed)
	if !w.branch(w.p.Bin(OUlt, i, w.p.BV(uint64(n), 64))) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(w.concretize(i))
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) Value {
	w := fr.w
	switch x := fr.get(in.X).(type) {
	case *SliceV:
		n := 0
		if x != nil {
			n = x.len
		}
		i := w.boundedIndex(fr.get(in.Index).(*Term), isSigned(in.Index.Type()), n)
		return &x.a.e[x.off+i]
	case *Cell: // pointer to array
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.force(x)
		a := x.v.(*ArrayV)
		i := w.boundedIndex(fr.get(in.Index).(*Term), isSigned(in.Index.Type()), len(a.e))
		return &a.e[i]
	}
	panic(unsupported{fmt.Sprintf("index address of %T", fr.get(in.X))})
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	w := fr.w
	switch x := fr.get(in.X).(type) {
	case *MapV:
		e := w.mapFind(x, fr.get(in.Index))
		var v Value
		ok := e != nil
		if ok {
			v = w.copyVal(e.v)
		} else {
			v = w.zeroField(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, w.p.Bool(ok)}
		}
		return v
	case *Str:
		return w.strIndex(x, w.p.Resize(fr.get(in.Index).(*Term), 64, isSigned(in.Index.Type())))
	}
	panic(unsupported{fmt.Sprintf("lookup in %T", fr.get(in.X))})
}

func (fr *frame) unop(in *ssa.UnOp) Value {
	w := fr.w
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		c, ok := x.(*Cell)
		if !ok {
			panic(unsupported{fmt.Sprintf("load through %T in %s", x, fr.fn)})
		}
		return w.load(c)
	case token.NOT:
		return w.p.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if isFloat(in.X.Type()) {
			return w.p.Bin(OBXor, t, w.p.BV(uint64(1)<<uint(t.w-1), t.w))
		}
		return w.p.Bin(OSub, w.p.BV(0, t.w), t)
	case token.XOR:
		t := x.(*Term)
		return w.p.Bin(OBXor, t, w.p.BV(mask(t.w), t.w))
	}
	panic(unsupported{"unary " + in.Op.String()})
}

func (w *Worker) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		if isFloat(t) {
			r := w.p.Bin(OFEq, x.(*Term), y.(*Term))
			if op == token.NEQ {
				r = w.p.Not(r)
			}
			return r
		}
		// interface against concrete value never occurs in SSA
		r := w.eq(x, y)
		if op == token.NEQ {
			r = w.p.Not(r)
		}
		return r
	}
	if isString(t) {
		a, b := x.(*Str), y.(*Str)
		switch op {
		case token.ADD:
			return w.strConcat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.p.Not(w.strLess(b, a))
		case token.GEQ:
			return w.p.Not(w.strLess(a, b))
		}
		panic(unsupported{"string operator " + op.String()})
	}
	a, ok := x.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("operator %s on %T", op, x)})
	}
	b := y.(*Term)
	if isFloat(t) {
		switch op {
		case token.ADD:
			return w.p.Bin(OFAdd, a, b)
		case token.SUB:
			return w.p.Bin(OFSub, a, b)
		case token.MUL:
			return w.p.Bin(OFMul, a, b)
		case token.QUO:
			return w.p.Bin(OFDiv, a, b)
		case token.LSS:
			return w.p.Bin(OFLt, a, b)
		case token.LEQ:
			return w.p.Bin(OFLe, a, b)
		case token.GTR:
			return w.p.Bin(OFLt, b, a)
		case token.GEQ:
			return w.p.Bin(OFLe, b, a)
		}
	}
	sg := isSigned(t)
	switch op {
	case token.SHL, token.SHR:
		// shift count: unsigned value of any width
		if isSigned(yt) {
			if w.branch(w.p.Bin(OSlt, b, w.p.BV(0, b.w))) {
				w.rtPanic("negative shift amount")
			}
		}
		var c *Term
		if b.w > a.w {
			big := w.p.Bin(OUle, w.p.BV(uint64(a.w), b.w), b)
			c = w.p.Ite(big, w.p.BV(uint64(a.w), a.w), w.p.Resize(b, a.w, false))
		} else {
			c = w.p.Resize(b, a.w, false)
		}
		if op == token.SHL {
			return w.p.Bin(OShl, a, c)
		}
		if sg {
			return w.p.Bin(OAshr, a, c)
		}
		return w.p.Bin(OLshr, a, c)
	case token.ADD:
		return w.p.Bin(OAdd, a, b)
	case token.SUB:
		return w.p.Bin(OSub, a, b)
	case token.MUL:
		return w.p.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if w.branch(w.p.Eq(b, w.p.BV(0, b.w))) {
			w.rtPanic("integer divide by zero")
		}
		o := map[bool]map[token.Token]Op{true: {token.QUO: OSDiv, token.REM: OSRem}, false: {token.QUO: OUDiv, token.REM: OURem}}[sg][op]
		return w.p.Bin(o, a, b)
	case token.AND:
		if a.w == 0 {
			return w.p.And(a, b)
		}
		return w.p.Bin(OBAnd, a, b)
	case token.OR:
		if a.w == 0 {
			return w.p.Or(a, b)
		}
		return w.p.Bin(OBOr, a, b)
	case token.XOR:
		return w.p.Bin(OBXor, a, b)
	case token.AND_NOT:
		return w.p.Bin(OBAnd, a, w.p.Bin(OBXor, b, w.p.BV(mask(b.w), b.w)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if sg {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return w.p.Bin(lt, a, b)
		case token.LEQ:
			return w.p.Bin(le, a, b)
		case token.GTR:
			return w.p.Bin(lt, b, a)
		}
		return w.p.Bin(le, b, a)
	}
	panic(unsupported{"operator " + op.String()})
}

func (w *Worker) convert(from, to types.Type, v Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if types.Identical(uf, ut) {
		return v
	}
	switch tt := ut.(type) {
	case *types.Pointer:
		if u, ok := v.(UnsafeP); ok {
			return u.c
		}
		return v
	case *types.Slice:
		if isString(from) {
			s := v.(*Str)
			eb := tt.Elem().Underlying().(*types.Basic)
			bs := w.bytesOfStr(s)
			if eb.Kind() == types.Uint8 {
				vals := make([]Value, len(bs))
				for i := range bs {
					vals[i] = bs[i]
				}
				return w.newSlice(vals)
			}
			// runes: symbolic bytes are ASCII by construction
			if c, ok := w.strConc(s); ok {
				var vals []Value
				for _, r := range c {
					vals = append(vals, w.p.BV(uint64(r), 32))
				}
				return w.newSlice(vals)
			}
			var vals []Value
			for i := 0; i < len(bs); {
				r, n := w.runeAt(bs, i)
				vals = append(vals, r)
				i += n
			}
			return w.newSlice(vals)
		}
		return v
	case *types.Basic:
		if tt.Kind() == types.UnsafePointer {
			if c, ok := v.(*Cell); ok {
				return UnsafeP{c}
			}
			return v
		}
		if tt.Info()&types.IsString != 0 {
			switch fs := uf.(type) {
			case *types.Slice:
				eb := fs.Elem().Underlying().(*types.Basic)
				var ts []*Term
				sl, _ := v.(*SliceV)
				for i := range w.sliceCells(sl) {
					c := &w.sliceCells(sl)[i]
					w.force(c)
					ts = append(ts, c.v.(*Term))
				}
				if eb.Kind() == types.Uint8 {
					return w.strOfBytes(ts)
				}
				var sb strings.Builder
				out := make([]*Term, 0, len(ts))
				concr := true
				for _, t := range ts {
					if t.isConst() {
						sb.WriteRune(rune(int32(t.c)))
						for _, x := range []byte(string(rune(int32(t.c)))) {
							out = append(out, w.p.BV(uint64(x), 8))
						}
					} else {
						concr = false
						out = append(out, w.encodeRune(t)...)
					}
				}
				if concr {
					return conc(sb.String())
				}
				return w.strOfBytes(out)
			case *types.Basic:
				if fs.Info()&types.IsInteger != 0 {
					t := v.(*Term)
					if t.isConst() {
						return conc(string(rune(sext(t.c, t.w))))
					}
					return w.strOfBytes(w.encodeRune(t))
				}
			}
			return v
		}
		fb, ok := uf.(*types.Basic)
		if !ok {
			break
		}
		t, ok := v.(*Term)
		if !ok {
			break
		}
		wd := w.width(to)
		switch {
		case fb.Info()&types.IsFloat != 0 && tt.Info()&types.IsFloat != 0:
			if t.w == wd {
				return t
			}
			return w.p.Un(OFToF, wd, t)
		case fb.Info()&types.IsFloat != 0:
			if t.isConst() {
				f := fval(t.c, t.w)
				if tt.Info()&types.IsUnsigned != 0 {
					return w.p.BV(uint64(f), wd)
				}
				return w.p.BV(uint64(int64(f)), wd)
			}
			if t.w != 64 {
				t = w.p.Un(OFToF, 64, t)
			}
			return w.p.Resize(w.p.Un(OFToS, 64, t), wd, true)
		case tt.Info()&types.IsFloat != 0:
			if isSigned(from) {
				return w.p.Un(OSToF, wd, t)
			}
			return w.p.Un(OUToF, wd, t)
		default:
			return w.p.Resize(t, wd, isSigned(from))
		}
	}
	panic(unsupported{fmt.Sprintf("conversion %s -> %s", from, to)})
}

var _ = math.Abs

func (fr *frame) slice(in *ssa.Slice) Value {
	w := fr.w
	x := fr.get(in.X)
	idx := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return w.p.Resize(fr.get(v).(*Term), 64, isSigned(v.Type()))
	}
	lo, hi, mx := idx(in.Low), idx(in.High), idx(in.Max)
	if s, ok := x.(*Str); ok {
		return w.strSlice(s, lo, hi)
	}
	var a *ArrayV
	off, ln, cp := 0, 0, 0
	isNil := false
	switch x := x.(type) {
	case *SliceV:
		if x == nil {
			isNil = true
		} else {
			a, off, ln, cp = x.a, x.off, x.len, x.cap
		}
	case *Cell:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.force(x)
		a = x.v.(*ArrayV)
		ln, cp = len(a.e), len(a.e)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	c := func(t *Term, def int) int {
		if t == nil {
			return def
		}
		v := w.concretize(t)
		if v > 1<<30 {
			return -1
		}
		return int(v)
	}
	l := c(lo, 0)
	h := c(hi, ln)
	m := c(mx, cp)
	if l < 0 || h < l || m < h || m > cp {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
	}
	if isNil {
		return (*SliceV)(nil)
	}
	return &SliceV{a: a, off: off + l, len: h - l, cap: m - l}
}

func (fr *frame) prepCall(c *ssa.CallCommon) (func() Value, *ssa.Builtin, []Value) {
	w := fr.w
	var args []Value
	if c.IsInvoke() {
		recv, ok := fr.get(c.Value).(IfaceV)
		if !ok {
			panic(unsupported{fmt.Sprintf("invoke on %T", fr.get(c.Value))})
		}
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		if recv.t == nil {
			return func() Value { w.rtPanic("invalid memory address or nil pointer dereference"); return nil }, nil, nil
		}
		name := c.Method.Name()
		if rt, ok := recv.v.(RType); ok {
			return func() Value { return w.rtypeMethod(rt, name, args) }, nil, nil
		}
		fn := w.method(recv.t, c.Method)
		full := append([]Value{recv.v}, args...)
		return func() Value { return w.call(fn, full, nil) }, nil, nil
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return nil, f, args
	case *ssa.Function:
		return func() Value { return w.call(f, args, nil) }, nil, nil
	}
	fv := fr.get(c.Value)
	return func() Value { return w.callValue(fv, args) }, nil, nil
}

func (fr *frame) doCall(c *ssa.CallCommon) Value {
	f, bi, args := fr.prepCall(c)
	if bi != nil {
		return fr.builtin(bi, c, args)
	}
	return f()
}

func (fr *frame) addDefer(in *ssa.Defer) {
	f, bi, args := fr.prepCall(&in.Call)
	d := &deferred{next: fr.defers}
	if bi != nil {
		call := &in.Call
		d.inv = func() { fr.builtin(bi, call, args) }
	} else {
		d.inv = func() { f() }
	}
	fr.defers = d
}

type methKey struct {
	t types.Type
	n string
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f := w.meths[k]; f != nil {
		return f
	}
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported{fmt.Sprintf("method %s of %s", m.Name(), t)})
	}
	w.meths[k] = f
	return f
}

func (w *Worker) rangeIter(x Value) *IterV {
	switch x := x.(type) {
	case *Str:
		if c, ok := w.strConc(x); ok {
			it := &IterV{isStr: true}
			_ = c
			it.es = nil
			var ts []*Term
			for i := 0; i < len(c); i++ {
				ts = append(ts, w.p.BV(uint64(c[i]), 8))
			}
			it.str = ts
			return it
		}
		return &IterV{isStr: true, str: w.bytesOfStr(x)}
	case *MapV:
		it := &IterV{}
		if x == nil {
			return it
		}
		for _, e := range x.es {
			if !e.dead {
				it.es = append(it.es, e)
			}
		}
		it.es = w.permute(it.es)
		return it
	}
	panic(unsupported{fmt.Sprintf("range over %T", x)})
}

// permute: Go's map iteration order is arbitrary; all orders are explored up
// to three entries, forward/backward/rotated beyond.
func (w *Worker) permute(es []*MapEntry) []*MapEntry {
	n := len(es)
	if n < 2 || w.initPhase || w.fixedOrder {
		return es
	}
	w.mapOrder = true
	if n <= 3 {
		out := append([]*MapEntry(nil), es...)
		for i := 0; i < n-1; i++ {
			j := i + w.choose(n-i)
			out[i], out[j] = out[j], out[i]
		}
		return out
	}
	switch w.choose(3) {
	case 1:
		out := make([]*MapEntry, n)
		for i := range es {
			out[n-1-i] = es[i]
		}
		return out
	case 2:
		return append(append([]*MapEntry(nil), es[n/2:]...), es[:n/2]...)
	}
	return es
}

func (w *Worker) next(in *ssa.Next, it *IterV) Value {
	if it.isStr {
		if it.pos >= len(it.str) {
			return Tuple{w.p.F, w.p.BV(0, 64), w.p.BV(0, 32)}
		}
		b := it.str[it.pos]
		p := it.pos
		if b.isConst() && b.c >= 0x80 {
			var raw []byte
			for j := it.pos; j < len(it.str) && j < it.pos+4 && it.str[j].isConst(); j++ {
				raw = append(raw, byte(it.str[j].c))
			}
			for _, r := range string(raw) {
				it.pos += len(string(r))
				return Tuple{w.p.T, w.p.BV(uint64(p), 64), w.p.BV(uint64(uint32(r)), 32)}
			}
		}
		r, n := w.runeAt(it.str, p)
		it.pos += n
		return Tuple{w.p.T, w.p.BV(uint64(p), 64), r}
	}
	tt := in.Type().(*types.Tuple)
	for it.pos < len(it.es) {
		e := it.es[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{w.p.T, e.k, w.copyVal(e.v)}
	}
	z := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return w.zeroField(tt.At(i).Type())
	}
	return Tuple{w.p.F, z(1), z(2)}
}

// runeAt decodes the character at a position and tells its length.
func (w *Worker) runeAt(bs []*Term, i int) (*Term, int) {
	b := bs[i]
	if b.isConst() && b.c >= 0x80 {
		var raw []byte
		for j := i; j < len(bs) && j < i+4 && bs[j].isConst(); j++ {
			raw = append(raw, byte(bs[j].c))
		}
		r, n := utf8.DecodeRune(raw)
		return w.p.BV(uint64(uint32(r)), 32), n
	}
	if w.wide && !b.isConst() && !w.branch(w.p.Bin(OUlt, b, w.p.BV(0x80, 8))) {
		// the two bytes of U+00C0 to U+00FF: 0xc3, 0x80 to 0xbf
		if i+1 < len(bs) {
			if c := bs[i+1]; w.branch(w.p.Eq(b, w.p.BV(0xc3, 8))) && w.branch(w.p.Bin(OUle, w.p.BV(0x80, 8), c)) {
				return w.p.Bin(OAdd, w.p.Resize(c, 32, false), w.p.BV(0x40, 32)), 2
			}
		}
		panic(unsupported{"a symbolic character beyond ASCII"})
	}
	return w.p.Resize(b, 32, false), 1
}

// encodeRune yields the bytes of a character below U+0800.
func (w *Worker) encodeRune(t *Term) []*Term {
	if w.branch(w.p.Bin(OUlt, t, w.p.BV(0x80, t.w))) {
		return []*Term{w.p.Resize(t, 8, false)}
	}
	if !w.branch(w.p.Bin(OUlt, t, w.p.BV(0x800, t.w))) {
		panic(unsupported{"a symbolic character beyond U+07FF"})
	}
	hi := w.p.Bin(OBOr, w.p.BV(0xc0, t.w), w.p.Bin(OLshr, t, w.p.BV(6, t.w)))
	lo := w.p.Bin(OBOr, w.p.BV(0x80, t.w), w.p.Bin(OBAnd, t, w.p.BV(0x3f, t.w)))
	return []*Term{w.p.Resize(hi, 8, false), w.p.Resize(lo, 8, false)}
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := w.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	w.impl[k] = v
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x IfaceV) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if _, isR := x.v.(RType); isR {
				ok = true
			} else {
				ok = w.implements(x.t, it)
			}
		}
		if ok {
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = w.copyVal(x.v)
	}
	if !ok {
		if !in.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
		}
		v = w.zeroField(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, w.p.Bool(ok)}
	}
	return v
}

func (fr *frame) builtin(bi *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	w := fr.w
	switch bi.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].(*SliceV)
		var add []Cell
		if str, ok := args[1].(*Str); ok {
			for _, b := range w.bytesOfStr(str) {
				add = append(add, Cell{v: b})
			}
		} else {
			add = w.sliceCells(args[1].(*SliceV))
		}
		return w.appendCells(s, add, c.Args[0].Type().Underlying().(*types.Slice).Elem())
	case "copy":
		d, _ := args[0].(*SliceV)
		var src []Cell
		if str, ok := args[1].(*Str); ok {
			for _, b := range w.bytesOfStr(str) {
				src = append(src, Cell{v: b})
			}
		} else {
			src = w.sliceCells(args[1].(*SliceV))
		}
		dst := w.sliceCells(d)
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			w.force(&src[i])
			tmp[i] = w.copyVal(src[i].v)
		}
		for i := 0; i < n; i++ {
			w.store(&dst[i], tmp[i])
		}
		return w.p.BV(uint64(n), 64)
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return w.strLen(x)
		case *SliceV:
			if x == nil {
				return w.p.BV(0, 64)
			}
			return w.p.BV(uint64(x.len), 64)
		case *MapV:
			if x == nil {
				return w.p.BV(0, 64)
			}
			return w.p.BV(uint64(x.n), 64)
		case *ArrayV:
			return w.p.BV(uint64(len(x.e)), 64)
		case *Cell:
			return w.p.BV(uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if x == nil {
				return w.p.BV(0, 64)
			}
			return w.p.BV(uint64(x.cap), 64)
		case *ArrayV:
			return w.p.BV(uint64(len(x.e)), 64)
		case *Cell:
			return w.p.BV(uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				w.mapSave(x)
				for _, e := range x.es {
					if !x.base {
						e.dead = true
					}
				}
				x.es = nil
				x.n = 0
			}
		case *SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			cs := w.sliceCells(x)
			for i := range cs {
				w.store(&cs[i], w.zeroField(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// called from a deferred function: the panicking frame is the deferring one
		f := w.deferFrame
		if f != nil && f.panicking && fr.caller == f {
			f.panicking = false
			v := f.panicV.(targetPanic).v
			if i, ok := v.(IfaceV); ok {
				return i
			}
			return IfaceV{}
		}
		return IfaceV{}
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if bi.Name() == "max" {
				op = token.GTR
			}
			cnd := w.binop(op, t, a, r, t).(*Term)
			if rt, ok := r.(*Term); ok {
				r = w.p.Ite(cnd, a.(*Term), rt)
			} else if w.branch(cnd) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilV(args[0]) {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(unsupported{"builtin " + bi.Name()})
}

func (w *Worker) appendCells(s *SliceV, add []Cell, et types.Type) Value {
	if len(add) == 0 {
		return s
	}
	n := 0
	if s != nil {
		n = s.len
	}
	vals := make([]Value, len(add))
	lz := make([]*Hook, len(add))
	for i := range add {
		if add[i].lazy != nil && !add[i].lazy.done {
			lz[i] = add[i].lazy
			continue
		}
		w.force(&add[i])
		vals[i] = w.copyVal(add[i].v)
	}
	need := n + len(add)
	if s != nil && need <= s.cap {
		for i := range vals {
			c := &s.a.e[s.off+n+i]
			w.store(c, vals[i])
			if lz[i] != nil {
				c.lazy = lz[i]
			}
		}
		return &SliceV{a: s.a, off: s.off, len: need, cap: s.cap}
	}
	nc := growCap(n, need, s)
	a := &ArrayV{e: make([]Cell, nc)}
	for i := 0; i < n; i++ {
		w.copyCell(&a.e[i], &s.a.e[s.off+i])
	}
	for i := range vals {
		a.e[n+i].v = vals[i]
		a.e[n+i].lazy = lz[i]
	}
	for i := need; i < nc; i++ {
		a.e[i].v = w.zeroField(et)
	}
	if w.initPhase {
		for i := range a.e {
			w.setBase(&a.e[i])
		}
	}
	return &SliceV{a: a, len: need, cap: nc}
}

// growCap follows the runtime's doubling for small slices (16-byte and larger elements).
func growCap(old, need int, s *SliceV) int {
	oc := 0
	if s != nil {
		oc = s.cap
	}
	nc := oc * 2
	if need > nc {
		nc = need
	} else if oc >= 256 {
		nc = oc + (oc+768)/4
		if nc < need {
			nc = need
		}
	}
	return nc
}
