package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice of a path.
type Decision struct {
	B bool
	V uint64
}

type Item struct {
	prefix []Decision
	model  map[string]uint64
}

type Harness struct {
	name  string
	fn    *ssa.Function
	stack []Item
	stat  HStat
	done  bool
	open  int
	files map[string]bool
}

type HStat struct {
	Paths       int
	Aborted     int
	Violations  int
	Asserts     int // assertion executions
	Discharged  int // assertion executions shown to hold on their path
	Solver      int // assertion executions that needed a solver query
	Unsupported map[string]int
	Narrowed    map[string]int
	Unknown     int
	Decisions   int
	Truncated   int
	Reached     map[string]int
	Steps       int64
	MaxDepth    int
}

type InputVar struct {
	Name string
	Kind string // int, str
	t    *Term
	s    *Str
}

type Assign struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Int  uint64 `json:"i,omitempty"`
	Str  string `json:"s,omitempty"`
}

// Case is an input assignment for the native build.
type Case struct {
	Harness  string   `json:"harness"`
	Msg      string   `json:"msg,omitempty"`
	Kind     string   `json:"kind,omitempty"` // assert, panic, known, pass
	Known    string   `json:"known,omitempty"`
	Inputs   []Assign `json:"inputs"`
	MapOrder bool     `json:"map_order,omitempty"`
	Tier     int      `json:"tier"`
}

type Engine struct {
	prog      *ssa.Program
	harnesses []*Harness
	rtErrType types.Type
	rtypeType types.Type
	errorsNew *ssa.Function
	models    map[string]*ssa.Function
	initPkgs  []*ssa.Package
	tier      int
	deadline  time.Time
	maxSteps  int64
	maxPaths  int

	mu       sync.Mutex
	cond     *sync.Cond
	rr       int
	rnd      int
	rng      uint64
	busy     int
	cands    []Case
	passes   map[string][]Case
	fnUsed   map[string]int64
	intrUsed map[string]int
	queries  int
	unknowns int
	stime    time.Duration
	serrs    []string
	stopped  bool
	fresh    int
	known    map[string]bool
	initErrs map[string]int
	seed     int
	passCap  int
	debug    bool
	forks    map[string]int
}

type Worker struct {
	eng *Engine
	p   *Pool
	s   *Solver

	globals  map[*ssa.Global]*Cell
	fns      map[*ssa.Function]*fnInfo
	consts   map[*ssa.Const]Value
	meths    map[methKey]*ssa.Function
	impl     map[implKey]bool
	undo     []undoRec
	mapUndo  map[*MapV]MapV
	intrUsed map[string]int

	initPhase  bool
	initCur    *ssa.Function
	fixedOrder bool
	steps      int64
	maxSteps   int64
	depth      int
	cur        *frame
	deferFrame *frame

	// path state
	h        *Harness
	prefix   []Decision
	trail    []Decision
	di       int
	pc       []*Term
	asserted int
	solverOn bool
	model    map[string]uint64
	memo     map[*Term]uint64
	inputs   []InputVar
	names    map[string]Value
	opaqueN  int
	mapOrder bool
	builders map[*Cell]*Str
	pools    map[*Cell][]Value
	stash    []Value
	note     []string
	narrowN  int
	wide     bool // some text of the path may have characters beyond ASCII
}

func (e *Engine) newWorker() (*Worker, error) {
	bin := "z3"
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		bin = b
	}
	s, err := NewSolver(bin, 20000)
	if err != nil {
		return nil, err
	}
	w := &Worker{eng: e, p: NewPool(), s: s, globals: map[*ssa.Global]*Cell{}, fns: map[*ssa.Function]*fnInfo{},
		consts: map[*ssa.Const]Value{}, meths: map[methKey]*ssa.Function{}, impl: map[implKey]bool{}, mapUndo: map[*MapV]MapV{}, intrUsed: map[string]int{}}
	w.maxSteps = 1 << 40
	w.initPhase = true
	w.resetPath()
	w.runInits()
	w.initPhase = false
	return w, nil
}

func (w *Worker) runInits() {
	for _, pk := range w.eng.initPkgs {
		f := pk.Func("init")
		if f == nil {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if u, ok := r.(unsupported); ok {
						msg = u.reason
					}
					if tp, ok := r.(targetPanic); ok {
						msg = "panic " + w.panicText(tp.v)
					}
					w.eng.mu.Lock()
					w.eng.initErrs[pk.Pkg.Path()+": "+msg]++
					w.eng.mu.Unlock()
					w.depth = 0
					w.cur = nil
				}
			}()
			w.initCur = f
			w.call(f, nil, nil)
		}()
	}
}

func (w *Worker) resetPath() {
	w.trail = nil
	w.di = 0
	w.pc = nil
	w.asserted = 0
	w.solverOn = false
	w.memo = map[*Term]uint64{}
	w.inputs = nil
	w.names = map[string]Value{}
	w.wide = false
	w.mapOrder = false
	w.builders = map[*Cell]*Str{}
	w.pools = map[*Cell][]Value{}
	w.stash = nil
	w.depth = 0
	w.cur = nil
	w.steps = 0
	w.narrowN = 0
	for i := len(w.undo) - 1; i >= 0; i-- {
		w.undo[i].c.v = w.undo[i].v
		w.undo[i].c.lazy = nil
	}
	w.undo = w.undo[:0]
	for m, s := range w.mapUndo {
		*m = s
	}
	w.mapUndo = map[*MapV]MapV{}
	if len(w.p.tab) > 400000 {
		// keep the pool bounded; constants held by w.consts stay valid terms of
		// the old pool, so drop them too
		w.rebuildPool()
	}
}

// rebuildPool: terms held in the base heap are all constants; they are re-registered.
func (w *Worker) rebuildPool() {
	old := w.p
	np := NewPool()
	np.next = old.next
	np.T, np.F = old.T, old.F
	np.tab = map[termKey]*Term{}
	for k, t := range old.tab {
		if t.op == OConst {
			np.tab[k] = t
		}
	}
	w.p = np
}

// ---------- constraints ----------

func (w *Worker) addPC(t *Term) {
	if t.isConst() {
		return
	}
	w.pc = append(w.pc, t)
}

func (w *Worker) check(extra *Term) (SatResult, map[string]uint64) {
	if !w.solverOn {
		w.s.Reset()
		w.solverOn = true
		w.asserted = 0
	}
	for ; w.asserted < len(w.pc); w.asserted++ {
		w.s.Assert(w.pc[w.asserted])
	}
	nerr := len(w.s.Errors)
	r, m := w.s.Check(extra)
	if len(w.s.Errors) > nerr || !w.s.inPath {
		w.solverOn = false
	}
	if r == Sat {
		// never trust a model that the evaluator does not confirm
		memo := map[*Term]uint64{}
		ok := extra.Eval(m, memo) != 0
		for _, c := range w.pc {
			if !ok {
				break
			}
			ok = c.Eval(m, memo) != 0
		}
		if !ok {
			w.h.statNote(w, "model not confirmed by the evaluator")
			return Unknown, nil
		}
	}
	return r, m
}

func (h *Harness) statNote(w *Worker, s string) {
	w.eng.mu.Lock()
	h.stat.Unsupported[s]++
	w.eng.mu.Unlock()
}

func (w *Worker) eval(t *Term) uint64 { return t.Eval(w.model, w.memo) }

func (w *Worker) setModel(m map[string]uint64) {
	w.model = m
	w.memo = map[*Term]uint64{}
}

func (w *Worker) push(d Decision, m map[string]uint64) {
	if w.eng.debug {
		w.profile()
	}
	pre := make([]Decision, len(w.trail)+1)
	copy(pre, w.trail)
	pre[len(w.trail)] = d
	e := w.eng
	e.mu.Lock()
	w.h.stack = append(w.h.stack, Item{pre, m})
	e.cond.Signal()
	e.mu.Unlock()
}

// profile counts the places that fork (debugging aid).
func (w *Worker) profile() {
	s := ""
	for f, n := w.cur, 0; f != nil && n < 7; f, n = f.caller, n+1 {
		s += " < " + f.fn.Name()
	}
	e := w.eng
	e.mu.Lock()
	if e.forks == nil {
		e.forks = map[string]int{}
	}
	e.forks[s]++
	e.mu.Unlock()
}

func (w *Worker) branch(c *Term) bool { return w.branchV(c, 0) }

func (w *Worker) branchV(c *Term, v uint64) bool {
	if c.isConst() {
		return c.c != 0
	}
	if w.initPhase {
		panic(unsupported{"symbolic branch in init"})
	}
	if w.di < len(w.prefix) {
		d := w.prefix[w.di]
		w.di++
		w.trail = append(w.trail, d)
		if d.B {
			w.addPC(c)
		} else {
			w.addPC(w.p.Not(c))
		}
		return d.B
	}
	w.di++
	w.h.stat.Decisions++
	side := w.eval(c) != 0
	oc := c
	if side {
		oc = w.p.Not(c)
	}
	r, m := w.check(oc)
	switch r {
	case Sat:
		w.push(Decision{B: !side, V: v}, m)
	case Unknown:
		w.eng.mu.Lock()
		w.h.stat.Unknown++
		w.eng.mu.Unlock()
	}
	w.trail = append(w.trail, Decision{B: side, V: v})
	if side {
		w.addPC(c)
	} else {
		w.addPC(w.p.Not(c))
	}
	return side
}

// choose forks n ways without the solver.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.di < len(w.prefix) {
		d := w.prefix[w.di]
		w.di++
		w.trail = append(w.trail, d)
		return int(d.V)
	}
	w.di++
	w.h.stat.Decisions++
	m := make(map[string]uint64, len(w.model))
	for k, v := range w.model {
		m[k] = v
	}
	for i := n - 1; i >= 1; i-- {
		w.push(Decision{V: uint64(i)}, m)
	}
	w.trail = append(w.trail, Decision{V: 0})
	return 0
}

// concretize forks over every feasible value of t.
func (w *Worker) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.c
		}
		if n > 300 {
			panic(unsupported{"more than 300 values of a symbolic size or index"})
		}
		var v uint64
		if w.di < len(w.prefix) {
			v = w.prefix[w.di].V
		} else {
			v = w.eval(t)
		}
		if w.branchV(w.p.Eq(t, w.p.BV(v, t.w)), v) {
			return v
		}
	}
}

// modelValue picks the value of t in the current model, recorded for replay.
func (w *Worker) modelValue(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	if w.di < len(w.prefix) {
		d := w.prefix[w.di]
		w.di++
		w.trail = append(w.trail, d)
		return d.V
	}
	w.di++
	v := w.eval(t)
	w.trail = append(w.trail, Decision{V: v})
	return v
}

func (w *Worker) narrowed(reason string) {
	w.narrowN++
	w.eng.mu.Lock()
	w.h.stat.Narrowed[reason]++
	w.eng.mu.Unlock()
}

func (w *Worker) assume(c *Term) {
	if c.isConst() {
		if c.c == 0 {
			panic(abortPath{"assumption"})
		}
		return
	}
	if w.eval(c) == 0 {
		r, m := w.check(c)
		switch r {
		case Sat:
			w.setModel(m)
		case Unsat:
			panic(abortPath{"assumption"})
		default:
			w.eng.mu.Lock()
			w.h.stat.Unknown++
			w.eng.mu.Unlock()
			panic(abortPath{"unknown"})
		}
	}
	w.addPC(c)
}

// assert: query whether the condition can be false on this path.
func (w *Worker) assertTerm(c *Term, msg, known string) {
	e := w.eng
	e.mu.Lock()
	w.h.stat.Asserts++
	e.mu.Unlock()
	if c.isConst() {
		if c.c == 0 {
			w.report("assert", msg, known, w.model)
			panic(exitPath{})
		}
		e.mu.Lock()
		w.h.stat.Discharged++
		e.mu.Unlock()
		return
	}
	e.mu.Lock()
	w.h.stat.Solver++
	e.mu.Unlock()
	if w.eval(c) == 0 {
		w.report("assert", msg, known, w.model)
		r, m := w.check(c)
		if r != Sat {
			panic(exitPath{})
		}
		w.setModel(m)
		w.addPC(c)
		return
	}
	r, m := w.check(w.p.Not(c))
	switch r {
	case Sat:
		w.report("assert", msg, known, m)
	case Unsat:
		e.mu.Lock()
		w.h.stat.Discharged++
		e.mu.Unlock()
	default:
		e.mu.Lock()
		w.h.stat.Unknown++
		e.mu.Unlock()
	}
	w.addPC(c)
}

func (w *Worker) caseOf(m map[string]uint64) Case {
	c := Case{Harness: w.h.name, MapOrder: w.mapOrder, Tier: w.eng.tier}
	memo := map[*Term]uint64{}
	for _, in := range w.inputs {
		switch in.Kind {
		case "int":
			c.Inputs = append(c.Inputs, Assign{Name: in.Name, Kind: "int", Int: in.t.Eval(m, memo)})
		case "str":
			n := int(in.s.n.Eval(m, memo))
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(in.s.b[i].Eval(m, memo))
			}
			c.Inputs = append(c.Inputs, Assign{Name: in.Name, Kind: "str", Str: base64.StdEncoding.EncodeToString(b)})
		}
	}
	return c
}

func (w *Worker) report(kind, msg, known string, m map[string]uint64) {
	c := w.caseOf(m)
	c.Kind, c.Msg, c.Known = kind, msg, known
	e := w.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	w.h.stat.Violations++
	n := 0
	for _, x := range e.cands {
		if x.Harness == c.Harness && x.Msg == c.Msg && x.Known == c.Known {
			n++
		}
	}
	if n < 6 {
		e.cands = append(e.cands, c)
	}
	if known == "" {
		if e.fresh++; e.fresh > 400 {
			e.stopped = true
		}
	}
}

func (w *Worker) panicText(v Value) string {
	if i, ok := v.(IfaceV); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(*Str); ok && s.k == SConc {
			return s.s
		}
		return "value of type " + i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

// runItem executes one path.
func (w *Worker) runItem(h *Harness, it Item) {
	w.h = h
	w.resetPath()
	w.prefix = it.prefix
	m0 := make(map[string]uint64, len(it.model)+16)
	for k, v := range it.model {
		m0[k] = v
	}
	w.setModel(m0)
	w.maxSteps = w.eng.maxSteps
	e := w.eng
	outcome := "done"
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case abortPath:
				outcome = "abort"
			case exitPath:
				outcome = "exit"
			case unsupported:
				outcome = "unsupported"
				e.mu.Lock()
				h.stat.Unsupported[r.reason]++
				e.mu.Unlock()
				if e.debug {
					fmt.Fprintln(os.Stderr, "unsupported:", h.name, r.reason, w.stackText())
				}
			case targetPanic:
				outcome = "panic"
				w.report("panic", "panic: "+w.panicText(r.v), "", w.model)
				if e.debug {
					fmt.Fprintln(os.Stderr, "panic:", h.name, w.panicText(r.v), w.stackText())
				}
			default:
				outcome = "unsupported"
				e.mu.Lock()
				h.stat.Unsupported[fmt.Sprintf("engine: %v in %s", r, w.curName())]++
				e.mu.Unlock()
				if e.debug {
					panic(r)
				}
			}
		}()
		w.call(h.fn, nil, nil)
	}()
	e.mu.Lock()
	h.stat.Steps += w.steps
	switch outcome {
	case "abort":
		h.stat.Aborted++
	default:
		h.stat.Paths++
	}
	if len(w.trail) > h.stat.MaxDepth {
		h.stat.MaxDepth = len(w.trail)
	}
	keep := (outcome == "done" || outcome == "unsupported") && len(e.passes[h.name]) < e.passCap
	// keep a spread of paths: the first few and then every k-th
	if keep && h.stat.Paths > 3 && h.stat.Paths%7 != e.seed%7 {
		keep = false
	}
	e.mu.Unlock()
	if keep {
		c := w.caseOf(w.model)
		c.Kind = "pass"
		if outcome != "done" {
			c.Kind = outcome
		}
		e.mu.Lock()
		e.passes[h.name] = append(e.passes[h.name], c)
		e.mu.Unlock()
	}
}

func (w *Worker) curName() string {
	if w.cur == nil {
		return "?"
	}
	return w.cur.info.name
}

func (w *Worker) stackText() string {
	var s []string
	for f := w.cur; f != nil && len(s) < 12; f = f.caller {
		s = append(s, f.info.name)
	}
	return strings.Join(s, " < ")
}

// next picks the next work item, round-robin over harnesses.
func (e *Engine) next() (*Harness, Item, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if time.Now().After(e.deadline) {
			e.stopped = true
		}
		if e.stopped {
			e.cond.Broadcast()
			return nil, Item{}, false
		}
		n := len(e.harnesses)
		for i := 0; i < n; i++ {
			h := e.harnesses[(e.rr+i)%n]
			if len(h.stack) > 0 {
				e.rr = (e.rr + i + 1) % n
				k := len(h.stack) - 1
				if e.rnd++; e.rnd%4 == 0 {
					// now and then another region, so that a stop at the bound leaves no blind side
					e.rng = e.rng*6364136223846793005 + 1442695040888963407
					k = int(e.rng>>33) % len(h.stack)
				}
				it := h.stack[k]
				h.stack[k] = h.stack[len(h.stack)-1]
				h.stack = h.stack[:len(h.stack)-1]
				e.busy++
				return h, it, true
			}
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil, Item{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) run(nw int) error {
	e.cond = sync.NewCond(&e.mu)
	e.rng = uint64(e.seed)
	for _, h := range e.harnesses {
		h.stack = []Item{{}}
		h.stat.Unsupported = map[string]int{}
		h.stat.Narrowed = map[string]int{}
		h.stat.Reached = map[string]int{}
	}
	var wg sync.WaitGroup
	var firstErr error
	go func() {
		time.Sleep(time.Until(e.deadline) + time.Second)
		e.mu.Lock()
		e.stopped = true
		e.cond.Broadcast()
		e.mu.Unlock()
	}()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := e.newWorker()
			if err != nil {
				e.mu.Lock()
				firstErr = err
				e.mu.Unlock()
				return
			}
			defer w.s.Close()
			for {
				h, it, ok := e.next()
				if !ok {
					break
				}
				w.runItem(h, it)
				e.mu.Lock()
				e.busy--
				if h.stat.Paths+h.stat.Aborted > e.maxPaths && len(h.stack) > 0 {
					h.stat.Truncated += len(h.stack)
					h.stack = nil
				}
				e.cond.Broadcast()
				e.mu.Unlock()
			}
			e.mu.Lock()
			defer e.mu.Unlock()
			e.queries += w.s.Queries
			e.unknowns += w.s.Unknowns
			e.stime += w.s.Time
			e.serrs = append(e.serrs, w.s.Errors...)
			for _, fi := range w.fns {
				if fi.repo && fi.steps > 0 {
					e.fnUsed[fi.name] += fi.steps
				}
			}
			for k, n := range w.intrUsed {
				e.intrUsed[k] += n
			}
		}()
	}
	wg.Wait()
	for _, h := range e.harnesses {
		h.stat.Truncated += len(h.stack)
		h.stack = nil
	}
	return firstErr
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func mustJSON(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
