package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRepo    = flag.String("repo", "/repo", "code under test")
	fVerif   = flag.String("verif", "/verif", "this framework")
	fOnly    = flag.String("harness", "", "only harnesses matching")
	fDebug   = flag.Bool("debug", false, "trace")
	fTime    = flag.Int("time", 0, "seconds of exploration")
	fJobs    = flag.Int("j", 0, "workers")
	fReplay  = flag.String("replay", "", "replay a saved counterexample")
	fList    = flag.Bool("list", false, "list harnesses")
	fVerbose = flag.Bool("v", false, "verbose")
)

func die(f string, a ...interface{}) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

// overlay: the harness packages appear inside the module under test.
func overlay(tmp string) map[string]string {
	root := filepath.Join(*fVerif, "harness")
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			m[filepath.Join(*fRepo, "v0/zzverif", rel)] = p
		}
		return nil
	})
	// registry of the harnesses for the native build
	re := regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)
	var names []string
	for _, p := range m {
		if filepath.Base(filepath.Dir(p)) != "h" {
			continue
		}
		b, _ := ioutil.ReadFile(p)
		for _, g := range re.FindAllStringSubmatch(string(b), -1) {
			names = append(names, g[1])
		}
	}
	sort.Strings(names)
	var b strings.Builder
	b.WriteString("package h\n\n// Registry of the harnesses (generated).\nvar Registry = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t%q: %s,\n", n, n)
	}
	b.WriteString("}\n")
	reg := filepath.Join(tmp, "zz_registry.go")
	ioutil.WriteFile(reg, []byte(b.String()), 0644)
	m[filepath.Join(*fRepo, "v0/zzverif/h/zz_registry.go")] = reg
	return m
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

func copyFile(from, to string) {
	b, err := ioutil.ReadFile(from)
	if err == nil {
		ioutil.WriteFile(to, b, 0644)
	}
}

func isStd(path string) bool { return !strings.Contains(strings.Split(path, "/")[0], ".") }

var stdInit = map[string]bool{"io": true, "strconv": true, "bytes": true, "bufio": true, "strings": true, "math": true,
	"sort": true, "unicode/utf8": true, "io/ioutil": true, "encoding/base64": true}

// build loads the current source and makes the engine for one property.
func build(tmp string, ov map[string]string) *Engine {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *fRepo, Env: goEnv(), Overlay: map[string][]byte{},
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")}}
	for p, f := range ov {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		cfg.Overlay[p] = b
	}
	pkgs, err := packages.Load(cfg, modPath+"/h", modPath+"/model", modPath+"/sym")
	if err != nil {
		die("loading: %v", err)
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Println("load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		die("the source does not load (%d errors)", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, models: map[string]*ssa.Function{}, passes: map[string][]Case{}, fnUsed: map[string]int64{}, intrUsed: map[string]int{},
		initErrs: map[string]int{}, known: map[string]bool{}}
	find := func(path string) *ssa.Package {
		p := prog.ImportedPackage(path)
		if p == nil {
			die("package %s not loaded", path)
		}
		return p
	}
	for n, m := range find(modPath + "/model").Members {
		if f, ok := m.(*ssa.Function); ok {
			e.models[n] = f
		}
	}
	e.rtErrType = find(modPath + "/sym").Type("RuntimeError").Type()
	e.errorsNew = find("errors").Func("New")
	e.rtypeType = types.NewPointer(find("reflect").Type("rtype").Type())
	done := map[*packages.Package]bool{}
	var topo func(p *packages.Package)
	topo = func(p *packages.Package) {
		if done[p] {
			return
		}
		done[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			topo(p.Imports[k])
		}
		ok := stdInit[p.PkgPath]
		if !isStd(p.PkgPath) {
			ok = !strings.Contains(p.PkgPath, "sirupsen") && !strings.Contains(p.PkgPath, "golang.org/x/sys")
		}
		if sp := prog.Package(p.Types); ok && sp != nil {
			e.initPkgs = append(e.initPkgs, sp)
		}
	}
	for _, p := range pkgs {
		topo(p)
	}
	var names []string
	hp := find(modPath + "/h")
	for n, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, *fProp+"_") && f.Signature.Params().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if *fOnly != "" {
			if ok, _ := regexp.MatchString(*fOnly, n); !ok {
				continue
			}
		}
		e.harnesses = append(e.harnesses, &Harness{name: n, fn: hp.Func(n)})
	}
	return e
}

func buildNative(tmp string, ov map[string]string) (string, error) {
	j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(tmp, "overlay.json")
	ioutil.WriteFile(ovf, j, 0644)
	bin := filepath.Join(tmp, "replay")
	// its own copy: the two builds must not write the same file
	mf := filepath.Join(tmp, "native.mod")
	copyFile(filepath.Join(*fRepo, "go.mod"), mf)
	copyFile(filepath.Join(*fRepo, "go.sum"), filepath.Join(tmp, "native.sum"))
	c := exec.Command("go", "build", "-overlay", ovf, "-modfile="+mf, "-o", bin, modPath+"/replay")
	c.Dir = *fRepo
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

// ---------- native execution ----------

type natCase struct {
	Case
	Repeat int `json:"repeat,omitempty"`
}

type natResult struct {
	I      int    `json:"i"`
	Result string `json:"result"`
	Msg    string `json:"msg"`
	Class  string `json:"class"`
	Stack  string `json:"stack"`
}

// runNative executes the cases, restarting after a crash or a hang.
func runNative(bin, tmp string, cases []natCase, per time.Duration) []natResult {
	res := make([]natResult, len(cases))
	f, err := ioutil.TempFile(tmp, "cases*.json")
	if err != nil {
		die("%v", err)
	}
	b, _ := json.Marshal(cases)
	f.Write(b)
	f.Close()
	start := 0
	for start < len(cases) {
		r, w, err := os.Pipe()
		if err != nil {
			die("%v", err)
		}
		c := exec.Command(bin, f.Name(), fmt.Sprint(start))
		c.ExtraFiles = []*os.File{w}
		c.Dir = tmp
		c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + tmp, "GOMEMLIMIT=2GiB"}
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var errb strings.Builder
		c.Stderr = &limited{b: &errb, n: 4000}
		if err := c.Start(); err != nil {
			die("native build does not start: %v", err)
		}
		w.Close()
		lines := make(chan string)
		go func() {
			s := bufio.NewScanner(r)
			s.Buffer(make([]byte, 1<<20), 1<<24)
			for s.Scan() {
				lines <- s.Text()
			}
			close(lines)
			r.Close()
		}()
		cur, how := start, ""
	loop:
		for {
			select {
			case l, ok := <-lines:
				if !ok {
					break loop
				}
				if strings.HasPrefix(l, "S ") {
					fmt.Sscan(l[2:], &cur)
				} else if strings.HasPrefix(l, "R ") {
					var x natResult
					json.Unmarshal([]byte(l[2:]), &x)
					res[x.I] = x
					cur = x.I + 1
				}
			case <-time.After(per):
				how = "hang"
				c.Process.Kill()
				for range lines {
				}
				break loop
			}
		}
		err = c.Wait()
		if cur >= len(cases) {
			break
		}
		if how == "" {
			how = "crash"
		}
		msg := how
		if how == "crash" {
			t := strings.Split(errb.String(), "\n")
			msg = "crash: " + fmt.Sprint(err) + ": " + t[0]
			for _, l := range t {
				if strings.HasPrefix(l, "fatal error") || strings.Contains(l, "goroutine stack exceeds") {
					msg = "crash: " + l
				}
			}
		}
		res[cur] = natResult{I: cur, Result: how, Msg: msg}
		start = cur + 1
	}
	return res
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

// parNative spreads the cases over processes.
func parNative(bin, tmp string, cases []natCase, per time.Duration, jobs int) []natResult {
	res := make([]natResult, len(cases))
	var wg sync.WaitGroup
	n := (len(cases) + jobs - 1) / jobs
	if n < 1 {
		n = 1
	}
	for i := 0; i < len(cases); i += n {
		j := i + n
		if j > len(cases) {
			j = len(cases)
		}
		wg.Add(1)
		go func(i, j int) {
			defer wg.Done()
			for k, r := range runNative(bin, tmp, cases[i:j], per) {
				r.I = i + k
				res[i+k] = r
			}
		}(i, j)
	}
	wg.Wait()
	return res
}

func bad(r natResult) bool {
	switch r.Result {
	case "fail", "panic", "crash", "hang":
		return true
	}
	return false
}

// ---------- known findings ----------

type finding struct{ prop, class, text string }

// lines: "known: property=<id> class=<class> <what fails>" and
// "fixed: property=<id> <commit> <what failed>" (the latter suppress nothing).
func readFindings() []finding {
	b, err := ioutil.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) (.*)$`)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

func main() {
	flag.Parse()
	t0 := time.Now()
	tier := 0
	if *fTier == "thorough" {
		tier = 1
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tmp, err := ioutil.TempDir("", "verif-"+*fProp+"-")
	if err != nil {
		die("%v", err)
	}
	code := 2
	defer func() {
		os.RemoveAll(tmp)
		os.Exit(code)
	}()
	copyFile(filepath.Join(*fRepo, "go.mod"), filepath.Join(tmp, "go.mod"))
	copyFile(filepath.Join(*fRepo, "go.sum"), filepath.Join(tmp, "go.sum"))
	ov := overlay(tmp)
	if *fReplay != "" {
		code = replayOne(tmp, ov)
		return
	}
	type nb struct {
		bin string
		err error
	}
	nat := make(chan nb, 1)
	go func() {
		b, err := buildNative(tmp, ov)
		nat <- nb{b, err}
	}()
	e := build(tmp, ov)
	if *fList {
		for _, h := range e.harnesses {
			fmt.Println(h.name)
		}
		code = 0
		return
	}
	if len(e.harnesses) == 0 {
		die("no harness for %q", *fProp)
	}
	tLoad := time.Since(t0)
	e.tier = tier
	e.seed = seed
	e.debug = *fDebug
	e.maxSteps = 3000000
	e.maxPaths = 60000
	e.passCap = 40
	limit := 200
	if tier == 1 {
		limit = 600
		e.maxPaths = 2000000
		e.maxSteps = 20000000
		e.passCap = 150
	}
	if *fTime > 0 {
		limit = *fTime
	}
	e.deadline = time.Now().Add(time.Duration(limit) * time.Second)
	jobs := *fJobs
	if jobs == 0 {
		jobs = runtime.NumCPU()
		if jobs > 8 {
			jobs = 8
		}
	}
	t1 := time.Now()
	if err := e.run(jobs); err != nil {
		die("%v", err)
	}
	tRun := time.Since(t1)
	n := <-nat
	if n.err != nil {
		die("native build: %v", n.err)
	}
	code = report(e, n.bin, tmp, t0, tLoad, tRun, jobs)
}

func replayOne(tmp string, ov map[string]string) int {
	b, err := ioutil.ReadFile(*fReplay)
	if err != nil {
		die("%v", err)
	}
	var c natCase
	if err := json.Unmarshal(b, &c); err != nil {
		die("%v", err)
	}
	bin, err := buildNative(tmp, ov)
	if err != nil {
		die("%v", err)
	}
	r := runNative(bin, tmp, []natCase{c}, 60*time.Second)[0]
	fmt.Println(r.Result, r.Msg)
	if r.Stack != "" {
		fmt.Println(r.Stack)
	}
	if bad(r) {
		return 1
	}
	return 0
}

func report(e *Engine, bin, tmp string, t0 time.Time, tLoad, tRun time.Duration, jobs int) int {
	prop := *fProp
	known := map[string]finding{}
	for _, f := range readFindings() {
		if f.prop == prop {
			known[f.class] = f
		}
	}
	rdir := filepath.Join(*fVerif, "evidence", "replay", prop)
	os.RemoveAll(rdir)
	os.MkdirAll(rdir, 0755)

	// 1. counterexamples: each must reproduce against the real build
	type viol struct {
		c     natCase
		r     natResult
		class string
	}
	var viols []viol
	var incon []string
	var cands []natCase
	for _, c := range e.cands {
		x := natCase{Case: c}
		if c.MapOrder {
			x.Repeat = 200
		}
		cands = append(cands, x)
	}
	for i, r := range parNative(bin, tmp, cands, 30*time.Second, jobs) {
		if bad(r) {
			cl := r.Class
			if r.Result != "fail" {
				cl = cands[i].Known
			}
			viols = append(viols, viol{cands[i], r, cl})
		} else {
			incon = append(incon, fmt.Sprintf("%s: %q does not reproduce natively (%s %s)", cands[i].Harness, cands[i].Msg, r.Result, r.Msg))
			if *fVerbose {
				fmt.Println(mustJSON(cands[i]))
			}
		}
	}
	// 2. models of paths that were decided (or given up): run against the real build
	var ps []natCase
	var hs []string
	for h := range e.passes {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		for _, c := range e.passes[h] {
			ps = append(ps, natCase{Case: c})
		}
	}
	validated, skipped := 0, map[string]int{}
	for i, r := range parNative(bin, tmp, ps, 30*time.Second, jobs) {
		switch {
		case bad(r):
			// once more, alone
			r2 := runNative(bin, tmp, ps[i:i+1], 60*time.Second)[0]
			if bad(r2) {
				viols = append(viols, viol{ps[i], r2, r2.Class})
				if ps[i].Kind == "pass" {
					incon = append(incon, fmt.Sprintf("%s: the encoding holds on a path where the real build fails: %s", ps[i].Harness, r2.Msg))
				}
			}
		case r.Result == "ok" && ps[i].Kind == "pass":
			validated++
		case r.Result == "skip":
			skipped[ps[i].Harness+": "+r.Msg]++
			if *fVerbose {
				fmt.Println("skip:", mustJSON(ps[i]), r.Msg)
			}
		}
	}
	// 3. verdict
	nviol := 0
	seenKnown := map[string]bool{}
	seen := map[string]bool{}
	var lines []string
	for _, v := range viols {
		if v.class != "" {
			if f, ok := known[v.class]; ok {
				if !seenKnown[v.class] {
					seenKnown[v.class] = true
					fmt.Printf("KNOWN-FINDING: property=%s class=%s %s\n", prop, f.class, f.text)
				}
				continue
			}
		}
		key := v.c.Harness + "|" + v.r.Msg
		if seen[key] {
			continue
		}
		seen[key] = true
		nviol++
		path := filepath.Join(rdir, fmt.Sprintf("%d.json", nviol))
		v.c.Msg = v.r.Msg
		b, _ := json.MarshalIndent(v.c, "", " ")
		ioutil.WriteFile(path, b, 0644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
		fmt.Printf("%s %s: %s\n", v.c.Harness, v.r.Result, v.r.Msg)
		if *fVerbose {
			fmt.Println(v.r.Stack)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}

	// 4. evidence
	tot := HStat{Unsupported: map[string]int{}, Narrowed: map[string]int{}}
	per := map[string]interface{}{}
	var vac, trunc []string
	for _, h := range e.harnesses {
		s := &h.stat
		tot.Paths += s.Paths
		tot.Aborted += s.Aborted
		tot.Asserts += s.Asserts
		tot.Discharged += s.Discharged
		tot.Solver += s.Solver
		tot.Unknown += s.Unknown
		tot.Decisions += s.Decisions
		tot.Truncated += s.Truncated
		tot.Steps += s.Steps
		for k, n := range s.Unsupported {
			tot.Unsupported[h.name+": "+k] += n
		}
		for k, n := range s.Narrowed {
			tot.Narrowed[h.name+": "+k] += n
		}
		if s.Asserts == 0 {
			vac = append(vac, h.name)
		}
		if s.Truncated > 0 {
			trunc = append(trunc, fmt.Sprintf("%s (%d open branches)", h.name, s.Truncated))
		}
		per[h.name] = map[string]int{"paths": s.Paths, "infeasible": s.Aborted, "assertions": s.Asserts, "discharged": s.Discharged,
			"solver_assertions": s.Solver, "truncated": s.Truncated, "violations": s.Violations, "depth": s.MaxDepth}
	}
	var fns []string
	for f := range e.fnUsed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []interface{}
	for _, c := range ps {
		if len(samples) < 4 && (len(samples) == 0 || samples[len(samples)-1].(Case).Harness != c.Harness) {
			samples = append(samples, c.Case)
		}
	}
	var ins []string
	for k := range e.intrUsed {
		ins = append(ins, k)
	}
	sort.Strings(ins)
	bounds := boundsText(prop)
	cov := map[string]interface{}{
		"states":                        tot.Paths,
		"transitions":                   tot.Decisions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"rule":                          "states: feasible paths of the harnesses over the real code's SSA; transitions: branch decisions taken symbolically; every path decides its assertions for all input values that follow it",
		"exhaustive":                    len(trunc) == 0 && tot.Unknown == 0 && len(tot.Unsupported) == 0 && len(tot.Narrowed) == 0,
		"assertions_executed":           tot.Asserts,
		"assertions_discharged":         tot.Discharged,
		"assertions_needing_solver":     tot.Solver,
		"solver_queries":                e.queries,
		"solver_unknown":                e.unknowns + tot.Unknown,
		"solver_time_s":                 e.stime.Seconds(),
		"ssa_instructions_executed":     tot.Steps,
		"functions_encoded":             fns,
		"functions_encoded_count":       len(fns),
		"replaced_or_native":            ins,
		"harnesses":                     per,
		"bounds":                        bounds,
		"unsupported_paths":             tot.Unsupported,
		"narrowed":                      tot.Narrowed,
		"truncated":                     trunc,
		"vacuous":                       vac,
		"inconclusive":                  incon,
		"native_skips":                  skipped,
		"init_errors":                   e.initErrs,
		"solver_errors":                 len(e.serrs),
	}
	ev := map[string]interface{}{"property": prop, "tier": *fTier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(*fVerif, "evidence", prop+".json"), b, 0644)

	fmt.Printf("%s %s: %d harnesses, %d paths (+%d infeasible), %d assertions (%d discharged), %d queries (%.1fs), %d unknown, %d functions, %d traces validated; load %.1fs run %.1fs total %.1fs\n",
		prop, *fTier, len(e.harnesses), tot.Paths, tot.Aborted, tot.Asserts, tot.Discharged, e.queries, e.stime.Seconds(), e.unknowns+tot.Unknown, len(fns), validated,
		tLoad.Seconds(), tRun.Seconds(), time.Since(t0).Seconds())
	pr := func(what string, m map[string]int) {
		for _, k := range sortedKeys(m) {
			fmt.Printf("  %s: %s (%d)\n", what, k, m[k])
		}
	}
	pr("unsupported", tot.Unsupported)
	pr("narrowed", tot.Narrowed)
	pr("skipped natively", skipped)
	pr("init", e.initErrs)
	for _, s := range trunc {
		fmt.Println("  bound reached:", s)
	}
	for _, s := range vac {
		fmt.Println("  no assertion executed:", s)
	}
	for _, s := range incon {
		fmt.Println("  INCONCLUSIVE:", s)
	}
	for i, s := range e.serrs {
		if i < 3 {
			fmt.Println("  solver:", s)
		}
	}
	if e.debug {
		type fc struct {
			s string
			n int
		}
		var fs []fc
		for k, n := range e.forks {
			fs = append(fs, fc{k, n})
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].n > fs[j].n })
		for i, f := range fs {
			if i < 25 {
				fmt.Printf("%7d %s\n", f.n, f.s)
			}
		}
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"the text layer below the code under test (YAML scanner/emitter of gopkg.in/yaml.v3, encoding/json's encoder) is replaced by a tree-level model; every reported violation and a sample of the passing paths are replayed with the real text layer",
	"the SSA interpreter's semantics of Go and its models of strings, reflect, fmt, strconv; validated by the same replays",
	"z3 4.8.12",
}

// boundsText: the comment block "BOUNDS:" of the property's harness file.
func boundsText(prop string) string {
	fs, _ := filepath.Glob(filepath.Join(*fVerif, "harness", "h", "*.go"))
	for _, f := range fs {
		b, _ := ioutil.ReadFile(f)
		i := strings.Index(string(b), "BOUNDS "+prop+":")
		if i < 0 {
			continue
		}
		var out []string
		for _, l := range strings.Split(string(b)[i:], "\n") {
			if len(out) > 0 && !strings.HasPrefix(l, "//") {
				break
			}
			out = append(out, strings.TrimSpace(strings.TrimPrefix(l, "//")))
		}
		return strings.Join(out, " ")
	}
	return ""
}
