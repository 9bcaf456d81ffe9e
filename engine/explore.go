package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var verbose = os.Getenv("SYM_VERBOSE") != ""

func logf(f string, a ...any) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "geoqlsym: "+f+"\n", a...)
	os.Exit(2)
}

func shortPath(p string) string {
	if i := strings.Index(p, "/repo/"); i >= 0 {
		return p[i+6:]
	}
	return filepath.Base(p)
}

type Candidate struct {
	kind  string
	msg   string
	draws []int64
	at    string
}

type Sample struct {
	draws []int64
	obs   []string
	out   string
}

type Engine struct {
	prog     *ssa.Program
	main     *ssa.Package
	repoPath string
	vms      []*VM
	seed     int64
	tier     int
	cross    string

	// per harness run
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*Item
	active   int
	stop     bool
	rng      *rand.Rand
	deadline time.Time
	maxPaths int64
	paths    int64
	nSteps   int64
	aborted  map[string]int
	reduced  map[string]int
	notes    map[string]int
	covers   map[string]int
	cands    []*Candidate
	candN    map[string]int
	samples  []*Sample
	nSeen    int
	maxSamp  int
	trunc    bool
	nAssert  int64
	nFolded  int64
	nDec     int64
	nAssume  int64
	maxDepth int

	nLocal, nVerdict, nCross, nCrossBad int64
	nAudit, nAuditP, nAuditBad          int64

	trackForks bool
	implMu     sync.Mutex
	covMu      sync.Mutex
	coverage   map[string]*fnCov
}

type fnCov struct {
	total int
	hit   map[int32]bool
}

func (e *Engine) stat(p *int64)           { atomic.AddInt64(p, 1) }
func (e *Engine) statN(p *int64, n int64) { atomic.AddInt64(p, n) }
func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (vm *VM) noteCover(f *Func, b *Block) {
	e := vm.eng
	e.covMu.Lock()
	c := e.coverage[f.name]
	if c == nil {
		c = &fnCov{total: len(f.blocks), hit: map[int32]bool{}}
		e.coverage[f.name] = c
	}
	c.hit[b.idx] = true
	e.covMu.Unlock()
}

func (e *Engine) wantInit(path string) bool {
	if e.main != nil && path == e.main.Pkg.Path() || strings.HasPrefix(path, e.repoPath) || strings.HasPrefix(path, "verif/") {
		return true
	}
	switch path {
	case "errors", "io", "strings", "bytes", "strconv", "internal/strconv", "unicode", "unicode/utf8", "sort", "slices", "math", "math/bits", "time", "bufio", "container/list", "internal/stringslite", "text/scanner", "maps", "cmp", "iter":
		return true
	}
	return false
}

func load(dir string, repoPath string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, main: pkgs[0], repoPath: repoPath, coverage: map[string]*fnCov{}}
	e.cond = sync.NewCond(&e.mu)
	return e, nil
}

func (e *Engine) newVM() *VM {
	vm := &VM{prog: e.prog, eng: e, tm: newTM(), funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*Agg{}, impl: map[implKey]bool{}, maxDep: 90000}
	vm.solver = newSolver("z3", "-in")
	vm.maxStep = 1 << 40
	if p := e.prog.ImportedPackage("errors"); p != nil {
		vm.errStr = p.Type("errorString").Type()
	}
	vm.p = &Path{byVar: map[*Var][]int{}}
	vm.initing = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case abortT:
					e.noteSafe("package initialisation: " + r.reason)
				case *tpanic:
					e.noteSafe("package initialisation panicked: " + r.msg)
				default:
					panic(r)
				}
			}
		}()
		vm.callFn(vm.fn(e.main.Func("init")), nil, nil)
	}()
	vm.initing = false
	vm.depth = 0
	vm.cur = nil
	return vm
}

func (e *Engine) noteSafe(s string) {
	e.mu.Lock()
	if e.notes == nil {
		e.notes = map[string]int{}
	}
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) push(it *Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) pop() *Item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || e.paths >= e.maxPaths || time.Now().After(e.deadline) {
			if len(e.queue) > 0 && !e.stop {
				e.trunc = true
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.queue); n > 0 {
			i := n - 1
			if n > 64 && e.rng.Intn(4) == 0 {
				i = e.rng.Intn(n)
			}
			it := e.queue[i]
			e.queue[i] = e.queue[n-1]
			e.queue[n-1] = nil
			e.queue = e.queue[:n-1]
			e.active++
			e.paths++
			return it
		}
		if e.active == 0 {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Engine) addCandidate(c *Candidate) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := c.kind + ":" + c.msg
	e.candN[k]++
	if c.kind == "unencoded" {
		// a sample of all of them
		if e.candN[k] <= 200 {
			e.cands = append(e.cands, c)
		} else if i := e.rng.Intn(e.candN[k]); i < len(e.cands) && e.cands[i].kind == c.kind {
			e.cands[i] = c
		}
		return
	}
	if e.candN[k] <= 12 {
		e.cands = append(e.cands, c)
	}
}

type Limits struct {
	paths   int64
	time    time.Duration
	steps   int64
	workers int
	samples int
}

// run explores one harness function.
func (e *Engine) run(name string, lim Limits) error {
	f := e.main.Func(name)
	if f == nil {
		return fmt.Errorf("no harness %s", name)
	}
	e.queue = []*Item{{}}
	e.active, e.stop, e.trunc = 0, false, false
	e.rng = rand.New(rand.NewSource(e.seed))
	e.deadline = time.Now().Add(lim.time)
	e.maxPaths = lim.paths
	e.paths, e.nSteps, e.nAssert, e.nFolded, e.nDec, e.nAssume = 0, 0, 0, 0, 0, 0
	e.nLocal, e.nVerdict, e.nCross, e.nCrossBad = 0, 0, 0, 0
	e.nAudit, e.nAuditP, e.nAuditBad = 0, 0, 0
	e.aborted, e.reduced, e.covers = map[string]int{}, map[string]int{}, map[string]int{}
	if e.notes == nil {
		e.notes = map[string]int{}
	}
	e.cands, e.candN, e.samples, e.nSeen = nil, map[string]int{}, nil, 0
	e.maxSamp = lim.samples
	e.maxDepth = 0
	for len(e.vms) < lim.workers {
		e.vms = append(e.vms, nil)
	}
	var wg sync.WaitGroup
	for w := 0; w < lim.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			if e.vms[w] == nil {
				e.vms[w] = e.newVM()
			}
			vm := e.vms[w]
			vm.maxStep = lim.steps
			vm.nAudit, vm.nAuditP = 0, 0
			vm.forkAt = map[string]int{}
			fn := vm.fn(f)
			for {
				it := e.pop()
				if it == nil {
					return
				}
				vm.runPath(fn, it)
				e.done()
			}
		}(w)
	}
	wg.Wait()
	return nil
}

func (vm *VM) runPath(fn *Func, it *Item) {
	e := vm.eng
	if vm.tm.n > 400000 {
		// drop accumulated terms
		vm.tm = newTM()
		vm.solver.stop()
	}
	vm.extra = 0
	p := &Path{prefix: it.prefix, model: append([]uint8(nil), it.model...), byVar: map[*Var][]int{}}
	vm.p = p
	vm.tm.dom = vm.tm.dom[:0]
	vm.epoch = 1
	vm.frz = 0
	vm.writes = nil
	vm.steps = 0
	vm.depth = 0
	vm.cur = nil
	vm.merge = nil
	vm.spec = 0
	vm.mapMode = 0
	vm.pools = nil
	vm.smaps = nil
	vm.reduced = nil
	out := "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case endT:
				out = r.kind
			case abortT:
				out = "abort: " + r.reason
			case *tpanic:
				out = "panic"
				vm.merge, vm.spec = nil, 0
				vm.candidate("panic", r.msg+" at "+r.pos, p.model)
			case specAbort:
				out = "abort: internal: speculation escaped"
			default:
				if verbose {
					panic(r)
				}
				out = fmt.Sprintf("abort: internal: %v at %s", r, vm.whereStack())
			}
		}()
		vm.callFn(fn, nil, nil)
	}()
	if out != "assume" && !strings.HasPrefix(out, "abort") {
		vm.merge, vm.spec = nil, 0
		vm.flush()
		vm.auditPath()
	}
	if strings.HasPrefix(out, "abort: step limit") || strings.HasPrefix(out, "abort: depth limit") {
		vm.candidate("hang", strings.TrimPrefix(out, "abort: "), p.model)
	}
	if strings.HasPrefix(out, "abort: unsupported") || strings.HasPrefix(out, "abort: internal") {
		// code beyond the executor: at least the inputs that lead there run natively
		vm.candidate("unencoded", strings.TrimPrefix(out, "abort: "), p.model)
	}
	if len(p.prefix) > len(p.taken) && !strings.HasPrefix(out, "abort") {
		out = "abort: internal: replay diverged"
	}
	vm.rollback()
	var s *Sample
	e.mu.Lock()
	e.nSeen++
	take := false
	slot := -1
	if out == "ok" || out == "panic" {
		if len(e.samples) < e.maxSamp {
			take = true
		} else if k := e.rng.Intn(e.nSeen); k < len(e.samples) {
			take, slot = true, k
		}
	}
	e.nSteps += vm.steps
	e.nAssert += int64(p.asserts)
	e.nFolded += int64(p.folded)
	e.nDec += int64(len(p.taken) - len(p.prefix))
	if len(p.taken) > e.maxDepth {
		e.maxDepth = len(p.taken)
	}
	if strings.HasPrefix(out, "abort") {
		e.aborted[strings.TrimPrefix(out, "abort: ")]++
	}
	if out == "assume" {
		e.nAssume++
	}
	for _, c := range p.covers {
		e.covers[c]++
	}
	for k, n := range vm.reduced {
		e.reduced[k] += n
	}
	e.mu.Unlock()
	if take {
		s = &Sample{draws: vm.drawsUnder(p.model), out: out}
		for _, o := range p.obs {
			s.obs = append(s.obs, vm.showStr(o))
		}
		e.mu.Lock()
		if slot >= 0 {
			e.samples[slot] = s
		} else {
			e.samples = append(e.samples, s)
		}
		e.mu.Unlock()
	}
}

func (vm *VM) crossCheck(vars []*Var, cs []*Term, r Res) {
	if vm.cross == nil {
		vm.cross = newSolver("cvc5", "--incremental", "--lang=smt2", "--produce-models", "--tlimit-per=20000")
	}
	r2 := vm.cross.check(vm.tm, vars, vm.tm.dom, cs, nil)
	vm.eng.stat(&vm.eng.nCross)
	if r2 != UNKNOWN && r != UNKNOWN && r2 != r {
		vm.eng.stat(&vm.eng.nCrossBad)
		vm.eng.note("z3 and cvc5 disagree")
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = types.Typ
