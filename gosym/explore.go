package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// decision kinds
const (
	dBranch = iota
	dSched
	dConc
	dChoose
)

// decision is one recorded nondeterministic step of a path.
type decision struct {
	kind uint8
	k    uint64 // taken alternative / concretised value
	n    int
}

// job is a path prefix to explore.
//
// The prefix is a part of the log of the path that found the job, which only
// grows; last, if any, is the decision after it.
type job struct {
	prefix []decision
	last   *decision
	model  Model
	// for dConc: excluded values so far at the last decision
	excl []uint64
}

func (j *job) len() int {
	if j.last != nil {
		return len(j.prefix) + 1
	}
	return len(j.prefix)
}

func (j *job) at(i int) decision {
	if i < len(j.prefix) {
		return j.prefix[i]
	}
	return *j.last
}

// draw is one nondeterministic input of the harness.
type draw struct {
	Name string
	W    uint8
	v    value
}

type path struct {
	w             *Worker
	id            int
	job           *job
	dec           []decision
	pos           int // index into job.prefix
	pc            []*Term
	varOf         map[*Term][]int // var -> indexes into pc
	model         Model
	memo          map[*Term]uint64
	draws         []draw
	drawCount     map[string]int
	domains       map[*Term]*[4]uint64
	coupled       map[*Term]bool
	undo          []undoEnt
	undoFns       []func()
	threads       []*thread
	spawned       int // goroutines there have been, the main one included
	compactAt     int
	raceMode      bool
	cur           *thread
	multi         bool
	over          bool
	killed        bool
	end           chan struct{}
	endOnce       sync.Once
	killWG        sync.WaitGroup
	now           value
	timers        []*timerV
	timerFires    int
	clockFree     bool
	maxTimerFires int
	preempt       int
	maxPreempt    int
	delay         bool
	nPoints       int
	switches      int
	trace         []schedEv
	sitePos       token.Pos
	shadows       map[*value]*shadow
	mapShadows    map[*hmap]*shadow
	detectRaces   bool
	side          map[any]any // per-path side tables (mutexes, ...)
	err           any         // unsupported / solverError
	viol          *Violation
	markers       []value
	selects       int
	schedN        int
	reached       map[string]bool
	asserts       int
	pruned        bool
	seq           int
	knownTag      string
	deadlockOK    bool
	logs          []string
	mergeStat     map[statKey]*regionStat
	pcSet         map[*Term]bool
	merges        int
	hashes        []hashEnt
	fixedPos      int
}

var debugDec = os.Getenv("GOSYM_DEC") != ""
var debugPC = os.Getenv("GOSYM_PC") != ""

// Violation is a failed assertion with its counterexample.
type Violation struct {
	Harness  string
	Label    string
	Msg      string
	Draws    []DrawVal
	Trace    []string
	Stack    []string
	Known    string
	Threads  int
	Selects  int  // choices among ready cases of a select
	Markers  bool // formatted numbers were abstract
	Decs     int
	preempts int
	prefix   []decision
	model    Model
	Logs     []string
}

// DrawVal is a concrete harness input.
type DrawVal struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    uint64 `json:"v"`
}

// Worker explores paths with its own heap, terms and solver.
type Worker struct {
	E         *Engine
	id        int
	T         *Terms
	S         *Solver
	codes     map[*ssa.Function]*code
	globals   map[*ssa.Global]*value
	funcVals  map[*ssa.Function]*funcV
	inited    map[*ssa.Package]bool
	initDepth int
	tis       map[types.Type]*tinfo
	canonC    map[types.Type]types.Type
	methods   map[mkey]*ssa.Function
	impls     map[implKey]bool
	rtypes    map[types.Type]*rtypeV
	steps     int64
	stepLimit int64
	p         *path
	pathSeq   int
	initTh    *thread
	baseSide  map[any]any
	hitSet    map[*code]bool
	R         *Run
	flows     map[*code]*flow
	noMerge   bool
	few       int // at most this many values while concretising
	uniq      map[string]*value
}

func (w *Worker) epoch() int {
	if w.initDepth > 0 || w.p == nil {
		return 0
	}
	return w.pathSeq
}

func newWorker(e *Engine, id int) *Worker {
	return &Worker{E: e, id: id, T: NewTerms(), S: NewSolver(&e.stats),
		codes: map[*ssa.Function]*code{}, globals: map[*ssa.Global]*value{},
		funcVals: map[*ssa.Function]*funcV{}, inited: map[*ssa.Package]bool{},
		tis: map[types.Type]*tinfo{}, canonC: map[types.Type]types.Type{},
		methods: map[mkey]*ssa.Function{}, impls: map[implKey]bool{}, rtypes: map[types.Type]*rtypeV{},
		baseSide: map[any]any{}, hitSet: map[*code]bool{}, stepLimit: 1 << 62, flows: map[*code]*flow{}, uniq: map[string]*value{}}
}

func (w *Worker) initThread() *thread {
	return &thread{w: w, p: nil, resume: make(chan struct{})}
}

// Run is the exploration of one harness.
type Run struct {
	E           *Engine
	Name        string
	fn          *ssa.Function
	Opt         Options
	mu          sync.Mutex
	cond        *sync.Cond
	stack       []*job
	busy        int
	stop        bool
	paths       int64
	pruned      int64
	steps       int64
	asserts     int64
	switches    int64
	points      int64
	branches    int64
	maxThreads  int64
	viols       []*Violation
	violKeys    map[string]bool
	errs        []string
	reached     map[string]bool
	expected    map[string]bool
	bounds      map[string]int64
	deadline    time.Time
	timedOut    bool
	memOut      atomic.Bool
	samples     []string
	known       map[string]*Violation
	wall        time.Duration
	funcs       map[string]bool
	merges      int64
	nerr        int
	fixed       map[string]uint64 // concrete replay: draw values
	fixedDec    []decision        // concrete replay: schedule and choices
	sampleDraws [][]DrawVal
}

// Options are per-harness bounds.
type Options struct {
	Preempt    int   `json:"preempt"`
	Delay      bool  `json:"delay,omitempty"`
	ClockFree  bool  `json:"clockfree,omitempty"`
	TimerFires int   `json:"timerfires,omitempty"`
	StepLimit  int64 `json:"steplimit,omitempty"`
	MaxPaths   int64 `json:"maxpaths,omitempty"`
	Races      bool  `json:"races,omitempty"`
	NoMerge    bool  `json:"nomerge,omitempty"`
	MaxViol    int   `json:"maxviol,omitempty"`
	Sampled    int   `json:"sampled_numbers,omitempty"` // formatted numbers and dates take this many values
}

func (r *Run) push(j *job) {
	r.mu.Lock()
	r.stack = append(r.stack, j)
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) pop() *job {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if n := len(r.stack); n > 0 {
			j := r.stack[n-1]
			r.stack = r.stack[:n-1]
			r.busy++
			return j
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) doneJob() {
	r.mu.Lock()
	r.busy--
	if r.busy == 0 && len(r.stack) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) halt() {
	r.mu.Lock()
	r.stop = true
	r.cond.Broadcast()
	r.mu.Unlock()
}

// Explore runs the harness to exhaustion of its bounded state space.
func (e *Engine) Explore(name string, fn *ssa.Function, opt Options, workers []*Worker, deadline time.Time) *Run {
	r := &Run{E: e, Name: name, fn: fn, Opt: opt, violKeys: map[string]bool{}, reached: map[string]bool{},
		expected: map[string]bool{}, bounds: map[string]int64{}, deadline: deadline, known: map[string]*Violation{}, funcs: map[string]bool{}}
	r.cond = sync.NewCond(&r.mu)
	defaults(&r.Opt)
	t0 := time.Now()
	r.stack = []*job{{model: Model{}}}
	var wg sync.WaitGroup
	stopWatch := make(chan struct{})
	defer close(stopWatch)
	go r.watchMemory(stopWatch)
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.R = r
			for {
				j := r.pop()
				if j == nil {
					return
				}
				w.runPath(j)
				r.doneJob()
				if time.Now().After(r.deadline) {
					r.mu.Lock()
					if len(r.stack) > 0 || r.busy > 0 {
						r.timedOut = true
					}
					r.mu.Unlock()
					r.halt()
				}
			}
		}(w)
	}
	wg.Wait()
	for _, w := range workers {
		for c := range w.hitSet {
			r.funcs[c.fn.String()] = true
		}
		w.hitSet = map[*code]bool{}
		w.R = nil
	}
	r.wall = time.Since(t0)
	return r
}

// memLimit is the resident memory at which the exploration is given up.
const memLimit = 20 << 30

// watchMemory stops the exploration before it uses all memory.
func (r *Run) watchMemory(done chan struct{}) {
	t := time.NewTicker(250 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		var size, rss int64
		fmt.Sscan(string(b), &size, &rss)
		if rss*int64(os.Getpagesize()) < memLimit {
			continue
		}
		r.memOut.Store(true)
		r.mu.Lock()
		r.timedOut = true
		r.bounds["memory"]++
		r.stack = nil
		r.mu.Unlock()
		r.halt()
		return
	}
}

func defaults(o *Options) {
	if o.TimerFires == 0 {
		o.TimerFires = 40
	}
	if o.StepLimit == 0 {
		o.StepLimit = 3_000_000
	}
	if o.MaxViol == 0 {
		o.MaxViol = 1
	}
}

func (w *Worker) runPath(j *job) {
	r := w.R
	w.pathSeq++
	p := &path{w: w, id: w.pathSeq, job: j, model: j.model, memo: map[*Term]uint64{}, drawCount: map[string]int{},
		domains: map[*Term]*[4]uint64{}, coupled: map[*Term]bool{}, varOf: map[*Term][]int{},
		end: make(chan struct{}), maxPreempt: r.Opt.Preempt, delay: r.Opt.Delay, clockFree: r.Opt.ClockFree,
		shadows: map[*value]*shadow{}, mapShadows: map[*hmap]*shadow{}, side: map[any]any{},
		mergeStat: map[statKey]*regionStat{}, pcSet: map[*Term]bool{}, reached: map[string]bool{}, maxTimerFires: r.Opt.TimerFires, detectRaces: r.Opt.Races, raceMode: r.Opt.Races, spawned: 1}
	if p.model == nil {
		p.model = Model{}
	}
	p.now = int64(946_684_800_000_000_000)
	w.p = p
	w.noMerge = r.Opt.NoMerge
	w.steps = 0
	w.stepLimit = r.Opt.StepLimit
	main := &thread{w: w, p: p, id: 0, name: "main", resume: make(chan struct{})}
	main.run0 = func(th *thread) { th.callCode(w.code(r.fn), nil, nil, nil) }
	main.started = true
	p.threads = []*thread{main}
	p.cur = main
	go main.main()
	<-p.end
	if p.err == nil && r.fixed == nil {
		for _, c := range p.pc {
			if p.eval(c) != 1 {
				p.err = unsupported{"internal: the final model violates the path condition"}
				break
			}
		}
	}
	// kill the remaining threads
	p.killed = true
	for _, t := range p.threads {
		if t.started && !t.done {
			t.resume <- struct{}{}
		}
	}
	p.killWG.Wait()
	// roll back
	for i := len(p.undo) - 1; i >= 0; i-- {
		*p.undo[i].p = p.undo[i].old
	}
	for i := len(p.undoFns) - 1; i >= 0; i-- {
		p.undoFns[i]()
	}
	w.p = nil
	n := atomic.AddInt64(&r.paths, 1)
	if debugDec {
		s := ""
		for _, d := range p.dec {
			s += fmt.Sprintf(" %d:%d/%d", d.kind, d.k, d.n)
		}
		fmt.Fprintln(os.Stderr, "DEC"+s)
	}
	atomic.AddInt64(&r.steps, w.steps)
	atomic.AddInt64(&r.asserts, int64(p.asserts))
	atomic.AddInt64(&r.switches, int64(p.switches))
	atomic.AddInt64(&r.points, int64(p.nPoints))
	atomic.AddInt64(&r.branches, int64(len(p.dec)))
	if p.pruned {
		atomic.AddInt64(&r.pruned, 1)
	}
	r.mu.Lock()
	if int64(p.spawned) > r.maxThreads {
		r.maxThreads = int64(p.spawned)
	}
	for l := range p.reached {
		r.reached[l] = true
	}
	if len(r.samples) < 3 && !p.pruned && p.err == nil {
		r.samples = append(r.samples, p.sample())
		if p.spawned == 1 && len(p.draws) > 0 {
			var ds []DrawVal
			for _, d := range p.draws {
				ds = append(ds, DrawVal{d.Name, d.W, p.drawVal(d)})
			}
			r.sampleDraws = append(r.sampleDraws, ds)
		}
	}
	r.merges += int64(p.merges)
	if p.err != nil {
		msg := describePanic(p.err)
		dup := false
		for _, x := range r.errs {
			dup = dup || firstLine(x) == firstLine(msg)
		}
		if !dup && len(r.errs) < 5 {
			r.errs = append(r.errs, msg)
		}
		r.nerr++
		if r.nerr > 40 {
			r.stop = true
			r.cond.Broadcast()
		}
	}
	if r.Opt.MaxPaths > 0 && n >= r.Opt.MaxPaths {
		r.bounds["paths"] = n
		r.stop = true
		r.timedOut = true
		r.cond.Broadcast()
	}
	r.mu.Unlock()
	p.killAllRefs()
}

func (p *path) killAllRefs() {
	p.threads, p.shadows, p.mapShadows, p.side, p.undo, p.undoFns = nil, nil, nil, nil, nil, nil
}

func (p *path) sample() string {
	var sb strings.Builder
	for i, d := range p.draws {
		if i > 0 {
			sb.WriteString(" ")
		}
		if i >= 24 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%d", d.Name, p.drawVal(d))
	}
	if len(p.trace) > 0 {
		sb.WriteString(" | schedule:")
		for i, e := range p.trace {
			if i >= 24 {
				sb.WriteString("...")
				break
			}
			fmt.Fprintf(&sb, " %d", e.th)
		}
	}
	if sb.Len() == 0 {
		return "(single path)"
	}
	return sb.String()
}

func (p *path) drawVal(d draw) uint64 {
	switch v := d.v.(type) {
	case int64:
		return uint64(v) & maskB(d.W)
	case bool:
		if v {
			return 1
		}
		return 0
	case *Term:
		return Eval(v, p.model, map[*Term]uint64{})
	}
	return 0
}

func (p *path) signalEnd() { p.endOnce.Do(func() { close(p.end) }) }

func (p *path) boundHit(what string) {
	r := p.w.R
	r.mu.Lock()
	r.bounds[what]++
	r.mu.Unlock()
	p.pruned = true
}

func (p *path) threadPanic(th *thread, r any) {
	p.over = true
	switch r := r.(type) {
	case pathEnd:
	case killSentinel:
	case targetPanic:
		func() {
			defer func() {
				if r2 := recover(); r2 != nil {
					p.err = r2
				}
			}()
			p.w.initDepth = 0
			msg := th.panicString(r.v)
			p.violation(th, "panic", "uncaught panic: "+msg, nil)
		}()
	case unsupported, solverError:
		if p.err == nil {
			p.err = r
			if u, ok := r.(unsupported); ok {
				p.err = unsupported{u.msg + th.where()}
			}
		}
	default:
		p.err = unsupported{fmt.Sprintf("internal error: %v%s\n%s", r, th.where(), goStack())}
	}
}

func (th *thread) where() string {
	var sb strings.Builder
	n := 0
	for f := th.fr; f != nil && n < 8; f = f.caller {
		fmt.Fprintf(&sb, "\n    in %s (%s)", f.code.name, posStr(th.w, f.curPos))
		n++
	}
	return sb.String()
}

func (th *thread) stackLines() []string {
	var out []string
	for f := th.fr; f != nil && len(out) < 20; f = f.caller {
		out = append(out, fmt.Sprintf("%s (%s)", f.code.name, posStr(th.w, f.curPos)))
	}
	return out
}

// ---- decisions

func (p *path) next(kind uint8) (decision, bool) {
	if p.pos < p.job.len() {
		d := p.job.at(p.pos)
		p.pos++
		if d.kind != kind {
			panic(unsupported{fmt.Sprintf("nondeterministic replay: decision kind %d, want %d", kind, d.kind)})
		}
		p.dec = append(p.dec, d)
		return d, true
	}
	return decision{}, false
}

func (p *path) inPrefix() bool { return p.pos < p.job.len() }

// assume adds c to the path condition without checking feasibility.
func (p *path) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if p.pcSet[c] {
		return
	}
	p.pcSet[c] = true
	if c.op == OAnd {
		p.addPC(c.args[0])
		p.addPC(c.args[1])
		return
	}
	if c.op == ONot && c.args[0].op == OOr {
		p.addPC(p.w.T.Not(c.args[0].args[0]))
		p.addPC(p.w.T.Not(c.args[0].args[1]))
		return
	}
	i := len(p.pc)
	p.pc = append(p.pc, c)
	vs := c.Vars()
	for _, v := range vs {
		p.varOf[v] = append(p.varOf[v], i)
	}
	if len(vs) == 1 && vs[0].w == 8 {
		ts := c.truthSet()
		d := p.domains[vs[0]]
		if d == nil {
			d = &[4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
		nd := *d
		for k := range nd {
			nd[k] &= ts[k]
		}
		p.domains[vs[0]] = &nd
	} else {
		for _, v := range vs {
			p.coupled[v] = true
		}
	}
}

// slice returns the constraints transitively sharing variables with cs.
func (p *path) slice(cs ...*Term) []*Term {
	seenV := map[*Term]bool{}
	seenC := map[int]bool{}
	var work []*Term
	for _, c := range cs {
		for _, v := range c.Vars() {
			if !seenV[v] {
				seenV[v] = true
				work = append(work, v)
			}
		}
	}
	var idx []int
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range p.varOf[v] {
			if seenC[i] {
				continue
			}
			seenC[i] = true
			idx = append(idx, i)
			for _, u := range p.pc[i].Vars() {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	sort.Ints(idx)
	out := append([]*Term(nil), cs...)
	for _, i := range idx {
		out = append(out, p.pc[i])
	}
	return out
}

// sat decides pc && c; on success the model (merged with the current one) is returned.
func (p *path) sat(c *Term) (bool, Model) {
	if c.isConst() {
		return c.k == 1, p.model
	}
	vs := c.Vars()
	// exact decision over an uncoupled 8-bit variable
	if len(vs) == 1 && vs[0].w == 8 && !p.coupled[vs[0]] {
		ts := c.truthSet()
		d := p.domains[vs[0]]
		for k := 0; k < 4; k++ {
			x := ts[k]
			if d != nil {
				x &= d[k]
			}
			if x != 0 {
				atomic.AddInt64(&p.w.S.st.Domain, 1)
				b := 0
				for x&1 == 0 {
					x >>= 1
					b++
				}
				m := p.model.clone()
				m[vs[0].name] = uint64(k*64 + b)
				return true, m
			}
		}
		atomic.AddInt64(&p.w.S.st.Domain, 1)
		return false, nil
	}
	ok, m := p.w.S.Check(p.slice(c))
	if !ok {
		return false, nil
	}
	nm := p.model.clone()
	for k, v := range m {
		nm[k] = v
	}
	return true, nm
}

func (m Model) clone() Model {
	c := make(Model, len(m)+2)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (p *path) setModel(m Model) {
	p.model = m
	p.memo = map[*Term]uint64{}
}

func (p *path) eval(t *Term) uint64 { return Eval(t, p.model, p.memo) }

func (w *Worker) truth(v value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	if q, ok := v.(poison); ok {
		unsup("branch on poisoned value: %s", q.why)
	}
	return w.branch(v.(*Term))
}

// branch decides a symbolic condition, forking if both outcomes are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	p := w.p
	if p == nil || w.initDepth > 0 {
		unsup("symbolic branch during initialisation")
	}
	if d := w.quick(c); d >= 0 {
		return d == 1
	}
	if p.cur.spec > 0 {
		panic(specAbort{})
	}
	if d, ok := p.next(dBranch); ok {
		if d.n == 1 {
			p.fact(c, d.k == 1)
		} else if d.k == 1 {
			p.addPC(c)
		} else {
			p.addPC(w.T.Not(c))
		}
		return d.k == 1
	}
	cur := p.eval(c) == 1
	atomic.AddInt64(&w.S.st.ModelHit, 1)
	var other *Term
	if cur {
		other = w.T.Not(c)
	} else {
		other = c
	}
	ok, m := p.sat(other)
	if !ok {
		// implied; record so that replays stay aligned
		p.dec = append(p.dec, decision{dBranch, b2u(cur), 1})
		p.fact(c, cur)
		return cur
	}
	alt := &job{prefix: p.dec[:len(p.dec):len(p.dec)], last: &decision{dBranch, b2u(!cur), 2}, model: m}
	if debugPC {
		fmt.Println("FORK", p.dec, b2u(!cur), c.SMT(), "model", m, "cur", p.model)
	}
	w.R.push(alt)
	p.dec = append(p.dec, decision{dBranch, b2u(cur), 2})
	if cur {
		p.addPC(c)
	} else {
		p.addPC(w.T.Not(c))
	}
	return cur
}

// fact records an implied condition, so that it is not decided again.
func (p *path) fact(c *Term, v bool) {
	if !v {
		c = p.w.T.Not(c)
	}
	p.pcSet[c] = true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// assume restricts the path to c.
func (w *Worker) assume(v value) {
	if b, ok := v.(bool); ok {
		if !b {
			w.p.pruned = true
			panic(pathEnd{})
		}
		return
	}
	c := v.(*Term)
	p := w.p
	if p.cur.spec > 0 {
		panic(specAbort{})
	}
	if p.eval(c) != 1 {
		if p.inPrefix() {
			// the job's model satisfies the whole prefix, including this
			panic(unsupported{"internal: prefix model violates an assumption"})
		}
		ok, m := p.sat(c)
		if !ok {
			p.pruned = true
			panic(pathEnd{})
		}
		p.setModel(m)
	}
	p.addPC(c)
}

// concretize forks over all feasible values of t.
func (w *Worker) concretize(t *Term, signed bool) int64 {
	if t.isConst() {
		return termVal(t, signed).(int64)
	}
	p := w.p
	if p == nil || w.initDepth > 0 {
		unsup("symbolic value during initialisation")
	}
	if p.cur.spec > 0 {
		panic(specAbort{})
	}
	mkv := func(k uint64) int64 {
		if signed {
			return sext(k, t.w)
		}
		return int64(k)
	}
	if p.pos < p.job.len() {
		last := p.pos == p.job.len()-1
		d, _ := p.next(dConc)
		if last && p.job.excl != nil {
			// choose a fresh value under exclusions
			k := p.eval(t)
			p.dec[len(p.dec)-1] = decision{dConc, k, 2}
			p.concAlt(t, k, p.job.excl)
			p.addPC(w.T.Eq(t, w.T.BV(k, t.w)))
			return mkv(k)
		}
		p.addPC(w.T.Eq(t, w.T.BV(d.k, t.w)))
		return mkv(d.k)
	}
	k := p.eval(t)
	p.dec = append(p.dec, decision{dConc, k, 2})
	p.concAlt(t, k, nil)
	p.addPC(w.T.Eq(t, w.T.BV(k, t.w)))
	return mkv(k)
}

// fewValues reports whether t has at most n feasible values.
func (w *Worker) fewValues(t *Term, n int) bool {
	p := w.p
	if p == nil || w.initDepth > 0 {
		return false
	}
	c := w.T.tt
	k := p.eval(t)
	for i := 0; ; i++ {
		if i == n {
			return false
		}
		c = w.T.And(c, w.T.Not(w.T.Eq(t, w.T.BV(k, t.w))))
		ok, m := p.sat(c)
		if !ok {
			return true
		}
		k = Eval(t, m, map[*Term]uint64{})
	}
}

// concAlt pushes the remaining values of t (other than k and excl) as a job.
func (p *path) concAlt(t *Term, k uint64, excl []uint64) {
	w := p.w
	ex := append(append([]uint64(nil), excl...), k)
	if w.few > 0 && len(ex) >= w.few {
		return
	}
	if len(ex) > 300 {
		unsup("more than 300 values while concretising")
	}
	var cs []*Term
	for _, e := range ex {
		cs = append(cs, w.T.Not(w.T.Eq(t, w.T.BV(e, t.w))))
	}
	c := w.T.tt
	for _, x := range cs {
		c = w.T.And(c, x)
	}
	ok, m := p.sat(c)
	if !ok {
		return
	}
	w.R.push(&job{prefix: p.dec[:len(p.dec):len(p.dec)], model: m, excl: ex})
}

// concretizeFew forks over at most n values of t.
func (w *Worker) concretizeFew(t *Term, n int) int64 {
	w.few = n
	defer func() { w.few = 0 }()
	return w.concretize(t, true)
}

func (w *Worker) concretizeLen(t *Term, signed bool) int64 { return w.concretize(t, signed) }

// chooseSched makes a scheduling choice among n alternatives: a fresh
// unconstrained symbolic variable, so that every alternative is feasible.
func (p *path) chooseSched(n int) int {
	return p.chooseN(n, dSched)
}

func (p *path) chooseN(n int, kind uint8) int {
	if n <= 1 {
		return 0
	}
	if p.cur != nil && p.cur.spec > 0 {
		panic(specAbort{})
	}
	if r := p.w.R; r.fixed != nil {
		if p.fixedPos < len(r.fixedDec) {
			d := r.fixedDec[p.fixedPos]
			p.fixedPos++
			if d.kind != kind || int(d.k) >= n {
				panic(unsupported{"concrete replay diverged from the recorded schedule"})
			}
			p.dec = append(p.dec, d)
			return int(d.k)
		}
		return 0
	}
	if d, ok := p.next(kind); ok {
		return int(d.k)
	}
	for k := n - 1; k >= 1; k-- {
		p.w.R.push(&job{prefix: p.dec[:len(p.dec):len(p.dec)], last: &decision{kind, uint64(k), n}, model: p.model})
	}
	p.dec = append(p.dec, decision{kind, 0, n})
	return 0
}

// newDraw creates a harness input variable.
func (p *path) newDraw(name string, wd uint8) *Term {
	n := p.drawCount[name]
	p.drawCount[name]++
	full := fmt.Sprintf("%s#%d", name, n)
	if f := p.w.R.fixed; f != nil {
		v := f[full]
		t := p.w.T.BV(v, wd)
		if wd == 0 {
			t = p.w.T.Bool(v&1 == 1)
		}
		p.draws = append(p.draws, draw{full, wd, termVal(t, true)})
		return t
	}
	t := p.w.T.Var(fmt.Sprintf("%s:%d", full, wd), wd)
	p.draws = append(p.draws, draw{full, wd, t})
	return t
}

// ---- assertions

func (p *path) assert(th *thread, c value, label, msg string) {
	p.asserts++
	if b, ok := c.(bool); ok {
		if !b {
			p.violation(th, label, msg, nil)
			panic(pathEnd{})
		}
		return
	}
	t := c.(*Term)
	w := p.w
	neg := w.T.Not(t)
	if p.inPrefix() {
		// already decided when the prefix was first explored
		p.addPC(t)
		if p.eval(t) != 1 {
			panic(unsupported{"internal: prefix model violates an assertion"})
		}
		return
	}
	ok, m := w.S.Check(p.slice(neg))
	if ok {
		nm := p.model.clone()
		for k, v := range m {
			nm[k] = v
		}
		old := p.model
		p.setModel(nm)
		p.violation(th, label, msg, neg)
		p.setModel(old)
		// continue with the assertion assumed
		ok2, m2 := p.sat(t)
		if !ok2 {
			panic(pathEnd{})
		}
		if p.eval(t) != 1 {
			p.setModel(m2)
		}
	}
	p.addPC(t)
}

func (p *path) violation(th *thread, label, msg string, extra *Term) {
	r := p.w.R
	v := &Violation{Harness: r.Name, Label: label, Msg: msg, Threads: p.spawned, Selects: p.selects, Markers: len(p.markers) > 0, Decs: len(p.dec), preempts: p.preempt,
		prefix: append([]decision(nil), p.dec...), model: p.model, Known: p.knownTag}
	for _, d := range p.draws {
		v.Draws = append(v.Draws, DrawVal{d.Name, d.W, p.drawVal(d)})
	}
	if debugPC {
		fmt.Println("prefix", p.job.prefix, p.job.last, "job model", p.job.model)
		fmt.Println("dec", p.dec)
		for i, c := range p.pc {
			fmt.Printf("pc[%d] = %d  %s\n", i, Eval(c, p.model, map[*Term]uint64{}), c.SMT())
		}
		if extra != nil {
			fmt.Printf("neg = %d %s\n", Eval(extra, p.model, map[*Term]uint64{}), extra.SMT())
		}
	}
	for _, e := range p.trace {
		v.Trace = append(v.Trace, fmt.Sprintf("g%d@%s", e.th, posStr(p.w, e.pos)))
	}
	if th != nil {
		v.Stack = th.stackLines()
	}
	v.Logs = append(v.Logs, p.logs...)
	p.viol = v
	r.mu.Lock()
	defer r.mu.Unlock()
	if p.knownTag != "" && r.E.knownTags[p.knownTag] {
		if r.known[p.knownTag] == nil {
			r.known[p.knownTag] = v
		}
		return
	}
	key := label
	if !r.violKeys[key] {
		r.violKeys[key] = true
		r.viols = append(r.viols, v)
		if len(r.viols) >= r.Opt.MaxViol {
			r.stop = true
			r.cond.Broadcast()
		}
	}
}

func (p *path) deadlock() {
	var sb strings.Builder
	for _, t := range p.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&sb, "\n  goroutine %d (%s) blocked: %s", t.id, t.name, t.why)
		for f := t.fr; f != nil; f = f.caller {
			if f.code.user {
				fmt.Fprintf(&sb, " in %s at %s", f.code.fn.Name(), posStr(p.w, f.curPos))
				break
			}
		}
	}
	p.violation(p.threads[0], "deadlock", "all goroutines are blocked forever:"+sb.String(), nil)
}

func (w *Worker) onStepLimit(fr *frame) {
	if w.initDepth > 0 {
		return
	}
	p := w.p
	p.violation(fr.th, "nontermination", fmt.Sprintf("no termination within %d steps in %s", w.stepLimit, fr.code.name), nil)
	panic(pathEnd{})
}

func (w *Worker) onStackOverflow(th *thread) {
	if w.p == nil {
		unsup("stack overflow during initialisation")
	}
	w.p.violation(th, "stack-overflow", "unbounded recursion", nil)
	panic(pathEnd{})
}
