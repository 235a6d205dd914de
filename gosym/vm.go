package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type instrFn func(fr *frame)

type edge struct{ dst, src []int }

type block struct {
	instrs []instrFn
	term   func(fr *frame) int // successor index or -1 (return)
	succs  []int
	edges  []edge
	pure   bool // no side effects, no calls with effects (decided dynamically)
}

type code struct {
	fn       *ssa.Function
	name     string
	pkg      string
	tmpl     []value // slot template: params.., freevars.., consts, zeros
	nparams  int
	nfree    int
	blocks   []*block
	hasDefer bool
	recover  int
	tracked  bool // memory accesses are race-checked
	user     bool // repo or harness function: sync calls are scheduling points
	slots    map[ssa.Value]int
	fast     *fastPath
	mark     func(th *thread, a []value) (value, bool)
	resultT  []*tinfo
	intrin   *intrinsic
	redirect *ssa.Function
	hits     int64
	lenient  bool
}

type deferred struct {
	fn   value // *funcV or builtin thunk
	args []value
	run  func()
	next *deferred
}

type frame struct {
	th        *thread
	code      *code
	s         []value
	block     int
	prev      int
	caller    *frame
	defers    *deferred
	panicking bool
	panicv    value
	done      bool
	result    value
	base      int
	curPos    token.Pos
	spec      bool
}

type targetPanic struct{ v value }
type killSentinel struct{}
type pathEnd struct{}

func (w *Worker) code(fn *ssa.Function) *code {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	c := &code{fn: fn, name: fnName(fn)}
	w.codes[fn] = c
	w.compile(c)
	return c
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return obj.Pkg().Path()
		}
	}
	return ""
}

var untrackedPkgs = map[string]bool{
	"sync": true, "sync/atomic": true, "runtime": true, "time": true, "context": true,
	"internal/race": true, "internal/sync": true, "unsafe": true,
	"golang.org/x/sync/errgroup": true, "golang.org/x/sync/semaphore": true,
}

func (w *Worker) compile(c *code) {
	fn := c.fn
	c.pkg = fnPkg(fn)
	if r, ok := w.E.redirects[c.name]; ok && r != fn {
		c.redirect = r
		return
	}
	if in, ok := intrinsics[c.name]; ok {
		c.intrin = in
		return
	}
	if in := intrinsicFor(fn, c); in != nil {
		c.intrin = in
		return
	}
	w.E.buildPkgOf(fn)
	if fn.Blocks == nil {
		nm := c.name
		c.intrin = &intrinsic{f: func(th *thread, fr *frame, args []value) value {
			return unsup("call of external function %s", nm)
		}}
		return
	}
	c.user = w.E.isUser(c.pkg)
	c.fast = fastPaths[c.name]
	c.mark = marks[c.name]
	c.tracked = !untrackedPkgs[c.pkg] && !strings.HasPrefix(c.pkg, repoMod+"/internal/zz") && !strings.HasPrefix(c.pkg, "internal/")
	if c.tracked && w.E.isHarnessFn(fn) {
		c.tracked = false
	}
	cp := &compiler{w: w, c: c, slot: map[ssa.Value]int{}}
	cp.run()
}

type compiler struct {
	w    *Worker
	c    *code
	slot map[ssa.Value]int
}

func (cp *compiler) newSlot(v value) int {
	cp.c.tmpl = append(cp.c.tmpl, v)
	return len(cp.c.tmpl) - 1
}

// reg returns the slot of v, materialising constants.
func (cp *compiler) reg(v ssa.Value) int {
	if s, ok := cp.slot[v]; ok {
		return s
	}
	var x value
	switch v := v.(type) {
	case *ssa.Const:
		x = cp.w.constVal(v)
		// Constants are not canonical objects; do not memoise by identity only.
	case *ssa.Global:
		x = cp.w.global(v)
	case *ssa.Function:
		x = &funcV{fn: v}
		if f, ok := cp.w.funcVals[v]; ok {
			x = f
		} else {
			cp.w.funcVals[v] = x.(*funcV)
		}
	case *ssa.Builtin:
		x = v
	}
	s := cp.newSlot(x)
	cp.slot[v] = s
	return s
}

func (w *Worker) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return w.ti(c.Type()).zero()
	}
	t := w.ti(c.Type())
	switch t.k {
	case kBool:
		return constant.BoolVal(c.Value)
	case kInt:
		if t.signed {
			return norm(c.Int64(), t.w, true)
		}
		return norm(int64(c.Uint64()), t.w, false)
	case kFloat:
		if t.w == 32 {
			return float32(c.Float64())
		}
		return c.Float64()
	case kComplex:
		return c.Complex128()
	case kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case kUnsafe:
		return (*value)(nil)
	}
	panic(fmt.Sprintf("constVal %v %v", c, c.Type()))
}

func (w *Worker) global(g *ssa.Global) *value {
	if p, ok := w.globals[g]; ok {
		w.initPkg(g.Pkg)
		return p
	}
	p := new(value)
	*p = w.ti(g.Type().Underlying().(*types.Pointer).Elem()).zero()
	w.globals[g] = p
	if g.Pkg != nil && w.E.skipInit(g.Pkg.Pkg.Path()) && w.E.initialised(g) {
		*p = poison{"the initialiser of " + g.String() + " is not executed"}
	}
	w.initPkg(g.Pkg)
	return p
}

// initPkg runs a package's initialiser leniently, once, without its imports.
func (w *Worker) initPkg(pkg *ssa.Package) {
	if pkg == nil || w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	if w.E.skipInit(pkg.Pkg.Path()) {
		return
	}
	pkg.Build()
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	w.initDepth++
	defer func() { w.initDepth-- }()
	c := &code{fn: fn, name: fn.String(), lenient: true, pkg: pkg.Pkg.Path()}
	cp := &compiler{w: w, c: c, slot: map[ssa.Value]int{}}
	cp.run()
	th := w.initThread()
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.E.note("init of %s incomplete: %v", pkg.Pkg.Path(), describePanic(r))
			}
		}()
		th.callCode(c, nil, nil, nil)
	}()
}

func describePanic(r any) string {
	switch r := r.(type) {
	case unsupported:
		return "unsupported: " + r.msg
	case targetPanic:
		return fmt.Sprintf("target panic %v", r.v)
	}
	return fmt.Sprint(r)
}

func (cp *compiler) run() {
	c := cp.c
	fn := c.fn
	for _, p := range fn.Params {
		cp.slot[p] = cp.newSlot(nil)
	}
	c.nparams = len(fn.Params)
	for _, f := range fn.FreeVars {
		cp.slot[f] = cp.newSlot(nil)
	}
	c.nfree = len(fn.FreeVars)
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.resultT = append(c.resultT, cp.w.ti(res.At(i).Type()))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cp.slot[v] = cp.newSlot(nil)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.recover = -1
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	c.blocks = make([]*block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		c.blocks[i] = cp.block(b)
	}
	c.slots = cp.slot
}

func (cp *compiler) block(b *ssa.BasicBlock) *block {
	blk := &block{}
	for _, s := range b.Succs {
		blk.succs = append(blk.succs, s.Index)
	}
	for si, s := range b.Succs {
		// index of this edge among s.Preds (b may appear twice)
		k := -1
		seen := 0
		want := 0
		for _, x := range b.Succs[:si] {
			if x == s {
				want++
			}
		}
		for j, p := range s.Preds {
			if p == b {
				if seen == want {
					k = j
					break
				}
				seen++
			}
		}
		var e edge
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.dst = append(e.dst, cp.slot[phi])
			e.src = append(e.src, cp.reg(phi.Edges[k]))
		}
		blk.edges = append(blk.edges, e)
	}
	blk.pure = true
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers, *ssa.MakeChan, *ssa.Next, *ssa.Range, *ssa.Panic:
			blk.pure = false
		}
		switch in := in.(type) {
		case *ssa.If:
			x := cp.reg(in.Cond)
			bi := b.Index
			blk.term = func(fr *frame) int {
				v := fr.s[x]
				if bv, ok := v.(bool); ok {
					if bv {
						return 0
					}
					return 1
				}
				return fr.symIf(bi, v)
			}
		case *ssa.Jump:
			blk.term = func(fr *frame) int { return 0 }
		case *ssa.Return:
			blk.term = cp.ret(in)
		case *ssa.Panic:
			x := cp.reg(in.X)
			pos := in.Pos()
			blk.term = func(fr *frame) int {
				fr.curPos = pos
				panic(targetPanic{fr.s[x]})
			}
		default:
			f := cp.instr(in)
			if f == nil {
				continue
			}
			if cp.c.lenient {
				f = cp.lenientWrap(in, f)
			}
			blk.instrs = append(blk.instrs, f)
		}
	}
	if blk.term == nil {
		blk.term = func(fr *frame) int { panic("block without terminator") }
	}
	return blk
}

func (cp *compiler) lenientWrap(in ssa.Instruction, f instrFn) instrFn {
	w := cp.w
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cp.slot[v]
	}
	// Skip initialisers of imported packages: they run lazily.
	if call, ok := in.(*ssa.Call); ok {
		if fn := call.Call.StaticCallee(); fn != nil && fn.Name() == "init" && fn.Pkg != cp.c.fn.Pkg && fn.Signature.Recv() == nil {
			return func(fr *frame) {}
		}
	}
	return func(fr *frame) {
		depth := len(fr.th.stk)
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case unsupported, targetPanic, solverError:
				case killSentinel, pathEnd:
					panic(r)
				default:
					if !w.E.lenientAll {
						// engine bug surfaced during init: treat as poison too
					}
				}
				_ = depth
				if dst >= 0 {
					fr.s[dst] = poison{describePanic(r)}
				}
				w.E.note("init %s: %s: %s", cp.c.pkg, in, describePanic(r))
			}
		}()
		f(fr)
	}
}

func (cp *compiler) ret(in *ssa.Return) func(fr *frame) int {
	switch len(in.Results) {
	case 0:
		return func(fr *frame) int { return -1 }
	case 1:
		x := cp.reg(in.Results[0])
		return func(fr *frame) int {
			fr.result = fr.s[x]
			return -1
		}
	}
	rs := make([]int, len(in.Results))
	for i, r := range in.Results {
		rs[i] = cp.reg(r)
	}
	return func(fr *frame) int {
		t := make(tupleV, len(rs))
		for i, r := range rs {
			t[i] = fr.s[r]
		}
		fr.result = t
		return -1
	}
}

// loop runs fr until it returns.
func (fr *frame) loop() {
	th := fr.th
	c := fr.code
	for {
		b := c.blocks[fr.block]
		th.w.steps++
		if th.w.steps > th.w.stepLimit {
			th.w.onStepLimit(fr)
		}
		if th.w.steps&8191 == 0 && th.w.R != nil && th.w.R.memOut.Load() && th.w.initDepth == 0 && th.p != nil {
			th.p.pruned = true
			panic(pathEnd{})
		}
		for _, in := range b.instrs {
			in(fr)
		}
		n := b.term(fr)
		if n == -1 {
			return
		}
		if n == -2 { // merged region: fr.block already set
			if fr.done {
				return
			}
			continue
		}
		fr.takeEdge(b, n)
	}
}

func (fr *frame) takeEdge(b *block, n int) {
	e := &b.edges[n]
	switch len(e.dst) {
	case 0:
	case 1:
		fr.s[e.dst[0]] = fr.s[e.src[0]]
	default:
		var tmp [8]value
		t := tmp[:0]
		for _, s := range e.src {
			t = append(t, fr.s[s])
		}
		for i, d := range e.dst {
			fr.s[d] = t[i]
		}
	}
	fr.prev = fr.block
	fr.block = b.succs[n]
}

// callPure calls an intrinsic without effects, some of whose arguments are
// symbolic; if it does not accept them, it is called with each of their values.
func (th *thread) callPure(f inF, args []value, caller *frame) (v value) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(*runtime.TypeAssertionError); !ok {
			panic(r)
		}
		conc := make([]value, len(args))
		for i, a := range args {
			if t, ok := a.(*Term); ok && t.w == 64 {
				a = th.w.concretize(t, true)
			}
			conc[i] = a
		}
		v = f(th, caller, conc)
	}()
	return f(th, caller, args)
}

// callCode calls compiled code with args.
func (th *thread) callCode(c *code, args, env []value, caller *frame) value {
	for c.redirect != nil {
		c = th.w.code(c.redirect)
	}
	if c.intrin != nil {
		if th.spec > 0 && !c.intrin.pure {
			panic(specAbort{})
		}
		if c.intrin.pure {
			for _, a := range args {
				if t, ok := a.(*Term); ok && t.w == 64 {
					return th.callPure(c.intrin.f, args, caller)
				}
			}
		}
		return c.intrin.f(th, caller, args)
	}
	if c.fast != nil {
		if v, ok := c.fast.try(args); ok {
			return v
		}
	}
	if c.mark != nil {
		if v, ok := c.mark(th, args); ok {
			return v
		}
	}
	n := len(c.tmpl)
	base := len(th.stk)
	if base+n > cap(th.stk) {
		ns := make([]value, base, 2*(base+n)+256)
		// Frames hold sub-slices of the old array; keep them: allocate fresh chunk.
		th.stk = ns
	}
	th.stk = th.stk[:base+n]
	s := th.stk[base : base+n : base+n]
	copy(s, c.tmpl)
	copy(s, args)
	copy(s[c.nparams:], env)
	th.depth++
	if th.depth > 4000 {
		th.w.onStackOverflow(th)
	}
	fr := frame{th: th, code: c, s: s, caller: caller, base: base}
	if c.user && !c.lenient {
		th.w.E.hit(th.w, c)
	}
	th.run(&fr)
	th.depth--
	for i := range s {
		s[i] = nil
	}
	th.stk = th.stk[:base]
	return fr.result
}

func (th *thread) run(fr *frame) {
	if !fr.code.hasDefer {
		prev := th.fr
		th.fr = fr
		fr.loop()
		th.fr = prev
		return
	}
	th.runDefer(fr)
}

func (th *thread) runDefer(fr *frame) {
	prev := th.fr
	th.fr = fr
	depth := th.depth
	stkLen := len(th.stk)
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			th.depth = depth
			if len(th.stk) > stkLen {
				th.stk = th.stk[:stkLen]
			}
			th.fr = fr
			fr.panicking = true
			fr.panicv = tp.v
		}()
		fr.loop()
		normal = true
	}()
	if !normal {
		fr.runDefers() // re-panics unless recovered
		// Recovered.
		fr.panicking = false
		if fr.code.recover >= 0 {
			fr.prev, fr.block = -1, fr.code.recover
			fr.loop()
		} else {
			switch len(fr.code.resultT) {
			case 0:
			case 1:
				fr.result = fr.code.resultT[0].zero()
			default:
				t := make(tupleV, len(fr.code.resultT))
				for i, rt := range fr.code.resultT {
					t[i] = rt.zero()
				}
				fr.result = t
			}
		}
	}
	th.fr = prev
}

// runDefers executes deferred calls; if still panicking at the end, re-panics.
func (fr *frame) runDefers() {
	th := fr.th
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		ok := false
		depth, sl := th.depth, len(th.stk)
		func() {
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				th.depth = depth
				if len(th.stk) > sl {
					th.stk = th.stk[:sl]
				}
				th.fr = fr
				fr.panicking = true
				fr.panicv = tp.v
			}()
			d.run()
			ok = true
		}()
	}
	if fr.panicking {
		panic(targetPanic{fr.panicv})
	}
}

// callValue calls a function value.
func (th *thread) callValue(f value, args []value, caller *frame) value {
	switch f := f.(type) {
	case *funcV:
		if f == nil {
			panic(targetPanic{th.w.nilDeref()})
		}
		if f.native != nil {
			if th.spec > 0 {
				panic(specAbort{})
			}
			return f.native(th, args)
		}
		return th.callCode(th.w.code(f.fn), args, f.env, caller)
	case poison:
		return unsup("call of poisoned function: %s", f.why)
	}
	return unsup("call of %T", f)
}

// ---- canonical types and methods

func (w *Worker) canon(t types.Type) types.Type {
	if c, ok := w.canonC[t]; ok {
		return c
	}
	c := w.E.canon(t)
	w.canonC[t] = c
	return c
}

func (e *Engine) canon(t types.Type) types.Type {
	e.cmu.Lock()
	defer e.cmu.Unlock()
	t = types.Unalias(t)
	if v := e.canonM.At(t); v != nil {
		return v.(types.Type)
	}
	e.canonM.Set(t, t)
	return t
}

type mkey struct {
	t types.Type
	m *types.Func
}

// method finds the method implementing m for dynamic type t.
func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.E.lookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := e.msets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.E.msets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.E.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

var _ = typeutil.Map{}

// implements reports whether dynamic type t implements interface it.
func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impls[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impls[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}
