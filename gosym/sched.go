package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// thread is an interpreted goroutine.
type thread struct {
	w      *Worker
	p      *path
	id     int
	name   string
	stk    []value
	depth  int
	fr     *frame
	spec   int
	resume chan struct{}
	done   bool
	// blocked threads have a readiness predicate
	ready      func() bool
	why        string
	sel        *selState
	vc         []int
	nosched    int
	started    bool
	run0       func(th *thread)
	panicV     value
	specC      []*Term
	specBudget int
	quiescing  bool
}

type selCase struct {
	c    *chanV
	send bool
	val  value
}

type selState struct {
	cases []selCase
	fired int
	val   value
	ok    bool
}

type chanV struct {
	cap    int
	buf    []value
	bufvc  [][]int
	closed bool
	et     *tinfo
	vc     []int
	timer  *timerV // channel of a timer
}

func isSyncCall(fn *ssa.Function) bool {
	p := fnPkg(fn)
	switch p {
	case "sync", "sync/atomic", "golang.org/x/sync/errgroup", "golang.org/x/sync/semaphore", "github.com/segmentio/agecache":
		if strings.HasPrefix(fn.Name(), "New") || fn.Name() == "init" {
			return false
		}
		return true
	}
	return false
}

// ---- scheduling

// point is a potential preemption point.
func (th *thread) point(fr *frame, pos token.Pos) {
	p := th.p
	if p == nil || th.w.initDepth > 0 || th.nosched > 0 {
		return
	}
	if th.spec > 0 {
		panic(specAbort{})
	}
	if p.spawned == 1 && !p.clockFree {
		return
	}
	p.nPoints++
	p.sitePos = pos
	p.schedule(th, false)
}

// block suspends th until ready() holds.
func (th *thread) block(why string, ready func() bool) {
	if th.spec > 0 {
		panic(specAbort{})
	}
	if ready() {
		return
	}
	if th.p == nil || th.w.initDepth > 0 {
		unsup("blocking operation during package initialisation: %s", why)
	}
	if th.nosched > 0 {
		unsup("blocking operation inside a scheduler predicate: %s", why)
	}
	for !ready() {
		th.ready = ready
		th.why = why
		th.p.schedule(th, true)
		th.ready = nil
	}
}

// schedule picks the next thread to run. cur is running (or blocked/done).
func (p *path) schedule(cur *thread, blocked bool) {
	for {
		var cand []*thread
		curOK := cur != nil && !cur.done && (!blocked || cur.ready == nil || cur.ready())
		if curOK {
			cand = append(cand, cur)
		}
		for _, t := range p.threads {
			if t == cur || t.done {
				continue
			}
			if t.ready == nil || t.ready() {
				cand = append(cand, t)
			}
		}
		timers := p.pendingTimers()
		if len(cand) == 0 {
			if timers {
				p.fireNext()
				continue
			}
			p.deadlock()
			panic(pathEnd{})
		}
		var next *thread
		clock := timers && p.clockFree
		if curOK && !blocked {
			if p.preempt >= p.maxPreempt {
				return
			}
			n := len(cand)
			if clock {
				n++
			}
			if n == 1 {
				return
			}
			k := p.chooseSched(n)
			if k != 0 {
				p.preempt++
			}
			if clock && k == n-1 {
				p.fireNext()
				continue
			}
			next = cand[k]
		} else {
			if p.delay {
				// round robin is the default, everything else costs
				rotate(cand, cur)
			}
			n := len(cand)
			if clock && p.preempt < p.maxPreempt {
				n++
			}
			if p.delay && p.preempt >= p.maxPreempt {
				n = 1
			}
			k := 0
			if n > 1 {
				k = p.chooseSched(n)
			}
			if p.delay && k > 0 && k < len(cand) {
				p.preempt++
			}
			if k >= len(cand) {
				p.preempt++
				p.fireNext()
				continue
			}
			next = cand[k]
		}
		p.switches++
		p.trace = append(p.trace, schedEv{next.id, p.sitePos})
		if next == cur {
			return
		}
		p.switchTo(cur, next)
		return
	}
}

// rotate orders the candidates by thread number, starting after cur.
func rotate(cand []*thread, cur *thread) {
	if cur == nil {
		return
	}
	sort.SliceStable(cand, func(i, j int) bool {
		a, b := cand[i].id > cur.id, cand[j].id > cur.id
		if a != b {
			return a
		}
		return cand[i].id < cand[j].id
	})
}

type schedEv struct {
	th  int
	pos token.Pos
}

func (p *path) switchTo(cur, next *thread) {
	p.cur = next
	if !next.started {
		next.started = true
		go next.main()
	} else {
		next.resume <- struct{}{}
	}
	if cur != nil && !cur.done {
		<-cur.resume
		if p.killed {
			panic(killSentinel{})
		}
	}
}

// spawn creates a goroutine.
func (th *thread) spawn(run func(*thread), name string) *thread {
	p := th.p
	if p == nil || th.w.initDepth > 0 {
		unsup("goroutine started during package initialisation")
	}
	p.compact()
	if len(p.threads) > 2000 {
		unsup("more than 2000 goroutines at once")
	}
	nt := &thread{w: th.w, p: p, id: p.spawned, name: name, resume: make(chan struct{}), run0: run}
	p.spawned++
	p.threads = append(p.threads, nt)
	p.multi = true
	if !p.raceMode {
		return nt
	}
	// happens-before: creator -> child
	nt.vc = append([]int(nil), th.clock()...)
	nt.tick()
	th.tick()
	return nt
}

// compact forgets goroutines that have ended, once there are many of them.
func (p *path) compact() {
	if p.raceMode || len(p.threads) < 256 || len(p.threads) < p.compactAt {
		return
	}
	var live []*thread
	for _, t := range p.threads {
		if t.id == 0 || !t.done {
			live = append(live, t)
		}
	}
	p.threads = live
	p.compactAt = 2 * len(live)
}

func (th *thread) clock() []int {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	if th.vc[th.id] == 0 {
		th.vc[th.id] = 1
	}
	return th.vc
}
func (th *thread) tick() { th.clock(); th.vc[th.id]++ }

func vcJoin(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

// acquire joins vc into th; release copies th's clock into dst.
func (th *thread) acquire(vc []int) {
	if th.p == nil || !th.p.multi || !th.p.raceMode {
		return
	}
	th.clock()
	th.vc = vcJoin(th.vc, vc)
}
func (th *thread) release(dst *[]int) {
	if th.p == nil || !th.p.raceMode {
		return
	}
	*dst = vcJoin(*dst, th.clock())
	th.tick()
}

// main runs a spawned thread.
func (th *thread) main() {
	p := th.p
	defer func() {
		r := recover()
		th.done = true
		if _, ok := r.(killSentinel); ok {
			p.killWG.Done()
			return
		}
		if r != nil {
			p.threadPanic(th, r)
		}
		if p.over || p.killed {
			p.killWG.Done()
			if !p.killed {
				p.signalEnd()
			}
			return
		}
		// normal completion: schedule somebody else
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killSentinel); !ok {
						p.threadPanic(th, r)
					}
				}
			}()
			if th.id == 0 {
				p.over = true
			} else {
				p.schedule(th, true)
			}
		}()
		p.killWG.Done()
		if p.over && !p.killed {
			p.signalEnd()
		}
	}()
	p.killWG.Add(1)
	th.run0(th)
}

// ---- timers and the virtual clock

type timerV struct {
	when   value // int64 or *Term: ns
	period value // nil for one-shot
	c      *chanV
	fn     func() // AfterFunc
	active bool
	seq    int
	name   string
}

func (p *path) pendingTimers() bool {
	for _, t := range p.timers {
		if t.active {
			return true
		}
	}
	return false
}

// fireNext advances the clock to the earliest timer and fires it.
func (p *path) fireNext() {
	w := p.w
	var best *timerV
	for _, t := range p.timers {
		if !t.active {
			continue
		}
		if best == nil {
			best = t
			continue
		}
		lt := w.ltInt(t.when, best.when)
		if w.truth(lt) {
			best = t
		}
	}
	p.timerFires++
	if p.timerFires > p.maxTimerFires {
		// bound on clock steps: everything beyond is outside the claim
		p.boundHit("timer fires")
		panic(pathEnd{})
	}
	// now = max(now, when)
	if w.truth(w.ltInt(p.now, best.when)) {
		p.now = best.when
	}
	p.fire(best)
}

func (p *path) fire(t *timerV) {
	if t.period != nil {
		t.when = p.w.addInt(t.when, t.period)
	} else {
		t.active = false
	}
	if t.fn != nil {
		t.fn()
		return
	}
	if len(t.c.buf) == 0 {
		t.c.buf = append(t.c.buf, p.w.timeVal(p.now))
		t.c.bufvc = append(t.c.bufvc, nil)
		// hand over to a blocked receiver lazily: receivers poll the buffer
	}
}

func (w *Worker) ltInt(a, b value) value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x < y
	}
	return termVal(w.T.Cmp(OSlt, w.term(a, 64), w.term(b, 64)), false)
}
func (w *Worker) leInt(a, b value) value { return w.vNot(w.ltInt(b, a)) }
func (w *Worker) addInt(a, b value) value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x + y
	}
	return termVal(w.T.Bin(OAdd, w.term(a, 64), w.term(b, 64)), true)
}
func (w *Worker) subInt(a, b value) value {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x - y
	}
	return termVal(w.T.Bin(OSub, w.term(a, 64), w.term(b, 64)), true)
}

// newTimer registers a timer firing after d (<=0 fires at once).
func (p *path) newTimer(d value, c *chanV, fn func()) *timerV {
	t := &timerV{when: p.w.addInt(p.now, d), c: c, fn: fn, active: true, seq: len(p.timers)}
	if x, ok := d.(int64); ok && x > 0 {
		if w, ok := t.when.(int64); ok && w < 0 {
			t.when = int64(1<<63 - 1)
		}
	} else if !ok {
		// saturate on overflow, as the runtime does
		dt := p.w.term(d, 64)
		T := p.w.T
		wt := p.w.term(t.when, 64)
		ov := T.And(T.Cmp(OSlt, T.BV(0, 64), dt), T.Cmp(OSlt, wt, T.BV(0, 64)))
		t.when = termVal(T.Ite(ov, T.BV(1<<63-1, 64), wt), true)
	}
	p.timers = append(p.timers, t)
	return t
}

// ---- channels

func (c *chanV) waitingPeer(p *path, send bool, self *thread) (*thread, int) {
	// finds a blocked thread with an opposite pending case on c
	for _, t := range p.threads {
		if t == self || t.done || t.sel == nil || t.sel.fired >= 0 {
			continue
		}
		for i, sc := range t.sel.cases {
			if sc.c == c && sc.send == send {
				return t, i
			}
		}
	}
	return nil, 0
}

func (c *chanV) caseReady(p *path, sc selCase, self *thread) bool {
	if c == nil {
		return false
	}
	if sc.send {
		if c.closed {
			return true
		}
		if len(c.buf) < c.cap {
			return true
		}
		if c.cap == 0 {
			t, _ := c.waitingPeer(p, false, self)
			return t != nil
		}
		return false
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	if c.cap == 0 {
		t, _ := c.waitingPeer(p, true, self)
		return t != nil
	}
	return false
}

// doCase executes a ready case.
func (th *thread) doCase(sc selCase) (value, bool) {
	c := sc.c
	p := th.p
	w := th.w
	if sc.send {
		if c.closed {
			panic(targetPanic{w.rtErrPlain("send on closed channel")})
		}
		if len(c.buf) < c.cap {
			var vc []int
			th.release(&vc)
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], sc.val)
			c.bufvc = append(c.bufvc[:len(c.bufvc):len(c.bufvc)], vc)
			return nil, true
		}
		t, i := c.waitingPeer(p, false, th)
		t.sel.fired, t.sel.val, t.sel.ok = i, sc.val, true
		var vc []int
		th.release(&vc)
		t.acquire(vc)
		return nil, true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		th.acquire(c.bufvc[0])
		c.buf = c.buf[1:]
		c.bufvc = c.bufvc[1:]
		// HB for buffer reuse is ignored (weaker than the memory model only for
		// synchronising through capacity)
		th.release(&c.vc)
		return v, true
	}
	if c.cap == 0 {
		if t, i := c.waitingPeer(p, true, th); t != nil {
			v := t.sel.cases[i].val
			t.sel.fired = i
			var vc []int
			t.release(&vc)
			th.acquire(vc)
			var vc2 []int
			th.release(&vc2)
			t.acquire(vc2)
			return v, true
		}
	}
	// closed
	th.acquire(c.vc)
	return c.et.zero(), false
}

func (th *thread) chanOp(sc selCase, user bool, pos token.Pos, why string) (value, bool) {
	if th.p == nil {
		if sc.c != nil && (len(sc.c.buf) > 0 || sc.c.closed || len(sc.c.buf) < sc.c.cap) {
			return th.doCaseInit(sc)
		}
		unsup("channel operation during package initialisation")
	}
	if user {
		th.point(nil, pos)
	}
	if sc.c == nil {
		th.block(why+" on nil channel", func() bool { return false })
	}
	if sc.c.caseReady(th.p, sc, th) {
		return th.doCase(sc)
	}
	st := &selState{cases: []selCase{sc}, fired: -1}
	th.sel = st
	th.block(why, func() bool { return st.fired >= 0 || sc.c.caseReady(th.p, sc, th) })
	th.sel = nil
	if st.fired >= 0 {
		return st.val, st.ok
	}
	return th.doCase(sc)
}

func (th *thread) doCaseInit(sc selCase) (value, bool) {
	c := sc.c
	if sc.send {
		c.buf = append(c.buf, sc.val)
		c.bufvc = append(c.bufvc, nil)
		return nil, true
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf, c.bufvc = c.buf[1:], c.bufvc[1:]
		return v, true
	}
	return c.et.zero(), false
}

func (th *thread) chanSend(c *chanV, v value, user bool, pos token.Pos) {
	th.chanOp(selCase{c: c, send: true, val: v}, user, pos, "chan send")
}

func (th *thread) chanRecv(c *chanV, user bool, pos token.Pos) (value, bool) {
	return th.chanOp(selCase{c: c}, user, pos, "chan receive")
}

func (th *thread) chanClose(c *chanV, user bool, pos token.Pos) {
	if user {
		th.point(nil, pos)
	}
	if c == nil {
		panic(targetPanic{th.w.rtErrPlain("close of nil channel")})
	}
	if c.closed {
		panic(targetPanic{th.w.rtErrPlain("close of closed channel")})
	}
	c.closed = true
	th.release(&c.vc)
}

func (cp *compiler) selectInstr(in *ssa.Select) instrFn {
	d := cp.slot[in]
	type st struct {
		c, v int
		send bool
		et   *tinfo
	}
	var states []st
	for _, s := range in.States {
		x := st{c: cp.reg(s.Chan), send: s.Dir == types.SendOnly}
		if s.Send != nil {
			x.v = cp.reg(s.Send)
		}
		x.et = cp.w.ti(s.Chan.Type().Underlying().(*types.Chan).Elem())
		states = append(states, x)
	}
	blocking := in.Blocking
	pos := in.Pos()
	user := cp.c.user
	return func(fr *frame) {
		th := fr.th
		if th.spec > 0 {
			panic(specAbort{})
		}
		fr.curPos = pos
		if user {
			th.point(fr, pos)
		}
		cases := make([]selCase, len(states))
		for i, s := range states {
			c, _ := fr.s[s.c].(*chanV)
			cases[i] = selCase{c: c, send: s.send}
			if s.send {
				cases[i].val = copyVal(fr.s[s.v])
			}
		}
		res := func(k int, v value, ok bool) {
			t := make(tupleV, 0, 2+len(states))
			t = append(t, int64(k), ok)
			for i, s := range states {
				if s.send {
					continue
				}
				if i == k && v != nil {
					t = append(t, v)
				} else {
					t = append(t, s.et.zero())
				}
			}
			fr.s[d] = t
		}
		readySet := func() []int {
			var r []int
			for i, sc := range cases {
				if sc.c != nil && sc.c.caseReady(th.p, sc, th) {
					r = append(r, i)
				}
			}
			return r
		}
		rs := readySet()
		if len(rs) == 0 {
			if !blocking {
				res(-1, nil, false)
				return
			}
			ss := &selState{cases: cases, fired: -1}
			th.sel = ss
			th.block("select", func() bool { return ss.fired >= 0 || len(readySet()) > 0 })
			th.sel = nil
			if ss.fired >= 0 {
				res(ss.fired, ss.val, ss.ok)
				return
			}
			rs = readySet()
		}
		k := 0
		if len(rs) > 1 {
			th.p.selects++
			k = th.p.chooseSched(len(rs))
		}
		v, ok := th.doCase(cases[rs[k]])
		res(rs[k], v, ok)
	}
}

// ---- data races

type shadow struct {
	wT, wC int // last write: thread, clock
	wPos   token.Pos
	reads  map[int]readEnt
}

type readEnt struct {
	c   int
	pos token.Pos
}

func (th *thread) raceCell(p *value, write bool, fr *frame) {
	switch v := (*p).(type) {
	case structV:
		for i := range v {
			th.raceCell(&v[i], write, fr)
		}
		return
	case arrayV:
		if len(v) > 64 {
			return
		}
		for i := range v {
			th.raceCell(&v[i], write, fr)
		}
		return
	}
	if th.nosched > 0 || !th.p.detectRaces {
		return
	}
	sh := th.p.shadows[p]
	if sh == nil {
		sh = &shadow{wT: -1}
		th.p.shadows[p] = sh
	}
	th.race(sh, write, fr)
}

func (th *thread) raceMap(m *hmap, write bool, fr *frame) {
	if th.nosched > 0 || !th.p.detectRaces {
		return
	}
	sh := th.p.mapShadows[m]
	if sh == nil {
		sh = &shadow{wT: -1}
		th.p.mapShadows[m] = sh
	}
	th.race(sh, write, fr)
}

func (th *thread) race(sh *shadow, write bool, fr *frame) {
	vc := th.clock()
	at := func(t int) int {
		if t < len(vc) {
			return vc[t]
		}
		return 0
	}
	pos := fr.curPos
	if sh.wT >= 0 && sh.wT != th.id && sh.wC > at(sh.wT) {
		th.p.reportRace(th, fr, pos, sh.wPos, write, true)
	}
	if write {
		for t, r := range sh.reads {
			if t != th.id && r.c > at(t) {
				th.p.reportRace(th, fr, pos, r.pos, true, false)
			}
		}
		sh.wT, sh.wC, sh.wPos = th.id, vc[th.id], pos
		sh.reads = nil
		return
	}
	if sh.reads == nil {
		sh.reads = map[int]readEnt{}
	}
	sh.reads[th.id] = readEnt{vc[th.id], pos}
}

func (p *path) reportRace(th *thread, fr *frame, a, b token.Pos, write, otherWrite bool) {
	w := p.w
	kind := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	p.violation(th, "data-race", fmt.Sprintf("data race: %s at %s (%s) and earlier unsynchronised %s at %s",
		kind(write), posStr(w, a), fr.code.fn.Name(), kind(otherWrite), posStr(w, b)), nil)
	panic(pathEnd{})
}
