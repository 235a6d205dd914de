package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// Time is modelled as {wall, ext, loc}. An instant between 1970 and 2262 has
// wall 0 and ext the unix nanoseconds + 1, which may be symbolic; the zero Time
// has wall 0 and ext 0. A known instant outside that range has wall its
// nanosecond + 1 and ext its unix seconds. The result of an addition that
// leaves the range has wall timeLater or timeEarlier (the latter: between 1677
// and 1970): it can be compared with the instants in the range only.
const (
	timeLater   = int64(-1)
	timeEarlier = int64(-2)
)

// timeWall returns the concrete wall of a time.
func (w *Worker) timeWall(v value) int64 {
	s, ok := v.(structV)
	if !ok {
		checkPoison(v)
		unsup("time value %T", v)
	}
	switch x := s[0].(type) {
	case int64:
		return x
	case uint64:
		return int64(x)
	}
	for _, k := range []int64{0, timeLater, timeEarlier} {
		if w.truth(w.eqInt(s[0], k, 64)) {
			return k
		}
	}
	unsup("merged instants outside 1970..2262")
	return 0
}

func (w *Worker) timeVal(ns value) value {
	return structV{int64(0), w.addInt(ns, int64(1)), (*value)(nil)}
}

func timeNS(w *Worker, v value) value {
	s, ok := v.(structV)
	if !ok {
		checkPoison(v)
		unsup("time value %T", v)
	}
	if w.timeWall(v) != 0 {
		unsup("nanoseconds of an instant outside 1970..2262")
	}
	return w.subInt(s[1], int64(1))
}

func goTime(w *Worker, v value) (time.Time, bool) {
	n := w.timeWall(v)
	e, ok := v.(structV)[1].(int64)
	switch {
	case n == timeLater || n == timeEarlier:
		return time.Time{}, false
	case n != 0 && !ok:
		unsup("merged instants outside 1970..2262")
	case n != 0:
		return time.Unix(e, n-1).UTC(), true
	case !ok:
		return time.Time{}, false
	case e == 0:
		return time.Time{}, true
	}
	return time.Unix(0, e-1).UTC(), true
}

func (w *Worker) fromGoTime(t time.Time) value {
	if t.IsZero() {
		return structV{int64(0), int64(0), (*value)(nil)}
	}
	if y := t.UTC().Year(); y < 1970 || y > 2261 {
		return structV{int64(t.Nanosecond() + 1), t.Unix(), (*value)(nil)}
	}
	return w.timeVal(t.UnixNano())
}

// timeCmp returns whether a is before b and whether they are equal.
func (w *Worker) timeCmp(a, b value) (lt, eq value) {
	x, okx := goTime(w, a)
	y, oky := goTime(w, b)
	if okx && oky {
		return x.Before(y), x.Equal(y)
	}
	wa, wb := w.timeWall(a), w.timeWall(b)
	ea, eb := a.(structV)[1], b.(structV)[1]
	if wa == 0 && wb == 0 {
		return w.ltInt(ea, eb), w.eqInt(ea, eb, 64)
	}
	if wa != 0 && wb != 0 {
		unsup("comparison of instants outside 1970..2262")
	}
	if wa == 0 {
		// a is in the range or zero, b is not
		switch zero := w.eqInt(ea, int64(0), 64); {
		case wb == timeLater || oky && y.Year() > 2261:
			return true, false
		case wb == timeEarlier || y.After(time.Time{}):
			return zero, false
		}
		return false, false
	}
	gt, _ := w.timeCmp(b, a)
	return w.vNot(gt), false
}

func (w *Worker) timeBefore(a, b value) value { lt, _ := w.timeCmp(a, b); return lt }

const (
	maxDur = int64(1<<63 - 1)
	minDur = int64(-1 << 63)
)

func (w *Worker) iteV(c value, a, b value) value {
	if x, ok := c.(bool); ok {
		if x {
			return a
		}
		return b
	}
	return termVal(w.T.Ite(c.(*Term), w.term(a, 64), w.term(b, 64)), true)
}

func (w *Worker) timeSub(a, b value) value {
	if x, ok := goTime(w, a); ok {
		if y, ok := goTime(w, b); ok {
			return int64(x.Sub(y))
		}
	}
	if w.timeWall(a) != 0 || w.timeWall(b) != 0 {
		return w.timeSubFar(a, b)
	}
	x, y := a.(structV)[1], b.(structV)[1]
	zx, zy := w.eqInt(x, int64(0), 64), w.eqInt(y, int64(0), 64)
	d := w.subInt(x, y)
	return w.iteV(zx, w.iteV(zy, int64(0), minDur), w.iteV(zy, maxDur, d))
}

// timeSubFar is timeSub where one of the instants is outside the range and the
// other is symbolic.
func (w *Worker) timeSubFar(a, b value) value {
	x, okx := goTime(w, a)
	y, oky := goTime(w, b)
	if okx == oky {
		unsup("difference of instants outside 1970..2262")
	}
	far, near := x, b
	if oky {
		far, near = y, a
	}
	if w.timeWall(near) != 0 {
		unsup("difference of instants outside 1970..2262")
	}
	ext := near.(structV)[1]
	if w.truth(w.eqInt(ext, int64(0), 64)) {
		return int64(map[bool]time.Duration{true: far.Sub(time.Time{}), false: (time.Time{}).Sub(far)}[okx])
	}
	// F is far - 1970, and ext-1 is near - 1970, 0 <= ext-1 <= maxDur
	F := new(big.Int).Mul(big.NewInt(far.Unix()), big.NewInt(1e9))
	F.Add(F, big.NewInt(int64(far.Nanosecond())))
	n := w.subInt(ext, int64(1))
	low := new(big.Int).And(F, new(big.Int).SetUint64(1<<64-1)).Uint64()
	diff := w.subInt(int64(low), n) // far - near, when it is representable
	sat := value(maxDur)
	var over value // far - near is not representable
	if F.Sign() > 0 {
		lim := new(big.Int).Sub(F, big.NewInt(maxDur)) // near < lim
		over = !lim.IsInt64() && lim.Sign() > 0
		if lim.IsInt64() {
			over = w.ltInt(n, lim.Int64())
		}
	} else {
		sat = minDur
		lim := new(big.Int).Sub(F, big.NewInt(minDur)) // near > lim
		over = !lim.IsInt64() && lim.Sign() < 0
		if lim.IsInt64() {
			over = w.ltInt(lim.Int64(), n)
		}
	}
	if okx {
		return w.iteV(over, sat, diff)
	}
	// near - far
	if sat == value(maxDur) {
		sat = minDur
		over = w.vOr(over, false)
	} else {
		sat = maxDur
		// -minDur is not representable either
		over = w.vOr(over, w.eqInt(diff, minDur, 64))
	}
	return w.iteV(over, sat, w.subInt(int64(0), diff))
}

func (w *Worker) timeAdd(a, d value) value {
	s := a.(structV)
	if t, ok := goTime(w, a); ok {
		if n, ok := d.(int64); ok {
			return w.fromGoTime(t.Add(time.Duration(n)))
		}
	}
	if d == int64(0) {
		return s
	}
	if w.timeWall(a) != 0 {
		unsup("arithmetic on an instant outside 1970..2262")
	}
	if w.truth(w.eqInt(s[1], int64(0), 64)) {
		unsup("arithmetic on the zero time")
	}
	r := w.addInt(s[1], d)
	if w.truth(w.ltInt(r, int64(1))) {
		// before 1970, or wrapped past 2262
		if w.truth(w.ltInt(int64(0), d)) {
			return structV{timeLater, int64(0), s[2]}
		}
		return structV{timeEarlier, int64(0), s[2]}
	}
	return structV{s[0], r, s[2]}
}

var timeMarks = struct{}{}

func (p *path) marker(kind string, v value) string {
	if n := p.w.R.Opt.Sampled; n > 0 {
		if t, ok := v.(*Term); ok {
			c := p.w.concretizeFew(t, n)
			if kind == "d" {
				return goUnix(c / 1e9).(string)
			}
			return strconv.FormatInt(c, 10)
		}
	}
	p.markers = append(p.markers, v)
	return "zq" + kind + itoa(len(p.markers)-1) + "z"
}

// markerOf recognises a marker string.
func (p *path) markerOf(s string, kind string) (value, bool) {
	if p == nil || !strings.HasPrefix(s, "zq"+kind) || !strings.HasSuffix(s, "z") {
		return nil, false
	}
	n := 0
	for _, c := range s[len(kind)+2 : len(s)-1] {
		if c < '0' || c > '9' {
			return nil, false
		}
		n = n*10 + int(c-'0')
	}
	if n >= len(p.markers) {
		return nil, false
	}
	return p.markers[n], true
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

type tmS struct {
	t *timerV
	c *chanV
	f value
}

func regTime() {
	T := func(name string, f inF) { reg("time."+name, f) }
	P := func(name string, f inF) { regp("time."+name, f) }
	M := func(name string, f inF) { regp("(time.Time)."+name, f) }
	now := func(th *thread) value {
		if th.p == nil || th.w.initDepth > 0 {
			return int64(946684800e9)
		}
		return th.p.now
	}
	T("Now", func(th *thread, fr *frame, a []value) value { return th.w.timeVal(now(th)) })
	T("Since", func(th *thread, fr *frame, a []value) value { return th.w.timeSub(th.w.timeVal(now(th)), a[0]) })
	T("Until", func(th *thread, fr *frame, a []value) value { return th.w.timeSub(a[0], th.w.timeVal(now(th))) })
	T("runtimeNano", func(th *thread, fr *frame, a []value) value { return now(th) })
	P("Unix", func(th *thread, fr *frame, a []value) value {
		s, ok1 := a[0].(int64)
		n, ok2 := a[1].(int64)
		if ok1 && ok2 {
			return th.w.fromGoTime(time.Unix(s, n))
		}
		w := th.w
		if !w.truth(w.vAnd(w.leInt(int64(0), a[0]), w.ltInt(a[0], maxDur/int64(1e9)))) {
			unsup("symbolic instant outside 1970..2262")
		}
		return w.timeVal(termVal(w.T.Bin(OAdd, w.T.Bin(OMul, w.term(a[0], 64), w.T.BV(1e9, 64)), w.term(a[1], 64)), true))
	})
	P("UnixMilli", func(th *thread, fr *frame, a []value) value {
		w := th.w
		if n, ok := a[0].(int64); ok {
			return w.fromGoTime(time.UnixMilli(n))
		}
		if !w.truth(w.vAnd(w.leInt(int64(0), a[0]), w.ltInt(a[0], maxDur/int64(1e6)))) {
			unsup("symbolic instant outside 1970..2262")
		}
		return w.timeVal(termVal(w.T.Bin(OMul, w.term(a[0], 64), w.T.BV(1e6, 64)), true))
	})
	P("Date", func(th *thread, fr *frame, a []value) value {
		var x [7]int64
		for i := range x {
			v, ok := a[i].(int64)
			if !ok {
				unsup("time.Date with symbolic fields")
			}
			x[i] = v
		}
		return th.w.fromGoTime(time.Date(int(x[0]), time.Month(x[1]), int(x[2]), int(x[3]), int(x[4]), int(x[5]), int(x[6]), time.UTC))
	})
	M("IsZero", func(th *thread, fr *frame, a []value) value {
		_, eq := th.w.timeCmp(a[0], structV{int64(0), int64(0), (*value)(nil)})
		return eq
	})
	M("Sub", func(th *thread, fr *frame, a []value) value { return th.w.timeSub(a[0], a[1]) })
	M("Add", func(th *thread, fr *frame, a []value) value { return th.w.timeAdd(a[0], a[1]) })
	M("After", func(th *thread, fr *frame, a []value) value { return th.w.timeBefore(a[1], a[0]) })
	M("Before", func(th *thread, fr *frame, a []value) value { return th.w.timeBefore(a[0], a[1]) })
	M("Equal", func(th *thread, fr *frame, a []value) value { _, eq := th.w.timeCmp(a[0], a[1]); return eq })
	M("Compare", func(th *thread, fr *frame, a []value) value {
		w := th.w
		lt, eq := w.timeCmp(a[0], a[1])
		return w.iteV(lt, int64(-1), w.iteV(eq, int64(0), int64(1)))
	})
	id := func(th *thread, fr *frame, a []value) value { return a[0] }
	for _, n := range []string{"UTC", "Local", "Round0", "In"} {
		M(n, id)
	}
	M("Location", func(th *thread, fr *frame, a []value) value { return (*value)(nil) })
	M("UnixNano", func(th *thread, fr *frame, a []value) value { return timeNS(th.w, a[0]) })
	div := func(k int64) inF {
		return func(th *thread, fr *frame, a []value) value {
			if t, ok := goTime(th.w, a[0]); ok {
				switch k {
				case 1e9:
					return t.Unix()
				case 1e6:
					return t.UnixMilli()
				}
				return t.UnixMicro()
			}
			return termVal(th.w.T.Bin(OSDiv, th.w.term(timeNS(th.w, a[0]), 64), th.w.T.BV(uint64(k), 64)), true)
		}
	}
	M("Unix", div(1e9))
	M("UnixMilli", div(1e6))
	M("UnixMicro", div(1e3))
	M("Truncate", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		d, ok2 := a[1].(int64)
		if ok && ok2 {
			return th.w.fromGoTime(t.Truncate(time.Duration(d)))
		}
		if ok2 && d == 1e9 {
			w := th.w
			n := w.term(timeNS(w, a[0]), 64)
			return w.timeVal(termVal(w.T.Bin(OSub, n, w.T.Bin(OSRem, n, w.T.BV(1e9, 64))), true))
		}
		return unsup("Truncate of a symbolic time")
	})
	M("Round", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		d, ok2 := a[1].(int64)
		if ok2 && d <= 0 {
			return a[0]
		}
		if ok && ok2 {
			return th.w.fromGoTime(t.Round(time.Duration(d)))
		}
		return unsup("Round of a symbolic time")
	})
	part := func(f func(time.Time) int) inF {
		return func(th *thread, fr *frame, a []value) value {
			t, ok := goTime(th.w, a[0])
			if !ok {
				unsup("calendar field of a symbolic time")
			}
			return int64(f(t))
		}
	}
	M("Year", part(func(t time.Time) int { return t.Year() }))
	M("Month", part(func(t time.Time) int { return int(t.Month()) }))
	M("Day", part(func(t time.Time) int { return t.Day() }))
	M("Hour", part(func(t time.Time) int { return t.Hour() }))
	M("Minute", part(func(t time.Time) int { return t.Minute() }))
	M("Second", part(func(t time.Time) int { return t.Second() }))
	M("Nanosecond", part(func(t time.Time) int { return t.Nanosecond() }))
	M("Weekday", part(func(t time.Time) int { return int(t.Weekday()) }))
	M("YearDay", part(func(t time.Time) int { return t.YearDay() }))
	M("Date", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		if !ok {
			unsup("calendar field of a symbolic time")
		}
		return tupleV{int64(t.Year()), int64(t.Month()), int64(t.Day())}
	})
	M("Clock", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		if !ok {
			unsup("calendar field of a symbolic time")
		}
		return tupleV{int64(t.Hour()), int64(t.Minute()), int64(t.Second())}
	})
	M("AddDate", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		y, ok1 := a[1].(int64)
		m, ok2 := a[2].(int64)
		d, ok3 := a[3].(int64)
		if ok && ok1 && ok2 && ok3 {
			return th.w.fromGoTime(t.AddDate(int(y), int(m), int(d)))
		}
		if ok3 && a[1] == int64(0) && a[2] == int64(0) && d > -36500 && d < 36500 {
			return th.w.timeAdd(a[0], d*24*int64(time.Hour))
		}
		return unsup("AddDate of symbolic values")
	})
	M("Format", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		l := strConcrete(a[1])
		if ok {
			return t.Format(l)
		}
		if l == "Mon, 02 Jan 2006 15:04:05 GMT" || l == time.RFC1123 {
			w := th.w
			n := w.term(timeNS(w, a[0]), 64)
			sec := w.T.Bin(OSub, n, w.T.Bin(OSRem, n, w.T.BV(1e9, 64)))
			return th.p.marker("d", termVal(sec, true))
		}
		return &opaque{}
	})
	M("AppendFormat", func(th *thread, fr *frame, a []value) value {
		t, ok := goTime(th.w, a[0])
		if !ok {
			unsup("AppendFormat of a symbolic time")
		}
		s := append([]value(nil), a[1].([]value)...)
		return append(s, strBytes(t.Format(strConcrete(a[2])))...)
	})
	M("String", func(th *thread, fr *frame, a []value) value {
		if t, ok := goTime(th.w, a[0]); ok {
			return t.String()
		}
		return &opaque{}
	})
	parse := func(th *thread, layout, s value) value {
		if c, ok := s.(string); ok {
			if v, ok := th.p.markerOf(c, "d"); ok {
				return tupleV{th.w.timeVal(v), iface{}}
			}
			t, err := time.Parse(strConcrete(layout), c)
			if err != nil {
				return tupleV{th.w.fromGoTime(time.Time{}), th.w.mkErr(err.Error())}
			}
			return tupleV{th.w.fromGoTime(t), iface{}}
		}
		return unsup("time.Parse of a symbolic string")
	}
	P("Parse", func(th *thread, fr *frame, a []value) value { return parse(th, a[0], a[1]) })
	P("ParseInLocation", func(th *thread, fr *frame, a []value) value { return parse(th, a[0], a[1]) })
	P("LoadLocation", func(th *thread, fr *frame, a []value) value { return tupleV{(*value)(nil), iface{}} })
	regp("(time.Duration).String", func(th *thread, fr *frame, a []value) value {
		if d, ok := a[0].(int64); ok {
			return time.Duration(d).String()
		}
		return &opaque{}
	})
	secs := func(unit float64, f func(time.Duration) float64) inF {
		return func(th *thread, fr *frame, a []value) value {
			d, ok := a[0].(int64)
			if !ok {
				unsup("floating point value of a symbolic duration")
			}
			return f(time.Duration(d))
		}
	}
	regp("(time.Duration).Seconds", secs(1e9, time.Duration.Seconds))
	regp("(time.Duration).Minutes", secs(6e10, time.Duration.Minutes))
	regp("(time.Duration).Hours", secs(36e11, time.Duration.Hours))

	// timers
	T("Sleep", func(th *thread, fr *frame, a []value) value {
		fired := false
		if !th.w.truth(th.w.ltInt(int64(0), a[0])) {
			th.point(fr, fr.curPos)
			return nil
		}
		th.p.newTimer(a[0], nil, func() { fired = true })
		th.block("time.Sleep", func() bool { return fired })
		return nil
	})
	timeTI := func(th *thread) *tinfo { return th.w.ti(th.w.E.typeByName("time", "Time")) }
	mk := func(th *thread, typ string, d value, period value, f value) value {
		p := new(value)
		st := th.w.E.typeByName("time", typ)
		sv := th.w.ti(st).zero().(structV)
		s := &tmS{f: f}
		if f == nil {
			s.c = &chanV{cap: 1, et: timeTI(th)}
			sv[0] = s.c
		}
		*p = sv
		s.t = th.armTimer(d, s)
		s.t.period = period
		th.p.side[sk{"timer", p}] = s
		return p
	}
	T("NewTimer", func(th *thread, fr *frame, a []value) value { return mk(th, "Timer", a[0], nil, nil) })
	T("After", func(th *thread, fr *frame, a []value) value {
		p := mk(th, "Timer", a[0], nil, nil).(*value)
		return (*p).(structV)[0]
	})
	T("AfterFunc", func(th *thread, fr *frame, a []value) value { return mk(th, "Timer", a[0], nil, a[1]) })
	T("NewTicker", func(th *thread, fr *frame, a []value) value {
		if th.w.truth(th.w.leInt(a[0], int64(0))) {
			panic(targetPanic{th.w.rtErrPlain("non-positive interval for NewTicker")})
		}
		return mk(th, "Ticker", a[0], a[0], nil)
	})
	T("Tick", func(th *thread, fr *frame, a []value) value {
		p := mk(th, "Ticker", a[0], a[0], nil).(*value)
		return (*p).(structV)[0]
	})
	get := func(th *thread, v value) *tmS {
		p := ptrArg(th, v)
		s, ok := th.p.side[sk{"timer", p}].(*tmS)
		if !ok {
			panic(targetPanic{th.w.rtErrPlain("time: Stop called on uninitialized Timer")})
		}
		return s
	}
	stop := func(th *thread, fr *frame, a []value) value {
		s := get(th, a[0])
		was := s.t.active
		s.t.active = false
		if s.c != nil { // Go 1.23 semantics: no stale values after Stop
			if len(s.c.buf) > 0 {
				was = true
			}
			s.c.buf, s.c.bufvc = nil, nil
		}
		return was
	}
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Ticker).Stop", func(th *thread, fr *frame, a []value) value { stop(th, fr, a); return nil })
	reset := func(th *thread, fr *frame, a []value) value {
		s := get(th, a[0])
		was := stop(th, fr, a)
		per := s.t.period
		s.t = th.armTimer(a[1], s)
		if per != nil {
			s.t.period = a[1]
		}
		return was
	}
	reg("(*time.Timer).Reset", reset)
	reg("(*time.Ticker).Reset", func(th *thread, fr *frame, a []value) value { reset(th, fr, a); return nil })
	_ = types.Typ
}

func (th *thread) armTimer(d value, s *tmS) *timerV {
	p := th.p
	if p == nil {
		unsup("timer during package initialisation")
	}
	if s.f == nil {
		return p.newTimer(d, s.c, nil)
	}
	f := s.f
	var vc []int
	th.release(&vc)
	return p.newTimer(d, nil, func() {
		nt := p.threads[0].spawn(func(nt *thread) {
			nt.callValue(f, nil, nil)
		}, "AfterFunc")
		nt.acquire(vc)
	})
}
