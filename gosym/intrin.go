package main

import (
	"fmt"
	"go/types"
	"math"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic replaces a function by engine code.
type intrinsic struct {
	f    func(th *thread, fr *frame, args []value) value
	pure bool
}

var intrinsics = map[string]*intrinsic{}

type inF = func(th *thread, fr *frame, a []value) value

func reg(name string, f inF)  { intrinsics[name] = &intrinsic{f: f} }
func regp(name string, f inF) { intrinsics[name] = &intrinsic{f: f, pure: true} }

func goStack() string { return string(debug.Stack()) }

// intrinsicFor covers whole families of functions.
func intrinsicFor(fn *ssa.Function, c *code) *intrinsic {
	if o := fn.Origin(); o != nil && len(fn.TypeArgs()) > 0 {
		switch o.String() {
		case "reflect.TypeFor":
			t := fn.TypeArgs()[0]
			return &intrinsic{f: func(th *thread, fr *frame, a []value) value { return th.w.rtype(t) }}
		case "math/rand/v2.N":
			return intrinsics["math/rand/v2.IntN"]
		}
	}
	switch c.pkg {
	case "log", "internal/race", "internal/msan", "internal/asan", "log/slog":
		if fn.Name() == "init" {
			return nil
		}
		res := fn.Signature.Results()
		return &intrinsic{pure: true, f: func(th *thread, fr *frame, a []value) value {
			return zeroResults(th.w, res)
		}}
	}
	if strings.HasPrefix(c.name, "(time.Time).") || strings.HasPrefix(c.name, "(*time.Time).") {
		// the representation of a time is the model's
		nm := c.name
		return &intrinsic{f: func(th *thread, fr *frame, a []value) value { return unsup("call of %s", nm) }}
	}
	if strings.HasPrefix(c.name, "(*log.Logger)") {
		res := fn.Signature.Results()
		return &intrinsic{pure: true, f: func(th *thread, fr *frame, a []value) value { return zeroResults(th.w, res) }}
	}
	return nil
}

func zeroResults(w *Worker, res *types.Tuple) value {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.ti(res.At(0).Type()).zero()
	}
	t := make(tupleV, res.Len())
	for i := range t {
		t[i] = w.ti(res.At(i).Type()).zero()
	}
	return t
}

// ---- helpers

func (w *Worker) mkErr(msg value) value {
	t := w.E.typeByName("errors", "errorString")
	if t == nil {
		unsup("errors package not loaded")
	}
	p := new(value)
	*p = structV{msg}
	return iface{w.canon(types.NewPointer(t)), p}
}

func (th *thread) callMethod(v iface, name string, args ...value) value {
	if v.t == nil {
		panic(targetPanic{th.w.nilDeref()})
	}
	if nm, ok := nativeMethod(v, name); ok {
		return nm(th, th.fr, v, args)
	}
	fn := th.w.methodByName(v.t, name)
	if fn == nil {
		unsup("no method %s on %v", name, v.t)
	}
	return th.callCode(th.w.code(fn), append([]value{v.v}, args...), nil, th.fr)
}

func (w *Worker) hasMethod(t types.Type, name string) bool {
	return t != nil && w.methodByName(t, name) != nil
}

func (th *thread) panicString(v value) string {
	i, ok := v.(iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if i.t == nil {
		return "nil"
	}
	s := "?"
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killSentinel); ok {
					panic(r)
				}
			}
		}()
		th.nosched++
		defer func() { th.nosched-- }()
		s = showStr(th.format("%v", []value{i}))
	}()
	return s
}

// ---- side tables keyed by object identity

func sideGet[T any](th *thread, k any, mk func() T) T {
	if th.p == nil || th.w.initDepth > 0 {
		if v, ok := th.w.baseSide[k]; ok {
			return v.(T)
		}
		v := mk()
		th.w.baseSide[k] = v
		return v
	}
	if v, ok := th.p.side[k]; ok {
		return v.(T)
	}
	if v, ok := th.w.baseSide[k]; ok {
		if c, ok := v.(interface{ clone() any }); ok {
			x := c.clone().(T)
			th.p.side[k] = x
			return x
		}
	}
	v := mk()
	th.p.side[k] = v
	return v
}

type sk struct {
	kind string
	p    *value
}

func f64(v value) float64 { return toF(v) }

func init() {
	math1 := map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Log": math.Log, "Exp": math.Exp,
		"Trunc": math.Trunc, "Abs": math.Abs, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round, "Log1p": math.Log1p}
	for n, f := range math1 {
		f := f
		regp("math."+n, func(th *thread, fr *frame, a []value) value { return f(f64(a[0])) })
	}
	math2 := map[string]func(a, b float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod}
	for n, f := range math2 {
		f := f
		regp("math."+n, func(th *thread, fr *frame, a []value) value { return f(f64(a[0]), f64(a[1])) })
	}
	regp("math.Float64bits", func(th *thread, fr *frame, a []value) value { return int64(math.Float64bits(f64(a[0]))) })
	regp("math.Float64frombits", func(th *thread, fr *frame, a []value) value { return math.Float64frombits(uint64(a[0].(int64))) })
	regp("math.Float32bits", func(th *thread, fr *frame, a []value) value {
		return int64(math.Float32bits(float32(f64(a[0]))))
	})
	regp("math.Float32frombits", func(th *thread, fr *frame, a []value) value { return math.Float32frombits(uint32(a[0].(int64))) })
	regp("math.FMA", func(th *thread, fr *frame, a []value) value { return math.FMA(f64(a[0]), f64(a[1]), f64(a[2])) })

	// runtime
	nop := func(th *thread, fr *frame, a []value) value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime/debug.FreeOSMemory", "runtime/debug.SetGCPercent",
		"internal/godebug.(*Setting).IncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "runtime.LockOSThread", "runtime.UnlockOSThread"} {
		regp(n, nop)
	}
	reg("runtime.Gosched", func(th *thread, fr *frame, a []value) value {
		th.point(fr, fr.curPos)
		return nil
	})
	reg("runtime.Goexit", func(th *thread, fr *frame, a []value) value { return unsup("runtime.Goexit") })
	regp("runtime.GOMAXPROCS", func(th *thread, fr *frame, a []value) value { return int64(4) })
	regp("runtime.NumCPU", func(th *thread, fr *frame, a []value) value { return int64(4) })
	regp("runtime.NumGoroutine", func(th *thread, fr *frame, a []value) value {
		n := 0
		for _, t := range th.p.threads {
			if !t.done {
				n++
			}
		}
		return int64(n)
	})
	regp("runtime.Callers", func(th *thread, fr *frame, a []value) value { return int64(0) })
	regp("runtime.Stack", func(th *thread, fr *frame, a []value) value { return int64(0) })
	regp("runtime/debug.Stack", func(th *thread, fr *frame, a []value) value { return []value{} })
	regp("internal/abi.NoEscape", func(th *thread, fr *frame, a []value) value { return a[0] })
	regp("internal/abi.Escape", func(th *thread, fr *frame, a []value) value { return a[0] })
	regp("strings.noescape", func(th *thread, fr *frame, a []value) value { return a[0] })
	regp("internal/stringslite.Clone", func(th *thread, fr *frame, a []value) value { return a[0] })
	regp("strings.Clone", func(th *thread, fr *frame, a []value) value { return a[0] })
	regp("internal/godebug.New", func(th *thread, fr *frame, a []value) value {
		t := th.w.E.typeByName("internal/godebug", "Setting")
		p := new(value)
		*p = th.w.ti(t).zero()
		return p
	})
	regp("(*internal/godebug.Setting).Value", func(th *thread, fr *frame, a []value) value { return "" })
	regp("(*internal/godebug.Setting).Name", func(th *thread, fr *frame, a []value) value { return "" })
	regp("(*internal/godebug.Setting).String", func(th *thread, fr *frame, a []value) value { return "" })
	regp("os.Getenv", func(th *thread, fr *frame, a []value) value { return "" })
	regp("syscall.Getenv", func(th *thread, fr *frame, a []value) value { return tupleV{"", false} })
	regp("internal/testlog.Getenv", nop)

	regErrors()
	regBytes()
	regSync()
	regTime()
	regFmt()
	regReflect()
	regVT()
	regMisc()
}

// ---- errors

func (th *thread) unwrapOne(e iface) (iface, []value, bool) {
	w := th.w
	if e.t == nil {
		return iface{}, nil, false
	}
	fn := w.methodByName(e.t, "Unwrap")
	if fn == nil {
		return iface{}, nil, false
	}
	if fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return iface{}, nil, false
	}
	r := th.callCode(w.code(fn), []value{e.v}, nil, th.fr)
	switch x := r.(type) {
	case iface:
		return x, nil, true
	case []value:
		return iface{}, x, true
	}
	return iface{}, nil, false
}

func (th *thread) errIs(e, target iface) value {
	w := th.w
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	cmp := types.Comparable(target.t)
	for {
		if cmp {
			if w.truth(w.eqIface(e, target)) {
				return true
			}
		}
		if fn := w.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 1 {
			if w.truth(th.callCode(w.code(fn), []value{e.v, target}, nil, th.fr)) {
				return true
			}
		}
		n, many, ok := th.unwrapOne(e)
		if !ok {
			return false
		}
		if many != nil {
			for _, m := range many {
				if m.(iface).t != nil && th.errIs(m.(iface), target) == true {
					return true
				}
			}
			return false
		}
		if n.t == nil {
			return false
		}
		e = n
	}
}

func (th *thread) errAs(e iface, et types.Type, dst *value) bool {
	w := th.w
	for e.t != nil {
		if it, ok := et.Underlying().(*types.Interface); ok {
			if w.implements(e.t, it) {
				w.storeTo(dst, e)
				return true
			}
		} else if w.canon(et) == e.t {
			w.storeTo(dst, copyVal(e.v))
			return true
		}
		if fn := w.methodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
			tgt := iface{w.canon(types.NewPointer(et)), dst}
			if w.truth(th.callCode(w.code(fn), []value{e.v, tgt}, nil, th.fr)) {
				return true
			}
		}
		n, many, ok := th.unwrapOne(e)
		if !ok {
			return false
		}
		if many != nil {
			for _, m := range many {
				if th.errAs(m.(iface), et, dst) {
					return true
				}
			}
			return false
		}
		e = n
	}
	return false
}

func regErrors() {
	reg("errors.Is", func(th *thread, fr *frame, a []value) value { return th.errIs(a[0].(iface), a[1].(iface)) })
	reg("errors.As", func(th *thread, fr *frame, a []value) value {
		t := a[1].(iface)
		if t.t == nil {
			panic(targetPanic{th.w.rtErrPlain("errors: target cannot be nil")})
		}
		p, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(targetPanic{th.w.rtErrPlain("errors: target must be a non-nil pointer")})
		}
		return th.errAs(a[0].(iface), p.Elem(), t.v.(*value))
	})
}

// ---- bytealg

func (w *Worker) eqByte(a, b value) value { return w.eqInt(a, b, 8) }

func indexByte(w *Worker, s []value, c value) value {
	for i, x := range s {
		if w.truth(w.eqByte(x, c)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func regBytes() {
	sl := func(v value) []value { return v.([]value) }
	regp("internal/bytealg.IndexByte", func(th *thread, fr *frame, a []value) value { return indexByte(th.w, sl(a[0]), a[1]) })
	regp("internal/bytealg.IndexByteString", func(th *thread, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return int64(strings.IndexByte(s, byte(c)))
			}
		}
		return indexByte(th.w, strBytes(a[0]), a[1])
	})
	lastIdx := func(w *Worker, s []value, c value) value {
		for i := len(s) - 1; i >= 0; i-- {
			if w.truth(w.eqByte(s[i], c)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	regp("internal/bytealg.LastIndexByte", func(th *thread, fr *frame, a []value) value { return lastIdx(th.w, sl(a[0]), a[1]) })
	regp("internal/bytealg.LastIndexByteString", func(th *thread, fr *frame, a []value) value {
		return lastIdx(th.w, strBytes(a[0]), a[1])
	})
	count := func(w *Worker, s []value, c value) value {
		var n value = int64(0)
		for _, x := range s {
			e := w.eqByte(x, c)
			switch e := e.(type) {
			case bool:
				if e {
					n = w.addInt(n, int64(1))
				}
			case *Term:
				n = w.addInt(n, termVal(w.T.Ite(e, w.T.BV(1, 64), w.T.BV(0, 64)), true))
			}
		}
		return n
	}
	regp("internal/bytealg.Count", func(th *thread, fr *frame, a []value) value { return count(th.w, sl(a[0]), a[1]) })
	regp("internal/bytealg.CountString", func(th *thread, fr *frame, a []value) value {
		return count(th.w, strBytes(a[0]), a[1])
	})
	regp("internal/bytealg.Equal", func(th *thread, fr *frame, a []value) value {
		return th.w.eqStr(mkStr(sl(a[0])), mkStr(sl(a[1])))
	})
	regp("bytes.Equal", func(th *thread, fr *frame, a []value) value {
		return th.w.eqStr(mkStr(sl(a[0])), mkStr(sl(a[1])))
	})
	cmp := func(w *Worker, x, y value) value {
		if p, ok := x.(string); ok {
			if q, ok := y.(string); ok {
				return int64(strings.Compare(p, q))
			}
		}
		if w.truth(w.eqStr(x, y)) {
			return int64(0)
		}
		if w.truth(w.strLess(x, y, false)) {
			return int64(-1)
		}
		return int64(1)
	}
	regp("internal/bytealg.Compare", func(th *thread, fr *frame, a []value) value {
		return cmp(th.w, mkStr(sl(a[0])), mkStr(sl(a[1])))
	})
	regp("internal/bytealg.CompareString", func(th *thread, fr *frame, a []value) value { return cmp(th.w, a[0], a[1]) })
	regp("strings.Compare", func(th *thread, fr *frame, a []value) value { return cmp(th.w, a[0], a[1]) })
	index := func(w *Worker, s, sub []value) value {
		for i := 0; i+len(sub) <= len(s); i++ {
			if w.truth(w.eqStr(mkStr(s[i:i+len(sub)]), mkStr(sub))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	idxS := func(th *thread, fr *frame, a []value) value {
		if p, ok := a[0].(string); ok {
			if q, ok := a[1].(string); ok {
				return int64(strings.Index(p, q))
			}
		}
		return index(th.w, strBytes(a[0]), strBytes(a[1]))
	}
	regp("internal/bytealg.IndexString", idxS)
	regp("strings.Index", idxS)
	regp("internal/stringslite.Index", idxS)
	regp("internal/bytealg.Index", func(th *thread, fr *frame, a []value) value { return index(th.w, sl(a[0]), sl(a[1])) })
	regp("bytes.Index", func(th *thread, fr *frame, a []value) value { return index(th.w, sl(a[0]), sl(a[1])) })
	regp("internal/bytealg.MakeNoZero", func(th *thread, fr *frame, a []value) value {
		n := a[0].(int64)
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	regp("internal/bytealg.Cutover", func(th *thread, fr *frame, a []value) value { return int64(1 << 30) })

	// concrete fast paths; symbolic arguments fall back to the real code
	fast1 := func(name string, f func(string) value) { regFast(name, 1, func(s []string) value { return f(s[0]) }) }
	fast1("strings.ToLower", func(s string) value { return strings.ToLower(s) })
	fast1("strings.ToUpper", func(s string) value { return strings.ToUpper(s) })
	fast1("strings.TrimSpace", func(s string) value { return strings.TrimSpace(s) })
	regFast("strings.EqualFold", 2, func(s []string) value { return strings.EqualFold(s[0], s[1]) })
	regFast("strings.HasPrefix", 2, func(s []string) value { return strings.HasPrefix(s[0], s[1]) })
	regFast("strings.HasSuffix", 2, func(s []string) value { return strings.HasSuffix(s[0], s[1]) })
	regFast("strings.Contains", 2, func(s []string) value { return strings.Contains(s[0], s[1]) })
	regFast("strings.ContainsAny", 2, func(s []string) value { return strings.ContainsAny(s[0], s[1]) })
	regFast("strings.IndexAny", 2, func(s []string) value { return int64(strings.IndexAny(s[0], s[1])) })
	regFast("strings.Trim", 2, func(s []string) value { return strings.Trim(s[0], s[1]) })
	regFast("strings.TrimLeft", 2, func(s []string) value { return strings.TrimLeft(s[0], s[1]) })
	regFast("strings.TrimRight", 2, func(s []string) value { return strings.TrimRight(s[0], s[1]) })
	regFast("strings.LastIndex", 2, func(s []string) value { return int64(strings.LastIndex(s[0], s[1])) })
	regFast("strings.Count", 2, func(s []string) value { return int64(strings.Count(s[0], s[1])) })
	regFast("strings.Split", 2, func(s []string) value {
		var out []value
		for _, x := range strings.Split(s[0], s[1]) {
			out = append(out, x)
		}
		return out
	})
	regFast("strings.Fields", 1, func(s []string) value {
		out := []value{}
		for _, x := range strings.Fields(s[0]) {
			out = append(out, x)
		}
		return out
	})
}

// regFast registers a native implementation used only when every argument is
// a concrete string; otherwise the real function is interpreted.
var fastPaths = map[string]*fastPath{}

type fastPath struct {
	n int
	f func([]string) value
}

func regFast(name string, n int, f func([]string) value) { fastPaths[name] = &fastPath{n, f} }

func (fp *fastPath) try(a []value) (value, bool) {
	var buf [4]string
	for i := 0; i < fp.n; i++ {
		s, ok := a[i].(string)
		if !ok {
			return nil, false
		}
		buf[i] = s
	}
	return fp.f(buf[:fp.n]), true
}
