package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"time"
)

func goUnix(s int64) value {
	return time.Unix(s, 0).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
}

func regMore() {
	reg("unique.Make", func(th *thread, fr *frame, a []value) value {
		k := th.uniqKey(a[0])
		p, ok := th.w.uniq[k]
		if !ok {
			p = new(value)
			*p = copyVal(a[0])
			th.w.uniq[k] = p
		}
		return structV{p}
	})
	reg("maps.clone", func(th *thread, fr *frame, a []value) value {
		x := a[0].(iface)
		m, _ := x.v.(*hmap)
		if m == nil {
			return x
		}
		w := th.w
		c := w.newMap(m.kt)
		for i, k := range m.keys {
			if !m.dead[i] {
				c.set(w, k, copyVal(*m.vals[i]))
			}
		}
		return iface{x.t, c}
	})
	regp("crypto/internal/fips140.getIndicator", func(th *thread, fr *frame, a []value) value { return int64(0) })
	regp("crypto/internal/fips140.setIndicator", func(th *thread, fr *frame, a []value) value { return nil })
	regRand()
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln"} {
		f := func(th *thread, fr *frame, a []value) value {
			panic(targetPanic{th.w.rtErrPlain("log." + n + " called")})
		}
		reg("log."+n, f)
		reg("(*log.Logger)."+n, f)
	}
	reg("os.Exit", func(th *thread, fr *frame, a []value) value {
		panic(targetPanic{th.w.rtErrPlain("os.Exit called")})
	})
	reg("encoding/json.Unmarshal", func(th *thread, fr *frame, a []value) value { return th.jsonUnmarshal(a[0].([]value), a[1].(iface)) })
}

// jsonMap encodes a map with string keys, in the order of the keys.
func (th *thread) jsonMap(t types.Type, m *hmap, d int) value {
	w := th.w
	mt := t.Underlying().(*types.Map)
	if w.ti(mt.Key()).k != kString || w.methodByName(mt.Key(), "MarshalText") != nil {
		unsup("JSON encoding of %v", t)
	}
	if m == nil {
		return "null"
	}
	var is []int
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		j := len(is)
		is = append(is, i)
		for ; j > 0 && w.truth(w.strLess(m.keys[i], m.keys[is[j-1]], false)); j-- {
			is[j] = is[j-1]
		}
		is[j] = i
	}
	out := value("{")
	for n, i := range is {
		if n > 0 {
			out = strConcat(out, ",")
		}
		out = strConcat(strConcat(out, th.jsonStr(m.keys[i])), ":")
		out = strConcat(out, th.jsonVal(mt.Elem(), *m.vals[i], d+1))
	}
	return strConcat(out, "}")
}

// jsonUnmarshal decodes an object of strings into a map of strings.
func (th *thread) jsonUnmarshal(data []value, dst iface) value {
	w := th.w
	if dst.t == nil {
		return w.mkErr("json: Unmarshal(nil)")
	}
	pt, ok := dst.t.Underlying().(*types.Pointer)
	if !ok {
		return w.mkErr("json: Unmarshal(non-pointer " + typeStr(dst.t) + ")")
	}
	mt, ok := pt.Elem().Underlying().(*types.Map)
	if !ok || w.ti(mt.Key()).k != kString || w.ti(mt.Elem()).k != kString {
		unsup("JSON decoding into %v", dst.t)
	}
	p := ptrArg(th, dst.v)
	set := func(k, v value) {
		m := (*p).(*hmap)
		if m == nil {
			m = w.newMap(w.ti(mt.Key()))
			w.storeTo(p, m)
		}
		m.set(w, k, v)
	}
	s := mkStr(data)
	if c, ok := s.(string); ok {
		var m map[string]string
		err := json.Unmarshal([]byte(c), &m)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			set(k, m[k])
		}
		if len(ks) == 0 && err == nil {
			if m == nil {
				w.storeTo(p, (*hmap)(nil))
			} else if (*p).(*hmap) == nil {
				w.storeTo(p, w.newMap(w.ti(mt.Key())))
			}
		}
		if err != nil {
			return w.mkErr(err.Error())
		}
		return iface{}
	}
	// symbolic text: a concrete skeleton with plain characters in the strings
	bs := strBytes(s)
	i := 0
	lit := func(c byte) bool {
		if i < len(bs) {
			if n, ok := bs[i].(int64); ok && byte(n) == c {
				i++
				return true
			}
			if _, ok := bs[i].(*Term); ok {
				unsup("JSON decoding of a symbolic structure")
			}
		}
		return false
	}
	str := func() value {
		if !lit('"') {
			unsup("JSON decoding of a symbolic document that is not an object of strings")
		}
		var out []value
		for {
			if i >= len(bs) {
				unsup("JSON decoding of an unterminated symbolic string")
			}
			b := bs[i]
			if t, ok := b.(*Term); ok {
				T := w.T
				safe := T.And(T.Cmp(OUle, T.BV(0x20, 8), t), T.Cmp(OUlt, t, T.BV(0x7f, 8)))
				for _, c := range []byte{'"', '\\'} {
					safe = T.And(safe, T.Not(T.Eq(t, T.BV(uint64(c), 8))))
				}
				if !w.branch(safe) {
					unsup("JSON decoding of a symbolic special character")
				}
			} else if c := b.(int64); c == '"' {
				i++
				return mkStr(out)
			} else if c == '\\' || c < 0x20 {
				unsup("JSON decoding of escapes next to symbolic text")
			}
			out = append(out, b)
			i++
		}
	}
	if !lit('{') {
		unsup("JSON decoding of a symbolic document that is not an object of strings")
	}
	for first := true; !lit('}'); first = false {
		if !first && !lit(',') {
			unsup("JSON decoding of a symbolic document that is not an object of strings")
		}
		k := str()
		if !lit(':') {
			unsup("JSON decoding of a symbolic document that is not an object of strings")
		}
		set(k, str())
	}
	if i != len(bs) {
		unsup("JSON decoding of a symbolic document that is not an object of strings")
	}
	return iface{}
}

func (th *thread) uniqKey(v value) string {
	switch x := v.(type) {
	case structV:
		k := "{"
		for _, f := range x {
			k += th.uniqKey(f) + ","
		}
		return k + "}"
	case string:
		return strconv.Quote(x)
	case int64, bool, float64:
		return fmt.Sprint(x)
	case *Term:
		return fmt.Sprint(th.w.concretize(x, true))
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			if t, ok := c.(*Term); ok {
				b[i] = byte(th.w.concretize(t, false))
			} else {
				b[i] = byte(c.(int64))
			}
		}
		return strconv.Quote(string(b))
	}
	unsup("unique.Make of %T", v)
	return ""
}

// regRand makes random numbers choices among the ends and the middle of their
// range.
func regRand() {
	pick := func(th *thread, n int64) value {
		if n <= 0 {
			panic(targetPanic{th.w.rtErrPlain("invalid argument to rand")})
		}
		if n == 1 || th.p == nil || th.w.initDepth > 0 {
			return int64(0)
		}
		th.p.selects++
		if n == 2 {
			return int64(th.p.chooseSched(2))
		}
		return []int64{0, n - 1, n / 2}[th.p.chooseSched(3)]
	}
	upto := func(i int) inF {
		return func(th *thread, fr *frame, a []value) value {
			n, ok := a[i].(int64)
			if !ok {
				t := a[i].(*Term)
				T := th.w.T
				if !th.w.fewValues(t, 12) && th.p != nil && th.w.initDepth == 0 {
					zero, one := T.BV(0, t.w), T.BV(1, t.w)
					if !th.w.branch(T.Cmp(OSlt, zero, t)) {
						pick(th, 0)
					}
					th.p.selects++
					return []value{zero, T.Bin(OSub, t, one), T.Bin(OLshr, t, one)}[th.p.chooseSched(3)]
				}
				n = th.w.concretize(t, true)
			}
			return pick(th, n)
		}
	}
	below := func(n int64) inF {
		return func(th *thread, fr *frame, a []value) value { return pick(th, n) }
	}
	float := func(th *thread, fr *frame, a []value) value {
		return []float64{0, 1 - 1.0/(1<<53), 0.5}[pick(th, 3).(int64)]
	}
	for _, pkg := range []string{"math/rand.", "math/rand/v2."} {
		for _, n := range []string{"Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "N", "UintN", "Uint32N", "Uint64N"} {
			reg(pkg+n, upto(0))
			reg("(*"+pkg[:len(pkg)-1]+".Rand)."+n, upto(1))
		}
		for _, n := range []string{"Int", "Int63", "Int64"} {
			reg(pkg+n, below(1<<63-1))
			reg("(*"+pkg[:len(pkg)-1]+".Rand)."+n, below(1<<63-1))
		}
		reg(pkg+"Int31", below(1<<31-1))
		reg(pkg+"Int32", below(1<<31-1))
		reg(pkg+"Uint32", below(1<<32-1))
		reg(pkg+"Float64", float)
		reg("(*"+pkg[:len(pkg)-1]+".Rand).Float64", float)
	}
}
