package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// format implements the subset of fmt's formatting that the code needs. String
// contents may stay symbolic; formatted symbolic numbers become opaque.
func (th *thread) format(f string, args []value) value {
	out := value("")
	lit := 0
	ai := 0
	i := 0
	for i < len(f) {
		if f[i] != '%' {
			i++
			continue
		}
		out = strConcat(out, f[lit:i])
		i++
		start := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0 {
			if f[i] == '*' {
				unsup("fmt: * width")
			}
			i++
		}
		flags := f[start:i]
		if i >= len(f) {
			out = strConcat(out, "%!(NOVERB)")
			lit = i
			break
		}
		if f[i] == '[' {
			unsup("fmt: explicit argument index")
		}
		verb := rune(f[i])
		i++
		lit = i
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		out = strConcat(out, th.fmtArg(verb, flags, args[ai].(iface)))
		ai++
	}
	if lit < len(f) {
		out = strConcat(out, f[lit:])
	}
	if ai < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out
}

func pad(flags string, v value) value {
	s, ok := v.(string)
	if !ok || flags == "" {
		return v
	}
	return fmt.Sprintf("%"+strings.ReplaceAll(strings.ReplaceAll(flags, "#", ""), "+", "")+"s", s)
}

func (th *thread) fmtArg(verb rune, flags string, a iface) value {
	w := th.w
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 'v' {
				return "<nil>"
			}
			return "%!s(<nil>)"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'w' {
		verb = 'v'
	}
	if r, ok := a.v.(*rtypeV); ok {
		return pad(flags, types.TypeString(r.t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' {
		if !strings.Contains(flags, "#") {
			var s value
			if w.isErrorT(a.t) {
				s = th.callSafe(a, "Error")
			} else if w.isStringerT(a.t) {
				s = th.callSafe(a, "String")
			}
			if s != nil {
				return quoteIf(verb, flags, s)
			}
		}
	}
	ti := w.ti(a.t)
	switch ti.k {
	case kString:
		if verb == 'x' {
			if s, ok := a.v.(string); ok {
				return fmt.Sprintf("%"+flags+"x", s)
			}
			return &opaque{}
		}
		return quoteIf(verb, flags, a.v)
	case kInt:
		n, ok := a.v.(int64)
		if !ok {
			x, is := a.v.(*Term)
			if !is || !w.fewValues(x, 12) {
				return &opaque{}
			}
			n = w.concretize(x, ti.signed)
		}
		if verb == 's' {
			return "%!s(int=" + strconv.FormatInt(n, 10) + ")"
		}
		v := string(verb)
		if verb == 'v' {
			v = "d"
		}
		if ti.signed {
			return fmt.Sprintf("%"+flags+v, n)
		}
		return fmt.Sprintf("%"+flags+v, uint64(n))
	case kBool:
		b, ok := a.v.(bool)
		if !ok {
			b = w.branch(a.v.(*Term))
		}
		return fmt.Sprintf("%v", b)
	case kFloat:
		return fmt.Sprintf("%"+flags+string(verb), a.v)
	case kSlice:
		if ti.elem != nil && w.ti(ti.elem).k == kInt && w.ti(ti.elem).w == 8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return quoteIf(verb, flags, mkStr(a.v.([]value)))
		}
		out := value("[")
		for i, x := range a.v.([]value) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			e := iface{w.canon(ti.elem), x}
			if w.ti(ti.elem).k == kIface {
				e = x.(iface)
			}
			out = strConcat(out, th.fmtArg(verb, flags, e))
		}
		return strConcat(out, "]")
	case kArray:
		out := value("[")
		for i, x := range a.v.(arrayV) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, th.fmtElem(verb, flags, ti.elem, x))
		}
		return strConcat(out, "]")
	case kStruct:
		if verb != 'v' || strings.Contains(flags, "#") {
			return &opaque{}
		}
		st := ti.u.(*types.Struct)
		out := value("{")
		for i, x := range a.v.(structV) {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = strConcat(out, st.Field(i).Name()+":")
			}
			if !st.Field(i).Exported() {
				switch w.ti(st.Field(i).Type()).k {
				case kInt, kString, kBool, kFloat:
				default:
					return &opaque{}
				}
			}
			out = strConcat(out, th.fmtElem(verb, flags, st.Field(i).Type(), x))
		}
		return strConcat(out, "}")
	case kMap:
		m, _ := a.v.(*hmap)
		mt := ti.u.(*types.Map)
		out := value("map[")
		if m != nil {
			var is []int
			for i, k := range m.keys {
				if _, ok := k.(string); ok && !m.dead[i] {
					is = append(is, i)
				} else if !m.dead[i] {
					return &opaque{}
				}
			}
			sort.Slice(is, func(i, j int) bool { return m.keys[is[i]].(string) < m.keys[is[j]].(string) })
			for n, i := range is {
				if n > 0 {
					out = strConcat(out, " ")
				}
				out = strConcat(strConcat(out, th.fmtElem(verb, flags, mt.Key(), m.keys[i])), ":")
				out = strConcat(out, th.fmtElem(verb, flags, mt.Elem(), *m.vals[i]))
			}
		}
		return strConcat(out, "]")
	case kPtr:
		p, ok := a.v.(*value)
		if ok && p == nil {
			return "<nil>"
		}
		if ok && verb == 'v' && w.ti(ti.elem).k == kStruct {
			return strConcat("&", th.fmtArg(verb, flags, iface{w.canon(ti.elem), *p}))
		}
	}
	return &opaque{}
}

func (th *thread) fmtElem(verb rune, flags string, t types.Type, x value) value {
	switch th.w.ti(t).k {
	case kIface:
		return th.fmtArg(verb, flags, x.(iface))
	case kPtr:
		if !th.w.isErrorT(t) && !th.w.isStringerT(t) {
			return &opaque{}
		}
	}
	return th.fmtArg(verb, flags, iface{th.w.canon(t), x})
}

func quoteIf(verb rune, flags string, s value) value {
	switch verb {
	case 'q':
		if c, ok := s.(string); ok {
			return strconv.Quote(c)
		}
		return &opaque{}
	case 'x':
		if c, ok := s.(string); ok {
			return fmt.Sprintf("%x", c)
		}
		return &opaque{}
	}
	return pad(flags, s)
}

func (th *thread) callSafe(a iface, m string) (out value) {
	if p, ok := a.v.(*value); ok && p == nil {
		return "<nil>"
	}
	return th.callMethod(a, m)
}

func (w *Worker) isErrorT(t types.Type) bool {
	k := "error"
	_ = k
	return w.implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

var stringerI = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", types.NewSignatureType(nil, nil, nil, nil,
	types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func (w *Worker) isStringerT(t types.Type) bool { return w.implements(t, stringerI) }

func (th *thread) sprint(args []value, ln bool) value {
	out := value("")
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && th.w.ti(x.t).k == kString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = strConcat(out, " ")
		}
		prevStr = isStr
		out = strConcat(out, th.fmtArg('v', "", x))
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

func (th *thread) writeTo(wr value, s value) value {
	b := strBytes(s)
	c := make([]value, len(b))
	copy(c, b)
	return th.callMethod(wr.(iface), "Write", c)
}

func regFmt() {
	sl := func(v value) []value { return v.([]value) }
	reg("fmt.Sprintf", func(th *thread, fr *frame, a []value) value { return th.format(strConcrete(a[0]), sl(a[1])) })
	reg("fmt.Sprint", func(th *thread, fr *frame, a []value) value { return th.sprint(sl(a[0]), false) })
	reg("fmt.Sprintln", func(th *thread, fr *frame, a []value) value { return th.sprint(sl(a[0]), true) })
	reg("fmt.Fprintf", func(th *thread, fr *frame, a []value) value {
		return th.writeTo(a[0], th.format(strConcrete(a[1]), sl(a[2])))
	})
	reg("fmt.Fprint", func(th *thread, fr *frame, a []value) value { return th.writeTo(a[0], th.sprint(sl(a[1]), false)) })
	reg("fmt.Fprintln", func(th *thread, fr *frame, a []value) value { return th.writeTo(a[0], th.sprint(sl(a[1]), true)) })
	reg("fmt.Appendf", func(th *thread, fr *frame, a []value) value {
		s := append([]value(nil), sl(a[0])...)
		return append(s, strBytes(th.format(strConcrete(a[1]), sl(a[2])))...)
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(th *thread, fr *frame, a []value) value { return tupleV{int64(0), iface{}} })
	}
	reg("fmt.Errorf", func(th *thread, fr *frame, a []value) value {
		w := th.w
		f := strConcrete(a[0])
		args := sl(a[1])
		// find %w operands
		var wrapped []iface
		ai := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && ai < len(args) {
				if x := args[ai].(iface); x.t != nil && w.isErrorT(x.t) {
					wrapped = append(wrapped, x)
				}
			}
			ai++
		}
		msg := th.format(f, args)
		p := new(value)
		switch len(wrapped) {
		case 0:
			t := w.E.typeByName("fmt", "fmtError")
			if t == nil {
				return w.mkErr(msg)
			}
			return w.mkErr(msg)
		case 1:
			*p = structV{msg, wrapped[0]}
			return iface{w.canon(types.NewPointer(w.E.typeByName("fmt", "wrapError"))), p}
		}
		var es []value
		for _, x := range wrapped {
			es = append(es, x)
		}
		*p = structV{msg, es}
		return iface{w.canon(types.NewPointer(w.E.typeByName("fmt", "wrapErrors"))), p}
	})

	// strconv on symbolic numbers
	parseInt := func(name string, bitsArg bool) {
		fp := intrinsicsFall(name)
		_ = fp
	}
	_ = parseInt
	marks["strconv.ParseInt"] = func(th *thread, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		v, ok := th.p.markerOf(s, "n")
		if !ok {
			return nil, false
		}
		if a[2] != int64(64) && a[2] != int64(0) {
			unsup("ParseInt of a symbolic number into %v bits", a[2])
		}
		return tupleV{v, iface{}}, true
	}
	marks["strconv.ParseUint"] = func(th *thread, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		v, ok := th.p.markerOf(s, "n")
		if !ok {
			return nil, false
		}
		if th.w.truth(th.w.ltInt(v, int64(0))) {
			return tupleV{int64(0), th.w.mkErr("strconv.ParseUint: invalid syntax")}, true
		}
		return tupleV{v, iface{}}, true
	}
	marks["strconv.Atoi"] = func(th *thread, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		v, ok := th.p.markerOf(s, "n")
		if !ok {
			return nil, false
		}
		return tupleV{v, iface{}}, true
	}
	marks["time.ParseDuration"] = func(th *thread, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok || !strings.HasSuffix(s, "zs") {
			return nil, false
		}
		v, ok := th.p.markerOf(s[:len(s)-1], "n")
		if !ok {
			return nil, false
		}
		// seconds; time.ParseDuration rejects values that overflow
		w := th.w
		t := w.term(v, 64)
		lim := w.T.BV(uint64(maxDur/1e9), 64)
		neg := w.T.Neg(lim)
		okc := w.T.And(w.T.Cmp(OSle, t, lim), w.T.Cmp(OSle, neg, t))
		if !w.branch(okc) {
			return tupleV{int64(0), w.mkErr("time: invalid duration")}, true
		}
		return tupleV{termVal(w.T.Bin(OMul, t, w.T.BV(1e9, 64)), true), iface{}}, true
	}
	for _, n := range []string{"strconv.FormatInt", "strconv.Itoa", "strconv.FormatUint"} {
		marks[n] = func(th *thread, a []value) (value, bool) {
			if x, ok := a[0].(*Term); ok {
				if !th.w.fewValues(x, 12) {
					return &opaque{}, true
				}
				a[0] = th.w.concretize(x, true)
			}
			return nil, false
		}
	}
	regFast("strconv.Quote", 1, func(s []string) value { return strconv.Quote(s[0]) })
}

// marks are hooks tried before interpreting a function.
var marks = map[string]func(th *thread, a []value) (value, bool){}

func intrinsicsFall(string) any { return nil }
