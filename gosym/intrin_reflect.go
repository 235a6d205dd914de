package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/spaolacci/murmur3"
)

// rtypeV is an engine-native reflect.Type.
type rtypeV struct{ t types.Type }

// rvalue is an engine-native reflect.Value.
type rvalue struct {
	t types.Type
	p *value // location when addressable
	v value

	ro bool // reached through an unexported field
}

func (r *rvalue) get() value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

func (w *Worker) rtype(t types.Type) value {
	if t == nil {
		return iface{}
	}
	t = w.canon(t)
	r, ok := w.rtypes[t]
	if !ok {
		r = &rtypeV{t}
		w.rtypes[t] = r
	}
	rt := w.E.typeByName("reflect", "rtype")
	return iface{w.canon(types.NewPointer(rt)), r}
}

func kindOf(w *Worker, t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	unsup("reflect kind of %v", t)
	return 0
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func (w *Worker) mkRV(t types.Type, p *value, v value) value {
	vt := w.ti(w.E.typeByName("reflect", "Value")).zero().(structV)
	vt[0] = &nativeObj{kind: "rv", v: &rvalue{t: w.canon(t), p: p, v: v}}
	return vt
}

// mkRO is mkRV for a part of r.
func (w *Worker) mkRO(r *rvalue, t types.Type, p *value, v value) value {
	x := w.mkRV(t, p, v)
	rvOf(x).ro = r.ro
	return x
}

func rvOf(v value) *rvalue {
	s, ok := v.(structV)
	if !ok {
		checkPoison(v)
		unsup("reflect.Value %T", v)
	}
	n, ok := s[0].(*nativeObj)
	if !ok {
		return nil
	}
	return n.v.(*rvalue)
}

func rpanic(th *thread, f string, a ...any) value {
	panic(targetPanic{th.w.rtErrPlain(fmt.Sprintf(f, a...))})
}

type nativeFn = func(th *thread, fr *frame, recv iface, a []value) value

func nativeMethod(v iface, name string) (nativeFn, bool) {
	r, ok := v.v.(*rtypeV)
	if !ok {
		return nil, false
	}
	return func(th *thread, fr *frame, recv iface, a []value) value { return typeMethod(th, r, name, a) }, true
}

func typeMethod(th *thread, r *rtypeV, name string, a []value) value {
	w := th.w
	t := r.t
	switch name {
	case "Kind":
		return int64(kindOf(w, t))
	case "Name":
		return typeName(t)
	case "String":
		return typeStr(t)
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Comparable":
		return types.Comparable(t)
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return w.rtype(u.Elem())
		case *types.Slice:
			return w.rtype(u.Elem())
		case *types.Array:
			return w.rtype(u.Elem())
		case *types.Map:
			return w.rtype(u.Elem())
		case *types.Chan:
			return w.rtype(u.Elem())
		}
		return rpanic(th, "reflect: Elem of invalid type %s", typeStr(t))
	case "Key":
		return w.rtype(t.Underlying().(*types.Map).Key())
	case "Len":
		return t.Underlying().(*types.Array).Len()
	case "NumMethod":
		return int64(w.E.msets.MethodSet(t).Len())
	case "NumField":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return rpanic(th, "reflect: NumField of non-struct type %s", typeStr(t))
		}
		return int64(s.NumFields())
	case "Field":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return rpanic(th, "reflect: Field of non-struct type %s", typeStr(t))
		}
		i := a[0].(int64)
		f := s.Field(int(i))
		st := w.E.typeByName("reflect", "StructField")
		out := w.ti(st).zero().(structV)
		su := st.Underlying().(*types.Struct)
		for k := 0; k < su.NumFields(); k++ {
			switch su.Field(k).Name() {
			case "Name":
				out[k] = f.Name()
			case "PkgPath":
				if !f.Exported() {
					out[k] = f.Pkg().Path()
				}
			case "Type":
				out[k] = w.rtype(f.Type())
			case "Tag":
				out[k] = s.Tag(int(i))
			case "Index":
				out[k] = []value{i}
			case "Anonymous":
				out[k] = f.Anonymous()
			}
		}
		return out
	case "Implements":
		it := a[0].(iface).v.(*rtypeV).t.Underlying().(*types.Interface)
		return w.implements(t, it)
	case "AssignableTo":
		return types.AssignableTo(t, a[0].(iface).v.(*rtypeV).t)
	case "ConvertibleTo":
		return types.ConvertibleTo(t, a[0].(iface).v.(*rtypeV).t)
	case "Bits":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric) != 0 {
			return 8 * types.SizesFor("gc", "amd64").Sizeof(t)
		}
		return rpanic(th, "reflect: Bits of non-arithmetic Type %s", typeStr(t))
	case "FieldByName":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return rpanic(th, "reflect: FieldByName of non-struct type %s", typeStr(t))
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				return unsup("reflect FieldByName with embedded fields")
			}
			if s.Field(i).Name() == a[0] {
				return tupleV{typeMethod(th, r, "Field", []value{int64(i)}), true}
			}
		}
		return tupleV{w.ti(w.E.typeByName("reflect", "StructField")).zero(), false}
	case "Size":
		return types.SizesFor("gc", "amd64").Sizeof(t)
	}
	return unsup("reflect.Type.%s", name)
}

func regReflect() {
	R := func(n string, f inF) { reg("reflect."+n, f) }
	R("TypeOf", func(th *thread, fr *frame, a []value) value { return th.w.rtype(a[0].(iface).t) })
	for _, n := range []string{"internal/reflectlite.TypeOf"} {
		reg(n, func(th *thread, fr *frame, a []value) value { return th.w.rtype(a[0].(iface).t) })
	}
	R("ValueOf", func(th *thread, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return th.w.ti(th.w.E.typeByName("reflect", "Value")).zero()
		}
		return th.w.mkRV(i.t, nil, i.v)
	})
	R("New", func(th *thread, fr *frame, a []value) value {
		t := a[0].(iface).v.(*rtypeV).t
		p := new(value)
		*p = th.w.ti(t).zero()
		return th.w.mkRV(types.NewPointer(t), nil, p)
	})
	R("Zero", func(th *thread, fr *frame, a []value) value {
		t := a[0].(iface).v.(*rtypeV).t
		return th.w.mkRV(t, nil, th.w.ti(t).zero())
	})
	R("Indirect", func(th *thread, fr *frame, a []value) value {
		r := rvOf(a[0])
		if _, ok := r.t.Underlying().(*types.Pointer); !ok {
			return a[0]
		}
		return rvElem(th, r)
	})
	R("PointerTo", func(th *thread, fr *frame, a []value) value {
		return th.w.rtype(types.NewPointer(a[0].(iface).v.(*rtypeV).t))
	})
	R("MakeSlice", func(th *thread, fr *frame, a []value) value {
		t := a[0].(iface).v.(*rtypeV).t
		n, c := a[1].(int64), a[2].(int64)
		et := th.w.ti(t.Underlying().(*types.Slice).Elem())
		s := make([]value, c)
		for i := range s {
			s[i] = et.zero()
		}
		return th.w.mkRV(t, nil, s[:n])
	})
	R("DeepEqual", func(th *thread, fr *frame, a []value) value {
		return th.deepEq(a[0].(iface), a[1].(iface))
	})
	M := func(n string, f func(th *thread, r *rvalue, a []value) value) {
		reg("(reflect.Value)."+n, func(th *thread, fr *frame, a []value) value {
			r := rvOf(a[0])
			if r == nil {
				if n == "IsValid" {
					return false
				}
				if n == "Kind" {
					return int64(0)
				}
				return rpanic(th, "reflect: call of reflect.Value.%s on zero Value", n)
			}
			return f(th, r, a[1:])
		})
	}
	M("IsValid", func(th *thread, r *rvalue, a []value) value { return true })
	M("Type", func(th *thread, r *rvalue, a []value) value { return th.w.rtype(r.t) })
	M("Kind", func(th *thread, r *rvalue, a []value) value { return int64(kindOf(th.w, r.t)) })
	M("Elem", func(th *thread, r *rvalue, a []value) value { return rvElem(th, r) })
	M("Interface", func(th *thread, r *rvalue, a []value) value {
		if r.ro {
			return rpanic(th, "reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		v := copyVal(r.get())
		if th.w.ti(r.t).k == kIface {
			return v
		}
		return iface{th.w.canon(r.t), v}
	})
	M("CanInterface", func(th *thread, r *rvalue, a []value) value { return !r.ro })
	M("CanSet", func(th *thread, r *rvalue, a []value) value { return r.p != nil && !r.ro })
	M("CanAddr", func(th *thread, r *rvalue, a []value) value { return r.p != nil })
	M("Addr", func(th *thread, r *rvalue, a []value) value {
		if r.p == nil {
			return rpanic(th, "reflect.Value.Addr of unaddressable value")
		}
		return th.w.mkRO(r, types.NewPointer(r.t), nil, r.p)
	})
	M("IsNil", func(th *thread, r *rvalue, a []value) value {
		switch x := r.get().(type) {
		case *value:
			return x == nil
		case []value:
			return x == nil
		case *hmap:
			return x == nil
		case iface:
			return x.t == nil
		case *funcV:
			return x == nil
		case *chanV:
			return x == nil
		}
		return rpanic(th, "reflect: call of reflect.Value.IsNil on %s Value", kindOf(th.w, r.t))
	})
	M("IsZero", func(th *thread, r *rvalue, a []value) value {
		ti := th.w.ti(r.t)
		return th.w.eq(ti, r.get(), ti.zero())
	})
	M("Len", func(th *thread, r *rvalue, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return int64(len(x))
		case arrayV:
			return int64(len(x))
		case *hmap:
			return int64(x.length())
		case string, *SymStr:
			return int64(strLen(x))
		}
		return unsup("reflect Len")
	})
	M("NumField", func(th *thread, r *rvalue, a []value) value {
		return int64(r.t.Underlying().(*types.Struct).NumFields())
	})
	field := func(th *thread, r *rvalue, i int) *rvalue {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			rpanic(th, "reflect: call of reflect.Value.Field on %s Value", kindOf(th.w, r.t))
		}
		if i < 0 || i >= st.NumFields() {
			rpanic(th, "reflect: Field index out of range")
		}
		if r.p != nil {
			s := (*r.p).(structV)
			return &rvalue{t: th.w.canon(st.Field(i).Type()), p: &s[i], ro: r.ro || !st.Field(i).Exported()}
		}
		return &rvalue{t: th.w.canon(st.Field(i).Type()), v: r.v.(structV)[i], ro: r.ro || !st.Field(i).Exported()}
	}
	M("Field", func(th *thread, r *rvalue, a []value) value {
		f := field(th, r, int(a[0].(int64)))
		return th.w.mkRO(f, f.t, f.p, f.v)
	})
	M("FieldByIndex", func(th *thread, r *rvalue, a []value) value {
		for _, i := range a[0].([]value) {
			if _, ok := r.t.Underlying().(*types.Pointer); ok {
				r = rvOf(rvElem(th, r))
			}
			r = field(th, r, int(i.(int64)))
		}
		return th.w.mkRO(r, r.t, r.p, r.v)
	})
	M("Index", func(th *thread, r *rvalue, a []value) value {
		i := int(a[0].(int64))
		switch x := r.get().(type) {
		case []value:
			if i < 0 || i >= len(x) {
				return rpanic(th, "reflect: slice index out of range")
			}
			return th.w.mkRO(r, r.t.Underlying().(*types.Slice).Elem(), &x[i], nil)
		case arrayV:
			if i < 0 || i >= len(x) {
				return rpanic(th, "reflect: array index out of range")
			}
			et := r.t.Underlying().(*types.Array).Elem()
			if r.p == nil {
				return th.w.mkRO(r, et, nil, x[i])
			}
			return th.w.mkRO(r, et, &x[i], nil)
		}
		return unsup("reflect Index")
	})
	M("String", func(th *thread, r *rvalue, a []value) value {
		if th.w.ti(r.t).k == kString {
			return r.get()
		}
		return "<" + typeStr(r.t) + " Value>"
	})
	M("Int", func(th *thread, r *rvalue, a []value) value { return r.get() })
	M("Uint", func(th *thread, r *rvalue, a []value) value { return r.get() })
	M("Bool", func(th *thread, r *rvalue, a []value) value { return r.get() })
	M("Float", func(th *thread, r *rvalue, a []value) value { return toF(r.get()) })
	M("Bytes", func(th *thread, r *rvalue, a []value) value { return r.get() })
	M("CanUint", func(th *thread, r *rvalue, a []value) value {
		k := kindOf(th.w, r.t)
		return k >= reflect.Uint && k <= reflect.Uintptr
	})
	M("CanFloat", func(th *thread, r *rvalue, a []value) value { return th.w.ti(r.t).k == kFloat })
	M("NumMethod", func(th *thread, r *rvalue, a []value) value {
		return int64(th.w.E.msets.MethodSet(r.t).Len())
	})
	M("Comparable", func(th *thread, r *rvalue, a []value) value { return types.Comparable(r.t) })
	M("Cap", func(th *thread, r *rvalue, a []value) value {
		switch x := r.get().(type) {
		case []value:
			return int64(cap(x))
		case arrayV:
			return int64(len(x))
		}
		return unsup("reflect Cap")
	})
	M("FieldByName", func(th *thread, r *rvalue, a []value) value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			return rpanic(th, "reflect: call of reflect.Value.FieldByName on %s Value", kindOf(th.w, r.t))
		}
		name, ok := a[0].(string)
		if !ok {
			return unsup("reflect FieldByName of a symbolic name")
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				return unsup("reflect FieldByName with embedded fields")
			}
			if st.Field(i).Name() == name {
				f := field(th, r, i)
				return th.w.mkRO(f, f.t, f.p, f.v)
			}
		}
		return th.w.ti(th.w.E.typeByName("reflect", "Value")).zero()
	})
	M("Slice", func(th *thread, r *rvalue, a []value) value {
		i, j := a[0].(int64), a[1].(int64)
		switch x := r.get().(type) {
		case []value:
			if i < 0 || j < i || j > int64(cap(x)) {
				return rpanic(th, "reflect.Value.Slice: slice index out of bounds")
			}
			return th.w.mkRO(r, r.t, nil, x[i:j])
		case string:
			if i < 0 || j < i || j > int64(len(x)) {
				return rpanic(th, "reflect.Value.Slice: string slice index out of bounds")
			}
			return th.w.mkRO(r, r.t, nil, x[i:j])
		}
		return unsup("reflect Slice")
	})
	M("Convert", func(th *thread, r *rvalue, a []value) value {
		t := a[0].(iface).v.(*rtypeV).t
		if th.w.ti(t).k == kIface {
			x := copyVal(r.get())
			if th.w.ti(r.t).k != kIface {
				x = iface{th.w.canon(r.t), x}
			}
			return th.w.mkRO(r, t, nil, x)
		}
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return th.w.mkRO(r, t, nil, copyVal(r.get()))
		}
		return unsup("reflect Convert of %s to %s", typeStr(r.t), typeStr(t))
	})
	over := func(n string, k tk, signed bool) {
		M(n, func(th *thread, r *rvalue, a []value) value {
			ti := th.w.ti(r.t)
			if ti.k != k || k == kInt && ti.signed != signed {
				return rpanic(th, "reflect: call of reflect.Value.%s on %s Value", n, kindOf(th.w, r.t))
			}
			if k == kFloat {
				x := toF(a[0])
				return ti.w == 32 && math.Abs(x) > math.MaxFloat32 && !math.IsInf(x, 0)
			}
			switch x := a[0].(type) {
			case int64:
				return norm(x, ti.w, signed) != x
			case *Term:
				T := th.w.T
				return termVal(T.Not(T.Eq(T.Resize(T.Resize(x, ti.w, signed), 64, signed), x)), false)
			}
			return unsup("reflect %s", n)
		})
	}
	over("OverflowInt", kInt, true)
	over("OverflowUint", kInt, false)
	over("OverflowFloat", kFloat, false)
	M("CanInt", func(th *thread, r *rvalue, a []value) value {
		k := kindOf(th.w, r.t)
		return k >= reflect.Int && k <= reflect.Int64
	})
	set := func(th *thread, r *rvalue, v value, ok bool, what string) value {
		if r.p == nil {
			return rpanic(th, "reflect: reflect.Value.%s using unaddressable value", what)
		}
		if r.ro {
			return rpanic(th, "reflect: reflect.Value.%s using value obtained using unexported field", what)
		}
		if !ok {
			return rpanic(th, "reflect: call of reflect.Value.%s on %s Value", what, kindOf(th.w, r.t))
		}
		if th.p != nil && th.p.multi {
			th.raceCell(r.p, true, th.fr)
		}
		th.w.storeTo(r.p, v)
		return nil
	}
	M("SetString", func(th *thread, r *rvalue, a []value) value {
		return set(th, r, a[0], th.w.ti(r.t).k == kString, "SetString")
	})
	M("SetBool", func(th *thread, r *rvalue, a []value) value {
		return set(th, r, a[0], th.w.ti(r.t).k == kBool, "SetBool")
	})
	setNum := func(n string, signed bool) {
		M(n, func(th *thread, r *rvalue, a []value) value {
			ti := th.w.ti(r.t)
			ok := ti.k == kInt && ti.signed == signed
			if !ok {
				return set(th, r, nil, false, n)
			}
			v := a[0]
			if x, ok := v.(int64); ok {
				v = norm(x, ti.w, signed)
			} else {
				v = termVal(th.w.T.Resize(v.(*Term), ti.w, signed), signed)
			}
			return set(th, r, v, true, n)
		})
	}
	setNum("SetInt", true)
	setNum("SetUint", false)
	M("SetFloat", func(th *thread, r *rvalue, a []value) value {
		ti := th.w.ti(r.t)
		if ti.k != kFloat {
			return set(th, r, nil, false, "SetFloat")
		}
		f := toF(a[0])
		if ti.w == 32 {
			return set(th, r, float32(f), true, "SetFloat")
		}
		return set(th, r, f, true, "SetFloat")
	})
	M("SetBytes", func(th *thread, r *rvalue, a []value) value {
		ti := th.w.ti(r.t)
		return set(th, r, a[0], ti.k == kSlice && th.w.ti(ti.elem).w == 8, "SetBytes")
	})
	M("Set", func(th *thread, r *rvalue, a []value) value {
		x := rvOf(a[0])
		if x == nil {
			return rpanic(th, "reflect: call of reflect.Value.Set with zero Value")
		}
		v := copyVal(x.get())
		if th.w.ti(r.t).k == kIface {
			if th.w.ti(x.t).k != kIface {
				v = iface{th.w.canon(x.t), v}
			}
		} else if !types.AssignableTo(x.t, r.t) {
			return rpanic(th, "reflect.Set: value of type %s is not assignable to type %s", typeStr(x.t), typeStr(r.t))
		}
		return set(th, r, v, true, "Set")
	})
	M("SetZero", func(th *thread, r *rvalue, a []value) value {
		return set(th, r, th.w.ti(r.t).zero(), true, "SetZero")
	})
	M("Grow", func(th *thread, r *rvalue, a []value) value {
		s, n := r.get().([]value), int(a[0].(int64))
		if n < 0 {
			return rpanic(th, "reflect.Value.Grow: negative len")
		}
		if cap(s)-len(s) >= n {
			return nil
		}
		x := make([]value, len(s)+n)
		copy(x, s)
		et := th.w.ti(r.t.Underlying().(*types.Slice).Elem())
		for i := len(s); i < len(x); i++ {
			x[i] = et.zero()
		}
		return set(th, r, x[:len(s)], true, "Grow")
	})
	M("SetLen", func(th *thread, r *rvalue, a []value) value {
		s := r.get().([]value)
		if n := a[0].(int64); n < 0 || n > int64(cap(s)) {
			return rpanic(th, "reflect: slice length out of range in SetLen")
		}
		return set(th, r, s[:a[0].(int64)], true, "SetLen")
	})
	reg("reflect.AppendSlice", func(th *thread, fr *frame, a []value) value {
		r := rvOf(a[0])
		s := append([]value(nil), r.get().([]value)...)
		for _, x := range rvOf(a[1]).get().([]value) {
			s = append(s, copyVal(x))
		}
		return th.w.mkRV(r.t, nil, s)
	})
	reg("reflect.Copy", func(th *thread, fr *frame, a []value) value {
		d, okd := rvOf(a[0]).get().([]value)
		s, oks := rvOf(a[1]).get().([]value)
		if !okd || !oks {
			return unsup("reflect Copy")
		}
		n := min(len(d), len(s))
		tmp := make([]value, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		for i := range tmp {
			th.w.storeTo(&d[i], tmp[i])
		}
		return int64(n)
	})
	reg("reflect.Append", func(th *thread, fr *frame, a []value) value {
		r := rvOf(a[0])
		s := append([]value(nil), r.get().([]value)...)
		for _, x := range a[1].([]value) {
			s = append(s, copyVal(rvOf(x).get()))
		}
		return th.w.mkRV(r.t, nil, s)
	})
}

func rvElem(th *thread, r *rvalue) value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := r.get().(*value)
		if p == nil {
			return th.w.ti(th.w.E.typeByName("reflect", "Value")).zero()
		}
		return th.w.mkRO(r, u.Elem(), p, nil)
	case *types.Interface:
		i := r.get().(iface)
		if i.t == nil {
			return th.w.ti(th.w.E.typeByName("reflect", "Value")).zero()
		}
		return th.w.mkRO(r, i.t, nil, i.v)
	}
	return rpanic(th, "reflect: call of reflect.Value.Elem on %s Value", kindOf(th.w, r.t))
}

func (th *thread) deepEq(x, y iface) value {
	w := th.w
	if x.t == nil || y.t == nil {
		return x.t == nil && y.t == nil
	}
	if x.t != y.t {
		return false
	}
	return th.deep(w.ti(x.t), x.v, y.v, 0)
}

func (th *thread) deep(t *tinfo, a, b value, d int) value {
	w := th.w
	if d > 50 {
		unsup("DeepEqual recursion")
	}
	switch t.k {
	case kSlice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r value = true
		et := w.ti(t.elem)
		for i := range x {
			r = w.vAnd(r, th.deep(et, x[i], y[i], d+1))
		}
		return r
	case kPtr:
		x, y := a.(*value), b.(*value)
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return th.deep(w.ti(t.elem), *x, *y, d+1)
	case kStruct:
		x, y := a.(structV), b.(structV)
		var r value = true
		for i := range x {
			r = w.vAnd(r, th.deep(t.f[i], x[i], y[i], d+1))
		}
		return r
	case kArray:
		x, y := a.(arrayV), b.(arrayV)
		var r value = true
		for i := range x {
			r = w.vAnd(r, th.deep(t.el, x[i], y[i], d+1))
		}
		return r
	case kMap:
		x, y := a.(*hmap), b.(*hmap)
		if (x == nil) != (y == nil) || x.length() != y.length() {
			return false
		}
		var r value = true
		if x != nil {
			et := w.ti(t.elem)
			for i, k := range x.keys {
				if x.dead[i] {
					continue
				}
				v, ok := y.get(w, k)
				if !ok {
					return false
				}
				r = w.vAnd(r, th.deep(et, *x.vals[i], v, d+1))
			}
		}
		return r
	case kIface:
		return th.deepEq(a.(iface), b.(iface))
	case kFunc:
		return a.(*funcV) == nil && b.(*funcV) == nil
	}
	return w.eq(t, a, b)
}

// ---- encoding/json.Encoder

type jsonEnc struct{ w value }

type jsonError struct{ msg string }

func (th *thread) jsonStr(s value) value {
	if c, ok := s.(string); ok {
		var sb strings.Builder
		e := json.NewEncoder(&sb)
		e.Encode(c)
		return strings.TrimSuffix(sb.String(), "\n")
	}
	w := th.w
	out := value(`"`)
	for _, b := range strBytes(s) {
		if t, ok := b.(*Term); ok {
			// plain ASCII characters that JSON leaves alone, otherwise concretise
			T := w.T
			safe := T.And(T.Cmp(OUle, T.BV(0x20, 8), t), T.Cmp(OUlt, t, T.BV(0x7f, 8)))
			for _, c := range []byte{'"', '\\', '<', '>', '&'} {
				safe = T.And(safe, T.Not(T.Eq(t, T.BV(uint64(c), 8))))
			}
			if w.branch(safe) {
				out = strConcat(out, mkStr([]value{b}))
				continue
			}
			b = w.concretize(t, false)
		}
		c := b.(int64)
		if c >= 0x80 {
			unsup("JSON encoding of a symbolic non-ASCII string")
		}
		q := th.jsonStr(string(rune(c))).(string)
		out = strConcat(out, q[1:len(q)-1])
	}
	return strConcat(out, `"`)
}

func (th *thread) jsonVal(t types.Type, v value, d int) value {
	w := th.w
	if d > 20 {
		unsup("JSON recursion")
	}
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		if fn := w.methodByName(t, m); fn != nil {
			if p, ok := v.(*value); ok && p == nil {
				return "null"
			}
			r := th.callMethod(iface{w.canon(t), v}, m).(tupleV)
			if r[1].(iface).t != nil {
				panic(jsonError{"json: error calling " + m + " for type " + typeStr(t) + ": " + showStr(th.fmtArg('v', "", r[1].(iface)))})
			}
			if m == "MarshalText" {
				return th.jsonStr(mkStr(r[0].([]value)))
			}
			return mkStr(r[0].([]value))
		}
	}
	ti := w.ti(t)
	switch ti.k {
	case kString:
		return th.jsonStr(v)
	case kBool:
		if w.truth(v) {
			return "true"
		}
		return "false"
	case kInt:
		n, ok := v.(int64)
		if !ok {
			return &opaque{}
		}
		if ti.signed {
			return strconv.FormatInt(n, 10)
		}
		return strconv.FormatUint(uint64(n), 10)
	case kFloat:
		f := toF(v)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			panic(jsonError{"json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, int(ti.w))})
		}
		var b []byte
		if ti.w == 32 {
			b, _ = json.Marshal(float32(f))
		} else {
			b, _ = json.Marshal(f)
		}
		return string(b)
	case kSlice:
		s := v.([]value)
		if s == nil {
			return "null"
		}
		if w.ti(ti.elem).k == kInt && w.ti(ti.elem).w == 8 {
			c, ok := mkStr(s).(string)
			if !ok {
				return unsup("base64 of symbolic bytes")
			}
			b, _ := json.Marshal([]byte(c))
			return string(b)
		}
		out := value("[")
		for i, e := range s {
			if i > 0 {
				out = strConcat(out, ",")
			}
			out = strConcat(out, th.jsonVal(ti.elem, e, d+1))
		}
		return strConcat(out, "]")
	case kStruct:
		st := t.Underlying().(*types.Struct)
		s := v.(structV)
		out := value("{")
		n := 0
		for i := range s {
			f := st.Field(i)
			if !f.Exported() {
				continue
			}
			if f.Anonymous() {
				unsup("JSON of embedded fields")
			}
			name := f.Name()
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			if j := strings.IndexByte(tag, ','); j >= 0 {
				if tag[j:] != "" {
					unsup("JSON tag options")
				}
				tag = tag[:j]
			}
			if tag != "" {
				name = tag
			}
			if n > 0 {
				out = strConcat(out, ",")
			}
			n++
			out = strConcat(out, th.jsonStr(name))
			out = strConcat(out, ":")
			out = strConcat(out, th.jsonVal(f.Type(), s[i], d+1))
		}
		return strConcat(out, "}")
	case kMap:
		return th.jsonMap(t, v.(*hmap), d)
	case kPtr:
		p := v.(*value)
		if p == nil {
			return "null"
		}
		return th.jsonVal(ti.elem, *p, d+1)
	case kIface:
		i := v.(iface)
		if i.t == nil {
			return "null"
		}
		return th.jsonVal(i.t, i.v, d+1)
	case kChan, kFunc, kComplex:
		panic(jsonError{"json: unsupported type: " + typeStr(t)})
	}
	return unsup("JSON encoding of %v", t)
}

func regMisc() {
	regMore()
	reg("encoding/json.NewEncoder", func(th *thread, fr *frame, a []value) value {
		t := th.w.E.typeByName("encoding/json", "Encoder")
		p := new(value)
		*p = th.w.ti(t).zero()
		sideGet(th, sk{"jsonenc", p}, func() *jsonEnc { return &jsonEnc{a[0]} })
		return p
	})
	reg("(*encoding/json.Encoder).Encode", func(th *thread, fr *frame, a []value) (ret value) {
		p := ptrArg(th, a[0])
		e := sideGet(th, sk{"jsonenc", p}, func() *jsonEnc { unsup("unknown json encoder"); return nil })
		// the encoder's own state is unsynchronised
		if th.p != nil && th.p.multi && fr != nil {
			th.raceCell(p, true, fr)
		}
		x := a[1].(iface)
		var out value
		fail := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					je, ok := r.(jsonError)
					if !ok {
						panic(r)
					}
					fail = je.msg
				}
			}()
			if x.t == nil {
				out = "null"
			} else {
				out = th.jsonVal(x.t, x.v, 0)
			}
		}()
		if fail != "" {
			return th.w.mkErr(fail)
		}
		r := th.writeTo(e.w, strConcat(out, "\n")).(tupleV)
		return r[1]
	})
	reg("encoding/json.Marshal", func(th *thread, fr *frame, a []value) (ret value) {
		x := a[0].(iface)
		if x.t == nil {
			return tupleV{strBytes("null"), iface{}}
		}
		fail := ""
		var out value
		func() {
			defer func() {
				if r := recover(); r != nil {
					je, ok := r.(jsonError)
					if !ok {
						panic(r)
					}
					fail = je.msg
				}
			}()
			out = th.jsonVal(x.t, x.v, 0)
		}()
		if fail != "" {
			return tupleV{[]value(nil), th.w.mkErr(fail)}
		}
		return tupleV{append([]value(nil), strBytes(out)...), iface{}}
	})

	// sorting
	srt := func(stable bool) inF {
		return func(th *thread, fr *frame, a []value) value {
			s := a[0].(iface).v.([]value)
			// insertion sort through the interpreted less function: every
			// comparison sees the elements in place, as sort.Slice guarantees
			w := th.w
			for i := 1; i < len(s); i++ {
				for j := i; j > 0; j-- {
					if !w.truth(th.callValue(a[1], []value{int64(j), int64(j - 1)}, fr)) {
						break
					}
					x, y := copyVal(s[j]), copyVal(s[j-1])
					w.storeTo(&s[j], y)
					w.storeTo(&s[j-1], x)
				}
			}
			return nil
		}
	}
	reg("sort.Slice", srt(false))
	reg("sort.SliceStable", srt(true))
	srtIface := func(th *thread, fr *frame, a []value) value {
		x := a[0].(iface)
		n := th.callMethod(x, "Len").(int64)
		for i := int64(1); i < n; i++ {
			for j := i; j > 0; j-- {
				if !th.w.truth(th.callMethod(x, "Less", j, j-1)) {
					break
				}
				th.callMethod(x, "Swap", j, j-1)
			}
		}
		return nil
	}
	reg("sort.Sort", srtIface)
	reg("sort.Stable", srtIface)
	reg("sort.Strings", func(th *thread, fr *frame, a []value) value {
		s := a[0].([]value)
		allc := true
		for _, x := range s {
			if _, ok := x.(string); !ok {
				allc = false
			}
		}
		if allc {
			c := append([]value(nil), s...)
			sort.SliceStable(c, func(i, j int) bool { return c[i].(string) < c[j].(string) })
			for i := range s {
				th.w.storeTo(&s[i], c[i])
			}
			return nil
		}
		w := th.w
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && w.truth(w.strLess(s[j], s[j-1], false)); j-- {
				x, y := s[j], s[j-1]
				w.storeTo(&s[j], y)
				w.storeTo(&s[j-1], x)
			}
		}
		return nil
	})

	// murmur3: exact on concrete input; on symbolic input the hash is modelled
	// as an injective function (no collisions between distinct inputs).
	hash64 := func(th *thread, in value) value {
		if s, ok := in.(string); ok {
			h1, _ := murmur3.Sum128([]byte(s))
			th.p.hashLog(th.w, in, int64(h1))
			return int64(h1)
		}
		return th.p.injective(th.w, in)
	}
	reg("github.com/spaolacci/murmur3.Sum64", func(th *thread, fr *frame, a []value) value { return hash64(th, mkStr(a[0].([]value))) })
	reg("github.com/spaolacci/murmur3.Sum128", func(th *thread, fr *frame, a []value) value {
		s := mkStr(a[0].([]value))
		if c, ok := s.(string); ok {
			h1, h2 := murmur3.Sum128([]byte(c))
			return tupleV{int64(h1), int64(h2)}
		}
		h := th.p.injective(th.w, s)
		return tupleV{h, h}
	})
	// whole blocks are read through unsafe: the same computation on the bytes
	reg("(*github.com/spaolacci/murmur3.digest128).bmix", func(th *thread, fr *frame, a []value) value {
		d := a[0].(*value)
		buf := a[1].([]value)
		n := len(buf) / 16
		if n > 0 {
			sv := (*d).(structV)
			h1, h2 := uint64(sv[1].(int64)), uint64(sv[2].(int64))
			const c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
			word := func(i int) (k uint64) {
				for j := 7; j >= 0; j-- {
					b, ok := buf[i+j].(int64)
					if !ok {
						unsup("murmur3 of a long symbolic string")
					}
					k = k<<8 | uint64(byte(b))
				}
				return k
			}
			for i := 0; i < n*16; i += 16 {
				k1, k2 := word(i), word(i+8)
				h1 ^= bits.RotateLeft64(k1*c1, 31) * c2
				h1 = (bits.RotateLeft64(h1, 27)+h2)*5 + 0x52dce729
				h2 ^= bits.RotateLeft64(k2*c2, 33) * c1
				h2 = (bits.RotateLeft64(h2, 31)+h1)*5 + 0x38495ab5
			}
			th.w.storeTo(&sv[1], int64(h1))
			th.w.storeTo(&sv[2], int64(h2))
		}
		return buf[n*16:]
	})
	marks["strconv.ParseFloat"] = func(th *thread, a []value) (value, bool) {
		s := th.concreteStr(a[0])
		f, err := strconv.ParseFloat(s, int(a[1].(int64)))
		if err != nil {
			return tupleV{f, th.w.mkErr(err.Error())}, true
		}
		return tupleV{f, iface{}}, true
	}
	reg("strconv.FormatFloat", func(th *thread, fr *frame, a []value) value {
		return strconv.FormatFloat(toF(a[0]), byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
	})
}

// concreteStr forks over every value of a symbolic string.
func (th *thread) concreteStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i, x := range b {
		if t, ok := x.(*Term); ok {
			out[i] = byte(th.w.concretize(t, false))
		} else {
			out[i] = byte(x.(int64))
		}
	}
	return string(out)
}

type hashEnt struct {
	in  value
	out value
}

func (p *path) hashLog(w *Worker, in value, h int64) {
	for _, e := range p.hashes {
		if e.in == in {
			return
		}
	}
	p.hashes = append(p.hashes, hashEnt{in, h})
}

// injective returns the hash of a symbolic string: equal inputs share a value,
// distinct inputs get distinct values (decided by forking).
func (p *path) injective(w *Worker, in value) value {
	for _, e := range p.hashes {
		if w.truth(w.eqStr(e.in, in)) {
			return e.out
		}
	}
	// a fresh concrete value unlike any other
	h := int64(0x5bd1e995_00000000) + int64(len(p.hashes))*1_000_003
	p.hashes = append(p.hashes, hashEnt{in, h})
	return h
}
