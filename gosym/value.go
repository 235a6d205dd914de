package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is a symbolic-or-concrete Go value:
//
//	ints      int64 (canonical for the width) or *Term
//	bool      bool or *Term
//	floats    float64 / float32, complex complex128
//	string    string, *SymStr or *opaque
//	pointer   *value (nil pointer: (*value)(nil)); also *nativeObj
//	struct    structV, array arrayV, slice []value, map *hmap, chan *chanV
//	func      *funcV, interface iface, tuple tupleV
type value = any

type structV []value
type arrayV []value
type tupleV []value

type iface struct {
	t types.Type // canonical; nil for a nil interface
	v value
}

type funcV struct {
	fn     *ssa.Function
	env    []value
	native func(th *thread, args []value) value
	name   string
}

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []value }

// opaque is a string whose contents are unknown to the engine (formatted
// symbolic numbers); using its contents makes the run inconclusive.
type opaque struct{ parts []value }

// poison marks values whose initialiser could not be executed.
type poison struct{ why string }

// nativeObj wraps engine-native state behind a pointer-like value.
type nativeObj struct {
	kind string
	v    any
}

type rangeIter struct {
	m    *hmap
	i    int
	keys []value // snapshot unused
	str  []value
	pos  int
}

// unsupported aborts the whole check as inconclusive.
type unsupported struct{ msg string }

func unsup(f string, a ...any) value {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			c := make([]value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case poison:
		unsup("use of poisoned string: %s", s.why)
	}
	unsup("length of an opaque string")
	return 0
}

func strByte(v value, i int) value {
	switch s := v.(type) {
	case string:
		return int64(s[i])
	case *SymStr:
		return s.b[i]
	}
	return unsup("byte of an opaque string")
}

func strBytes(v value) []value {
	switch s := v.(type) {
	case string:
		out := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = int64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	}
	unsup("contents of an opaque string (%T)", v)
	return nil
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi])
	}
	return unsup("slice of an opaque string")
}

func strConcat(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	if _, ok := x.(*opaque); ok {
		return &opaque{}
	}
	if _, ok := y.(*opaque); ok {
		return &opaque{}
	}
	a, b := strBytes(x), strBytes(y)
	out := make([]value, 0, len(a)+len(b))
	out = append(out, a...)
	return mkStr(append(out, b...))
}

func strConcrete(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	unsup("symbolic string where a concrete one is needed")
	return ""
}

// showStr renders a string for messages.
func showStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, b := range s.b {
			if c, ok := b.(int64); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	}
	return "<opaque>"
}

// ---- type information

type tk uint8

const (
	kInt tk = iota
	kBool
	kString
	kFloat
	kComplex
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
)

type tinfo struct {
	k      tk
	w      uint8
	signed bool
	t      types.Type
	u      types.Type
	elem   types.Type // ptr/slice/array/map/chan
	n      int        // array length / struct fields
	f      []*tinfo
	el     *tinfo
}

func (w *Worker) ti(t types.Type) *tinfo {
	if x, ok := w.tis[t]; ok {
		return x
	}
	x := &tinfo{t: t}
	w.tis[t] = x
	u := t.Underlying()
	x.u = u
	switch u := u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.k = kBool
		case types.String, types.UntypedString:
			x.k = kString
		case types.Int, types.Int64, types.UntypedInt:
			x.k, x.w, x.signed = kInt, 64, true
		case types.Int8:
			x.k, x.w, x.signed = kInt, 8, true
		case types.Int16:
			x.k, x.w, x.signed = kInt, 16, true
		case types.Int32, types.UntypedRune:
			x.k, x.w, x.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			x.k, x.w = kInt, 64
		case types.Uint8:
			x.k, x.w = kInt, 8
		case types.Uint16:
			x.k, x.w = kInt, 16
		case types.Uint32:
			x.k, x.w = kInt, 32
		case types.Float32:
			x.k, x.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			x.k, x.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			x.k = kComplex
		case types.UnsafePointer:
			x.k = kUnsafe
		case types.UntypedNil:
			x.k = kIface
		default:
			unsup("basic type %v", u)
		}
	case *types.Pointer:
		x.k, x.elem = kPtr, u.Elem()
	case *types.Slice:
		x.k, x.elem = kSlice, u.Elem()
	case *types.Array:
		x.k, x.elem, x.n = kArray, u.Elem(), int(u.Len())
		x.el = w.ti(u.Elem())
	case *types.Map:
		x.k, x.elem = kMap, u.Elem()
	case *types.Chan:
		x.k, x.elem = kChan, u.Elem()
	case *types.Signature:
		x.k = kFunc
	case *types.Interface:
		x.k = kIface
	case *types.Struct:
		x.k, x.n = kStruct, u.NumFields()
		for i := 0; i < x.n; i++ {
			x.f = append(x.f, w.ti(u.Field(i).Type()))
		}
	case *types.Tuple:
		x.k, x.n = kTuple, u.Len()
		for i := 0; i < x.n; i++ {
			x.f = append(x.f, w.ti(u.At(i).Type()))
		}
	default:
		unsup("type %v (%T)", t, u)
	}
	return x
}

func (x *tinfo) zero() value {
	switch x.k {
	case kInt:
		return int64(0)
	case kBool:
		return false
	case kString:
		return ""
	case kFloat:
		if x.w == 32 {
			return float32(0)
		}
		return float64(0)
	case kComplex:
		return complex128(0)
	case kPtr, kUnsafe:
		return (*value)(nil)
	case kStruct:
		s := make(structV, x.n)
		for i, f := range x.f {
			s[i] = f.zero()
		}
		return s
	case kArray:
		s := make(arrayV, x.n)
		switch x.el.k {
		case kStruct, kArray:
			for i := range s {
				s[i] = x.el.zero()
			}
		default:
			z := x.el.zero()
			for i := range s {
				s[i] = z
			}
		}
		return s
	case kSlice:
		return []value(nil)
	case kMap:
		return (*hmap)(nil)
	case kChan:
		return (*chanV)(nil)
	case kFunc:
		return (*funcV)(nil)
	case kIface:
		return iface{}
	case kTuple:
		s := make(tupleV, x.n)
		for i, f := range x.f {
			s[i] = f.zero()
		}
		return s
	}
	panic("zero")
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structV:
		c := make(structV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case arrayV:
		c := make(arrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

// ---- terms <-> values

func norm(v int64, w uint8, signed bool) int64 {
	switch w {
	case 64:
		return v
	case 32:
		if signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	case 16:
		if signed {
			return int64(int16(v))
		}
		return int64(uint16(v))
	case 8:
		if signed {
			return int64(int8(v))
		}
		return int64(uint8(v))
	}
	panic("norm")
}

func (w *Worker) term(v value, wd uint8) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != wd {
			panic(fmt.Sprintf("term width %d, want %d", x.w, wd))
		}
		return x
	case int64:
		return w.T.BV(uint64(x), wd)
	case bool:
		return w.T.Bool(x)
	case poison:
		unsup("use of poisoned value: %s", x.why)
	}
	panic(fmt.Sprintf("term of %T", v))
}

func termVal(t *Term, signed bool) value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k == 1
		}
		if signed {
			return sext(t.k, t.w)
		}
		return int64(t.k)
	}
	return t
}

func (w *Worker) boolTerm(v value) *Term {
	switch x := v.(type) {
	case bool:
		return w.T.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm of %T", v))
}

func (w *Worker) vAnd(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return termVal(w.T.And(a.(*Term), b.(*Term)), false)
}
func (w *Worker) vOr(a, b value) value { return w.vNot(w.vAnd(w.vNot(a), w.vNot(b))) }
func (w *Worker) vNot(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return termVal(w.T.Not(a.(*Term)), false)
}

// ---- equality

func (w *Worker) eqStr(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a == b
		}
	}
	if x == y {
		return true
	}
	if _, ok := x.(*opaque); ok {
		return unsup("comparison of an opaque string")
	}
	if _, ok := y.(*opaque); ok {
		return unsup("comparison of an opaque string")
	}
	n := strLen(x)
	if n != strLen(y) {
		return false
	}
	var r value = true
	for i := 0; i < n; i++ {
		r = w.vAnd(r, w.eqInt(strByte(x, i), strByte(y, i), 8))
		if r == false {
			return false
		}
	}
	return r
}

func (w *Worker) eqInt(x, y value, wd uint8) value {
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return a == b
		}
	}
	return termVal(w.T.Eq(w.term(x, wd), w.term(y, wd)), false)
}

// eq compares two values of static type t.
func (w *Worker) eq(t *tinfo, x, y value) value {
	switch t.k {
	case kInt:
		return w.eqInt(x, y, t.w)
	case kBool:
		a, ok1 := x.(bool)
		b, ok2 := y.(bool)
		if ok1 && ok2 {
			return a == b
		}
		return termVal(w.T.Eq(w.boolTerm(x), w.boolTerm(y)), false)
	case kString:
		return w.eqStr(x, y)
	case kFloat, kComplex:
		return x == y
	case kPtr, kUnsafe:
		return x == y
	case kChan:
		return x.(*chanV) == y.(*chanV)
	case kMap:
		return x.(*hmap) == y.(*hmap)
	case kFunc:
		return x.(*funcV) == y.(*funcV)
	case kSlice:
		return (x.([]value) == nil) && (y.([]value) == nil)
	case kIface:
		return w.eqIface(x.(iface), y.(iface))
	case kStruct:
		a, b := x.(structV), y.(structV)
		var r value = true
		for i := range a {
			if t.u.(*types.Struct).Field(i).Name() == "_" {
				continue
			}
			r = w.vAnd(r, w.eq(t.f[i], a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case kArray:
		a, b := x.(arrayV), y.(arrayV)
		var r value = true
		for i := range a {
			r = w.vAnd(r, w.eq(t.el, a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	}
	panic("eq")
}

func (w *Worker) eqIface(x, y iface) value {
	if x.t == nil || y.t == nil {
		return x.t == y.t
	}
	if x.t != y.t {
		return false
	}
	ti := w.ti(x.t)
	switch ti.k {
	case kSlice, kMap, kFunc:
		panic(targetPanic{w.rtErr("comparing uncomparable type " + x.t.String())})
	}
	if _, ok := x.v.(*rtypeV); ok {
		return x.v == y.v
	}
	return w.eq(ti, x.v, y.v)
}

// ---- maps

type hmap struct {
	kt    *tinfo
	keys  []value
	vals  []*value
	dead  []bool
	n     int
	idx   map[any]int
	sym   bool // contains symbolic keys
	epoch int
	sh    *shadow
}

func (w *Worker) newMap(kt *tinfo) *hmap {
	return &hmap{kt: kt, idx: map[any]int{}, epoch: w.epoch()}
}

type ckPtr struct {
	t types.Type
	v any
}

// ckey converts a concrete key to a comparable native value.
func (w *Worker) ckey(t *tinfo, k value) (any, bool) {
	switch x := k.(type) {
	case *Term, *SymStr:
		return nil, false
	case *opaque:
		unsup("map key is an opaque string")
	case poison:
		unsup("map key is poisoned: %s", x.why)
	case iface:
		if x.t == nil {
			return ckPtr{}, true
		}
		if r, ok := x.v.(*rtypeV); ok {
			return ckPtr{nil, r}, true
		}
		in, ok := w.ckey(w.ti(x.t), x.v)
		return ckPtr{x.t, in}, ok
	case structV:
		var sb strings.Builder
		for i, f := range x {
			c, ok := w.ckey(t.f[i], f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", c, c)
		}
		return sb.String() + "#s", true
	case arrayV:
		var sb strings.Builder
		for _, f := range x {
			c, ok := w.ckey(t.el, f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", c, c)
		}
		return sb.String() + "#a", true
	}
	return k, true
}

// find returns the index of k or -1; it may fork.
func (m *hmap) find(w *Worker, k value) int {
	c, ok := w.ckey(m.kt, k)
	if ok && !m.sym {
		if i, ok := m.idx[c]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if w.truth(w.eq(m.kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *hmap) save(w *Worker) {
	if w.initDepth > 0 || m.epoch == w.epoch() {
		return
	}
	old := *m
	old.keys = append([]value(nil), m.keys...)
	old.dead = append([]bool(nil), m.dead...)
	oldvals := make([]value, len(m.vals))
	oldptr := append([]*value(nil), m.vals...)
	for i, p := range m.vals {
		oldvals[i] = *p
	}
	idx := make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		idx[k] = v
	}
	m.epoch = w.epoch()
	w.p.undoFns = append(w.p.undoFns, func() {
		*m = old
		m.idx = idx
		m.vals = oldptr
		for i, p := range m.vals {
			*p = oldvals[i]
		}
	})
}

func (m *hmap) set(w *Worker, k, v value) {
	if m == nil {
		panic(targetPanic{w.rtErrPlain("assignment to entry in nil map")})
	}
	m.save(w)
	if i := m.find(w, k); i >= 0 {
		*m.vals[i] = v
		return
	}
	c, ok := w.ckey(m.kt, k)
	if !ok {
		m.sym = true
	} else {
		m.idx[c] = len(m.keys)
	}
	nv := new(value)
	*nv = v
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, nv)
	m.dead = append(m.dead, false)
	m.n++
}

func (m *hmap) get(w *Worker, k value) (value, bool) {
	if m == nil {
		return nil, false
	}
	if i := m.find(w, k); i >= 0 {
		return *m.vals[i], true
	}
	return nil, false
}

func (m *hmap) del(w *Worker, k value) {
	if m == nil {
		return
	}
	i := m.find(w, k)
	if i < 0 {
		return
	}
	m.save(w)
	m.dead[i] = true
	m.n--
	if c, ok := w.ckey(m.kt, m.keys[i]); ok {
		delete(m.idx, c)
	}
}

func (m *hmap) clear(w *Worker) {
	if m == nil {
		return
	}
	m.save(w)
	m.keys, m.vals, m.dead, m.n = nil, nil, nil, 0
	m.idx = map[any]int{}
	m.sym = false
}

func (m *hmap) length() int {
	if m == nil {
		return 0
	}
	return m.n
}
