package ant

import (
	"strings"

	"golang.org/x/net/html"

	vt "github.com/yields/ant/internal/zzvt"
)

type (
	zzNameT  string
	zzIntT   int
	zzInner1 struct {
		A string `css:"a"`
		H string `css:"a@href"`
	}
	zzFlat struct {
		S    string   `css:"s"`
		I    int      `css:"i@v"`
		U    uint     `css:"u"`
		B    []byte   `css:"s"`
		At   string   `css:"s@v"`
		All  []string `css:"p s, s"`
		Vs   []string `css:"s@v"`
		N    zzNameT  `css:"u"`
		J    zzIntT   `css:"i@v"`
		No   string
		Dash string `css:"-"`
		Oth  string `json:"s"`
		priv string `css:"s"`
	}
	zzNested struct {
		T  string     `css:"t"`
		In zzInner1   `css:"x"`
		Ls []zzInner1 `css:"x, y"`
		Y  struct {
			D struct {
				A string `css:"a"`
			} `css:"d"`
			A []string `css:"a"`
		} `css:"y"`
	}
)

func zzFirst(n *html.Node, tag string) *html.Node {
	if es := zzElems(n, tag); len(es) > 0 {
		return es[0]
	}
	return nil
}

// zzTx and zzAt are the text and the attribute of an element, or "".
func zzTx(n *html.Node) string {
	if n == nil {
		return ""
	}
	return zzInner(n)
}

func zzAt(n *html.Node, key string) string {
	if n == nil {
		return ""
	}
	v, _ := zzAttrOf(n, key)
	return v
}

// zzScanVia scans n through one of the ways to scan.
func zzScanVia(n *html.Node, dst any) error {
	return List{n}.Scan(dst)
}

func zzLeaf(tag string) *html.Node {
	n := zzEl(tag)
	if vt.Bool("text?") {
		n.AppendChild(zzText(vt.String("text", 1, 1, "ab1")))
	}
	if vt.Bool("attr?") {
		key := "v"
		if tag == "a" {
			key = "href"
		}
		n.Attr = append(n.Attr, html.Attribute{Key: key, Val: vt.String("val", 0, 1, "ab1")})
	}
	return n
}

func zzDigit(s string) int64 {
	if len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
		return int64(s[0] - '0')
	}
	return 0
}

// Flat structs: strings, numbers, bytes, attributes, slices and skipped fields.
//
// verif: all preempt=0
func Verif_S01_flat() {
	vt.Expect("scanned", "missing")
	root := zzEl("div")
	box := zzEl("p")
	root.AppendChild(box)
	for _, tag := range []string{"s", "s", "i", "u"} {
		switch vt.Choose("place", 3) {
		case 1:
			root.AppendChild(zzLeaf(tag))
		case 2:
			box.AppendChild(zzLeaf(tag))
		}
	}
	var ss, vs []string
	for _, n := range zzElems(root, "s") {
		ss = append(ss, zzTx(n))
		vs = append(vs, zzAt(n, "v"))
	}
	s, i, u := zzFirst(root, "s"), zzFirst(root, "i"), zzFirst(root, "u")
	if s == nil || u == nil || i == nil {
		vt.Reach("missing")
	}
	dst := zzFlat{No: "no", Dash: "dash", Oth: "oth", priv: "priv"}
	for round := 0; round < 2; round++ {
		err := zzScanVia(root, &dst)
		vt.Assert("error", err == nil, "Scan failed")
		vt.Reach("scanned")
		vt.Assert("string", vt.EqStr(dst.S, zzTx(s)), "a string field is not the first element's text")
		vt.Assert("bytes", vt.EqStr(string(dst.B), zzTx(s)), "a []byte field is not the first element's text")
		vt.Assert("attr", vt.EqStr(dst.At, zzAt(s, "v")), "an attribute field is not the first element's attribute")
		vt.Assert("int", int64(dst.I) == zzDigit(zzAt(i, "v")) && int(dst.J) == dst.I, "an int field is wrong")
		vt.Assert("uint", int64(dst.U) == zzDigit(zzTx(u)), "a uint field is wrong")
		vt.Assert("named", vt.EqStr(string(dst.N), zzTx(u)), "a named string field is wrong")
		vt.Assert("count", len(dst.All) == len(ss) && len(dst.Vs) == len(vs), "a slice field has not one value per matching element")
		for k := range ss {
			vt.Assert("slice", vt.EqStr(dst.All[k], ss[k]), "a slice field is not the texts of the matching elements in order")
			vt.Assert("slice-attr", vt.EqStr(dst.Vs[k], vs[k]), "a slice field is not the attributes of the matching elements in order")
		}
		vt.Assert("skipped", dst.No == "no" && dst.Dash == "dash" && dst.Oth == "oth" && dst.priv == "priv", "a field that is not scanned was changed")
	}
}

// Every kind of field, from the text and from an attribute.
//
// verif: all preempt=0
func Verif_S01_kinds() {
	vt.Expect("scanned", "missing")
	type kinds struct {
		S, SA string    `css:"n"`
		I     int       `css:"n"`
		IA    int       `css:"n@v"`
		U     uint      `css:"n"`
		UA    uint      `css:"n@v"`
		B     []byte    `css:"n"`
		BA    []byte    `css:"n@v"`
		F     float64   `css:"n"`
		FA    float32   `css:"n@v"`
		Ss    []string  `css:"n"`
		Is    []int     `css:"n"`
		IAs   []int     `css:"n@v"`
		Us    []uint    `css:"n"`
		UAs   []uint    `css:"n@v"`
		Bs    [][]byte  `css:"n"`
		BAs   [][]byte  `css:"n@v"`
		FAs   []float32 `css:"n@v"`
	}
	root := zzEl("div")
	var texts, vals []string
	for i := 0; i < 2; i++ {
		if vt.Bool("there") {
			n := zzEl("n")
			text, val := "", ""
			if vt.Bool("text?") {
				text = vt.Pick("text", "3", "4", "x")
				n.AppendChild(zzText(text))
			}
			if vt.Bool("attr?") {
				val = vt.Pick("val", "7", "8", "y")
				n.Attr = []html.Attribute{{Key: "w", Val: "9"}, {Key: "v", Val: val}}
			}
			root.AppendChild(n)
			texts = append(texts, text)
			vals = append(vals, val)
		}
	}
	text, val := "", ""
	if len(texts) > 0 {
		text, val = texts[0], vals[0]
	} else {
		vt.Reach("missing")
	}
	var dst kinds
	vt.Assert("error", zzScanVia(root, &dst) == nil, "Scan failed")
	vt.Reach("scanned")
	t, v := zzDigit(text), zzDigit(val)
	vt.Assert("text", dst.S == text && dst.SA == text && string(dst.B) == text && int64(dst.I) == t && int64(dst.U) == t && dst.F == float64(t), "a field is not the first element's text")
	vt.Assert("attr", string(dst.BA) == val && int64(dst.IA) == v && int64(dst.UA) == v && dst.FA == float32(v), "a field is not the first element's attribute")
	n := len(texts)
	vt.Assert("counts", len(dst.Ss) == n && len(dst.Is) == n && len(dst.IAs) == n && len(dst.Us) == n && len(dst.UAs) == n && len(dst.Bs) == n && len(dst.BAs) == n && len(dst.FAs) == n, "a slice field has not one value per matching element")
	for i := range texts {
		t, v := zzDigit(texts[i]), zzDigit(vals[i])
		vt.Assert("texts", dst.Ss[i] == texts[i] && int64(dst.Is[i]) == t && int64(dst.Us[i]) == t && string(dst.Bs[i]) == texts[i], "a slice field is not the texts of the matching elements in order")
		vt.Assert("attrs", int64(dst.IAs[i]) == v && int64(dst.UAs[i]) == v && string(dst.BAs[i]) == vals[i] && dst.FAs[i] == float32(v), "a slice field is not the attributes of the matching elements in order")
	}
}

// Structs in structs and in slices.
//
// verif: all preempt=0
func Verif_S01_nested() {
	vt.Expect("scanned", "missing")
	root := zzEl("div")
	for _, tag := range []string{"x", "y", "x"} {
		switch vt.Choose("place", 3) {
		case 1:
			root.AppendChild(zzEl(tag))
		case 2:
			d := zzEl("d")
			if vt.Bool("a in d") {
				d.AppendChild(zzEl("a", zzText(vt.String("deep", 1, 1, "de"))))
			}
			root.AppendChild(zzEl(tag, zzEl("q", zzLeaf("a")), d))
		}
	}
	if vt.Bool("stray") {
		root.InsertBefore(zzLeaf("a"), root.FirstChild)
	}
	var dst zzNested
	err := zzScanVia(root, &dst)
	vt.Assert("error", err == nil, "Scan failed")
	vt.Reach("scanned")
	x, y := zzFirst(root, "x"), zzFirst(root, "y")
	if x == nil {
		vt.Reach("missing")
	}
	same := func(label string, got zzInner1, n *html.Node) {
		var a *html.Node
		if n != nil {
			a = zzFirst(n, "a")
		}
		vt.Assert(label+"-text", vt.EqStr(got.A, zzTx(a)), "a nested field was not scanned within its element")
		vt.Assert(label+"-attr", vt.EqStr(got.H, zzAt(a, "href")), "a nested attribute was not scanned within its element")
	}
	same("struct", dst.In, x)
	var xs []*html.Node
	for c := root.FirstChild; c != nil; c = c.NextSibling {
		if c.Data == "x" || c.Data == "y" {
			xs = append(xs, c)
		}
	}
	vt.Assert("structs", len(dst.Ls) == len(xs), "a slice of structs has not one value per matching element")
	for k := range xs {
		same("element", dst.Ls[k], xs[k])
	}
	var want []string
	var deep *html.Node
	if y != nil {
		for _, a := range zzElems(y, "a") {
			want = append(want, zzTx(a))
		}
		if d := zzFirst(y, "d"); d != nil {
			deep = zzFirst(d, "a")
		}
	}
	vt.Assert("inner-slice", len(dst.Y.A) == len(want), "a slice in a nested struct was not scanned within its element")
	for k := range want {
		vt.Assert("inner-slice", vt.EqStr(dst.Y.A[k], want[k]), "a slice in a nested struct has wrong values")
	}
	vt.Assert("deep", vt.EqStr(dst.Y.D.A, zzTx(deep)), "a struct in a nested struct was not scanned within its element")
}

type zzRec struct {
	A  string  `css:"a"`
	Rs []zzRec `css:"r"`
}

type zzMut1 struct {
	M []zzMut2 `css:"a"`
}

type zzMut2 struct {
	M []zzMut1 `css:"a"`
}

// Destinations that cannot be scanned into are errors, every time.
//
// verif: all preempt=0
func Verif_S01_errors() {
	vt.Expect("error")
	root := zzEl("div", zzEl("a", zzText("1")), zzEl("a", zzText("2")), zzEl("r", zzEl("a")))
	bad := []func() error{
		func() error { return zzScanVia(root, nil) },
		func() error { return zzScanVia(root, 5) },
		func() error { return zzScanVia(root, zzInner1{}) },
		func() error { return zzScanVia(root, (*zzInner1)(nil)) },
		func() error { var x bool; return zzScanVia(root, &x) },
		func() error { var x map[string]string; return zzScanVia(root, &x) },
		func() error { var x *string; return zzScanVia(root, &x) },
		func() error { var x any; return zzScanVia(root, &x) },
		func() error { var x struct{}; return zzScanVia(root, &x) },
		func() error { var x struct{ A string }; return zzScanVia(root, &x) },
		func() error {
			var x struct {
				A string `css:"a["`
			}
			return zzScanVia(root, &x)
		},
		func() error {
			var x struct {
				A string `css:"a"`
				B string `css:"@href"`
			}
			return zzScanVia(root, &x)
		},
		func() error {
			var x struct {
				A bool `css:"a"`
			}
			return zzScanVia(root, &x)
		},
		func() error {
			var x struct {
				A []bool `css:"a"`
			}
			return zzScanVia(root, &x)
		},
		func() error {
			var x struct {
				A []struct {
					B chan int `css:"b"`
				} `css:"a"`
			}
			return zzScanVia(root, &x)
		},
		func() error { var x []string; return zzScanVia(root, &x) },
		func() error {
			var x struct {
				A [][]string `css:"a"`
			}
			return zzScanVia(root, &x)
		},
		func() error { var x zzRec; return zzScanVia(root, &x) },
		func() error { var x zzMut1; return zzScanVia(root, &x) },
		func() error { var x [2]string; return zzScanVia(root, &x) },
	}
	f := bad[vt.Choose("dst", len(bad))]
	if vt.Bool("after-good") {
		var x zzInner1
		vt.Assert("good", zzScanVia(root, &x) == nil && x.A == "1", "a good destination failed")
	}
	for i := 0; i < 2; i++ {
		if f() != nil {
			vt.Reach("error")
		} else {
			vt.Fail("accepted", "a destination that cannot be scanned into was accepted")
		}
	}
	var x zzInner1
	vt.Assert("good", zzScanVia(root, &x) == nil && x.A == "1", "a good destination failed after an error")
}

// Goroutines scanning, with the types seen for the first time.
//
// verif: all races
// verif: quick preempt=2 callers=2
// verif: thorough preempt=2 callers=3
func Verif_S01_concurrent() {
	vt.Expect("scanned")
	n := vt.Param("callers", 2)
	ended := 0
	for i := 0; i < n; i++ {
		kind := vt.Choose("kind", 4)
		text := vt.String("text", 1, 1, "a1")
		root := zzEl("div", zzEl("a", zzText(text)), zzEl("x", zzEl("a", zzText(text+"x"))))
		vt.Go(func() {
			for round := 0; round < 2; round++ {
				switch kind {
				case 0:
					var x zzInner1
					err := zzScanVia(root, &x)
					vt.Assert("struct", err == nil && vt.Force(vt.EqStr(x.A, text)), "a concurrent scan gave another result")
				case 1:
					var x struct {
						A []string `css:"a"`
					}
					err := zzScanVia(root, &x)
					vt.Assert("slice", err == nil && len(x.A) == 2 && vt.Force(vt.EqStr(x.A[0], text)), "a concurrent scan gave another result")
				case 2:
					var x string
					err := zzScanVia(root, &x)
					vt.Assert("string", err == nil && vt.Force(vt.EqStr(x, text+text+"x")), "a concurrent scan gave another result")
				case 3:
					var x bool
					vt.Assert("bad", zzScanVia(root, &x) != nil, "an unsupported type was accepted")
				}
			}
			vt.Reach("scanned")
			ended++
		})
	}
	vt.WaitUntil(func() bool { return ended == n })
}

// zzDecimal is the value of a base 10 integer, whether it is one, and whether
// it exceeds the magnitude max, which is given in digits.
func zzDecimal(digits, max string) (v uint64, ok, over bool) {
	if digits == "" {
		return 0, false, false
	}
	for i := 0; i < len(digits); i++ {
		c := digits[i]
		if vt.Force(vt.Or(c < '0', c > '9')) {
			return 0, false, false
		}
		v = v*10 + uint64(c-'0')
	}
	for len(digits) > len(max) {
		if vt.Force(digits[0] != '0') {
			return v, true, true
		}
		digits = digits[1:]
	}
	if len(digits) < len(max) {
		return v, true, false
	}
	over = false
	for i := len(max) - 1; i >= 0; i-- {
		over = vt.Or(digits[i] > max[i], vt.And(digits[i] == max[i], over))
	}
	return v, true, over
}

func zzInt(s string) int64 {
	neg := false
	if s != "" && vt.Force(vt.Or(s[0] == '-', s[0] == '+')) {
		neg = vt.Force(s[0] == '-')
		s = s[1:]
	}
	max := "9223372036854775807"
	if neg {
		max = "9223372036854775808"
	}
	v, ok, over := zzDecimal(s, max)
	switch {
	case !ok:
		return 0
	case neg:
		return vt.IteInt(over, -1<<63, -int64(v))
	}
	return vt.IteInt(over, 1<<63-1, int64(v))
}

func zzUint(s string) uint64 {
	v, ok, over := zzDecimal(s, "18446744073709551615")
	if !ok {
		return 0
	}
	return uint64(vt.IteInt(over, -1, int64(v)))
}

type zzNums struct {
	I  int    `css:"n"`
	U  uint   `css:"n"`
	S  string `css:"n"`
	B  []byte `css:"n"`
	AI int    `css:"n@v"`
	AU uint   `css:"n@v"`
	AS string `css:"n@v"`
	AB []byte `css:"n@v"`
	Is []int  `css:"n"`
	Us []uint `css:"n@v"`
}

func zzNumbers(s string) {
	n := zzEl("n", zzText(s))
	n.Attr = []html.Attribute{{Key: "v", Val: s}}
	var x zzNums
	vt.Assert("error", zzScanVia(zzEl("div", n), &x) == nil, "Scan failed")
	vt.Assert("string", vt.And(vt.EqStr(x.S, s), vt.EqStr(x.AS, s)), "a string is not the text verbatim")
	vt.Assert("bytes", vt.And(vt.EqStr(string(x.B), s), vt.EqStr(string(x.AB), s)), "bytes are not the text verbatim")
	i, u := zzInt(s), zzUint(s)
	vt.Assert("int", vt.And(int64(x.I) == i, int64(x.AI) == i), "an int is not the decimal value of the text")
	vt.Assert("uint", vt.And(uint64(x.U) == u, uint64(x.AU) == u), "a uint is not the decimal value of the text")
	vt.Assert("slices", len(x.Is) == 1 && len(x.Us) == 1 && vt.Force(vt.And(int64(x.Is[0]) == i, uint64(x.Us[0]) == u)), "a slice element is not the decimal value of the text")
	var di int
	var du uint
	vt.Assert("error", zzScanVia(n, &di) == nil && zzScanVia(n, &du) == nil, "Scan failed")
	vt.Assert("direct", vt.And(int64(di) == i, uint64(du) == u), "a scanned number is not the decimal value of the text")
}

// Short texts over digits, signs and other bytes.
//
// verif: all preempt=0
// verif: quick len=3
// verif: thorough len=5
func Verif_S02_short() {
	vt.Expect("number", "other")
	s := vt.String("text", 0, vt.Param("len", 3), "0123456789+-_x .")
	if _, ok, _ := zzDecimal(strings.TrimLeft(s, "+-"), "9"); ok {
		vt.Reach("number")
	} else {
		vt.Reach("other")
	}
	zzNumbers(s)
}

// Texts around the bounds of the types.
//
// verif: all preempt=0
// verif: quick digits=3
// verif: thorough digits=6
func Verif_S02_bounds() {
	vt.Expect("in", "out")
	d := vt.Param("digits", 3)
	lead := vt.Pick("sign", "", "-", "+", "0", "-00")
	bound := vt.Pick("bound", "9223372036854775807", "18446744073709551615", "99999999999999999999")
	s := bound[:len(bound)-d] + vt.String("low", d, d, "0123456789")
	if vt.Force(zzInt(lead+s) == 1<<63-1) {
		vt.Reach("out")
	} else {
		vt.Reach("in")
	}
	zzNumbers(lead + s)
}

// Full-width numbers: every digit is symbolic.
//
// verif: all preempt=0 digits=16
// verif: thorough digits=20
func Verif_S02_wide() {
	vt.Expect("wide")
	d := vt.Param("digits", 19)
	s := vt.String("digits", d, d, "0123456789")
	vt.Reach("wide")
	zzNumbers(s)
}

// zzDecimalFloat is the value of a decimal number with an optional fraction
// and exponent.
func zzDecimalFloat(s string) (x float64, ok bool) {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	m, digits, frac := int64(0), 0, 0
	point := false
	i := 0
	for ; i < len(s) && (s[i] == '.' || s[i] >= '0' && s[i] <= '9'); i++ {
		if s[i] == '.' {
			if point {
				return 0, false
			}
			point = true
			continue
		}
		m = m*10 + int64(s[i]-'0')
		digits++
		if point {
			frac++
		}
	}
	if digits == 0 {
		return 0, false
	}
	exp := 0
	if i < len(s) {
		if s[i] != 'e' && s[i] != 'E' {
			return 0, false
		}
		i++
		eneg := false
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			eneg = s[i] == '-'
			i++
		}
		if i == len(s) {
			return 0, false
		}
		for ; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return 0, false
			}
			exp = exp*10 + int(s[i]-'0')
		}
		if eneg {
			exp = -exp
		}
	}
	x = float64(m)
	p := 1.0
	exp -= frac
	for k := 0; k < exp || k < -exp; k++ {
		p *= 10
	}
	if exp < 0 {
		x /= p
	} else {
		x *= p
	}
	if neg {
		x = -x
	}
	return x, true
}

// Floats: text and attribute.
//
// verif: all preempt=0
// verif: quick len=3
// verif: thorough len=4
func Verif_S02_float() {
	vt.Expect("number", "other")
	type floats struct {
		F  float64   `css:"n"`
		G  float32   `css:"n"`
		AF float64   `css:"n@v"`
		AG float32   `css:"n@v"`
		Fs []float64 `css:"n@v"`
		M  float64   `css:"m"`
	}
	drawn := vt.String("text", 0, vt.Param("len", 3), "0179.eE-+x ")
	b := make([]byte, len(drawn))
	for i := range b {
		b[i] = byte(vt.Concrete(int64(drawn[i])))
	}
	text := string(b)
	other := vt.Pick("other", "2.5", "y", "-4")
	want, ok := zzDecimalFloat(text)
	if ok {
		vt.Reach("number")
	} else {
		vt.Reach("other")
	}
	n := zzEl("n", zzText(text))
	n.Attr = []html.Attribute{{Key: "v", Val: other}}
	awant, _ := zzDecimalFloat(other)
	var x floats
	vt.Assert("error", zzScanVia(zzEl("div", n), &x) == nil, "Scan failed")
	vt.Assert("float", x.F == want && x.G == float32(want), "a float is not the decimal value of the text")
	vt.Assert("float-attr", x.AF == awant && x.AG == float32(awant), "a float is not the decimal value of the attribute")
	vt.Assert("float-slice", len(x.Fs) == 1 && x.Fs[0] == awant && x.M == 0, "a slice element is not the decimal value of the attribute")
	var d float64
	vt.Assert("direct", zzScanVia(n, &d) == nil && d == want, "a scanned float is not the decimal value of the text")
}

// A float32 field: decimal texts around the midpoint of two of its values,
// which a float64 cannot tell from the midpoint.
//
// verif: all preempt=0
// verif: quick digits=2
// verif: thorough digits=3
func Verif_S02_float32() {
	vt.Expect("above", "below", "tie")
	type floats struct {
		G  float32   `css:"n"`
		AG float32   `css:"n@v"`
		Gs []float32 `css:"n@v"`
	}
	// 1 + 1/2^24, exactly
	const mid = "1.000000059604644775390625"
	const one, next = float32(1), float32(8388609) / 8388608
	n := vt.Param("digits", 2)
	drawn := vt.String("digits", n, n, "0156")
	tail := make([]byte, n)
	for i := range tail {
		tail[i] = byte(vt.Concrete(int64(drawn[i])))
	}
	var text string
	var want float32
	if vt.Bool("end") {
		// after a run of zeros, past what a float64 holds
		text = mid + "0000000000" + string(tail)
		want = next
		if strings.Trim(string(tail), "0") == "" {
			want = one
			vt.Reach("tie")
		}
	} else {
		text = mid[:len(mid)-n] + string(tail)
		if string(tail) > mid[len(mid)-n:] {
			want = next
			vt.Reach("above")
		} else {
			want = one
			vt.Reach("below")
		}
	}
	if vt.Bool("negative") {
		text, want = "-"+text, -want
	}
	el := zzEl("n", zzText(text))
	el.Attr = []html.Attribute{{Key: "v", Val: text}}
	var x floats
	vt.Assert("error", zzScanVia(zzEl("div", el), &x) == nil, "Scan failed")
	vt.Assert("float", x.G == want && x.AG == want && len(x.Gs) == 1 && x.Gs[0] == want, "a float32 is not the one nearest to the decimal text")
	var d float32
	vt.Assert("direct", zzScanVia(el, &d) == nil && d == want, "a scanned float32 is not the one nearest to the decimal text")
}

// zzLocal and zzLocalToo scan into types of the same name.
func zzLocal(l List) (string, string, error) {
	type Item struct {
		A string `css:"b"`
		B string `css:"i"`
	}
	var v Item
	err := l.Scan(&v)
	return v.A, v.B, err
}

func zzLocalToo(l List) (string, string, error) {
	type Item struct {
		B string `css:"i"`
		A string `css:"b"`
	}
	var v Item
	err := l.Scan(&v)
	return v.A, v.B, err
}

func zzAnonymous(l List) (string, string, error) {
	var v struct {
		A string `css:"b@id"`
		B string `css:"i"`
	}
	err := l.Scan(&v)
	return v.A, v.B, err
}

func zzAnonymousToo(l List) (string, string, error) {
	var v struct {
		A string `css:"b"`
		B string `css:"i@id"`
	}
	err := l.Scan(&v)
	return v.A, v.B, err
}

// Different types of the same name.
func Verif_S01_names() {
	vt.Expect("done")
	doc := &html.Node{Type: html.ElementNode, Data: "div"}
	add := func(tag, text, id string) {
		n := &html.Node{Type: html.ElementNode, Data: tag, Attr: []html.Attribute{{Key: "id", Val: id}}}
		n.AppendChild(&html.Node{Type: html.TextNode, Data: text})
		doc.AppendChild(n)
	}
	b, i := vt.String("b", 1, 2, "xy"), vt.String("i", 1, 2, "xy")
	add("b", b, "1")
	add("i", i, "2")
	type fn struct {
		scan func(List) (string, string, error)
		a, b string
	}
	fns := []fn{{zzLocal, b, i}, {zzLocalToo, b, i}, {zzAnonymous, "1", i}, {zzAnonymousToo, b, "2"}}
	for n := 0; n < 3; n++ {
		f := fns[vt.Choose("type", len(fns))]
		x, y, err := f.scan(List{doc})
		vt.Assert("error", err == nil, "Scan failed")
		vt.Assert("fields", vt.And(vt.EqStr(x, f.a), vt.EqStr(y, f.b)), "a field is not that of its own selector")
	}
	vt.Reach("done")
}
