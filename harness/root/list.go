package ant

import (
	"strings"

	"golang.org/x/net/html"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzNode returns an element with a symbolic attribute and text.
//
//	<tag [k=v]>text</tag>
func zzEl(tag string, kids ...*html.Node) *html.Node {
	n := &html.Node{Type: html.ElementNode, Data: tag}
	for _, k := range kids {
		n.AppendChild(k)
	}
	return n
}

func zzText(s string) *html.Node    { return &html.Node{Type: html.TextNode, Data: s} }
func zzComment(s string) *html.Node { return &html.Node{Type: html.CommentNode, Data: s} }

// zzInner is the text below n: all text nodes that are reached through elements.
func zzInner(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	s := ""
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		if c.Type == html.TextNode || c.Type == html.ElementNode {
			s += zzInner(c)
		}
	}
	return s
}

// zzAttrOf is the first attribute named key.
func zzAttrOf(n *html.Node, key string) (string, bool) {
	for _, a := range n.Attr {
		if vt.Force(vt.EqStr(a.Key, key)) {
			return a.Val, true
		}
	}
	return "", false
}

func zzNodesSame(a, b List) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// At, for every int.
//
// verif: all preempt=0
func Verif_L02_at() {
	vt.Expect("front", "back", "out")
	n := vt.Choose("len", 4)
	var l List
	for i := 0; i < n; i++ {
		l = append(l, zzEl("a"))
	}
	orig := append(List(nil), l...)
	i := vt.Int("i", -1<<63, 1<<63-1)
	got := l.At(i)
	vt.Assert("list", zzNodesSame(orig, l), "At altered the list")
	switch {
	case i >= 0 && i < n:
		vt.Reach("front")
		vt.Assert("front", len(got) == 1 && got[0] == l[i], "At(i) is not the i-th node")
	case i < 0 && i >= -n:
		vt.Reach("back")
		vt.Assert("back", len(got) == 1 && got[0] == l[n+i], "At(-i) is not the i-th node from the end")
	default:
		vt.Reach("out")
		vt.Assert("out", len(got) == 0, "At out of range is not empty")
	}
	// The result is a list of its own.
	if len(got) > 0 {
		got[0] = nil
		vt.Assert("own", zzNodesSame(orig, l), "At shares memory with the list")
	}
}

// zzForest draws a list of up to n small trees; returns also all nodes.
func zzForest(n int) List {
	var l List
	k := vt.Choose("nodes", n+1)
	for i := 0; i < k; i++ {
		switch vt.Choose("shape", 6) {
		case 0:
			l = append(l, zzText(vt.String("text", 0, 2, "ab ")))
		case 1:
			l = append(l, zzEl("b"))
		case 2:
			l = append(l, zzEl("b", zzText(vt.String("text", 0, 2, "ab "))))
		case 3:
			l = append(l, zzEl("b", zzText(vt.String("text", 1, 1, "ab")), zzComment("no"), zzEl("i", zzText(vt.String("deep", 0, 1, "cd"))), zzText("e")))
		case 4:
			l = append(l, zzComment("c"+vt.String("text", 0, 1, "ab")))
		case 5:
			l = append(l, zzEl("i", zzEl("b", zzEl("i", zzText(vt.String("deep", 1, 1, "xy")))), zzText("z")))
		}
	}
	return l
}

// Text is the text of all nodes.
//
// verif: all preempt=0 nodes=2
// verif: thorough nodes=3
func Verif_L02_text() {
	vt.Expect("some", "none")
	l := zzForest(vt.Param("nodes", 2))
	want := ""
	for _, n := range l {
		if n.Type == html.CommentNode {
			continue
		}
		want += zzInner(n)
	}
	if len(want) == 0 {
		vt.Reach("none")
	} else {
		vt.Reach("some")
	}
	vt.Assert("text", vt.EqStr(l.Text(), want), "Text is not the text of the list's nodes")
	vt.Assert("again", vt.EqStr(l.Text(), want), "a second Text differs")
}

// Attr is the first node's attribute.
//
// verif: all preempt=0 attrs=2
// verif: thorough attrs=3
func Verif_L02_attr() {
	vt.Expect("found", "missing", "empty")
	var l List
	for i, n := 0, vt.Choose("nodes", 3); i < n; i++ {
		e := zzEl("a")
		for j, m := 0, vt.Choose("attrs", vt.Param("attrs", 2)+1); j < m; j++ {
			e.Attr = append(e.Attr, html.Attribute{Key: vt.String("key", 1, 2, "kK-"), Val: vt.String("val", 0, 1, "vw")})
		}
		l = append(l, e)
	}
	key := vt.String("want", 1, 2, "kK-")
	got, ok := l.Attr(key)
	if len(l) == 0 {
		vt.Reach("empty")
		vt.Assert("empty", got == "" && !ok, "an empty list has an attribute")
		return
	}
	want, wok := zzAttrOf(l[0], key)
	if wok {
		vt.Reach("found")
	} else {
		vt.Reach("missing")
	}
	vt.Assert("attr", ok == wok && vt.EqStr(got, want), "Attr is not the first node's attribute")
}

// zzSel is a selector with its reference meaning.
type zzSel struct {
	css   string
	match func(*html.Node) bool
}

var zzSels = []zzSel{
	{"b", func(n *html.Node) bool { return n.Data == "b" }},
	{"*", func(n *html.Node) bool { return true }},
	{"[k]", func(n *html.Node) bool { _, ok := zzAttrOf(n, "k"); return ok }},
	{`b[k="v"], i`, func(n *html.Node) bool {
		v, _ := zzAttrOf(n, "k")
		return n.Data == "i" || n.Data == "b" && vt.Force(vt.EqStr(v, "v"))
	}},
	{".x", func(n *html.Node) bool {
		v, _ := zzAttrOf(n, "class")
		for _, f := range strings.Fields(v) {
			if vt.Force(vt.EqStr(f, "x")) {
				return true
			}
		}
		return false
	}},
	{"b > i", func(n *html.Node) bool { return n.Data == "i" && n.Parent != nil && n.Parent.Data == "b" }},
	{"b i", func(n *html.Node) bool {
		if n.Data != "i" {
			return false
		}
		for p := n.Parent; p != nil; p = p.Parent {
			if p.Data == "b" {
				return true
			}
		}
		return false
	}},
	{"b[", nil}, {"", nil}, {">", nil}, {"b:nope", nil}, {"b@href", nil},
}

func zzMatches(n *html.Node, s zzSel) List {
	var out List
	if n.Type == html.ElementNode && s.match(n) {
		out = append(out, n)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		out = append(out, zzMatches(c, s)...)
	}
	return out
}

// Query and Is, on trees whose attributes are symbolic.
//
// verif: all preempt=0 nodes=2
// verif: thorough nodes=3
func Verif_L02_query() {
	vt.Expect("matched", "unmatched", "invalid")
	i := zzEl("i", zzText("t"))
	inner := zzEl("b", i, zzComment("c"))
	outer := zzEl("u", inner, zzEl("b"))
	for _, n := range []*html.Node{i, inner} {
		switch vt.Choose("attr", 3) {
		case 1:
			n.Attr = append(n.Attr, html.Attribute{Key: "k", Val: vt.String("val", 0, 1, "vw")})
		case 2:
			n.Attr = append(n.Attr, html.Attribute{Key: "class", Val: vt.String("class", 1, 3, "x y")})
		}
	}
	pool := []*html.Node{outer, inner, i, zzText("b")}
	var l List
	for k, n := 0, vt.Choose("nodes", vt.Param("nodes", 2)+1); k < n; k++ {
		l = append(l, pool[vt.Choose("node", len(pool))])
	}
	orig := append(List(nil), l...)
	s := zzSels[vt.Choose("sel", len(zzSels))]
	got := l.Query(s.css)
	is := l.Is(s.css)
	vt.Assert("list", zzNodesSame(orig, l), "Query or Is altered the list")
	if s.match == nil {
		vt.Reach("invalid")
		vt.Assert("invalid", len(got) == 0 && !is, "an invalid selector matched")
		return
	}
	var want List
	wis := false
	for _, n := range l {
		want = append(want, zzMatches(n, s)...)
		wis = wis || n.Type == html.ElementNode && s.match(n)
	}
	if len(want) > 0 {
		vt.Reach("matched")
	} else {
		vt.Reach("unmatched")
	}
	vt.Assert("query", zzNodesSame(got, want), "Query is not each node's matches in order")
	vt.Assert("is", is == wis, "Is differs from some node matching")
	vt.Assert("text", vt.EqStr(l.Query(s.css).Text(), func() (t string) {
		for _, n := range want {
			t += zzInner(n)
		}
		return
	}()), "the text of the query differs")
}

// Scan uses the first node; an empty list leaves the destination alone.
//
// verif: all preempt=0
func Verif_L02_scan() {
	vt.Expect("empty", "first")
	type item struct {
		B string `css:"b"`
	}
	var l List
	for k, n := 0, vt.Choose("nodes", 3); k < n; k++ {
		l = append(l, zzEl("u", zzEl("b", zzText(vt.String("text", 1, 1, "ab")))))
	}
	dst := item{B: "old"}
	err := l.Scan(&dst)
	vt.Assert("error", err == nil, "Scan failed")
	if len(l) == 0 {
		vt.Reach("empty")
		vt.Assert("empty", dst.B == "old", "scanning an empty list changed the value")
		return
	}
	vt.Reach("first")
	vt.Assert("first", vt.EqStr(dst.B, zzInner(l[0])), "Scan did not use the first node")
}
