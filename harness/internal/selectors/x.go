package selectors

import (
	"github.com/andybalholm/cascadia"
	"golang.org/x/net/html"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzProbe are elements which tell selectors apart.
func zzProbe() []*html.Node {
	mk := func(tag, class, id string) *html.Node {
		n := &html.Node{Type: html.ElementNode, Data: tag}
		if class != "" {
			n.Attr = append(n.Attr, html.Attribute{Key: "class", Val: class})
		}
		if id != "" {
			n.Attr = append(n.Attr, html.Attribute{Key: "id", Val: id})
		}
		return n
	}
	return []*html.Node{
		mk("a", "", ""), mk("b", "", ""), mk("aa", "", ""), mk("ab", "a", ""), mk("ba", "b", "a"), mk("bb", "", "b"), mk("x", "aa", ""), mk("x", "", "ab"), mk("x", "a b", "bb"), mk("x", "ab ba bb", "aa"), mk("x", "", "ba"), mk("x", "A", ""), mk("x", "", "A"), mk("x", "aA", "Ab"), mk("x", "Ab", "aA"),
	}
}

// zzCheck compares a result of Compile with a fresh compilation of s.
func zzCheck(s string, sel cascadia.Selector, err error, msg bool) {
	fresh, ferr := cascadia.Compile(s)
	if ferr != nil {
		vt.Reach("invalid")
		vt.Assert("invalid", err != nil && sel == nil, "an invalid selector was compiled")
		vt.Assert("message", !msg || err == nil || err.Error() == ferr.Error(), "another selector's error was returned")
		return
	}
	vt.Reach("valid")
	vt.Assert("valid", err == nil && sel != nil, "a valid selector was not compiled")
	for _, n := range zzProbe() {
		vt.Assert("match", sel.Match(n) == fresh.Match(n), "the selector behaves like another one")
	}
}

// Histories of compilations of symbolic selectors.
//
// verif: all preempt=0
// verif: quick calls=2 len=2
// verif: thorough calls=3 len=2
func Verif_X01_history() {
	vt.Expect("valid", "invalid")
	c := NewCache()
	n := vt.Param("calls", 2)
	for i := 0; i < n; i++ {
		s := vt.String("sel", 0, vt.Param("len", 2), "abA.# ")
		sel, err := c.Compile(s)
		zzCheck(s, sel, err, false)
	}
}

// Longer histories of whole selectors, through the package's cache as well.
//
// verif: all preempt=0
// verif: quick calls=4
// verif: thorough calls=5
func Verif_X01_pool() {
	vt.Expect("valid", "invalid")
	compile := Compile
	if vt.Bool("own") {
		compile = NewCache().Compile
	}
	pool := []string{"a", "A", " a", ".a", ".A", "#a", "#A", "a[", "a:not(.a)", ""}
	for i := 0; i < vt.Param("calls", 4); i++ {
		s := pool[vt.Choose("sel", len(pool))]
		sel, err := compile(s)
		zzCheck(s, sel, err, true)
	}
}

// Concurrent compilations.
//
// verif: all races
// verif: quick preempt=2 callers=2
// verif: thorough preempt=1 callers=3
func Verif_X01_concurrent() {
	vt.Expect("valid", "invalid")
	c := NewCache()
	pool := []string{"a", "b", ".a", "a["}
	n := vt.Param("callers", 2)
	ended := 0
	for i := 0; i < n; i++ {
		s, t := pool[vt.Choose("sel", len(pool))], pool[vt.Choose("sel", len(pool))]
		vt.Go(func() {
			for _, s := range []string{s, t} {
				sel, err := c.Compile(s)
				vt.Atomic(func() { zzCheck(s, sel, err, true) })
			}
			ended++
		})
	}
	vt.WaitUntil(func() bool { return ended == n })
}
