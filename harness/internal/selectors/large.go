package selectors

import (
	"strconv"
	"strings"

	vt "github.com/yields/ant/internal/zzvt"
)

// Many selectors, and long ones.
//
// verif: all preempt=0 steps=100000000
func Verif_X01_large() {
	vt.Expect("valid", "invalid")
	compile := Compile
	if vt.Bool("own") {
		compile = NewCache().Compile
	}
	n := []int{5, 70, 300}[vt.Choose("n", 3)]
	size := []int{0, 40, 1100}[vt.Choose("size", 3)]
	prefix := strings.Repeat("x", size)
	for i := 0; i < 2; i++ {
		for k := 0; k < n; k++ {
			s := []string{".a", "#b", "a", "b", "a[", "x.aa"}[k%6]
			if k%5 != 0 {
				s = "." + prefix + strconv.Itoa(k) + ", " + s
			}
			sel, err := compile(s)
			zzCheck(s, sel, err, true)
		}
	}
}
