package normalize

import (
	"strconv"
	"strings"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzLong is a long URL: a host, a path of n segments and n parameters.
func zzLong(n, size int) (host, path string, params []string) {
	var ls, ps []string
	for i := 0; i < n && i < 60; i++ {
		ls = append(ls, "l"+strconv.Itoa(i))
	}
	for i := 0; i < n; i++ {
		ps = append(ps, strings.Repeat("p", size)+strconv.Itoa(i))
		params = append(params, "k"+strconv.Itoa(i*7%n)+"="+strings.Repeat("v", size)+strconv.Itoa(i))
	}
	return strings.Join(append(ls, "example"), "."), "/" + strings.Join(ps, "/"), params
}

var zzCounts, zzLengths = []int{1, 9, 64, 300}, []int{0, 1, 60, 300}

// Long URLs stay what they are.
//
// verif: all preempt=0 steps=100000000
func Verif_N02_large() {
	vt.Expect("ok")
	host, path, params := zzLong(zzCounts[vt.Choose("n", 4)], zzLengths[vt.Choose("size", 4)])
	zzCheck02("http", host, vt.Pick("port", "", ":80", ":65535"), "", path, "?"+strings.Join(params, "&"))
}

// Long URLs and their other spellings.
//
// verif: all preempt=0 steps=100000000
func Verif_N01_large() {
	vt.Expect("ok")
	n := zzCounts[vt.Choose("n", 4)]
	host, path, params := zzLong(n, zzLengths[vt.Choose("size", 4)])
	x := zzNorm("a", "http://"+host+path+"?"+strings.Join(params, "&"))
	how := vt.Choose("how", 7)
	switch how {
	case 0:
		host = strings.ToUpper(host)
	case 1:
		host += ":80"
	case 2:
		path = strings.Replace(path, "/", "/x/.././/", -1)
	case 3:
		path = "/" + strings.Repeat("x/", n) + strings.Repeat("../", n) + path[1:]
	case 4:
		for i, j := 0, len(params)-1; i < j; i, j = i+1, j-1 {
			params[i], params[j] = params[j], params[i]
		}
	case 5:
		path = strings.Replace(path, "p", "%70", -1)
	case 6:
		path += "#" + strings.Repeat("f", n*10)
		params = nil
		x = zzNorm("a", "http://"+host+strings.SplitN(path, "#", 2)[0])
	}
	raw := "http://" + host + path
	if params != nil {
		raw += "?" + strings.Join(params, "&")
	}
	vt.Assert("canonical", zzNorm("b", raw) == x, "equivalent URLs normalize differently")
	vt.Reach("ok")
}
