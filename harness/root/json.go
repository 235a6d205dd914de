package ant

import (
	"context"
	"errors"

	"golang.org/x/net/html"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzWriter records what is written; it fails when told to.
type zzWriter struct {
	out    string
	busy   bool
	fail   error
	writes int
}

func (w *zzWriter) Write(b []byte) (int, error) {
	vt.Assert("overlap", !w.busy, "two writes overlap")
	w.busy = true
	vt.Yield()
	w.busy = false
	w.writes++
	if w.fail != nil {
		return 0, w.fail
	}
	w.out += string(b)
	return len(b), nil
}

type zzRow struct {
	T string   `css:"title" json:"t"`
	L []string `css:"a@href" json:"l"`
	N int      `css:"b" json:"n"`
}

// zzQuote is s as a JSON string (for the bytes used here).
func zzQuote(s string) string {
	q := `"`
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case vt.Force(vt.Or(c == '"', c == '\\')):
			q += `\` + s[i:i+1]
		case vt.Force(c == '\n'):
			q += `\n`
		case vt.Force(c == '<'):
			q += `\u003c`
		default:
			q += s[i : i+1]
		}
	}
	return q + `"`
}

const zzDoc3 = `<title>t</title><p><a href="x" class="n">l</a><a href="y">m</a><b>7</b></p>`

// zzRowPage is a page with the title s.
func zzRowPage(s string) *Page {
	p := zzPage("http://h/", zzNewBody(zzDoc3))
	root, err := p.Document()
	vt.Assert("document", err == nil, "the document could not be parsed")
	zzElems(root, "title")[0].FirstChild.Data = s
	return p
}

// One scrape: the line, the URLs, and the errors.
//
// verif: all preempt=0 len=2
// verif: thorough len=4
func Verif_J01_single() {
	vt.Expect("line", "write-error", "scan-error", "selectors", "all")
	w := &zzWriter{}
	text := vt.String("title", 0, vt.Param("len", 2), "ab\"\\\n<")
	var t any = zzRow{}
	if vt.Bool("ptr") {
		t = &zzRow{}
	}
	line := `{"t":` + zzQuote(text) + `,"l":["x","y"],"n":7}` + "\n"
	bad := vt.Choose("bad", 6)
	switch bad {
	case 1:
		w.fail = errors.New("disk full")
	case 2:
		t = struct {
			B bool `css:"b"`
		}{}
	case 3:
		t = struct{}{}
	case 4:
		t = vt.Choose("non-struct", 3)
		if t == 1 {
			t = []string{}
		} else if t == 2 {
			t = nil
		}
	case 5:
		t = struct {
			S string `css:"b["`
		}{}
	}
	var sels []string
	want := []string{"http://h/x", "http://h/y"}
	if bad < 2 {
		switch vt.Choose("sels", 5) {
		case 1:
			sels, want = []string{".n"}, want[:1]
		case 2:
			sels, want = []string{"a:not(.n)", ".n"}, []string{want[1], want[0]}
		case 3:
			sels, want = []string{"a", "a[", "a"}, append(want, want...)
		case 4:
			sels, want = []string{"i"}, nil
		}
	}
	j := JSON(w, t, sels...)
	lines := ""
	for i := 0; i < 2; i++ {
		urls, err := j.Scrape(context.Background(), zzRowPage(text))
		if bad != 0 {
			vt.Assert("error", err != nil, "an error was not returned")
			vt.Assert("no-urls", len(urls) == 0, "a failed scrape yielded URLs")
			vt.Assert("nothing", w.out == "", "a failed scrape wrote a line")
			if bad == 1 {
				vt.Reach("write-error")
				vt.Assert("cause", errors.Is(err, w.fail), "the writer's error was not returned")
			} else {
				vt.Reach("scan-error")
				vt.Assert("no-write", w.writes == 0, "a failed scan was written")
			}
			continue
		}
		vt.Reach("line")
		lines += line
		vt.Assert("scraped", err == nil, "a scrape failed")
		vt.Assert("line", vt.EqStr(w.out, lines), "not exactly one JSON line per page was written")
		if sels == nil {
			vt.Reach("all")
		} else {
			vt.Reach("selectors")
		}
		got := zzStrings(urls)
		vt.Assert("urls", len(got) == len(want), "the scrape did not return the selected URLs")
		for k := range got {
			vt.Assert("urls", got[k] == want[k], "the scrape did not return the selected URLs in order")
		}
	}
}

// zzTitled is a page with the title s.
func zzTitled(s string) *Page {
	p := zzPage("http://h/", zzNewBody(`<title>t</title><a href="x">l</a>`))
	root, _ := p.Document()
	zzElems(root, "title")[0].FirstChild = &html.Node{Type: html.TextNode, Data: s}
	return p
}

// Concurrent scrapes with one scraper.
//
// verif: all races
// verif: quick preempt=2 callers=2
// verif: thorough preempt=2 callers=3
func Verif_J01_concurrent() {
	vt.Expect("scraped", "swapped")
	w := &zzWriter{}
	type row struct {
		T string   `css:"title" json:"t"`
		A []string `css:"a" json:"a"`
	}
	j := JSON(w, row{}, vt.Pick("sel", "a", "p"))
	n := vt.Param("callers", 2)
	texts := make([]string, n)
	ended := 0
	for i := 0; i < n; i++ {
		i := i
		texts[i] = string(rune('p'+i)) + vt.String("title", 1, 1, "ab")
		p := zzTitled(texts[i])
		vt.Go(func() {
			_, err := j.Scrape(context.Background(), p)
			vt.Assert("scraped", err == nil, "a scrape failed")
			ended++
		})
	}
	vt.WaitUntil(func() bool { return ended == n })
	vt.Reach("scraped")
	line := func(i int) string { return `{"t":"` + texts[i] + `","a":["l"]}` + "\n" }
	// The lines are those of the pages in some order.
	rest := w.out
	seen := make([]bool, n)
	for k := 0; k < n; k++ {
		found := false
		for i := 0; i < n && !found; i++ {
			l := line(i)
			if !seen[i] && len(rest) >= len(l) && vt.Force(vt.EqStr(rest[:len(l)], l)) {
				if i != k {
					vt.Reach("swapped")
				}
				found, seen[i], rest = true, true, rest[len(l):]
			}
		}
		vt.Assert("lines", found, "a line was lost, duplicated, interleaved or mixed up")
	}
	vt.Assert("rest", rest == "", "more than one line per page was written")
}

// One scraper and several pages, each of which has some of the elements.
//
// verif: all preempt=0
// verif: quick pages=2
// verif: thorough pages=3
func Verif_J01_pages() {
	vt.Expect("full", "empty", "lost")
	type row struct {
		T string   `css:"title" json:"t"`
		L []string `css:"a@href" json:"l"`
		N int      `css:"i" json:"n"`
		S struct {
			C string  `css:"b" json:"c"`
			F float64 `css:"u" json:"f"`
		} `css:"div" json:"s"`
		R []struct {
			D uint `css:"s" json:"d"`
		} `css:"p" json:"r"`
	}
	w := &zzWriter{}
	j := JSON(w, row{})
	lines := ""
	all := 0
	for i := 0; i < vt.Param("pages", 2); i++ {
		has := vt.Choose("has", 32)
		n := string(rune('1' + i))
		doc, t, l, v, s, r := "", "", "null", "0", `{"c":"","f":0}`, "null"
		if has&1 != 0 {
			doc, t = doc+"<title>t"+n+"</title>", "t"+n
		}
		doc += "<body>"
		if has&2 != 0 {
			doc, l = doc+`<a href="`+n+`">x</a>`, `["`+n+`"]`
		}
		if has&4 != 0 {
			doc, v = doc+`<i>`+n+`</i>`, n
		}
		if has&8 != 0 {
			doc, s = doc+`<div><b>`+n+`</b><u>`+n+`</u></div>`, `{"c":"`+n+`","f":`+n+`}`
		}
		if has&16 != 0 {
			doc, r = doc+`<p><s>`+n+`</s></p><p></p>`, `[{"d":`+n+`},{"d":0}]`
		}
		if has == 31 {
			vt.Reach("full")
		}
		if has == 0 {
			vt.Reach("empty")
		}
		if all&^has != 0 {
			vt.Reach("lost")
		}
		all |= has
		urls, err := j.Scrape(context.Background(), zzPage("http://h/", zzNewBody(doc)))
		vt.Assert("scraped", err == nil, "a scrape failed")
		vt.Assert("urls", len(urls) == has>>1&1, "the scrape did not return the page's links")
		lines += `{"t":"` + t + `","l":` + l + `,"n":` + v + `,"s":` + s + `,"r":` + r + "}\n"
		vt.Assert("line", w.out == lines, "the line is not that of the page")
	}
}
