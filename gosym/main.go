package main

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay|list ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework directory")
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	strict := fs.Bool("strict", false, "treat reduced bounds as an error")
	only := fs.String("only", "", "regexp of harness names")
	nw := fs.Int("workers", runtime.NumCPU(), "workers")
	verbose := fs.Bool("v", false, "verbose")
	nonative := fs.Bool("nonative", false, "skip native replays")
	setp := fs.String("p", "", "param overrides k=v,k=v")
	budget := fs.Int("budget", 0, "seconds of exploration")
	fs.Parse(os.Args[2:])
	c := &checker{repo: *repo, verif: *verif, prop: *prop, tier: *tier, strict: *strict, nw: *nw, verbose: *verbose, native: !*nonative, setp: *setp, budget: *budget}
	if *only != "" {
		c.only = regexp.MustCompile(*only)
	}
	switch cmd {
	case "check":
		os.Exit(c.check())
	case "replay":
		os.Exit(c.replayFile(fs.Arg(0)))
	case "list":
		for _, h := range c.find("") {
			fmt.Println(h.prop, h.dir, h.name)
		}
	default:
		os.Exit(2)
	}
}

type checker struct {
	repo, verif, prop, tier string
	strict, verbose, native bool
	only                    *regexp.Regexp
	nw                      int
	setp                    string
	budget                  int
	e                       *Engine
	runs                    []*runRec
	seed                    int64
}

type hfn struct {
	prop, dir, pkg, name string
}

type runRec struct {
	h      hfn
	opt    Options
	params map[string]int64
	run    *Run
	over   map[string]int64
	native []string
}

var harnessFn = regexp.MustCompile(`(?m)^func (Verif_([A-Z][0-9]{2,3})_\w+)\(\)`)

// find lists the harness functions of a property ("" for all).
func (c *checker) find(prop string) []hfn {
	var out []hfn
	root := filepath.Join(c.verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		pkg := repoMod + "/" + rel
		if rel == "root" {
			pkg = repoMod
		}
		for _, m := range harnessFn.FindAllStringSubmatch(string(b), -1) {
			if prop == "" || m[2] == prop {
				out = append(out, hfn{m[2], rel, pkg, m[1]})
			}
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// directives reads "//verif: quick k=v ..." lines above a harness.
func (c *checker) directives(h hfn) (Options, map[string]int64, map[string]string) {
	opt := Options{Preempt: 2}
	params := map[string]int64{}
	misc := map[string]string{}
	apply := func(fields []string) {
		for _, f := range fields {
			k, v, _ := strings.Cut(f, "=")
			n, err := strconv.ParseInt(v, 10, 64)
			switch k {
			case "preempt":
				opt.Preempt = int(n)
			case "delay":
				opt.Delay, opt.Preempt = true, int(n)
			case "clockfree":
				opt.ClockFree = true
			case "timerfires":
				opt.TimerFires = int(n)
			case "steps":
				opt.StepLimit = n
			case "maxpaths":
				opt.MaxPaths = n
			case "races":
				opt.Races = true
			case "nomerge":
				opt.NoMerge = true
			default:
				if err == nil {
					params[k] = n
				} else {
					misc[k] = v
				}
			}
		}
	}
	for _, p := range c.e.pkgs {
		if p.PkgPath != h.pkg {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != h.name || fd.Doc == nil {
					continue
				}
				for _, line := range fd.Doc.List {
					t, ok := strings.CutPrefix(strings.Replace(line.Text, "// ", "//", 1), "//verif: ")
					if !ok {
						continue
					}
					fl := strings.Fields(t)
					if len(fl) == 0 {
						continue
					}
					switch fl[0] {
					case "all":
						apply(fl[1:])
					case "quick":
						if c.tier == "quick" {
							apply(fl[1:])
						}
					case "thorough":
						if c.tier == "thorough" {
							apply(fl[1:])
						}
					}
				}
			}
		}
	}
	if c.setp != "" {
		apply(strings.Split(c.setp, ","))
	}
	return opt, params, misc
}

type knownFinding struct {
	Tag      string `json:"tag"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status,omitempty"`
}

func (c *checker) loadKnown() []knownFinding {
	var out struct {
		Findings []knownFinding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &out)
	}
	return out.Findings
}

func (c *checker) check() int {
	t0 := time.Now()
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	hs := c.find(c.prop)
	if len(hs) == 0 {
		fmt.Printf("no harness for property %s\n", c.prop)
		return 2
	}
	pats := map[string]bool{}
	for _, h := range hs {
		pats[h.pkg] = true
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	sort.Strings(pl)
	e, err := Load(c.repo, c.verif, pl)
	if err != nil {
		fmt.Printf("ERROR loading %s: %v\n", c.repo, err)
		return 2
	}
	c.e = e
	e.verbose = c.verbose
	known := c.loadKnown()
	for _, k := range known {
		if k.Property == c.prop && k.Status != "fixed" {
			e.knownTags[k.Tag] = true
		}
	}
	budget := 300 * time.Second
	if c.tier == "thorough" {
		budget = 820 * time.Second
	}
	if c.budget > 0 {
		budget = time.Duration(c.budget) * time.Second
	}
	deadline := t0.Add(budget)
	workers := make([]*Worker, c.nw)
	var wg sync.WaitGroup
	for i := range workers {
		wg.Add(1)
		go func() { defer wg.Done(); workers[i] = newWorker(e, i) }()
	}
	wg.Wait()
	defer func() {
		for _, w := range workers {
			w.S.Close()
		}
	}()
	rc := 0
	violations := 0
	var reduced []string
	for i, h := range hs {
		if c.only != nil && !c.only.MatchString(h.name) {
			continue
		}
		fn := e.harness(h.pkg, h.name)
		if fn == nil {
			fmt.Printf("ERROR harness %s not found\n", h.name)
			return 2
		}
		opt, params, _ := c.directives(h)
		e.params = params
		// share the remaining time among the remaining harnesses
		dl := time.Now().Add(time.Until(deadline) / time.Duration(len(hs)-i))
		if i == len(hs)-1 {
			dl = deadline
		}
	again:
		r := e.Explore(h.name, fn, opt, workers, dl)
		rec := &runRec{h: h, opt: opt, params: params, run: r}
		c.runs = append(c.runs, rec)
		status := "exhausted"
		if r.timedOut {
			status = "REDUCED(time)"
			reduced = append(reduced, h.name+": exploration not finished in the time budget")
		}
		if r.nerr > 0 && !r.timedOut {
			status = fmt.Sprintf("REDUCED(%d unencodable)", r.nerr)
		}
		if len(r.viols) > 0 {
			status = "VIOLATION"
		}
		fmt.Printf("%-44s %-14s paths=%d pruned=%d asserts=%d branches=%d threads=%d wall=%.1fs\n", h.name, status, r.paths, r.pruned, r.asserts, r.branches, r.maxThreads, r.wall.Seconds())
		for _, er := range r.errs {
			fmt.Printf("  not encoded: %s\n", er)
			reduced = append(reduced, h.name+": path not encodable: "+firstLine(er))
		}
		var bk []string
		for k := range r.bounds {
			bk = append(bk, k)
		}
		sort.Strings(bk)
		for _, k := range bk {
			fmt.Printf("  bound reached: %s (%d paths)\n", k, r.bounds[k])
			if strings.HasPrefix(k, "!") {
				reduced = append(reduced, h.name+": bound "+k)
			}
		}
		var missing []string
		for l := range r.expected {
			if !r.reached[l] {
				missing = append(missing, l)
			}
		}
		sort.Strings(missing)
		if len(missing) > 0 && len(r.viols) == 0 {
			fmt.Printf("  NOT REACHED: %s\n", strings.Join(missing, ", "))
			if !r.timedOut && len(r.errs) == 0 {
				rc = 2
			} else {
				reduced = append(reduced, h.name+": not reached: "+strings.Join(missing, ", "))
			}
		}
		if r.asserts == 0 && len(r.viols) == 0 && len(r.known) == 0 {
			fmt.Printf("  no assertion was reached\n")
			rc = 2
		}
		failed, retry := false, false
		for _, v := range r.viols {
			ok, path := c.confirm(rec, v, workers[0])
			if !ok {
				failed, retry = true, retry || v.Markers
				continue
			}
			violations++
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		}
		if failed && violations == 0 && retry && opt.Sampled == 0 {
			// The code may look at the digits of a formatted number or date,
			// which are abstract: let them take a few values instead.
			fmt.Printf("  again, with a few values for each formatted number and date\n")
			opt.Sampled = 4
			reduced = append(reduced, h.name+": formatted numbers and dates take a few values only")
			goto again
		}
		if failed {
			rc = 2
		}
		var kt []string
		for t := range r.known {
			kt = append(kt, t)
		}
		sort.Strings(kt)
		for _, t := range kt {
			what := ""
			for _, k := range known {
				if k.Tag == t {
					what = k.What
				}
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.prop, what, t)
		}
		if violations > 0 && c.only == nil {
			break
		}
	}
	if c.tier == "thorough" && violations == 0 && c.native {
		c.validateSamples()
	}
	if c.verbose {
		var ns []string
		for n, k := range e.notes {
			ns = append(ns, fmt.Sprintf("%s (x%d)", n, k))
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println("note:", n)
		}
	}
	wall := time.Since(t0)
	st := &e.stats
	fmt.Printf("property %s tier %s: load=%.1fs queries=%d (sat %d unsat %d) cached=%d domain=%d solver=%.1fs wall=%.1fs\n", c.prop, c.tier,
		e.loadWall.Seconds(), st.Queries, st.Sat, st.Unsat, st.Cached, st.Domain, float64(st.Nanos)/1e9, wall.Seconds())
	if c.only == nil {
		c.evidence(wall, violations, reduced)
	}
	if violations > 0 {
		return 1
	}
	for _, r := range reduced {
		fmt.Println("REDUCED BOUND:", r)
	}
	if c.strict && len(reduced) > 0 {
		return 2
	}
	return rc
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string           `json:"property"`
	Harness   string           `json:"harness"`
	Package   string           `json:"package"`
	Dir       string           `json:"dir"`
	Label     string           `json:"label"`
	Message   string           `json:"message"`
	Draws     []DrawVal        `json:"draws"`
	Params    map[string]int64 `json:"params"`
	Options   Options          `json:"options"`
	Decisions []jdec           `json:"decisions"`
	Schedule  []string         `json:"schedule,omitempty"`
	Stack     []string         `json:"stack,omitempty"`
	Logs      []string         `json:"log,omitempty"`
	Executor  string           `json:"executor_replay"`
	Native    string           `json:"native_replay"`
	Preempts  int              `json:"preemptions"`
	Threads   int              `json:"goroutines"`
}

type jdec struct {
	Kind uint8  `json:"t"`
	K    uint64 `json:"k"`
	N    int    `json:"n"`
}

// confirm replays a counterexample and writes its file.
func (c *checker) confirm(rec *runRec, v *Violation, w *Worker) (bool, string) {
	rp := &Replay{Property: c.prop, Harness: rec.h.name, Package: rec.h.pkg, Dir: rec.h.dir, Label: v.Label, Message: v.Msg, Draws: v.Draws,
		Params: rec.params, Options: rec.opt, Schedule: v.Trace, Stack: v.Stack, Logs: v.Logs, Preempts: v.preempts, Threads: v.Threads}
	for _, d := range v.prefix {
		rp.Decisions = append(rp.Decisions, jdec{d.kind, d.k, d.n})
	}
	fmt.Printf("  counterexample [%s] %s\n", v.Label, v.Msg)
	var in []string
	for _, d := range v.Draws {
		in = append(in, fmt.Sprintf("%s=%s", d.Name, showDraw(d)))
	}
	if len(in) > 0 {
		fmt.Printf("    inputs: %s\n", strings.Join(in, " "))
	}
	for _, l := range v.Logs {
		fmt.Printf("    log: %s\n", l)
	}
	for i, l := range v.Stack {
		if i < 6 {
			fmt.Printf("    at %s\n", l)
		}
	}
	if len(v.Trace) > 0 && len(v.Trace) < 60 {
		fmt.Printf("    schedule: %s\n", strings.Join(v.Trace, " "))
	}
	// 1. concrete re-execution in the executor
	lab, msg := c.concrete(rec, v, w)
	rp.Executor = fmt.Sprintf("%s: %s", lab, msg)
	exOK := lab == v.Label
	fmt.Printf("    executor replay on the concrete inputs: %s\n", firstLine(rp.Executor))
	// 2. the compiled code
	sched := v.Threads > 1 || v.Selects > 0
	natOK := false
	if c.native {
		tries := 1
		if sched {
			tries = 12
		}
		out := c.nativeRun(rp, tries)
		rp.Native = out
		natOK = strings.Contains(out, "violation")
		fmt.Printf("    native replay: %s\n", firstLine(out))
	} else {
		rp.Native = "skipped"
	}
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	b := mustJSON(rp)
	h := sha256.Sum256(b)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", c.prop, sanitize(v.Label), h[:4]))
	os.WriteFile(path, b, 0o644)
	if !exOK {
		fmt.Printf("    ERROR: the counterexample does not reproduce in the executor; not reported (%s)\n", path)
		return false, path
	}
	if !natOK && !sched && c.native && !interpOnly[v.Label] {
		fmt.Printf("    ERROR: the sequential counterexample does not reproduce natively; not reported (%s)\n", path)
		return false, path
	}
	return true, path
}

// labels which the native build cannot show as such
var interpOnly = map[string]bool{"nontermination": true, "stack-overflow": true, "deadlock": true, "data-race": true}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

func showDraw(d DrawVal) string {
	if d.W == 8 && d.V >= 0x20 && d.V < 0x7f {
		return fmt.Sprintf("%q", byte(d.V))
	}
	if d.W == 64 {
		return strconv.FormatInt(int64(d.V), 10)
	}
	return strconv.FormatUint(d.V, 10)
}

// concrete re-executes the counterexample with constant inputs.
func (c *checker) concrete(rec *runRec, v *Violation, w *Worker) (string, string) {
	r := &Run{E: c.e, Name: rec.h.name, fn: rec.run.fn, Opt: rec.run.Opt, violKeys: map[string]bool{}, reached: map[string]bool{},
		expected: map[string]bool{}, bounds: map[string]int64{}, deadline: time.Now().Add(time.Minute), known: map[string]*Violation{}, funcs: map[string]bool{}}
	r.cond = sync.NewCond(&r.mu)
	r.Opt.MaxViol = 1 << 30
	r.fixed = map[string]uint64{}
	for _, d := range v.Draws {
		r.fixed[d.Name] = d.V
	}
	for _, d := range v.prefix {
		if d.kind == dSched || d.kind == dChoose {
			r.fixedDec = append(r.fixedDec, d)
		}
	}
	w.R = r
	old := c.e.params
	c.e.params = rec.params
	w.runPath(&job{model: Model{}})
	c.e.params = old
	w.R = nil
	for _, x := range r.viols {
		if x.Label == v.Label {
			return x.Label, x.Msg
		}
	}
	for _, x := range r.known {
		return x.Label, x.Msg
	}
	if len(r.viols) > 0 {
		return r.viols[0].Label, r.viols[0].Msg
	}
	if len(r.errs) > 0 {
		return "error", r.errs[0]
	}
	return "none", "no violation"
}

// nativeRun runs the harness natively on the inputs of rp.
func (c *checker) nativeRun(rp *Replay, tries int) string {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return "error: " + err.Error()
	}
	defer os.RemoveAll(dir)
	bin, msg := c.nativeBuild(dir, rp.Dir, []string{rp.Harness})
	if bin == "" {
		return "error: " + msg
	}
	return c.nativeExec(dir, bin, rp, tries)
}

func (c *checker) nativeBuild(dir, hdir string, fns []string) (string, string) {
	rep := map[string]string{}
	n := 0
	ov := map[string][]byte{}
	if c.e != nil {
		ov = c.e.overlay
	} else {
		ov, _ = overlayFiles(c.repo, c.verif)
	}
	for p, b := range ov {
		n++
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", n))
		os.WriteFile(f, b, 0o644)
		rep[p] = f
	}
	sub := hdir
	pkg := filepath.Base(hdir)
	if hdir == "root" {
		sub, pkg = ".", "ant"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tfs := map[string]func(){\n", pkg, rtVT)
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", f, f)
	}
	fmt.Fprintf(&sb, "\t}\n\tzzvt.Replay(t, fs[os.Getenv(\"VT_HARNESS\")])\n}\n")
	tf := filepath.Join(dir, "replay_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0o644)
	rep[filepath.Join(c.repo, sub, "zz_verif_replay_test.go")] = tf
	// keep the repository's own tests out of the binary
	ts, _ := filepath.Glob(filepath.Join(c.repo, sub, "*_test.go"))
	for _, t := range ts {
		rep[t] = ""
	}
	oj := filepath.Join(dir, "overlay.json")
	os.WriteFile(oj, mustJSON(map[string]any{"Replace": rep}), 0o644)
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-tags=noasm,purego", "-overlay", oj, "-o", bin, "./"+sub)
	cmd.Dir = c.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", "building the native replay: " + err.Error() + "\n" + string(out)
	}
	return bin, ""
}

func (c *checker) nativeExec(dir, bin string, rp *Replay, tries int) string {
	rf := filepath.Join(dir, "replay.json")
	os.WriteFile(rf, mustJSON(rp), 0o644)
	last := "no result"
	for i := 0; i < tries; i++ {
		cmd := exec.Command("timeout", "-k", "1", "20", bin, "-test.run", "TestZZReplay", "-test.timeout", "15s")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VT_REPLAY="+rf, "VT_HARNESS="+rp.Harness, "GODEBUG=asynctimerchan=0", "GOMAXPROCS=1", fmt.Sprintf("VT_JITTER=%d", i))
		out, err := cmd.CombinedOutput()
		if os.Getenv("GOSYM_NATIVE") != "" {
			fmt.Fprintln(os.Stderr, string(out))
		}
		res := ""
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "VT-RESULT ") {
				res = strings.TrimPrefix(l, "VT-RESULT ")
			}
		}
		if res == "" {
			s := string(out)
			switch {
			case strings.Contains(s, "all goroutines in bubble are blocked") || strings.Contains(s, "deadlock"):
				res = "violation label=deadlock (all goroutines blocked)"
			case strings.Contains(s, "panic: test timed out"):
				res = "no result (timed out)"
				if rp.Label == "nontermination" || rp.Label == "deadlock" {
					res = "violation label=" + rp.Label + " (no end within 15 s)"
				}
			case strings.Contains(s, "panic:"):
				j := strings.Index(s, "panic:")
				res = "violation label=panic " + firstLine(s[j:])
			case strings.Contains(s, "fatal error:"):
				j := strings.Index(s, "fatal error:")
				res = "violation label=panic " + firstLine(s[j:])
			case err != nil && strings.Contains(err.Error(), "124"):
				res = "violation label=nontermination (timeout)"
			default:
				res = fmt.Sprintf("no result (%v) %s", err, tail(s, 300))
			}
		}
		if strings.HasPrefix(res, "violation") {
			if tries > 1 {
				res += fmt.Sprintf(" (attempt %d)", i+1)
			}
			return res
		}
		last = res
	}
	if tries > 1 {
		last += fmt.Sprintf(" (schedule-dependent: %d native attempts did not hit the interleaving; the executor replays it deterministically)", tries)
	}
	return last
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// validateSamples runs some explored paths natively: the compiled code has to
// agree that nothing is violated.
func (c *checker) validateSamples() {
	byDir := map[string][]*runRec{}
	for _, r := range c.runs {
		if len(r.run.sampleDraws) > 0 && len(r.run.known) == 0 {
			byDir[r.h.dir] = append(byDir[r.h.dir], r)
		}
	}
	for d, rs := range byDir {
		dir, err := os.MkdirTemp("", "gosym-native-")
		if err != nil {
			return
		}
		var fns []string
		for _, r := range rs {
			fns = append(fns, r.h.name)
		}
		bin, msg := c.nativeBuild(dir, d, fns)
		if bin == "" {
			fmt.Println("  native validation:", firstLine(msg))
		} else {
			for _, r := range rs {
				for _, s := range r.run.sampleDraws {
					rp := &Replay{Harness: r.h.name, Draws: s, Params: r.params}
					r.native = append(r.native, c.nativeExec(dir, bin, rp, 1))
				}
				ok := 0
				for _, n := range r.native {
					if strings.HasPrefix(n, "ok") {
						ok++
					}
				}
				fmt.Printf("  native validation %s: %d of %d sampled paths agree %s\n", r.h.name, ok, len(r.native), disagree(r.native))
			}
		}
		os.RemoveAll(dir)
	}
}

func disagree(xs []string) string {
	for _, x := range xs {
		if !strings.HasPrefix(x, "ok") {
			return "(" + firstLine(x) + ")"
		}
	}
	return ""
}

// replayFile re-executes a replay file: in the executor and natively.
func (c *checker) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	e, err := Load(c.repo, c.verif, []string{rp.Package})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c.e = e
	w := newWorker(e, 0)
	defer w.S.Close()
	rec := &runRec{h: hfn{rp.Property, rp.Dir, rp.Package, rp.Harness}, opt: rp.Options, params: rp.Params, run: &Run{fn: e.harness(rp.Package, rp.Harness), Opt: rp.Options}}
	defaults(&rec.run.Opt)
	v := &Violation{Label: rp.Label, Draws: rp.Draws}
	for _, d := range rp.Decisions {
		v.prefix = append(v.prefix, decision{d.Kind, d.K, d.N})
	}
	lab, msg := c.concrete(rec, v, w)
	fmt.Printf("executor: [%s] %s\n", lab, msg)
	tries := 1
	if rp.Threads > 1 {
		tries = 12
	}
	fmt.Printf("native: %s\n", c.nativeRun(&rp, tries))
	if lab == rp.Label {
		return 1
	}
	return 0
}
