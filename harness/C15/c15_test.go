package lens

// C15: the engine as a state machine. Every stage is replaced by a stand-in whose outcome is chosen; all combinations of
// outcomes and settings are run (a depth-first walk over the choices the engine actually asks for), and the sequence of
// calls, their arguments, the clean-up, the answer and the file trees are compared with the model.

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

var c15N int

func c15Write(p, s string) {
	vMust(os.MkdirAll(filepath.Dir(p), 0o755))
	vMust(os.WriteFile(p, []byte(s), 0o644))
}

// c15Tree lists all files with content, mode and link target.
func c15Tree(dir string) string {
	var out []string
	vMust(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		vMust(err)
		info, err := d.Info()
		vMust(err)
		rel, _ := filepath.Rel(dir, p)
		s := rel + " " + info.Mode().String()
		if info.Mode()&os.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			s += " -> " + t
		} else if !d.IsDir() {
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		}
		out = append(out, s)
		return nil
	}))
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// c15World answers the engine's questions and records them.
type c15World struct {
	choices []int // fixed prefix
	made    []int // choices made
	max     []int
	calls   []string
	cfg     *Config // configuration given to the engine
	check   func(stage string, c Config)
	storage *c15Storage
	fns     []*ModuleFunction
	callers []*CallerFunction
	tests   []*TestFunction
	reach   ReachableModuleChange
	reports []TestReport
	mut     MutationResult
	pre     Storage
	post    Storage
	bad     []string
	err     error // the error a stage answered
	rep     map[string]any
	mods    []*ModuleChange
	byMod   map[string][]*ModuleFunction
}

func (w *c15World) pick(n int) int {
	c := 0
	if k := len(w.made); k < len(w.choices) {
		c = w.choices[k]
	}
	w.made = append(w.made, c)
	w.max = append(w.max, n)
	return c
}

func (w *c15World) call(s string) { w.calls = append(w.calls, s) }

func (w *c15World) want(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		w.bad = append(w.bad, fmt.Sprintf("%s: %v want %v", what, got, want))
	}
}

type c15Storage struct {
	Storage
	w *c15World
}

func (s *c15Storage) Close() { s.w.call("storage.Close"); s.Storage.Close() }

type c15Mod struct{ w *c15World }
type c15Callers struct{ w *c15World }
type c15Tests struct{ w *c15World }
type c15Update struct{ w *c15World }
type c15Mutation struct{ w *c15World }
type c15Compare struct{ w *c15World }
type c15Report struct{ w *c15World }
type c15Store struct{ w *c15World }

func (p *c15Mod) Cleanup()      { p.w.call("cleanup modules") }
func (p *c15Callers) Cleanup()  { p.w.call("cleanup callers") }
func (p *c15Tests) Cleanup()    { p.w.call("cleanup tests") }
func (p *c15Update) Cleanup()   { p.w.call("cleanup update") }
func (p *c15Mutation) Cleanup() { p.w.call("cleanup mutation") }

func (w *c15World) fail(text string) error {
	w.err = errors.New(text)
	return w.err
}

func (p *c15Mod) AnalyzeModuleChanges(c Config, trans bool, mods []*ModuleChange, radius int) (map[string][]*ModuleFunction, map[string][]*packages.Package, error) {
	w := p.w
	w.call("modules")
	w.check("modules", c)
	w.mods = mods
	w.want("transitive", trans, true)
	w.want("radius", radius, map[bool]int{true: 1, false: 0}[c.MutationScope == "area"])
	if len(mods) != 1 || mods[0].Name != "ex.org/m" || mods[0].PriorVersion != "v1.0.0" || mods[0].NewVersion != "v1.2.0" {
		w.bad = append(w.bad, fmt.Sprintf("modules %v", mods))
	}
	fn := func(m, n string) *ModuleFunction {
		return &ModuleFunction{Function: Function{FunctionIdent: m + ":" + n, FunctionName: n}, Module: mods[0]}
	}
	switch w.pick(6) {
	case 0:
		w.byMod = map[string][]*ModuleFunction{"ex.org/m": {fn("ex.org/m", "A"), fn("ex.org/m", "B")}}
		w.fns = w.byMod["ex.org/m"]
	case 1: // several modules, one without a change
		a, b := fn("ex.org/a", "A"), fn("ex.org/m", "B")
		w.byMod = map[string][]*ModuleFunction{"ex.org/m": {b}, "ex.org/a": {a}, "ex.org/z": nil}
		w.fns = []*ModuleFunction{a, b}
	case 2:
		w.byMod = map[string][]*ModuleFunction{"ex.org/m": {}}
	case 3:
		return nil, nil, w.fail("broken disk")
	case 4:
		return nil, nil, w.fail("failure loading module ex.org/m@v1.0.0: gone")
	case 5:
		return nil, nil, w.fail("failure loading module ex.org/m@v1.2.0: gone")
	}
	return w.byMod, nil, nil
}

func (p *c15Callers) PerformCallerStaticAnalysis(c Config, fns []*ModuleFunction) ([]*CallerFunction, ReachableModuleChange, error) {
	w := p.w
	w.call("callers")
	w.check("callers", c)
	w.want("changed functions", fns, w.fns)
	switch w.pick(3) {
	case 0:
		w.callers = []*CallerFunction{{Function: Function{FunctionIdent: "ex.org/p:F"}, ChangeFunctions: fns}}
		w.reach = ReachableModuleChange{fns[0].FunctionIdent: fns[0]}
	case 1:
	case 2:
		return nil, nil, w.fail("no callers")
	}
	return w.callers, w.reach, nil
}

func (p *c15Tests) ProvideTests(c Config, callers []*CallerFunction) ([]*TestFunction, error) {
	w := p.w
	w.call("tests")
	w.check("tests", c)
	w.want("callers of tests", callers, w.callers)
	switch w.pick(3) {
	case 0:
		w.tests = []*TestFunction{{Function: Function{FunctionIdent: "ex.org/p:TestF"}, Targets: callers}}
	case 1:
	case 2:
		return nil, w.fail("no tests")
	}
	return w.tests, nil
}

func (p *c15Store) NewStorage() (Storage, error) {
	w := p.w
	w.call("storage")
	if w.pick(2) == 1 {
		return nil, w.fail("no storage")
	}
	w.storage = &c15Storage{NewMemStorage(), w}
	return w.storage, nil
}

func (p *c15Update) RunModuleUpdateAnalysis(c Config, s Storage, mods []*ModuleChange, reach ReachableModuleChange,
	callers []*CallerFunction, tests []*TestFunction) (int, int, int, Storage, Storage, error) {
	w := p.w
	w.call("update")
	w.check("update", c)
	w.want("storage of update", s, Storage(w.storage))
	w.want("modules of update", mods, w.mods)
	w.want("reachable changes of update", reach, w.reach)
	w.want("callers of update", callers, w.callers)
	w.want("tests of update", tests, w.tests)
	// the run modifies the trees it was given
	for _, d := range []string{c.AbsProjDir, c.Gopath, c.Gomodcache} {
		if c.TmpCopy {
			vMust(os.WriteFile(filepath.Join(d, "added"), []byte("x"), 0o644))
			vMust(filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
				if err == nil && e.Type().IsRegular() {
					vMust(os.WriteFile(p, []byte("instrumented"), 0o644))
				}
				return err
			}))
		}
	}
	if w.pick(2) == 1 {
		return 0, 0, 0, nil, nil, w.fail("tests broke")
	}
	w.pre, w.post = KeyPrefixStorage(s, "pre"), KeyPrefixStorage(s, "post")
	return 11, 12, 13, w.pre, w.post, nil
}

func (p *c15Mutation) RunMutationTesting(c Config, fast, line, targeted bool, fns []*ModuleFunction, tests []*TestFunction) (MutationResult, error) {
	w := p.w
	w.call("mutation")
	w.check("mutation", c)
	w.want("functions of mutation", fns, w.fns)
	w.want("tests of mutation", tests, w.tests)
	w.want("fast", fast, c.MutationMode == "fast")
	w.want("line scope", line, c.MutationScope == "line" || c.MutationScope == "area")
	w.want("targeted", targeted, c.MutationTests == "targeted")
	if w.pick(2) == 1 {
		return MutationResult{}, w.fail("mutation broke")
	}
	w.mut = MutationResult{MutationCount: 14, SquashedCount: 15}
	return w.mut, nil
}

func (p *c15Compare) CompareTestResults(pre, post Storage, mul int) (int, int, []TestReport, error) {
	w := p.w
	w.call("compare")
	w.want("pre results", pre, w.pre)
	w.want("post results", post, w.post)
	w.want("multiplier", mul, w.cfg.TimeMultiplier)
	if w.pick(2) == 1 {
		return 0, 0, nil, w.fail("compare broke")
	}
	w.reports = []TestReport{{SameFieldCount: 16}}
	return 17, 18, w.reports, nil
}

func (p *c15Report) WriteReportFiles(jsonFile, chartsFile string, start time.Time, analysis, discovery, execution, mutation time.Duration,
	changedModules []*ModuleChange, checkedModules []string, changeCount, reached, untracked int, fieldChecks int,
	callers []*CallerFunction, tests []*TestFunction, same, diff int, reports []TestReport, mut MutationResult) error {
	w := p.w
	w.call("report")
	if analysis < 0 || discovery < 0 || execution < 0 || mutation < 0 || analysis+discovery+execution+mutation > time.Since(start) {
		w.bad = append(w.bad, fmt.Sprintf("durations %v %v %v %v of %v", analysis, discovery, execution, mutation, time.Since(start)))
	}
	w.rep = map[string]any{"json": jsonFile, "charts": chartsFile, "changedModules": changedModules, "checkedModules": checkedModules, "changes": changeCount,
		"reached": reached, "untracked": untracked, "fieldChecks": fieldChecks, "callers": callers, "tests": tests, "same": same, "diff": diff, "reports": reports, "mutations": mut}
	if w.pick(2) == 1 {
		return w.fail("cannot write")
	}
	return nil
}

type c15Set struct {
	scope, mode, tests string
	tmp                bool
	layout             int  // where GOPATH and GOMODCACHE are
	known              bool // the module is required by the project
}

var c15Layouts = []string{"modcache in gopath", "modcache elsewhere", "modcache in gopath under another name", "project is a link", "gopath is a link", "modcache is a link", "project missing", "gopath missing", "modcache missing"}

func c15Run(x *vCase, s c15Set, choices []int) (made, max []int) {
	c15N++
	base := filepath.Join(vScratch(), fmt.Sprintf("c15-%d-%d", os.Getpid(), c15N))
	defer os.RemoveAll(base)
	tmp, orig := filepath.Join(base, "tmp"), filepath.Join(base, "orig")
	vMust(os.MkdirAll(tmp, 0o755))
	vMust(os.Setenv("TMPDIR", tmp))
	proj, gopath := filepath.Join(orig, "proj"), filepath.Join(orig, "gopath")
	modcache := filepath.Join(gopath, "pkg", "mod")
	switch s.layout {
	case 1, 5, 8:
		modcache = filepath.Join(orig, "cache")
	case 2:
		modcache = filepath.Join(gopath, "other")
	}
	req := "require ex.org/m v1.0.0\n"
	if !s.known {
		req = ""
	}
	c15Write(filepath.Join(proj, "go.mod"), "module ex.org/p\n\ngo 1.22\n\n"+req)
	c15Write(filepath.Join(proj, "sub", "a.go"), "package sub\n")
	vMust(os.Symlink("a.go", filepath.Join(proj, "sub", "l.go")))
	c15Write(filepath.Join(gopath, "src", "x", "x.go"), "package x\n")
	c15Write(filepath.Join(modcache, "ex.org", "m@v1.0.0", "m.go"), "package m\n")
	vMust(os.Chmod(filepath.Join(modcache, "ex.org", "m@v1.0.0", "m.go"), 0o444))
	link := func(p *string) {
		l := *p + "-link"
		vMust(os.Symlink(*p, l))
		*p = l
	}
	missing := ""
	switch s.layout {
	case 3:
		link(&proj)
	case 4:
		link(&gopath)
		modcache = filepath.Join(gopath, "pkg", "mod")
	case 5:
		link(&modcache)
	case 6:
		missing = proj
	case 7:
		vMust(os.Rename(gopath, gopath+"-away"))
		missing = gopath
	case 8:
		vMust(os.Rename(modcache, modcache+"-away"))
		missing = modcache
	}
	if s.layout == 6 {
		vMust(os.RemoveAll(proj))
	}
	before := c15Tree(orig)
	cfg := &Config{ProjectDir: proj, ModuleVersionFlag: "ex.org/m@v1.2.0", AstMonitorPort: 44444, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 1, TimeMultiplier: 7,
		MutationScope: s.scope, MutationMode: s.mode, MutationTests: s.tests, TmpCopy: s.tmp, Gopath: gopath, Gomodcache: modcache,
		ReportJsonFile: filepath.Join(base, "r.json"), ReportChartsFile: filepath.Join(base, "r.svg"), CustomFlags: map[string]string{"k": "v"}}
	w := &c15World{choices: choices, cfg: cfg}
	real := func(p string) string {
		r, err := filepath.EvalSymlinks(p)
		if err != nil {
			return "missing " + p
		}
		return r
	}
	content := map[string]string{}
	for _, d := range []string{proj, gopath, modcache} {
		if missing == "" || !strings.HasPrefix(d, missing) {
			content[d] = c15Content(d)
		}
	}
	first := true
	w.check = func(stage string, c Config) {
		dirs := [][2]string{{c.AbsProjDir, proj}, {c.Gopath, gopath}, {c.Gomodcache, modcache}}
		for _, d := range dirs {
			if !s.tmp {
				w.want(stage+": directory", d[0], d[1])
			} else if !strings.HasPrefix(real(d[0])+"/", real(tmp)+"/") {
				w.bad = append(w.bad, fmt.Sprintf("%s: works on %s and not on a copy", stage, d[0]))
			} else if first {
				w.want(stage+": copy of "+filepath.Base(d[1]), c15Content(d[0]), content[d[1]])
			}
		}
		first = false
		if c.CustomFlags["k"] != "v" || c.AstMonitorPort != 44444 || c.MaxFieldRecurse != 5 || c.MaxFieldLen != 100 || c.CacheMB != 1 || c.TimeMultiplier != 7 {
			w.bad = append(w.bad, fmt.Sprintf("%s: configuration %+v", stage, c))
		}
	}
	eng := NewAnalysisEngineWithProviders(cfg, &c15Mod{w}, &c15Callers{w}, &c15Tests{w}, &c15Update{w}, &c15Mutation{w}, &c15Compare{w}, &c15Store{w}, &c15Report{w})
	err := eng.Run()
	x.States(1)
	x.Traces(1)
	x.Transitions(len(w.calls))
	desc := fmt.Sprintf("%+v (%s) choices %v: calls %v", s, c15Layouts[s.layout], w.made, w.calls)
	for _, b := range w.bad {
		x.Fail("%s\n%s", b, desc)
	}

	// the model
	var calls, cleanup []string // clean-up in order of the stages
	rep := map[string]any{"json": cfg.ReportJsonFile, "charts": cfg.ReportChartsFile, "changedModules": w.mods, "checkedModules": []string(nil), "changes": 0, "reached": 0, "untracked": 0,
		"fieldChecks": 0, "callers": []*CallerFunction(nil), "tests": []*TestFunction(nil), "same": 0, "diff": 0, "reports": []TestReport(nil), "mutations": MutationResult{}}
	i := 0
	next := func() int {
		if i < len(w.made) {
			i++
			return w.made[i-1]
		}
		return 0
	}
	stage := func(name string) int { calls = append(calls, name); return next() }
	reported := false
	func() {
		if missing != "" && s.tmp || s.layout == 6 {
			return
		}
		if !s.known {
			return
		}
		c := stage("modules")
		if c >= 3 {
			return
		}
		cleanup = append(cleanup, "cleanup modules")
		var names []string
		for m := range w.byMod {
			names = append(names, m)
		}
		sort.Strings(names)
		rep["checkedModules"] = names
		if c == 2 {
			reported = true
			return
		}
		if c = stage("callers"); c == 2 {
			return
		}
		cleanup = append(cleanup, "cleanup callers")
		if c == 1 {
			reported = true
			rep["changes"] = len(w.fns)
			return
		}
		rep["callers"], rep["changes"] = w.callers, len(w.fns)
		if c = stage("tests"); c == 2 {
			return
		}
		cleanup = append(cleanup, "cleanup tests")
		if c == 1 {
			reported = true
			return
		}
		rep["tests"] = w.tests
		if stage("storage") == 1 {
			return
		}
		cleanup = append(cleanup, "storage.Close")
		if stage("update") == 1 {
			return
		}
		cleanup = append(cleanup, "cleanup update")
		rep["fieldChecks"], rep["reached"], rep["untracked"] = 11, 12, 13
		if s.scope != "none" {
			if stage("mutation") == 1 {
				return
			}
			cleanup = append(cleanup, "cleanup mutation")
			rep["mutations"] = w.mut
		}
		if stage("compare") == 1 {
			return
		}
		rep["same"], rep["diff"], rep["reports"] = 17, 18, w.reports
		reported = true
	}()
	if reported {
		stage("report")
	}
	// calls first, in order; then each clean-up once, in reverse order
	var gotC, gotCl []string
	inCleanup := false
	for _, c := range w.calls {
		if strings.HasPrefix(c, "cleanup ") || c == "storage.Close" {
			gotCl = append(gotCl, c)
			inCleanup = true
		} else {
			gotC = append(gotC, c)
			if inCleanup {
				x.Fail("%s is called after a clean-up\n%s", c, desc)
			}
		}
	}
	slices.Reverse(cleanup)
	if strings.Join(gotC, ",") != strings.Join(calls, ",") {
		x.Fail("stages %v want %v\n%s", gotC, calls, desc)
	}
	if strings.Join(gotCl, ",") != strings.Join(cleanup, ",") {
		x.Fail("clean-up %v want %v\n%s", gotCl, cleanup, desc)
	}
	if reported && w.rep != nil {
		for k, v := range rep {
			if v == nil {
				continue
			}
			if g := w.rep[k]; !reflect.DeepEqual(g, v) && !(reflect.ValueOf(v).Kind() == reflect.Slice && reflect.ValueOf(v).Len() == 0 && reflect.ValueOf(g).Len() == 0) {
				x.Fail("report %s: %v want %v\n%s", k, g, v, desc)
			}
		}
	}
	wantErr := w.err != nil || missing != "" && s.tmp || s.layout == 6
	if (err != nil) != wantErr {
		x.Fail("answer %v want error %v\n%s", err, wantErr, desc)
	} else if w.err != nil && !errors.Is(err, w.err) {
		if !strings.Contains(w.err.Error(), "failure loading") {
			x.Fail("error %v does not carry %v\n%s", err, w.err, desc)
		} else if v := w.err.Error()[len("failure loading module "):]; !strings.Contains(err.Error(), strings.TrimSuffix(v, ": gone")) {
			x.Fail("error %v does not name the module of %v\n%s", err, w.err, desc)
		}
	}
	if after := c15Tree(orig); after != before && (s.tmp || true) {
		x.Fail("the project or the module cache was changed:\n%s\nbefore:\n%s\n%s", after, before, desc)
	}
	if l, _ := os.ReadDir(tmp); len(l) != 0 {
		x.Fail("%d files left in the temporary directory, such as %s\n%s", len(l), l[0].Name(), desc)
	}
	var left []string
	l, _ := os.ReadDir(base)
	for _, e := range l {
		left = append(left, e.Name())
	}
	if strings.Join(left, " ") != "orig tmp" {
		x.Fail("files left: %v\n%s", left, desc)
	}
	// a configuration is used once
	if err == nil {
		n := len(w.calls)
		if err := eng.Run(); err == nil || len(w.calls) != n {
			x.Fail("second run: %v, calls %v", err, w.calls[n:])
		}
	}
	return w.made, w.max
}

// c15Content is the content of all regular files below a directory that may be a link.
func c15Content(dir string) string {
	r, err := filepath.EvalSymlinks(dir)
	if err != nil {
		return err.Error()
	}
	var out []string
	vMust(filepath.WalkDir(r, func(p string, d fs.DirEntry, err error) error {
		vMust(err)
		if !d.IsDir() {
			b, err := os.ReadFile(p)
			vMust(err)
			rel, _ := filepath.Rel(r, p)
			out = append(out, rel+" "+d.Type().String()+" "+string(b))
		}
		return nil
	}))
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func init() {
	vRegister("stages", func(c *vCtx) {
		for _, scope := range []string{"function", "line", "area", "none"} {
			for _, mode := range []string{"full", "fast"} {
				for _, tests := range []string{"full", "targeted"} {
					for _, known := range []bool{true, false} {
						for layout := range c15Layouts {
							for _, tmp := range []bool{false, true} {
								if (layout > 0 || tmp) && (mode != "full" || tests != "full" || scope == "line" || scope == "area") && !c.Thorough() {
									continue
								}
								s := c15Set{scope, mode, tests, tmp, layout, known}
								c.Case(fmt.Sprintf("%+v", s), func(x *vCase) {
									var choices []int
									for {
										made, max := c15Run(x, s, choices)
										// next path of the walk
										k := len(made) - 1
										for k >= 0 && made[k]+1 >= max[k] {
											k--
										}
										if k < 0 {
											return
										}
										choices = append(append([]int{}, made[:k]...), made[k]+1)
									}
								})
							}
						}
					}
				}
			}
		}
	})
}
