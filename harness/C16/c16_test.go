package lens

// C16: the run before and after the update leaves the project and the module cache as they were, at every fault point.
// The go command is a stand-in that edits the module files as the real one does, and fails where the case says.

import (
	"errors"
	"fmt"
	"go/build"
	"io/fs"
	"net"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

const c16Go = `#!/bin/sh
cmd=$1
for last; do :; done
[ "$1" = mod ] && cmd=tidy
case $cmd in clean|get|tidy|test) ;; *) exit 1 ;; esac
inst=no; [ -n "$(find "$C16/proj" -name '*.go' -newer "$C16/start" | head -1)" ] && inst=yes
minst=no; [ -n "$(find "$C16/mod" -name '*.go' -newer "$C16/start" | head -1)" ] && minst=yes
upd=no; grep -q updated go.mod 2>/dev/null && upd=yes
dir=${PWD#$C16/}; [ $cmd = clean ] && dir=
echo "$cmd $dir updated=$upd instrumented=$inst module=$minst $last $(echo "$@" | tr ' ' ',')" >> "$C16/log"
n=$(($(wc -l < "$C16/log")))
[ "$n" = "$C16_FAIL" ] && [ "$C16_WHEN" = before ] && exit 1
case $cmd in
get)
	for m; do case $m in *@*)
		echo "// updated $m" >> go.mod
		echo "sum $m" >> go.sum
	esac; done
	if [ -f "$C16/proj/go.work" ]; then
		echo "// toolchain" >> "$C16/proj/go.work"
		echo "worksum $2" >> "$C16/proj/go.work.sum"
	fi
	;;
tidy)
	cat go.mod > go.mod.new; mv go.mod.new go.mod
	if [ "$C16_TIDY" = nosum ]; then rm -f go.sum; else cat go.sum > go.sum.new; mv go.sum.new go.sum; fi
	;;
test)
	echo tested > "$C16/tested"
	;;
esac
[ "$n" = "$C16_FAIL" ] && exit 1
exit 0
`

var c16N, c16Port int

func c16Write(p, s string) {
	vMust(os.MkdirAll(filepath.Dir(p), 0o755))
	vMust(os.WriteFile(p, []byte(s), 0o644))
}

func c16Tree(dirs ...string) string {
	var out []string
	for _, dir := range dirs {
		vMust(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			vMust(err)
			info, err := d.Info()
			vMust(err)
			rel, _ := filepath.Rel(filepath.Dir(dir), p)
			s := rel + " " + info.Mode().String()
			if info.Mode()&os.ModeSymlink != 0 {
				t, _ := os.Readlink(p)
				s += " -> " + t
			} else if !d.IsDir() {
				b, _ := os.ReadFile(p)
				s += " " + fmt.Sprintf("%q", b)
			}
			out = append(out, s)
			return nil
		}))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// c16Diff shows the lines that only one of both has.
func c16Diff(a, b string) string {
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	var out []string
	for _, s := range la {
		if !in(lb, s) {
			out = append(out, "before: "+s)
		}
	}
	for _, s := range lb {
		if !in(la, s) {
			out = append(out, "after:  "+s)
		}
	}
	return strings.Join(out, "\n")
}

// c16Storage fails the k-th save or load.
type c16Storage struct {
	Storage
	n, fail int
}

func (s *c16Storage) step() error {
	s.n++
	if s.n == s.fail {
		return errors.New("storage fails")
	}
	return nil
}

func (s *c16Storage) SaveState(k string, b []byte) error {
	if err := s.step(); err != nil {
		return err
	}
	return s.Storage.SaveState(k, b)
}

func (s *c16Storage) LoadState(k string) ([]byte, bool, error) {
	if err := s.step(); err != nil {
		return nil, false, err
	}
	return s.Storage.LoadState(k)
}

type c16Case struct {
	layout, special   string
	fail              int // which go command fails, 0 = none
	when              string
	storeFail         int
	preHook, postHook string
	port              int // which port is taken, 0 = none
	tidy              string
	missing           string          // source file that vanished
	changes           []*ModuleChange // nil: two direct modules
}

func c16Changes() []*ModuleChange {
	return []*ModuleChange{{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.1.0", GoVersion: "1.22"}, {Name: "ex.org/n", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}
}

type c16Out struct {
	log   []string
	err   error
	steps int
}

func c16Run(x *vCase, shard int64, c c16Case) c16Out {
	c16N++
	base := filepath.Join(vScratch(), fmt.Sprintf("c16-%d-%d", os.Getpid(), c16N))
	defer os.RemoveAll(base)
	proj, mod := filepath.Join(base, "proj"), filepath.Join(base, "mod")
	// project
	var mods []string
	switch c.layout {
	case "module":
		mods = []string{"."}
	case "workspace":
		mods = []string{"a", "b"}
	case "workspace with root":
		mods = []string{".", "a"}
	}
	if c.layout != "module" {
		s := "go 1.22\n\nuse (\n"
		for _, m := range mods {
			s += "\t./" + m + "\n"
		}
		c16Write(filepath.Join(proj, "go.work"), s+")\n")
		if c.special != "no go.sum" {
			c16Write(filepath.Join(proj, "go.work.sum"), "orig worksum\n")
		}
	}
	for _, m := range mods {
		d := filepath.Join(proj, m)
		c16Write(filepath.Join(d, "go.mod"), "module ex.org/p/"+m+"\n\ngo 1.22\n")
		if c.special != "no go.sum" {
			c16Write(filepath.Join(d, "go.sum"), "orig sum\n")
		}
	}
	main := filepath.Join(proj, mods[0])
	switch c.special {
	case "backup files exist":
		for _, m := range mods {
			for _, f := range []string{"go.mod.bkp", "go.sum.bkp", "go.mod.bkp2"} {
				c16Write(filepath.Join(proj, m, f), "user's "+f)
			}
		}
		c16Write(filepath.Join(proj, "go.work.bkp"), "user's go.work.bkp")
	case "modes":
		vMust(os.Chmod(filepath.Join(main, "go.mod"), 0o600))
		vMust(os.Chmod(filepath.Join(main, "go.sum"), 0o640))
	case "links":
		for _, f := range []string{"go.mod", "go.sum"} {
			vMust(os.MkdirAll(filepath.Join(base, "proj", "real"), 0o755))
			vMust(os.Rename(filepath.Join(main, f), filepath.Join(proj, "real", f+".txt")))
			rel, _ := filepath.Rel(main, filepath.Join(proj, "real", f+".txt"))
			vMust(os.Symlink(rel, filepath.Join(main, f)))
		}
	case "go.sum is a directory":
		vMust(os.Remove(filepath.Join(main, "go.sum")))
		c16Write(filepath.Join(main, "go.sum", "x"), "x")
	}
	src := filepath.Join(main, "p.go")
	c16Write(src, "package p\n\nfunc F(n int) int {\n\treturn n\n}\n\nfunc G() {\n}\n")
	tst := filepath.Join(main, "p_test.go")
	c16Write(tst, "package p\n\nimport \"testing\"\n\nfunc TestOne(t *testing.T) { F(1) }\n\nfunc TestTwo(t *testing.T) { F(1) }\n")
	msrc := filepath.Join(mod, "ex.org", "m@v1.0.0", "m.go")
	c16Write(msrc, "package m\n\nfunc M(n int) int {\n\treturn n\n}\n")
	vMust(os.Chmod(msrc, 0o444))
	c16Write(filepath.Join(base, "bin", "go"), c16Go)
	vMust(os.Chmod(filepath.Join(base, "bin", "go"), 0o755))
	if c.missing != "" {
		vMust(os.Remove(map[string]string{"project": src, "module": msrc}[c.missing]))
	}
	c16Write(filepath.Join(base, "start"), "")
	for k, v := range map[string]string{"C16": base, "C16_FAIL": fmt.Sprint(c.fail), "C16_WHEN": c.when, "C16_TIDY": c.tidy, "PATH": filepath.Join(base, "bin") + ":/usr/bin:/bin"} {
		vMust(os.Setenv(k, v))
	}
	before := c16Tree(proj, mod)

	mc := c.changes
	if mc == nil {
		mc = c16Changes()
	}
	mf := &ModuleFunction{Function: Function{FilePath: msrc, PackageName: "ex.org/m", FunctionIdent: "ex.org/m:M", FunctionName: "M"}, Module: c16Changes()[0]}
	fn := func(n string) *CallerFunction {
		return &CallerFunction{Function: Function{FilePath: src, PackageName: "ex.org/p", FunctionIdent: "ex.org/p:" + n, FunctionName: n}, ChangeFunctions: []*ModuleFunction{mf}}
	}
	callers := []*CallerFunction{fn("F"), fn("G")}
	var tests []*TestFunction
	for _, n := range []string{"TestOne", "TestTwo"} {
		tests = append(tests, &TestFunction{Function: Function{FilePath: tst, PackageName: "ex.org/p", FunctionIdent: "ex.org/p:" + n, FunctionName: n}, Targets: callers})
	}
	hook := func(kind string) func(*ASTModifier) (map[uint32]*string, error) {
		if kind == "" {
			return nil
		}
		return func(m *ASTModifier) (map[uint32]*string, error) {
			if kind == "fails" {
				return nil, errors.New("hook fails")
			}
			p, err := m.InjectFuncPointEntry(&Function{FilePath: src, PackageName: "ex.org/p", FunctionIdent: "ex.org/p:G", FunctionName: "G"})
			s := "ext"
			return map[uint32]*string{p: &s}, err
		}
	}
	var taken net.Listener
	listen := func(p int) (net.Listener, error) {
		return net.Listen("tcp", fmt.Sprintf("%s:%d", lensMonitorServerHost, p))
	}
	port := c16Port
	for ; port == 0; port = c16Port { // a range of ports that nobody else on this machine uses
		p := 10000 + (os.Getpid()*40+c16N)%20000
		c16Port = p
		for i := 0; i < 8 && c16Port != 0; i++ {
			if l, err := listen(p + i); err != nil {
				c16Port = 0
				c16N++
			} else {
				l.Close()
			}
		}
	}
	if c.port > 0 {
		var err error
		taken, err = listen(port + c.port - 1)
		vMust(err)
	}
	st := &c16Storage{Storage: NewMemStorage(), fail: c.storeFail}
	_, _, _, pre, post, err := RunModuleUpdateAnalysis("", mod, proj, port, st, 3, 50, mc, ReachableModuleChange{"ex.org/m:M": mf}, callers, tests, hook(c.preHook), hook(c.postHook))
	if taken != nil {
		taken.Close()
	}
	x.States(1)
	x.Traces(1)
	desc := fmt.Sprintf("%+v", c)
	b, _ := os.ReadFile(filepath.Join(base, "log"))
	log := strings.Split(strings.TrimSpace(string(b)), "\n")
	x.Transitions(len(log))
	desc += "\n" + strings.Join(log, "\n")
	if after := c16Tree(proj, mod); after != before {
		x.Fail("the project or the module cache is not as before:\n%s\n%s", c16Diff(before, after), desc)
	}
	for i := 0; i < 2; i++ {
		if l, err := listen(port + i); err != nil {
			x.Fail("port %d is still in use after the run: %v\n%s", i, err, desc)
		} else {
			l.Close()
		}
	}
	// which commands may be seen and which failures are errors
	phase, wantErr := 0, c.port > 0 || c.special == "go.sum is a directory" || c.preHook == "fails" || c.postHook == "fails" || c.missing != ""
	ntests := map[string]int{}
	failed := map[string]bool{}
	for i, l := range log {
		if l == "" {
			continue
		}
		f := strings.Fields(l)
		isFail := i+1 == c.fail
		switch f[0] {
		case "clean":
			if i == 0 && isFail {
				wantErr = true
			}
			if c.postHook != "" && phase == 1 && isFail && ntests["1"] == 0 {
				wantErr = true
			}
		case "test":
			pre := phase == 0
			want := map[bool]string{true: "updated=no instrumented=yes module=yes", false: "updated=yes instrumented=yes module=no"}[pre]
			if !strings.Contains(l, want) {
				x.Fail("command %d: tests run with %q want %q\n%s", i+1, l, want, desc)
			}
			ntests[fmt.Sprint(phase)]++
			if isFail {
				name := "ex.org/p:" + strings.Trim(f[len(f)-2], "^$")
				failed[fmt.Sprint(phase)+name] = true
			}
		case "get", "tidy":
			phase = 1
			if ntests["1"] > 0 {
				x.Fail("update after the tests of the update\n%s", desc)
			}
			if !strings.Contains(l, "instrumented=no module=no") {
				x.Fail("command %d: update of an instrumented tree: %q\n%s", i+1, l, desc)
			}
			if isFail {
				wantErr = true
			}
		}
	}
	if c.storeFail > 0 && st.n >= c.storeFail {
		wantErr = true
	}
	if (err != nil) != wantErr {
		x.Fail("answer %v, want error %v\n%s", err, wantErr, desc)
	}
	if err == nil {
		post1 := 2
		if c.postHook != "" {
			post1 = 4
		}
		if ntests["0"] != 4 || ntests["1"] != post1 {
			x.Fail("%v runs of tests\n%s", ntests, desc)
		}
		for ph, s := range []Storage{pre, post} {
			for _, t := range tests {
				b, ok, err := s.LoadState(t.FunctionIdent)
				if err != nil || !ok {
					x.Fail("no result of %s %v\n%s", t.FunctionIdent, err, desc)
					continue
				}
				var r TestResult
				if err := r.UnmarshalMsgpack(b); err != nil {
					x.Fail("%v", err)
				}
				if want := failed[fmt.Sprint(ph)+t.FunctionIdent]; r.TestFailure != want {
					x.Fail("%s in phase %d: failure %v want %v\n%s", t.FunctionIdent, ph, r.TestFailure, want, desc)
				}
			}
		}
		// every module of the project was updated with every module, once or more, to exactly the versions asked for
		got, tidied := map[string]bool{}, map[string]bool{}
		for _, l := range log {
			f := strings.Fields(l)
			switch f[0] {
			case "get":
				for _, a := range strings.Split(f[len(f)-1], ",")[1:] {
					if !strings.HasPrefix(a, "-") {
						got[f[1]+" "+a] = true
					}
				}
			case "tidy":
				tidied[f[1]] = true
			}
		}
		want := map[string]bool{}
		for _, m := range mods {
			d := filepath.Join("proj", m)
			for _, ch := range mc {
				want[d+" "+ch.Name+"@"+ch.NewVersion] = true
			}
			if !tidied[d] {
				x.Fail("%s was not tidied after the update\n%s", d, desc)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Fail("updates %v want %v\n%s", got, want, desc)
		}
	}
	return c16Out{log, err, st.n}
}

func init() {
	layouts := []string{"module", "workspace", "workspace with root"}
	specials := []string{"plain", "no go.sum", "backup files exist", "modes", "links", "go.sum is a directory"}
	vRegister("faults", func(c *vCtx) {
		build.Default.GOROOT = filepath.Join(vScratch(), "no-goroot")
		for _, l := range layouts {
			for _, s := range specials {
				for _, tidy := range []string{"", "nosum"} {
					if tidy != "" && s != "plain" && !c.Thorough() {
						continue
					}
					for _, hooks := range [][2]string{{"", ""}, {"ok", "ok"}, {"fails", ""}, {"", "fails"}, {"ok", "fails"}} {
						if hooks[0]+hooks[1] != "" && s != "plain" && !c.Thorough() {
							continue
						}
						bc := c16Case{layout: l, special: s, tidy: tidy, preHook: hooks[0], postHook: hooks[1]}
						// number of commands of the run without a fault: an upper bound that is checked in each case
						n := 1 + 4 + 1 + 3*map[string]int{"module": 1}[l] + 2 + 1
						if l != "module" {
							n += 6
						}
						if hooks[1] == "ok" {
							n += 3
						}
						run := func(id string, cs c16Case) {
							c.Case(fmt.Sprintf("%s, %s, %s, %v %s", l, s, tidy, hooks, id), func(x *vCase) {
								o := c16Run(x, c.shard, cs)
								if id == "no fault" && len(o.log) > n {
									x.Fail("%d commands, expected at most %d: the fault points are not all covered", len(o.log), n)
								}
							})
						}
						run("no fault", bc)
						for k := 1; k <= n; k++ {
							for _, w := range []string{"before", "after"} {
								cs := bc
								cs.fail, cs.when = k, w
								run(fmt.Sprintf("command %d fails %s", k, w), cs)
							}
						}
						if s != "plain" || tidy != "" {
							continue
						}
						for k := 1; k <= 6; k++ {
							cs := bc
							cs.storeFail = k
							run(fmt.Sprintf("storage operation %d fails", k), cs)
						}
						for k := 1; k <= 2; k++ {
							cs := bc
							cs.port = k
							run(fmt.Sprintf("port %d taken", k), cs)
						}
						for _, m := range []string{"project", "module"} {
							cs := bc
							cs.missing = m
							run(m+" file missing", cs)
						}
					}
				}
			}
		}
	})
	vRegister("updates", func(c *vCtx) { // every choice of changed modules, in every order of up to three
		build.Default.GOROOT = filepath.Join(vScratch(), "no-goroot")
		all := append(c16Changes(),
			&ModuleChange{Name: "ex.org/o/v2", PriorVersion: "v2.3.0", NewVersion: "v2.4.1-rc.1", Indirect: true},
			&ModuleChange{Name: "ex.org/q", PriorVersion: "v0.0.0-20240101000000-aaaaaaaaaaaa", NewVersion: "v0.0.0-20250101000000-bbbbbbbbbbbb", Indirect: true, GoVersion: "1.5"},
			&ModuleChange{Name: "ex.org/m/sub", PriorVersion: "v1.2.0", NewVersion: "v1.1.0"})
		for _, l := range layouts {
			var rec func(list []*ModuleChange)
			rec = func(list []*ModuleChange) {
				if len(list) > 0 {
					c.Case(fmt.Sprintf("%s %v", l, c16Names(list)), func(x *vCase) { c16Run(x, c.shard, c16Case{layout: l, special: "plain", changes: list}) })
				}
				if len(list) == 3 && !(c.Thorough() && len(list) < len(all)) {
					return
				}
				for _, m := range all {
					if slices.Contains(list, m) || (l != layouts[0] && !c.Thorough() && len(list) == 2 && m != all[2]) {
						continue
					}
					rec(append(slices.Clone(list), m))
				}
			}
			rec(nil)
		}
	})
}

func c16Names(l []*ModuleChange) (out []string) {
	for _, m := range l {
		out = append(out, m.Name)
	}
	return out
}
