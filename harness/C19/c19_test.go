package lens

// C19: mutation testing. The mutation tool and the go command are stand-ins that record how they are called and see the
// files as they are at that moment; every combination of changed functions, line marks, tests and outcomes is run.

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

var c19N int

func c19Write(p, s string, mode os.FileMode) {
	vMust(os.MkdirAll(filepath.Dir(p), 0o755))
	vMust(os.WriteFile(p, []byte(s), mode))
}

func c19Tree(dir string) string {
	var out []string
	vMust(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		vMust(err)
		info, err := d.Info()
		vMust(err)
		rel, _ := filepath.Rel(dir, p)
		s := rel + " " + info.Mode().String()
		if !d.IsDir() {
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		}
		out = append(out, s)
		return nil
	}))
	sort.Strings(out)
	return strings.Join(out, "\n")
}

const c19Tool = `#!/bin/sh
for a in "$@"; do printf '%s\n' "$a" >> "$C19/args"; done
echo run >> "$C19/calls"
pwd > "$C19/cwd"
mkdir -p "$C19/snap"
script=
prev=
n=0
for a in "$@"; do
	if [ "$prev" = --exec ]; then script=$a; fi
	prev=$a
done
for a in "$@"; do
	case "$a" in *.go)
		n=$((n+1))
		key=$(basename "$(dirname "$a")")_$(basename "$a")
		cp "$a" "$C19/snap/$key"
		MUTATE_ORIGINAL=$a MUTATE_CHANGED="$C19/mutant.go" MUTATE_PACKAGE=p C19FILE=$a "$script" > "$C19/script.out" 2>&1
		echo "$key $?" >> "$C19/scripts"
		if ! cmp -s "$a" "$C19/snap/$key"; then echo "$a not restored" >> "$C19/bad"; fi
		;;
	esac
done
echo '{}' > report.json
cat "$C19/summary"
exit $(cat "$C19/exit")
`

const c19Go = `#!/bin/sh
if [ "$1" = test ]; then
	{ printf 'go'; for a in "$@"; do printf ' [%s]' "$a"; done; printf '\n'; } >> "$C19/tests"
	pwd >> "$C19/testcwd"
	cmp -s "$C19FILE" "$C19/mutant.go" || echo "$C19FILE is not the mutant" >> "$C19/bad"
	exit $(cat "$C19/code")
fi
exit 0
`

type c19Fn struct {
	file, name, ident, text string
}

var c19Fns = []c19Fn{
	{"a.go", "Get", "ex.org/m:Get", "func Get(a int) int {\n\tb := a + 1\n\tif b > 2 {\n\t\tb++\n\t}\n\treturn b\n}"},
	{"a.go", "GetAll", "ex.org/m:GetAll", "func GetAll() []int {\n\tout := []int{}\n\tfor i := 0; i < 3; i++ {\n\t\tout = append(out, Get(i))\n\t}\n\treturn out\n}"},
	{"b.go", "Put", "ex.org/m:Put", "func Put(\n\ta int,\n) {\n\tv = a\n\tv++\n}"},
	{"b.go", "Set", "ex.org/m:*T.Set", "func (t *T) Set(a int) {\n\tt.a = a\n\tt.b = a\n}"},
	{"sub/a.go", "Sub", "ex.org/m/sub:Sub", "func Sub(a int) int {\n\ta++\n\treturn a\n}"},
}

// c19Key is the name the tool gives to a file.
func c19Key(path string) string {
	return filepath.Base(filepath.Dir(path)) + "_" + filepath.Base(path)
}

type c19Case struct {
	marks    [5]int // 0 not changed, 1 all lines, 2 no line, 3 every second line, 4 the first line, 5 all lines of a shorter definition
	line     bool
	fast     bool
	targeted bool
	joint    bool
	space    bool
	work     bool
	old      bool // the project has a report.json
	tests    [][]int
	code     int // of go test
	exit     int // of the tool
	summary  int
	fault    string
}

func (k c19Case) String() string {
	return fmt.Sprintf("changes %v line %v fast %v targeted %v joint %v space %v work %v report %v tests %v code %d exit %d summary %d fault %q", k.marks, k.line, k.fast, k.targeted, k.joint, k.space, k.work, k.old, k.tests, k.code, k.exit, k.summary, k.fault)
}

func c19Lines(path string) []string {
	b, err := os.ReadFile(path)
	if err != nil || len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func c19Run(x *vCase, k c19Case) {
	c19N++
	name := fmt.Sprintf("c19-%d-%d", os.Getpid(), c19N)
	top := filepath.Join(vScratch(), name)
	defer os.RemoveAll(top)
	world := filepath.Join(top, "w")
	if k.space {
		world = filepath.Join(top, "w x")
	}
	rec, bin, tmp := filepath.Join(top, "rec"), filepath.Join(top, "bin"), filepath.Join(top, "tmp")
	mod := filepath.Join(world, "mod", "ex.org", "m@v1.0.0")
	prj := filepath.Join(world, "prj")
	for _, d := range []string{rec, bin, tmp} {
		vMust(os.MkdirAll(d, 0o755))
	}
	files := map[string]string{"a.go": "package m\n\n// a comment\n", "b.go": "package m\n\nvar v int\n\ntype T struct{ a, b int }\n", "sub/a.go": "package sub\n"}
	for _, f := range c19Fns {
		files[f.file] += "\n" + f.text + "\n"
	}
	files["b.go"] += "\nfunc Putter() {\n\tv = 3\n}\n"
	for f, s := range files {
		c19Write(filepath.Join(mod, f), s, 0o644)
	}
	c19Write(filepath.Join(mod, "go.mod"), "module ex.org/m\n\ngo 1.21\n", 0o644)
	pats := []string{"./..."}
	if k.work {
		c19Write(filepath.Join(prj, "go.work"), "go 1.21\n\nuse (\n\t./x\n\t./y\n)\n", 0o644)
		c19Write(filepath.Join(prj, "x/go.mod"), "module ex.org/x\n\ngo 1.21\n", 0o644)
		c19Write(filepath.Join(prj, "y/go.mod"), "module ex.org/y\n\ngo 1.21\n", 0o644)
		pats = []string{"./x/...", "./y/..."}
	} else if k.fault != "nomod" {
		c19Write(filepath.Join(prj, "go.mod"), "module ex.org/p\n\ngo 1.21\n", 0o644)
	} else {
		vMust(os.MkdirAll(prj, 0o755))
	}
	if k.old {
		c19Write(filepath.Join(prj, "report.json"), "mine", 0o600)
	}
	if k.fault != "notool" {
		c19Write(filepath.Join(bin, "go-mutesting"), c19Tool, 0o755)
	}
	c19Write(filepath.Join(bin, "go"), c19Go, 0o755)
	c19Write(filepath.Join(rec, "mutant.go"), "package m\n\n// mutant\n", 0o644)
	c19Write(filepath.Join(rec, "code"), fmt.Sprint(k.code), 0o644)
	c19Write(filepath.Join(rec, "exit"), fmt.Sprint(k.exit), 0o644)
	c19Write(filepath.Join(rec, "summary"), []string{"noise\nThe mutation score is 0.625000 (5 passed, 3 failed, 1 duplicated, 2 skipped, total is 8)\nmore\n", "The mutation score is 0.0\n", ""}[k.summary], 0o644)
	if k.fault == "nomutant" {
		vMust(os.Remove(filepath.Join(rec, "mutant.go")))
	}
	if k.fault == "nofile" {
		vMust(os.Remove(filepath.Join(mod, "b.go")))
	}

	var changes []*ModuleFunction
	byFn := map[int]*ModuleFunction{}
	for i, f := range c19Fns {
		if k.marks[i] == 0 {
			continue
		}
		n := strings.Count(f.text, "\n") + 1
		bm := make([]bool, n)
		for j := range bm {
			bm[j] = k.marks[i] == 1 || k.marks[i] == 3 && j%2 == 1 || k.marks[i] == 4 && j == 0
		}
		m := &ModuleFunction{Function: Function{FilePath: filepath.Join(mod, f.file), PackageName: strings.Split(f.ident, ":")[0], FunctionIdent: f.ident, FunctionName: f.name}, Definition: f.text, LineChangeBitmap: bm, Module: &ModuleChange{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}
		changes = append(changes, m)
		byFn[i] = m
	}
	var tests []*TestFunction
	fileTests := map[string]map[string]bool{}
	for i, t := range k.tests {
		tf := &TestFunction{Function: Function{FunctionName: fmt.Sprintf("Test%c", 'A'+i), FunctionIdent: fmt.Sprintf("ex.org/p:Test%c", 'A'+i)}}
		if k.joint { // one caller reaches all
			tf.Targets = []*CallerFunction{{Function: Function{FunctionName: "C", FunctionIdent: "ex.org/p:C"}}}
		}
		for _, fi := range t {
			if byFn[fi] == nil {
				continue
			}
			if k.joint {
				tf.Targets[0].ChangeFunctions = append(tf.Targets[0].ChangeFunctions, byFn[fi])
			} else {
				tf.Targets = append(tf.Targets, &CallerFunction{Function: Function{FunctionName: "C", FunctionIdent: "ex.org/p:C"}, ChangeFunctions: []*ModuleFunction{byFn[fi]}})
			}
			f := c19Fns[fi].file
			if fileTests[f] == nil {
				fileTests[f] = map[string]bool{}
			}
			fileTests[f][tf.FunctionName] = true
		}
		tests = append(tests, tf)
	}
	before := c19Tree(world)
	for kk, v := range map[string]string{"PATH": bin + ":/usr/bin:/bin", "C19": rec, "TMPDIR": tmp} {
		old := os.Getenv(kk)
		defer os.Setenv(kk, old)
		os.Setenv(kk, v)
	}
	res, err := RunMutationTesting(filepath.Join(world, "gopath"), filepath.Join(world, "mod"), prj, k.fast, k.line, k.targeted, changes, tests)
	x.States(1)
	x.Traces(1)
	if after := c19Tree(world); after != before {
		x.Fail("%v: files changed:\n%s\nthen\n%s", k, before, after)
		return
	}
	if left, _ := os.ReadDir(tmp); len(left) != 0 {
		x.Fail("%v: %s is left behind", k, left[0].Name())
	}
	// what the tool has to be asked
	names, fileSet := map[string]bool{}, map[string]bool{}
	for i, f := range c19Fns {
		if k.marks[i] != 0 && (k.marks[i] != 2 || !k.line) {
			names[f.name] = true
			fileSet[filepath.Join(mod, f.file)] = true
		}
	}
	calls := len(c19Lines(filepath.Join(rec, "calls")))
	if k.fault == "nofile" && k.line && (k.marks[2]|k.marks[3])&1 == 1 {
		if err == nil {
			x.Fail("%v: no error for a missing file", k)
		}
		return
	}
	if len(names) == 0 {
		if calls != 0 || err != nil || res != (MutationResult{}) {
			x.Fail("%v: nothing to mutate, but %d calls, error %v, result %v", k, calls, err, res)
		}
		return
	}
	bad := k.exit != 0 || k.summary != 0 || k.fault == "notool" || k.fault == "nomod"
	if (err != nil) != bad {
		x.Fail("%v: error %v", k, err)
		return
	}
	if err == nil && (res.MutationCount != 8 || res.SquashedCount != 5 && res.SquashedCount != 3) || err != nil && res != (MutationResult{}) {
		x.Fail("%v: result %v", k, res)
	}
	if k.fault == "notool" || k.fault == "nomod" {
		return
	}
	if calls != 1 {
		x.Fail("%v: the tool is called %d times", k, calls)
		return
	}
	if l := c19Lines(filepath.Join(rec, "bad")); len(l) > 0 {
		x.Fail("%v: %v", k, l)
	}
	if l := c19Lines(filepath.Join(rec, "cwd")); len(l) != 1 || l[0] != prj {
		x.Fail("%v: the tool runs in %v", k, l)
	}
	// arguments
	args := c19Lines(filepath.Join(rec, "args"))
	match, disabled := "", 0
	gotFiles := map[string]int{}
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "--exec":
			i++
		case "--match":
			i++
			match = args[i]
		case "--disable":
			i++
			disabled++
		default:
			gotFiles[args[i]]++
		}
	}
	x.Transitions(len(args))
	re, rerr := regexp.Compile(match)
	if rerr != nil {
		x.Fail("%v: --match %q: %v", k, match, rerr)
		return
	}
	for _, n := range []string{"Get", "GetAll", "Put", "Putter", "Set"} {
		if re.MatchString(n) != names[n] {
			x.Fail("%v: function %s is mutated: %v (--match %s)", k, n, !names[n], match)
		}
	}
	for f, n := range gotFiles {
		if !fileSet[f] || n != 1 {
			x.Fail("%v: argument %s (%d times)", k, f, n)
		}
	}
	if len(gotFiles) != len(fileSet) {
		x.Fail("%v: files %v want %v", k, gotFiles, fileSet)
	}
	if (disabled > 0) != k.fast {
		x.Fail("%v: %d kinds of mutations disabled", k, disabled)
	}
	// lines
	for f := range fileSet {
		base, _ := filepath.Rel(mod, f)
		snap := c19Lines(filepath.Join(rec, "snap", c19Key(f)))
		directive := map[int]bool{} // by line of the original
		var orig []string
		pending := false
		for _, l := range snap {
			if strings.Contains(l, "mutator-disable") {
				pending = true
				continue
			}
			orig = append(orig, l)
			directive[len(orig)-1] = pending
			pending = false
		}
		if strings.Join(orig, "\n") != strings.TrimSuffix(files[base], "\n") {
			x.Fail("%v: %s is changed: %s", k, base, strings.Join(snap, "\n"))
			continue
		}
		for i, fn := range c19Fns {
			if fn.file != base {
				continue
			}
			start := strings.Count(files[base][:strings.Index(files[base], fn.text)], "\n")
			body := strings.Index(fn.text, "{\n")
			for j, l := range strings.Split(fn.text, "\n") {
				if at := strings.Count(fn.text[:body], "\n"); j <= at || strings.Trim(l, "\t{}()[]") == "" {
					continue // not in the body, or no code
				}
				want := k.line && names[fn.name] && k.marks[i] != 0 && !byFn[i].LineChangeBitmap[j]
				if directive[start+j] != want {
					x.Fail("%v: line %d of %s is excluded %v want %v", k, j, fn.name, directive[start+j], want)
				}
				x.Transitions(1)
			}
		}
	}
	// tests of each mutant
	var wantTests, wantExit []string
	for _, a := range args {
		if !strings.HasSuffix(a, ".go") {
			continue
		}
		base, _ := filepath.Rel(mod, a)
		key := c19Key(a)
		if k.targeted && len(fileTests[base]) == 0 {
			wantExit = append(wantExit, key+" 2")
			continue
		}
		if k.fault == "nomutant" {
			wantExit = append(wantExit, key+" 2")
			continue
		}
		var l []string
		for t := range fileTests[base] {
			l = append(l, t)
		}
		sort.Strings(l)
		wantTests = append(wantTests, strings.Join(l, "|"))
		wantExit = append(wantExit, fmt.Sprintf("%s %d", key, map[int]int{0: 1, 1: 0, 2: 2, 3: 3, 137: 137}[k.code]))
	}
	if got := c19Lines(filepath.Join(rec, "scripts")); strings.Join(got, ",") != strings.Join(wantExit, ",") {
		out, _ := os.ReadFile(filepath.Join(rec, "script.out"))
		x.Fail("%v: mutants end with %v want %v: %s", k, got, wantExit, out)
	}
	gotT := c19Lines(filepath.Join(rec, "tests"))
	if len(gotT) != len(wantTests) {
		x.Fail("%v: test runs %v want %v", k, gotT, wantTests)
		return
	}
	for i, l := range gotT {
		x.Transitions(1)
		if !strings.HasSuffix(l, " ["+strings.Join(pats, "] [")+"]") {
			x.Fail("%v: packages of %s", k, l)
		}
		m := regexp.MustCompile(`\[-run\] \[([^\]]*)\]`).FindStringSubmatch(l)
		if !k.targeted {
			if m != nil {
				x.Fail("%v: tests selected: %s", k, l)
			}
			continue
		}
		if m == nil {
			x.Fail("%v: tests not selected: %s", k, l)
			continue
		}
		re, err := regexp.Compile(m[1])
		if err != nil {
			x.Fail("%v: %v", k, err)
			continue
		}
		want := strings.Split(wantTests[i], "|")
		for _, n := range []string{"TestA", "TestB", "TestC", "TestD", "TestAB", "XTestA"} {
			in := false
			for _, w := range want {
				in = in || w == n
			}
			if re.MatchString(n) != in {
				x.Fail("%v: test %s run %v want %v (%s)", k, n, !in, in, l)
			}
		}
	}
}

// c19Gaps are the lines before a statement.
var c19Gaps = []string{"", "\n", "\t// one\n", "\t// one\n\t// two\n\t// three\n", "\t/* a block\n\t   of x++ */\n", "\n\n\n", "\n\t// apart\n\n"}

var c19Stmts = []string{"\ta += %d\n", "\tif a > %d { // why\n\t\t// the\n\t\t// reason\n\t\ta--\n\t}\n", "\ta = two(a,\n\t\t// second\n\n\t\t%d) // tail\n", "\treturn a + %d\n"}

// c19Source: the marks come from the analysis of two versions of a module whose functions have comments and blank lines.
func c19Source(x *vCase, gaps [][4]int, changed int, other, directives bool) {
	c19N++
	top := filepath.Join(vScratch(), fmt.Sprintf("c19s-%d-%d", os.Getpid(), c19N))
	defer os.RemoveAll(top)
	rec, bin, tmp, prj, cache := filepath.Join(top, "rec"), filepath.Join(top, "bin"), filepath.Join(top, "tmp"), filepath.Join(top, "prj"), filepath.Join(top, "mod")
	for _, d := range []string{rec, bin, tmp} {
		vMust(os.MkdirAll(d, 0o755))
	}
	want := map[string]bool{} // changed lines
	old := ""
	for v, ver := range []string{"v1.0.0", "v1.1.0"} {
		text := "package m\n\n// two is used\nfunc two(a, b int) int { return a * b }\n"
		for n, g := range gaps {
			if directives && n%5 == 1 { // code of a generator
				text += fmt.Sprintf("\n//line gen%d.y:%d\n", n, []int{1, 3000, 40}[n%3])
			}
			text += fmt.Sprintf("\n// F%d is %s\n// a function\nfunc F%d(a int) int {\n", n, ver, n)
			for i, st := range c19Stmts {
				gap := c19Gaps[g[i]]
				if other && v == 1 {
					gap = strings.ReplaceAll(gap, "o", "O") + "\t// added\n"
				}
				k := 100*n + 10*i
				if v == 1 && changed>>i&1 == 1 {
					k++
				}
				s := fmt.Sprintf(st, k)
				for _, l := range strings.Split(s, "\n") {
					if v == 0 && changed>>i&1 == 1 && strings.Contains(l, fmt.Sprint(k)) {
						want[l] = true
					}
				}
				text += gap + s
			}
			text += "}\n"
		}
		dir := filepath.Join(cache, "ex.org", "m@"+ver)
		c19Write(filepath.Join(dir, "a.go"), text, 0o644)
		c19Write(filepath.Join(dir, "go.mod"), "module ex.org/m\n\ngo 1.21\n", 0o644)
		if v == 0 {
			old = text
		}
	}
	c19Write(filepath.Join(prj, "go.mod"), "module ex.org/p\n\ngo 1.21\n\nrequire ex.org/m v1.0.0\n", 0o644)
	for kk, v := range map[string]string{"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOSUMDB": "off"} {
		defer os.Setenv(kk, os.Getenv(kk))
		os.Setenv(kk, v)
	}
	byMod, _, err := AnalyzeModuleChanges(cache, false, "", []*ModuleChange{{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, 0)
	if err != nil {
		x.Fail("analysis: %v", err)
		return
	}
	changes := byMod["ex.org/m"]
	if len(changes) != len(gaps) {
		x.Fail("%d functions are reported, want %d", len(changes), len(gaps))
		return
	}
	c19Write(filepath.Join(bin, "go-mutesting"), c19Tool, 0o755)
	c19Write(filepath.Join(bin, "go"), c19Go, 0o755)
	c19Write(filepath.Join(rec, "mutant.go"), "package m\n", 0o644)
	c19Write(filepath.Join(rec, "code"), "1", 0o644)
	c19Write(filepath.Join(rec, "exit"), "0", 0o644)
	c19Write(filepath.Join(rec, "summary"), "The mutation score is 0.625000 (5 passed, 3 failed, 1 duplicated, 2 skipped, total is 8)\n", 0o644)
	before := c19Tree(cache)
	for kk, v := range map[string]string{"PATH": bin + ":/usr/bin:/bin", "C19": rec, "TMPDIR": tmp} {
		defer os.Setenv(kk, os.Getenv(kk))
		os.Setenv(kk, v)
	}
	if _, err := RunMutationTesting(filepath.Join(top, "gopath"), cache, prj, true, true, false, changes, nil); err != nil {
		x.Fail("%v", err)
		return
	}
	x.Traces(1)
	if c19Tree(cache) != before {
		x.Fail("files of the module cache are changed")
	}
	var orig []string
	pending := false
	for _, l := range c19Lines(filepath.Join(rec, "snap", "m@v1.0.0_a.go")) {
		if strings.Contains(l, "mutator-disable") {
			pending = true
			continue
		}
		orig = append(orig, l)
		if strings.HasPrefix(l, "func ") || strings.HasPrefix(l, "package") {
			pending = false
			continue
		}
		code, _, _ := strings.Cut(l, "//")
		if !strings.ContainsAny(code, "0123456789") && !strings.Contains(code, "a--") && !strings.Contains(code, "two(") || strings.Contains(l, "of x++") {
			pending = false
			continue // no code
		}
		x.Transitions(1)
		if pending == want[l] {
			x.Fail("line %q is excluded: %v, it is changed: %v; the function begins\n%s", l, pending, want[l], c19Func(old, l))
			return
		}
		pending = false
	}
	x.States(len(gaps))
	if strings.Join(orig, "\n")+"\n" != old {
		x.Fail("the file has other changes")
	}
}

func c19Func(src, line string) string {
	i := strings.Index(src, line)
	if i < 0 {
		return ""
	}
	return src[strings.LastIndex(src[:i], "\nfunc ")+1 : i+len(line)]
}

func init() {
	usual := [][]int{{0}, {0, 2}, {3, 1}}
	vRegister("changes", func(c *vCtx) {
		for n := 0; n < 256; n++ {
			k := c19Case{tests: usual, targeted: true, fast: n%2 == 0, code: 1}
			for i := range 4 {
				k.marks[i] = n >> (2 * i) & 3
			}
			k.marks[4] = (n/5 + n) % 6
			for _, line := range []bool{false, true} {
				k.line = line
				c.Case(k.String(), func(x *vCase) { c19Run(x, k) })
			}
		}
	})
	vRegister("first", func(c *vCtx) { // a changed signature, a file of several lines more than marks
		for n := 0; n < 1024; n++ {
			k := c19Case{tests: [][]int{{0, 4}, {1, 2}, {3}}, targeted: n%2 == 0, line: true, code: n % 2}
			four := false
			for i := range k.marks {
				k.marks[i] = []int{0, 1, 4, 2}[n>>(2*i)&3]
				four = four || k.marks[i] == 4
			}
			if four && (c.Thorough() || n*7%11 < 3) {
				c.Case(k.String(), func(x *vCase) { c19Run(x, k) })
			}
		}
	})
	vRegister("tests", func(c *vCtx) {
		sub := func(m int) []int {
			var l []int
			for i := 0; i < 4; i++ {
				if m>>i&1 == 1 {
					l = append(l, i)
				}
			}
			return l
		}
		step := 1
		if !c.Thorough() {
			step = 3
		}
		for a := 0; a < 16; a++ {
			for b := 0; b < 16; b += step {
				k := c19Case{marks: [5]int{1, 3, 1, 3, 1}, tests: [][]int{sub(a), sub(b), sub(a & b), []int{0, 1, 2, 3, 4}[:(a+b)%6]}, targeted: true, fast: true, line: a%2 == 0, joint: (a/2+b)%2 == 0}
				c.Case(k.String(), func(x *vCase) { c19Run(x, k) })
			}
		}
		k := c19Case{marks: [5]int{1, 1, 1, 1, 1}, targeted: true}
		c.Case(k.String(), func(x *vCase) { c19Run(x, k) })
	})
	vRegister("source", func(c *vCtx) {
		for b := 0; b < 49; b++ {
			var gaps [][4]int
			for n := 0; n < 49; n++ {
				gaps = append(gaps, [4]int{n % 7, n / 7, b % 7, b / 7})
			}
			for changed := 1; changed < 16; changed++ {
				for _, other := range []bool{false, true} {
					if !c.Thorough() && (b*15+changed-1+map[bool]int{true: 7}[other])%15 != b*4%15 {
						continue
					}
					c.Case(fmt.Sprintf("%d %d %v", b, changed, other), func(x *vCase) { c19Source(x, gaps, changed, other, b%2 == 1) })
				}
			}
		}
	})
	vRegister("outcomes", func(c *vCtx) {
		for _, code := range []int{0, 1, 2, 3, 137} {
			for exit := 0; exit < 2; exit++ {
				for summary := 0; summary < 3; summary++ {
					for opt := 0; opt < 64; opt++ {
						k := c19Case{marks: [5]int{1, 0, 3, 1, 4}, tests: usual, code: code, exit: exit, summary: summary, line: opt&1 != 0, fast: opt&2 != 0, targeted: opt&4 != 0, space: opt&8 != 0, work: opt&16 != 0, old: opt&32 != 0}
						if !c.Thorough() && exit+summary > 0 && (code+opt)%3 != 0 {
							continue
						}
						c.Case(k.String(), func(x *vCase) { c19Run(x, k) })
					}
				}
			}
		}
		for _, fault := range []string{"notool", "nomod", "nofile", "nomutant"} {
			for opt := 0; opt < 16; opt++ {
				k := c19Case{marks: [5]int{1, 0, 3 * (opt & 1), 1}, tests: usual, line: opt&2 != 0, targeted: opt&4 != 0, old: opt&8 != 0, fault: fault}
				if fault == "nofile" && !k.line {
					continue // then it is the tool that notices
				}
				c.Case(k.String(), func(x *vCase) { c19Run(x, k) })
			}
		}
	})
}
