package lens

// C22: whole runs of the tool. The command is built from the working tree and run as a user would run it, on real projects
// with a module that has two versions; every kind of change of a module function is combined with every way the project uses
// it, and the report is compared with what is known about both by construction. The go command is real, only "go clean"
// is replaced by one that empties the run's own build cache (to the state after building the standard library).

import (
	"archive/zip"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/fs"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

// c22Kind is one change of a module function; the values are those of a T.
type c22Kind struct {
	name     string
	old, new string               // bodies
	fields   map[string][2]string // fields of T with another value after the update
	aOld     int                  // value of A
	aNew     int
	shape    bool // the change adds or removes values, no value is another
	err      bool // an error is returned after the update
	random   bool // A differs between runs before the update
	randNew  bool // A differs between runs after the update
	panics   [2]bool
	same     bool // the text is unchanged: not a change at all
	gone     bool // the function does not exist after the update: not a changed function, its users do not compile any more
}

func c22Body(kv ...string) string {
	v := map[string]string{"A": "1", "B": `"b"`, "C": "[]int{1, 2}", "M": `map[string]int{"a": 1}`, "N": `&T{B: "x", N: &T{A: 5}}`, "h": "3", "E": "nil"}
	for i := 0; i < len(kv); i += 2 {
		v[kv[i]] = kv[i+1]
	}
	return fmt.Sprintf("%s\treturn T{A: %s, B: %s, C: %s, M: %s, N: %s, h: %s}, %s\n", v["pre"], v["A"], v["B"], v["C"], v["M"], v["N"], v["h"], v["E"])
}

func c22Kinds() []c22Kind {
	b := c22Body
	bang := "\tif one == 1 {\n\t\tpanic(\"boom\")\n\t}\n"
	f := func(kv ...string) map[string][2]string {
		m := map[string][2]string{}
		for i := 0; i < len(kv); i += 3 {
			m[kv[i]] = [2]string{kv[i+1], kv[i+2]}
		}
		return m
	}
	ks := []c22Kind{
		{name: "Keep", old: b(), new: b(), same: true},
		{name: "Text", old: b(), new: b("A", "0 + one")},
		{name: "Branch", old: b(), new: b("pre", "\tif one == 2 {\n\t\tpanic(\"never\")\n\t}\n")},
		{name: "Int", old: b(), new: b("A", "2"), fields: f("A", "1", "2"), aNew: 2},
		{name: "Str", old: b(), new: b("B", `"c"`), fields: f("B", "b", "c")},
		{name: "Tail", old: b("B", `"abcdef"`), new: b("B", `"abcdeg"`), fields: f("B", "abcdef", "abcdeg")},
		{name: "Hidden", old: b(), new: b("h", "4"), fields: f("h", "3", "4")},
		{name: "Slice", old: b(), new: b("C", "[]int{1, 3}"), fields: f("C", "[1 2]", "[1 3]")},
		{name: "Grow", old: b(), new: b("C", "[]int{1, 2, 3}"), fields: f("C", "[1 2]", "[1 2 3]")},
		{name: "Map", old: b(), new: b("M", `map[string]int{"a": 2}`), fields: f("M.a", "1", "2")},
		{name: "Nest", old: b(), new: b("N", `&T{B: "x", N: &T{A: 6}}`), fields: f("N.N.A", "5", "6")},
		{name: "Two", old: b(), new: b("h", "4", "B", `"c"`), fields: f("h", "3", "4", "B", "b", "c")},
		{name: "Nil", old: b(), new: b("N", "nil"), shape: true},
		{name: "Err", old: b(), new: b("E", `errors.New("e")`), err: true},
		{name: "Panic", old: b(), new: b("pre", bang), panics: [2]bool{false, true}},
		{name: "Unpanic", old: b("pre", bang), new: b(), panics: [2]bool{true, false}},
		{name: "Rand", old: b("A", "int(time.Now().UnixNano())"), new: b("A", "1 + int(time.Now().UnixNano())"), random: true, randNew: true},
		{name: "Unrand", old: b("A", "int(time.Now().UnixNano())"), new: b(), random: true},
		{name: "Newrand", old: b(), new: b("A", "int(time.Now().UnixNano())"), randNew: true},
		{name: "Gone", old: b(), gone: true},
	}
	for i := range ks {
		ks[i].aOld = 1
		if ks[i].aNew == 0 {
			ks[i].aNew = 1
		}
	}
	return ks
}

const c22ModHead = `package dep

import (
	"errors"
	"time"
)

var one = 1

var _ = errors.New

var _ = time.Now

type T struct {
	A int
	B string
	C []int
	M map[string]int
	N *T
	h int
}

`

// c22Shape is one way to use a module function, Ξ is the name of the kind.
type c22Shape struct {
	name, src string
	// callers and what they see: prefix of the fields of T, and whether A (plus the number, formatted) is a value of its own
	judge func(k c22Kind) map[string]map[string][2]string
	// callers are the functions that lead to the module
	callers []string
	frames  int // how many calls see the value of T
	fails   func(k c22Kind, new bool) bool
}

func c22See(prefix string, k c22Kind, add map[string][2]string) map[string][2]string {
	m := map[string][2]string{}
	for f, v := range k.fields {
		m[prefix+f] = v
	}
	if k.randNew && !k.random {
		m[prefix+"A"] = [2]string{"1", "*"}
	}
	for f, v := range add {
		m[f] = v
	}
	return m
}

func c22A(k c22Kind, name string, n int) map[string][2]string {
	if k.randNew && !k.random {
		return map[string][2]string{name: {fmt.Sprint(1 + n), "*"}}
	}
	if k.aOld == k.aNew || k.random {
		return nil
	}
	return map[string][2]string{name: {fmt.Sprint(k.aOld + n), fmt.Sprint(k.aNew + n)}}
}

func c22Shapes() []c22Shape {
	panics := func(k c22Kind, n bool) bool { return k.panics[0] && !n || k.panics[1] && n }
	never := func(c22Kind, bool) bool { return false }
	type J = map[string]map[string][2]string
	return []c22Shape{
		{"Direct", "func PΞDirect() (r dep.T, err error) {\n\tr, err = dep.Ξ()\n\treturn r, err\n}\n",
			func(k c22Kind) J { return J{"PΞDirect": c22See("r.", k, nil)} }, []string{"PΞDirect"}, 1, panics},
		{"Local", "func PΞLocal() int {\n\tv, err := dep.Ξ()\n\t_, _ = v, err\n\treturn 7\n}\n",
			func(k c22Kind) J { return J{"PΞLocal": c22See("v.", k, nil)} }, []string{"PΞLocal"}, 1, panics},
		{"Discard", "func PΞDiscard() int {\n\t_, _ = dep.Ξ()\n\treturn 7\n}\n",
			func(k c22Kind) J { return J{} }, []string{"PΞDiscard"}, 0, panics},
		{"Method", "type RΞ struct {\n\tn int\n\tv dep.T\n}\n\nfunc (r *RΞ) Do() bool {\n\tr.v, _ = dep.Ξ()\n\treturn true\n}\n\nfunc PΞMethod() int {\n\tr := &RΞ{n: 1}\n\tr.Do()\n\treturn r.n\n}\n",
			func(k c22Kind) J { return J{"PΞMethod": c22See("r.v.", k, nil)} }, []string{"PΞMethod", "*RΞ.Do"}, 1, panics},
		{"Loop", "func PΞInner(n int) int {\n\tv, _ := dep.Ξ()\n\treturn v.A + n\n}\n\nfunc PΞLoop() (s string) {\n\tfor i := 0; i < 3; i++ {\n\t\ts += strconv.Itoa(PΞInner(i))\n\t}\n\treturn s\n}\n",
			func(k c22Kind) J {
				j := J{"PΞInner": c22See("v.", k, c22A(k, "ret0", 2))}
				if k.randNew && !k.random {
					j["PΞLoop"] = map[string][2]string{"s": {"123", "*"}}
				} else if k.aOld != k.aNew && !k.random {
					j["PΞLoop"] = map[string][2]string{"s": {"123", "234"}}
				}
				return j
			}, []string{"PΞInner", "PΞLoop"}, 3, panics},
		{"Recover", "func PΞRecover() (r int, err error) {\n\tdefer func() {\n\t\tif x := recover(); x != nil {\n\t\t\terr = errors.New(x.(string))\n\t\t}\n\t}()\n\tv, err := dep.Ξ()\n\treturn v.A, err\n}\n",
			func(k c22Kind) J { return J{"PΞRecover": c22See("v.", k, c22A(k, "ret0", 0))} }, []string{"PΞRecover"}, 1, never},
		{"Assert", "func PΞAssert() int {\n\tv, _ := dep.Ξ()\n\treturn v.A\n}\n",
			func(k c22Kind) J { return J{"PΞAssert": c22See("v.", k, c22A(k, "ret0", 0))} }, []string{"PΞAssert"}, 1,
			func(k c22Kind, n bool) bool {
				return panics(k, n) || !n && k.random || n && (k.randNew || k.aNew != 1)
			}},
		{"Routine", "func PΞRoutine() (a int) {\n\tch := make(chan int)\n\tgo func() {\n\t\tdefer func() {\n\t\t\tif recover() != nil {\n\t\t\t\tch <- -1\n\t\t\t}\n\t\t}()\n\t\tv, _ := dep.Ξ()\n\t\tch <- v.A\n\t}()\n\ta = <-ch\n\treturn a\n}\n",
			func(k c22Kind) J {
				switch k.panics {
				case [2]bool{false, true}:
					return J{"PΞRoutine": {"a": {"1", "-1"}}}
				case [2]bool{true, false}:
					return J{"PΞRoutine": {"a": {"-1", "1"}}}
				}
				return J{"PΞRoutine": c22A(k, "a", 0)}
			}, []string{"PΞRoutine"}, 0, never},
		{"Iface", "type IΞ interface{ DoΞ() (dep.T, error) }\n\ntype JΞ struct{}\n\nfunc (JΞ) DoΞ() (t dep.T, err error) {\n\tt, err = dep.Ξ()\n\treturn\n}\n\nfunc PΞIface() bool {\n\tvar i IΞ = JΞ{}\n\tt, err := i.DoΞ()\n\t_, _ = t, err\n\treturn true\n}\n",
			func(k c22Kind) J {
				return J{"JΞ.DoΞ": c22See("t.", k, nil), "PΞIface": c22See("t.", k, nil)}
			}, []string{"PΞIface", "JΞ.DoΞ"}, 2, panics},
	}
}

func c22KindNamed(n string) c22Kind {
	for _, k := range c22Kinds() {
		if k.name == n {
			return k
		}
	}
	panic(n)
}

func c22ShapeNamed(n string) c22Shape {
	for _, s := range c22Shapes() {
		if s.name == n {
			return s
		}
	}
	panic(n)
}

type c22Cell struct{ kind, shape string }

// c22Run is one run of the tool.
type c22Run struct {
	name   string
	cells  []c22Cell
	second []c22Cell // cells that use the second module
	// how the update is asked for: module, modules, gomod
	how string
	// update of the second module, and its go version
	updateSecond bool
	secondGo     string
	firstGo      string
	inPlace      bool
	workspace    bool // the cells with odd numbers live in a second module of a workspace
	spread       bool // files, packages and external tests
	recurse      int
	fieldLen     int
	thorough     bool
}

const (
	c22Old = "v1.0.0"
	c22New = "v1.1.0"
)

// c22Prog is a written project and what is known about it.
type c22Prog struct {
	dir   string
	tests map[string]c22Test // by ident
}

type c22Test struct {
	cell    c22Cell
	pkg     string
	dep     string
	changed bool
	tok     string // part of the names of its functions
	broken  bool   // the package does not compile after the update
}

func c22Write(p, s string) {
	vMust(os.MkdirAll(filepath.Dir(p), 0o755))
	vMust(os.WriteFile(p, []byte(s), 0o644))
}

// c22Escape is the form of paths and versions in proxies.
func c22Escape(s string) string {
	return regexp.MustCompile("[A-Z]").ReplaceAllStringFunc(s, func(u string) string { return "!" + strings.ToLower(u) })
}

func c22Proxy(dir, mod, version, goVersion string, files map[string]string) {
	d := filepath.Join(dir, c22Escape(mod), "@v")
	gomod := "module " + mod + "\n\ngo " + goVersion + "\n"
	c22Write(filepath.Join(d, c22Escape(version)+".mod"), gomod)
	c22Write(filepath.Join(d, c22Escape(version)+".info"), `{"Version":"`+version+`","Time":"2024-01-01T00:00:00Z"}`)
	list, _ := os.ReadFile(filepath.Join(d, "list"))
	c22Write(filepath.Join(d, "list"), string(list)+version+"\n")
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	files["go.mod"] = gomod
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w, err := z.Create(mod + "@" + version + "/" + n)
		vMust(err)
		_, err = w.Write([]byte(files[n]))
		vMust(err)
	}
	vMust(z.Close())
	c22Write(filepath.Join(d, c22Escape(version)+".zip"), b.String())
}

// c22Dep writes the text of a module with the kinds used; they are spread over two files and a package below if asked for.
func c22Dep(kinds []c22Kind, n int) map[string]string {
	a, b := c22ModHead, "package dep\n\nimport (\n\t\"errors\"\n\t\"time\"\n)\n\nvar _ = errors.New\n\nvar _ = time.Now\n\n"
	for i, k := range kinds {
		if k.gone && n == 1 {
			continue
		}
		f := "func " + k.name + "() (T, error) {\n" + []string{k.old, k.new}[n] + "}\n\n"
		if i%2 == 0 {
			a += f
		} else {
			b += f
		}
	}
	return map[string]string{"dep.go": a, "more.go": b}
}

func c22KindsOf(cells []c22Cell) (out []c22Kind) {
	for _, k := range c22Kinds() {
		for _, c := range cells {
			if c.kind == k.name {
				out = append(out, k)
				break
			}
		}
	}
	return out
}

const (
	c22Mod1 = "example.com/dep"
	c22Mod2 = "example.com/Two/v2"
)

func c22Versions(mod string) (string, string) {
	if mod == c22Mod2 {
		return "v2.0.0", "v2.0.1-RC.1"
	}
	return c22Old, c22New
}

// c22Build writes proxy and project below dir.
func (r *c22Run) build(dir string) *c22Prog {
	p := &c22Prog{dir: filepath.Join(dir, "app"), tests: map[string]c22Test{}}
	proxy := filepath.Join(dir, "proxy")
	secondGo := r.secondGo
	if secondGo == "" {
		secondGo = "1.21"
	}
	firstGo := r.firstGo
	if firstGo == "" {
		firstGo = "1.21"
	}
	for n := 0; n < 2; n++ {
		o, w := c22Versions(c22Mod1)
		c22Proxy(proxy, c22Mod1, []string{o, w}[n], firstGo, c22Dep(c22KindsOf(r.cells), n))
		o, w = c22Versions(c22Mod2)
		files := map[string]string{}
		for f, s := range c22Dep(c22KindsOf(r.second), n) {
			files["dep/"+f] = s
		}
		c22Proxy(proxy, c22Mod2, []string{o, w}[n], secondGo, files)
	}
	require := func(name string) string {
		return "module " + name + "\n\ngo 1.21\n\nrequire (\n\t" + c22Mod1 + " v1.0.0\n\t" + c22Mod2 + " v2.0.0\n)\n"
	}
	if len(r.second) == 0 {
		require = func(name string) string { return "module " + name + "\n\ngo 1.21\n\nrequire " + c22Mod1 + " v1.0.0\n" }
	}
	c22Write(filepath.Join(p.dir, "go.mod"), require("example.com/app"))
	if r.workspace {
		c22Write(filepath.Join(p.dir, "go.work"), "go 1.21\n\nuse (\n\t.\n\t./other\n)\n")
		c22Write(filepath.Join(p.dir, "other", "go.mod"), require("example.com/other"))
	}
	type file struct{ pkg, imp, body string }
	files := map[string]*file{}
	add := func(name, pkg, imp, body string) {
		if files[name] == nil {
			files[name] = &file{pkg, imp, ""}
		}
		files[name].body += body + "\n"
	}
	broken := map[string]bool{}
	all := append(slices.Clone(r.cells), r.second...)
	for i, c := range all {
		dep, depPkg := c22Mod1, c22Mod1
		if i >= len(r.cells) {
			dep, depPkg = c22Mod2, c22Mod2+"/dep"
		}
		k, s := c22KindNamed(c.kind), c22ShapeNamed(c.shape)
		tok := k.name
		if r.spread { // the packages share names
			tok = fmt.Sprint("X", i/3)
		}
		where, pkg, base, extern := "", "example.com/app", "app", false
		if r.spread {
			switch i % 3 {
			case 1:
				where, pkg, base = "sub/", "example.com/app/sub", "sub"
			case 2:
				where, pkg, base, extern = "sub/deep/", "example.com/app/sub/deep", "deep", true
			}
		}
		if r.workspace && i%2 == 1 {
			where, pkg = "other/"+where, strings.Replace(pkg, "example.com/app", "example.com/other", 1)
			if base == "app" {
				base = "other"
			}
		}
		src := where + "a.go"
		if r.spread && i%2 == 1 || dep == c22Mod2 {
			src = where + "b" + fmt.Sprint(len(dep)) + ".go"
		}
		add(src, base, "\t\"errors\"\n\t\"strconv\"\n\n\t\""+depPkg+"\"\n", strings.ReplaceAll(strings.ReplaceAll(s.src, "dep.Ξ", "dep."+k.name), "Ξ", tok))
		call, tpkg := "P"+tok+s.name+"()", base
		imp := "\t\"testing\"\n"
		if extern {
			call, tpkg = base+"."+call, base+"_test"
			imp += "\n\t\"" + pkg + "\"\n"
		}
		body := "\t" + call + "\n"
		if s.name == "Assert" {
			body = "\tif got := " + call + "; got != 1 {\n\t\tt.Fatalf(\"got %d\", got)\n\t}\n"
		}
		name := "Test" + tok + s.name
		add(where+"x_test.go", tpkg, imp, "func "+name+"(t *testing.T) {\n"+body+"}\n")
		changed := !k.same && !k.gone && (dep == c22Mod1 || r.updateSecond)
		tp := pkg
		if extern {
			tp += "_test"
		}
		p.tests[tp+":"+name] = c22Test{c, pkg, dep, changed, tok, false}
		if k.gone {
			broken[pkg] = true
		}
	}
	for id, t := range p.tests {
		t.broken = broken[t.pkg]
		p.tests[id] = t
	}
	for name, f := range files {
		head := ""
		if !strings.HasSuffix(name, "_test.go") {
			head = "var _ = errors.New\n\nvar _ = strconv.Itoa\n\n"
		}
		c22Write(filepath.Join(p.dir, filepath.FromSlash(name)), "package "+f.pkg+"\n\nimport (\n"+f.imp+")\n\n"+head+f.body)
	}
	return p
}

type c22Report struct {
	Module struct {
		RootModuleName            string   `json:"root_module_name"`
		RootModuleStartVersion    string   `json:"root_module_start_version"`
		RootModuleUpdateVersion   string   `json:"root_module_update_version"`
		ChangedModules            []string `json:"changed_modules"`
		ChangeFuncCount           int      `json:"changed_function_count"`
		ReachableChangedFunctions []string `json:"reachable_changed_functions"`
		Untracked                 int      `json:"untracked_module_function_count"`
	} `json:"module"`
	Validation struct {
		Functions  []string `json:"relevant_project_functions"`
		Tests      []string `json:"relevant_test_functions"`
		Points     int      `json:"project_field_check_point_count"`
		Hit        int      `json:"module_change_hit_in_test_count"`
		MatchCount int      `json:"test_field_match_count"`
		DiffCount  int      `json:"test_field_diff_count"`
		Details    []struct {
			Ident           string                       `json:"test_function_ident"`
			Name            string                       `json:"test_function_name"`
			BaselineFailure bool                         `json:"baseline_failure"`
			PassRegression  bool                         `json:"pass_regression"`
			DiffFieldCount  int                          `json:"diff_field_count"`
			Hit             int                          `json:"module_change_hit_count"`
			FieldChanges    map[string]map[string]string `json:"field_changes"`
		} `json:"test_details"`
	} `json:"validation"`
}

type c22Out struct {
	prog   *c22Prog
	err    string // the run failed
	log    string
	report c22Report
	trees  string // what changed on disk
	left   string
}

// c22Tool builds the command and the build cache that "go clean" returns to.
func c22Tool(dir string) (tool, seed, goCmd string) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	goCmd = os.Getenv("VERIF_REAL_GO")
	if goCmd == "" {
		var err error
		goCmd, err = exec.LookPath("go")
		vMust(err)
	}
	tool, seed = filepath.Join(dir, "modlens"), filepath.Join(dir, "seed")
	var wg sync.WaitGroup
	wg.Add(2)
	var errs [2]string
	go func() {
		defer wg.Done()
		cmd := exec.Command(goCmd, "build", "-o", tool, "./cmd/modlens")
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-buildvcs=false")
		if gc := os.Getenv("VERIF_GOCACHE"); gc != "" {
			cmd.Env = append(cmd.Env, "GOCACHE="+gc)
		}
		if out, err := cmd.CombinedOutput(); err != nil {
			errs[0] = fmt.Sprintf("%v\n%s", err, out)
		}
	}()
	go func() {
		defer wg.Done()
		d := filepath.Join(dir, "warm")
		c22Write(filepath.Join(d, "go.mod"), "module example.com/warm\n\ngo 1.21\n")
		c22Write(filepath.Join(d, "a_test.go"), "package warm\n\nimport (\n\t_ \"bytes\"\n\t_ \"encoding/json\"\n\t_ \"errors\"\n\t_ \"fmt\"\n\t_ \"net/http\"\n\t_ \"os/signal\"\n\t_ \"sort\"\n\t_ \"strconv\"\n\t\"testing\"\n)\n\nfunc TestA(t *testing.T) {}\n")
		cmd := exec.Command(goCmd, "test", "-count=1", ".")
		cmd.Dir = d
		cmd.Env = append(os.Environ(), "GOCACHE="+seed, "GOFLAGS=")
		if out, err := cmd.CombinedOutput(); err != nil {
			errs[1] = fmt.Sprintf("%v\n%s", err, out)
		}
	}()
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			panic(e)
		}
	}
	return
}

func c22Tree(dir string, skip ...string) string {
	var out []string
	vMust(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		vMust(err)
		rel, _ := filepath.Rel(dir, p)
		for _, s := range skip {
			if rel == s {
				if d.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		info, err := d.Info()
		vMust(err)
		s := rel + " " + info.Mode().String()
		if info.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			vMust(err)
			s += fmt.Sprintf(" %d %x", len(b), sha256.Sum256(b))
		}
		out = append(out, s)
		return nil
	}))
	return strings.Join(out, "\n")
}

func c22TreeDiff(a, b string) string {
	in := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, l := range strings.Split(s, "\n") {
			m[l] = true
		}
		return m
	}
	ma, mb := in(a), in(b)
	var out []string
	for l := range ma {
		if !mb[l] {
			out = append(out, "before: "+l)
		}
	}
	for l := range mb {
		if !ma[l] {
			out = append(out, "after: "+l)
		}
	}
	sort.Strings(out)
	if len(out) > 8 {
		out = append(out[:8], "...")
	}
	return strings.Join(out, "\n")
}

var c22PortMu sync.Mutex
var c22PortNext int

func c22Port() int {
	c22PortMu.Lock()
	defer c22PortMu.Unlock()
	if c22PortNext == 0 {
		c22PortNext = 10000 + os.Getpid()*40%20000
	}
	for {
		base := c22PortNext
		c22PortNext = 10000 + (c22PortNext-10000+80)%20000
		ok := true
		for i := 0; i < 66 && ok; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", base+i))
			if ok = err == nil; ok {
				l.Close()
			}
		}
		if ok {
			return base
		}
	}
}

func (r *c22Run) run(dir, tool, seed, goCmd string) (out c22Out) {
	vMust(os.MkdirAll(dir, 0o755))
	out.prog = r.build(dir)
	defer func() {
		_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error { // the module cache is read-only
			if err == nil && d.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(dir)
	}()
	gopath, cache, tmp := filepath.Join(dir, "gopath"), filepath.Join(dir, "gocache"), filepath.Join(dir, "tmp")
	vMust(os.MkdirAll(tmp, 0o755))
	bin := filepath.Join(dir, "bin")
	c22Write(filepath.Join(bin, "go"), "#!/bin/bash\nif [ \"$1\" = clean ]; then mv '"+cache+"' '"+cache+"'.$$ 2>/dev/null && rm -rf '"+cache+"'.$$; cp -al '"+seed+"' '"+cache+"'; exit 0; fi\nexec '"+goCmd+"' \"$@\"\n")
	vMust(os.Chmod(filepath.Join(bin, "go"), 0o755))
	env := []string{"HOME=" + dir, "PATH=" + bin + ":" + os.Getenv("PATH"), "GOPATH=" + gopath, "GOCACHE=" + cache, "TMPDIR=" + tmp, "GOPROXY=file://" + filepath.Join(dir, "proxy"),
		"GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOTELEMETRY=off", "GOENV=off"}
	if !r.workspace {
		env = append(env, "GOFLAGS=-mod=mod")
	}
	limit := 350 * time.Second
	if r.thorough {
		limit = 40 * time.Minute
	}
	command := func(d string, name string, arg ...string) (string, error) {
		cmd := exec.Command(name, arg...)
		cmd.Dir, cmd.Env = d, env
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		if err := cmd.Start(); err != nil {
			return "", err
		}
		t := time.AfterFunc(limit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		err := cmd.Wait()
		t.Stop()
		return b.String(), err
	}
	must := func(s string, err error) {
		if err != nil {
			panic(fmt.Sprintf("%s: %v\n%s", r.name, err, s))
		}
	}
	must(command(dir, filepath.Join(bin, "go"), "clean"))
	o1, n1 := c22Versions(c22Mod1)
	o2, n2 := c22Versions(c22Mod2)
	dl := []string{"mod", "download", c22Mod1 + "@" + o1, c22Mod1 + "@" + n1}
	if len(r.second) > 0 {
		dl = append(dl, c22Mod2+"@"+o2, c22Mod2+"@"+n2)
	}
	must(command(dir, filepath.Join(bin, "go"), dl...))
	dirs := []string{out.prog.dir}
	if r.workspace {
		dirs = append(dirs, filepath.Join(out.prog.dir, "other"))
	}
	for _, d := range dirs {
		must(command(d, filepath.Join(bin, "go"), "mod", "tidy"))
	}
	if r.workspace {
		must(command(dirs[0], filepath.Join(bin, "go"), "work", "sync"))
	}
	args := []string{"-project", out.prog.dir, "-mutationscope", "none", "-monitorport", fmt.Sprint(c22Port()),
		"-json", filepath.Join(dir, "report.json"), "-charts", filepath.Join(dir, "report.png"), "-timemultiplier", "100"}
	switch r.how {
	case "module":
		args = append(args, "-module", c22Mod1+"@"+n1)
	case "modules":
		l := c22Mod1 + "@" + n1
		if r.updateSecond {
			l += "," + c22Mod2 + "@" + n2
		}
		args = append(args, "-modules", l)
	case "gomod":
		b, err := os.ReadFile(filepath.Join(out.prog.dir, "go.mod"))
		vMust(err)
		s := strings.Replace(string(b), c22Mod1+" "+o1, c22Mod1+" "+n1, 1)
		if r.updateSecond {
			s = strings.Replace(s, c22Mod2+" "+o2, c22Mod2+" "+n2, 1)
		}
		c22Write(filepath.Join(dir, "updated", "go.mod"), s)
		args = append(args, "-gomod", filepath.Join(dir, "updated", "go.mod"))
	case "gowork":
		for _, f := range []string{"go.work", "go.mod", "other/go.mod"} {
			b, err := os.ReadFile(filepath.Join(out.prog.dir, f))
			vMust(err)
			s := strings.Replace(string(b), c22Mod1+" "+o1, c22Mod1+" "+n1, 1)
			if r.updateSecond {
				s = strings.Replace(s, c22Mod2+" "+o2, c22Mod2+" "+n2, 1)
			}
			c22Write(filepath.Join(dir, "updated", f), s)
		}
		args = append(args, "-gowork", filepath.Join(dir, "updated", "go.work"))
	}
	if r.inPlace {
		args = append(args, "-tmpcopy=false")
	}
	if r.recurse > 0 {
		args = append(args, "-fieldrecurse", fmt.Sprint(r.recurse))
	}
	if r.fieldLen > 0 {
		args = append(args, "-fieldlen", fmt.Sprint(r.fieldLen))
	}
	before := [2]string{c22Tree(out.prog.dir), c22Tree(gopath, "pkg/mod/cache/lock", "pkg/sumdb")}
	log, err := command(dir, tool, args...)
	out.log = log
	if err != nil {
		out.err = fmt.Sprintf("the run failed: %v", err)
		return
	}
	if a := c22Tree(out.prog.dir); a != before[0] {
		out.trees += "the project is not as before:\n" + c22TreeDiff(before[0], a) + "\n"
	}
	if a := c22Tree(gopath, "pkg/mod/cache/lock", "pkg/sumdb"); a != before[1] {
		out.trees += "the module cache is not as before:\n" + c22TreeDiff(before[1], a) + "\n"
	}
	left, err := os.ReadDir(tmp)
	vMust(err)
	for _, e := range left {
		if strings.HasPrefix(e.Name(), "patchlens") {
			out.left += e.Name() + " "
		}
	}
	b, err := os.ReadFile(filepath.Join(dir, "report.json"))
	if err != nil {
		out.err = fmt.Sprintf("no report: %v", err)
		return
	}
	if err := json.Unmarshal(b, &out.report); err != nil {
		out.err = fmt.Sprintf("the report cannot be read: %v", err)
	}
	if st, err := os.Stat(filepath.Join(dir, "report.png")); err != nil || st.Size() == 0 {
		out.err = fmt.Sprintf("no chart: %v", err)
	}
	return
}

var c22Lines = regexp.MustCompile(`(?m)^([-+ ])(.*)$`)

// c22Values reads the two values of a reported difference.
func c22Values(diff string) (string, string) {
	var o, n []string
	for _, m := range c22Lines.FindAllStringSubmatch(diff, -1) {
		switch m[1] {
		case "-":
			o = append(o, m[2])
		case "+":
			n = append(n, m[2])
		}
	}
	return strings.Join(o, "\n"), strings.Join(n, "\n")
}

// c22Expect is what the report must say about one test.
type c22Expect struct {
	baseline, regression bool
	hit                  int
	changes              map[string]map[string][2]string
	diff                 int // -1: some
}

func (r *c22Run) expect(t c22Test) c22Expect {
	k, s := c22KindNamed(t.cell.kind), c22ShapeNamed(t.cell.shape)
	e := c22Expect{baseline: s.fails(k, false), hit: 1, changes: map[string]map[string][2]string{}}
	e.regression = !e.baseline && s.fails(k, true)
	if t.dep == c22Mod2 && r.secondGo == "1.12" || t.dep == c22Mod1 && r.firstGo == "1.12" {
		e.hit = 0
	}
	limit := func(v string) string {
		if r.fieldLen > 0 && !strings.HasPrefix(v, "[") && len(v) > r.fieldLen {
			return v[:r.fieldLen]
		}
		return v
	}
	if t.broken {
		e.regression, e.diff = !e.baseline, -1
		return e
	}
	for caller, fields := range s.judge(k) {
		frames := 1
		if strings.HasSuffix(caller, "Inner") {
			frames = 3
		}
		for f, v := range fields {
			if r.recurse > 0 && strings.Count(f, ".") >= r.recurse {
				continue
			}
			if limit(v[0]) == limit(v[1]) {
				continue
			}
			id := t.pkg + ":" + strings.ReplaceAll(caller, "Ξ", t.tok)
			if e.changes[id] == nil {
				e.changes[id] = map[string][2]string{}
			}
			e.changes[id][f] = [2]string{limit(v[0]), limit(v[1])}
			e.diff += frames
		}
	}
	errSeen := slices.Contains([]string{"Direct", "Local", "Recover", "Iface"}, s.name)
	if k.shape && s.frames > 0 || k.err && errSeen || k.panics[0] || k.panics[1] {
		e.diff = -1
	}
	return e
}

func c22Sorted(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (r *c22Run) judgeReport(x *vCase, out *c22Out) {
	tests, funcs, reach, tracked, untracked := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	kinds := 0
	count := func(cells []c22Cell) {
		for _, k := range c22KindsOf(cells) {
			if !k.same && !k.gone { // a function that is gone is not a change, what still needs it fails to compile
				kinds++
			}
		}
	}
	count(r.cells)
	if r.updateSecond {
		count(r.second)
	}
	for id, t := range out.prog.tests {
		if !t.changed {
			continue
		}
		tests[id] = true
		k, s := c22KindNamed(t.cell.kind), c22ShapeNamed(t.cell.shape)
		for _, c := range s.callers {
			funcs[strings.TrimSuffix(t.pkg, "_test")+":"+strings.ReplaceAll(c, "Ξ", t.tok)] = true
		}
		fn := t.dep + ":" + k.name
		if t.dep == c22Mod2 {
			fn = t.dep + "/dep:" + k.name
		}
		reach[fn] = true
		if t.dep == c22Mod2 && r.secondGo == "1.12" || t.dep == c22Mod1 && r.firstGo == "1.12" {
			untracked[fn] = true
		} else {
			tracked[fn] = true
		}
	}
	rep := &out.report
	list := func(what string, got []string, want map[string]bool) {
		got = slices.Clone(got)
		sort.Strings(got)
		if w := c22Sorted(want); !slices.Equal(got, w) {
			var extra, miss []string
			for _, g := range got {
				if !want[g] {
					extra = append(extra, g)
				}
			}
			for _, n := range w {
				if !slices.Contains(got, n) {
					miss = append(miss, n)
				}
			}
			x.Fail("%s: missing %v, too many %v, %d instead of %d", what, miss, extra, len(got), len(w))
		}
	}
	list("relevant tests", rep.Validation.Tests, tests)
	list("relevant project functions", rep.Validation.Functions, funcs)
	list("reachable changed functions", rep.Module.ReachableChangedFunctions, reach)
	mods := map[string]bool{c22Mod1: true}
	if r.updateSecond {
		mods[c22Mod2] = true
	} else {
		o, n := c22Versions(c22Mod1)
		if rep.Module.RootModuleName != c22Mod1 || rep.Module.RootModuleStartVersion != o || rep.Module.RootModuleUpdateVersion != n {
			x.Fail("the update is named %s %s %s", rep.Module.RootModuleName, rep.Module.RootModuleStartVersion, rep.Module.RootModuleUpdateVersion)
		}
	}
	list("changed modules", rep.Module.ChangedModules, mods)
	sum := 0
	for _, d := range rep.Validation.Details {
		sum += d.DiffFieldCount
	}
	for _, f := range []struct {
		what      string
		got, want int
	}{{"changed functions", rep.Module.ChangeFuncCount, kinds}, {"untracked functions", rep.Module.Untracked, len(untracked)}, {"changed functions reached by tests", rep.Validation.Hit, len(tracked)},
		{"different values", rep.Validation.DiffCount, sum}, {"test details", len(rep.Validation.Details), len(tests)}} {
		if f.got != f.want {
			x.Fail("%s: the report says %d, want %d", f.what, f.got, f.want)
		}
	}
	if rep.Validation.Points == 0 || rep.Validation.MatchCount == 0 {
		x.Fail("no values were checked: %d points, %d matches", rep.Validation.Points, rep.Validation.MatchCount)
	}
	if out.trees != "" {
		x.Fail("%s", out.trees)
	}
	if out.left != "" {
		x.Fail("left behind: %s", out.left)
	}
	x.States(1)
	x.Traces(1)
}

func (r *c22Run) judgeTest(x *vCase, out *c22Out, id string, t c22Test) {
	e := r.expect(t)
	x.States(1)
	x.Transitions(3)
	for i := range out.report.Validation.Details {
		d := &out.report.Validation.Details[i]
		if d.Ident != id {
			continue
		}
		if !t.changed {
			x.Fail("the test does not reach a changed function")
			return
		}
		if want := id[strings.LastIndex(id, ":")+1:]; d.Name != want {
			x.Fail("named %q", d.Name)
		}
		if d.BaselineFailure != e.baseline || d.PassRegression != e.regression {
			x.Fail("failed before: %v, fails after the update only: %v, want %v and %v", d.BaselineFailure, d.PassRegression, e.baseline, e.regression)
		}
		if d.Hit != e.hit {
			x.Fail("%d changed functions reached, want %d", d.Hit, e.hit)
		}
		if e.diff >= 0 && d.DiffFieldCount != e.diff || e.diff < 0 && d.DiffFieldCount == 0 {
			x.Fail("%d different values, want %d\nreported: %v\nwant: %v", d.DiffFieldCount, e.diff, d.FieldChanges, e.changes)
		}
		for caller, fields := range d.FieldChanges {
			for f, diff := range fields {
				x.Transitions(1)
				w, ok := e.changes[caller][f]
				if !ok {
					x.Fail("a change of %s in %s is reported: %q", f, caller, diff)
					continue
				}
				o, n := c22Values(diff)
				if o != w[0] || n != w[1] && w[1] != "*" {
					x.Fail("%s in %s is said to change from %q to %q, it is %q and %q", f, caller, o, n, w[0], w[1])
				}
			}
		}
		for caller, fields := range e.changes {
			for f := range fields {
				if _, ok := d.FieldChanges[caller][f]; !ok {
					x.Fail("the change of %s in %s is not reported", f, caller)
				}
			}
		}
		x.Outcome(fmt.Sprintf("regression=%v differences=%v", d.PassRegression, d.DiffFieldCount > 0))
		return
	}
	if t.changed {
		x.Fail("the test is not in the report")
	}
}

func c22Grid(kinds, shapes []string) (out []c22Cell) {
	for _, k := range kinds {
		for _, s := range shapes {
			out = append(out, c22Cell{k, s})
		}
	}
	return
}

func c22Runs(thorough bool) []*c22Run {
	var kinds, shapes []string
	for _, k := range c22Kinds() {
		if !k.gone {
			kinds = append(kinds, k.name)
		}
	}
	for _, s := range c22Shapes() {
		shapes = append(shapes, s.name)
	}
	main := c22Grid(kinds, []string{"Direct", "Loop"})
	for _, c := range c22Grid([]string{"Int", "Panic", "Rand", "Err"}, shapes) {
		if !slices.Contains(main, c) {
			main = append(main, c)
		}
	}
	if thorough {
		main = c22Grid(kinds, shapes)
		// the failing assertion of this test leads, as far as the analysis can tell, to every function literal without parameters
		main = slices.DeleteFunc(main, func(c c22Cell) bool { return c == c22Cell{"Keep", "Assert"} })
	}
	few := []string{"Keep", "Int", "Nest", "Panic", "Unrand"}
	some := []string{"Direct", "Method"}
	runs := []*c22Run{
		{name: "all changes", how: "module", cells: main},
		{name: "in place, two modules", how: "modules", cells: c22Grid(few, some), second: c22Grid([]string{"Str", "Unpanic", "Text"}, some), updateSecond: true, inPlace: true, spread: true},
		{name: "go.mod of one module", how: "gomod", cells: c22Grid(few, []string{"Assert"}), second: c22Grid([]string{"Str", "Grow"}, []string{"Local"}), spread: true},
		{name: "workspace", how: "module", cells: c22Grid(few, some), workspace: true, spread: true},
		{name: "go.work", how: "gowork", cells: c22Grid([]string{"Keep", "Str"}, some), second: c22Grid([]string{"Unpanic"}, []string{"Direct", "Loop", "Iface"}), updateSecond: true, workspace: true},
		{name: "old module", how: "gomod", cells: c22Grid([]string{"Int"}, []string{"Assert"}), second: c22Grid([]string{"Str", "Text", "Unpanic"}, []string{"Direct"}), updateSecond: true, secondGo: "1.12", inPlace: true},
		{name: "two old modules", how: "modules", cells: c22Grid([]string{"Int", "Panic"}, []string{"Direct"}), second: c22Grid([]string{"Str"}, []string{"Direct", "Local"}), updateSecond: true, firstGo: "1.12", secondGo: "1.12"},
		{name: "removed function", how: "module", cells: []c22Cell{{"Int", "Direct"}, {"Gone", "Direct"}, {"Str", "Direct"}, {"Keep", "Direct"}, {"Int", "Local"}, {"Panic", "Local"}}, spread: true},
		{name: "limits", how: "module", cells: c22Grid([]string{"Int", "Str", "Tail", "Slice", "Nest"}, []string{"Direct", "Local"}), recurse: 2, fieldLen: 4, inPlace: true},
	}
	if thorough {
		half := slices.DeleteFunc(slices.Clone(main), func(c c22Cell) bool { return c.shape == "Assert" || c.shape == "Routine" })
		runs = append(runs,
			&c22Run{name: "in place, two modules, more", how: "modules", cells: half[:len(half)/2], second: half[len(half)/2:], updateSecond: true, inPlace: true, spread: true},
			&c22Run{name: "go.mod of one module, more", how: "gomod", cells: half[len(half)/2:], second: half[:len(half)/2], spread: true},
			&c22Run{name: "go.work, more", how: "gowork", cells: half[len(half)/2:], second: half[:len(half)/2], updateSecond: true, workspace: true, spread: true},
			&c22Run{name: "old module, more", how: "modules", cells: half[len(half)/2:], second: half[:len(half)/2], updateSecond: true, secondGo: "1.12", spread: true})
		kinds = slices.DeleteFunc(kinds, func(k string) bool { return k == "Nil" }) // shown as a cut value
		for d := 1; d <= 5; d++ {
			runs = append(runs, &c22Run{name: fmt.Sprint("limits, depth ", d), how: "module", cells: c22Grid(kinds, []string{"Direct", "Method"}), recurse: d, fieldLen: 1 + d, inPlace: true})
		}
	}
	for _, r := range runs {
		r.thorough = thorough
	}
	return runs
}

func init() {
	vRegister("runs", func(c *vCtx) {
		runs := c22Runs(c.Thorough())
		if only := os.Getenv("C22_ONLY"); only != "" {
			runs = slices.DeleteFunc(runs, func(r *c22Run) bool { return !strings.Contains(r.name, only) })
		}
		if c.replay != nil {
			runs = slices.DeleteFunc(runs, func(r *c22Run) bool { return c.replay.ID != r.name && !strings.HasPrefix(c.replay.ID, r.name+" ") })
		}
		base := filepath.Join(vScratch(), "c22")
		vMust(os.MkdirAll(base, 0o755))
		tool, seed, goCmd := c22Tool(base)
		outs := make([]c22Out, len(runs))
		var wg sync.WaitGroup
		slots := make(chan struct{}, 3)
		for i, r := range runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				outs[i] = r.run(filepath.Join(base, fmt.Sprint("run", i)), tool, seed, goCmd)
			}()
		}
		wg.Wait()
		for i, r := range runs {
			out := &outs[i]
			if os.Getenv("C22_LOG") != "" {
				vMust(os.WriteFile(filepath.Join(os.Getenv("C22_LOG"), fmt.Sprint(i)), []byte(out.log), 0o644))
			}
			c.Case(r.name, func(x *vCase) {
				if out.err != "" {
					l := out.log
					if len(l) > 1500 {
						l = l[len(l)-1500:]
					}
					x.Fail("%s\n%s", out.err, l)
					return
				}
				r.judgeReport(x, out)
			})
			if out.err != "" {
				continue
			}
			var ids []string
			for id := range out.prog.tests {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				c.Case(r.name+" "+id, func(x *vCase) { r.judgeTest(x, out, id, out.prog.tests[id]) })
			}
		}
	})
}
