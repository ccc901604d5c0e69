package lens

// C14: the project functions and the tests that can reach a changed module function are found, each with the right
// changed functions and targets. Whole families of call graphs are rendered as Go projects and analysed by the real code.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

const c14Module = `package m

import "sort"

func M1(n int) int { return n + 1 }
func M2(n int) int { return n + 2 }
func U(n int) int  { return n }

func inner(n int) int { return n }
func Deep(n int) int { return deeper(n) }
func deeper(n int) int { return inner(n) }

type Box struct{ n int }

func (b *Box) Ptr() int { return b.n }
func (b Box) Val() int { return b.n }

type Bag struct{}

func (Bag) Val() int { return 4 }

type Face interface{ Do() int }
type impl struct{}

func (impl) Do() int { return 3 }
func NewFace() Face { return impl{} }

func Gen[T any](t T) T { return t }

func Apply(f func()) { f() }
func Each(l []int, f func(int) bool) {
	sort.Ints(l)
	for _, i := range l {
		if !f(i) {
			return
		}
	}
}

type Hook interface{ Hooked(n int) }

func Register(h Hook) { h.Hooked(1) }
`

type c14Project struct {
	dir   string
	files map[string]string
}

var c14N int

func c14New(gowork bool) *c14Project {
	c14N++
	p := &c14Project{dir: filepath.Join(vScratch(), fmt.Sprintf("c14-%d-%d", os.Getpid(), c14N)), files: map[string]string{}}
	p.files["m/go.mod"] = "module ex.org/m\n\ngo 1.23\n"
	p.files["m/m.go"] = c14Module
	if !gowork {
		p.files["prj/go.mod"] = "module ex.org/prj\n\ngo 1.23\n\nrequire ex.org/m v1.0.0\n\nreplace ex.org/m => ../m\n"
	}
	return p
}

func (p *c14Project) write() string {
	for f, s := range p.files {
		f = filepath.Join(p.dir, f)
		vMust(os.MkdirAll(filepath.Dir(f), 0o755))
		vMust(os.WriteFile(f, []byte(s), 0o644))
	}
	return filepath.Join(p.dir, "prj")
}

func c14Changes(names ...string) []*ModuleFunction {
	var out []*ModuleFunction
	for _, n := range names {
		out = append(out, &ModuleFunction{Function: Function{FunctionIdent: "ex.org/m:" + n, PackageName: "ex.org/m", FunctionName: n[strings.LastIndex(n, ".")+1:]}})
	}
	return out
}

func c14Keys(l []string) string { sort.Strings(l); return strings.Join(l, " ") }

type c14Result struct {
	callers map[string]*CallerFunction
	tests   map[string]*TestFunction
	reach   ReachableModuleChange
}

// c14Run analyses the project; the answers are checked for basic consistency.
func c14Run(x *vCase, dir string, changes []*ModuleFunction) *c14Result {
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	callers, reach, cg, _, _, err := CallerStaticAnalysis(changes, dir, "", "")
	if err != nil {
		panic(err)
	}
	_ = cg
	tests, err := TestStaticAnalysis(callers, dir, "", "")
	if err != nil {
		panic(err)
	}
	r := &c14Result{map[string]*CallerFunction{}, map[string]*TestFunction{}, reach}
	lines := map[string][]string{}
	check := func(f Function) {
		l, ok := lines[f.FilePath]
		if !ok {
			b, err := os.ReadFile(f.FilePath)
			if err != nil {
				x.Fail("%s: file %q: %v", f.FunctionIdent, f.FilePath, err)
				return
			}
			l = strings.Split(string(b), "\n")
			lines[f.FilePath] = l
		}
		if strings.Contains(strings.Join(l, "\n"), "\n//line ") {
			return // lines may be counted as the directives say
		}
		if n := int(f.EntryLineNumber); n < 1 || n > len(l) || !strings.Contains(l[n-1], "func ") || !strings.Contains(l[n-1], f.FunctionName) {
			x.Fail("%s: entry line %d of %s", f.FunctionIdent, f.EntryLineNumber, f.FilePath)
		}
	}
	for _, c := range callers {
		if r.callers[c.FunctionIdent] != nil {
			x.Fail("caller %s is listed twice", c.FunctionIdent)
		}
		r.callers[c.FunctionIdent] = c
		check(c.Function)
		x.Transitions(1)
	}
	for _, t := range tests {
		if r.tests[t.FunctionIdent] != nil {
			x.Fail("test %s is listed twice", t.FunctionIdent)
		}
		r.tests[t.FunctionIdent] = t
		check(t.Function)
		x.Transitions(1)
	}
	return r
}

func (r *c14Result) changesOf(ident string) string {
	c := r.callers[ident]
	if c == nil {
		return "-"
	}
	var l []string
	for _, f := range c.ChangeFunctions {
		l = append(l, strings.TrimPrefix(f.FunctionIdent, "ex.org/m:"))
	}
	return c14Keys(l)
}

func (r *c14Result) targetsOf(ident string) string {
	t := r.tests[ident]
	if t == nil {
		return "-"
	}
	var l []string
	for _, f := range t.Targets {
		l = append(l, f.FunctionIdent)
	}
	return c14Keys(l)
}

// reach computes which nodes are reachable from each node without passing through a blocked node.
func c14Reach(n int, edges func(i, j int) bool, blocked func(i int) bool) [][]bool {
	r := make([][]bool, n)
	for i := range r {
		r[i] = make([]bool, n)
		r[i][i] = true
		todo := []int{i}
		for len(todo) > 0 {
			k := todo[0]
			todo = todo[1:]
			if k != i && blocked(k) {
				continue
			}
			for j := 0; j < n; j++ {
				if edges(k, j) && !r[i][j] {
					r[i][j] = true
					todo = append(todo, j)
				}
			}
		}
	}
	return r
}

func init() {
	// every call graph of n functions, each calling any of the two changed functions
	vRegister("graphs", func(c *vCtx) {
		type family struct {
			n, chg, part, parts int
		}
		var fams []family
		for p := 0; p < 4; p++ {
			fams = append(fams, family{3, 2, p, 4})
		}
		if c.Thorough() {
			for p := 0; p < 16; p++ {
				fams = append(fams, family{4, 1, p, 16})
			}
		}
		for _, f := range fams {
			c.Case(fmt.Sprintf("graphs/%d-%d-%d", f.n, f.chg, f.part), func(x *vCase) {
				p := c14New(false)
				defer os.RemoveAll(p.dir)
				eb := f.n * (f.n - 1)
				total := 1 << (eb + f.n*f.chg)
				const perPkg = 256
				edge := func(g, i, j int) bool {
					if i == j {
						return false
					}
					k := i*(f.n-1) + j
					if j > i {
						k--
					}
					return g>>k&1 == 1
				}
				calls := func(g, i, m int) bool { return g>>(eb+i*f.chg+m)&1 == 1 }
				var graphs []int
				for g := f.part; g < total; g += f.parts {
					graphs = append(graphs, g)
				}
				pkgOf := func(k int) string { return fmt.Sprintf("g%d", k/perPkg) }
				var src, tst, ext strings.Builder
				flush := func(k int) {
					pkg := pkgOf(k)
					p.files["prj/"+pkg+"/g.go"] = "package " + pkg + "\n\nimport \"ex.org/m\"\n\nvar _ = m.U\n" + src.String()
					p.files["prj/"+pkg+"/g_test.go"] = "package " + pkg + "\n\nimport \"testing\"\n" + tst.String()
					p.files["prj/"+pkg+"/x_test.go"] = "package " + pkg + "_test\n\nimport (\n\t\"testing\"\n\n\t\"ex.org/prj/" + pkg + "\"\n)\n" + ext.String()
					src.Reset()
					tst.Reset()
					ext.Reset()
				}
				for k, g := range graphs {
					for i := 0; i < f.n; i++ {
						fmt.Fprintf(&src, "func G%d_%d(n int) int {\n\tif n > 0 {\n", g, i)
						for j := 0; j < f.n; j++ {
							if edge(g, i, j) {
								fmt.Fprintf(&src, "\t\tn += G%d_%d(n - 1)\n", g, j)
							}
						}
						for m := 0; m < f.chg; m++ {
							if calls(g, i, m) {
								fmt.Fprintf(&src, "\t\tn += m.M%d(n)\n", m+1)
							}
						}
						src.WriteString("\t\tn += m.U(n)\n\t}\n\treturn n\n}\n")
						if k%2 == 0 {
							fmt.Fprintf(&tst, "func TestG%d_%d(t *testing.T) { G%d_%d(2) }\n", g, i, g, i)
						} else {
							fmt.Fprintf(&ext, "func TestG%d_%d(t *testing.T) { %s.G%d_%d(2) }\n", g, i, pkgOf(k), g, i)
						}
					}
					if k%perPkg == perPkg-1 || k == len(graphs)-1 {
						flush(k)
					}
				}
				// an external test file needs a use of the package even without tests
				for fn, s := range p.files {
					if strings.HasSuffix(fn, "x_test.go") && !strings.Contains(s, "func Test") {
						delete(p.files, fn)
					}
					if strings.HasSuffix(fn, "/g_test.go") && !strings.Contains(s, "func Test") {
						delete(p.files, fn)
					}
				}
				var names []string
				for m := 0; m < f.chg; m++ {
					names = append(names, fmt.Sprintf("M%d", m+1))
				}
				r := c14Run(x, p.write(), c14Changes(append(names, "inner")...))
				if _, ok := r.reach["ex.org/m:inner"]; ok || len(r.reach) != f.chg {
					x.Fail("reachable changes %v", r.reach)
				}
				bad := 0
				wantCallers, wantTests := 0, 0
				for k, g := range graphs {
					x.States(1)
					x.Traces(1)
					reach := c14Reach(f.n, func(i, j int) bool { return edge(g, i, j) }, func(int) bool { return false })
					chg := make([]string, f.n)
					for i := 0; i < f.n; i++ {
						var l []string
						for m := 0; m < f.chg; m++ {
							for j := 0; j < f.n; j++ {
								if reach[i][j] && calls(g, j, m) {
									l = append(l, names[m])
									break
								}
							}
						}
						chg[i] = "-"
						if len(l) > 0 {
							chg[i] = c14Keys(l)
							wantCallers++
							wantTests++
						}
					}
					for i := 0; i < f.n; i++ {
						id := fmt.Sprintf("ex.org/prj/%s:G%d_%d", pkgOf(k), g, i)
						if got := r.changesOf(id); got != chg[i] {
							x.Fail("%s reaches changed functions %q, found %q (graph %d)", id, chg[i], got, g)
							bad++
						}
						tid := fmt.Sprintf("ex.org/prj/%s:TestG%d_%d", pkgOf(k), g, i)
						if k%2 == 1 {
							tid = fmt.Sprintf("ex.org/prj/%s_test:TestG%d_%d", pkgOf(k), g, i)
						}
						want := "-"
						if chg[i] != "-" {
							var l []string
							for j := 0; j < f.n; j++ {
								if reach[i][j] && chg[j] != "-" {
									l = append(l, fmt.Sprintf("ex.org/prj/%s:G%d_%d", pkgOf(k), g, j))
								}
							}
							want = c14Keys(l)
						}
						if got := r.targetsOf(tid); got != want {
							x.Fail("%s targets %q, found %q (graph %d)", tid, want, got, g)
							bad++
						}
						if bad > 3 {
							return
						}
					}
				}
				if len(r.callers) != wantCallers || len(r.tests) != wantTests {
					x.Fail("%d callers and %d tests, want %d and %d", len(r.callers), len(r.tests), wantCallers, wantTests)
				}
			})
		}
	})

	// program entry functions: every graph of main and two functions; nothing is reported through main
	vRegister("roots", func(c *vCtx) {
		parts := 2
		for part := 0; part < parts; part++ {
			c.Case(fmt.Sprintf("roots/%d", part), func(x *vCase) {
				p := c14New(false)
				defer os.RemoveAll(p.dir)
				const n = 3
				edge := func(g, i, j int) bool {
					if i == j {
						return false
					}
					k := i*2 + j
					if j > i {
						k--
					}
					return g>>k&1 == 1
				}
				mcall := func(g, i int) bool { return g>>(6+i)&1 == 1 }
				name := []string{"main", "F1", "F2"}
				mask := 1 << 9
				var graphs []int
				for g := part; g < mask; g += parts {
					if !c.Thorough() && g>>6 != 2 && g>>6 != 4 && g>>6 != 1 {
						continue // one caller of the changed function
					}
					graphs = append(graphs, g)
				}
				for _, g := range graphs {
					var s, t strings.Builder
					s.WriteString("package main\n\nimport \"ex.org/m\"\n\nvar depth int\n\nfunc init() { F1(); F2() }\n\n")
					t.WriteString("package main\n\nimport \"testing\"\n\n")
					for i := 0; i < n; i++ {
						fmt.Fprintf(&s, "func %s() {\n\tif depth++; depth > 9 {\n\t\treturn\n\t}\n", name[i])
						for j := 0; j < n; j++ {
							if edge(g, i, j) {
								fmt.Fprintf(&s, "\t%s()\n", name[j])
							}
						}
						if mcall(g, i) {
							s.WriteString("\tm.M1(1)\n")
						}
						s.WriteString("\tm.U(1)\n}\n")
						fmt.Fprintf(&t, "func Test_%s(t *testing.T) { %s() }\n", name[i], name[i])
					}
					p.files[fmt.Sprintf("prj/r%d/r.go", g)] = s.String()
					p.files[fmt.Sprintf("prj/r%d/r_test.go", g)] = t.String()
				}
				r := c14Run(x, p.write(), c14Changes("M1"))
				for _, g := range graphs {
					x.States(1)
					x.Traces(1)
					reach := c14Reach(n, func(i, j int) bool { return edge(g, i, j) }, func(i int) bool { return i == 0 })
					pkg := fmt.Sprintf("ex.org/prj/r%d", g)
					caller := func(i int) bool {
						if i == 0 {
							return false
						}
						for j := 0; j < n; j++ {
							// the call may not happen inside main, unless main is the function itself
							if reach[i][j] && mcall(g, j) && j != 0 {
								return true
							}
						}
						return false
					}
					for i := 0; i < n; i++ {
						want, wantT := "-", "-"
						if caller(i) {
							want = "M1"
						}
						if got := r.changesOf(pkg + ":" + name[i]); got != want {
							x.Fail("%s:%s reaches %q, found %q", pkg, name[i], want, got)
						}
						if i > 0 {
							var l []string
							for j := 1; j < n; j++ {
								if reach[i][j] && caller(j) {
									l = append(l, pkg+":"+name[j])
								}
							}
							if len(l) > 0 {
								wantT = c14Keys(l)
							}
							if got := r.targetsOf(pkg + ":Test_" + name[i]); got != wantT {
								x.Fail("%s:Test_%s targets %q, found %q", pkg, name[i], wantT, got)
							}
						}
					}
				}
			})
		}
	})

	// every way of calling a function, in every combination of two
	vRegister("forms", func(c *vCtx) {
		forms := c14Forms()
		targets := []struct{ name, call, chg string }{
			{"fn", "m.M1(1)", "M1"}, {"deep", "m.Deep(1)", "inner"}, {"ptr", "new(m.Box).Ptr()", "*Box.Ptr"}, {"val", "new(m.Box).Val()", "Box.Val"}, {"both", "m.Bag{}.Val() + new(m.Box).Val()", "Box.Val"}, {"bag", "m.Bag{}.Val() + new(m.Box).Val()", "Bag.Val"},
			{"face", "m.NewFace().Do()", "impl.Do"}, {"gen", "m.Gen(1)", "Gen"}, {"geni", "m.Gen[string](\"\")", "Gen"},
		}
		for part := 0; part < 4; part++ {
			c.Case(fmt.Sprintf("forms %d", part), func(x *vCase) {
				p := c14New(false)
				defer os.RemoveAll(p.dir)
				type fn struct{ id, pkg, chg, inner string }
				var all []fn
				add := func(pkg, id, body, chg, inner string) {
					p.files["prj/"+pkg+"/f.go"] = "package " + pkg + "\n\nimport (\n\t\"sort\"\n\t\"strings\"\n\t\"sync\"\n\n\t\"ex.org/m\"\n)\n\nvar _ = sort.Ints\nvar _ = strings.Map\nvar _ sync.Once\nvar _ = m.U\n" + body
					p.files["prj/"+pkg+"/f_test.go"] = "package " + pkg + "\n\nimport \"testing\"\n\nfunc TestTop(t *testing.T) { Top() }\n\nfunc TestSub(t *testing.T) {\n\tt.Run(\"x\", func(t *testing.T) { Top() })\n}\n\nfunc helper() { Top() }\n\nfunc TestHelper(t *testing.T) { helper() }\n\nfunc TestNot(t *testing.T) {}\n"
					all = append(all, fn{id, pkg, chg, inner})
				}
				for _, t := range targets {
					add("t"+t.name, "target "+t.name, "\nfunc Top() { _ = "+t.call+" }\n", t.chg, "")
				}
				add("tends", "ends in panic", "\nfunc Top() {\n\tdefer func() { recover() }()\n\t_ = Inner()\n}\n\nfunc Inner() int {\n\tn := m.M1(1) + m.Bag{}.Val() + new(m.Box).Val() + m.Gen(1)\n\tpanic(n)\n}\n", "M1", "Inner")
				for i, f := range forms {
					if i%4 != part {
						continue
					}
					add(fmt.Sprintf("s%d", i), "form "+f[0], c14Form(f, "Top", "m.M1(1)"), "M1", "")
					for j, g := range forms {
						if !c.Thorough() && (i+j)%3 != 0 && i != j {
							continue
						}
						add(fmt.Sprintf("d%d_%d", i, j), "form "+f[0]+" of "+g[0], c14Form(f, "Top", "Inner()")+c14Form(g, "Inner", "m.M1(1)"), "M1", "Inner")
					}
				}
				r := c14Run(x, p.write(), c14Changes("M1", "inner", "*Box.Ptr", "Box.Val", "Bag.Val", "impl.Do", "Gen"))
				inPkg := map[string][]string{}
				for id, cf := range r.callers {
					inPkg[cf.PackageName] = append(inPkg[cf.PackageName], id)
					if want := id == "ex.org/prj/tends:Inner"; cf.ReturnPanic != want {
						x.Fail("%s: can only panic: %v, want %v", id, cf.ReturnPanic, want)
					}
				}
				for _, f := range all {
					x.States(1)
					x.Traces(1)
					pre := "ex.org/prj/" + f.pkg + ":"
					names := []string{"Top"}
					if f.inner != "" {
						names = append(names, f.inner)
					}
					for _, n := range names {
						if got := r.changesOf(pre + n); !strings.Contains(" "+got+" ", " "+f.chg+" ") {
							x.Fail("%s: %s calls changed function %s, found %q", f.id, n, f.chg, got)
						}
						for _, t := range []string{"TestTop", "TestSub", "TestHelper"} {
							if got := r.targetsOf(pre + t); !strings.Contains(" "+got+" ", " "+pre+n+" ") {
								x.Fail("%s: %s reaches %s, found targets %q", f.id, t, n, got)
							}
						}
					}
					for _, m := range c14Method.FindAllStringSubmatch(p.files["prj/"+f.pkg+"/f.go"], -1) {
						if id := pre + m[1] + "." + m[2]; r.callers[id] == nil {
							x.Fail("%s: %s calls a changed function", f.id, id)
						}
					}
					for _, id := range inPkg[strings.TrimSuffix(pre, ":")] { // all of the package's functions are used by Top
						for _, t := range []string{"TestTop", "TestSub", "TestHelper"} {
							if got := r.targetsOf(pre + t); !strings.Contains(" "+got+" ", " "+id+" ") {
								x.Fail("%s: %s reaches %s, found targets %q", f.id, t, id, got)
							}
						}
					}
					if r.tests[pre+"TestNot"] != nil {
						x.Fail("%s: a test that calls nothing is listed", f.id)
					}
				}
			})
		}
	})

	// a method of an unexported type that is only ever called through a type parameter
	vRegister("constraint", func(c *vCtx) {
		c.Case("unexported", func(x *vCase) {
			p := c14New(false)
			defer os.RemoveAll(p.dir)
			p.files["prj/u/u.go"] = "package u\n\nimport \"ex.org/m\"\n\ntype t struct{}\n\nfunc (t) do() { m.M1(1) }\n\nfunc run[T interface{ do() }](v T) { v.do() }\n\nfunc Top() { run(t{}) }\n"
			p.files["prj/u/u_test.go"] = "package u\n\nimport \"testing\"\n\nfunc TestTop(t *testing.T) { Top() }\n"
			r := c14Run(x, p.write(), c14Changes("M1"))
			x.States(1)
			x.Traces(1)
			if got := r.changesOf("ex.org/prj/u:Top"); !strings.Contains(" "+got+" ", " M1 ") {
				x.Fail("Top calls changed function M1 through a method of an unexported type and a type parameter, found %q", got)
			}
		})
	})

	// which functions count as tests, which files count
	vRegister("kinds", func(c *vCtx) {
		c.Case("kinds", func(x *vCase) {
			p := c14New(false)
			defer os.RemoveAll(p.dir)
			p.files["prj/k/k.go"] = "package k\n\nimport \"ex.org/m\"\n\nfunc F() int { return m.M1(1) }\n\nfunc P() int { m.M1(2); panic(1) }\n\nfunc Loop() int {\n\tfor {\n\t\tm.M1(3)\n\t}\n}\n\nfunc Mixed(b bool) int {\n\tif b {\n\t\treturn m.M1(1)\n\t}\n\tpanic(2)\n}\n\nfunc NoRes() { m.M1(1); panic(3) }\n"
			p.files["prj/k/x_gen.go"] = "package k\n\nfunc Generated() int { return F() }\n"
			p.files["prj/k/y.pb.go"] = "package k\n\nfunc GeneratedPb() int { return F() }\n"
			near := []string{}
			for i, f := range []string{"hammock.go", "a_Mock.go", "regen.go", "mock.go", "gen.go", "pb.go", "a_pb.go", "a_gen_x.go", "a.gen.b.go", "a_grpc.go"} {
				p.files["prj/k/"+f] = fmt.Sprintf("package k\n\nfunc Near%d() int { return F() }\n", i)
				near = append(near, fmt.Sprint("k:Near", i))
			}
			p.files["prj/k/over.go"] = "package k\n\nfunc Over() int { return Generated() }\n"
			p.files["prj/k/tag.go"] = "//go:build neverever\n\npackage k\n\nfunc Tagged() int { return F() }\n"
			p.files["prj/k/k_windows.go"] = "package k\n\nfunc Win() int { return F() }\n"
			p.files["prj/k/k_test.go"] = `package k

import "testing"

type suite struct{}

type T = testing.T

func Test(t *testing.T) { F() }
func Test_x(t *testing.T) { F() }
func Test1(t *testing.T) { F() }
func TestÄ(t *testing.T) { F() }
func TestAlias(t *T) { F() }
func Testlower(t *testing.T) { F() }
func TestCallsLower(t *testing.T) { Testlower(t) }
func (suite) TestMethod(t *testing.T) { F() }
func TestCallsMethod(t *testing.T) { suite{}.TestMethod(t) }
func BenchmarkF(b *testing.B) { F() }
func testSmall(t *testing.T) { F() }
func ExampleF() { F() }
func TestMain(m *testing.M) { F(); m.Run() }
func TestOver(t *testing.T) { Over() }
func TestNone(t *testing.T) {}
`
			p.files["prj/k/z_test.go"] = "package k_test\n\nimport (\n\t\"testing\"\n\n\t\"ex.org/prj/k\"\n)\n\nfunc TestExt(t *testing.T) { help(t) }\n\nfunc help(t *testing.T) { k.F() }\n"
			p.files["prj/other/other_test.go"] = "package other\n\nimport (\n\t\"testing\"\n\n\t\"ex.org/prj/k\"\n)\n\nfunc TestOther(t *testing.T) { k.Mixed(true) }\n"
			p.files["prj/other/other.go"] = "package other\n\nfunc NotTestFile() {}\n"
			p.files["prj/notest/n.go"] = "package notest\n\nimport (\n\t\"testing\"\n\n\t\"ex.org/prj/k\"\n)\n\nfunc TestInNormalFile(t *testing.T) { k.F() }\n"
			// a function of the module that is called back, and one that the module calls
			p.files["prj/cb/cb.go"] = "package cb\n\nimport \"ex.org/m\"\n\ntype h struct{}\n\nfunc (h) Hooked(n int) { m.M2(n) }\n\nfunc Reg() { m.Register(h{}) }\n"
			r := c14Run(x, p.write(), c14Changes("M1", "M2", "Register"))
			var got []string
			for id := range r.callers {
				got = append(got, strings.TrimPrefix(id, "ex.org/prj/"))
			}
			want := []string{"k:F", "k:P", "k:Loop", "k:Mixed", "k:NoRes", "k:Over", "notest:TestInNormalFile", "cb:h.Hooked", "cb:Reg"}
			want = append(want, near...)
			if c14Keys(got) != c14Keys(want) {
				x.Fail("callers\n%v\nwant\n%v", got, want)
			}
			got = nil
			for id := range r.tests {
				got = append(got, strings.TrimPrefix(id, "ex.org/prj/"))
			}
			want = []string{"k:Test", "k:Test_x", "k:Test1", "k:TestÄ", "k:TestCallsLower", "k:TestCallsMethod", "k:TestOver", "k_test:TestExt", "other:TestOther"}
			got2 := got[:0]
			for _, g := range got {
				if g != "k:TestAlias" { // an alias of testing.T may or may not be recognised
					got2 = append(got2, g)
				}
			}
			if c14Keys(got2) != c14Keys(want) {
				x.Fail("tests\n%v\nwant\n%v", got2, want)
			}
			for id, want := range map[string]bool{"k:F": false, "k:P": true, "k:Loop": false, "k:Mixed": false, "k:NoRes": false} {
				if cf := r.callers["ex.org/prj/"+id]; cf != nil && cf.ReturnPanic != want {
					x.Fail("%s always panics: %v", id, cf.ReturnPanic)
				}
			}
			for id, want := range map[string]string{"cb:Reg": "M2 Register", "cb:h.Hooked": "M2", "k:Over": "M1"} {
				if got := r.changesOf("ex.org/prj/" + id); got != want {
					x.Fail("%s reaches %q, found %q", id, want, got)
				}
			}
			x.States(1)
			x.Traces(1)
		})
		c.Case("cgo", func(x *vCase) {
			if _, err := exec.LookPath("gcc"); err != nil {
				return
			}
			p := c14New(false)
			defer os.RemoveAll(p.dir)
			p.files["prj/l/l.go"] = "package l\n\n// int one(void) { return 1; }\nimport \"C\"\n\nimport \"ex.org/m\"\n\nfunc A() int { return m.M1(int(C.one())) }\n"
			p.files["prj/l/l_test.go"] = "package l\n\nimport \"testing\"\n\nfunc TestA(t *testing.T) { A() }\n"
			dir := p.write()
			r := c14Run(x, dir, c14Changes("M1"))
			if cf := r.callers["ex.org/prj/l:A"]; cf == nil || filepath.Base(cf.FilePath) != "l.go" || r.tests["ex.org/prj/l:TestA"] == nil {
				x.Fail("A calls the changed function and is tested, found callers %v, tests %v", r.callers, r.tests)
			}
			x.States(1)
			x.Traces(1)
		})
		// line directives, as written by generators
		for i, to := range []string{"gone.y:7", "here.y:3", "/nowhere/else.y:1", "other.go:5", "l.go:900", "../out.go:1"} {
			c.Case("line "+to, func(x *vCase) {
				p := c14New(false)
				defer os.RemoveAll(p.dir)
				p.files["prj/l/here.y"] = "%%\n"
				p.files["prj/l/other.go"] = "package l\n\nfunc Other() {}\n"
				if i == 3 { // a name which is not the one of a file compiled here
					p.files["prj/l/other.go"] = "//go:build never\n\n" + p.files["prj/l/other.go"]
				}
				p.files["prj/l/l.go"] = "package l\n\nimport \"ex.org/m\"\n\nfunc A() int { return m.M1(1) }\n\n//line " + to + "\nfunc B() int {\n\treturn m.M1(1)\n}\n"
				p.files["prj/l/l_test.go"] = "package l\n\nimport \"testing\"\n\n//line " + to + "\nfunc TestA(t *testing.T) { A() }\n\nfunc TestB(t *testing.T) { B() }\n"
				dir := p.write()
				r := c14Run(x, dir, c14Changes("M1"))
				for _, n := range []string{"A", "B"} {
					cf := r.callers["ex.org/prj/l:"+n]
					if cf == nil {
						x.Fail("%s calls the changed function, found callers %v", n, len(r.callers))
					} else if b, err := os.ReadFile(cf.FilePath); err != nil || !strings.Contains(string(b), "func "+n+"()") {
						x.Fail("%s is said to be in %s", n, cf.FilePath)
					}
					tf := r.tests["ex.org/prj/l:Test"+n]
					if tf == nil {
						x.Fail("Test%s reaches it, found tests %v", n, len(r.tests))
					} else if b, err := os.ReadFile(tf.FilePath); err != nil || !strings.Contains(string(b), "func Test"+n+"(") {
						x.Fail("Test%s is said to be in %s", n, tf.FilePath)
					}
				}
				x.States(1)
				x.Traces(1)
			})
		}
		// a workspace of two modules
		c.Case("workspace", func(x *vCase) {
			p := c14New(true)
			defer os.RemoveAll(p.dir)
			p.files["prj/go.work"] = "go 1.23\n\nuse (\n\t./a\n\t./b\n\t../m\n)\n"
			p.files["prj/a/go.mod"] = "module ex.org/a\n\ngo 1.23\n"
			p.files["prj/b/go.mod"] = "module ex.org/b\n\ngo 1.23\n"
			p.files["prj/a/a.go"] = "package a\n\nimport \"ex.org/m\"\n\nfunc A() int { return m.M1(1) }\n"
			p.files["prj/b/b.go"] = "package b\n\nimport \"ex.org/a\"\n\nfunc B() int { return a.A() }\n"
			p.files["prj/b/b_test.go"] = "package b\n\nimport \"testing\"\n\nfunc TestB(t *testing.T) { B() }\n"
			dir := p.write()
			os.Unsetenv("GOFLAGS")
			callers, _, _, _, _, err := CallerStaticAnalysis(c14Changes("M1"), dir, "", "")
			if err != nil {
				panic(err)
			}
			tests, err := TestStaticAnalysis(callers, dir, "", "")
			if err != nil {
				panic(err)
			}
			var got []string
			for _, f := range callers {
				got = append(got, f.FunctionIdent)
			}
			if c14Keys(got) != "ex.org/a:A ex.org/b:B" {
				x.Fail("callers %v", got)
			}
			if len(tests) != 1 || tests[0].FunctionIdent != "ex.org/b:TestB" || len(tests[0].Targets) != 2 {
				x.Fail("tests %+v", tests)
			}
			x.States(1)
			x.Traces(1)
		})
	})
}

var c14Method = regexp.MustCompile(`func \((?:\w+ )?(\*?\w+(?:\[T\])?)\) (do|Hooked)\(`)

// c14Forms lists ways of calling: the declaration of a function NAME that executes CALL.
func c14Forms() [][2]string {
	return [][2]string{
		{"direct", "func NAME() { CALL }"},
		{"method", "type tNAME struct{}\nfunc (tNAME) do() { CALL }\nfunc NAME() { tNAME{}.do() }"},
		{"pointer method", "type tNAME struct{ n int }\nfunc (t *tNAME) do() { CALL }\nfunc NAME() { (&tNAME{}).do() }"},
		{"interface", "type tNAME struct{ n int }\nfunc (t *tNAME) do() { CALL }\nfunc NAME() { var i interface{ do() } = &tNAME{}; i.do() }"},
		{"interface by value", "type tNAME struct{}\nfunc (t tNAME) do() { CALL }\nfunc NAME() { var i interface{ do() } = &tNAME{}; i.do() }"},
		{"embedded", "type bNAME struct{}\nfunc (bNAME) do() { CALL }\ntype tNAME struct{ bNAME }\nfunc NAME() { tNAME{}.do() }"},
		{"embedded interface", "type bNAME struct{}\nfunc (bNAME) do() { CALL }\ntype iNAME interface{ do() }\ntype uNAME struct{ iNAME }\nfunc NAME() { uNAME{bNAME{}}.do() }"},
		{"method value", "type tNAME struct{}\nfunc (tNAME) do() { CALL }\nfunc NAME() { f := tNAME{}.do; f() }"},
		{"method expression", "type tNAME struct{}\nfunc (tNAME) do() { CALL }\nfunc NAME() { f := tNAME.do; f(tNAME{}) }"},
		{"closure called", "func NAME() { func() { CALL }() }"},
		{"closure variable", "func NAME() { f := func() { CALL }; f() }"},
		{"closure returned", "func mkNAME() func() { return func() { CALL } }\nfunc NAME() { mkNAME()() }"},
		{"go", "func NAME() { go func() { CALL }() }"},
		{"defer", "func NAME() { defer func() { CALL }() }"},
		{"function value", "func doNAME() { CALL }\nfunc NAME() { f := doNAME; f() }"},
		{"function parameter", "func doNAME() { CALL }\nfunc runNAME(f func()) { f() }\nfunc NAME() { runNAME(doNAME) }"},
		{"package variable", "func doNAME() { CALL }\nvar vNAME = doNAME\nfunc NAME() { vNAME() }"},
		{"struct field", "type tNAME struct{ f func() }\nfunc NAME() { t := tNAME{f: func() { CALL }}; t.f() }"},
		{"map", "func NAME() { t := map[string]func(){\"a\": func() { CALL }}; t[\"a\"]() }"},
		{"slice", "func NAME() { for _, f := range []func(){func() { CALL }} { f() } }"},
		{"channel", "func NAME() { c := make(chan func(), 1); c <- func() { CALL }; (<-c)() }"},
		{"generic", "func doNAME[T any](t T) { CALL }\nfunc NAME() { doNAME(1) }"},
		{"generic method", "type tNAME[T any] struct{}\nfunc (tNAME[T]) do() { CALL }\nfunc NAME() { tNAME[int]{}.do() }"},
		{"generic constraint", "type XNAME struct{}\nfunc (XNAME) do() { CALL }\nfunc runNAME[T interface{ do() }](t T) { t.do() }\nfunc NAME() { runNAME(XNAME{}) }"},
		{"module callback", "func NAME() { m.Apply(func() { CALL }) }"},
		{"module callback function", "func doNAME() { CALL }\nfunc NAME() { m.Apply(doNAME) }"},
		{"module callback in loop", "func NAME() { m.Each([]int{1}, func(i int) bool { CALL; return true }) }"},
		{"module hook", "type tNAME struct{}\nfunc (tNAME) Hooked(n int) { CALL }\nfunc NAME() { m.Register(tNAME{}) }"},
		{"sort", "func NAME() { l := []int{2, 1}; sort.Slice(l, func(i, j int) bool { CALL; return l[i] < l[j] }) }"},
		{"strings.Map", "func NAME() { strings.Map(func(r rune) rune { CALL; return r }, \"a\") }"},
		{"once", "func NAME() { var o sync.Once; o.Do(func() { CALL }) }"},
		{"range over function", "func seqNAME(yield func(int) bool) { CALL; yield(1) }\nfunc NAME() { for range seqNAME { } }"},
		{"range body", "func seqNAME(yield func(int) bool) { yield(1) }\nfunc NAME() { for range seqNAME { CALL } }"},
		{"argument", "func idNAME(n int) int { return n }\nfunc vNAME() int { CALL; return 1 }\nfunc NAME() { _ = idNAME(vNAME()) }"},
		{"recursion", "func NAME() { recNAME(3) }\nfunc recNAME(n int) { if n > 0 { rec2NAME(n - 1) } else { CALL } }\nfunc rec2NAME(n int) { recNAME(n) }"},
		{"deferred method", "type tNAME struct{}\nfunc (tNAME) do() { CALL }\nfunc NAME() { defer tNAME{}.do() }"},
		{"go function", "func doNAME() { CALL }\nfunc NAME() { go doNAME() }"},
		{"type switch", "type tNAME struct{}\nfunc (tNAME) do() { CALL }\nfunc NAME() { var a any = tNAME{}; switch v := a.(type) { case interface{ do() }: v.do() } }"},
		{"nested closures", "func NAME() { func() { func() { CALL }() }() }"},
		{"if statement", "func NAME() { if true { CALL } else { _ = 1 } }"},
		{"select", "func NAME() { select { default: CALL } }"},
		{"switch", "func NAME() { switch { case false: default: CALL } }"},
	}
}

func c14Form(f [2]string, name, call string) string {
	return "\n" + strings.ReplaceAll(strings.ReplaceAll(f[1], "NAME", name), "CALL", call) + "\n"
}
