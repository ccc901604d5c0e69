package lens

// C12: which functions of an updated module changed. Pairs of module versions are rendered from tables of declarations
// and analysed by the real code from a module cache.

import (
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

var c12N int

type c12Cache struct {
	dir   string
	files map[string]string
}

func c12New() *c12Cache {
	c12N++
	return &c12Cache{dir: filepath.Join(vScratch(), fmt.Sprintf("c12-%d-%d", os.Getpid(), c12N)), files: map[string]string{}}
}

// c12Escape is the form of paths and versions in the module cache.
func c12Escape(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'A' && r <= 'Z' {
			b.WriteString("!" + strings.ToLower(string(r)))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// mod adds a file of a module version; its go.mod is also put where the go command looks for it.
func (c *c12Cache) mod(mod, ver, file, text string) {
	plain := ver
	mod, ver = c12Escape(mod), c12Escape(ver)
	c.files["mod/"+mod+"@"+ver+"/"+file] = text
	if file == "go.mod" {
		c.files["mod/cache/download/"+mod+"/@v/"+ver+".mod"] = text
		c.files["mod/cache/download/"+mod+"/@v/"+ver+".info"] = "{\"Version\":\"" + plain + "\",\"Time\":\"2020-01-01T00:00:00Z\"}"
	}
}

func (c *c12Cache) write() string {
	for f, s := range c.files {
		f = filepath.Join(c.dir, f)
		vMust(os.MkdirAll(filepath.Dir(f), 0o755))
		vMust(os.WriteFile(f, []byte(s), 0o644))
	}
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	os.Setenv("GONOSUMDB", "*")
	os.Setenv("GONOSUMCHECK", "1")
	return filepath.Join(c.dir, "mod")
}

// c12Tokens is the text without white space and comments.
func c12Tokens(src string) string {
	var s scanner.Scanner
	fs := token.NewFileSet()
	s.Init(fs.AddFile("", fs.Base(), len(src)), []byte(src), func(p token.Position, m string) { panic(m + " in " + src) }, 0)
	var b strings.Builder
	for {
		_, t, l := s.Scan()
		if t == token.EOF {
			return b.String()
		}
		if t == token.SEMICOLON {
			l = ";"
		}
		b.WriteString(t.String() + "\x00" + l + "\x01")
	}
}

// bodies of a function with parameter n, each a distinct program text
var c12Bodies = []string{
	"return n", "return n + 1", "return n + 2", "return 1 + n", "return -n", "return n * 1", "return (n)",
	"n++\n\treturn n", "n++\n\tn++\n\treturn n", "return n\n\tn++",
	"if n > 1 {\n\t\treturn 1\n\t}\n\treturn n", "if n >= 1 {\n\t\treturn 1\n\t}\n\treturn n", "if n > 1 {\n\t\treturn 1\n\t} else {\n\t\treturn n\n\t}",
	"for i := 0; i < n; i++ {\n\t\tn--\n\t}\n\treturn n", "for i := 0; i < n; i++ {\n\t\tn++\n\t}\n\treturn n", "for i := 1; i < n; i++ {\n\t\tn--\n\t}\n\treturn n",
	"switch n {\n\tcase 1:\n\t\treturn 2\n\t}\n\treturn n", "switch n {\n\tcase 2:\n\t\treturn 1\n\t}\n\treturn n", "switch n {\n\tcase 1:\n\t\treturn 2\n\tdefault:\n\t\treturn 3\n\t}\n\treturn n",
	"f := func() int { return n }\n\treturn f()", "f := func() int { return n + 1 }\n\treturn f()", "f := func() int {\n\t\treturn n\n\t}\n\tg := f\n\treturn g()",
	"defer use(n)\n\treturn n", "go use(n)\n\treturn n", "use(n)\n\treturn n", "use(\"a\")\n\treturn n", "use(\"b\")\n\treturn n", "use(`a`)\n\treturn n", "use(\"a // b\")\n\treturn n", "use(\"a\\nb\")\n\treturn n", "use(`a\nb`)\n\treturn n", "use(`a\n\tb`)\n\treturn n",
	"use('a')\n\treturn n", "use(0x10)\n\treturn n", "use(16)\n\treturn n", "use(1.5)\n\treturn n",
	"var s struct{ a, b int }\n\tuse(s)\n\treturn n", "var s struct{ b, a int }\n\tuse(s)\n\treturn n", "const k = 1\n\treturn n + k", "const k = 2\n\treturn n + k",
	"panic(n)", "panic(1)", "var a [1]int\n\treturn a[n]", "x, y := n, 1\n\treturn x + y", "x, y := 1, n\n\treturn x + y",
}

type c12Kind struct {
	name string
	decl func(name, body string) string // declaration of the function named name
	id   func(name string) string
	pre  func(name string) string // declarations it needs
}

func c12Kinds() []c12Kind {
	none := func(string) string { return "" }
	same := func(n string) string { return n }
	return []c12Kind{
		{"function", func(n, b string) string { return "func " + n + "(n int) int {\n\t" + b + "\n}" }, same, none},
		{"value method", func(n, b string) string { return "func (r T" + n + ") Do(n int) int {\n\t" + b + "\n}" }, func(n string) string { return "T" + n + ".Do" }, func(n string) string { return "type T" + n + " struct{}\n" }},
		{"pointer method", func(n, b string) string { return "func (r *T" + n + ") Do(n int) int {\n\t" + b + "\n}" }, func(n string) string { return "*T" + n + ".Do" }, func(n string) string { return "type T" + n + " int\n" }},
		{"no receiver name", func(n, b string) string { return "func (T" + n + ") Do(n int) int {\n\t" + b + "\n}" }, func(n string) string { return "T" + n + ".Do" }, func(n string) string { return "type T" + n + " func()\n" }},
		{"generic function", func(n, b string) string { return "func " + n + "[A any](n int) int {\n\t" + b + "\n}" }, same, none},
		{"named results", func(n, b string) string { return "func " + n + "(n int) (res int) {\n\t" + b + "\n}" }, same, none},
		{"unexported", func(n, b string) string { return "func l" + n + "(n int) int {\n\t" + b + "\n}" }, func(n string) string { return "l" + n }, none},
	}
}

type c12Want struct {
	old     string // old declaration
	changed bool
	what    string
}

// c12Check compares the reported functions of one module with the wanted ones.
func c12Check(x *vCase, root, ver string, got []*ModuleFunction, mc *ModuleChange, want map[string]c12Want) {
	seen := map[string]bool{}
	for _, f := range got {
		x.Transitions(1)
		w, ok := want[f.FunctionIdent]
		if seen[f.FunctionIdent] {
			x.Fail("%s is reported twice (%s)", f.FunctionIdent, w.what)
		}
		seen[f.FunctionIdent] = true
		if !ok || !w.changed {
			x.Fail("%s is reported as changed: %s\nold:\n%s\nreported:\n%s", f.FunctionIdent, w.what, w.old, f.Definition)
			continue
		}
		if c12Tokens(f.Definition) != c12Tokens(w.old) {
			x.Fail("%s: definition is not the one of the old version (%s)\nold:\n%s\nreported:\n%s", f.FunctionIdent, w.what, w.old, f.Definition)
		}
		if f.Module == nil || f.Module.Name != mc.Name || f.Module.PriorVersion != mc.PriorVersion || f.Module.NewVersion != mc.NewVersion || f.Module.Indirect != mc.Indirect {
			x.Fail("%s: module %+v", f.FunctionIdent, f.Module)
		}
		if !strings.HasPrefix(f.FilePath, filepath.Join(root, mc.Name+"@"+ver)+"/") {
			x.Fail("%s: file %s is not of the old version", f.FunctionIdent, f.FilePath)
		}
		text, err := os.ReadFile(f.FilePath)
		if err != nil {
			x.Fail("%s: %v", f.FunctionIdent, err)
			continue
		}
		lines := strings.Split(string(text), "\n")
		first := strings.SplitN(w.old, "\n", 2)[0]
		if l := int(f.EntryLineNumber); l < 1 || l > len(lines) || lines[l-1] != first {
			x.Fail("%s: entry line %d is not %q", f.FunctionIdent, l, first)
		} else {
			var rets []string // lines with a return statement outside of closures
			for i, s := range strings.Split(w.old, "\n") {
				if t := strings.TrimSpace(s); strings.HasPrefix(t, "return") && !strings.HasPrefix(s, "\t\treturn n//lit") {
					rets = append(rets, fmt.Sprint(l+i))
				}
			}
			var gr []string
			for _, r := range f.ReturnPoints {
				gr = append(gr, fmt.Sprint(r.Line))
			}
			if !strings.Contains(w.old, "func() int {\n") && strings.Join(gr, " ") != strings.Join(rets, " ") {
				x.Fail("%s: return lines %v want %v\n%s", f.FunctionIdent, gr, rets, w.old)
			}
		}
		if n := len(strings.Split(f.Definition, "\n")); len(f.LineChangeBitmap) != n {
			x.Fail("%s: %d lines and a bitmap of %d", f.FunctionIdent, n, len(f.LineChangeBitmap))
		}
		any := false
		for _, b := range f.LineChangeBitmap {
			any = any || b
		}
		if !any {
			x.Fail("%s: no line is marked as changed (%s)\n%s", f.FunctionIdent, w.what, f.Definition)
		}
	}
	var ids []string
	for id, w := range want {
		x.States(1)
		if w.changed && !seen[id] {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		x.Fail("%s changed and is not reported: %s\nold:\n%s", id, want[id].what, want[id].old)
	}
}

const c12Head = "\n\nfunc use(a ...any) {}\n"

func init() {
	// every kind of module path and version
	vRegister("names", func(c *vCtx) {
		vers := []string{"v1.0.0", "v1.0.1-rc.1", "v1.0.1-RC.1", "v1.2.0-Alpha.1.B", "v0.0.0-20240101000000-abcdefabcdef", "v1.3.0-0.20240101000000-ABCDEFabcdef"}
		for _, m := range []string{"ex.org/m", "ex.org/M", "ex.org/UPPER/Case", "ex.org/a-b.c_d~e/M", "ex.org/A/b/C/sub"} {
			c.Case(m, func(x *vCase) {
				cc := c12New()
				defer os.RemoveAll(cc.dir)
				for i, v := range vers {
					cc.mod(m, v, "go.mod", "module "+m+"\n\ngo 1.21\n")
					cc.mod(m, v, "m.go", fmt.Sprintf("package m\n\nfunc F() int { return %d }\n\nfunc G() int { return 1 }\n", i))
				}
				root := cc.write()
				for _, o := range vers {
					for _, n := range vers {
						x.States(1)
						x.Transitions(1)
						got, _, err := AnalyzeModuleChanges(root, false, filepath.Join(cc.dir, "prj"), []*ModuleChange{{Name: m, PriorVersion: o, NewVersion: n}}, 0)
						if err != nil {
							x.Fail("%s %s to %s: %v", m, o, n, err)
							continue
						}
						var ids []string
						for _, l := range got {
							for _, f := range l {
								ids = append(ids, f.FunctionIdent)
								if want := filepath.Join(root, c12Escape(m)+"@"+c12Escape(o), "m.go"); f.FilePath != want {
									x.Fail("%s %s to %s: %s is in %s, want %s", m, o, n, f.FunctionIdent, f.FilePath, want)
								}
							}
						}
						want := m + ":F"
						if o == n {
							want = ""
						}
						if g := strings.Join(ids, " "); g != want {
							x.Fail("%s %s to %s: changed %q, want %q", m, o, n, g, want)
						}
					}
				}
			})
		}
	})

	// every ordered pair of function bodies, in every kind of declaration
	vRegister("bodies", func(c *vCtx) {
		for _, k := range c12Kinds() {
			c.Case(k.name, func(x *vCase) {
				bodies := c12Bodies
				if !c.Thorough() && k.name != "function" {
					bodies = bodies[:16]
				}
				cc := c12New()
				defer os.RemoveAll(cc.dir)
				mc := &ModuleChange{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}
				want := map[string]c12Want{}
				var oldT, newT strings.Builder
				oldT.WriteString("package m" + c12Head)
				newT.WriteString("package m\n\n// moved down" + c12Head)
				for i, a := range bodies {
					for j, b := range bodies {
						n := fmt.Sprintf("F%d_%d", i, j)
						od, nd := k.decl(n, a), k.decl(n, b)
						oldT.WriteString("\n" + k.pre(n) + "\n" + od + "\n")
						newT.WriteString("\n" + k.pre(n) + "\n// doc of the new version\n" + nd + "\n")
						want["ex.org/m:"+k.id(n)] = c12Want{od, c12Tokens(od) != c12Tokens(nd), "body\n" + a + "\nbecomes\n" + b}
					}
				}
				want["ex.org/m:use"] = c12Want{"func use(a ...any) {}", false, "not changed"}
				for v, s := range map[string]string{"v1.0.0": oldT.String(), "v1.1.0": newT.String()} {
					cc.mod("ex.org/m", v, "go.mod", "module ex.org/m\n\ngo 1.22\n")
					cc.mod("ex.org/m", v, "m.go", s)
				}
				root := cc.write()
				got, pkgs, err := AnalyzeModuleChanges(root, false, "", []*ModuleChange{mc}, 1)
				if err != nil {
					x.Fail("%v", err)
					return
				}
				x.Traces(len(want))
				c12Check(x, root, "v1.0.0", got["ex.org/m"], mc, want)
				if len(got) != 1 || len(pkgs) != 1 {
					x.Fail("modules %d packages %d", len(got), len(pkgs))
				}
				// the functions of the new version
				fns, err := ExtractModuleFunctionsFromPackages(pkgs["ex.org/m"], mc)
				if err != nil {
					x.Fail("%v", err)
				}
				have := map[string]int{}
				for _, f := range fns {
					have[f.FunctionIdent]++
					if !strings.HasPrefix(f.FilePath, filepath.Join(root, "ex.org/m@v1.1.0")+"/") {
						x.Fail("file of new function %s: %s", f.FunctionIdent, f.FilePath)
					}
				}
				for id := range want {
					if have[id] != 1 {
						x.Fail("new version has %s once, found %d", id, have[id])
					}
				}
				if len(have) != len(want) {
					x.Fail("%d functions in the new version, found %d", len(want), len(have))
				}
			})
		}
	})

	// every pair of states of declarations over two packages and two files: absent, or one of the declarations, in either file
	vRegister("places", func(c *vCtx) {
		type decl struct{ id, text string }
		// declarations that can replace each other
		var groups [][]decl
		for _, n := range []string{"A", "B"} {
			groups = append(groups, []decl{
				{n, "func " + n + "(n int) int {\n\treturn n\n}"}, {n, "func " + n + "(n int) int {\n\treturn n + 1\n}"},
				{n, "func " + n + "(m int) int {\n\treturn m\n}"}, {n, "func " + n + "(n int) (r int) {\n\treturn n\n}"}, {n, "func " + n + "(n int64) int64 {\n\treturn n\n}"},
				{n, "func " + n + "(n int) {\n\treturn\n}"}, {n, "func " + n + "(n ...int) {\n\treturn\n}"}, {n, "func " + n + "[X any](n X) X {\n\treturn n\n}"},
			})
		}
		meth := func(recv, name, ret string) decl {
			return decl{strings.Fields(recv)[len(strings.Fields(recv))-1] + "." + name, "func (" + recv + ") " + name + "() int {\n\treturn " + ret + "\n}"}
		}
		groups = append(groups, []decl{meth("s S", "M", "1"), meth("s S", "M", "2"), meth("S", "M", "1"), meth("t S", "M", "1")},
			[]decl{meth("s *S", "P", "1"), meth("s *S", "P", "2")}, []decl{meth("s U", "M", "1"), meth("s U", "M", "2")}, []decl{meth("s *U", "P", "1"), meth("s *U", "P", "2")})
		c.Case("places", func(x *vCase) {
			// all transitions of one declaration: state = absent or (declaration, package, file)
			for pi, pkgs := range [][]string{{"", ""}, {"sub", "sub"}, {"", "sub"}} {
				cc := c12New()
				want := map[string]c12Want{}
				mc := &ModuleChange{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.0.1"}
				texts := map[string]*strings.Builder{}
				put := func(ver, dir, file, s string) {
					k := ver + " " + filepath.Join(dir, file)
					if texts[k] == nil {
						texts[k] = &strings.Builder{}
						texts[k].WriteString("package " + filepath.Base(dir) + "\n")
					}
					texts[k].WriteString("\n" + s + "\n")
				}
				n := 0
				for _, g := range groups {
					for i := -1; i < len(g); i++ {
						for j := -1; j < len(g); j++ {
							for fi := 0; fi < 4; fi++ { // file of old and new
								if (i < 0 || j < 0) && fi&2 != 0 {
									continue
								}
								dir := fmt.Sprintf("p%d", n)
								n++
								od, nd := filepath.Join(pkgs[0], dir), filepath.Join(pkgs[1], dir)
								fs := []string{"a.go", "b.go"}
								for _, v := range []string{"v1.0.0", "v1.0.1"} {
									d := map[string]string{"v1.0.0": od, "v1.0.1": nd}[v]
									put(v, d, "t.go", "type S struct{}\n\ntype U struct{}\n\nfunc (s S) Keep() int { return 1 }\n\nfunc (s *U) Keep() int { return 2 }\n\nfunc Keep() int { return 3 }")
								}
								if i >= 0 {
									put("v1.0.0", od, fs[fi&1], g[i].text)
									id := "ex.org/m/" + od + ":" + g[i].id
									want[id] = c12Want{g[i].text, j >= 0 && i != j && od == nd, fmt.Sprintf("old in %s, new %d in %s", fs[fi&1], j, fs[fi>>1])}
								}
								if j >= 0 {
									put("v1.0.1", nd, fs[fi>>1], g[j].text)
									if id := "ex.org/m/" + nd + ":" + g[j].id; i < 0 || od != nd {
										want[id] = c12Want{"", false, "new function"}
									}
								}
							}
						}
					}
				}
				// states of neighbours of a function: both groups of one package at once
				for a := -1; a < len(groups[0]); a++ {
					for b := -1; b < len(groups[0]); b++ {
						dir := fmt.Sprintf("q%d", n)
						n++
						od, nd := filepath.Join(pkgs[0], dir), filepath.Join(pkgs[1], dir)
						put("v1.0.0", od, "a.go", groups[0][0].text)
						put("v1.0.1", nd, "a.go", groups[0][1].text)
						want["ex.org/m/"+od+":A"] = c12Want{groups[0][0].text, od == nd, "A next to B"}
						if od != nd {
							want["ex.org/m/"+nd+":A"] = c12Want{"", false, "new function"}
						}
						if a >= 0 {
							put("v1.0.0", od, "a.go", groups[1][a].text)
							want["ex.org/m/"+od+":B"] = c12Want{groups[1][a].text, b >= 0 && a != b && od == nd, "B next to A"}
						}
						if b >= 0 {
							put("v1.0.1", nd, "a.go", groups[1][b].text)
							if a < 0 || od != nd {
								want["ex.org/m/"+nd+":B"] = c12Want{"", false, "new function"}
							}
						}
					}
				}
				for _, v := range []string{"v1.0.0", "v1.0.1"} {
					cc.mod("ex.org/m", v, "go.mod", "module ex.org/m\n\ngo 1.22\n")
					// not part of the module's packages
					cc.mod("ex.org/m", v, "x_test.go", "package m\n\nfunc testOnly() string { return \""+v+"\" }\n")
					cc.mod("ex.org/m", v, "testdata/d/d.go", "package d\n\nfunc InTestdata() string { return \""+v+"\" }\n")
					cc.mod("ex.org/m", v, "nested/go.mod", "module ex.org/m/nested\n\ngo 1.22\n")
					cc.mod("ex.org/m", v, "nested/n.go", "package nested\n\nfunc Other() string { return \""+v+"\" }\n")
				}
				for k, b := range texts {
					f := strings.SplitN(k, " ", 2)
					cc.mod("ex.org/m", f[0], f[1], b.String())
				}
				root := cc.write()
				got, _, err := AnalyzeModuleChanges(root, false, "", []*ModuleChange{mc}, 1)
				if err != nil {
					x.Fail("%v", err)
				} else {
					x.Traces(len(want))
					c12Check(x, root, "v1.0.0", got["ex.org/m"], mc, want)
				}
				os.RemoveAll(cc.dir)
				_ = pi
			}
		})
	})

	// texts that differ only in what has no meaning are not changes
	vRegister("meaningless", func(c *vCtx) {
		c.Case("meaningless", func(x *vCase) {
			cc := c12New()
			defer os.RemoveAll(cc.dir)
			mc := &ModuleChange{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.0.1"}
			forms := []string{
				"func NAME(n int) int {\n\tn++\n\treturn n\n}",
				"// NAME does it.\nfunc NAME(n int) int {\n\tn++\n\treturn n\n}",
				"/* NAME */\nfunc NAME(n int) int {\n\tn++\n\treturn n\n}",
				"//go:noinline\nfunc NAME(n int) int {\n\tn++\n\treturn n\n}",
				"func NAME(n int) int {\n    n++\n    return n\n}",
				"func   NAME( n int )   int {\n\tn ++\n\treturn   n\n}",
				"func NAME(n int) int {\n\tn++ // next\n\treturn n // done\n}",
				"func NAME(n int) int {\n\tn++;\n\treturn n;\n}",
				"func NAME(n int) int {\n\tn++\n\treturn /* it */ n\n}",
			}
			want := map[string]c12Want{}
			o, n := strings.Builder{}, strings.Builder{}
			o.WriteString("package m\n")
			n.WriteString("package m\n")
			for i := range forms {
				for j := range forms {
					nm := fmt.Sprintf("F%d_%d", i, j)
					o.WriteString("\n" + strings.ReplaceAll(forms[i], "NAME", nm) + "\n")
					n.WriteString("\n" + strings.ReplaceAll(forms[j], "NAME", nm) + "\n")
					want["ex.org/m:"+nm] = c12Want{strings.ReplaceAll(forms[i], "NAME", nm), false, "only white space and comments differ:\n" + forms[j]}
				}
			}
			cc.mod("ex.org/m", "v1.0.0", "go.mod", "module ex.org/m\n\ngo 1.22\n")
			cc.mod("ex.org/m", "v1.0.1", "go.mod", "module ex.org/m\n\ngo 1.22\n")
			cc.mod("ex.org/m", "v1.0.0", "a.go", o.String())
			cc.mod("ex.org/m", "v1.0.1", "b.go", n.String())
			root := cc.write()
			got, _, err := AnalyzeModuleChanges(root, false, "", []*ModuleChange{mc}, 1)
			if err != nil {
				x.Fail("%v", err)
				return
			}
			x.Traces(len(want))
			c12Check(x, root, "v1.0.0", got["ex.org/m"], mc, want)
		})
	})

	// which modules are analysed: all requirements of the versions of a and b, of the project, and lists of changes
	vRegister("modules", func(c *vCtx) {
		const A, B, C = "ex.org/a", "ex.org/b", "ex.org/c"
		vers := []string{"v1.0.0", "v1.1.0", "v1.2.0"}
		gover := map[string]string{A + " v1.0.0": "1.21", A + " v1.1.0": "1.20", A + " v1.2.0": "1.23", B + " v1.0.0": "1.19", B + " v1.1.0": "1.22", B + " v1.2.0": "1.18", C + " v1.0.0": "1.22", C + " v1.1.0": "1.22", C + " v1.2.0": "1.17"}
		type req map[string]string
		// versions a module requires of another: old version of the requiring module, new version
		var opts [][2]string
		for _, a := range []string{"", "v1.0.0", "v1.1.0"} {
			for _, b := range []string{"", "v1.0.0", "v1.1.0", "v1.2.0"} {
				opts = append(opts, [2]string{a, b})
			}
		}
		small := [][2]string{{"", ""}, {"v1.0.0", "v1.0.0"}, {"v1.0.0", "v1.1.0"}, {"", "v1.2.0"}}
		lists := [][]string{{A}, {A, B}, {B, A}, {A, A}, {C, A}}
		run := func(x *vCase, ab, ac, bc [2]string, pb, pc string, list []string, trans bool) {
			cc := c12New()
			defer os.RemoveAll(cc.dir)
			deps := map[string]req{}
			for _, m := range []string{A, B, C} {
				for i, v := range vers {
					k := m + " " + v
					deps[k] = req{}
					if i == 0 && m == A || i == 0 && m == B { // prior version
						if m == A && ab[0] != "" {
							deps[k][B] = ab[0]
						}
						if m == A && ac[0] != "" {
							deps[k][C] = ac[0]
						}
						if m == B && bc[0] != "" {
							deps[k][C] = bc[0]
						}
					} else if m == A {
						if ab[1] != "" {
							deps[k][B] = ab[1]
						}
						if ac[1] != "" {
							deps[k][C] = ac[1]
						}
					} else if m == B && bc[1] != "" {
						deps[k][C] = bc[1]
					}
					text := "module " + m + "\n\ngo " + gover[k] + "\n"
					for d, dv := range deps[k] {
						text += "\nrequire " + d + " " + dv + "\n"
					}
					cc.mod(m, v, "go.mod", text)
					nm := strings.ToUpper(m[len(m)-1:])
					cc.mod(m, v, "x.go", "package "+m[len(m)-1:]+"\n\nfunc "+nm+"() string {\n\treturn \""+v+"\"\n}\n\nfunc Same() int { return 1 }\n\nfunc Only"+strings.ReplaceAll(v, ".", "_")+"() {}\n")
				}
			}
			proj := req{A: "v1.0.0"}
			if pb != "" {
				proj[B] = pb
			}
			if pc != "" {
				proj[C] = pc
			}
			text := "module ex.org/p\n\ngo 1.23\n"
			for d, dv := range proj {
				text += "\nrequire " + d + " " + dv + "\n"
			}
			cc.files["prj/go.mod"] = text
			root := cc.write()
			// model: levels, the first version found for a module counts
			type chg struct {
				old, new string
				ind      bool
			}
			want := map[string]chg{}
			ambiguous := map[string]bool{}
			var mcs []*ModuleChange
			type item struct {
				mod string
				chg
			}
			var level []item
			for _, m := range list {
				c := chg{"v1.0.0", "v1.1.0", false}
				mcs = append(mcs, &ModuleChange{Name: m, PriorVersion: c.old, NewVersion: c.new})
				level = append(level, item{m, c})
			}
			for len(level) > 0 {
				var next []item
				at := map[string]chg{}
				for _, it := range level {
					if w, ok := at[it.mod]; ok && w != it.chg {
						ambiguous[it.mod] = true
					}
					if _, ok := want[it.mod]; ok {
						continue
					}
					want[it.mod] = it.chg
					at[it.mod] = it.chg
					if !trans {
						continue
					}
					od, nd := deps[it.mod+" "+it.old], deps[it.mod+" "+it.new]
					var names []string
					for d := range nd {
						names = append(names, d)
					}
					sort.Strings(names)
					for _, d := range names {
						if od[d] != nd[d] && proj[d] != "" && proj[d] != nd[d] {
							next = append(next, item{d, chg{proj[d], nd[d], true}})
						}
					}
				}
				level = next
			}
			got, pkgs, err := AnalyzeModuleChanges(root, trans, filepath.Join(cc.dir, "prj"), mcs, 1)
			if err != nil {
				x.Fail("%v", err)
				return
			}
			// several versions of a dependency at the same distance: any may count, but the answer does not change
			for i := 0; len(ambiguous) > 0 && i < 3; i++ {
				again, _, err := AnalyzeModuleChanges(root, trans, filepath.Join(cc.dir, "prj"), mcs, 1)
				if err != nil {
					x.Fail("%v", err)
					return
				}
				if a, b := c12Brief(got), c12Brief(again); a != b {
					x.Fail("the answer changes: %s, then %s", a, b)
					return
				}
			}
			x.States(1)
			x.Traces(1)
			show := func() string {
				return fmt.Sprintf("a requires b %v c %v, b requires c %v, project b %q c %q, update %v, transitive %v", ab, ac, bc, pb, pc, list, trans)
			}
			for m, w := range want {
				x.Transitions(1)
				if ambiguous[m] {
					continue
				}
				mc := &ModuleChange{Name: m, PriorVersion: w.old, NewVersion: w.new, Indirect: w.ind}
				fw := map[string]c12Want{m + ":Same": {"", false, "not changed"}}
				fw[m+":"+strings.ToUpper(m[len(m)-1:])] = c12Want{"func " + strings.ToUpper(m[len(m)-1:]) + "() string {\n\treturn \"" + w.old + "\"\n}", true, show()}
				c12Check(x, root, w.old, got[m], mc, fw)
				for _, f := range got[m] {
					g := gover[m+" "+w.old]
					if compareGoVersions(gover[m+" "+w.new], g) < 0 {
						g = gover[m+" "+w.new]
					}
					if f.Module != nil && f.Module.GoVersion != g {
						x.Fail("%s: go version %s want %s", m, f.Module.GoVersion, g)
					}
				}
				if len(pkgs[m]) != 1 || pkgs[m][0].PkgPath != m || len(pkgs[m][0].GoFiles) != 1 || !strings.HasPrefix(pkgs[m][0].GoFiles[0], filepath.Join(root, m+"@"+w.new)+"/") {
					x.Fail("packages of the new version of %s: %v", m, pkgs[m])
				}
			}
			for m := range got {
				if _, ok := want[m]; !ok {
					x.Fail("module %s is analysed (%s)", m, show())
				}
			}
		}
		pvers := []string{"", "v1.0.0", "v1.1.0"}
		for _, pb := range pvers {
			for _, pc := range pvers {
				for _, ab := range opts {
					for ai, ac := range small {
						for bi, bc := range small {
							if !c.Thorough() && ((ab[0] != "" && ab[0] != "v1.0.0") || ai%2 == 1 && bi%2 == 1 || pb == "v1.1.0" && pc == "v1.1.0") {
								continue
							}
							list := lists[0]
							if c.Stop() {
								return
							}
							c.Case(fmt.Sprintf("%v %v %v %s %s", ab, ac, bc, pb, pc), func(x *vCase) { run(x, ab, ac, bc, pb, pc, list, true) })
						}
					}
				}
			}
		}
		for _, list := range lists {
			for _, trans := range []bool{false, true} {
				for _, ab := range small {
					for _, ac := range small {
						for _, bc := range small {
							if !c.Thorough() && (ac[0] != bc[0]) {
								continue
							}
							c.Case(fmt.Sprintf("%v %v %v %v %v", list, trans, ab, ac, bc), func(x *vCase) { run(x, ab, ac, bc, "v1.0.0", "v1.0.0", list, trans) })
						}
					}
				}
			}
		}
	})

	// which lines are marked
	// two dependencies of the same distance ask for a third module: each version may count, but always the same one
	vRegister("diamond", func(c *vCtx) {
		const A, B, C, D = "ex.org/a", "ex.org/b", "ex.org/c", "ex.org/d"
		vers := []string{"", "v1.0.0", "v1.1.0", "v1.2.0"}
		for _, bd := range vers {
			for _, cd := range vers {
				for _, flip := range []bool{false, true} {
					if c.Stop() {
						return
					}
					c.Case(fmt.Sprintf("b-%s-c-%s-%v", bd, cd, flip), func(x *vCase) {
						cc := c12New()
						defer os.RemoveAll(cc.dir)
						for _, m := range []string{A, B, C, D} {
							for _, v := range vers[1:] {
								text := "module " + m + "\n\ngo 1.21\n"
								if v != "v1.0.0" {
									switch {
									case m == A && flip:
										text += "\nrequire " + C + " v1.1.0\n\nrequire " + B + " v1.1.0\n"
									case m == A:
										text += "\nrequire " + B + " v1.1.0\n\nrequire " + C + " v1.1.0\n"
									case m == B && bd != "":
										text += "\nrequire " + D + " " + bd + "\n"
									case m == C && cd != "":
										text += "\nrequire " + D + " " + cd + "\n"
									}
								}
								cc.mod(m, v, "go.mod", text)
								cc.mod(m, v, "x.go", "package "+m[len(m)-1:]+"\n\nfunc F() string {\n\treturn \""+v+"\"\n}\n")
							}
						}
						cc.files["prj/go.mod"] = "module ex.org/p\n\ngo 1.23\n\nrequire " + A + " v1.0.0\n\nrequire " + B + " v1.0.0\n\nrequire " + C + " v1.0.0\n\nrequire " + D + " v1.0.0\n"
						root := cc.write()
						first := ""
						for i := 0; i < 5; i++ {
							got, _, err := AnalyzeModuleChanges(root, true, filepath.Join(cc.dir, "prj"), []*ModuleChange{{Name: A, PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, 0)
							if err != nil {
								x.Fail("%v", err)
								return
							}
							x.States(1)
							x.Traces(1)
							x.Transitions(len(got))
							b := c12Brief(got)
							if first == "" {
								first = b
							} else if first != b {
								x.Fail("the answer changes: %s, then %s", first, b)
								return
							}
							ok := len(got[D]) == 0 && (bd == "" || bd == "v1.0.0") && (cd == "" || cd == "v1.0.0")
							for _, v := range []string{bd, cd} {
								ok = ok || v != "" && v != "v1.0.0" && len(got[D]) == 1 && got[D][0].Module.NewVersion == v && got[D][0].Module.PriorVersion == "v1.0.0"
							}
							if len(got[A]) != 1 || len(got[B]) != 1 || len(got[C]) != 1 || !ok {
								x.Fail("b requires d %q, c requires d %q, found: %s", bd, cd, b)
								return
							}
						}
					})
				}
			}
		}
	})

	vRegister("lines", func(c *vCtx) {
		n, k := 4, 3
		if c.Thorough() {
			n = 5
		}
		var seqs [][]string
		var gen func(p []string)
		gen = func(p []string) {
			seqs = append(seqs, append([]string{}, p...))
			if len(p) == n {
				return
			}
			for i := 0; i < k; i++ {
				gen(append(p, string(rune('a'+i))))
			}
		}
		gen(nil)
		marks := func(o, n []string, newFunc bool, r int) []bool {
			return computeChangeLineBitmap(strings.Join(o, "\n"), strings.Join(n, "\n"), newFunc, r)
		}
		for oi, o := range seqs[1:] {
			c.Case("old "+strings.Join(o, ""), func(x *vCase) {
				for _, n := range seqs[1:] {
					x.States(1)
					bo, bn := marks(o, n, false, 0), marks(o, n, true, 0)
					if len(bo) != len(o) || len(bn) != len(n) {
						x.Fail("%v -> %v: bitmaps of %d and %d lines", o, n, len(bo), len(bn))
						continue
					}
					c12Lines(x, o, n, bo, bn, marks)
				}
			})
			_ = oi
		}
		// long functions: every single change of a 250 line function is marked exactly
		c.Case("long", func(x *vCase) {
			var base []string
			for i := 0; i < 250; i++ {
				s := "}"
				if i%3 != 0 {
					s = fmt.Sprintf("line %d", i)
				}
				base = append(base, s)
			}
			for i := range base {
				ch := append(append(append([]string{}, base[:i]...), "changed"), base[i+1:]...)
				del := append(append([]string{}, base[:i]...), base[i+1:]...)
				for which, nw := range [][]string{ch, del} {
					x.States(1)
					bo, bn := marks(base, nw, false, 0), marks(base, nw, true, 0)
					c12Lines(x, base, nw, bo, bn, marks)
					cnt := 0
					for _, b := range bo {
						if b {
							cnt++
						}
					}
					if cnt != 1 && i < 248 || cnt > 2 || (which == 0 || i%3 != 0) && !bo[i] {
						x.Fail("change of line %d marks %d lines", i, cnt)
					}
				}
			}
		})
	})
}

// c12Lines checks the marks of a pair of definitions: the unmarked lines are common to both, in order, and the marks
// for a radius follow from them.
func c12Lines(x *vCase, o, n []string, bo, bn []bool, marks func(o, n []string, newFunc bool, r int) []bool) {
	var io, in []int
	for i, b := range bo {
		if !b {
			io = append(io, i)
		}
	}
	for i, b := range bn {
		if !b {
			in = append(in, i)
		}
	}
	ok := len(io) == len(in)
	for i := range io {
		ok = ok && o[io[i]] == n[in[i]]
	}
	if !ok {
		x.Fail("%v -> %v: unmarked lines %v and %v are not the same", o, n, io, in)
		return
	}
	same := strings.Join(o, "\n") == strings.Join(n, "\n")
	if same != (len(io) == len(o) && len(in) == len(n)) {
		x.Fail("%v -> %v: unmarked %v and %v", o, n, io, in)
	}
	// a line that exists on both sides is not all marked: the longest common block stays unmarked
	best := 0
	for i := range o {
		for j := range n {
			l := 0
			for i+l < len(o) && j+l < len(n) && o[i+l] == n[j+l] {
				l++
			}
			if l > best {
				best = l
			}
		}
	}
	if len(o) < 20 && len(io) < best {
		x.Fail("%v -> %v: only %d unmarked lines, %d consecutive lines are the same", o, n, len(io), best)
	}
	type gap struct{ i, di, j, dj int } // first line and number of lines between unmarked lines
	var gaps []gap
	pi, pj := 0, 0
	for k := 0; k <= len(io); k++ {
		ei, ej := len(o), len(n)
		if k < len(io) {
			ei, ej = io[k], in[k]
		}
		gaps = append(gaps, gap{pi, ei - pi, pj, ej - pj})
		pi, pj = ei+1, ej+1
	}
	for r := 0; r <= 3; r++ {
		wo, wn := append([]bool{}, bo...), append([]bool{}, bn...)
		set := func(b []bool, i int) {
			if i >= 0 && i < len(b) {
				b[i] = true
			}
		}
		for _, g := range gaps {
			if g.di == 0 && g.dj > 0 { // insertion: marked through its neighbours
				for d := 0; d < r; d++ {
					set(wo, g.i-1-d)
					set(wo, g.i+d)
				}
				for d := 1; d <= r; d++ {
					set(wn, g.j-d)
					set(wn, g.j+g.dj-1+d)
				}
			}
		}
		x.Transitions(2)
		if got := marks(o, n, false, r); fmt.Sprint(got) != fmt.Sprint(wo) {
			x.Fail("%v -> %v radius %d: old lines marked %v want %v", o, n, r, got, wo)
		}
		if got := marks(o, n, true, r); fmt.Sprint(got) != fmt.Sprint(wn) {
			x.Fail("%v -> %v radius %d: new lines marked %v want %v", o, n, r, got, wn)
		}
		if r > 0 && !same {
			any := false
			for _, b := range wo {
				any = any || b
			}
			if !any {
				x.Fail("%v -> %v radius %d: nothing marked", o, n, r)
			}
		}
	}
}

func c12Brief(m map[string][]*ModuleFunction) string {
	var out []string
	for name, fns := range m {
		for _, f := range fns {
			out = append(out, fmt.Sprintf("%s %s %s..%s", name, f.FunctionIdent, f.Module.PriorVersion, f.Module.NewVersion))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
