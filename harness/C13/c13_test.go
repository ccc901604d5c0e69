package lens

// C13: which modules change, and from which version to which, is read exactly from go.mod and go.work files.
// The model is a small table (module -> version per workspace member); the files are rendered from it.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type c13Req struct {
	mod, ver string
	indirect bool
}

func c13Mod(name, gover string, reqs []c13Req, style int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "module %s\n", name)
	if gover != "" {
		fmt.Fprintf(&b, "\ngo %s\n", gover)
	}
	line := func(r c13Req) string {
		s := r.mod + " " + r.ver
		if r.indirect {
			s += " // indirect"
		}
		return s
	}
	switch style {
	case 0: // one line each
		for _, r := range reqs {
			b.WriteString("\nrequire " + line(r) + "\n")
		}
	case 1: // one block
		if len(reqs) > 0 {
			b.WriteString("\nrequire (\n")
			for _, r := range reqs {
				b.WriteString("\t" + line(r) + "\n")
			}
			b.WriteString(")\n")
		}
	default: // direct and indirect blocks, as go mod tidy writes
		for _, ind := range []bool{false, true} {
			b.WriteString("\nrequire (\n")
			for _, r := range reqs {
				if r.indirect == ind {
					b.WriteString("\t" + line(r) + "\n")
				}
			}
			b.WriteString(")\n")
		}
	}
	return b.String()
}

var c13Vers = []string{"", "v1.2.0", "v1.10.0", "v1.2.0-rc.1", "v1.2.1-0.20210101000000-abcdefabcdef", "v2.0.0+incompatible"}

func c13Write(p, s string) {
	vMust(os.MkdirAll(filepath.Dir(p), 0o755))
	vMust(os.WriteFile(p, []byte(s), 0o644))
}

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

func c13Show(l []*ModuleChange) []string {
	var out []string
	for _, m := range l {
		out = append(out, fmt.Sprintf("%s %s->%s indirect=%v", m.Name, m.PriorVersion, m.NewVersion, m.Indirect))
	}
	return out
}

func c13Eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var c13N int

func c13Dir() string {
	c13N++
	return filepath.Join(vScratch(), fmt.Sprintf("c13-%d-%d", os.Getpid(), c13N))
}

// c13Rank orders the versions used here from old to new (semantic versioning).
func c13Rank(v string) int {
	for i, w := range []string{"", "v1.2.0-rc.1", "v1.2.0", "v1.2.1-0.20210101000000-abcdefabcdef", "v1.10.0", "v2.0.0+incompatible"} {
		if v == w {
			return i
		}
	}
	panic(v)
}

func init() {
	mods := []string{"ex.org/a", "ex.org/a/sub", "ex.org/b"}

	// every pair of go.mod files over three modules
	vRegister("gomod", func(c *vCtx) {
		vers := c13Vers[:4]
		if c.Thorough() {
			vers = c13Vers
		}
		// one module's state: absent, or a version that is direct or indirect
		var states []c13Req
		for _, v := range vers {
			if v == "" {
				states = append(states, c13Req{})
				continue
			}
			states = append(states, c13Req{ver: v}, c13Req{ver: v, indirect: true})
		}
		n := len(states)
		dir := c13Dir()
		defer os.RemoveAll(dir)
		file := func(st [3]int, order, style int) (string, []c13Req) {
			var reqs []c13Req
			for i := range mods {
				k := (i + order) % 3
				if states[st[k]].ver != "" {
					r := states[st[k]]
					r.mod = mods[k]
					reqs = append(reqs, r)
				}
			}
			return c13Mod("ex.org/prj", "1.21", reqs, style), reqs
		}
		for o := 0; o < n*n*n; o++ {
			if c.Stop() {
				return
			}
			old := [3]int{o % n, o / n % n, o / n / n}
			c.Case(fmt.Sprintf("gomod/%v", old), func(x *vCase) {
				txt, _ := file(old, 0, o%3)
				po := filepath.Join(dir, fmt.Sprintf("old%d.mod", o))
				pn := filepath.Join(dir, fmt.Sprintf("new%d.mod", o))
				c13Write(po, txt)
				defer os.Remove(po)
				defer os.Remove(pn)
				for i, m := range mods {
					v, ind, err := FindModuleVersionInGoMod(po, m)
					if err != nil || v != states[old[i]].ver || ind != (states[old[i]].indirect && v != "") {
						x.Fail("version of %s: %s %v %v, file:\n%s", m, v, ind, err, txt)
					}
				}
				if v, _, err := FindModuleVersionInGoMod(po, "ex.org/prj"); v != "" || err != nil {
					x.Fail("version of the module itself: %q %v", v, err)
				}
				for w := 0; w < n*n*n; w++ {
					nw := [3]int{w % n, w / n % n, w / n / n}
					ntxt, reqs := file(nw, w%3, w%3)
					c13Write(pn, ntxt)
					var want []string
					for _, ind := range []bool{false, true} {
						for _, r := range reqs {
							if w%3 == 2 && r.indirect != ind || w%3 != 2 && ind {
								continue
							}
							for i, m := range mods {
								if m == r.mod && states[old[i]].ver != "" && states[old[i]].ver != r.ver {
									want = append(want, fmt.Sprintf("%s %s->%s indirect=%v", m, states[old[i]].ver, r.ver, r.indirect))
								}
							}
						}
					}
					got, err := DiffModulesFromGoModFiles(po, pn)
					if err != nil {
						x.Fail("%v", err)
					} else if !c13Eq(c13Show(got), want) {
						x.Fail("changes\n%v\nwant\n%v\nold:\n%snew:\n%s", c13Show(got), want, txt, ntxt)
						return
					}
					x.Transitions(1)
				}
				x.States(1)
				x.Traces(1)
			})
		}
	})

	// every small workspace: root module or not, two members, each used, missing or unused, with their requirements
	vRegister("workspace", func(c *vCtx) {
		type member struct {
			dir, gover string
			exists     bool
			used       bool
			va, vb     string
		}
		vers := []string{"", "v1.2.0", "v1.10.0", "v1.2.0-rc.1"}
		gov := []string{"", "1.9", "1.21", "1.21.3", "1.21rc1"}
		// the states of a member: not there, there but unused, used but missing, used with requirements and go version
		var ms []member
		for _, va := range vers {
			for _, vb := range vers[:2] {
				for _, g := range gov {
					if !c.Thorough() && (vb != "" && g != "1.21") {
						continue
					}
					ms = append(ms, member{exists: true, used: true, va: va, vb: vb, gover: g})
				}
			}
		}
		ms = append(ms, member{}, member{used: true}, member{exists: true, va: "v1.10.0", gover: "1.9"})
		styles := 3 // how the go.work file is written
		rankGo := func(g string) int {
			for i, w := range []string{"1.9", "1.21rc1", "1.21", "1.21.3"} {
				if g == w {
					return i
				}
			}
			panic(g)
		}
		for r := -1; r < len(ms)-3; r++ { // root module, -1 = none
			for i := range ms {
				if c.Stop() {
					return
				}
				c.Case(fmt.Sprintf("work/%d/%d", r, i), func(x *vCase) {
					for j := range ms {
						for style := 0; style < styles; style++ {
							if style != (i+j)%styles {
								continue
							}
							for _, workless := range []bool{false, true} {
								if workless && (j > 0 || i > 0) {
									continue
								}
								dir := c13Dir()
								m1, m2 := ms[i], ms[j]
								m1.dir, m2.dir = "m1", "sub/m2"
								root := member{}
								if r >= 0 {
									root = ms[r]
									root.dir = "."
								}
								var members []member
								if r >= 0 {
									members = append(members, root)
								}
								var use []string
								if !workless {
									for _, m := range []member{m1, m2} {
										if m.used {
											use = append(use, "./"+m.dir)
											if m.exists {
												members = append(members, m)
											}
										}
									}
									if r >= 0 && style == 1 {
										use = append(use, ".")
									}
								}
								all := []member{m1, m2}
								if r >= 0 {
									all = append(all, root)
								}
								for _, m := range all {
									if m.exists {
										var reqs []c13Req
										if m.va != "" {
											reqs = append(reqs, c13Req{"ex.org/a", m.va, false})
										}
										if m.vb != "" {
											reqs = append(reqs, c13Req{"ex.org/b", m.vb, true})
										}
										c13Write(filepath.Join(dir, m.dir, "go.mod"), c13Mod("ex.org/"+strings.ReplaceAll(m.dir, ".", "root"), m.gover, reqs, style))
									}
								}
								vMust(os.MkdirAll(dir, 0o755))
								if !workless {
									w := "go 1.21\n\n"
									switch style {
									case 0:
										for _, u := range use {
											w += "use " + u + "\n"
										}
									case 1:
										w += "use (\n\t" + strings.Join(use, "\n\t") + "\n)\n"
									default: // absolute paths
										for _, u := range use {
											w += "use " + filepath.Join(dir, u) + "\n"
										}
									}
									c13Write(filepath.Join(dir, "go.work"), w)
								}
								c13CheckWork(x, dir, workless, members2(members, func(m member) c13Member {
									return c13Member{m.dir, m.gover, m.va, m.vb}
								}), rankGo)
								os.RemoveAll(dir)
								x.Transitions(1)
							}
						}
					}
					x.States(1)
					x.Traces(1)
				})
			}
		}
	})

	// every pair of workspaces with two members
	vRegister("gowork", func(c *vCtx) {
		vers := []string{"", "v1.2.0", "v1.10.0"}
		// a member: 0 not used, 1 used and missing, else used with version of a and b
		n := 2 + len(vers)*len(vers)
		render := func(dir string, st [2]int, style int) (map[string][2]string, bool) {
			res := map[string][2]string{}
			w := "go 1.21\n\n"
			vMust(os.MkdirAll(dir, 0o755))
			for i, d := range []string{"m1", "sub/m2"} {
				if st[i] == 0 {
					continue
				}
				if style == 0 {
					w += "use ./" + d + "\n"
				} else {
					w += "use (\n\t" + d + "/\n)\n"
				}
				if st[i] >= 2 {
					k := st[i] - 2
					va, vb := vers[k%len(vers)], vers[k/len(vers)]
					var reqs []c13Req
					if va != "" {
						reqs = append(reqs, c13Req{"ex.org/a", va, false})
					}
					if vb != "" {
						reqs = append(reqs, c13Req{"ex.org/b", vb, true})
					}
					c13Write(filepath.Join(dir, d, "go.mod"), c13Mod("ex.org/x"+d, "1.21", reqs, 1))
					res[d] = [2]string{va, vb}
				}
			}
			c13Write(filepath.Join(dir, "go.work"), w)
			return res, true
		}
		for o := 0; o < n*n; o++ {
			c.Case(fmt.Sprintf("gowork/%d", o), func(x *vCase) {
				for w := 0; w < n*n; w++ {
					dir := c13Dir()
					olds, _ := render(filepath.Join(dir, "old"), [2]int{o % n, o / n}, o%2)
					news, _ := render(filepath.Join(dir, "new"), [2]int{w % n, w / n}, w%2)
					var want []string
					for _, d := range []string{"m1", "sub/m2"} {
						ov, ok1 := olds[d]
						nv, ok2 := news[d]
						if !ok1 || !ok2 {
							continue
						}
						for k, m := range []string{"ex.org/a", "ex.org/b"} {
							if ov[k] != "" && nv[k] != "" && ov[k] != nv[k] {
								want = append(want, fmt.Sprintf("%s %s->%s indirect=%v", m, ov[k], nv[k], k == 1))
							}
						}
					}
					var first []string
					for rep := 0; rep < 2; rep++ {
						got, err := DiffModulesFromGoWorkFiles(filepath.Join(dir, "old"), filepath.Join(dir, "new", "go.work"))
						if err != nil {
							x.Fail("%v", err)
							return
						}
						g := c13Show(got)
						if rep == 0 {
							first = g
						} else if !c13Eq(first, g) {
							x.Fail("answers differ between two calls: %v / %v", first, g)
						}
						gs, ws := c13Set(g), c13Set(want)
						if !c13Eq(gs, ws) {
							x.Fail("changes %v want %v (old %v new %v)", g, want, olds, news)
							return
						}
					}
					os.RemoveAll(dir)
					x.Transitions(1)
				}
				x.States(1)
				x.Traces(1)
			})
		}
	})

	// every way of writing the members of both workspaces
	vRegister("workstyles", func(c *vCtx) {
		dirs := []string{".", "m1", "sub/m2"}
		vers := []string{"", "v1.2.0", "v1.10.0"} // "": not a member
		styles := []string{"relative", "absolute", "every module below", "every module below an absolute directory", "pattern", "absolute pattern"}
		render := func(dir string, st int, style int) map[string]string {
			res := map[string]string{}
			w := "go 1.21\n\n"
			vMust(os.MkdirAll(dir, 0o755))
			for _, d := range dirs {
				v := vers[st%3]
				st /= 3
				if v == "" {
					continue
				}
				res[d] = v
				c13Write(filepath.Join(dir, d, "go.mod"), c13Mod("ex.org/x/"+strings.ReplaceAll(d, ".", "root"), "1.21", []c13Req{{"ex.org/a", v, false}}, 1))
				switch {
				case style == 0 || style == 4 && d == ".":
					w += "use ./" + d + "\n"
				case style == 1 || style == 5 && d == ".":
					w += "use " + filepath.Join(dir, d) + "\n"
				case style == 4:
					w += "use ./" + filepath.Dir(d) + "/m*\n"
				case style == 5:
					w += "use " + filepath.Join(dir, filepath.Dir(d)) + "/m*\n"
				}
			}
			switch style {
			case 2:
				w += "use ./...\n"
			case 3:
				w += "use " + dir + "/...\n"
			}
			c13Write(filepath.Join(dir, "go.work"), w)
			return res
		}
		for o := 0; o < 27; o++ {
			for os1 := range styles {
				for ns := range styles {
					c.Case(fmt.Sprintf("workstyles/%d/%s/%s", o, styles[os1], styles[ns]), func(x *vCase) {
						for n := 0; n < 27; n++ {
							dir := c13Dir()
							od, nd := filepath.Join(dir, "old"), filepath.Join(dir, "new")
							olds, news := render(od, o, os1), render(nd, n, ns)
							var files []string
							var want []string
							for _, d := range dirs {
								if olds[d] != "" {
									files = append(files, filepath.Join(od, d, "go.mod"))
								}
								if olds[d] != "" && news[d] != "" && olds[d] != news[d] {
									want = append(want, fmt.Sprintf("ex.org/a %s->%s indirect=false", olds[d], news[d]))
								}
							}
							sort.Strings(files)
							if got, err := ProjectGoModFiles(od); err != nil || !c13Eq(got, files) {
								x.Fail("module files %v %v want %v", got, err, files)
								return
							}
							got, err := DiffModulesFromGoWorkFiles(od, filepath.Join(nd, "go.work"))
							if g := c13Show(got); err != nil || !c13Eq(c13Set(g), c13Set(want)) {
								x.Fail("changes %v %v want %v (old %v new %v)", g, err, want, olds, news)
								return
							}
							os.RemoveAll(dir)
							x.Transitions(1)
						}
						x.States(1)
						x.Traces(1)
					})
				}
			}
		}
	})

	// the modules to analyse for every way of asking
	vRegister("initial", func(c *vCtx) {
		vers := []string{"", "v1.2.0", "v1.10.0"}
		type flag struct{ module, modules string }
		flags := []flag{{"ex.org/a@v1.10.0", ""}, {"", "ex.org/a@v1.10.0"}, {"", "ex.org/a@v1.10.0, ex.org/b@v9.0.0"}, {"ex.org/b@v9.0.0", "ex.org/a@v1.10.0,ex.org/zz@v1.0.0"},
			{"ex.org/zz@v1.0.0", ""}, {"", ""}}
		for fi, fl := range flags {
			for a := range vers {
				for b := range vers {
					for na := range vers {
						for _, scope := range []string{"none", "line", "area", "function"} {
							for work := 0; work < 2; work++ {
								c.Case(fmt.Sprintf("initial/%d/%d%d%d/%s/%d", fi, a, b, na, scope, work), func(x *vCase) {
									dir := c13Dir()
									defer os.RemoveAll(dir)
									mk := func(va, vb string) string {
										var reqs []c13Req
										if va != "" {
											reqs = append(reqs, c13Req{"ex.org/a", va, false})
										}
										if vb != "" {
											reqs = append(reqs, c13Req{"ex.org/b", vb, true})
										}
										return c13Mod("ex.org/prj", "1.21", reqs, 1)
									}
									md := "old"
									if work == 1 {
										md = "old/m"
										for _, v := range []string{"old", "new"} { // with a member that needs nothing
											c13Write(filepath.Join(dir, v, "go.work"), "go 1.21\nuse (\n\t./k\n\t./m\n)\n")
											c13Write(filepath.Join(dir, v, "k", "go.mod"), c13Mod("ex.org/k", "1.21", nil, 1))
										}
									}
									c13Write(filepath.Join(dir, md, "go.mod"), mk(vers[a], vers[b]))
									c13Write(filepath.Join(dir, strings.Replace(md, "old", "new", 1), "go.mod"), mk(vers[na], vers[b]))
									cfg := &Config{ProjectDir: filepath.Join(dir, "old"), ModuleVersionFlag: fl.module, ModulesVersionFlag: fl.modules,
										AstMonitorPort: 12345, MaxFieldRecurse: 5, MaxFieldLen: 100, CacheMB: 10, TimeMultiplier: 2,
										MutationScope: scope, MutationMode: "fast", MutationTests: "targeted"}
									if fl.module+fl.modules == "" {
										if work == 1 {
											cfg.UpdatedGoWorkFile = filepath.Join(dir, "new", "go.work")
										} else {
											cfg.UpdatedGoModFile = filepath.Join(dir, "new", "go.mod")
										}
									}
									if err := cfg.Prepare(); err != nil {
										x.Fail("%v", err)
										return
									}
									res, err := NewAnalysisEngine(cfg).parseInitialModules()
									if err != nil {
										x.Fail("%v", err)
										return
									}
									var want []string
									if fl.module+fl.modules == "" {
										if vers[a] != "" && vers[na] != "" && a != na {
											want = append(want, fmt.Sprintf("ex.org/a %s->%s indirect=false", vers[a], vers[na]))
										}
									} else {
										for _, f := range strings.Split(fl.module+","+fl.modules, ",") {
											p := strings.Split(strings.TrimSpace(f), "@")
											switch {
											case p[0] == "ex.org/a" && vers[a] != "":
												want = append(want, fmt.Sprintf("ex.org/a %s->%s indirect=false", vers[a], p[1]))
											case p[0] == "ex.org/b" && vers[b] != "":
												want = append(want, fmt.Sprintf("ex.org/b %s->%s indirect=true", vers[b], p[1]))
											}
										}
									}
									if !c13Eq(c13Show(res.changedModules), want) {
										x.Fail("modules %v want %v", c13Show(res.changedModules), want)
									}
									if res.analyzeExpandTransitive != (fl.module+fl.modules != "") {
										x.Fail("transitive analysis %v", res.analyzeExpandTransitive)
									}
									if (res.neighbourRadius == 1) != (scope == "area") || res.neighbourRadius > 1 {
										x.Fail("radius %d for scope %s", res.neighbourRadius, scope)
									}
									x.States(1)
									x.Transitions(1)
									x.Traces(1)
								})
							}
						}
					}
				}
			}
		}
	})

	// comparing go versions is the order of releases
	vRegister("goversion", func(c *vCtx) {
		// increasing; versions in one group are equal
		order := [][]string{{"1.9"}, {"1.12rc1"}, {"1.12", "1.12.0"}, {"1.12.5"}, {"1.13"}, {"1.20"}, {"1.21rc2"}, {"1.21rc10"}, {"1.21", "1.21.0"}, {"1.21.3"}, {"1.21.10"}, {"1.22"}, {"2.0"}}
		for i, ga := range order {
			for j, gb := range order {
				for _, a := range ga {
					for _, b := range gb {
						c.Case("goversion/"+a+"/"+b, func(x *vCase) {
							want := 0
							if i < j {
								want = -1
							} else if i > j {
								want = 1
							}
							if got := compareGoVersions(a, b); got != want {
								x.Fail("compare %s %s: %d want %d", a, b, got, want)
							}
							if got := IsGoVersionBelowMinimum(a); got != (i < 4) {
								x.Fail("%s below the minimum %s: %v", a, MinGoVersion, got)
							}
							x.States(1)
							x.Transitions(1)
							x.Traces(1)
						})
					}
				}
			}
		}
		c.Case("goversion/none", func(x *vCase) {
			if IsGoVersionBelowMinimum("") {
				x.Fail("no version counts as too old")
			}
		})
	})

	// which changed functions are left out as their module is too old
	vRegister("filter", func(c *vCtx) {
		mods := []*ModuleChange{nil, {Name: "ex.org/old", GoVersion: "1.9"}, {Name: "ex.org/new", GoVersion: "1.22"}, {Name: "ex.org/none"}, {Name: "ex.org/oldi", GoVersion: "1.12", Indirect: true}, {Name: "ex.org/newi", GoVersion: "1.13", Indirect: true}}
		kinds := len(mods) + 1 // or no function
		for n := 0; n < kinds*kinds*kinds*kinds; n++ {
			c.Case(fmt.Sprintf("filter/%d", n), func(x *vCase) {
				in, want, skip := ReachableModuleChange{}, map[*ModuleFunction]bool{}, 0
				for i, v := 0, n; i < 4; i, v = i+1, v/kinds {
					k := v % kinds
					if k == len(mods) {
						continue
					}
					f := &ModuleFunction{Function: Function{FunctionIdent: fmt.Sprint("ex.org/x:F", i), FunctionName: fmt.Sprint("F", i)}, Module: mods[k]}
					in[f.FunctionIdent] = f
					if k == 1 || k == 4 {
						skip++
					} else {
						want[f] = true
					}
				}
				got, n := FilterModulesByGoVersion(in)
				if n != skip || len(got) != len(want) {
					x.Fail("%d functions remain want %d, %d are skipped want %d", len(got), len(want), n, skip)
				}
				for _, f := range got {
					if !want[f] {
						x.Fail("%s of %v remains or is there twice", f.FunctionIdent, f.Module)
					}
					delete(want, f)
				}
				x.States(1)
				x.Transitions(len(in))
				x.Traces(1)
			})
		}
	})

	// where a version is in the module cache
	vRegister("cache", func(c *vCtx) {
		paths := map[string]string{"ex.org/a": "ex.org/a", "ex.org/A": "ex.org/!a", "ex.org/aB/c": "ex.org/a!b/c", "ex.org/a/v2": "ex.org/a/v2"}
		versions := map[string]string{"v1.2.0": "v1.2.0", "v1.2.0-RC1": "v1.2.0-!r!c1", "v1.2.0-rc1": "v1.2.0-rc1", "v2.0.0+incompatible": "v2.0.0+incompatible"}
		dir := c13Dir()
		for p, ep := range paths {
			for v, ev := range versions {
				vMust(os.MkdirAll(filepath.Join(dir, ep+"@"+ev), 0o755))
				_ = v
				_ = p
			}
		}
		for p, ep := range paths {
			for v, ev := range versions {
				c.Case("cache/"+p+"@"+v, func(x *vCase) {
					got, err := FindModulePathInCache(dir, p, v)
					if err != nil || got != filepath.Join(dir, ep+"@"+ev) {
						x.Fail("%s@%s: %s %v", p, v, got, err)
					}
					if got, err := FindModulePathInCache(dir, p, v+"9"); err == nil {
						x.Fail("%s@%s9 does not exist: %s", p, v, got)
					}
					x.States(1)
					x.Transitions(1)
					x.Traces(1)
				})
			}
		}
	})
}

func c13Set(l []string) []string {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

type c13Member struct{ dir, gover, va, vb string }

func members2[T any](l []T, f func(T) c13Member) []c13Member {
	var out []c13Member
	for _, e := range l {
		out = append(out, f(e))
	}
	return out
}

func c13CheckWork(x *vCase, dir string, workless bool, members []c13Member, rankGo func(string) int) {
	hasRoot := len(members) > 0 && members[0].dir == "."
	// all go.mod files
	files, err := ProjectGoModFiles(dir)
	var want []string
	for _, m := range members {
		want = append(want, filepath.Join(dir, m.dir, "go.mod"))
	}
	sort.Strings(want)
	if !hasRoot && workless {
		if err == nil {
			x.Fail("no error without go.mod and go.work: %v", files)
		}
	} else if err != nil || !c13Eq(files, want) {
		x.Fail("module files %v %v want %v", files, err, want)
		return
	}
	// package patterns
	pats, err := ProjectPackagePatterns(dir)
	var wantP []string
	for _, f := range want {
		rel, _ := filepath.Rel(dir, filepath.Dir(f))
		if rel == "." {
			wantP = append(wantP, "./...")
		} else {
			wantP = append(wantP, "./"+rel+"/...")
		}
	}
	if hasRoot || !workless {
		if err != nil || !c13Eq(pats, wantP) {
			x.Fail("patterns %v %v want %v", pats, err, wantP)
		}
	}
	// dependencies: the oldest or newest version over all members, oldest go version
	for _, newest := range []bool{false, true} {
		deps, gov, err := parseProjectDeps(dir, newest)
		if len(members) == 0 {
			if err == nil {
				x.Fail("dependencies without any module: %v", deps)
			}
			continue
		}
		if err != nil {
			x.Fail("dependencies: %v", err)
			return
		}
		wantD := map[string]string{}
		wantG := ""
		pick := func(mod, v string) {
			if v == "" {
				return
			}
			o, ok := wantD[mod]
			if !ok || newest && c13Rank(v) > c13Rank(o) || !newest && c13Rank(v) < c13Rank(o) {
				wantD[mod] = v
			}
		}
		for _, m := range members {
			pick("ex.org/a", m.va)
			pick("ex.org/b", m.vb)
			if m.gover != "" && (wantG == "" || rankGo(m.gover) < rankGo(wantG)) {
				wantG = m.gover
			}
		}
		if fmt.Sprint(deps) != fmt.Sprint(wantD) {
			x.Fail("dependencies (newest=%v) %v want %v, members %+v", newest, deps, wantD, members)
		}
		if gov != wantG {
			x.Fail("oldest go version %q want %q, members %+v", gov, wantG, members)
		}
	}
	// the version in use: of the first module file that requires it
	for k, mod := range []string{"ex.org/a", "ex.org/b", "ex.org/none"} {
		v, ind, err := FindModuleVersion(dir, mod)
		if !hasRoot && workless {
			if err == nil {
				x.Fail("version of %s without any module: %s", mod, v)
			}
			continue
		}
		seen := map[string]bool{}
		for _, m := range members {
			if w := []string{m.va, m.vb, ""}[k]; w != "" {
				seen[w] = true
			}
		}
		if err != nil {
			x.Fail("version of %s: %v", mod, err)
		} else if len(seen) == 0 && v != "" || len(seen) > 0 && !seen[v] || ind != (k == 1 && v != "") {
			x.Fail("version of %s: %q indirect=%v, members %+v", mod, v, ind, members)
		}
	}
}
