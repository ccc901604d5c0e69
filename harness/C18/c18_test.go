package lens

// C18: a configuration is accepted exactly when a run can use it. Every pair of settings is combined; checking a
// configuration does not change any file, and a corrected configuration is as good as a new one.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

var c18N int

func c18Dir() string {
	c18N++
	d := filepath.Join(vScratch(), fmt.Sprintf("c18-%d-%d", os.Getpid(), c18N))
	vMust(os.MkdirAll(d, 0o755))
	return d
}

func c18Files(dir string) map[string]string {
	out := map[string]string{}
	vMust(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		vMust(err)
		if !d.IsDir() {
			b, _ := os.ReadFile(p)
			out[p] = string(b)
		}
		return nil
	}))
	return out
}

// c18Val is one value of a setting.
type c18Val struct {
	name string
	set  func(c *Config, dir string)
	ok   bool
	mods []TargetModule
	src  bool // names an update
}

type c18Dim struct {
	name string
	vals []c18Val
}

func c18Dims() []c18Dim {
	num := func(set func(c *Config, v int), good, bad []int) []c18Val {
		var out []c18Val
		for _, v := range good {
			out = append(out, c18Val{name: strconv.Itoa(v), set: func(c *Config, _ string) { set(c, v) }, ok: true})
		}
		for _, v := range bad {
			out = append(out, c18Val{name: strconv.Itoa(v), set: func(c *Config, _ string) { set(c, v) }})
		}
		return out
	}
	str := func(set func(c *Config, v string), good, bad []string) []c18Val {
		var out []c18Val
		for _, v := range good {
			out = append(out, c18Val{name: v, set: func(c *Config, _ string) { set(c, v) }, ok: true})
		}
		for _, v := range bad {
			out = append(out, c18Val{name: v, set: func(c *Config, _ string) { set(c, v) }})
		}
		return out
	}
	path := func(set func(c *Config, v string), good, bad []string) []c18Val {
		var out []c18Val
		for _, v := range good {
			out = append(out, c18Val{name: v, set: func(c *Config, dir string) { set(c, filepath.Join(dir, v)) }, ok: true})
		}
		for _, v := range bad {
			out = append(out, c18Val{name: v, set: func(c *Config, dir string) { set(c, filepath.Join(dir, v)) }})
		}
		return append(out, c18Val{name: "none", set: func(c *Config, _ string) { set(c, "") }, ok: true})
	}
	module := func(s string, list bool, ok bool, mods ...TargetModule) c18Val {
		return c18Val{name: s, ok: ok, mods: mods, src: s != "", set: func(c *Config, _ string) {
			if list {
				c.ModulesVersionFlag = s
			} else {
				c.ModuleVersionFlag = s
			}
		}}
	}
	a, b := TargetModule{Name: "ex.org/a", Version: "v1.2.3"}, TargetModule{Name: "b.net", Version: "latest"}
	gomod := path(func(c *Config, v string) { c.UpdatedGoModFile = v }, []string{"new.mod"}, []string{"missing", "project"})
	gowork := path(func(c *Config, v string) { c.UpdatedGoWorkFile = v }, []string{"new.work"}, []string{"missing", "project"})
	for i := range gomod {
		gomod[i].src, gowork[i].src = gomod[i].name != "none", gowork[i].name != "none"
	}
	gomod[0], gomod[len(gomod)-1] = gomod[len(gomod)-1], gomod[0]
	gowork[0], gowork[len(gowork)-1] = gowork[len(gowork)-1], gowork[0]
	return []c18Dim{
		{"project", []c18Val{{name: "abs", ok: true, set: func(c *Config, dir string) { c.ProjectDir = filepath.Join(dir, "project") }}, {name: "rel", ok: true, set: func(c *Config, dir string) { c.ProjectDir = "rel/x/.." }}, {name: "none", set: func(c *Config, dir string) {}}}},
		{"module", []c18Val{module("ex.org/a@v1.2.3", false, true, a), module("", false, true), module("b.net@latest", false, true, b), module("ex.org/a", false, false), module("@v1", false, false), module("ex.org/a@", false, false), module("plain@v1", false, false), module("ex.org/a@v1@v2", false, true, TargetModule{Name: "ex.org/a", Version: "v1@v2"})}},
		{"modules", []c18Val{module("", true, true), module("ex.org/a@v1.2.3", true, true, a), module("b.net@latest, ex.org/a@v1.2.3", true, true, b, a), module(" b.net@latest\t, ex.org/a@v1.2.3 ", true, true, b, a), module("ex.org/a@v1.2.3,", true, false), module(",", true, false), module("b.net@latest,plain@v1", true, false), module("b.net@latest,ex.org/a", true, false)}},
		{"gomod", gomod},
		{"gowork", gowork},
		{"port", num(func(c *Config, v int) { c.AstMonitorPort = v }, []int{44440, 1024, 65535}, []int{1023, 65536, 0, -1})},
		{"recurse", num(func(c *Config, v int) { c.MaxFieldRecurse = v }, []int{20, 1, 100}, []int{0, 101, -1})},
		{"len", num(func(c *Config, v int) { c.MaxFieldLen = v }, []int{1024, 1, 1048576}, []int{0, 1048577, -1})},
		{"cache", num(func(c *Config, v int) { c.CacheMB = v }, []int{200, 1, 10240}, []int{0, 10241, -1})},
		{"multiplier", num(func(c *Config, v int) { c.TimeMultiplier = v }, []int{2, 1, 100}, []int{0, 101, -1})},
		{"scope", str(func(c *Config, v string) { c.MutationScope = v }, []string{"line", "function", "area", "none"}, []string{"", "Line", "full"})},
		{"set", str(func(c *Config, v string) { c.MutationMode = v }, []string{"fast", "full"}, []string{"", "none", "targeted"})},
		{"tests", str(func(c *Config, v string) { c.MutationTests = v }, []string{"targeted", "full"}, []string{"", "none", "fast"})},
		{"json", path(func(c *Config, v string) { c.ReportJsonFile = v }, []string{"out/r.json", "new1/new2/r.json", "out/old.json"}, []string{"file/r.json", "out"})},
		{"charts", path(func(c *Config, v string) { c.ReportChartsFile = v }, []string{"out/r.png", "out/r.jpg", "out/r.jpeg", "out/r.svg", "new1/new3/r.png", "out/old.png"}, []string{"file/r.png", "out/dir.png", "out/r.gif", "out/png"})},
	}
}

func c18World() string {
	dir := c18Dir()
	for f, s := range map[string]string{"project/go.mod": "module p\n", "new.mod": "module p\n", "new.work": "go 1.21\n", "file": "f", "out/.write_test": "mine", "out/old.json": "{}", "out/old.png": "png", "out/dir.png/x": "x"} {
		vMust(os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755))
		vMust(os.WriteFile(filepath.Join(dir, f), []byte(s), 0o644))
	}
	return dir
}

func c18Check(x *vCase, dims []c18Dim, pick []int) {
	dir := c18World()
	defer os.RemoveAll(dir)
	build := func(pick []int) (*Config, bool, []TargetModule) {
		c := &Config{}
		ok, src := true, 0
		var mods []TargetModule
		for i, d := range dims {
			v := d.vals[pick[i]]
			v.set(c, dir)
			ok = ok && v.ok
			if v.src {
				src++
			}
			mods = append(mods, v.mods...)
		}
		ok = ok && src > 0 && (c.UpdatedGoModFile == "" || c.UpdatedGoWorkFile == "")
		return c, ok, mods
	}
	show := func(pick []int) string {
		var s []string
		for i, d := range dims {
			if pick[i] != 0 {
				s = append(s, d.name+"="+d.vals[pick[i]].name)
			}
		}
		return strings.Join(s, " ")
	}
	c, ok, mods := build(pick)
	before := c18Files(dir)
	err := c.Prepare()
	x.States(1)
	x.Traces(1)
	x.Transitions(1)
	if (err == nil) != ok {
		x.Fail("%s: should be accepted %v, error %v", show(pick), ok, err)
		return
	}
	if after := c18Files(dir); !reflect.DeepEqual(before, after) {
		x.Fail("%s: files changed: %v to %v", show(pick), before, after)
		return
	}
	check := func(c *Config, mods []TargetModule, how string) {
		if len(mods) != len(c.TargetModules) || len(mods) > 0 && !reflect.DeepEqual(mods, c.TargetModules) {
			x.Fail("%s: %s modules %v want %v", show(pick), how, c.TargetModules, mods)
		}
		if w, _ := filepath.Abs(c.ProjectDir); c.AbsProjDir != w {
			x.Fail("%s: %s project %s", show(pick), how, c.AbsProjDir)
		}
		if err := c.Prepare(); err == nil {
			x.Fail("%s: %s a second Prepare is accepted", show(pick), how)
		}
		x.Transitions(1)
	}
	if ok {
		check(c, mods, "")
		return
	}
	// correct what is wrong and try again with the same configuration
	good := append([]int{}, pick...)
	for i := range dims {
		if !dims[i].vals[good[i]].ok {
			good[i] = 0
		}
	}
	g, ok, mods := build(good)
	if !ok {
		for i, d := range dims {
			if d.name == "gowork" || d.name == "module" {
				good[i] = 0
			}
		}
		g, ok, mods = build(good)
	}
	if !ok {
		return
	}
	keep := *c
	vc, vg := reflect.ValueOf(c).Elem(), reflect.ValueOf(g).Elem()
	for i := 0; i < vc.NumField(); i++ {
		if n := vc.Type().Field(i).Name; vc.Field(i).CanSet() && n != "TargetModules" && n != "AbsProjDir" {
			vc.Field(i).Set(vg.Field(i))
		}
	}
	if err := c.Prepare(); err != nil {
		x.Fail("%s: corrected to %s: %v", show(pick), show(good), err)
		return
	}
	_ = keep
	check(c, mods, "corrected to "+show(good))
}

func init() {
	vRegister("settings", func(c *vCtx) {
		dims := c18Dims()
		depth := 2
		if c.Thorough() {
			depth = 3
		}
		// all combinations in which up to depth settings differ from the first value
		var walk func(from int, pick []int, left int)
		walk = func(from int, pick []int, left int) {
			if c.Stop() {
				return
			}
			p := append([]int{}, pick...)
			c.Case(fmt.Sprint(p), func(x *vCase) { c18Check(x, dims, p) })
			if left == 0 {
				return
			}
			for i := from; i < len(dims); i++ {
				for v := 1; v < len(dims[i].vals); v++ {
					pick[i] = v
					walk(i+1, pick, left-1)
				}
				pick[i] = 0
			}
		}
		walk(0, make([]int, len(dims)), depth)
	})
	vRegister("sources", func(c *vCtx) {
		// all combinations of the ways to name an update
		dims := c18Dims()
		pick := make([]int, len(dims))
		for pick[1] = 0; pick[1] < len(dims[1].vals); pick[1]++ {
			for pick[2] = 0; pick[2] < len(dims[2].vals); pick[2]++ {
				for pick[3] = 0; pick[3] < len(dims[3].vals); pick[3]++ {
					for pick[4] = 0; pick[4] < len(dims[4].vals); pick[4]++ {
						p := append([]int{}, pick...)
						c.Case(fmt.Sprint(p), func(x *vCase) { c18Check(x, dims, p) })
					}
				}
			}
		}
	})
	vRegister("flags", func(c *vCtx) {
		c18Flags(c)
	})
}

// the command line, through a small program that prints the configuration it leads to
const c18Main = `package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/PatchLens/go-update-lens/lens/cmd"
)

func main() {
	c, err := cmd.ParseFlags([]cmd.CustomFlag{{Name: "xs", DefaultValue: "d", Type: "string"}, {Name: "xi", DefaultValue: 7, Type: "int"}, {Name: "xb", DefaultValue: true, Type: "bool"}})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}
`

func c18Flags(c *vCtx) {
	_, self, _, _ := runtime.Caller(0)
	repo := filepath.Dir(filepath.Dir(self))
	if _, err := os.Stat(filepath.Join(repo, "lens", "cmd")); err != nil {
		repo = os.Getenv("VERIF_REPO")
	}
	dir := c18Dir()
	defer os.RemoveAll(dir)
	vMust(os.WriteFile(filepath.Join(dir, "main.go"), []byte(c18Main), 0o644))
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(repo, "cmd/zzverif/main.go"): filepath.Join(dir, "main.go")}})
	vMust(os.WriteFile(filepath.Join(dir, "ov.json"), ov, 0o644))
	bin := filepath.Join(dir, "flags")
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(dir, "ov.json"), "-o", bin, "./cmd/zzverif")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("%v: %s", err, out))
	}
	type flagT struct {
		flag, key string
		def       any
		vals      []any
	}
	flags := []flagT{
		{"project", "ProjectDir", "", []any{"../p q", "/abs"}},
		{"module", "ModuleVersionFlag", "", []any{"ex.org/a@v1"}},
		{"modules", "ModulesVersionFlag", "", []any{"ex.org/a@v1,b.org/c@v2"}},
		{"gomod", "UpdatedGoModFile", "", []any{"x/go.mod"}},
		{"gowork", "UpdatedGoWorkFile", "", []any{"x/go.work"}},
		{"monitorport", "AstMonitorPort", 44440, []any{1024, 0}},
		{"json", "ReportJsonFile", "modreport.json", []any{"j.json", ""}},
		{"charts", "ReportChartsFile", "modreport.png", []any{"c.svg", ""}},
		{"fieldrecurse", "MaxFieldRecurse", 20, []any{3, 500}},
		{"fieldlen", "MaxFieldLen", 1024, []any{7}},
		{"cachemb", "CacheMB", 200, []any{11}},
		{"mutationscope", "MutationScope", "line", []any{"none", "bad"}},
		{"mutationset", "MutationMode", "fast", []any{"full"}},
		{"mutationtests", "MutationTests", "targeted", []any{"full"}},
		{"tmpcopy", "TmpCopy", true, []any{false}},
		{"timemultiplier", "TimeMultiplier", 2, []any{9}},
		{"xs", "CustomFlags.xs", "d", []any{"v"}},
		{"xi", "CustomFlags.xi", 7, []any{-2}},
		{"xb", "CustomFlags.xb", true, []any{false}},
	}
	run := func(x *vCase, set map[string]any, env []string, wantPath, wantCache string) {
		var args []string
		for _, f := range flags {
			if v, ok := set[f.flag]; ok {
				args = append(args, fmt.Sprintf("-%s=%v", f.flag, v))
			}
		}
		x.States(1)
		x.Traces(1)
		x.Transitions(len(flags))
		str := func(n string) string { s, _ := set[n].(string); return s }
		ok := str("project") != "" && (str("module") != "" || str("modules") != "" || str("gomod") != "" || str("gowork") != "") && (str("gomod") == "" || str("gowork") == "")
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), env...)
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		err := cmd.Run()
		if !ok {
			if err == nil || e.Len() == 0 {
				x.Fail("%v is accepted: %s", args, o.String())
			}
			return
		}
		if err != nil {
			x.Fail("%v: %v %s", args, err, e.String())
			return
		}
		var got map[string]any
		vMust(json.Unmarshal(o.Bytes(), &got))
		for _, f := range flags {
			want := f.def
			if v, ok := set[f.flag]; ok {
				want = v
			}
			g := got[f.key]
			if n, ok := strings.CutPrefix(f.key, "CustomFlags."); ok {
				m, _ := got["CustomFlags"].(map[string]any)
				g = m[n]
				want = fmt.Sprint(want)
			}
			if fmt.Sprint(g) != fmt.Sprint(want) {
				x.Fail("%v: %s is %v want %v", args, f.key, g, want)
			}
		}
		if wantPath != "" && (got["Gopath"] != wantPath || got["Gomodcache"] != wantCache) {
			x.Fail("%v: GOPATH %v module cache %v, want %s %s", env, got["Gopath"], got["Gomodcache"], wantPath, wantCache)
		}
	}
	base := map[string]any{"project": "p", "module": "ex.org/a@v1"}
	for i := range flags {
		for j := i; j < len(flags); j++ {
			c.Case("flags "+flags[i].flag+"+"+flags[j].flag, func(x *vCase) {
				for _, a := range flags[i].vals {
					for _, b := range flags[j].vals {
						set := map[string]any{}
						for k, v := range base {
							set[k] = v
						}
						set[flags[i].flag], set[flags[j].flag] = a, b
						run(x, set, nil, "", "")
						for k := range base { // and without one that is needed
							without := map[string]any{}
							for n, v := range set {
								if n != k {
									without[n] = v
								}
							}
							run(x, without, nil, "", "")
						}
					}
				}
			})
		}
	}
	list := string(filepath.ListSeparator)
	for _, e := range []struct{ gopath, cache, wp, wc string }{
		{"/g", "", "/g", "/g/pkg/mod"}, {"/g", "/c", "/g", "/c"}, {"/g" + list + "/h", "/c", "", ""}, {"/g" + list + "/h", "", "/g", "/g/pkg/mod"},
	} {
		c.Case("env "+e.gopath+" "+e.cache, func(x *vCase) {
			run(x, base, []string{"GOPATH=" + e.gopath, "GOMODCACHE=" + e.cache}, e.wp, e.wc)
		})
	}
	_ = sort.Strings
}
