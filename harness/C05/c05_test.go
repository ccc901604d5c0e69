package lens

// C05: whatever was done to the source files through the modifier, Restore brings back exactly the original tree.

import (
	"fmt"
	"go/ast"
	"go/build"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
)

type c05Tree struct {
	root string
	fns  map[string]*Function
	orig map[string]string
}

var c05Files = []struct {
	path, data, link string
	mode             os.FileMode
}{
	{path: "prj/go.mod", data: "module ex.org/prj\n\ngo 1.21\n", mode: 0o644},
	{path: "prj/p/a.go", data: "package p\n\n// F does.\nfunc F(a int) int {\n\tif a > 1 { // odd\n\t\treturn g(a)\n\t}\n\tb   :=  a\n\treturn b + 1\n}\n\nfunc g(a int) int { return a }\n\nfunc F2(s string) (string, error) {\n\tx := s\n\treturn x, nil\n}", mode: 0o600}, // not gofmt form, no newline at the end
	{path: "prj/p/b.go", data: "package p\r\n\r\nfunc G(s string) string {\r\n\tt := s + s\r\n\treturn t\r\n}\r\n", mode: 0o755},
	{path: "prj/p/a.go.bkp", data: "user's own file\n", mode: 0o644},
	{path: "prj/p/d.go", link: "../../ext/d.go"},
	{path: "prj/q/c.go", data: "package q\n\ntype T struct{}\n\nfunc (t *T) H(n int) (r int) {\n\tr = n\n\treturn\n}\n", mode: 0o444},
	{path: "prj/q/c_test.go", data: "package q\n", mode: 0o644},
	{path: "ext/d.go", data: "package p\n\nfunc D(a int) int {\n\treturn a\n}\n", mode: 0o640},
}

func c05New(dir string) *c05Tree {
	t := &c05Tree{root: dir, fns: map[string]*Function{}}
	for _, f := range c05Files {
		p := filepath.Join(dir, f.path)
		vMust(os.MkdirAll(filepath.Dir(p), 0o755))
		if f.link != "" {
			vMust(os.Symlink(f.link, p))
			continue
		}
		vMust(os.WriteFile(p, []byte(f.data), 0o644))
		vMust(os.Chmod(p, f.mode))
	}
	fn := func(key, file, pkg, name string) {
		t.fns[key] = &Function{FilePath: filepath.Join(dir, file), PackageName: pkg, FunctionIdent: pkg + ":" + name, FunctionName: name}
	}
	fn("F", "prj/p/a.go", "ex.org/prj/p", "F")
	fn("F2", "prj/p/a.go", "ex.org/prj/p", "F2")
	fn("G", "prj/p/b.go", "ex.org/prj/p", "G")
	fn("D", "prj/p/d.go", "ex.org/prj/p", "D")
	fn("H", "prj/q/c.go", "ex.org/prj/q", "*T.H")
	t.orig = t.snap()
	return t
}

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

func (t *c05Tree) snap() map[string]string {
	m := map[string]string{}
	vMust(filepath.WalkDir(t.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(t.root, p)
		info, err := os.Lstat(p)
		if err != nil {
			return err
		}
		s := info.Mode().String()
		if info.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			s += " -> " + l
		} else if info.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += " " + string(b)
		}
		m[rel] = s
		return nil
	}))
	return m
}

// unmodified lists the source files that still have the original text.
func (t *c05Tree) unmodified() string {
	var out []string
	for _, f := range []string{"prj/p/a.go", "prj/p/b.go", "prj/p/d.go", "prj/q/c.go"} {
		data := ""
		for _, g := range c05Files {
			if g.path == f || f == "prj/p/d.go" && g.path == "ext/d.go" {
				data = g.data
			}
		}
		if b, err := os.ReadFile(filepath.Join(t.root, f)); err != nil || string(b) == data {
			out = append(out, f)
		}
	}
	return strings.Join(out, ",")
}

func c05Diff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "missing "+k)
		} else if v != w {
			out = append(out, fmt.Sprintf("changed %s:\n%q\n%q", k, v, w))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "left behind "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type c05Op struct {
	name string
	f    func(t *c05Tree, m *ASTModifier) error
}

var c05Env = []string{"GOPATH=/nonexistent"}

func c05Restore(t *c05Tree, m *ASTModifier) error {
	if errs := m.Restore(c05Env); len(errs) > 0 {
		return errs[0]
	}
	return nil
}

func c05Ops() []c05Op {
	var ops []c05Op
	add := func(n string, f func(t *c05Tree, m *ASTModifier) error) { ops = append(ops, c05Op{n, f}) }
	add("client-p", func(t *c05Tree, m *ASTModifier) error { return m.InjectASTClient(t.root+"/prj/p", 4242, 5, 100) })
	add("client-q", func(t *c05Tree, m *ASTModifier) error { return m.InjectASTClient(t.root+"/prj/q", 4242, 5, 100) })
	for _, k := range []string{"F", "G", "D", "H"} {
		add("return-"+k, func(t *c05Tree, m *ASTModifier) error {
			_, err := m.InjectFuncPointReturnStates(t.fns[k])
			return err
		})
	}
	add("panic-F2", func(t *c05Tree, m *ASTModifier) error { _, err := m.InjectFuncPointPanic(t.fns["F2"]); return err })
	add("entry-D", func(t *c05Tree, m *ASTModifier) error { _, err := m.InjectFuncPointEntry(t.fns["D"]); return err })
	add("finish-H", func(t *c05Tree, m *ASTModifier) error { _, err := m.InjectFuncPointFinish(t.fns["H"]); return err })
	add("before-F", func(t *c05Tree, m *ASTModifier) error {
		_, err := m.InjectFuncPointBeforeCall(t.fns["F"], func(*ast.CallExpr) (any, bool) { return nil, true })
		return err
	})
	for _, k := range []string{"F", "D"} {
		add("lines-"+k, func(t *c05Tree, m *ASTModifier) error {
			return m.InsertFuncLines(t.fns[k], func(int, string) (string, bool) { return "//ins", true })
		})
	}
	add("commit-a", func(t *c05Tree, m *ASTModifier) error { return m.CommitFile(t.root + "/prj/p/a.go") })
	add("commit", func(t *c05Tree, m *ASTModifier) error { return m.Commit() })
	add("restore", c05Restore)
	return ops
}

// finish restores and checks; then everything is done once more with the same modifier, and restored.
func c05Finish(x *vCase, t *c05Tree, m *ASTModifier, what string) {
	if errs := m.Restore(c05Env); len(errs) > 0 {
		x.Fail("%s: restore failed: %v", what, errs)
	}
	if d := c05Diff(t.orig, t.snap()); d != "" {
		x.Fail("%s: not restored:\n%s", what, d)
		return
	}
	if errs := m.Restore(c05Env); len(errs) > 0 {
		x.Fail("%s: second restore failed: %v", what, errs)
	}
	if d := c05Diff(t.orig, t.snap()); d != "" {
		x.Fail("%s: second restore changed the tree:\n%s", what, d)
		return
	}
	vMust(m.Commit()) // what is still pending from the sequence
	ops := c05Ops()
	for i := range ops {
		op := ops[len(ops)-1-i] // the client last, type checking it takes long
		if op.name == "restore" || op.name == "commit-a" || op.name == "client-q" {
			continue
		}
		if err := op.f(t, m); err != nil {
			x.Fail("%s: %s after the restore: %v", what, op.name, err)
			return
		}
	}
	vMust(m.Commit())
	if g := t.unmodified(); g != "" {
		x.Fail("%s: functions were not instrumented again after the restore: %s", what, g)
	}
	if errs := m.Restore(c05Env); len(errs) > 0 {
		x.Fail("%s: restore after instrumenting again failed: %v", what, errs)
	}
	if d := c05Diff(t.orig, t.snap()); d != "" {
		x.Fail("%s: not restored after instrumenting again:\n%s", what, d)
	}
}

var c05Num int

// c05NoTypes makes the lookup of compiled packages (done with the go tool below GOROOT) fail at once: type information
// of imported packages has no influence here.
func c05NoTypes() {
	build.Default.GOROOT = filepath.Join(vScratch(), "no-goroot")
	dir := filepath.Join(vScratch(), "c05-bin") // Restore only calls "go clean"
	if err := os.Symlink("/bin/true", filepath.Join(dir, "go")); err != nil && !os.IsExist(err) {
		vMust(os.MkdirAll(dir, 0o755))
		vMust(os.Symlink("/bin/true", filepath.Join(dir, "go")))
	}
	vMust(os.Setenv("PATH", dir))
}

func c05Dir() string {
	c05Num++
	return filepath.Join(vScratch(), fmt.Sprintf("c05-%d-%d", os.Getpid(), c05Num))
}

func init() {
	// every sequence of modifications
	vRegister("sequences", func(c *vCtx) {
		c05NoTypes()
		ops := c05Ops()
		depth := 3
		if c.Thorough() {
			depth = 4
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			if c.Stop() {
				return
			}
			var names []string
			for _, i := range seq {
				names = append(names, ops[i].name)
			}
			id := strings.Join(names, "/")
			c.Case("seq/"+id, func(x *vCase) {
				t := c05New(c05Dir())
				defer os.RemoveAll(t.root)
				m := &ASTModifier{}
				restored := false
				for _, i := range seq {
					if err := ops[i].f(t, m); err != nil {
						x.Fail("%s: %s: %v", id, ops[i].name, err)
						return
					}
					x.Transitions(1)
					if ops[i].name == "restore" {
						restored = true
						if d := c05Diff(t.orig, t.snap()); d != "" {
							x.Fail("%s: not restored in between:\n%s", id, d)
						}
					}
				}
				x.States(1)
				x.Traces(1)
				if restored {
					x.Outcome("restored in between")
				} else {
					x.Outcome("restored once")
				}
				c05Finish(x, t, m, id)
			})
			if len(seq) < depth {
				for i := range ops {
					rec(append(seq[:len(seq):len(seq)], i))
				}
			}
		}
		rec(nil)
	})

	// every write of a sequence cut short: files may not grow beyond a limit while the operations run
	vRegister("torn", func(c *vCtx) {
		c05NoTypes()
		limits := []uint64{0, 1, 100, 200, 400, 1000, 4000, 8000, 20000}
		seqs := [][]string{
			{"client-p"}, {"client-q"}, {"client-p", "client-q"},
			{"lines-F"}, {"lines-D"}, {"return-F", "commit"}, {"return-F", "commit-a"}, {"return-D", "commit"}, {"return-H", "commit"},
			{"return-G", "panic-F2", "commit"}, {"client-p", "return-F", "commit-a"}, {"return-F", "lines-F"}, {"lines-F", "return-F", "commit"},
			{"return-F", "return-G", "return-D", "return-H", "commit"}, {"client-p", "client-q", "return-F", "return-G", "return-D", "return-H", "before-F", "finish-H", "entry-D", "commit"},
		}
		byName := map[string]c05Op{}
		for _, op := range c05Ops() {
			byName[op.name] = op
		}
		for _, seq := range seqs {
			for from := range seq { // the limit sets in before this operation
				for to := from + 1; to <= len(seq); to++ { // and is lifted before this one
					for _, lim := range limits {
						id := fmt.Sprintf("torn/%s/%d-%d/%d", strings.Join(seq, "+"), from, to, lim)
						c.Case(id, func(x *vCase) {
							t := c05New(c05Dir())
							defer os.RemoveAll(t.root)
							m := &ASTModifier{}
							failed := false
							for i, name := range seq {
								var err error
								run := func() { err = byName[name].f(t, m) }
								if i >= from && i < to {
									c05Limited(lim, run)
								} else {
									run()
								}
								failed = failed || err != nil
								x.Transitions(1)
							}
							x.States(1)
							x.Traces(1)
							x.Outcome(fmt.Sprintf("failed=%v", failed))
							c05Finish(x, t, m, id)
						})
					}
				}
			}
		}
	})

	// files change or disappear between an edit and its commit; other operations still succeed and all is restored
	vRegister("faults", func(c *vCtx) {
		c05NoTypes()
		ops := c05Ops()
		type fault struct {
			name string
			f    func(t *c05Tree)
			undo func(t *c05Tree)
		}
		hide := func(p string) fault {
			return fault{"hide-" + p, func(t *c05Tree) { vMust(os.Rename(t.root+"/"+p, t.root+"/ext/hidden")) },
				func(t *c05Tree) { vMust(os.Rename(t.root+"/ext/hidden", t.root+"/"+p)) }}
		}
		junk := func(p string) fault { // cannot be parsed for a while
			return fault{"junk-" + p, func(t *c05Tree) {
				vMust(os.Rename(t.root+"/"+p, t.root+"/ext/hidden"))
				vMust(os.WriteFile(t.root+"/"+p, []byte("pack age"), 0o644))
			}, func(t *c05Tree) { vMust(os.Rename(t.root+"/ext/hidden", t.root+"/"+p)) }}
		}
		faults := []fault{hide("prj/p/a.go"), hide("prj/p/d.go"), hide("prj/q/c.go"), hide("prj/q"), hide("prj/p"), junk("prj/p/b.go"), junk("prj/q/c.go")}
		for _, before := range []string{"", "client-p", "return-G"} {
			for _, fl := range faults {
				for i, op := range ops {
					if op.name == "restore" || op.name == "commit" || op.name == "commit-a" {
						continue
					}
					for j := -1; j < len(ops); j++ {
						id := fmt.Sprintf("fault/%s/%s/%s/", before, fl.name, op.name)
						if j >= 0 {
							if ops[j].name == "restore" || ops[j].name == "commit" || ops[j].name == "commit-a" {
								continue
							}
							id += ops[j].name
						}
						if before == "client-p" && fl.name == "hide-prj/p" {
							continue
						}
						c.Case(id, func(x *vCase) {
							t := c05New(c05Dir())
							defer os.RemoveAll(t.root)
							m := &ASTModifier{}
							for _, b := range ops {
								if b.name == before {
									vMust(b.f(t, m))
								}
							}
							fl.f(t)
							failed := false
							do := func(f func(t *c05Tree, m *ASTModifier) error) {
								if err := f(t, m); err != nil {
									failed = true
								}
								x.Transitions(1)
							}
							do(ops[i].f)
							if j >= 0 {
								do(ops[j].f)
							}
							fl.undo(t)
							x.States(1)
							x.Traces(1)
							x.Outcome(fmt.Sprintf("failed=%v", failed))
							if err := m.Commit(); err != nil && !strings.HasPrefix(fl.name, "junk") {
								x.Fail("%s: commit of the edits that succeeded: %v", id, err)
							}
							c05Finish(x, t, m, id)
						})
					}
				}
			}
		}
	})

	// edits of different files at once
	vRegister("parallel", func(c *vCtx) {
		c05NoTypes()
		ops := c05Ops()
		for i := range ops {
			for j := range ops {
				for k := j; k < len(ops); k++ {
					if i == j || i == k || j == k || ops[i].name == "restore" || ops[j].name == "restore" || ops[k].name == "restore" || i > j {
						continue
					}
					id := "parallel/" + ops[i].name + "/" + ops[j].name + "/" + ops[k].name
					c.Case(id, func(x *vCase) {
						t := c05New(c05Dir())
						defer os.RemoveAll(t.root)
						m := &ASTModifier{}
						var wg sync.WaitGroup
						errs := make([]error, 3)
						for n, q := range []int{i, j, k} {
							wg.Add(1)
							go func() {
								defer wg.Done()
								errs[n] = ops[q].f(t, m)
							}()
						}
						wg.Wait()
						for _, err := range errs {
							if err != nil {
								x.Fail("%s: %v", id, err)
							}
						}
						x.States(1)
						x.Traces(1)
						x.Transitions(3)
						vMust(m.Commit())
						c05Finish(x, t, m, id)
					})
				}
			}
		}
	})
}

// c05Limited runs f while no file can be written beyond n bytes.
func c05Limited(n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	vMust(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	vMust(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}))
	defer func() { vMust(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}
