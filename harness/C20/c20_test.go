package lens

// C20: commands. Every command the package starts is replaced by a stand-in that records the environment, directory and
// arguments it really got and then prints and ends as told; all combinations of ambient and requested environments,
// output sequences and ways to end are run.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

type c20World struct {
	root, bin, rec string
	saved          []string
}

func c20New() *c20World {
	root, err := os.MkdirTemp(vScratch(), "c20")
	vMust(err)
	root, err = filepath.EvalSymlinks(root)
	vMust(err)
	w := &c20World{root: root, bin: filepath.Join(root, "bin"), rec: filepath.Join(root, "rec"), saved: os.Environ()}
	for _, d := range []string{w.bin, w.rec, filepath.Join(root, "work", "in ner")} {
		vMust(os.MkdirAll(d, 0o755))
	}
	script := strings.ReplaceAll(`#!/bin/sh
/bin/cat /proc/$$/environ > 'REC/env'
/bin/pwd -P > 'REC/cwd'
for a in "$@"; do printf '%s\0' "$a"; done > 'REC/args'
echo x >> 'REC/calls'
if [ -f 'REC/then' ]; then . 'REC/then'; fi
`, "REC", w.rec)
	for _, n := range []string{"go", "tool"} {
		vMust(os.WriteFile(filepath.Join(w.bin, n), []byte(script), 0o755))
	}
	return w
}

func (w *c20World) done() {
	os.Clearenv()
	for _, e := range w.saved {
		i := strings.Index(e[1:], "=") + 1
		_ = os.Setenv(e[:i], e[i+1:])
	}
	vMust(os.RemoveAll(w.root))
}

func (w *c20World) ambient(env []string) {
	os.Clearenv()
	for _, e := range env {
		k, v, _ := strings.Cut(e, "=")
		vMust(os.Setenv(k, v))
	}
	vMust(os.Setenv("PATH", w.bin))
}

func (w *c20World) then(s string) {
	vMust(os.WriteFile(filepath.Join(w.rec, "then"), []byte(s), 0o644))
}

func (w *c20World) clear() {
	for _, f := range []string{"env", "cwd", "args", "calls"} {
		_ = os.Remove(filepath.Join(w.rec, f))
	}
}

func (w *c20World) read(f string) string {
	b, err := os.ReadFile(filepath.Join(w.rec, f))
	if err != nil {
		return "<" + f + " not recorded>"
	}
	return string(b)
}

func c20Split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\x00"), "\x00")
}

// quiet sends the standard streams to files and returns what was written.
func c20Quiet(dir string, f func()) (string, string) {
	o, e := os.Stdout, os.Stderr
	fo, err := os.Create(filepath.Join(dir, "stdout"))
	vMust(err)
	fe, err := os.Create(filepath.Join(dir, "stderr"))
	vMust(err)
	os.Stdout, os.Stderr = fo, fe
	defer func() {
		os.Stdout, os.Stderr = o, e
	}()
	f()
	vMust(fo.Close())
	vMust(fe.Close())
	bo, err := os.ReadFile(fo.Name())
	vMust(err)
	be, err := os.ReadFile(fe.Name())
	vMust(err)
	return string(bo), string(be)
}

func c20Subsets(n int) [][]int {
	var out [][]int
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		out = append(out, s)
	}
	return out
}

func c20Env(ambient, asked []string, path string) map[string]string {
	want := map[string]string{"PATH": path}
	for _, e := range ambient {
		k, v, _ := strings.Cut(e, "=")
		if !strings.HasPrefix(k, "LD_") {
			want[k] = v
		}
	}
	for _, e := range asked {
		k, v, _ := strings.Cut(e, "=")
		want[k] = v
	}
	return want
}

func c20CheckEnv(x *vCase, what string, got []string, want map[string]string) {
	seen := map[string]string{}
	for _, e := range got {
		k, v, _ := strings.Cut(e, "=")
		if _, dup := seen[k]; dup {
			x.Fail("%s: %s is set twice in %q", what, k, got)
		}
		seen[k] = v
	}
	for k, v := range want {
		if g, ok := seen[k]; !ok {
			x.Fail("%s: %s=%s is missing from %q", what, k, v, got)
		} else if g != v {
			x.Fail("%s: %s is %q, want %q", what, k, g, v)
		}
	}
	for k := range seen {
		if _, ok := want[k]; !ok {
			x.Fail("%s: %s=%s was not asked for", what, k, seen[k])
		}
	}
}

var c20Starters = []string{"exec", "logged", "captured", "test", "restore"}

func (w *c20World) start(kind, dir string, env []string) error {
	switch kind {
	case "exec":
		return NewProjectExec(dir, env, "tool", "a b", "", "-c").Run()
	case "logged":
		return NewProjectLoggedExec(dir, env, "tool", "a b", "", "-c").Run()
	case "captured":
		_, err := NewProjectCapturedOutputExec(dir, env, "tool", "a b", "", "-c")
		return err
	case "test":
		return ExecGoTest(dir, env, io.Discard, &TestFunction{Function: Function{FunctionName: "TestA", FilePath: filepath.Join(dir, "a_test.go")}})
	default:
		pkg := filepath.Join(w.root, "pkg")
		vMust(os.MkdirAll(pkg, 0o755))
		vMust(os.WriteFile(filepath.Join(pkg, "p.go"), []byte("package p\n"), 0o644))
		m := &ASTModifier{}
		vMust(m.InjectASTClient(pkg, 0, 3, 100))
		w.clear()
		return errors.Join(m.Restore(env)...)
	}
}

func init() {
	vRegister("environment", func(c *vCtx) {
		w := c20New()
		defer w.done()
		amb := []string{"A=1", "AB=x y", "LD_LIBRARY_PATH=/nowhere", "GOPATH=/old", "gopath=", "GOMODCACHE=/oldmod=2"}
		ask := []string{"A=2", "A=", "GOPATH=/new", "GOMODCACHE=/a=b", "NEW=n m", "AB=A=1", "LD_X=1"}
		var asks [][]string
		asks = append(asks, nil)
		for _, a := range ask {
			asks = append(asks, []string{a})
			for _, b := range ask {
				asks = append(asks, []string{a, b})
			}
		}
		if c.Thorough() {
			for _, a := range ask {
				for _, b := range ask {
					for _, d := range ask {
						asks = append(asks, []string{a, b, d})
					}
				}
			}
		}
		dirs := []string{filepath.Join(w.root, "work"), filepath.Join(w.root, "work", "in ner")}
		for si, s := range c20Subsets(len(amb)) {
			for ai, a := range asks {
				for ki, kind := range c20Starters {
					if !c.Thorough() && len(a) == 2 && (si+ai+ki)%5 != 0 {
						continue
					}
					c.Case(fmt.Sprintf("ambient=%v asked=%q %s", s, a, kind), func(x *vCase) {
						var env []string
						for _, i := range s {
							env = append(env, amb[i])
						}
						w.ambient(env)
						w.then("exit 0")
						w.clear()
						before := strings.Join(os.Environ(), "\n")
						asked := append(make([]string, 0, 8), a...)
						dir := dirs[(si+ai)%2]
						var err error
						_, _ = c20Quiet(w.root, func() { err = w.start(kind, dir, asked) })
						if err != nil {
							x.Fail("%s failed: %v", kind, err)
							return
						}
						if w.read("calls") != "x\n" {
							x.Fail("started %q times", w.read("calls"))
						}
						c20CheckEnv(x, kind, c20Split(w.read("env")), c20Env(env, a, w.bin))
						if got := strings.TrimSpace(w.read("cwd")); kind != "restore" && got != dir {
							x.Fail("%s ran in %s, want %s", kind, got, dir)
						}
						args := c20Split(w.read("args"))
						switch kind {
						case "exec", "logged", "captured":
							if fmt.Sprintf("%q", args) != `["a b" "" "-c"]` {
								x.Fail("arguments %q", args)
							}
						case "restore":
							if len(args) < 2 || args[0] != "clean" {
								x.Fail("restore ran go %q", args)
							}
							has := map[string]bool{}
							for _, a := range args {
								has[a] = true
							}
							if !has["-cache"] || !has["-testcache"] || has["-modcache"] {
								x.Fail("restore cleans with %q", args)
							}
						}
						if now := strings.Join(os.Environ(), "\n"); now != before {
							x.Fail("the environment of the process changed from\n%s\nto\n%s", before, now)
						}
						if fmt.Sprintf("%q", asked) != fmt.Sprintf("%q", append([]string{}, a...)) {
							x.Fail("the list of requested entries was changed to %q", asked)
						}
						x.States(1)
						x.Traces(1)
						x.Transitions(len(env) + len(a))
					})
				}
			}
		}
		c.Case("locations", func(x *vCase) {
			for _, gp := range []string{"", "/g", "/g h", "a=b"} {
				for _, mc := range []string{"", "/m", "/g", "a=b"} {
					want := map[string]string{}
					if gp != "" {
						want["GOPATH"] = gp
					}
					if mc != "" {
						want["GOMODCACHE"] = mc
					}
					c20CheckEnv(x, "GoEnv", GoEnv(gp, mc), want)
					x.States(1)
				}
			}
		})
	})

	vRegister("test-command", func(c *vCtx) {
		w := c20New()
		defer w.done()
		names := []string{"Test", "TestA", "TestAB", "TestBA", "TestA_", "TestÄ", "Test1", "TestTestA", "Test_A1"}
		outs := []string{"", "echo one", "echo one; echo two >&2", "echo e >&2; printf x; echo e >&2", "/usr/bin/head -c 70000 /dev/zero >&2; echo end"}
		wants := []string{"", "one\n", "one\ntwo\n", "e\nxe\n", strings.Repeat("\x00", 70000) + "end\n"}
		ends := []struct {
			how  string
			fail bool
		}{{"exit 0", false}, {"exit 1", true}, {"exit 2", true}, {"exit 137", true}, {"kill -9 $$", true}}
		for ni, n := range names {
			for oi, o := range outs {
				for _, e := range ends {
					for _, sink := range []string{"buffer", "limited", "discard"} {
						c.Case(fmt.Sprintf("%s %q %s %s", n, o, e.how, sink), func(x *vCase) {
							w.ambient([]string{"A=1"})
							w.then(o + "\n" + e.how + "\n")
							w.clear()
							var buf bytes.Buffer
							out := map[string]io.Writer{"buffer": &buf, "limited": newLimitedRollingBufferWriter(&buf, 1<<20), "discard": io.Discard}[sink]
							dir := filepath.Join(w.root, "work")
							err := ExecGoTest(dir, []string{"B=2"}, out, &TestFunction{Function: Function{FunctionName: n, FunctionIdent: "p:" + n, FilePath: filepath.Join(dir, "x_test.go")}})
							if (err != nil) != e.fail {
								x.Fail("the test process ended with %s, the answer is %v", e.how, err)
							}
							if sink != "discard" && buf.String() != wants[oi] {
								x.Fail("the output is %d bytes, want %d", buf.Len(), len(wants[oi]))
							}
							if got := strings.TrimSpace(w.read("cwd")); got != dir {
								x.Fail("ran in %s, want %s", got, dir)
							}
							c20Args(x, c20Split(w.read("args")), n, names)
							x.States(1)
							x.Traces(1)
							x.Transitions(1 + ni)
						})
					}
				}
			}
		}
		c.Case("no go command", func(x *vCase) {
			w.ambient(nil)
			vMust(os.Setenv("PATH", filepath.Join(w.root, "work")))
			if err := ExecGoTest(filepath.Join(w.root, "work"), nil, io.Discard, &TestFunction{Function: Function{FunctionName: "TestA"}}); err == nil {
				x.Fail("a test that cannot be started counts as passed")
			}
			if b, err := NewProjectCapturedOutputExec(w.root, nil, "go"); err == nil || len(b) != 0 {
				x.Fail("a command that cannot be started: %q %v", b, err)
			}
		})
	})

	vRegister("captured-output", func(c *vCtx) {
		w := c20New()
		defer w.done()
		chunks := []struct{ cmd, out, err string }{
			{"echo a", "a\n", ""}, {"printf b", "b", ""}, {"echo c >&2", "", "c\n"},
			{"/usr/bin/head -c 70000 /dev/zero", strings.Repeat("\x00", 70000), ""},
			{"/usr/bin/head -c 66000 /dev/zero | /usr/bin/tr '\\0' e >&2", "", strings.Repeat("e", 66000)},
		}
		depth := 3
		if c.Thorough() {
			depth = 4
		}
		var seqs [][]int
		var rec func(p []int)
		rec = func(p []int) {
			seqs = append(seqs, append([]int{}, p...))
			if len(p) == depth {
				return
			}
			for i := range chunks {
				rec(append(append([]int{}, p...), i))
			}
		}
		rec(nil)
		for _, s := range seqs {
			for _, end := range []int{0, 3} {
				c.Case(fmt.Sprintf("%v exit %d", s, end), func(x *vCase) {
					w.ambient(nil)
					var sc, wo, we string
					for _, i := range s {
						sc += chunks[i].cmd + "\n"
						wo += chunks[i].out
						we += chunks[i].err
					}
					w.then(sc + fmt.Sprintf("exit %d\n", end))
					var got []byte
					var err error
					so, se := c20Quiet(w.root, func() { got, err = NewProjectCapturedOutputExec(w.root, nil, "tool") })
					var ee *exec.ExitError
					if end == 0 && err != nil || end != 0 && (!errors.As(err, &ee) || ee.ExitCode() != end) {
						x.Fail("the command ended with %d, the answer is %v", end, err)
					}
					if so != wo || se != we {
						x.Fail("passed on %d and %d bytes, written were %d and %d", len(so), len(se), len(wo), len(we))
					}
					if !c20Merge(string(got), wo, we) {
						x.Fail("the captured output (%d bytes) does not consist of the %d and %d bytes written", len(got), len(wo), len(we))
					}
					x.States(1)
					x.Traces(1)
					x.Transitions(len(s))
				})
			}
		}
	})

	vRegister("limited-output", func(c *vCtx) {
		limits := []int{8, 9, 16, 64}
		depth := 4
		if c.Thorough() {
			depth = 5
		}
		for _, lim := range limits {
			sizes := []int{0, 1, lim / 2, lim - 1, lim, lim + 1, 3 * lim}
			for _, s := range c20Seqs(len(sizes), depth) {
				c.Case(fmt.Sprintf("limit=%d %v", lim, s), func(x *vCase) {
					var buf bytes.Buffer
					lw := newLimitedRollingBufferWriter(&buf, lim)
					var all []byte
					for k, i := range s {
						p := make([]byte, sizes[i])
						for j := range p {
							p[j] = byte('A' + (len(all)+j)%53)
						}
						keep := string(p)
						n, err := lw.Write(p)
						if n != len(p) || err != nil {
							x.Fail("write %d of %d bytes answers %d, %v", k, len(p), n, err)
						}
						if string(p) != keep {
							x.Fail("the caller's bytes were changed")
						}
						all = append(all, p...)
						for j := range p {
							p[j] = '#' // the caller may use its buffer again
						}
						got := buf.String()
						if len(all) <= lim && got != string(all) {
							x.Fail("%d bytes fit into %d, kept %q", len(all), lim, got)
						} else if len(got) > lim {
							x.Fail("%d bytes kept, limit %d", len(got), lim)
						} else if len(all) > lim {
							rest, cut := strings.CutPrefix(got, "...")
							if !cut || len(rest) < lim/2 || !strings.HasSuffix(string(all), rest) {
								x.Fail("kept %q of %q, which is not its most recent part", got, all)
							}
						}
						x.Transitions(1)
					}
					x.States(1)
					x.Traces(1)
				})
			}
		}
	})

	vRegister("tee", func(c *vCtx) {
		// each writer: nil, good, failing, short without error, closing fine, closing with an error
		kinds := []string{"nil", "good", "fail", "short", "closer", "closer-error"}
		depth := 4
		for _, ks := range c20Seqs(len(kinds), depth) {
			if len(ks) == 0 {
				continue
			}
			c.Case(fmt.Sprint(ks), func(x *vCase) {
				var ws []io.Writer
				var sinks []*c20Sink
				usable := 0
				for _, k := range ks {
					if kinds[k] == "nil" {
						ws = append(ws, nil)
						continue
					}
					s := &c20Sink{kind: kinds[k]}
					usable++
					sinks = append(sinks, s)
					if strings.HasPrefix(s.kind, "closer") {
						ws = append(ws, &c20Closer{s})
					} else {
						ws = append(ws, s)
					}
				}
				if usable == 0 {
					return
				}
				t := TeeWriter(ws...)
				bad := 0
				wantClose := 0
				for _, s := range sinks {
					if s.kind == "fail" || s.kind == "short" {
						bad++
					}
					if s.kind == "closer-error" {
						wantClose++
					}
				}
				var want string
				for _, p := range []string{"one", "", "two\n", strings.Repeat("big ", 300000)} {
					n, err := t.Write([]byte(p))
					want += p
					failing := false
					for _, s := range sinks {
						if s.kind == "fail" || s.kind == "short" && len(p) > 0 && len(sinks) > 1 {
							failing = true
						}
					}
					if !failing && bad == 0 && (err != nil || n != len(p)) {
						x.Fail("write %q answers %d, %v", p, n, err)
					}
					for _, s := range sinks {
						if s.kind == "fail" && err == nil {
							x.Fail("a sink failed and write %q reports success", p)
						}
					}
					if err == nil && n == len(p) && len(p) > 0 {
						for _, s := range sinks {
							if s.kind == "short" {
								x.Fail("a sink took less than %q and write reports %d, %v", p, n, err)
							}
						}
					}
				}
				for i, s := range sinks {
					if s.got.String() != want {
						x.Fail("sink %d (%s) was given %q, written was %q", i, s.kind, s.got.String(), want)
					}
				}
				err := t.Close()
				if (err != nil) != (wantClose > 0) {
					x.Fail("close answers %v with %d sinks failing to close", err, wantClose)
				}
				for i, s := range sinks {
					if strings.HasPrefix(s.kind, "closer") && s.closed != 1 {
						x.Fail("sink %d closed %d times", i, s.closed)
					}
				}
				x.States(1)
				x.Traces(1)
				x.Transitions(len(sinks) * 5)
			})
		}
	})

	// the real tool: exactly the named test of a package is run, also when its result is cached already
	vRegister("real-go", func(c *vCtx) {
		dir, err := os.MkdirTemp(vScratch(), "c20real")
		vMust(err)
		defer func() { _ = os.RemoveAll(dir) }()
		names := []string{"Test", "TestA", "TestAB", "TestBA", "TestÄ", "Test_1"}
		vMust(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module m\n\ngo 1.24\n"), 0o644))
		var src strings.Builder
		src.WriteString("package m\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n\nfunc note(s string) {\n\tf, err := os.OpenFile(\"ran\", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tf.WriteString(s + \"\\n\")\n\tf.Close()\n}\n")
		for _, n := range names {
			fmt.Fprintf(&src, "\nfunc %s(t *testing.T) {\n\tnote(%q)\n\tt.Run(\"sub\", func(t *testing.T) { note(%q) })\n}\n", n, n, n+"/sub")
		}
		src.WriteString("\nfunc TestFails(t *testing.T) {\n\tnote(\"TestFails\")\n\tt.Fatal(\"reason\")\n}\n\nfunc TestPanics(t *testing.T) {\n\tnote(\"TestPanics\")\n\tpanic(\"reason\")\n}\n\nfunc BenchmarkA(b *testing.B) { note(\"BenchmarkA\") }\n\nfunc Example() {\n\tnote(\"Example\")\n\t// Output:\n}\n\nfunc FuzzA(f *testing.F) { f.Fuzz(func(t *testing.T, b []byte) { note(\"FuzzA\") }) }\n")
		vMust(os.WriteFile(filepath.Join(dir, "m_test.go"), []byte(src.String()), 0o644))
		for _, n := range append(names, "TestFails", "TestPanics") {
			for _, times := range []int{1, 2} {
				if !c.Thorough() && times == 2 && n != "TestA" {
					continue
				}
				c.Case(fmt.Sprintf("%s x%d", n, times), func(x *vCase) {
					vMust(os.RemoveAll(filepath.Join(dir, "ran")))
					var want []string
					for i := 0; i < times; i++ {
						var out bytes.Buffer
						err := ExecGoTest(dir, []string{"GOWORK=off"}, &out, &TestFunction{Function: Function{FunctionName: n, FilePath: filepath.Join(dir, "m_test.go")}})
						if fails := n == "TestFails" || n == "TestPanics"; (err != nil) != fails {
							x.Fail("%s: %v\n%s", n, err, out.String())
						} else if fails {
							want = append(want, n)
							if !strings.Contains(out.String(), "reason") {
								x.Fail("the output lacks the reason of the failure: %s", out.String())
							}
						} else {
							want = append(want, n, n+"/sub")
						}
					}
					b, _ := os.ReadFile(filepath.Join(dir, "ran"))
					if got := strings.Join(strings.Fields(string(b)), " "); got != strings.Join(want, " ") {
						x.Fail("ran %s, want %s", got, want)
					}
					x.States(1)
					x.Traces(1)
					x.Transitions(len(want))
				})
			}
		}
	})
}

type c20Sink struct {
	kind   string
	got    bytes.Buffer
	closed int
}

func (s *c20Sink) Write(p []byte) (int, error) {
	s.got.Write(p)
	switch {
	case s.kind == "fail":
		return 0, errors.New("sink failed")
	case s.kind == "short" && len(p) > 0:
		return len(p) - 1, nil
	}
	return len(p), nil
}

type c20Closer struct{ *c20Sink }

func (s *c20Closer) Close() error {
	s.closed++
	if s.kind == "closer-error" {
		return errors.New("close failed")
	}
	return nil
}

func c20Seqs(n, depth int) [][]int {
	out := [][]int{{}}
	for i := 0; i < len(out); i++ {
		if len(out[i]) < depth {
			for k := 0; k < n; k++ {
				out = append(out, append(append([]int{}, out[i]...), k))
			}
		}
	}
	return out
}

// c20Merge tells whether s is an interleaving of a and b (whose bytes differ from each other).
func c20Merge(s, a, b string) bool {
	if len(s) != len(a)+len(b) {
		return false
	}
	i, j := 0, 0
	for k := 0; k < len(s); k++ {
		switch {
		case i < len(a) && a[i] == s[k]:
			i++
		case j < len(b) && b[j] == s[k]:
			j++
		default:
			return false
		}
	}
	return true
}

// c20Args judges the arguments of go test by what the tool does with them.
func c20Args(x *vCase, args []string, name string, names []string) {
	if len(args) == 0 || args[0] != "test" {
		x.Fail("the command is go %q", args)
		return
	}
	val := map[string]string{}
	for i := 1; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			if a != "." && a != "./" {
				x.Fail("unexpected package argument %q in %q", a, args)
			}
			continue
		}
		k, v, ok := strings.Cut(strings.TrimLeft(a, "-"), "=")
		k = strings.TrimPrefix(k, "test.")
		switch k {
		case "v", "race", "short", "failfast", "json", "trimpath":
			if !ok {
				v = "true"
			}
		default:
			if !ok && i+1 < len(args) {
				i++
				v = args[i]
			}
		}
		val[k] = v
	}
	if val["short"] == "true" {
		x.Fail("the test is run in short mode: %q", args)
	}
	if val["count"] != "1" {
		x.Fail("the result may come from the cache or of several runs: %q", args)
	}
	if val["parallel"] != "1" {
		x.Fail("subtests may run at the same time: %q", args)
	}
	if d, err := time.ParseDuration(val["timeout"]); err != nil || d < 10*time.Second || d > 10*time.Minute {
		x.Fail("no sensible time limit: %q", args)
	}
	if _, ok := val["run"]; !ok {
		x.Fail("no test is selected: %q", args)
	}
	if val["skip"] != "" || val["list"] != "" || val["bench"] != "" {
		x.Fail("selects more or less than the test: %q", args)
	}
	// the pattern is split at slashes, its first part is matched against the names of top level tests
	first, _, _ := strings.Cut(val["run"], "/")
	re, err := regexp.Compile(first)
	if err != nil {
		x.Fail("pattern %q: %v", val["run"], err)
		return
	}
	var hit []string
	for _, n := range names {
		if re.MatchString(n) {
			hit = append(hit, n)
		}
	}
	sort.Strings(hit)
	if len(hit) != 1 || hit[0] != name {
		x.Fail("pattern %q selects %v, wanted is %s", val["run"], hit, name)
	}
}
