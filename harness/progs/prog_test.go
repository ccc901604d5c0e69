package lens

// Instrumentation harness shared by C06 (behaviour preserved) and C07 (everything that happens is reported).
//
// A program is a Go source text in which every return statement of an instrumented function is a site
// ⟦visible variables¦expr¦expr...⟧. The generator renders each program twice: "orig" (plain return statements) and
// "oracle" (the generator itself sends the message that has to arrive, then returns). "orig" is then put through the real
// injector, giving "info" (type information available to the injector) and "bare" (no type information). All four are
// compiled into one binary and run on the same inputs.

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type prog struct {
	id    string
	decl  string   // package-level declarations, also in every rendering
	src   string   // the instrumented functions
	types []string // result types of the function the sites belong to
	plain bool     // result types cannot be aliased (type parameters)
	fns   []string // names of the functions to instrument (empty: every function in src)
	cases []string // statement lists ending in return []any{...}
	imps  []string
	mode  string // "", "bare", "info": restrict the injection mode
	entry bool   // instrument with entry points instead of return states (module functions)
}

var progSite = regexp.MustCompile(`(?s)⟦(.*?)⟧`)

func (p *prog) sites(text, kind string) string {
	n := 0
	return progSite.ReplaceAllStringFunc(text, func(m string) string {
		m = strings.TrimSuffix(strings.TrimPrefix(m, "⟦"), "⟧")
		parts := strings.Split(m, "¦")
		end := strings.HasPrefix(parts[0], "END:")
		vis := strings.TrimPrefix(parts[0], "END:")
		multi := strings.HasPrefix(vis, "M:")
		vis = strings.TrimPrefix(vis, "M:")
		exprs := parts[1:]
		if kind != "orig" {
			for i := range exprs {
				exprs[i] = strings.TrimSpace(progComment.ReplaceAllString(exprs[i], ""))
			}
		}
		if kind == "orig" {
			if end {
				return ""
			}
			if len(exprs) == 0 {
				return "return"
			}
			return "return " + strings.Join(exprs, ", ")
		}
		n++
		var b strings.Builder
		b.WriteString("{ ")
		var rs []string
		if multi {
			for i := range p.types {
				rs = append(rs, fmt.Sprintf("r_%d", i))
			}
			b.WriteString(strings.Join(rs, ", ") + " := " + exprs[0] + "; ")
		} else {
			for i, e := range exprs {
				t := fmt.Sprintf("R%d_§", i)
				if p.plain {
					t = p.types[i]
				}
				rs = append(rs, fmt.Sprintf("r_%d", i))
				fmt.Fprintf(&b, "var r_%d %s = %s; ", i, t, e)
			}
		}
		fmt.Fprintf(&b, "sendLensPointStateMessage(%d", n)
		var names []string
		for _, v := range strings.Split(vis, ",") {
			if v = strings.TrimSpace(v); v != "" {
				fmt.Fprintf(&b, ", lensMonitorFieldSnapshot{Name: %q, Val: %s}", v, v)
				names = append(names, v)
			}
		}
		for i, r := range rs {
			nm := fmt.Sprintf("ret%d", i)
			if !multi && regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9§]*$`).MatchString(exprs[i]) {
				nm += "=" + exprs[i]
			}
			fmt.Fprintf(&b, ", lensMonitorFieldSnapshot{Name: %q, Val: %s}", nm, r)
			names = append(names, nm)
		}
		fmt.Fprintf(&b, ", lensMonitorFieldSnapshot{Name: %q, Val: %q}", progNames, strings.Join(names, " "))
		b.WriteString("); ")
		if end {
			b.WriteString("}")
			return b.String()
		}
		b.WriteString("return " + strings.Join(rs, ", ") + " }")
		return b.String()
	})
}

var progComment = regexp.MustCompile(`//[^\n]*|/\*[^*]*\*/`)

var progFunc = regexp.MustCompile(`(?m)^func .*? \{`)

// render produces the file of this program in one of the packages.
func (p *prog) render(n int, kind string) string {
	var b strings.Builder
	b.WriteString("package p\n\n")
	for _, i := range p.imps {
		fmt.Fprintf(&b, "import %q\n", i)
	}
	b.WriteString("\n" + p.decl + "\n")
	k := kind
	if k != "oracle" {
		k = "orig"
	}
	src := p.sites(p.src, k)
	if k == "oracle" {
		if !p.plain {
			for i, t := range p.types {
				fmt.Fprintf(&b, "type R%d_§ = %s\n", i, t)
			}
		}
		// every function reports a panic that leaves it, then lets it continue
		src = progFunc.ReplaceAllStringFunc(src, func(m string) string {
			first := ""
			if p.entry {
				first = " sendLensPointMessage(77);"
			}
			return m + first + " defer func() { if r_ := recover(); r_ != nil { sendLensPointRecoveryMessage(99, r_); panic(r_) } }();"
		})
	}
	b.WriteString(src + "\n")
	fmt.Fprintf(&b, "\nfunc init() {\n\tReg(%d, []func() []any{\n", n)
	for _, c := range p.cases {
		fmt.Fprintf(&b, "\t\tfunc() []any { %s },\n", c)
	}
	b.WriteString("\t})\n}\n")
	return strings.ReplaceAll(b.String(), "§", strconv.Itoa(n))
}

const progLib = `package p

var Log []string
var Progs = map[int][]func() []any{}

func Reg(n int, f []func() []any) { Progs[n] = f }

func tr(s string) string { Log = append(Log, s); return s }
func ti(s string, n int) int { Log = append(Log, s); return n }
func digit(n int) string { if n < 0 { return "-" }; if n > 9 { return "+" }; return string(rune('0' + n)) }
func trn(n int) { Log = append(Log, digit(n)) }

type E struct{ N int }

func (e *E) Error() string { return "E" + digit(e.N) }

type T struct { N int; S string }

func (t T) Area() int { return t.N }

type Shape interface{ Area() int }
type Num int
type Txt string
type Flag bool
type G[X any] struct{ V X }

const NumTwo Num = 2
const Small = 5
const Big = 1 << 63
const Ratio = 2.5
const Word = "word"

var never = make(chan int)
var glob = 11
var errOne error = &E{1}

func ready(n int) chan int { c := make(chan int, 1); c <- n; return c }
func closed() chan int { c := make(chan int); close(c); return c }
func inc(n int) int { tr("inc"); return n + 1 }
func two(n int) (int, error) { tr("two"); if n > 1 { return n * 2, &E{n} }; return n, nil }
func two2(n int) (a, b int) { return n, n + 1 }
func pick(n int) any { if n%2 == 0 { return n }; return digit(n) }
func ptr(n int) *T { if n == 0 { return nil }; return &T{n, digit(n)} }
func mk(n int) Shape { if n == 0 { return nil }; return T{n, "s"} }
func boom(n int) int { if n > 1 { panic("boom" + digit(n)) }; return n }
func closedn(n int) chan int { c := make(chan int, 1); c <- n; close(c); return c }
func two2x(n int) (int, error) { return n, nil }
func seq(n int) func(func(int) bool) { return func(y func(int) bool) { for i := 0; i <= n; i++ { if !y(i) { return } } } }
`

const progMain = `package main

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
IMPORTS
)

func show(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 6 {
		return "..."
	}
	if v.CanInterface() {
		if e, ok := v.Interface().(error); ok && v.Kind() != reflect.Interface {
			if v.Kind() == reflect.Pointer && v.IsNil() {
				return v.Type().String() + ":nil"
			}
			return v.Type().String() + ":" + e.Error()
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return v.Type().String() + ":nil"
		}
		return v.Type().String() + ">" + show(v.Elem(), d+1)
	case reflect.Func, reflect.Chan:
		return fmt.Sprintf("%s:%v", v.Type(), v.IsNil())
	case reflect.Struct:
		var o []string
		for i := 0; i < v.NumField(); i++ {
			o = append(o, show(v.Field(i), d+1))
		}
		return v.Type().String() + "{" + strings.Join(o, ",") + "}"
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return v.Type().String() + ":nil"
		}
		var o []string
		for i := 0; i < v.Len(); i++ {
			o = append(o, show(v.Index(i), d+1))
		}
		return v.Type().String() + "[" + strings.Join(o, ",") + "]"
	case reflect.Map:
		if v.IsNil() {
			return v.Type().String() + ":nil"
		}
		var o []string
		for _, k := range v.MapKeys() {
			o = append(o, show(k, d+1)+":"+show(v.MapIndex(k), d+1))
		}
		sort.Strings(o)
		return v.Type().String() + "(" + strings.Join(o, ",") + ")"
	}
	return fmt.Sprintf("%s:%v", v.Type(), v)
}

var pkgPath = regexp.MustCompile("vmod/[a-z]+[0-9]+[.]")

func run(f func() []any, log *[]string) (out string) {
	*log = nil
	done := make(chan string)
	go func() {
		res := "goexit"
		defer func() { done <- res }()
		defer func() {
			if r := recover(); r != nil {
				res = "panic:" + show(reflect.ValueOf(r), 0)
			}
		}()
		var o []string
		for _, v := range f() {
			o = append(o, show(reflect.ValueOf(v), 0))
		}
		res = strings.Join(o, " ; ")
	}()
	out = <-done
	return fmt.Sprintf("%q %q", pkgPath.ReplaceAllString(out, "p."), strings.Join(*log, ","))
}

func all(ns []int, variant int, progs map[int][]func() []any, log *[]string, mark func(uint32)) {
	for _, n := range ns {
		for i, f := range progs[n] {
			mark(uint32(1<<24 | variant<<20))
			mark(uint32(1<<25 | n<<4 | i))
			fmt.Fprintf(os.Stdout, "%d %d %d %s\n", variant, n, i, run(f, log))
		}
	}
}

func main() {
CALLS
}
`

const progMark = `package p

func Mark(n uint32) { MARK }
`

type progEvent struct {
	kind   string // state, point, panic
	id     uint32
	text   string
	fields []LensMonitorField
	frame  string
}

type progRecorder struct {
	mu  sync.Mutex
	cur string // variant/n/case
	vr  uint32
	ev  map[string][]progEvent
}

func (r *progRecorder) HandleFuncPoint(m LensMonitorMessagePoint) {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch {
	case m.PointID>>25 == 1:
		n := m.PointID &^ (1 << 25)
		r.cur = fmt.Sprintf("%d/%d/%d", r.vr, n>>4, n&15)
	case m.PointID>>24 == 1:
		r.vr = (m.PointID >> 20) & 15
	default:
		r.add(progEvent{kind: "point", id: m.PointID, frame: progFrame(m.Stack)})
	}
}

func progFrame(st []lensMonitorStackFrame) string {
	if len(st) == 0 {
		return ""
	}
	f := st[0].Function
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	_, f, _ = strings.Cut(f, ".") // the renderings live in different packages
	return f
}

func (r *progRecorder) HandleFuncPointState(m LensMonitorMessagePointState) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.add(progEvent{kind: "state", id: m.PointID, fields: m.Fields, frame: progFrame(m.Stack)})
}

func (r *progRecorder) HandleFuncPointPanic(m LensMonitorMessagePointPanic) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.add(progEvent{kind: "panic", id: m.PointID, text: m.Message})
}

func (r *progRecorder) add(e progEvent) { r.ev[r.cur] = append(r.ev[r.cur], e) }

// progResult is what one program did in every rendering.
type progResult struct {
	p        prog
	n        int
	broken   map[string]string          // variant -> compile or injection error
	ids      map[string]map[uint32]bool // variant -> return point ids the injector handed out
	panicIDs map[string]map[uint32]bool
	out      map[string][]string      // variant -> output of every case
	events   map[string][][]progEvent // variant -> events of every case
	text     map[string]string
}

var progVariants = []string{"orig", "oracle", "info", "bare"}

const progChunk = 48

// progRun builds and runs the programs.
func progRun(progs []prog) []*progResult {
	root, err := os.MkdirTemp(vScratch(), "progs")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	write := func(rel, text string) {
		fp := filepath.Join(root, rel)
		must(os.MkdirAll(filepath.Dir(fp), 0o755))
		must(os.WriteFile(fp, []byte(text), 0o644))
	}
	write("go.mod", "module vmod\n\ngo 1.25\n")
	results := make([]*progResult, len(progs))
	var imports, calls strings.Builder
	chunks := (len(progs) + progChunk - 1) / progChunk
	dirOf := func(v string, n int) string { return fmt.Sprintf("%s%d", v, n/progChunk) }
	wants := func(p prog, v string) bool {
		return v == "orig" || v == "oracle" || p.mode == "" || p.mode == v
	}
	for ch := 0; ch < chunks; ch++ {
		for vi, v := range progVariants {
			dir := fmt.Sprintf("%s%d", v, ch)
			write(dir+"/lib.go", progLib)
			if v == "bare" { // a name the injector cannot resolve: it has to work without type information
				write(dir+"/tagged.go", "//go:build verifprog\n\npackage p\n\nvar tagged = 1\n")
				write(dir+"/untagged.go", "package p\n\nvar _ = tagged\n")
			}
			fmt.Fprintf(&imports, "\t%s %q\n", dir, "vmod/"+dir)
			var ns []string
			for n := ch * progChunk; n < len(progs) && n < (ch+1)*progChunk; n++ {
				if wants(progs[n], v) {
					ns = append(ns, strconv.Itoa(n))
				}
			}
			fmt.Fprintf(&calls, "\tall([]int{%s}, %d, %s.Progs, &%s.Log, %s.Mark)\n", strings.Join(ns, ", "), vi, dir, dir, dir)
		}
	}
	write("main.go", strings.NewReplacer("IMPORTS", imports.String(), "CALLS", calls.String()).Replace(progMain))
	file := func(v string, n int) string { return filepath.Join(root, dirOf(v, n), fmt.Sprintf("f%d.go", n)) }
	for n, p := range progs {
		r := &progResult{p: p, n: n, broken: map[string]string{}, ids: map[string]map[uint32]bool{}, panicIDs: map[string]map[uint32]bool{},
			out: map[string][]string{}, events: map[string][][]progEvent{}, text: map[string]string{}}
		results[n] = r
		for _, v := range progVariants {
			if wants(p, v) {
				must(os.WriteFile(file(v, n), []byte(p.render(n, v)), 0o644))
			}
		}
	}
	t0 := time.Now()
	mod := &ASTModifier{}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 2)
	for n, p := range progs {
		for _, v := range progVariants[2:] {
			if !wants(p, v) {
				continue
			}
			n, p, v := n, p, v
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				ids, pids, err := progInject(mod, file(v, n), "vmod/"+dirOf(v, n), p)
				mu.Lock()
				defer mu.Unlock()
				results[n].ids[v], results[n].panicIDs[v] = ids, pids
				if err != nil {
					results[n].broken[v] = "injection failed: " + err.Error()
					must(os.WriteFile(file(v, n), []byte(p.render(n, "orig")), 0o644))
				}
				b, _ := os.ReadFile(file(v, n))
				results[n].text[v] = string(b)
			}()
		}
	}
	wg.Wait()
	t1 := time.Now()
	for ch := 0; ch < chunks; ch++ {
		for _, v := range progVariants {
			dir := filepath.Join(root, fmt.Sprintf("%s%d", v, ch))
			stmt := ""
			if v != "orig" {
				must(mod.InjectASTClient(dir, 0, 10, 100000))
				stmt = "sendLensPointMessage(n)"
			}
			must(os.WriteFile(filepath.Join(dir, "mark.go"), []byte(strings.Replace(progMark, "MARK", stmt, 1)), 0o644))
		}
	}
	bin := filepath.Join(root, "prog.bin")
	errLine := regexp.MustCompile(`(?m)^(?:\./)?(orig|oracle|info|bare)\d+/f(\d+)\.go:(.*)$`)
	for try := 0; ; try++ {
		cmd := exec.Command("go", "build", "-tags", "verifprog", "-gcflags=-e", "-o", bin, ".")
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GOPROXY=off", "GO111MODULE=on", "CGO_ENABLED=0")
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		found := false
		var bad []string
		for _, m := range errLine.FindAllStringSubmatch(string(out), -1) {
			n, _ := strconv.Atoi(m[2])
			if m[1] == "orig" || m[1] == "oracle" {
				bad = append(bad, fmt.Sprintf("%s: %s", progs[n].id, m[0]))
				continue
			}
			if results[n].broken[m[1]] == "" {
				results[n].broken[m[1]] = "instrumented code does not compile: " + m[3]
				must(os.WriteFile(file(m[1], n), []byte(progs[n].render(n, "orig")), 0o644))
				found = true
			}
		}
		if len(bad) > 0 {
			panic("generator produced programs that do not compile:\n" + strings.Join(bad, "\n"))
		}
		if !found || try > 20 {
			panic(fmt.Sprintf("build failed: %v\n%s", err, out))
		}
	}
	t2 := time.Now()
	defer func() {
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintln(os.Stderr, "inject", t1.Sub(t0), "build", t2.Sub(t1), "run", time.Since(t2))
		}
	}()
	rec := &progRecorder{ev: map[string][]progEvent{}}
	var srv *astServer
	var port int
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		port = l.Addr().(*net.TCPAddr).Port
		must(l.Close())
		if srv, err = astExecServerStart("127.0.0.1", port, rec, 100000); err == nil {
			break
		} else if try > 20 {
			panic(err)
		}
	}
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "LENS_MONITOR_PORT="+strconv.Itoa(port))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	_ = srv.Stop(context.Background())
	if err != nil {
		panic(fmt.Sprintf("the compiled programs failed to run: %v\n%s\nlast output: %s", err, stderr.String(), progTail(string(out))))
	}
	for _, ln := range strings.Split(string(out), "\n") {
		var vi, n, i int
		if k, _ := fmt.Sscanf(ln, "%d %d %d", &vi, &n, &i); k != 3 {
			continue
		}
		v := progVariants[vi]
		rest := strings.SplitN(ln, " ", 4)[3]
		results[n].out[v] = append(results[n].out[v], rest)
		results[n].events[v] = append(results[n].events[v], rec.ev[fmt.Sprintf("%d/%d/%d", vi, n, i)])
	}
	return results
}

func progTail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

// progInject puts one file through the injector the way the monitored run does.
func progInject(mod *ASTModifier, path, pkg string, p prog) (ids, pids map[uint32]bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	ids, pids = map[uint32]bool{}, map[uint32]bool{}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		panic(err)
	}
	want := map[string]bool{}
	for _, m := range progFunc.FindAllString(p.src, -1) {
		want[progName(m)] = true
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !want[strings.TrimRight(fd.Name.Name, "0123456789")] {
			continue
		}
		fn := &Function{FilePath: path, PackageName: pkg, FunctionIdent: MakeFunctionIdent(pkg, fd), FunctionName: fd.Name.Name}
		if p.entry {
			id, err := mod.InjectFuncPointEntry(fn)
			if err != nil {
				return ids, pids, err
			}
			ids[id] = true
		} else {
			got, err := mod.InjectFuncPointReturnStates(fn)
			if err != nil {
				return ids, pids, err
			}
			for _, id := range got {
				if id == 0 || ids[id] {
					return ids, pids, fmt.Errorf("point id %d handed out twice", id)
				}
				ids[id] = true
			}
		}
		id, err := mod.InjectFuncPointPanic(fn)
		if err != nil {
			return ids, pids, err
		}
		pids[id] = true
	}
	return ids, pids, mod.CommitFile(path)
}

var progNameRe = regexp.MustCompile(`^func (?:\([^)]*\) )?([A-Za-z_]+)`)

func progName(line string) string { return progNameRe.FindStringSubmatch(line)[1] }

// progBatch enumerates the generator, runs this shard's programs and checks each.
func progBatch(c *vCtx, check func(x *vCase, r *progResult, v string)) {
	var mine []prog
	seen := map[string]bool{}
	for _, p := range progAll(c.Thorough()) {
		if seen[p.id] {
			panic("duplicate program id " + p.id)
		}
		seen[p.id] = true
		if c.mine(p.id) {
			mine = append(mine, p)
		}
	}
	if len(mine) == 0 {
		return
	}
	const batch = progChunk * 12
	for lo := 0; lo < len(mine) && !c.Stop(); lo += batch {
		for _, r := range progRun(mine[lo:min(lo+batch, len(mine))]) {
			if len(c.out.Violations) >= vMaxViolations {
				break
			}
			c.run(r.p.id, func(x *vCase) {
				x.States(1)
				if lo == 0 && r.n < 3 {
					x.Sample(r.p.render(r.n, "orig"))
				}
				for _, v := range progVariants[2:] {
					if r.p.mode != "" && r.p.mode != v {
						continue
					}
					check(x, r, v)
					if x.Failed() {
						if lf := os.Getenv("VERIF_LIST"); lf != "" { // development: list every failing program
							vl := c.out.Violations[len(c.out.Violations)-1]
							f, _ := os.OpenFile(lf, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
							fmt.Fprintf(f, "%s\t%s\n", vl.ID, strings.SplitN(vl.Msg, "\n", 2)[0])
							f.Close()
							c.out.Violations = c.out.Violations[:len(c.out.Violations)-1]
						}
						return
					}
				}
			})
		}
	}
}

// progNames is the field of the reference reports that lists the names of all others, in case the client drops some.
const progNames = "names of the report"

func progFields(fs []LensMonitorField) map[string]LensMonitorField {
	m := map[string]LensMonitorField{}
	for _, f := range fs {
		m[f.Name] = f
	}
	return m
}

func progSameValue(a, b LensMonitorField) bool {
	return reflect.DeepEqual(a.Value, b.Value) && reflect.DeepEqual(progNorm(a.Children), progNorm(b.Children))
}

func progNorm(fs []LensMonitorField) []LensMonitorField {
	out := append([]LensMonitorField{}, fs...)
	for i := range out {
		out[i].Children = progNorm(out[i].Children)
		out[i].Type = ""
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	if len(out) == 0 {
		return nil
	}
	return out
}

func progEvents(es []progEvent) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "  %s id=%d %s", e.kind, e.id, e.text)
		for _, f := range e.fields {
			fmt.Fprintf(&b, " %s=%v/%d", f.Name, f.Value, len(f.Children))
		}
		b.WriteString("\n")
	}
	return b.String()
}
