package lens

// C17: the report says exactly what was found. Findings are enumerated, written with the default report writer, read
// back from the files and compared with what was handed over; findings handed over in another order give the same report.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

var c17N int

func c17Dir() string {
	c17N++
	d := filepath.Join(vScratch(), fmt.Sprintf("c17-%d-%d", os.Getpid(), c17N))
	vMust(os.MkdirAll(d, 0o755))
	return d
}

// c17Caller is a calling function with the changed functions it reaches.
type c17Caller struct {
	name    string
	changes []string
}

// c17Rep is the outcome of one test.
type c17Rep struct {
	test       string
	pre, post  bool // failures
	diff, same int
	hit        int
	fields     [][3]string // caller, field, text
	times      []string    // callers
}

type c17In struct {
	mods     []ModuleChange
	checked  []string
	fns      int
	reached  int
	old      int
	points   int
	callers  []c17Caller
	tests    []string
	same     int
	diff     int
	reps     []c17Rep
	mut, sq  int
	dur      [4]time.Duration
	start    time.Time
	timesOf  map[string][2]uint32
	wantOnly string
}

func c17Base() c17In {
	return c17In{
		mods: []ModuleChange{{Name: "ex.org/m", PriorVersion: "v1.0.0", NewVersion: "v1.1.0"}}, checked: []string{"ex.org/m", "ex.org/n"},
		fns: 9, reached: 2, old: 1, points: 33, same: 71, diff: 4, mut: 8, sq: 5,
		dur:     [4]time.Duration{1001 * time.Millisecond, 2002 * time.Millisecond, 3003 * time.Millisecond, 4004 * time.Millisecond},
		start:   time.Date(2024, 2, 3, 4, 5, 6, 0, time.UTC),
		timesOf: map[string][2]uint32{"p:c1": {100, 350}, "p:c2": {900, 40}, "p:c3": {7, 70}, "p:c4": {20, 21}},
	}
}

func c17Name(ident string) string { return ident[strings.LastIndex(ident, ":")+1:] }

func (in c17In) write(jsonPath, chartPath string) error {
	var mods []*ModuleChange
	for i := range in.mods {
		m := in.mods[i]
		mods = append(mods, &m)
	}
	var callers []*CallerFunction
	for _, c := range in.callers {
		f := &CallerFunction{Function: Function{FunctionIdent: c.name, FunctionName: c17Name(c.name)}}
		for _, m := range c.changes {
			f.ChangeFunctions = append(f.ChangeFunctions, &ModuleFunction{Function: Function{FunctionIdent: m, FunctionName: c17Name(m)}})
		}
		callers = append(callers, f)
	}
	var tests []*TestFunction
	for _, t := range in.tests {
		tests = append(tests, &TestFunction{Function: Function{FunctionIdent: t, FunctionName: c17Name(t)}})
	}
	var reps []TestReport
	for _, r := range in.reps {
		tr := TestReport{DiffFieldCount: r.diff, SameFieldCount: r.same}
		tr.OriginalResult = TestResult{TestFunction: MinimumTestFunction{FunctionIdent: r.test, FunctionName: c17Name(r.test)}, TestFailure: r.pre, ModuleChangesHit: r.hit}
		tr.PostUpdateResult = TestResult{TestFunction: MinimumTestFunction{FunctionIdent: r.test, FunctionName: c17Name(r.test)}, TestFailure: r.post, ModuleChangesHit: 77}
		if !r.pre && r.post {
			tr.TestRegressionCount = 1
		}
		for _, f := range r.fields {
			if tr.CallerFieldChanges == nil {
				tr.CallerFieldChanges = map[string]map[string]string{}
			}
			if tr.CallerFieldChanges[f[0]] == nil {
				tr.CallerFieldChanges[f[0]] = map[string]string{}
			}
			tr.CallerFieldChanges[f[0]][f[1]] = "\t" + f[2] + "\n"
		}
		for _, c := range r.times {
			if tr.CallerTimeChanges == nil {
				tr.CallerTimeChanges = map[string]PerformanceTimeChange{}
			}
			t := in.timesOf[c]
			tr.CallerTimeChanges[c] = PerformanceTimeChange{TimeDiff: time.Duration(int64(t[1])-int64(t[0])) * time.Millisecond, PreTimeMs: t[0], PostTimeMs: t[1]}
		}
		reps = append(reps, tr)
	}
	return (&DefaultReportWriter{}).WriteReportFiles(jsonPath, chartPath, in.start, in.dur[0], in.dur[1], in.dur[2], in.dur[3],
		mods, in.checked, in.fns, in.reached, in.old, in.points, callers, tests, in.same, in.diff, reps, MutationResult{MutationCount: in.mut, SquashedCount: in.sq})
}

func c17Set(l []string) []any {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return c17List(k)
}

func c17List(l []string) []any {
	out := []any{}
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

// want is the report file's content.
func (in c17In) want() map[string]any {
	n := func(i int) any { return float64(i) }
	root := ModuleChange{}
	var direct []ModuleChange
	for _, m := range in.mods {
		if !m.Indirect {
			direct = append(direct, m)
		}
	}
	if len(in.mods) == 1 {
		root = in.mods[0]
	} else if len(direct) == 1 {
		root = direct[0]
	}
	var reach, callers []string
	for _, c := range in.callers {
		reach = append(reach, c.changes...)
		callers = append(callers, c.name)
	}
	tests := append([]string{}, in.tests...)
	sort.Strings(tests)
	gen := 0
	for _, t := range tests {
		if strings.HasPrefix(c17Name(t), GeneratedTestFunctionPrefix) {
			gen++
		}
	}
	reps := append([]c17Rep{}, in.reps...)
	sort.Slice(reps, func(i, j int) bool { return reps[i].test < reps[j].test })
	details, perf := []any{}, []any{}
	for _, r := range reps {
		fields := map[string]any{}
		for _, f := range r.fields {
			if fields[f[0]] == nil {
				fields[f[0]] = map[string]any{}
			}
			fields[f[0]].(map[string]any)[f[1]] = f[2]
		}
		details = append(details, map[string]any{"test_function_ident": r.test, "test_function_name": c17Name(r.test), "baseline_failure": r.pre,
			"pass_regression": !r.pre && r.post, "diff_field_count": n(r.diff), "module_change_hit_count": n(r.hit), "field_changes": fields})
		times := append([]string{}, r.times...)
		sort.Strings(times)
		for _, c := range times {
			t := in.timesOf[c]
			perf = append(perf, map[string]any{"test_function_ident": r.test, "test_function_name": c17Name(r.test), "caller_ident": c,
				"time_diff_ms": n(int(t[1]) - int(t[0])), "pre_time_ms": n(int(t[0])), "post_time_ms": n(int(t[1]))})
		}
	}
	return map[string]any{
		"generated_at": in.start.Format(time.RFC3339Nano), "analysis_ms": n(1001), "test_discovery_ms": n(2002), "field_check_ms": n(3003), "mutation_ms": n(4004),
		"module": map[string]any{"root_module_name": root.Name, "root_module_start_version": root.PriorVersion, "root_module_update_version": root.NewVersion,
			"changed_modules": c17List(in.checked), "changed_module_count": n(len(in.checked)), "changed_function_count": n(in.fns),
			"reachable_changed_functions": c17Set(reach), "reachable_changed_function_count": n(len(c17Set(reach))), "untracked_module_function_count": n(in.old)},
		"validation": map[string]any{"relevant_project_functions": c17Set(callers), "relevant_project_function_count": n(len(c17Set(callers))),
			"relevant_test_functions": c17List(tests), "relevant_test_function_count": n(len(tests)), "project_field_check_point_count": n(in.points),
			"module_change_hit_in_test_count": n(in.reached), "test_field_match_count": n(in.same), "test_field_diff_count": n(in.diff),
			"generated_test_function_count": n(gen), "mutation_count": n(in.mut), "mutations_squashed": n(in.sq), "performance_changes": perf, "test_details": details},
	}
}

// c17Norm makes an absent list or table an empty one.
func c17Norm(got, want any) any {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if got == nil {
			return map[string]any{}
		}
		if !ok {
			return got
		}
		for k := range w {
			if v, ok := g[k]; ok {
				g[k] = c17Norm(v, w[k])
			}
		}
		return g
	case []any:
		g, ok := got.([]any)
		if got == nil {
			return []any{}
		}
		if ok && len(g) == len(w) {
			for i := range g {
				g[i] = c17Norm(g[i], w[i])
			}
		}
	}
	return got
}

// c17Differ names the first difference; additional keys are allowed.
func c17Differ(path string, got, want any) string {
	if w, ok := want.(map[string]any); ok {
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is %v", path, got)
		}
		var keys []string
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if d := c17Differ(path+"."+k, g[k], w[k]); d != "" {
				return d
			}
		}
		if strings.Contains(path, "field_changes") && len(g) != len(w) {
			return fmt.Sprintf("%s is %v want %v", path, g, w)
		}
		return ""
	}
	if w, ok := want.([]any); ok {
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %v want %v", path, got, want)
		}
		for i := range w {
			if d := c17Differ(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s is %v want %v", path, got, want)
	}
	return ""
}

func c17Json(x *vCase, in c17In) {
	dir := c17Dir()
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "r.json")
	before := time.Now()
	if err := in.write(p, filepath.Join(dir, "r.svg")); err != nil {
		x.Fail("%v", err)
		return
	}
	x.States(1)
	x.Traces(1)
	b, err := os.ReadFile(p)
	if err != nil {
		x.Fail("%v", err)
		return
	}
	var got map[string]any
	if err := json.Unmarshal(b, &got); err != nil {
		x.Fail("%v", err)
		return
	}
	want := in.want()
	c17Norm(got, want)
	if d := c17Differ("report", got, want); d != "" {
		x.Fail("%s", d)
	}
	run, _ := got["run_ms"].(float64)
	if lo, hi := before.Sub(in.start).Milliseconds(), time.Since(in.start).Milliseconds(); int64(run) < lo || int64(run) > hi {
		x.Fail("run_ms is %v", got["run_ms"])
	}
	// and it is what the types for it read
	var m ReportMetrics
	if err := json.Unmarshal(b, &m); err != nil {
		x.Fail("%v", err)
	} else if m.Module.ChangeFuncCount != in.fns || m.Validation.MutationsSquashed != in.sq || len(m.Validation.TestDetails) != len(in.reps) {
		x.Fail("read back as %+v", m)
	}
	x.Transitions(4)
}

var c17Text = regexp.MustCompile(`(?s)<text[^>]*>(.*?)</text>`)

func c17Texts(b []byte) []string {
	var out []string
	for _, m := range c17Text.FindAllSubmatch(b, -1) {
		out = append(out, string(m[1]))
	}
	return out
}

func c17Round(f float64) string {
	s := strconv.FormatFloat(f, 'f', 1, 64)
	return strings.TrimSuffix(s, ".0")
}

// c17Charts compares the texts of the chart.
func c17Charts(x *vCase, in c17In) {
	dir := c17Dir()
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "r.svg")
	if err := in.write("", p); err != nil {
		x.Fail("%v", err)
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		x.Fail("%v", err)
		return
	}
	x.States(1)
	x.Traces(1)
	texts := c17Texts(b)
	w := in.want()
	reach := int(w["module"].(map[string]any)["reachable_changed_function_count"].(float64))
	pct := func(part, total int, cap99 bool) string {
		if total == 0 {
			return ""
		}
		v := 100 * float64(part) / float64(total)
		if cap99 && part < total && v > 99.9 {
			v = 99.9
		}
		return c17Round(v) + "%"
	}
	wantLabels := []string{pct(reach, in.fns, false), pct(in.reached+in.old, reach, false), pct(in.same, in.same+in.diff, true), pct(in.sq, in.mut, true)}
	heads := []string{"Module Change Impact", "Changed Module Function Coverage", "Field Stability", "Mutations Squashed"}
	for i, h := range heads {
		at := -1
		for j, t := range texts {
			if t == h {
				at = j
			}
		}
		if at < 0 {
			x.Fail("the chart %q is missing", h)
			return
		}
		got := ""
		for _, t := range texts[at+1:] {
			if strings.HasSuffix(t, "%") || strings.Contains(t, "N/A") {
				got = t
				break
			}
			if i+1 < len(heads) && t == heads[i+1] {
				break
			}
		}
		if i == 1 && in.reached+in.old > reach {
			continue // not consistent
		}
		if strings.Contains(got, "NaN") || strings.Contains(got, "Inf") || wantLabels[i] != "" && got != wantLabels[i] {
			x.Fail("%s shows %q want %q", h, got, wantLabels[i])
		}
	}
	// time
	var pre, post float64
	for _, r := range in.reps {
		for _, c := range r.times {
			pre += float64(in.timesOf[c][0])
			post += float64(in.timesOf[c][1])
		}
	}
	label := "No time recorded"
	if pre > 0 && post <= pre {
		label = c17Round(100-100*post/pre) + "% faster"
	} else if pre > 0 {
		label = c17Round(100*post/pre-100) + "% slower"
	}
	all := strings.Join(texts, " ")
	if !strings.Contains(" "+strings.ReplaceAll(all, ",", "")+" ", " "+label+" ") {
		x.Fail("performance change is not %q: %s", label, all)
	}
	// risky tests
	reps := append([]c17Rep{}, in.reps...)
	sort.Slice(reps, func(i, j int) bool { return reps[i].test < reps[j].test })
	rank := func(r c17Rep) [3]int {
		k := [3]int{0, 1, -r.diff}
		if strings.HasPrefix(c17Name(r.test), GeneratedTestFunctionPrefix) {
			k[0] = 1
		}
		if !r.pre && r.post {
			k[1] = 0
		}
		return k
	}
	sort.SliceStable(reps, func(i, j int) bool {
		a, b := rank(reps[i]), rank(reps[j])
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	var rows []string
	for _, r := range reps {
		if r.diff == 0 && (r.pre || !r.post) {
			continue
		}
		if len(rows) == 10 {
			break
		}
		st := "Pass"
		if !r.pre && r.post {
			st = "FAIL"
		} else if r.pre {
			st = "Baseline FAIL"
		}
		row := c17Name(r.test) + " " + st + " " + strconv.Itoa(r.diff)
		by := map[string][]string{}
		for _, f := range r.fields {
			by[f[0]] = append(by[f[0]], f[1])
		}
		var callers []string
		for c := range by {
			callers = append(callers, c)
		}
		sort.Strings(callers)
		for i, c := range callers {
			if i == 2 {
				row += fmt.Sprintf(" (%d more field differences)", len(callers)-2)
				break
			}
			sort.Strings(by[c])
			row += " " + c + "[" + strings.Join(by[c], "|") + "]"
		}
		rows = append(rows, row)
	}
	title := ""
	m := w["module"].(map[string]any)
	if m["root_module_name"] != "" {
		title = fmt.Sprintf(" %s@%s->%s", m["root_module_name"], m["root_module_start_version"], m["root_module_update_version"])
	}
	tail := "No Risky Tests Identified" + title
	if len(rows) > 0 {
		tail = "Field Changes " + strings.Join(rows, " ") + title
	} else if strings.Contains(all, "Risky Tests Test Name") {
		x.Fail("a table of tests: %s", all)
	}
	if !strings.HasSuffix(all, tail) {
		i := strings.Index(all, "Field Changes")
		x.Fail("the chart ends with %q want %q", all[max(i, 0):], tail)
	}
	x.Transitions(5 + len(rows))
	// the same findings in any other order, once more
	for k := 0; k < 3; k++ {
		o := in
		o.reps = append([]c17Rep{}, in.reps...)
		if k > 0 {
			for i, j := 0, len(o.reps)-1; i < j; i, j = i+1, j-1 {
				o.reps[i], o.reps[j] = o.reps[j], o.reps[i]
			}
		}
		vMust(o.write("", p))
		if c, _ := os.ReadFile(p); !bytes.Equal(b, c) {
			x.Fail("the chart changes between calls: %s, then %s", all, strings.Join(c17Texts(c), " "))
			return
		}
	}
}

func init() {
	vRegister("functions", func(c *vCtx) {
		alpha := []c17Caller{{"p:c1", []string{"m:a"}}, {"p:c1", []string{"m:b", "m:a"}}, {"p:c2", []string{"m:b"}}, {"p:c0", nil}}
		tests := []string{"p:TestB", "p:TestA", "p:" + GeneratedTestFunctionPrefix + "X"}
		var seqs [][]c17Caller
		var grow func(s []c17Caller, n int)
		grow = func(s []c17Caller, n int) {
			seqs = append(seqs, append([]c17Caller{}, s...))
			if n > 0 {
				for _, a := range alpha {
					grow(append(append([]c17Caller{}, s...), a), n-1)
				}
			}
		}
		depth := 3
		if c.Thorough() {
			depth = 5
		}
		grow(nil, depth)
		for si, s := range seqs {
			c.Case(fmt.Sprintf("seq%d", si), func(x *vCase) {
				for perm := 0; perm < 16; perm++ {
					in := c17Base()
					in.callers = s
					for _, i := range []int{perm & 3, perm >> 2} {
						if i < 3 {
							in.tests = append(in.tests, tests[i])
						}
					}
					in.checked = in.checked[:perm%3]
					c17Json(x, in)
				}
			})
		}
	})
	vRegister("modules", func(c *vCtx) {
		for n := 0; n <= 3; n++ {
			for ind := 0; ind < 1<<n; ind++ {
				c.Case(fmt.Sprintf("n%d-%b", n, ind), func(x *vCase) {
					in := c17Base()
					in.mods = nil
					for i := 0; i < n; i++ {
						in.mods = append(in.mods, ModuleChange{Name: fmt.Sprintf("ex.org/%d", i), PriorVersion: fmt.Sprintf("v1.%d.0", i), NewVersion: fmt.Sprintf("v2.%d.0", i), Indirect: ind>>i&1 == 1})
					}
					c17Json(x, in)
					c17Charts(x, in)
				})
			}
		}
	})
	variant := func(test string, v int) c17Rep {
		r := c17Rep{test: test, pre: v&1 == 1, post: v&2 == 2, hit: v, same: 5}
		switch v >> 2 & 3 {
		case 1:
			r.diff = 1
			r.fields = [][3]string{{"p:c1", "f", "1 -> 2"}}
		case 2:
			r.diff = 4
			r.fields = [][3]string{{"p:c2", "z", "a -> b"}, {"p:c1", "g", "1 -> 2"}, {"p:c1", "f", "2 -> 3"}, {"p:c3", "ret", "x"}}
		case 3:
			r.diff = 4
			r.fields = [][3]string{{"p:c4", "a", "q"}, {"p:c3", "b", "q"}, {"p:c2", "z", "q"}, {"p:c1", "f", "q"}}
		}
		switch v >> 4 {
		case 1:
			r.times = []string{"p:c1"}
		case 2:
			r.times = []string{"p:c3", "p:c1", "p:c2", "p:c4"}
		}
		return r
	}
	names := []string{"p:TestB", "p:TestA", "p:" + GeneratedTestFunctionPrefix + "C"}
	vRegister("tests", func(c *vCtx) {
		// all outcomes of two tests, in both orders
		for a := 0; a < 48; a++ {
			for pair := 0; pair < 3; pair++ {
				c.Case(fmt.Sprintf("pair%d-%d", pair, a), func(x *vCase) {
					for b := 0; b < 48; b++ {
						if !c.Thorough() && b&3 != a&3 && b>>4 != a>>4 {
							continue
						}
						in := c17Base()
						in.callers = []c17Caller{{"p:c1", []string{"m:a", "m:b", "m:c"}}}
						in.reps = []c17Rep{variant(names[pair], a), variant(names[(pair+1)%3], b)}
						c17Json(x, in)
						if b%5 == a%5 || c.Thorough() {
							c17Charts(x, in)
						}
					}
				})
			}
		}
	})
	vRegister("many", func(c *vCtx) {
		// more tests than the table holds, in all rotations
		for n := 0; n <= 13; n++ {
			for rot := 0; rot < max(n, 1); rot++ {
				c.Case(fmt.Sprintf("n%d-r%d", n, rot), func(x *vCase) {
					in := c17Base()
					for i := 0; i < n; i++ {
						k := (i + rot) % n
						pre := ""
						if k%4 == 3 {
							pre = GeneratedTestFunctionPrefix
						} else {
							pre = "Test"
						}
						in.reps = append(in.reps, variant(fmt.Sprintf("p:%sN%02d", pre, k), (k*7)%48))
					}
					c17Json(x, in)
					c17Charts(x, in)
				})
			}
		}
	})
	vRegister("figures", func(c *vCtx) {
		for fns := 0; fns <= 5; fns++ {
			for reach := 0; reach <= fns; reach++ {
				c.Case(fmt.Sprintf("f%d-r%d", fns, reach), func(x *vCase) {
					for hit := 0; hit <= reach; hit++ {
						for old := 0; old+hit <= reach; old++ {
							in := c17Base()
							in.fns, in.reached, in.old = fns, hit, old
							for i := 0; i < reach; i++ {
								in.callers = append(in.callers, c17Caller{"p:c1", []string{fmt.Sprintf("m:%d", i)}})
							}
							c17Json(x, in)
							c17Charts(x, in)
						}
					}
				})
			}
		}
		for _, total := range []int{0, 1, 2, 3, 7, 1000, 1001, 100000} {
			for _, bad := range []int{0, 1, 2, 3, 7, 1000} {
				c.Case(fmt.Sprintf("t%d-b%d", total, bad), func(x *vCase) {
					if bad > total {
						return
					}
					in := c17Base()
					in.same, in.diff, in.mut, in.sq = total-bad, bad, total, total-bad
					c17Json(x, in)
					c17Charts(x, in)
				})
			}
		}
		tt := []uint32{0, 1, 50, 999, 1000, 2001, 130000, 7200001}
		for i, pre := range tt {
			for j, post := range tt {
				c.Case(fmt.Sprintf("time%d-%d", i, j), func(x *vCase) {
					in := c17Base()
					in.timesOf = map[string][2]uint32{"p:c1": {pre, post}}
					in.reps = []c17Rep{{test: "p:TestA", times: []string{"p:c1"}}}
					c17Json(x, in)
					c17Charts(x, in)
				})
			}
		}
	})
	vRegister("files", func(c *vCtx) {
		jsons := []string{"", "r.json", "gone/r.json", "r"}
		charts := []string{"", "r.png", "r.jpg", "r.jpeg", "r.svg", "gone/r.png", "r.gif", "png"}
		for _, j := range jsons {
			for _, p := range charts {
				for _, exists := range []bool{false, true} {
					c.Case(fmt.Sprintf("%s+%s+%v", j, p, exists), func(x *vCase) {
						dir := c17Dir()
						defer os.RemoveAll(dir)
						in := c17Base()
						in.reps = []c17Rep{variant("p:TestA", 10)}
						at := func(n string) string {
							if n == "" {
								return ""
							}
							return filepath.Join(dir, n)
						}
						if exists {
							for _, n := range []string{j, p} {
								if n != "" {
									_ = os.WriteFile(at(n), bytes.Repeat([]byte("old "), 100000), 0o644)
								}
							}
						}
						err := in.write(at(j), at(p))
						x.States(1)
						x.Traces(1)
						jbad := strings.HasPrefix(j, "gone/")
						pbad := p == "gone/r.png" || p == "r.gif" || p == "png"
						if (err != nil) != (jbad || pbad) {
							x.Fail("report %q chart %q: error %v", j, p, err)
							return
						}
						if !jbad && j != "" {
							b, _ := os.ReadFile(at(j))
							var m ReportMetrics
							if err := json.Unmarshal(b, &m); err != nil || m.Module.ChangeFuncCount != 9 {
								x.Fail("report %q: %v", j, err)
							}
							x.Transitions(1)
							// the chart drawn from the report file is a picture too
							if pic, err := RenderReportChartsFromJson(m); err != nil {
								x.Fail("chart from the report: %v", err)
							} else if _, kind, err := image.Decode(bytes.NewReader(pic)); err != nil || kind != "png" {
								x.Fail("chart from the report: %s %v", kind, err)
							}
						}
						if err == nil && p != "" {
							b, _ := os.ReadFile(at(p))
							if strings.HasSuffix(p, ".svg") {
								if !bytes.HasPrefix(bytes.TrimSpace(b), []byte("<svg")) || !bytes.HasSuffix(bytes.TrimSpace(b), []byte("</svg>")) {
									x.Fail("chart %q is no picture", p)
								}
							} else if _, kind, err := image.Decode(bytes.NewReader(b)); err != nil || kind != map[string]string{"r.png": "png", "r.jpg": "jpeg", "r.jpeg": "jpeg"}[p] {
								x.Fail("chart %q: %s %v", p, kind, err)
							}
							x.Transitions(1)
						}
						var names []string
						es, _ := os.ReadDir(dir)
						for _, e := range es {
							names = append(names, e.Name())
						}
						for _, n := range names {
							if n != j && n != p {
								x.Fail("additional file %s", n)
							}
						}
					})
				}
			}
		}
	})
}
