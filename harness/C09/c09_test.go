package lens

// C09: which captured values are kept as stable, and what is reported after the update. Reference: a value at a path of the
// k-th call of one function through one project stack is stable iff both baseline runs saw the same value there.

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

// ---- trees

type c09Tree map[string]any // string leaf or c09Tree

func c09FV(t c09Tree) FieldValues {
	out := FieldValues{}
	for k, v := range t {
		switch v := v.(type) {
		case string:
			out[k] = &FieldValue{Value: v}
		case c09Tree:
			out[k] = &FieldValue{Children: c09FV(v)}
		}
	}
	return out
}

// c09Flat lists path -> value of leaves; paths joined with a character that no name has.
func c09Flat(fv FieldValues) map[string]string {
	out := map[string]string{}
	var walk func(p string, f FieldValues)
	walk = func(p string, f FieldValues) {
		for k, v := range f {
			if len(v.Children) == 0 {
				out[p+"/"+k] = v.Value
			} else {
				walk(p+"/"+k, v.Children)
			}
		}
	}
	walk("", fv)
	return out
}

func c09Show(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, m[k])
	}
	return b.String()
}

func c09Inter(a, b map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range a {
		if w, ok := b[k]; ok && v == w {
			out[k] = v
		}
	}
	return out
}

// c09Trees enumerates all trees with at most n nodes over the names and values.
func c09Trees(n int, names, vals []string) []c09Tree {
	type entry struct {
		t c09Tree
		n int
	}
	var gen func(budget, from int) []entry // maps using names[from:]
	gen = func(budget, from int) []entry {
		if from == len(names) {
			return []entry{{c09Tree{}, 0}}
		}
		var out []entry
		for _, rest := range gen(budget, from+1) {
			out = append(out, rest) // name absent
			if rest.n+1 > budget {
				continue
			}
			for _, v := range vals {
				t := c09Tree{names[from]: v}
				for k, w := range rest.t {
					t[k] = w
				}
				out = append(out, entry{t, rest.n + 1})
			}
			for _, ch := range gen(budget-rest.n-1, 0) {
				if ch.n == 0 {
					continue
				}
				t := c09Tree{names[from]: ch.t}
				for k, w := range rest.t {
					t[k] = w
				}
				out = append(out, entry{t, rest.n + 1 + ch.n})
			}
		}
		return out
	}
	var out []c09Tree
	for _, e := range gen(n, 0) {
		out = append(out, e.t)
	}
	return out
}

func init() {
	vRegister("trees", func(c *vCtx) {
		n := 4
		if c.Thorough() {
			n = 5
		}
		trees := c09Trees(n, []string{"a", "b"}, []string{"", "x", "y"})
		for i := range trees {
			c.Case(fmt.Sprintf("tree-%d", i), func(x *vCase) {
				a := c09FV(trees[i])
				fa := c09Flat(a)
				for j := range trees {
					b := c09FV(trees[j])
					fb := c09Flat(b)
					got := stableFieldValues(a, b)
					x.States(1)
					x.Transitions(1)
					want := c09Inter(fa, fb)
					if g := c09Flat(got); c09Show(g) != c09Show(want) {
						x.Fail("runs captured {%s} and {%s}: kept {%s}, want {%s}", c09Show(fa), c09Show(fb), c09Show(g), c09Show(want))
						return
					}
					if c09Show(c09Flat(a)) != c09Show(fa) || c09Show(c09Flat(b)) != c09Show(fb) {
						x.Fail("captured values were altered: {%s} {%s}", c09Show(c09Flat(a)), c09Show(c09Flat(b)))
						return
					}
				}
				x.Traces(len(trees))
			})
		}
	})

	vRegister("frames", func(c *vCtx) {
		// alphabets of frames: stack kind, tree, time
		type al struct {
			name   string
			frames []c09Frame
			depth  int
		}
		var big, small, timed []c09Frame
		for st := 0; st < 4; st++ {
			for tr := 0; tr < 4; tr++ {
				big = append(big, c09Frame{st, tr, 5})
			}
		}
		for st := 0; st < 2; st++ {
			for tr := 1; tr < 3; tr++ {
				small = append(small, c09Frame{st * 2, tr, 5})
				timed = append(timed, c09Frame{0, tr, uint32(5 + st)})
			}
		}
		timed = append(timed, c09Frame{2, 1, 4}, c09Frame{2, 2, 6})
		als := []al{{"kinds", big, 2}, {"long", small, 3}, {"timed", timed, 3}}
		if c.Thorough() {
			als[1].depth = 4
		}
		for _, a := range als {
			seqs := c09Seqs(a.frames, a.depth)
			for _, ext := range []bool{false, true} {
				for i := range seqs {
					c.Case(fmt.Sprintf("%s-%v-%d", a.name, ext, i), func(x *vCase) {
						for j := range seqs {
							if !c09CheckFrames(x, seqs[i], seqs[j], ext) {
								return
							}
						}
						x.Sample(fmt.Sprint(seqs[i]))
					})
				}
			}
		}
	})

	vRegister("rest", func(c *vCtx) {
		// panics, flags and identity of the kept result
		var lists [][]string
		for n := 0; n <= 3; n++ {
			for m := 0; m < 1<<n; m++ {
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, []string{"boom", "bang"}[m>>i&1])
				}
				lists = append(lists, l)
			}
		}
		for i := range lists {
			for _, proj := range []bool{true, false} {
				c.Case(fmt.Sprintf("panics-%d-%v", i, proj), func(x *vCase) {
					for j := range lists {
						for fl := 0; fl < 4; fl++ {
							for _, other := range []string{"f", "g"} {
								r1 := TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "t", FunctionName: "T"}, ModuleChangesHit: 3, TestFailure: fl&1 != 0}
								r2 := TestResult{TestFunction: r1.TestFunction, ModuleChangesHit: 3, TestFailure: fl&2 != 0}
								m1, m2 := map[string][]string{"f": slices.Clone(lists[i])}, map[string][]string{other: slices.Clone(lists[j])}
								if proj {
									r1.ProjectPanics, r2.ProjectPanics = m1, m2
								} else {
									r1.ModulePanics, r2.ModulePanics = m1, m2
								}
								x.States(1)
								got := testResultStableFields(r1, r2)
								gm, om := got.ProjectPanics, got.ModulePanics
								if !proj {
									gm, om = om, gm
								}
								want := map[string]int{}
								if other == "f" {
									for _, s := range []string{"boom", "bang"} {
										want[s] = min(c09Count(lists[i], s), c09Count(lists[j], s))
									}
								}
								for _, s := range []string{"boom", "bang"} {
									if n := c09Count(gm["f"], s); n != want[s] {
										x.Fail("panics %v and %v: %q kept %d times, want %d", m1, m2, s, n, want[s])
										return
									}
								}
								if len(gm["g"])+len(om["f"])+len(om["g"]) != 0 {
									x.Fail("panics %v and %v: unexpected panics kept %v %v", m1, m2, gm, om)
									return
								}
								if got.TestFailure != (fl != 0) || got.TestFunction != r1.TestFunction || got.ModuleChangesHit != 3 {
									x.Fail("failure flags %v: result %+v", fl, got)
									return
								}
							}
						}
					}
				})
			}
		}
	})

	vRegister("pipeline", c09Pipeline)
}

func c09Count(l []string, s string) (n int) {
	for _, v := range l {
		if v == s {
			n++
		}
	}
	return
}

type c09Frame struct {
	stack, tree int
	time        uint32
}

var c09FrameTrees = []c09Tree{{}, {"v": "x"}, {"v": "y"}, {"v": c09Tree{"w": "x", "u": "q"}, "k": "1"}}

func (f c09Frame) call(line uint32) CallFrame {
	return CallFrame{FieldValues: c09FV(c09FrameTrees[f.tree]), Stack: c09Stack(f.stack, line), TimeMillis: f.time}
}

// c09Stack: kinds 0 and 1 have the same project frames but differ in module frames; 2 differs in the function, 3 in depth.
// Line numbers differ between runs.
func c09Stack(kind int, line uint32) []StackFrame {
	switch kind {
	case 0:
		return []StackFrame{{"./a.go", 5 + line, "p.f"}, {"m@v1/x.go", 1, "m.X"}, {"./a_test.go", 9, "p.T"}}
	case 1:
		return []StackFrame{{"./a.go", 5 + line, "p.f"}, {"m@v1/y.go", 7, "m.Y"}, {"./vendor/q/q.go", 3, "q.Q"}, {"./a_test.go", 9, "p.T"}}
	case 2:
		return []StackFrame{{"./a.go", 5 + line, "p.g"}, {"m@v1/x.go", 1, "m.X"}, {"./a_test.go", 9, "p.T"}}
	}
	return []StackFrame{{"./a.go", 5 + line, "p.f"}, {"./a.go", 8, "p.f"}, {"m@v1/x.go", 1, "m.X"}, {"./a_test.go", 9, "p.T"}}
}

// c09Class is what identifies the call path.
func c09Class(kind int, ext bool) int {
	if !ext && kind == 1 {
		return 0
	}
	return kind
}

func c09Seqs(al []c09Frame, depth int) [][]c09Frame {
	out := [][]c09Frame{{}}
	last := [][]c09Frame{{}}
	for d := 0; d < depth; d++ {
		var next [][]c09Frame
		for _, s := range last {
			for _, f := range al {
				next = append(next, append(slices.Clone(s), f))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func c09CheckFrames(x *vCase, a, b []c09Frame, ext bool) bool {
	mk := func(fs []c09Frame, line uint32) TestResult {
		var cf []CallFrame
		for _, f := range fs {
			cf = append(cf, f.call(line))
		}
		m := map[string][]CallFrame{"f": cf}
		if ext {
			return TestResult{ExtensionFrames: m}
		}
		return TestResult{CallerResults: m}
	}
	x.States(1)
	x.Transitions(1)
	x.Traces(1)
	r := testResultStableFields(mk(a, 0), mk(b, 3))
	got := r.CallerResults
	if ext {
		got = r.ExtensionFrames
		if len(r.CallerResults["f"]) != 0 {
			x.Fail("extension frames reported as function frames")
			return false
		}
	} else if len(r.ExtensionFrames["f"]) != 0 {
		x.Fail("function frames reported as extension frames")
		return false
	}
	for k := range got {
		if k != "f" {
			x.Fail("unexpected function %q", k)
			return false
		}
	}
	byTime := func(fs []c09Frame) []c09Frame {
		s := slices.Clone(fs)
		sort.SliceStable(s, func(i, j int) bool { return s[i].time < s[j].time })
		return s
	}
	sa, sb := byTime(a), byTime(b)
	used := map[int]int{}
	var want []string
	for _, f := range sa {
		cl := c09Class(f.stack, ext)
		k := used[cl]
		used[cl]++
		n := 0
		for _, g := range sb {
			if c09Class(g.stack, ext) != cl {
				continue
			}
			if n == k {
				in := c09Inter(c09Flat(c09FV(c09FrameTrees[f.tree])), c09Flat(c09FV(c09FrameTrees[g.tree])))
				want = append(want, fmt.Sprintf("%v t=%d %s", c09Stack(f.stack, 0), f.time, c09Show(in)))
				break
			}
			n++
		}
	}
	var have []string
	for _, f := range got["f"] {
		have = append(have, fmt.Sprintf("%v t=%d %s", f.Stack, f.TimeMillis, c09Show(c09Flat(f.FieldValues))))
	}
	if !slices.Equal(have, want) {
		x.Fail("runs %+v and %+v (extension %v): kept\n %s\nwant\n %s", a, b, ext, strings.Join(have, "\n "), strings.Join(want, "\n "))
		return false
	}
	return true
}

// ---- whole pipeline: two baseline runs, the selection, one run after the update, the comparison

type c09Call struct {
	path    int // 0, 1: two project call paths
	present [3]bool
	val     [3]string // value of field v in the three runs; field c is constant
}

func c09Pipeline(c *vCtx) {
	var al []c09Call
	add := func(p [3]bool, v [3]string) {
		for path := 0; path < 2; path++ {
			al = append(al, c09Call{path, p, v})
		}
	}
	all := [3]bool{true, true, true}
	for _, v := range [][3]string{{"x", "x", "x"}, {"x", "x", "y"}, {"x", "y", "x"}, {"x", "y", "y"}, {"x", "y", "z"}, {"x", "x", ""}} {
		add(all, v)
	}
	add([3]bool{true, true, false}, [3]string{"x", "x", ""})
	add([3]bool{false, false, true}, [3]string{"", "", "x"})
	add([3]bool{true, false, true}, [3]string{"x", "", "x"})
	add([3]bool{false, true, true}, [3]string{"", "x", "y"})
	depth := 2
	if c.Thorough() {
		depth = 3
	}
	var rec func(prefix []c09Call)
	rec = func(prefix []c09Call) {
		if len(prefix) > 0 {
			prog := slices.Clone(prefix)
			c.Case(fmt.Sprint(prog), func(x *vCase) { c09RunPipeline(x, prog, true); c09RunPipeline(x, prog, false) })
		}
		if len(prefix) == depth {
			return
		}
		for _, a := range al {
			rec(append(slices.Clone(prefix), a))
		}
	}
	rec(nil)
	// three calls of the full-presence kinds along one path, where positions matter
	if depth < 3 {
		for i := 0; i < 64; i++ {
			var prog []c09Call
			for k := 0; k < 3; k++ {
				prog = append(prog, al[2*(i>>(2*k)&3)+(i>>k&1)*0])
			}
			c.Case("three-"+fmt.Sprint(prog), func(x *vCase) { c09RunPipeline(x, prog, true); c09RunPipeline(x, prog, false) })
		}
	}
}

// c09RunPipeline: each call has the field v, and with constant another which never changes.
func c09RunPipeline(x *vCase, prog []c09Call, constant bool) {
	id := "p.f"
	var saved []byte
	run := func(n int, stable *monitorStableResults) TestResult {
		m := newTestMonitor(stable, "/goroot", "/proj", map[uint32]*string{1: &id}, nil, nil, nil, nil)
		for k, cl := range prog {
			if !cl.present[n] {
				continue
			}
			x.Transitions(1)
			st := []lensMonitorStackFrame{{File: fmt.Sprintf("/proj/a%d.go", cl.path), Line: uint(n), Function: "p.f"},
				{File: fmt.Sprintf("/go/pkg/mod/m@v%d/x.go", n), Line: 3, Function: "m.X"}, {File: "/proj/a_test.go", Line: 4, Function: "p.T"}}
			fields := []LensMonitorField{{Name: "v", Type: "T", Children: []LensMonitorField{{Name: "w", Type: "string", Value: cl.val[n]}}}}
			if constant {
				fields = append(fields, LensMonitorField{Name: "c", Type: "int", Value: 7})
			}
			m.HandleFuncPointState(LensMonitorMessagePointState{PointID: 1, TimeNS: int64(1_000_000 * (10 + k)), Stack: st, Fields: fields})
			m.wait.Wait()
		}
		return TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "t", FunctionName: "T"}, CallerResults: m.callerFrames}
	}
	r1, r2 := run(0, nil), run(1, nil)
	st := testResultStableFields(r1, r2)
	saved, err := st.MarshalMsgpack()
	if err != nil {
		x.Fail("%v", err)
		return
	}
	var loaded TestResult
	if err := loaded.UnmarshalMsgpack(saved); err != nil {
		x.Fail("%v", err)
		return
	}
	post := run(2, &monitorStableResults{caller: loaded.CallerResults, extension: loaded.ExtensionFrames})
	pb, err := post.MarshalMsgpack()
	if err != nil {
		x.Fail("%v", err)
		return
	}
	ps, qs := NewMemStorage(), NewMemStorage()
	_ = ps.SaveState("t", saved)
	_ = qs.SaveState("t", pb)
	same, diff, reps, err := (&DefaultTestResultAnalyzer{}).CompareTestResults(ps, qs, 4)
	if err != nil || len(reps) != 1 {
		x.Fail("compare: %v, %d reports", err, len(reps))
		return
	}
	x.States(3)
	x.Traces(1)
	// reference
	occ := func(n int) map[int][]string { // per path, the values in order
		out := map[int][]string{}
		for _, cl := range prog {
			if cl.present[n] {
				out[cl.path] = append(out[cl.path], cl.val[n])
			}
		}
		return out
	}
	o1, o2, o3 := occ(0), occ(1), occ(2)
	wantSame, wantDiff, changed := 0, 0, false
	for path := 0; path < 2; path++ {
		for k := 0; k < min(len(o1[path]), len(o2[path])); k++ {
			stable := o1[path][k] == o2[path][k]
			if k >= len(o3[path]) { // the call no longer happens
				if constant {
					wantDiff++
				}
				if stable {
					wantDiff++
				}
				continue
			}
			if constant {
				wantSame++
			}
			if stable && o3[path][k] == o1[path][k] {
				wantSame++
			} else if stable {
				wantDiff++
				changed = true
			}
		}
	}
	if same != wantSame || diff != wantDiff {
		x.Fail("runs %v / %v / after update %v: %d same and %d different values, want %d and %d", o1, o2, o3, same, diff, wantSame, wantDiff)
		return
	}
	ch := reps[0].CallerFieldChanges
	_, has := ch[id]["v.w"]
	if has != changed || len(ch[id]) > 1 || len(ch) > 1 {
		x.Fail("runs %v / %v / after update %v: reported changes %v, want a change of v.w: %v", o1, o2, o3, ch, changed)
	}
}
