package lens

// C10: the comparison of the results before and after the update, against a reference written over plain data.

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"time"
)

type c10Frame struct {
	stack  int // 0 and 1 share their project frames
	fields map[string]string
	time   uint32
}

func (f c10Frame) class() int {
	if f.stack == 1 {
		return 0
	}
	return f.stack
}

func (f c10Frame) call(line uint32) CallFrame {
	fv := FieldValues{}
	for k, v := range f.fields {
		cur := fv
		parts := strings.Split(k, ".")
		for i, p := range parts {
			if i == len(parts)-1 {
				cur[p] = &FieldValue{Value: v}
				break
			}
			if cur[p] == nil {
				cur[p] = &FieldValue{Children: FieldValues{}}
			}
			cur = cur[p].Children
		}
	}
	st := []StackFrame{{"./a.go", 5 + line, "p.f"}, {"m@v1/x.go", 1, "m.X"}, {"./a_test.go", 9, "p.T"}}
	switch f.stack {
	case 1:
		st = []StackFrame{{"./a.go", 5 + line, "p.f"}, {"m@v2/y.go", 7, "m.Y"}, {"./a_test.go", 9, "p.T"}}
	case 2:
		st[0].Function = "p.g"
	}
	return CallFrame{FieldValues: fv, Stack: st, TimeMillis: f.time}
}

type c10Test struct {
	name    string
	callers map[string][]c10Frame
	pp, mp  map[string][]string
	fail    bool
	hit     int
}

func (t c10Test) result(line uint32) TestResult {
	r := TestResult{TestFunction: MinimumTestFunction{FunctionIdent: t.name, FunctionName: "T" + t.name}, ProjectPanics: t.pp, ModulePanics: t.mp,
		TestFailure: t.fail, ModuleChangesHit: t.hit, CallerResults: map[string][]CallFrame{}}
	for k, fs := range t.callers {
		var cf []CallFrame
		for _, f := range fs {
			cf = append(cf, f.call(line))
		}
		r.CallerResults[k] = cf
	}
	return r
}

type c10Want struct {
	same, diff int
	changes    map[string][][2]string // function/field -> the pairs of values that differ
	times      map[string][]c10Iv     // per function every interval change beyond the multiplier
	regress    int
}

type c10Iv struct{ pre, post uint32 }

func c10Ref(pre, post c10Test, mult int) c10Want {
	w := c10Want{changes: map[string][][2]string{}, times: map[string][]c10Iv{}}
	for fn, fs := range pre.callers {
		used := map[int]int{}
		var lastA, lastB uint32
		for _, f := range fs {
			k := used[f.class()]
			used[f.class()]++
			var match *c10Frame
			for i := range post.callers[fn] {
				g := post.callers[fn][i]
				if g.class() == f.class() {
					if k == 0 {
						match = &g
						break
					}
					k--
				}
			}
			if match == nil {
				w.diff += len(f.fields)
				continue
			}
			for name, v := range f.fields {
				u, ok := match.fields[name]
				switch {
				case !ok:
					w.diff++
				case u == v:
					w.same++
				default:
					w.diff++
					w.changes[fn+"/"+name] = append(w.changes[fn+"/"+name], [2]string{v, u})
				}
			}
			if f.time > 0 && match.time > 0 && f.time >= lastA && match.time >= lastB {
				a, b := f.time-lastA, match.time-lastB
				if uint64(max(1, a))*uint64(mult) < uint64(b) || uint64(max(1, b))*uint64(mult) < uint64(a) {
					w.times[fn] = append(w.times[fn], c10Iv{a, b})
				}
			}
			lastA, lastB = f.time, match.time
		}
	}
	panics := func(a, b map[string][]string) {
		ids := map[string]bool{}
		for k := range a {
			ids[k] = true
		}
		for k := range b {
			ids[k] = true
		}
		for id := range ids {
			cnt := map[string]int{}
			for _, m := range a[id] {
				cnt[m]++
			}
			for _, m := range b[id] {
				cnt[m]--
			}
			for _, n := range cnt {
				w.diff += max(n, -n)
			}
		}
	}
	panics(pre.pp, post.pp)
	panics(pre.mp, post.mp)
	if post.fail && !pre.fail {
		w.regress = 1
	}
	return w
}

func c10Store(x *vCase, tests []c10Test, line uint32) Storage {
	s := NewMemStorage()
	for _, t := range tests {
		r := t.result(line)
		b, err := r.MarshalMsgpack()
		if err != nil {
			x.Fail("%v", err)
		}
		_ = s.SaveState(t.name, b)
	}
	return s
}

func c10Check(x *vCase, pre, post []c10Test, mult int) bool {
	ps, qs := c10Store(x, pre, 0), c10Store(x, post, 4)
	an := &DefaultTestResultAnalyzer{}
	same, diff, reps, err := an.CompareTestResults(ps, qs, mult)
	x.States(1)
	x.Transitions(1)
	x.Traces(1)
	bad := func(format string, a ...any) bool {
		x.Fail("before %+v\nafter %+v: %s", pre, post, fmt.Sprintf(format, a...))
		return false
	}
	if err != nil {
		return bad("error %v", err)
	}
	byName := map[string]c10Test{}
	for _, t := range pre {
		byName[t.name] = t
	}
	wantSame, wantDiff := 0, 0
	got := map[string]*TestReport{}
	for i := range reps {
		n := reps[i].OriginalResult.TestFunction.FunctionIdent
		if got[n] != nil || n == "" {
			return bad("report for test %q given twice or without a name", n)
		}
		got[n] = &reps[i]
	}
	expected := 0
	for _, b := range post {
		a, ok := byName[b.name]
		if !ok {
			if got[b.name] != nil {
				return bad("test %s has no result before the update but is compared", b.name)
			}
			continue
		}
		expected++
		w := c10Ref(a, b, mult)
		wantSame += w.same
		wantDiff += w.diff
		r := got[b.name]
		if r == nil {
			return bad("no report for test %s", b.name)
		}
		if r.PostUpdateResult.TestFunction.FunctionIdent != b.name || r.OriginalResult.TestFailure != a.fail || r.PostUpdateResult.TestFailure != b.fail || r.OriginalResult.ModuleChangesHit != a.hit {
			return bad("report of %s describes %+v / %+v", b.name, r.OriginalResult, r.PostUpdateResult)
		}
		if r.SameFieldCount != w.same || r.DiffFieldCount != w.diff || r.TestRegressionCount != w.regress {
			return bad("test %s: same %d diff %d regressions %d, want %d %d %d", b.name, r.SameFieldCount, r.DiffFieldCount, r.TestRegressionCount, w.same, w.diff, w.regress)
		}
		n := 0
		for fn, m := range r.CallerFieldChanges {
			for f, txt := range m {
				n++
				ok := false
				for _, p := range w.changes[fn+"/"+f] {
					if txt == an.DiffValues(p[0], p[1]) && txt != "" {
						ok = true
					}
				}
				if !ok {
					return bad("test %s: reported change of %s.%s %q, values that differ: %q", b.name, fn, f, txt, w.changes[fn+"/"+f])
				}
			}
		}
		if n != len(w.changes) {
			return bad("test %s: reported changes %v, want %v", b.name, r.CallerFieldChanges, w.changes)
		}
		if len(r.CallerTimeChanges) != len(w.times) {
			return bad("test %s: time changes %v, want %v", b.name, r.CallerTimeChanges, w.times)
		}
		for fn, tc := range r.CallerTimeChanges {
			best, found := 0.0, false
			for _, iv := range w.times[fn] {
				best = math.Max(best, math.Abs(float64(iv.post)-float64(iv.pre)))
				found = found || iv == c10Iv{tc.PreTimeMs, tc.PostTimeMs}
			}
			d := time.Duration(int64(tc.PostTimeMs)-int64(tc.PreTimeMs)) * time.Millisecond
			if !found || tc.TimeDiff != d || math.Abs(float64(d/time.Millisecond)) != best {
				return bad("test %s: time change of %s is %+v, intervals that changed: %+v (the largest change is %vms)", b.name, fn, tc, w.times[fn], best)
			}
		}
	}
	if len(reps) != expected {
		return bad("%d reports, want %d", len(reps), expected)
	}
	if same != wantSame || diff != wantDiff {
		return bad("totals %d same %d different, want %d and %d", same, diff, wantSame, wantDiff)
	}
	if !sort.SliceIsSorted(reps, func(i, j int) bool {
		return reps[i].OriginalResult.TestFunction.FunctionIdent < reps[j].OriginalResult.TestFunction.FunctionIdent
	}) {
		return bad("reports are not in order")
	}
	return true
}

func c10Seqs(al []c10Frame, depth int) [][]c10Frame {
	out, last := [][]c10Frame{{}}, [][]c10Frame{{}}
	for d := 0; d < depth; d++ {
		var next [][]c10Frame
		for _, s := range last {
			for _, f := range al {
				next = append(next, append(slices.Clone(s), f))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func init() {
	vRegister("fields", func(c *vCtx) {
		vals := []map[string]string{{}, {"a": "x"}, {"a": "y"}, {"a.b": "x", "a.c": "y"}, {"a": "x", "d": "z"}}
		if c.Thorough() {
			vals = append(vals, map[string]string{"a.b": "x", "a.c": "z", "d": ""}, map[string]string{"d": "w"})
		}
		var al []c10Frame
		for st := 0; st < 3; st++ {
			for _, v := range vals {
				al = append(al, c10Frame{st, v, 5})
			}
		}
		seqs := c10Seqs(al, 2)
		for i := range seqs {
			c.Case(fmt.Sprintf("f-%d", i), func(x *vCase) {
				x.Sample(fmt.Sprintf("%+v", seqs[i]))
				for j := range seqs {
					if !c10Check(x, []c10Test{{name: "t", callers: map[string][]c10Frame{"f": seqs[i]}}}, []c10Test{{name: "t", callers: map[string][]c10Frame{"f": seqs[j]}}}, 4) {
						return
					}
				}
			})
		}
		// three calls along two paths
		var al3 []c10Frame
		for st := 0; st < 3; st += 2 {
			al3 = append(al3, c10Frame{st, vals[1], 5}, c10Frame{st, vals[2], 5})
		}
		s3 := c10Seqs(al3, 3)
		for i := range s3 {
			c.Case(fmt.Sprintf("f3-%d", i), func(x *vCase) {
				for j := range s3 {
					if !c10Check(x, []c10Test{{name: "t", callers: map[string][]c10Frame{"f": s3[i]}}}, []c10Test{{name: "t", callers: map[string][]c10Frame{"f": s3[j]}}}, 4) {
						return
					}
				}
			})
		}
		// functions present on one side only
		one := c10Frame{0, map[string]string{"a": "x", "b": "y"}, 5}
		for m := 0; m < 256; m++ {
			c.Case(fmt.Sprintf("who-%d", m), func(x *vCase) {
				mk := func(bits int) map[string][]c10Frame {
					out := map[string][]c10Frame{}
					for i, n := range []string{"f", "g"} {
						switch bits >> (2 * i) & 3 {
						case 1:
							out[n] = nil
						case 2:
							out[n] = []c10Frame{one}
						case 3:
							out[n] = []c10Frame{one, {2, map[string]string{"a": "q"}, 6}}
						}
					}
					return out
				}
				c10Check(x, []c10Test{{name: "t", callers: mk(m)}}, []c10Test{{name: "t", callers: mk(m >> 4)}}, 4)
			})
		}
	})
	vRegister("panics", func(c *vCtx) {
		var lists [][]string
		for n := 0; n <= 3; n++ {
			for m := 0; m < 1<<n; m++ {
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, []string{"boom", "bang"}[m>>i&1])
				}
				lists = append(lists, l)
			}
		}
		for i := range lists {
			c.Case(fmt.Sprintf("p-%d", i), func(x *vCase) {
				for j := range lists {
					for k := 0; k < 8; k++ {
						mk := func(l []string, id string) (pp, mp map[string][]string) {
							if id == "" {
								return nil, nil
							}
							if k&1 == 0 {
								return map[string][]string{id: l}, nil
							}
							return map[string][]string{id: l[:len(l)/2]}, map[string][]string{id: l[len(l)/2:]}
						}
						ids := [][2]string{{"f", "f"}, {"f", "g"}, {"f", ""}, {"", "f"}}[k>>1]
						ap, am := mk(lists[i], ids[0])
						bp, bm := mk(lists[j], ids[1])
						if !c10Check(x, []c10Test{{name: "t", pp: ap, mp: am}}, []c10Test{{name: "t", pp: bp, mp: bm}}, 4) {
							return
						}
					}
				}
			})
		}
	})
	vRegister("tests", func(c *vCtx) {
		f := func(v string) map[string][]c10Frame { return map[string][]c10Frame{"f": {{0, map[string]string{"a": v, "b": "k"}, 5}}} }
		// every test: absent / passes / fails on each side, same or different values
		for m := 0; m < 729; m++ {
			c.Case(fmt.Sprintf("t-%d", m), func(x *vCase) {
				var pre, post []c10Test
				k := m
				for i, n := range []string{"ta", "tb", "tc"} {
					s := k % 9
					k /= 9
					v := "x"
					if i == 1 || s%2 == 1 {
						v = "y"
					}
					if s%3 > 0 {
						pre = append(pre, c10Test{name: n, callers: f("x"), fail: s%3 == 2, hit: i + 2})
					}
					if s/3 > 0 {
						post = append(post, c10Test{name: n, callers: f(v), fail: s/3 == 2})
					}
				}
				c10Check(x, pre, post, 4)
			})
		}
	})
	vRegister("times", func(c *vCtx) {
		ts := []uint32{0, 1, 5, 11, 100}
		mults := []int{1, 2, 10}
		if c.Thorough() {
			ts = append(ts, 2, 50)
			mults = append(mults, 3)
		}
		n := len(ts)
		for _, mult := range mults {
			for k := 1; k <= 3; k++ {
				total := 1
				for i := 0; i < k; i++ {
					total *= n
				}
				for a := 0; a < total; a++ {
					c.Case(fmt.Sprintf("m%d-%d-%d", mult, k, a), func(x *vCase) {
						dec := func(v int) []c10Frame {
							var out []c10Frame
							for i := 0; i < k; i++ {
								out = append(out, c10Frame{0, map[string]string{"a": "x"}, ts[v%n]})
								v /= n
							}
							return out
						}
						for b := 0; b < total; b++ {
							if !c10Check(x, []c10Test{{name: "t", callers: map[string][]c10Frame{"f": dec(a)}}}, []c10Test{{name: "t", callers: map[string][]c10Frame{"f": dec(b)}}}, mult) {
								return
							}
						}
					})
				}
			}
		}
	})
	vRegister("text", func(c *vCtx) {
		// every pair of small multi-line values: the explanation is empty exactly for equal values and names what changed
		var vals []string
		var rec func(s string, n int)
		rec = func(s string, n int) {
			vals = append(vals, s)
			if n == 0 {
				return
			}
			for _, l := range []string{"p", "q", "\n", "\r"} {
				rec(s+l, n-1)
			}
		}
		rec("", 4)
		for _, s := range []string{"", "A", "abcd", "zzabcd"} {
			vals = append(vals, HashFieldValuePrefix+s)
		}
		vals = append(vals, strings.Repeat("l\n", 30)+"end", strings.Repeat("l\n", 30)+"End", "\x00", "\xff", "é")
		an := &DefaultTestResultAnalyzer{}
		for i := range vals {
			c.Case(fmt.Sprintf("v-%d", i), func(x *vCase) {
				for _, w := range vals {
					x.States(1)
					x.Transitions(1)
					t := an.DiffValues(vals[i], w)
					if (t == "") != (vals[i] == w) {
						x.Fail("explanation of %q and %q is %q", vals[i], w, t)
						return
					}
					hashed := strings.HasPrefix(vals[i], HashFieldValuePrefix) || strings.HasPrefix(w, HashFieldValuePrefix)
					if t == "" || hashed {
						continue
					}
					for _, side := range []struct{ a, b, mark string }{{vals[i], w, "-"}, {w, vals[i], "+"}} {
						in := map[string]bool{}
						for _, l := range strings.Split(side.b, "\n") {
							in[l] = true
						}
						for _, l := range strings.Split(side.a, "\n") {
							if !in[l] && l != "" && !strings.Contains(t, side.mark+l) && !strings.Contains(t, "'"+side.a+"'") {
								x.Fail("explanation of %q and %q does not show line %q: %q", vals[i], w, l, t)
								return
							}
						}
					}
				}
			})
		}
	})
}
