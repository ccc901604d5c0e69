package lens

// C08: a recorded test result survives storage unchanged, whatever is shared between its frames.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// c08Trees returns all field-value forests with exactly n nodes over the names and leaf values.
func c08Trees(n int, names, values []string, both bool) []FieldValues {
	memo := map[int][]FieldValues{}
	var forests func(n, from int) []FieldValues
	var nodes func(n int) []*FieldValue
	var key func(n, from int) int
	key = func(n, from int) int { return n*100 + from }
	nodes = func(n int) []*FieldValue {
		var out []*FieldValue
		if n == 1 {
			for _, v := range values {
				out = append(out, &FieldValue{Value: v})
			}
			return out
		}
		for _, f := range forests(n-1, 0) {
			out = append(out, &FieldValue{Children: f})
			if both {
				out = append(out, &FieldValue{Value: values[len(values)-1], Children: f})
			}
		}
		return out
	}
	forests = func(n, from int) []FieldValues {
		if n == 0 {
			return []FieldValues{{}}
		}
		if from >= len(names) {
			return nil
		}
		if m, ok := memo[key(n, from)]; ok {
			return m
		}
		var out []FieldValues
		out = append(out, forests(n, from+1)...)
		for k := 1; k <= n; k++ {
			rest := forests(n-k, from+1)
			if len(rest) == 0 {
				continue
			}
			for _, nd := range nodes(k) {
				for _, r := range rest {
					f := FieldValues{names[from]: nd}
					for a, b := range r {
						f[a] = b
					}
					out = append(out, f)
				}
			}
		}
		memo[key(n, from)] = out
		return out
	}
	return forests(n, 0)
}

func c08Str(fv FieldValues) string {
	var sb strings.Builder
	ks := make([]string, 0, len(fv))
	for k := range fv {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteByte('{')
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%q", k, fv[k].Value)
		if len(fv[k].Children) > 0 {
			sb.WriteString(c08Str(fv[k].Children))
		}
		sb.WriteByte(';')
	}
	sb.WriteByte('}')
	return sb.String()
}

func c08Frames(m map[string][]CallFrame) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q:", k)
		for _, f := range m[k] {
			fmt.Fprintf(&sb, "[%s t=%d", c08Str(f.FieldValues), f.TimeMillis)
			for _, s := range f.Stack {
				fmt.Fprintf(&sb, " %q:%d:%q", s.File, s.Line, s.Function)
			}
			sb.WriteString("]")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func c08Panics(m map[string][]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q:%q\n", k, m[k])
	}
	return sb.String()
}

func c08Render(r *TestResult) string {
	return fmt.Sprintf("%q %q hit=%d fail=%v\ncaller:\n%sext:\n%spp:\n%smp:\n%s", r.TestFunction.FunctionIdent, r.TestFunction.FunctionName,
		r.ModuleChangesHit, r.TestFailure, c08Frames(r.CallerResults), c08Frames(r.ExtensionFrames), c08Panics(r.ProjectPanics), c08Panics(r.ModulePanics))
}

// c08Prev is the stored form of the result before, which later encodings may not touch.
var c08Prev, c08PrevCopy []byte

func c08Round(x *vCase, r *TestResult) {
	x.States(1)
	x.Transitions(2)
	x.Traces(1)
	before := c08Render(r)
	b, err := r.MarshalMsgpack()
	if err != nil {
		x.Fail("encoding failed: %v\n%s", err, before)
		return
	}
	if after := c08Render(r); after != before {
		x.Fail("encoding changed the result:\n%s\n%s", before, after)
		return
	}
	if string(c08Prev) != string(c08PrevCopy) {
		x.Fail("encoding this result changed the stored form of the result encoded before:\n%s", before)
		c08Prev, c08PrevCopy = nil, nil
		return
	}
	c08Prev, c08PrevCopy = b, append([]byte(nil), b...)
	var back TestResult
	if err := back.UnmarshalMsgpack(b); err != nil {
		x.Fail("decoding failed: %v\n%s", err, before)
		return
	}
	if string(b) != string(c08PrevCopy) {
		x.Fail("decoding changed the stored form:\n%s", before)
		return
	}
	if got := c08Render(&back); got != before {
		x.Fail("stored and loaded result differ\nstored:\n%s\nloaded:\n%s", c08Diff(before, got), c08Diff(got, before))
	}
}

func c08Diff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range al {
		if i >= len(bl) || al[i] != bl[i] {
			s := al[i]
			j := 0
			for i < len(bl) && j < len(s) && j < len(bl[i]) && s[j] == bl[i][j] {
				j++
			}
			if j > 120 {
				s = "..." + s[j-120:]
			}
			if len(s) > 500 {
				s = s[:500] + "..."
			}
			return s
		}
	}
	return a
}

var c08Values = []string{"x", "longvalue-1", "longvalue-2"}

var c08Stacks = [][]StackFrame{
	nil,
	{{"./a.go", 1, "p.f"}},
	{{"./a.go", 11, "p.f"}},
	{{"./a.go", 1, "1p.f"}},
	{{"./a.go", 1, "p.f"}, {"./b.go", 2, "p.g"}},
	{{"./b.go", 2, "p.g"}, {"./a.go", 1, "p.f"}},
}

func init() {
	base := func() *TestResult {
		return &TestResult{TestFunction: MinimumTestFunction{FunctionIdent: "pkg.TestA", FunctionName: "TestA"}}
	}
	vRegister("everything-at-once", func(c *vCtx) { // any two trees that share an identity would be confused here
		for _, both := range []bool{false, true} {
			for max := 1; max <= 4; max++ {
				c.Case(fmt.Sprintf("all trees of <=%d nodes both=%v", max, both), func(x *vCase) {
					r := base()
					r.CallerResults = map[string][]CallFrame{}
					r.ExtensionFrames = map[string][]CallFrame{}
					k := 0
					for n := 0; n <= max; n++ {
						vals := c08Values
						if n == 4 {
							vals = vals[1:]
						}
						for _, t := range c08Trees(n, []string{"a", "b", "c"}, vals, both) {
							for rep := 0; rep < 2; rep++ {
								f := CallFrame{FieldValues: t, Stack: c08Stacks[k%len(c08Stacks)], TimeMillis: uint32(k)}
								if k%3 == 2 {
									r.ExtensionFrames[fmt.Sprint("e", k%5)] = append(r.ExtensionFrames[fmt.Sprint("e", k%5)], f)
								} else {
									r.CallerResults[fmt.Sprint("f", k%7)] = append(r.CallerResults[fmt.Sprint("f", k%7)], f)
								}
								k++
							}
						}
					}
					x.States(k)
					c08Round(x, r)
				})
			}
		}
	})
	vRegister("pairs", func(c *vCtx) {
		var trees []FieldValues
		vals := c08Values[:2]
		for n := 0; n <= 3; n++ {
			trees = append(trees, c08Trees(n, []string{"a", "b"}, vals, false)...)
		}
		if c.Thorough() {
			trees = append(trees, c08Trees(4, []string{"a", "b"}, vals, false)...)
		}
		for i, t1 := range trees {
			c.Case(fmt.Sprintf("%d: %s with every other tree", i, c08Str(t1)), func(x *vCase) {
				for j, t2 := range trees {
					for mode := 0; mode < 3; mode++ {
						r := base()
						s1, s2 := c08Stacks[i%len(c08Stacks)], c08Stacks[j%len(c08Stacks)]
						f1, f2 := CallFrame{t1, s1, 1}, CallFrame{t2, s2, 2}
						switch mode {
						case 0:
							r.CallerResults = map[string][]CallFrame{"f": {f1, f2}}
						case 1:
							r.CallerResults = map[string][]CallFrame{"f": {f1}, "g": {f2, f1}}
						case 2:
							r.CallerResults = map[string][]CallFrame{"f": {f1}}
							r.ExtensionFrames = map[string][]CallFrame{"f": {f2}}
						}
						c08Round(x, r)
						if x.Failed() {
							return
						}
					}
				}
			})
		}
	})
	vRegister("nested-sharing", func(c *vCtx) { // one tree used whole, as a child, and as a grandchild
		var trees []FieldValues
		for n := 1; n <= 3; n++ {
			trees = append(trees, c08Trees(n, []string{"a", "b"}, c08Values, n < 3)...)
		}
		for i, t := range trees {
			c.Case(fmt.Sprintf("%d %s", i, c08Str(t)), func(x *vCase) {
				for j, u := range trees {
					if j%7 != i%7 && !c.Thorough() {
						continue
					}
					r := base()
					r.CallerResults = map[string][]CallFrame{"f": {
						{FieldValues: t}, {FieldValues: FieldValues{"p": {Children: t}, "q": {Children: u}}},
						{FieldValues: FieldValues{"p": {Children: FieldValues{"p": {Children: t}, "q": {Children: u}}}, "q": {Children: t}}},
						{FieldValues: u}, {FieldValues: FieldValues{"q": {Children: u}}}, {FieldValues: FieldValues{"p": {Value: "longvalue-1", Children: u}, "q": {Value: "longvalue-1"}}}}}
					c08Round(x, r)
					if x.Failed() {
						return
					}
				}
			})
		}
	})
	vRegister("headers", func(c *vCtx) {
		strs := []string{"", "a", "b", strings.Repeat("long", 20), "é\x00\n"}
		lists := [][]string{nil, {"m"}, {"m", "m"}, {"m", ""}, {strings.Repeat("p", 300)}}
		for _, id := range strs {
			for _, nm := range strs {
				for _, hit := range []int{0, 1, 200, 70000, -1} {
					for _, fail := range []bool{false, true} {
						for li, l1 := range lists {
							for lj, l2 := range lists {
								c.Case(fmt.Sprintf("%q %q %d %v %d %d", id, nm, hit, fail, li, lj), func(x *vCase) {
									r := &TestResult{TestFunction: MinimumTestFunction{FunctionIdent: id, FunctionName: nm}, ModuleChangesHit: hit, TestFailure: fail}
									if l1 != nil {
										r.ProjectPanics = map[string][]string{nm: l1, "other": {"x"}}
									}
									if l2 != nil {
										r.ModulePanics = map[string][]string{id: l2}
									}
									r.CallerResults = map[string][]CallFrame{id: {{Stack: c08Stacks[li], TimeMillis: uint32(hit)}, {Stack: c08Stacks[lj], TimeMillis: 1 << 31}}}
									if fail {
										r.ExtensionFrames = map[string][]CallFrame{nm: {{FieldValues: FieldValues{nm: {Value: id}}}}}
									}
									c08Round(x, r)
								})
							}
						}
					}
				}
			}
		}
	})
	vRegister("identity", func(c *vCtx) { // equal identity exactly for equal content
		var trees []FieldValues
		for n := 0; n <= 4; n++ {
			vals := []string{"x", "y"}
			trees = append(trees, c08Trees(n, []string{"a", "b"}, vals, n < 4)...)
		}
		c.Case("all trees of <=4 nodes", func(x *vCase) {
			ids := map[string]string{}
			for _, t := range trees {
				id, str := t.ID(), c08Str(t)
				if o, ok := ids[id]; ok && o != str {
					x.Fail("%s and %s share one identity", o, str)
					return
				}
				ids[id] = str
				if cp := c08Copy(t); cp.ID() != id {
					x.Fail("%s has two identities", str)
				}
			}
			nodes := map[string]string{}
			for _, t := range trees {
				n := &FieldValue{Value: "v", Children: t}
				str := c08Str(FieldValues{"": n})
				if o, ok := nodes[n.ID()]; ok && o != str {
					x.Fail("nodes %s and %s share one identity", o, str)
				}
				nodes[n.ID()] = str
			}
			x.States(len(trees))
			x.Transitions(len(trees))
			x.Traces(len(trees))
			if len(ids) < 100 || !reflect.DeepEqual(trees[0], FieldValues{}) {
				panic("enumeration")
			}
		})
	})
	vRegister("damaged", func(c *vCtx) { // every cut and every one-byte change of stored results: an error or some result
		shared := FieldValues{"k": {Value: "longvalue-1"}, "n": {Children: FieldValues{"k": {Value: "longvalue-1"}}}}
		rs := []*TestResult{base(), base(), base()}
		rs[1].CallerResults = map[string][]CallFrame{"f": {{shared, c08Stacks[1], 1}, {shared, c08Stacks[1], 2}}}
		rs[2].CallerResults = map[string][]CallFrame{"f": {{FieldValues: FieldValues{"p": {Children: shared}}}, {FieldValues: FieldValues{"q": {Children: shared}}}}}
		rs[2].ProjectPanics = map[string][]string{"f": {"m"}}
		for i, r := range rs {
			b, err := r.MarshalMsgpack()
			if err != nil {
				panic(err)
			}
			for off := 0; off < len(b); off++ {
				c.Case(fmt.Sprintf("result %d offset %d", i, off), func(x *vCase) {
					var t TestResult
					if err := t.UnmarshalMsgpack(b[:off]); err == nil {
						x.Fail("a result cut after %d of %d bytes loads without error", off, len(b))
					}
					step := 1
					if !c.Thorough() {
						step = 5
					}
					for v := 0; v < 256; v += step {
						m := append([]byte(nil), b...)
						m[off] = byte(v)
						var t TestResult
						_ = t.UnmarshalMsgpack(m)
					}
					for v := 0; v < 8; v++ { // every small index
						m := append([]byte(nil), b...)
						m[off] = byte(v)
						var t TestResult
						_ = t.UnmarshalMsgpack(m)
						x.States(1)
					}
					x.Transitions(60)
					x.Traces(1)
				})
			}
		}
	})
}

func c08Copy(t FieldValues) FieldValues {
	out := FieldValues{}
	for k, v := range t {
		n := &FieldValue{Value: v.Value}
		if len(v.Children) > 0 {
			n.Children = c08Copy(v.Children)
		}
		out[k] = n
	}
	return out
}
