package lens

// C11: what the monitor records. Reference: the messages in the order they were accepted per function, each attributed to
// the function of its point id.

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

type c11Msg struct {
	kind  string // state, point, panic
	id    uint32
	shape int
}

func (m c11Msg) String() string { return fmt.Sprintf("%s%d/%d", m.kind, m.id, m.shape) }

type c11Sent struct {
	msg      c11Msg
	thread   int
	seq      int
	inv, ret int64
}

const c11Project = "/proj"

func c11Maps() (state, ppanic, entry, mpanic, ext map[uint32]*string) {
	s := func(v string) *string { return &v }
	return map[uint32]*string{1: s("f"), 2: s("f"), 3: s("g"), 4: s("h")},
		map[uint32]*string{30: s("f"), 31: s("g")},
		map[uint32]*string{20: s("m1"), 21: s("m2"), 22: s("m1")},
		map[uint32]*string{40: s("m1")},
		map[uint32]*string{10: s("ext:a"), 11: s("f")} // an extension key may equal a function name
}

func c11Stack(shape int) []lensMonitorStackFrame {
	fr := func(file string, line int, fn string) lensMonitorStackFrame {
		return lensMonitorStackFrame{File: file, Line: uint(line), Function: fn}
	}
	switch shape % 3 {
	case 0:
		return []lensMonitorStackFrame{fr("/proj/a.go", 5, "p.f"), fr("/go/pkg/mod/m@v1/x.go", 1, "m.X"), fr("/proj/a_test.go", 9, "p.T")}
	case 1: // the same project frames through a different module line
		return []lensMonitorStackFrame{fr("/proj/a.go", 6, "p.f"), fr("/go/pkg/mod/m@v2/y.go", 2, "m.Y"), fr("/proj/a_test.go", 9, "p.T")}
	}
	return []lensMonitorStackFrame{fr("/proj/b.go", 5, "p.g"), fr("/proj/vendor/v/v.go", 3, "v.V")}
}

func c11WantStack(shape int) []StackFrame {
	switch shape % 3 {
	case 0:
		return []StackFrame{{"./a.go", 5, "p.f"}, {"m@v1/x.go", 1, "m.X"}, {"./a_test.go", 9, "p.T"}}
	case 1:
		return []StackFrame{{"./a.go", 6, "p.f"}, {"m@v2/y.go", 2, "m.Y"}, {"./a_test.go", 9, "p.T"}}
	}
	return []StackFrame{{"./b.go", 5, "p.g"}, {"./vendor/v/v.go", 3, "v.V"}}
}

// c11StackClass: which project stack the shape has
func c11StackClass(shape int) int {
	if shape%3 == 2 {
		return 1
	}
	return 0
}

func c11Fields(tag string) []LensMonitorField {
	return []LensMonitorField{
		{Name: "v", Type: "string", Value: tag},
		{Name: "w", Type: "int", Value: 7},
		{Name: "s", Type: "p.S", Children: []LensMonitorField{{Name: "x", Type: "int", Value: 1}, {Name: "y", Type: "string", Value: tag}}},
	}
}

func c11WantFields(tag string) map[string]string {
	return map[string]string{"v": tag, "w": "7", "s.x": "1", "s.y": tag}
}

func c11Send(m *testMonitor, msg c11Msg, tag string) {
	switch msg.kind {
	case "state":
		m.HandleFuncPointState(LensMonitorMessagePointState{PointID: msg.id, TimeNS: c11Time(msg.shape), Stack: c11Stack(msg.shape), Fields: c11Fields(tag)})
	case "point":
		m.HandleFuncPoint(LensMonitorMessagePoint{PointID: msg.id, TimeNS: 1, Stack: c11Stack(msg.shape)})
	case "panic":
		m.HandleFuncPointPanic(LensMonitorMessagePointPanic{PointID: msg.id, TimeNS: 1, Message: c11Boom(msg, tag)})
	}
}

// c11Boom: shape 7 repeats one text, other panics differ.
func c11Boom(msg c11Msg, tag string) string {
	if msg.shape == 7 {
		return "boom"
	}
	return "boom " + tag
}

func c11Time(shape int) int64 { return []int64{0, 499_999, 500_000, 1_499_999, 1_500_000, 77_000_000}[shape%6] }
func c11WantTime(shape int) uint32 {
	return []uint32{0, 0, 1, 1, 2, 77}[shape%6]
}

// c11Stable: the k-th frame with a given project stack may keep these top-level fields.
var c11Allowed = map[string]map[int][][]string{
	"f": {0: {{"v"}, {"w", "s"}}, 1: {{"s"}}},
	"g": {1: {{"v", "w"}}},
}

func c11StableResults() *monitorStableResults {
	frames := map[string][]CallFrame{}
	for ident, byClass := range c11Allowed {
		for _, class := range []int{1, 0} {
			for _, fields := range byClass[class] {
				fv := FieldValues{}
				for _, f := range fields {
					fv[f] = &FieldValue{Value: "stable"}
				}
				shape := 0
				if class == 1 {
					shape = 2
				}
				frames[ident] = append(frames[ident], CallFrame{FieldValues: fv, Stack: c11WantStack(shape)})
			}
		}
	}
	return &monitorStableResults{caller: frames}
}

// c11Judge compares what was recorded with what was sent. Frames may be in any order that respects the order in which the
// messages were accepted.
func c11Judge(caller, ext map[string][]CallFrame, stable bool, sent []c11Sent) (string, string) {
	state, _, _, _, extIDs := c11Maps()
	want := map[string][]c11Sent{}
	for _, s := range sent {
		if s.msg.kind != "state" {
			continue
		}
		if k, ok := extIDs[s.msg.id]; ok {
			want["e|"+*k] = append(want["e|"+*k], s)
		} else if k, ok := state[s.msg.id]; ok {
			want["c|"+*k] = append(want["c|"+*k], s)
		}
	}
	got := map[string][]CallFrame{}
	for k, v := range caller {
		if len(v) > 0 {
			got["c|"+k] = v
		}
	}
	for k, v := range ext {
		if len(v) > 0 {
			got["e|"+k] = v
		}
	}
	var outcome strings.Builder
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("frames recorded for %q although nothing was sent for it", k), "extra"
		}
	}
	keys := make([]string, 0, len(want))
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		frames := got[k]
		if len(frames) != len(want[k]) {
			return fmt.Sprintf("%d messages for %q were recorded as %d frames", len(want[k]), k, len(frames)), "count"
		}
		// match frames to messages by their full content, respecting acceptance order
		n := len(frames)
		ok, order := c11Match(k, frames, want[k], stable)
		if !ok {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "  recorded %d: %v t=%d %v\n", i, frames[i].FieldValues.FlattenFieldValues(), frames[i].TimeMillis, frames[i].Stack)
			}
			for _, s := range want[k] {
				fmt.Fprintf(&sb, "  sent by T%d#%d [%d,%d]: %v\n", s.thread, s.seq, s.inv, s.ret, s.msg)
			}
			return fmt.Sprintf("the frames recorded for %q do not correspond one to one, in order and unchanged, to the messages sent:\n%s", k, sb.String()), "content"
		}
		fmt.Fprintf(&outcome, "%s:%s ", k, order)
	}
	return "", outcome.String()
}

func c11Tag(s c11Sent) string { return fmt.Sprintf("T%d#%d", s.thread, s.seq) }

func c11Match(key string, frames []CallFrame, msgs []c11Sent, stable bool) (bool, string) {
	n := len(frames)
	used := make([]bool, n)
	order := make([]string, 0, n)
	ident := key[2:]
	var rec func(i int, occ [2]int) bool
	rec = func(i int, occ [2]int) bool {
		if i == n {
			return true
		}
		for j, s := range msgs {
			if used[j] {
				continue
			}
			early := true
			for l, o := range msgs {
				if l != j && !used[l] && o.ret < s.inv {
					early = false
				}
			}
			if !early {
				continue
			}
			class := c11StackClass(s.msg.shape)
			want := c11WantFields(c11Tag(s))
			if stable && key[0] == 'c' {
				var allowed []string
				if a := c11Allowed[ident][class]; occ[class] < len(a) {
					allowed = a[occ[class]]
				}
				for name := range want {
					top, _, _ := strings.Cut(name, ".")
					keep := false
					for _, a := range allowed {
						keep = keep || a == top
					}
					if !keep {
						delete(want, name)
					}
				}
			}
			f := frames[i]
			if f.TimeMillis != c11WantTime(s.msg.shape) || fmt.Sprint(f.Stack) != fmt.Sprint(c11WantStack(s.msg.shape)) ||
				fmt.Sprint(f.FieldValues.FlattenFieldValues()) != fmt.Sprint(want) {
				continue
			}
			used[j] = true
			o2 := occ
			o2[class]++
			order = append(order, c11Tag(s))
			if rec(i+1, o2) {
				return true
			}
			order = order[:len(order)-1]
			used[j] = false
		}
		return false
	}
	ok := rec(0, [2]int{})
	return ok, strings.Join(order, ",")
}

func c11New(stable bool) *testMonitor {
	a, b, cc, d, e := c11Maps()
	var sr *monitorStableResults
	if stable {
		sr = c11StableResults()
	}
	return newTestMonitor(sr, "/go", c11Project, a, b, cc, d, e)
}

// c11More is set by the optional file that looks at the complete test result.
var c11More func(m *testMonitor, sent []c11Sent) string

func c11Scenario(stable bool, threads [][]c11Msg) func() *vScen {
	return func() *vScen {
		m := c11New(stable)
		sent := make([][]c11Sent, len(threads))
		sc := &vScen{}
		var wg vWaitGroup
		wg.Add(len(threads))
		for ti, ms := range threads {
			sc.Threads = append(sc.Threads, func() {
				for si, msg := range ms {
					s := c11Sent{msg: msg, thread: ti, seq: si, inv: vNow()}
					c11Send(m, msg, c11Tag(s))
					s.ret = vNow()
					sent[ti] = append(sent[ti], s)
				}
				wg.Done()
			})
		}
		var bad, outcome string
		finished := false
		sc.Threads = append(sc.Threads, func() {
			wg.Wait() // the test process has ended
			m.wait.Wait()
			var all []c11Sent
			for _, s := range sent {
				all = append(all, s...)
			}
			bad, outcome = c11Judge(m.callerFrames, m.extensionFrames, stable, all)
			if bad == "" && c11More != nil {
				bad = c11More(m, all)
			}
			finished = true
		})
		sc.Check = func() (string, string) {
			if !finished {
				return "the result was never produced", "unfinished"
			}
			return bad, outcome
		}
		return sc
	}
}

func init() {
	alphabet := []c11Msg{{"state", 1, 0}, {"state", 2, 1}, {"state", 1, 2}, {"state", 3, 2}, {"state", 10, 0}, {"state", 11, 3},
		{"state", 99, 0}, {"point", 20, 0}, {"point", 22, 1}, {"panic", 30, 0}, {"panic", 40, 0}, {"panic", 98, 0}, {"point", 97, 1}}
	vRegister("interleavings", func(c *vCtx) {
		bound := 2
		for _, stable := range []bool{false, true} {
			for i, a := range alphabet {
				for j, b := range alphabet {
					if j < i {
						continue
					}
					k := bound
					if !c.Thorough() && (stable || i != 0 || j != 2) {
						k = 1 // two preemptions only for two states of one function
					}
					c.Explore(fmt.Sprintf("stable=%v %v | %v", stable, a, b), k, 5000, c11Scenario(stable, [][]c11Msg{{a}, {b}}))
				}
			}
		}
	})
	vRegister("interleavings-sequences", func(c *vCtx) {
		bound := 0
		if c.Thorough() {
			bound = 1
		}
		core := []c11Msg{alphabet[0], alphabet[1], alphabet[3], alphabet[4], alphabet[6]}
		if c.Thorough() {
			core = alphabet[:7]
		}
		for _, stable := range []bool{false, true} {
			for _, a := range core {
				for _, a2 := range core {
					for _, b := range core[:2] {
						c.Explore(fmt.Sprintf("stable=%v %v %v | %v", stable, a, a2, b), bound, 5000, c11Scenario(stable, [][]c11Msg{{a, a2}, {b}}))
					}
				}
			}
			for _, b := range core {
				c.Explore(fmt.Sprintf("stable=%v three threads %v", stable, b), bound, 5000, c11Scenario(stable, [][]c11Msg{{core[0]}, {core[1]}, {b}}))
			}
		}
	})
	vRegister("histories", func(c *vCtx) { // one sender, all message sequences
		depth := 3
		if c.Thorough() {
			depth = 4
		}
		for _, stable := range []bool{false, true} {
			var rec func(seq []c11Msg)
			rec = func(seq []c11Msg) {
				if len(seq) > 0 {
					c.Case(fmt.Sprintf("stable=%v %v", stable, seq), func(x *vCase) {
						sc := c11Scenario(stable, [][]c11Msg{seq})()
						for _, t := range sc.Threads {
							t()
						}
						x.States(1)
						x.Transitions(len(seq))
						x.Traces(1)
						if bad, _ := sc.Check(); bad != "" {
							x.Fail("%s", bad)
						}
					})
				}
				if len(seq) < depth {
					for _, m := range append(alphabet[:len(alphabet):len(alphabet)], c11Msg{"panic", 30, 7}, c11Msg{"panic", 40, 7}) {
						rec(append(append([]c11Msg{}, seq...), m))
					}
				}
			}
			rec(nil)
		}
	})
	vRegister("fields", func(c *vCtx) { c11FieldTrees(c) })
	vRegister("stack-files", func(c *vCtx) { c11StackFiles(c) })
}

// c11FieldTrees: how captured field trees are flattened.
func c11FieldTrees(c *vCtx) {
	long := strings.Repeat("9", 128)
	longer := strings.Repeat("9", 129)
	type leaf struct {
		typ string
		val any
	}
	leaves := []leaf{{"int", 1}, {"string", "a"}, {"bool", true}, {"p.string", longer}, {"string", longer}, {"string", strings.Repeat("é", 200)}, {"[]uint8", long}, {"[]uint8", longer},
		{"[]uint8", longer + "8"}, {"reflect.rtype", 3}, {"reflect.flag", 3}, {"float64", 1.5}, {"nil", nil}, {"p.T", ""}}
	names := []string{"x", "typ_", "flag", "ptr", "0", "a.b"}
	types := []string{"p.S", "reflect.Value", "reflect.rtype", "string"}
	keep := func(name, typ, parent string) bool {
		if parent == "reflect.Value" && (name == "typ_" || name == "flag" || name == "ptr") {
			return false
		}
		return typ != "reflect.rtype" && typ != "reflect.flag"
	}
	hashes := map[string]string{}
	var judge func(got FieldValues, f LensMonitorField, parent string) string
	judge = func(got FieldValues, f LensMonitorField, parent string) string {
		fv, ok := got[f.Name]
		if ok != keep(f.Name, f.Type, parent) {
			return fmt.Sprintf("field %q of type %q under %q: present=%v", f.Name, f.Type, parent, ok)
		}
		if !ok {
			return ""
		}
		if len(f.Children) == 0 {
			want := fmt.Sprint(f.Value)
			if !strings.HasSuffix(f.Type, "string") && len(want) > nonStringHashSizeLimit {
				if !strings.HasPrefix(fv.Value, HashFieldValuePrefix) || len(fv.Value) > nonStringHashSizeLimit {
					return fmt.Sprintf("a large value of type %q is not replaced by its hash: %q", f.Type, fv.Value)
				}
				if o, ok := hashes[fv.Value]; ok && o != want {
					return "two different large values share one hash"
				}
				for h, o := range hashes {
					if o == want && h != fv.Value {
						return "one large value has two hashes"
					}
				}
				hashes[fv.Value] = want
				return ""
			}
			if fv.Value != want || len(fv.Children) != 0 {
				return fmt.Sprintf("field %q: got %q (%d children), want %q", f.Name, fv.Value, len(fv.Children), want)
			}
			return ""
		}
		n := 0
		for _, ch := range f.Children {
			if bad := judge(fv.Children, ch, f.Type); bad != "" {
				return bad
			}
			if keep(ch.Name, ch.Type, f.Type) {
				n++
			}
		}
		if len(fv.Children) != n {
			return fmt.Sprintf("field %q: %d children recorded, want %d", f.Name, len(fv.Children), n)
		}
		return ""
	}
	run := func(id string, f LensMonitorField, parent string) {
		c.Case(id, func(x *vCase) {
			dst := FieldValues{}
			collectFields(dst, f.Name, f.Value, f.Type, f.Children, parent)
			if bad := judge(dst, f, parent); bad != "" {
				x.Fail("%s", bad)
			}
			if keep(f.Name, f.Type, parent) != (len(dst) == 1) {
				x.Fail("%d entries recorded for one field", len(dst))
			}
			x.States(1)
			x.Transitions(1)
			x.Traces(1)
		})
	}
	for _, n := range names {
		for li, l := range leaves {
			for _, parent := range append([]string{""}, types...) {
				run(fmt.Sprintf("leaf %s/%d/%s", n, li, parent), LensMonitorField{Name: n, Type: l.typ, Value: l.val}, parent)
			}
			for _, t1 := range types {
				run(fmt.Sprintf("node %s/%d/%s", n, li, t1), LensMonitorField{Name: "n", Type: t1, Children: []LensMonitorField{{Name: n, Type: l.typ, Value: l.val}, {Name: "z", Type: "int", Value: 2}}}, "")
				for _, t2 := range types {
					run(fmt.Sprintf("deep %s/%d/%s/%s", n, li, t1, t2), LensMonitorField{Name: "n", Type: t1, Children: []LensMonitorField{{Name: "k", Type: t2, Children: []LensMonitorField{{Name: n, Type: l.typ, Value: l.val}}}}}, "")
				}
			}
		}
	}
}

// c11StackFiles: a source file is recognised as the project's own exactly when it lies in the project directory.
func c11StackFiles(c *vCtx) {
	comps := []string{"a", "proj", "pkg", "mod", "x.go", "proj2", "go", "m@v1", "src"}
	dirs := []string{"/proj", "/go/src/proj", "/a/proj", "/"}
	roots := []string{"", "/go", "/go/", "/usr/go"}
	for _, d := range dirs {
		for _, r := range roots {
			var rec func(parts []string)
			rec = func(parts []string) {
				if len(parts) > 0 {
					file := "/" + strings.Join(parts, "/")
					c.Case(fmt.Sprintf("%s|%s|%s", d, r, file), func(x *vCase) {
						got := trimStackFile(d, r, file)
						rel := ""
						in := false
						if d == "/" {
							in, rel = true, strings.TrimPrefix(file, "/")
						} else if strings.HasPrefix(file, d+"/") {
							in, rel = true, strings.TrimPrefix(file, d+"/")
						} else if file == d {
							x.Trivial()
							return
						}
						if in {
							if got != "./"+rel {
								x.Fail("file %s of project %s is recorded as %q", file, d, got)
							}
						} else {
							if strings.HasPrefix(got, "./") {
								x.Fail("file %s outside project %s is recorded as the project's own: %q", file, d, got)
							}
							if !strings.HasSuffix(file, strings.TrimLeftFunc(got, func(r rune) bool { return unicode.IsPunct(r) })) {
								x.Fail("file %s is recorded as %q, not a part of its path", file, got)
							}
							if i := strings.Index(file, "/pkg/mod/"); i >= 0 {
								if got != file[i+len("/pkg/mod/"):] {
									x.Fail("module file %s is recorded as %q", file, got)
								}
							}
						}
						x.States(1)
						x.Transitions(1)
						x.Traces(1)
					})
				}
				if len(parts) < 4 {
					for _, p := range comps {
						rec(append(append([]string{}, parts...), p))
					}
				}
			}
			rec(nil)
		}
	}
}
