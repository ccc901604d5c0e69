package lens

import "fmt"

func init() {
	c11More = func(m *testMonitor, sent []c11Sent) string {
		_, pp, entry, mp, ext := c11Maps()
		state, _, _, _, _ := c11Maps()
		tf := &TestFunction{Function: Function{FunctionIdent: "pkg.TestX", FunctionName: "TestX"}}
		r := m.makeTestResult(tf, true)
		if r.TestFunction.FunctionIdent != "pkg.TestX" || r.TestFunction.FunctionName != "TestX" || !r.TestFailure {
			return fmt.Sprintf("the result is labelled %+v, failure %v", r.TestFunction, r.TestFailure)
		}
		wantPP, wantMP := map[string][]string{}, map[string][]string{}
		reached := map[uint32]bool{}
		states := 0
		for _, s := range sent {
			switch s.msg.kind {
			case "panic":
				if k, ok := pp[s.msg.id]; ok {
					wantPP[*k] = append(wantPP[*k], c11Boom(s.msg, c11Tag(s)))
				} else if k, ok := mp[s.msg.id]; ok {
					wantMP[*k] = append(wantMP[*k], c11Boom(s.msg, c11Tag(s)))
				}
			case "point":
				if _, ok := entry[s.msg.id]; ok {
					reached[s.msg.id] = true
				}
			case "state":
				if _, ok := ext[s.msg.id]; ok {
					states++
				} else if _, ok := state[s.msg.id]; ok {
					states++
				}
			}
		}
		if bad := c11Panics("project", r.ProjectPanics, wantPP, sent); bad != "" {
			return bad
		}
		if bad := c11Panics("module", r.ModulePanics, wantMP, sent); bad != "" {
			return bad
		}
		if r.ModuleChangesHit != len(reached) {
			return fmt.Sprintf("%d module entry points were hit, the result says %d", len(reached), r.ModuleChangesHit)
		}
		got := m.getModuleChangesReached()
		if len(got) != len(reached) {
			return fmt.Sprintf("%d entry points reached, %d reported", len(reached), len(got))
		}
		want := map[string]int{}
		for id := range reached {
			want[*entry[id]]++
		}
		for _, g := range got {
			want[*g]--
		}
		for k, n := range want {
			if n != 0 {
				return fmt.Sprintf("function %s: reported %d times too few", k, n)
			}
		}
		if int(m.fieldCheckCount.Load()) != states {
			return fmt.Sprintf("%d state checks were made, the counter says %d", states, m.fieldCheckCount.Load())
		}
		return ""
	}
}

func c11Panics(what string, got, want map[string][]string, sent []c11Sent) string {
	for k, v := range got {
		if len(v) > 0 && len(want[k]) == 0 {
			return fmt.Sprintf("%s panics recorded for %s although none was sent", what, k)
		}
	}
	for k, w := range want {
		g := append([]string(nil), got[k]...)
		if len(g) != len(w) {
			return fmt.Sprintf("%s panics of %s: sent %v, recorded %v", what, k, w, g)
		}
		cnt := map[string]int{}
		for _, s := range w {
			cnt[s]++
		}
		for _, s := range g {
			cnt[s]--
		}
		for s, n := range cnt {
			if n != 0 {
				return fmt.Sprintf("%s panics of %s: message %q count off by %d", what, k, s, n)
			}
		}
	}
	return ""
}
