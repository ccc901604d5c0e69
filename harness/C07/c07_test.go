package lens

// C07: everything an instrumented function does is reported. Reference: the generator's own reports, placed by
// construction in front of every return (and at the end of functions that can run off their end), with the variables the
// generator put in scope.

import (
	"fmt"
	"strings"
)

func init() {
	vRegister("programs", func(c *vCtx) {
		progBatch(c, func(x *vCase, r *progResult, v string) {
			if r.broken[v] != "" {
				return // C06
			}
			siteToID := map[uint32]uint32{}
			idToSite := map[uint32]uint32{}
			for i := range r.p.cases {
				want, got := r.events["oracle"][i], r.events[v][i]
				x.Traces(1)
				x.Transitions(len(want))
				bad := func(format string, a ...any) {
					x.Fail("%s (injector mode %s)\ncall: %s\nexpected reports:\n%sreported:\n%s--- original\n%s\n--- instrumented\n%s", fmt.Sprintf(format, a...),
						v, r.p.cases[i], progEvents(want), progEvents(got), r.p.render(r.n, "orig"), r.text[v])
				}
				if len(want) != len(got) {
					bad("%d reports arrived, %d returns, entries and panics happened", len(got), len(want))
					return
				}
				for k, w := range want {
					g := got[k]
					if w.kind != g.kind {
						bad("report %d is a %s, expected a %s", k, g.kind, w.kind)
						return
					}
					switch w.kind {
					case "panic":
						if w.text != g.text {
							bad("panic report %d carries %q, the panic was %q", k, g.text, w.text)
							return
						}
						if !r.panicIDs[v][g.id] {
							bad("panic report %d has point id %d, which the injector did not hand out for a panic", k, g.id)
							return
						}
					case "point":
						if !r.ids[v][g.id] {
							bad("entry report %d has point id %d, which the injector did not hand out", k, g.id)
							return
						}
					case "state":
						if !r.ids[v][g.id] {
							bad("report %d has point id %d, which the injector did not hand out", k, g.id)
							return
						}
						if w.frame != g.frame {
							bad("report %d comes from function %q, expected %q", k, g.frame, w.frame)
							return
						}
						if id, ok := siteToID[w.id]; ok && id != g.id {
							bad("one return statement reports under two point ids, %d and %d", id, g.id)
							return
						}
						if s, ok := idToSite[g.id]; ok && s != w.id {
							bad("two return statements report under one point id %d", g.id)
							return
						}
						siteToID[w.id], idToSite[g.id] = g.id, w.id
						have := progFields(g.fields)
						wf := w.fields
						for _, n := range strings.Fields(fmt.Sprint(progFields(wf)[progNames].Value)) {
							if _, ok := progFields(wf)[n]; !ok { // lost on the way from the reference as well
								wf = append(append([]LensMonitorField{}, wf...), LensMonitorField{Name: n, Type: "invalid"})
							}
						}
						for _, f := range wf {
							if f.Name == progNames {
								continue
							}
							name, alt, isRet := f.Name, "", false
							if strings.HasPrefix(name, "ret") && strings.Trim(strings.SplitN(name, "=", 2)[0], "ret0123456789") == "" {
								name, alt, _ = strings.Cut(name, "=")
								isRet = true
							}
							var cands []LensMonitorField
							for _, n := range []string{name, alt, "rec" + strings.TrimPrefix(name, "ret")} {
								if h, ok := have[n]; ok && (n == name || isRet) && n != "" {
									cands = append(cands, h)
								}
							}
							if isRet && len(cands) == 0 && alt == "nil" {
								continue
							}
							ok := false
							for _, h := range cands {
								ok = ok || progSameValue(h, f) && (isRet || h.Type == f.Type)
							}
							if !ok {
								kind := "variable"
								if isRet {
									kind = "returned value"
								}
								bad("report %d: %s %s should be %v (%s, children %v), reported %v", k, kind, f.Name, f.Value, f.Type, f.Children, cands)
								return
							}
						}
					}
				}
			}
		})
	})
}
