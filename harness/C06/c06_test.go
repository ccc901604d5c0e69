package lens

// C06: instrumented code compiles and behaves as the original. Reference: the original program, compiled and run on the
// same inputs: results, side effects and panics have to be equal.

func init() {
	vRegister("programs", func(c *vCtx) {
		progBatch(c, func(x *vCase, r *progResult, v string) {
			if e := r.broken[v]; e != "" {
				x.Fail("%s (injector mode %s)\n--- original\n%s\n--- instrumented\n%s", e, v, r.p.render(r.n, "orig"), r.text[v])
				return
			}
			if len(r.out["orig"]) != len(r.p.cases) || len(r.out[v]) != len(r.p.cases) {
				panic("missing output")
			}
			for i := range r.p.cases {
				x.Transitions(1)
				x.Traces(1)
				if r.out["orig"][i] != r.out[v][i] {
					x.Fail("instrumented function behaves differently (injector mode %s)\ncall: %s\noriginal:     %s\ninstrumented: %s\n--- original\n%s\n--- instrumented\n%s",
						v, r.p.cases[i], r.out["orig"][i], r.out[v][i], r.p.render(r.n, "orig"), r.text[v])
					return
				}
			}
			if r.out["oracle"] != nil && v == "bare" {
				for i := range r.p.cases {
					if r.out["oracle"][i] != r.out["orig"][i] {
						panic("the oracle rendering of " + r.p.id + " behaves differently: " + r.out["oracle"][i] + " / " + r.out["orig"][i])
					}
				}
			}
		})
	})
}
