package lens

import (
	"bytes"
	"fmt"

	"github.com/vmihailenco/msgpack/v5"
)

// One encoder and buffer for several results: each stored form stays as it was and decodes to its result.
func init() {
	vRegister("reused-encoder", func(c *vCtx) {
		var trees []FieldValues
		for n := 0; n <= 3; n++ {
			trees = append(trees, c08Trees(n, []string{"a", "b"}, c08Values[:2], false)...)
		}
		result := func(t FieldValues, i, mode int) *TestResult {
			r := &TestResult{ModuleChangesHit: mode}
			r.TestFunction.FunctionIdent = fmt.Sprintf("p.Test%d", i)
			f := CallFrame{t, c08Stacks[i%len(c08Stacks)], 1}
			switch mode {
			case 0:
				r.CallerResults = map[string][]CallFrame{"f": {f}}
			case 1:
				r.CallerResults = map[string][]CallFrame{"f": {f, f}, "g": {f}}
				r.ProjectPanics = map[string][]string{"f": {"p"}}
			case 2:
				r.ExtensionFrames = map[string][]CallFrame{"f": {f, {FieldValues: FieldValues{"p": {Children: t}}}}}
				r.TestFailure = true
			}
			return r
		}
		for i, t := range trees {
			c.Case(fmt.Sprintf("%d: %s with every other tree", i, c08Str(t)), func(x *vCase) {
				enc := msgpack.GetEncoder()
				defer msgpack.PutEncoder(enc)
				var buf bytes.Buffer
				type stored struct {
					want string
					data []byte
				}
				var all []stored
				put := func(r *TestResult) bool {
					b, err := r.marshalMsgpack(enc, &buf)
					if err != nil {
						x.Fail("encoding failed: %v\n%s", err, c08Render(r))
						return false
					}
					all = append(all, stored{c08Render(r), b})
					return true
				}
				for j, u := range trees {
					for mode := 0; mode < 9; mode++ {
						all = all[:0]
						if !put(result(t, i, mode%3)) || !put(result(u, j, mode/3)) || !put(result(t, i, mode%3)) {
							return
						}
						x.States(1)
						x.Transitions(6)
						x.Traces(1)
						for k, s := range all {
							var back TestResult
							if err := back.UnmarshalMsgpack(s.data); err != nil {
								x.Fail("result %d of one encoder does not decode: %v\n%s", k, err, s.want)
								return
							}
							if got := c08Render(&back); got != s.want {
								x.Fail("result %d of one encoder was loaded as another\nstored:\n%s\nloaded:\n%s", k, c08Diff(s.want, got), c08Diff(got, s.want))
								return
							}
						}
					}
				}
			})
		}
	})
}
