package lens

// Deviation-bounded exhaustive exploration of thread interleavings (controlled build).

import (
	"fmt"

	"github.com/PatchLens/go-update-lens/lens/verifsched"
)

const vControlled = true

var vTick int64

// vNow is a logical clock: one managed thread runs at a time.
func vNow() int64 { vTick++; return vTick }

func vYield() { verifsched.Point() }

type vWaitGroup = verifsched.WaitGroup

func vGo(f func()) { verifsched.Go(f) }

// vScen is one closed concurrent program: fresh state, thread bodies, final judgement. Check gets called after every
// complete execution and returns "" or what is wrong, and an outcome label.
type vScen struct {
	Threads []func()
	Check   func() (bad string, outcome string)
	Cleanup func()
}

// Explore runs every interleaving of the scenario with at most bound preemptions.
func (c *vCtx) Explore(id string, bound, horizon int, build func() *vScen) {
	if c.Stop() {
		return
	}
	if c.replay != nil && (c.replay.Part != c.part || c.replay.ID != id) {
		return
	}
	c.run(id, func(x *vCase) { // evaluation bookkeeping below counts schedules
		var bad, outcome string
		one := func(prefix []int) *verifsched.Exec {
			c.caseAt.Store(vWall())
			var s *vScen
			vTick = 0
			e := verifsched.Run(prefix, horizon, func() {
				s = build() // controlled as well: there is only one thread yet
				for _, t := range s.Threads {
					verifsched.Go(t)
				}
			})
			bad, outcome = "", ""
			switch {
			case e.PanicMsg != "":
				bad, outcome = "panic: "+e.PanicMsg, "panic"
			case e.Deadlock != "":
				bad, outcome = "deadlock: "+e.Deadlock, "deadlock"
			case e.Overrun:
				outcome = "horizon"
			default:
				bad, outcome = s.Check()
			}
			if s.Cleanup != nil && e.Deadlock == "" && e.PanicMsg == "" && !e.Overrun {
				s.Cleanup()
			}
			return e
		}
		choicesOf := func(e *verifsched.Exec) []int {
			ch := make([]int, len(e.Points))
			for i, p := range e.Points {
				ch[i] = p.Choice
			}
			return ch
		}
		report := func(e *verifsched.Exec) {
			ch := choicesOf(e)
			b1, o1 := bad, outcome
			e2 := one(ch)
			if e2.Diverged != "" || bad != b1 || outcome != o1 {
				if e.PanicMsg == "" || e2.PanicMsg == "" {
					c.Note("schedule of %s/%s not reproducible on replay, set aside: %.200s", c.part, id, b1)
					c.out.Exhaustive = false
					return
				}
			}
			for len(ch) > 0 && ch[len(ch)-1] == 0 {
				ch = ch[:len(ch)-1]
			}
			x.FailSchedule(ch, "%s\nschedule (choice per decision, then 0): %v", b1, ch)
		}
		if rs := x.ReplaySchedule(); rs != nil || c.replay != nil {
			if e := one(rs); bad != "" {
				report(e)
			}
			return
		}
		one(nil) // builds lazy globals, so that the executions below all start alike
		var explore func(prefix []int, pre int, top bool)
		nchild := int64(0)
		explore = func(prefix []int, pre int, top bool) {
			if c.Stop() || x.failed {
				return
			}
			e := one(prefix)
			if e.Diverged != "" {
				c.Note("divergence in %s/%s: %s", c.part, id, e.Diverged)
				c.out.Exhaustive = false
				return
			}
			if e.Overrun {
				c.Note("an execution of %s/%s reached the horizon of %d steps", c.part, id, horizon)
				c.out.Exhaustive = false
			}
			if !top || c.shard == 0 {
				c.out.States++
				c.out.Traces++
				c.out.Transitions += int64(e.Steps)
				c.out.Evaluations++
				c.out.Distinct++
				c.addOutcome(c.part + "/" + id + ": " + outcome)
			}
			if bad != "" {
				report(e)
				return
			}
			ch := choicesOf(e)
			cost := 0
			for i := 0; i < len(prefix) && i < len(e.Points); i++ {
				if e.Points[i].Running && e.Points[i].Choice != 0 {
					cost++
				}
			}
			for i := len(prefix); i < len(e.Points); i++ {
				p := e.Points[i]
				k := cost
				if p.Running {
					k++
				}
				if k > bound {
					continue
				}
				for alt := 1; alt < p.N; alt++ {
					if top {
						nchild++
						if (nchild-1)%c.shards != c.shard {
							continue
						}
					}
					explore(append(append([]int{}, ch[:i]...), alt), k, false)
				}
			}
		}
		explore(nil, 0, true)
		x.Sample(fmt.Sprintf("%s: all interleavings with <=%d preemptions", id, bound))
	})
}
