package lens

// Free-running stand-in of the explorer: the same thread bodies run on real goroutines, for the race detector.

import (
	"sync"
	"sync/atomic"
	"time"
)

const vControlled = false

var vTick atomic.Int64

func vNow() int64 { return vTick.Add(1) }

func vYield() {}

type vWaitGroup = sync.WaitGroup

func vGo(f func()) { go f() }

type vScen struct {
	Threads []func()
	Check   func() (bad string, outcome string)
	Cleanup func()
}

func (c *vCtx) Explore(id string, bound, horizon int, build func() *vScen) {
	if c.Stop() || !c.mine(id) {
		return
	}
	n := 40
	if c.Thorough() {
		n = 400
	}
	c.run(id, func(x *vCase) {
		for i := 0; i < n && !x.failed && !c.Stop(); i++ {
			c.caseAt.Store(time.Now().UnixNano())
			s := build()
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for _, t := range s.Threads {
				wg.Add(1)
				go func() { defer wg.Done(); <-gate; t() }()
			}
			close(gate)
			wg.Wait()
			if bad, _ := s.Check(); bad != "" {
				x.Fail("%s (free-running)", bad)
			}
			if s.Cleanup != nil {
				s.Cleanup()
			}
		}
	})
}
