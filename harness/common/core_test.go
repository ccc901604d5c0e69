package lens

// Shared core of the bounded-exhaustive harnesses: case bookkeeping, sharding, replay,
// crash/hang attribution. A harness file registers parts; every part enumerates its whole
// bounded space by calling c.Case once per element.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vViolation struct {
	Part     string `json:"part"`
	ID       string `json:"id"`
	Msg      string `json:"msg"`
	Detail   string `json:"detail,omitempty"`
	Schedule []int  `json:"schedule,omitempty"`
}

type vOut struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Samples     []string         `json:"samples"`
	Outcomes    map[string]int64 `json:"outcomes,omitempty"`
	Parts       map[string]int64 `json:"parts"`
	Notes       []string         `json:"notes"`
	Exhaustive  bool             `json:"exhaustive"`
	Violations  []vViolation     `json:"violations"`
	Error       string           `json:"error,omitempty"`
}

type vPart struct {
	name string
	f    func(c *vCtx)
}

var vParts []vPart

func vRegister(name string, f func(c *vCtx)) { vParts = append(vParts, vPart{name, f}) }

type vReplay struct {
	Part     string `json:"part"`
	ID       string `json:"id"`
	Schedule []int  `json:"schedule"`
}

type vCtx struct {
	mu       sync.Mutex
	part     string
	tier     string
	out      vOut
	outPath  string
	shard    int64
	shards   int64
	counter  int64
	replay   *vReplay
	deadline time.Time
	progress *os.File
	caseAt   atomic.Int64 // unix nanos when the running case began, 0 = none
	caseID   atomic.Value
	seen     map[uint64]struct{}
	hang     time.Duration
	nextSmp  int64
}

const vMaxViolations = 8

func (c *vCtx) Thorough() bool { return c.tier == "thorough" }

// Stop reports that enumeration should end (deadline or enough violations).
func (c *vCtx) Stop() bool {
	if len(c.out.Violations) >= vMaxViolations {
		return true
	}
	if time.Now().After(c.deadline) {
		c.out.Exhaustive = false
		return true
	}
	return false
}

func (c *vCtx) Note(format string, a ...any) {
	n := fmt.Sprintf(format, a...)
	for _, x := range c.out.Notes {
		if x == n {
			return
		}
	}
	c.out.Notes = append(c.out.Notes, n)
}

// vCase is one element of the enumerated space.
type vCase struct {
	c       *vCtx
	id      string
	failed  bool
	trivial bool
	sample  string
}

func (x *vCase) Fail(format string, a ...any) {
	x.c.mu.Lock()
	defer x.c.mu.Unlock()
	if x.failed {
		return
	}
	x.failed = true
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	x.c.out.Violations = append(x.c.out.Violations, vViolation{Part: x.c.part, ID: x.id, Msg: msg})
}

func (x *vCase) FailSchedule(sched []int, format string, a ...any) {
	x.Fail(format, a...)
	v := &x.c.out.Violations[len(x.c.out.Violations)-1]
	v.Schedule = append([]int(nil), sched...)
}

func (x *vCase) Trivial()              { x.trivial = true }
func (x *vCase) Sample(s string)       { x.sample = s }
func (x *vCase) States(n int)          { x.c.out.States += int64(n) }
func (x *vCase) Transitions(n int)     { x.c.out.Transitions += int64(n) }
func (x *vCase) Traces(n int)          { x.c.out.Traces += int64(n) }
func (x *vCase) Outcome(s string)      { x.c.addOutcome(s) }
func (x *vCase) Failed() bool          { return x.failed }
func (x *vCase) ReplaySchedule() []int { // nil unless a recorded schedule is being replayed
	if x.c.replay != nil {
		return x.c.replay.Schedule
	}
	return nil
}

func (c *vCtx) addOutcome(s string) {
	if c.out.Outcomes == nil {
		c.out.Outcomes = map[string]int64{}
	}
	if _, ok := c.out.Outcomes[s]; !ok && len(c.out.Outcomes) > 5000 {
		return
	}
	c.out.Outcomes[s]++
}

// Skip tells whether the next Case would be left to another shard (it counts the case). Generators that are
// expensive per element call it first and then CaseRun.
func (c *vCtx) mine(id string) bool {
	if c.replay != nil {
		return c.replay.Part == c.part && c.replay.ID == id
	}
	n := c.counter
	c.counter++
	return n%c.shards == c.shard
}

// Case runs f for this element unless another shard owns it.
func (c *vCtx) Case(id string, f func(x *vCase)) {
	if c.Stop() || !c.mine(id) {
		return
	}
	c.run(id, f)
}

func (c *vCtx) run(id string, f func(x *vCase)) {
	x := &vCase{c: c, id: id}
	c.setProgress(id)
	c.caseID.Store(id)
	c.caseAt.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				x.Fail("panic: %v\n%s", r, vTrimStack(debug.Stack()))
			}
		}()
		f(x)
	}()
	c.caseAt.Store(0)
	c.out.Evaluations++
	c.out.Parts[c.part]++
	if !x.trivial {
		h := fnv.New64a()
		_, _ = io.WriteString(h, c.part)
		_, _ = io.WriteString(h, "\x00")
		_, _ = io.WriteString(h, id)
		k := h.Sum64()
		if _, ok := c.seen[k]; !ok {
			c.seen[k] = struct{}{}
			c.out.Distinct++
		}
	}
	if c.out.Parts[c.part] == 1 || (c.out.Parts[c.part] >= c.nextSmp && len(c.out.Samples) < 40) {
		c.nextSmp = c.out.Parts[c.part] * 7
		s := x.sample
		if s == "" {
			s = id
		}
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.out.Samples = append(c.out.Samples, c.part+": "+s)
	}
}

func vTrimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (c *vCtx) setProgress(id string) {
	if c.progress == nil {
		return
	}
	b, _ := json.Marshal(vReplay{Part: c.part, ID: id})
	b = append(b, 0)
	_, _ = c.progress.WriteAt(b, 0)
}

func (c *vCtx) write() {
	b, err := json.Marshal(&c.out)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.outPath+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(c.outPath+".tmp", c.outPath); err != nil {
		panic(err)
	}
}

func vWall() int64 { return time.Now().UnixNano() }

func vScratch() string { return os.Getenv("VERIF_SCRATCH") }

func TestVerif(t *testing.T) {
	c := &vCtx{tier: os.Getenv("VERIF_TIER"), outPath: os.Getenv("VERIF_OUT"), shards: 1, seen: map[uint64]struct{}{},
		hang: 120 * time.Second}
	c.out.Exhaustive = true
	c.out.Parts = map[string]int64{}
	if c.outPath == "" {
		t.Skip("run through bin/check")
	}
	if s, n, ok := strings.Cut(os.Getenv("VERIF_SHARD"), "/"); ok {
		a, _ := strconv.Atoi(s)
		b, _ := strconv.Atoi(n)
		c.shard, c.shards = int64(a), int64(b)
	}
	d, _ := strconv.ParseFloat(os.Getenv("VERIF_DEADLINE"), 64)
	if d <= 0 {
		d = 600
	}
	c.deadline = time.Now().Add(time.Duration(d * float64(time.Second)))
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		c.replay = &vReplay{}
		if err := json.Unmarshal(b, c.replay); err != nil {
			t.Fatal(err)
		}
	}
	if p := os.Getenv("VERIF_PROGRESS"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			t.Fatal(err)
		}
		c.progress = f
	}
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_KEEP_STDOUT") == "" {
			os.Stdout = null
		}
	}
	go func() { // a case that normally takes milliseconds and is still running after two minutes hangs
		for {
			time.Sleep(time.Second)
			at := c.caseAt.Load()
			if at != 0 && time.Since(time.Unix(0, at)) > c.hang {
				id, _ := c.caseID.Load().(string)
				o := vOut{Exhaustive: false, Parts: map[string]int64{}}
				o.Violations = []vViolation{{Part: c.part, ID: id, Msg: fmt.Sprintf("does not finish: still running after %s", c.hang)}}
				cc := &vCtx{out: o, outPath: c.outPath}
				cc.write()
				os.Exit(0)
			}
		}
	}()
	only := os.Getenv("VERIF_PART")
	for _, p := range vParts {
		if c.replay != nil && c.replay.Part != p.name {
			continue
		}
		if only != "" && only != p.name {
			continue
		}
		c.part = p.name
		c.nextSmp = 0
		c.counter = 0
		p.f(c)
		if len(c.out.Violations) >= vMaxViolations {
			c.out.Exhaustive = false
			break
		}
	}
	c.write()
}
