package lens

// C04: concurrent use of one store. Every interleaving (statement granularity inside storage.go) of small programs, the
// recorded history of every key must be linearizable to a plain map entry.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/dgraph-io/badger/v4"
)

type c04Kind int

const (
	c04Save c04Kind = iota
	c04Load
	c04Delete
	c04List
	c04Clear
)

type c04Op struct {
	kind c04Kind
	key  int
	size int // save: value size class
}

func (o c04Op) String() string {
	switch o.kind {
	case c04Save:
		return fmt.Sprintf("save(%d,%d)", o.key, o.size)
	case c04Load:
		return fmt.Sprintf("load(%d)", o.key)
	case c04Delete:
		return fmt.Sprintf("del(%d)", o.key)
	case c04List:
		return "list"
	}
	return "clear"
}

// a rec is one operation's effect on or observation of one key
type c04Rec struct {
	kind     c04Kind
	inv, ret int64
	val      string // saved / loaded value
	found    bool   // load, list
	err      error
	thread   int
}

type c04Thread []c04Op

func c04Val(tag, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte('a' + (tag*7+i)%26)
	}
	if size > 0 {
		b[0] = byte('A' + tag)
		b[size-1] = byte('A' + tag)
	}
	return b
}

// c04Linear reports whether the per-key history has a linearization from the initial value.
func c04Linear(init *string, recs []c04Rec) bool {
	n := len(recs)
	type st struct {
		mask int
		val  string
		ok   bool
	}
	seen := map[st]bool{}
	var rec func(s st) bool
	rec = func(s st) bool {
		if s.mask == 1<<n-1 {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		for i := 0; i < n; i++ {
			if s.mask&(1<<i) != 0 {
				continue
			}
			early := true
			for j := 0; j < n; j++ {
				if j != i && s.mask&(1<<j) == 0 && recs[j].ret < recs[i].inv {
					early = false
					break
				}
			}
			if !early {
				continue
			}
			t := s
			t.mask |= 1 << i
			r := recs[i]
			switch r.kind {
			case c04Save:
				if r.err == nil {
					t.val, t.ok = r.val, true
				}
			case c04Delete, c04Clear:
				if r.err == nil {
					t.val, t.ok = "", false
				} else if r.kind == c04Clear { // a clear that failed part way may have removed this key
					t2 := t
					t2.val, t2.ok = "", false
					if rec(t2) {
						return true
					}
				}
			case c04Load:
				if r.err == nil && (r.found != s.ok || (s.ok && r.val != s.val)) {
					continue
				}
			case c04List:
				if r.err == nil && r.found != s.ok {
					continue
				}
			}
			if rec(t) {
				return true
			}
		}
		return false
	}
	s := st{}
	if init != nil {
		s.val, s.ok = *init, true
	}
	return rec(s)
}

func c04Describe(recs []c04Rec) string {
	var sb strings.Builder
	rs := append([]c04Rec(nil), recs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i].inv < rs[j].inv })
	names := []string{"save", "load", "delete", "list", "clear"}
	for _, r := range rs {
		fmt.Fprintf(&sb, "  T%d %s [%d,%d] val=%q found=%v err=%v\n", r.thread, names[r.kind], r.inv, r.ret, r.val, r.found, r.err)
	}
	return sb.String()
}

// c04Run builds the scenario over a fresh namespace.
func c04Run(fresh func() (Storage, []string), init []int, threads []c04Thread) func() *vScen {
	return func() *vScen {
		s, keys := fresh()
		nk := len(keys)
		initial := make([]*string, nk)
		for k, size := range init {
			if size >= 0 {
				v := c04Val(20+k, size)
				if err := s.SaveState(keys[k], v); err != nil {
					panic(err)
				}
				str := string(v)
				initial[k] = &str
			}
		}
		hist := make([][][]c04Rec, len(threads)) // thread -> key -> records
		bad := make([]string, len(threads))
		do := func(ti int, oi int, op c04Op) {
			h := hist[ti]
			switch op.kind {
			case c04Save:
				v := c04Val(ti*4+oi, op.size)
				r := c04Rec{kind: c04Save, val: string(v), thread: ti, inv: vNow()}
				r.err = s.SaveState(keys[op.key], v)
				r.ret = vNow()
				for i := range v { // the caller owns its buffer
					v[i] = '#'
				}
				h[op.key] = append(h[op.key], r)
			case c04Load:
				r := c04Rec{kind: c04Load, thread: ti, inv: vNow()}
				var b []byte
				b, r.found, r.err = s.LoadState(keys[op.key])
				r.ret = vNow()
				r.val = string(b)
				b = b[:cap(b)]
				for i := range b {
					b[i] = '#'
				}
				h[op.key] = append(h[op.key], r)
			case c04Delete:
				r := c04Rec{kind: c04Delete, thread: ti, inv: vNow()}
				r.err = s.DeleteState(keys[op.key])
				r.ret = vNow()
				h[op.key] = append(h[op.key], r)
			case c04List, c04Clear:
				inv := vNow()
				var list []string
				var err error
				if op.kind == c04List {
					list, err = s.ListKeysPrefix(keys[0]) // both keys start with the first one
				} else {
					err = s.Clear()
				}
				ret := vNow()
				in := map[string]int{}
				for _, k := range list {
					in[k]++
				}
				for i, k := range keys {
					if in[k] > 1 {
						bad[ti] = fmt.Sprintf("key %q listed %d times", k, in[k])
					}
					h[i] = append(h[i], c04Rec{kind: op.kind, found: in[k] == 1, err: err, thread: ti, inv: inv, ret: ret})
					delete(in, k)
				}
				for k := range in {
					if strings.Contains(k, "badger_split") {
						bad[ti] = fmt.Sprintf("internal key %q is visible", k)
					}
				}
			}
		}
		sc := &vScen{}
		for ti, ops := range threads {
			hist[ti] = make([][]c04Rec, nk)
			sc.Threads = append(sc.Threads, func() {
				for oi, op := range ops {
					do(ti, oi, op)
				}
			})
		}
		sc.Check = func() (string, string) {
			for _, b := range bad {
				if b != "" {
					return b, "bad"
				}
			}
			// the state left behind, observed after everything
			final := make([][]c04Rec, nk)
			hist = append(hist, final)
			bad = append(bad, "")
			ti := len(hist) - 1
			for k := range keys {
				do(ti, 0, c04Op{kind: c04Load, key: k})
			}
			do(ti, 0, c04Op{kind: c04List})
			var out strings.Builder
			for k := 0; k < nk; k++ {
				var recs []c04Rec
				for _, t := range hist {
					recs = append(recs, t[k]...)
				}
				for _, r := range recs {
					if r.err != nil && !errors.Is(r.err, badger.ErrConflict) {
						return fmt.Sprintf("an operation failed: %v\nhistory of key %d:\n%s", r.err, k, c04Describe(recs)), "error"
					}
					if r.err != nil {
						out.WriteString("conflict ")
					}
					if r.kind == c04Load {
						fmt.Fprintf(&out, "%d:%v%.1s ", k, r.found, r.val)
					}
				}
				if !c04Linear(initial[k], recs) {
					return fmt.Sprintf("the history of key %d has no sequential explanation (initial %v):\n%s", k, vStrPtr(initial[k]), c04Describe(recs)), "nonlinear"
				}
			}
			return "", out.String()
		}
		return sc
	}
}

func vStrPtr(s *string) string {
	if s == nil {
		return "absent"
	}
	return fmt.Sprintf("%q", *s)
}

type c04Backend struct {
	name  string
	fresh func() (Storage, []string)
	clear bool
}

func c04Backends() ([]c04Backend, func()) {
	badgerSplitLimit = 8
	dir, err := os.MkdirTemp(vScratch(), "c04-")
	if err != nil {
		panic(err)
	}
	db, err := NewBadgerStorage(filepath.Join(dir, "db"), 64)
	if err != nil {
		panic(err)
	}
	n := 0
	return []c04Backend{
		{"mem", func() (Storage, []string) { return NewMemStorage(), []string{"k", "k2"} }, true},
		{"mem-prefix", func() (Storage, []string) { return KeyPrefixStorage(NewMemStorage(), "p"), []string{"k", "k2"} }, true},
		{"badger", func() (Storage, []string) {
			n++
			return db, []string{fmt.Sprintf("u%d_k", n), fmt.Sprintf("u%d_k-0", n)}
		}, false},
		{"badger-prefix", func() (Storage, []string) {
			n++
			return KeyPrefixStorage(db, fmt.Sprintf("p%d", n)), []string{"k", "k-0"}
		}, true},
	}, func() { db.Close(); _ = os.RemoveAll(dir) }
}

func c04Name(init []int, ts []c04Thread) string {
	return fmt.Sprintf("init%v %v", init, ts)
}

func init() {
	small, two, three := 3, 12, 20
	part := func(name string, maxOps [2]int, boundQ, boundT int, inits [][]int, alpha func(b c04Backend, th int) []c04Op, third bool) {
		vRegister(name, func(c *vCtx) {
			bs, done := c04Backends()
			defer done()
			bound := boundQ
			if c.Thorough() {
				bound = boundT
			}
			for _, b := range bs {
				if !c.Thorough() && name == "sequences" && (b.name == "mem-prefix" || b.name == "badger-prefix") {
					continue
				}
				seqs := func(th, n int) []c04Thread {
					out := []c04Thread{}
					cur := []c04Thread{{}}
					for i := 0; i < n; i++ {
						var next []c04Thread
						for _, p := range cur {
							for _, o := range alpha(b, th) {
								next = append(next, append(append(c04Thread{}, p...), o))
							}
						}
						cur = next
					}
					out = append(out, cur...)
					return out
				}
				for _, in := range inits {
					for i1, t1 := range seqs(0, maxOps[0]) {
						for i2, t2 := range seqs(1, maxOps[1]) {
							if maxOps[0] == maxOps[1] && i2 < i1 {
								continue // the two threads are interchangeable
							}
							ts := []c04Thread{t1, t2}
							if third {
								ts = append(ts, c04Thread{{kind: c04Load}})
							}
							c.Explore(b.name+" "+c04Name(in, ts), bound, 20000, c04Run(b.fresh, in, ts))
						}
					}
				}
			}
		})
	}
	full := func(b c04Backend, _ int) []c04Op {
		ops := []c04Op{{c04Save, 0, small}, {c04Save, 0, three}, {c04Save, 0, two}, {c04Load, 0, 0}, {c04Delete, 0, 0}, {c04List, 0, 0}}
		if b.clear {
			ops = append(ops, c04Op{kind: c04Clear})
		}
		return ops
	}
	part("pairs", [2]int{1, 1}, 2, 3, [][]int{{-1, -1}, {small, three}, {three, small}, {two, two}}, full, false)
	part("sequences", [2]int{2, 1}, 1, 2, [][]int{{-1, small}, {three, three}}, func(b c04Backend, th int) []c04Op {
		ops := []c04Op{{c04Save, 0, small}, {c04Save, 0, three}, {c04Delete, 0, 0}}
		if th == 0 {
			ops = append(ops, c04Op{c04Save, 1, three}, c04Op{c04Load, 0, 0})
		} else {
			ops = append(ops, c04Op{c04Load, 0, 0}, c04Op{c04List, 0, 0})
		}
		if b.clear {
			ops = append(ops, c04Op{kind: c04Clear})
		}
		return ops
	}, false)
	part("three-threads", [2]int{1, 1}, 1, 2, [][]int{{-1, -1}, {three, -1}}, func(b c04Backend, th int) []c04Op {
		return []c04Op{{c04Save, 0, small}, {c04Save, 0, three}, {c04Save, 0, two}, {c04Delete, 0, 0}}
	}, true)
	vRegister("oracle", func(c *vCtx) { // the linearizability checker itself, against hand-made histories
		c.Case("rejects-torn-and-lost", func(x *vCase) {
			v := "x"
			sv := c04Rec{kind: c04Save, val: "y", inv: 1, ret: 4}
			ok := c04Rec{kind: c04Load, val: "x", found: true, inv: 2, ret: 3}
			torn := c04Rec{kind: c04Load, val: "xy", found: true, inv: 2, ret: 3}
			late := c04Rec{kind: c04Load, val: "x", found: true, inv: 5, ret: 6}
			if !c04Linear(&v, []c04Rec{sv, ok}) || c04Linear(&v, []c04Rec{sv, torn}) || c04Linear(&v, []c04Rec{sv, late}) {
				panic("checker")
			}
			if !bytes.Equal(c04Val(1, 3), c04Val(1, 3)) {
				panic("values")
			}
		})
	})
}
