package lens

// C03: every storage back end behaves as a map from key to bytes.
// All operation histories up to a depth, over keys that are prefixes of each other and values on both sides of the
// split limit, run against the real back ends; the whole observable state is compared with a plain map after every step.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type c03Op struct {
	name string
	key  string
	val  []byte
	kind int // 0 save 1 delete 2 clear
}

func c03Val(tag byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = tag + byte(i*37)
	}
	return b
}

// c03Ops builds the mutation alphabet.
func c03Ops(keys []string, vals [][]byte, clear bool) []c03Op {
	var ops []c03Op
	for _, k := range keys {
		for i, v := range vals {
			ops = append(ops, c03Op{fmt.Sprintf("S%s=%d#%d", k, len(v), i), k, v, 0})
		}
		ops = append(ops, c03Op{"D" + k, k, nil, 1})
	}
	if clear {
		ops = append(ops, c03Op{"C", "", nil, 2})
	}
	return ops
}

// c03Observe compares every observation with the model.
func c03Observe(x *vCase, s Storage, model map[string][]byte, keys, prefixes []string, strip string, hist string) bool {
	for _, k := range keys {
		got, ok, err := s.LoadState(strip + k)
		want, wok := model[k]
		if err != nil || ok != wok || !bytes.Equal(got, want) {
			x.Fail("after %s: load %q = %d bytes %q found=%v err=%v, want %d bytes %q found=%v", hist, k, len(got), vShort(got), ok, err, len(want), vShort(want), wok)
			return false
		}
		for i := range got { // the caller owns the returned bytes
			got[i] ^= 0xff
		}
		if again, _, _ := s.LoadState(strip + k); !bytes.Equal(again, want) {
			x.Fail("after %s: changing the bytes returned for %q changes the stored value", hist, k)
			return false
		}
	}
	for _, p := range prefixes {
		got, err := s.ListKeysPrefix(strip + p)
		if err != nil {
			x.Fail("after %s: list %q: %v", hist, p, err)
			return false
		}
		var want []string
		for k := range model {
			if strings.HasPrefix(k, p) {
				want = append(want, strip+k)
			}
		}
		if !c03SameKeys(got, want) {
			x.Fail("after %s: list %q = %q, want %q", hist, p, got, want)
			return false
		}
	}
	return true
}

func c03SameKeys(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vShort(b []byte) string {
	if len(b) > 40 {
		return string(b[:40]) + "..."
	}
	return string(b)
}

func c03Apply(x *vCase, s Storage, model map[string][]byte, op c03Op, strip string) error {
	switch op.kind {
	case 0:
		buf := append([]byte(nil), op.val...)
		if op.val == nil {
			buf = nil
		}
		if err := s.SaveState(strip+op.key, buf); err != nil {
			return err
		}
		for i := range buf { // the caller may reuse its buffer
			buf[i] = 0xEE
		}
		model[op.key] = op.val
	case 1:
		if err := s.DeleteState(strip + op.key); err != nil {
			return err
		}
		delete(model, op.key)
	case 2:
		if err := s.Clear(); err != nil {
			return err
		}
		clear(model)
	}
	return nil
}

type c03Backend struct {
	name string
	mk   func(n int) (Storage, func()) // n makes the namespace unique
	wipe bool                          // Clear empties only this namespace, so it may be part of a shared-database history
}

var c03Bad Storage

func c03Badger() Storage {
	if c03Bad == nil {
		badgerSplitLimit = 8
		s, err := NewBadgerStorage(filepath.Join(vScratch(), "badger"), 64)
		if err != nil {
			panic(err)
		}
		c03Bad = s
	}
	return c03Bad
}

// c03Noise stores neighbours that no operation of the history may disturb.
func c03Backends() []c03Backend {
	nop := func() {}
	return []c03Backend{
		{"mem", func(int) (Storage, func()) { return NewMemStorage(), nop }, true},
		{"prefix-mem", func(int) (Storage, func()) { return KeyPrefixStorage(NewMemStorage(), "p"), nop }, true},
		{"prefix-prefix-mem", func(int) (Storage, func()) {
			return KeyPrefixStorage(KeyPrefixStorage(NewMemStorage(), "outer"), "inner"), nop
		}, true},
		{"emptyprefix-mem", func(int) (Storage, func()) { return KeyPrefixStorage(NewMemStorage(), ""), nop }, true},
		{"prefix-badger", func(n int) (Storage, func()) {
			return KeyPrefixStorage(c03Badger(), fmt.Sprintf("n%d", n)), nop
		}, true},
		{"prefix-prefix-badger", func(n int) (Storage, func()) {
			return KeyPrefixStorage(KeyPrefixStorage(c03Badger(), fmt.Sprintf("o%d", n)), "in"), nop
		}, true},
	}
}

func init() {
	keys := []string{"a", "ab", "b;a"}
	prefixes := []string{"", "a", "ab", "abc", "b", "b;", "z"}
	vals := [][]byte{{}, c03Val('x', 3), c03Val('q', 8), c03Val('r', 9), c03Val('s', 25), []byte("badger_split:1:8:8")}

	vRegister("histories", func(c *vCtx) {
		n := 0
		for _, be := range c03Backends() {
			ops := c03Ops(keys, vals, true)
			depth := 3
			if c.Thorough() {
				depth = 4
				if strings.Contains(be.name, "badger") { // one representative small value less
					ops = c03Ops(keys, [][]byte{{}, vals[1], vals[3], vals[4]}, true)
				}
			}
			// one case per two-operation stem, exploring every continuation on a fresh namespace
			var rec func(x *vCase, hist []int)
			rec = func(x *vCase, hist []int) {
				n++
				s, done := be.mk(int(c.shard)*100000000 + n)
				model := map[string][]byte{}
				var names []string
				for i, h := range hist {
					names = append(names, ops[h].name)
					if err := c03Apply(x, s, model, ops[h], ""); err != nil {
						x.Fail("%s %v: %v", be.name, names, err)
						return
					}
					x.Transitions(1)
					if i == len(hist)-1 && !c03Observe(x, s, model, keys, prefixes, "", be.name+" "+strings.Join(names, " ")) {
						return
					}
				}
				x.States(1)
				x.Traces(1)
				done()
				if len(hist) < depth && !x.failed {
					for h := range ops {
						rec(x, append(append([]int{}, hist...), h))
					}
				}
			}
			for a := range ops {
				for b := range ops {
					id := fmt.Sprintf("%s:%s,%s", be.name, ops[a].name, ops[b].name)
					c.Case(id, func(x *vCase) {
						rec(x, []int{a, b})
					})
				}
			}
			for a := range ops {
				id := fmt.Sprintf("%s:%s", be.name, ops[a].name)
				c.Case(id, func(x *vCase) { d := depth; depth = 1; rec(x, []int{a}); depth = d })
			}
		}
	})

	// overwrite every size with every size around the split limit
	vRegister("sizes", func(c *vCtx) {
		sizes := []int{0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 63, 64, 65, 81, 1000}
		n := 0
		for _, be := range c03Backends() {
			for _, a := range sizes {
				for _, b := range sizes {
					c.Case(fmt.Sprintf("%s-%d-%d", be.name, a, b), func(x *vCase) {
						n++
						s, done := be.mk(int(c.shard)*100000000 + 50000000 + n)
						defer done()
						model := map[string][]byte{}
						seq := []c03Op{{"S", "k", c03Val('1', a), 0}, {"S", "k2", c03Val('2', b), 0}, {"S", "k", c03Val('3', b), 0}, {"D", "k", nil, 1},
							{"S", "k", c03Val('4', a), 0}, {"D", "k2", nil, 1}}
						for i, op := range seq {
							if err := c03Apply(x, s, model, op, ""); err != nil {
								x.Fail("step %d: %v", i, err)
								return
							}
							if !c03Observe(x, s, model, []string{"k", "k2"}, []string{"", "k", "k2"}, "", fmt.Sprintf("step %d", i)) {
								return
							}
							x.Transitions(1)
							x.States(1)
						}
						x.Traces(1)
					})
				}
			}
		}
	})

	// the back ends themselves, unwrapped, including Clear and values that look like the store's own bookkeeping
	vRegister("raw", func(c *vCtx) {
		looks := [][]byte{[]byte("badger_split:"), []byte("badger_split:1:8:8"), []byte("badger_split:2:16:16"), []byte("badger_split:0:0:0"), []byte("badger_split:a:b:c"), []byte(" badger_split:1:1:1"),
			[]byte("badger_split:1:1:1\n"), []byte("badger_split:99999999999999999999:1:1"), []byte("badger_split:1:1:1:1")}
		dirN := 0
		mks := map[string]func() (Storage, error){
			"mem": func() (Storage, error) { return NewMemStorage(), nil },
			"badger": func() (Storage, error) {
				badgerSplitLimit = 8
				dirN++
				return NewBadgerStorage(filepath.Join(vScratch(), fmt.Sprintf("raw-%d", dirN)), 16)
			},
			"badger-whole": func() (Storage, error) {
				badgerSplitLimit = 1 << 20
				dirN++
				return NewBadgerStorage(filepath.Join(vScratch(), fmt.Sprintf("raw-%d", dirN)), 16)
			},
		}
		for _, name := range []string{"mem", "badger", "badger-whole"} {
			for i, lk := range looks {
				c.Case(fmt.Sprintf("%s-looks-%d", name, i), func(x *vCase) {
					s, err := mks[name]()
					if err != nil {
						x.Fail("open: %v", err)
						return
					}
					defer s.Close()
					model := map[string][]byte{}
					for j, op := range []c03Op{{"S", "k", lk, 0}, {"S", "j", c03Val('a', 30), 0}, {"S", "k", c03Val('b', 30), 0}, {"S", "k", lk, 0}, {"S", "j", lk, 0}, {"D", "k", nil, 1}, {"S", "k", lk, 0}, {"C", "", nil, 2}} {
						if err := c03Apply(x, s, model, op, ""); err != nil {
							x.Fail("step %d %s: %v", j, op.name, err)
							return
						}
						if !c03Observe(x, s, model, []string{"k", "j"}, []string{"", "k", "j"}, "", fmt.Sprintf("%s %q step %d", name, lk, j)) {
							return
						}
						x.Transitions(1)
						x.States(1)
					}
					x.Traces(1)
				})
			}
			// Clear at every point of a history, then continue
			base := []c03Op{{"S", "a", c03Val('1', 30), 0}, {"S", "ab", c03Val('2', 5), 0}, {"D", "a", nil, 1}, {"S", "a", c03Val('3', 9), 0}, {"S", "ab", c03Val('4', 40), 0}}
			for at := 0; at <= len(base); at++ {
				c.Case(fmt.Sprintf("%s-clear-%d", name, at), func(x *vCase) {
					s, err := mks[name]()
					if err != nil {
						x.Fail("open: %v", err)
						return
					}
					model := map[string][]byte{}
					seq := append(append(append([]c03Op{}, base[:at]...), c03Op{"C", "", nil, 2}), base[at:]...)
					for j, op := range seq {
						if err := c03Apply(x, s, model, op, ""); err != nil {
							x.Fail("step %d: %v", j, err)
							return
						}
						if !c03Observe(x, s, model, []string{"a", "ab"}, []string{"", "a", "ab", "b"}, "", fmt.Sprintf("%s step %d", name, j)) {
							return
						}
						all, err := s.ListKeys()
						if err != nil || len(all) != len(model) {
							x.Fail("%s step %d: ListKeys = %q, %v; want %d keys", name, j, all, err, len(model))
						}
					}
					x.Traces(1)
					s.Close()
					if p := filepath.Join(vScratch(), fmt.Sprintf("raw-%d", dirN)); name != "mem" {
						if _, err := os.Stat(p); !os.IsNotExist(err) {
							x.Fail("Close leaves %s behind (%v)", p, err)
						}
					}
				})
			}
		}
	})

	// two namespaces over one store never see each other
	vRegister("isolation", func(c *vCtx) {
		pairs := [][2]string{{"p", "q"}, {"p", "pp"}, {"a", "a1"}, {"x;y", "x;z"}}
		n := 0
		for bi, base := range []string{"mem", "badger"} {
			for _, pr := range pairs {
				ops := c03Ops([]string{"k", "k2"}, [][]byte{c03Val('x', 3), c03Val('y', 20)}, true)
				// ops on A then ops on B interleaved, all histories of length 3 over (store, op)
				tot := len(ops) * 2
				for code := 0; code < tot*tot*tot; code++ {
					c.Case(fmt.Sprintf("%s-%s-%s-%d", base, pr[0], pr[1], code), func(x *vCase) {
						n++
						var under Storage
						if bi == 0 {
							under = NewMemStorage()
						} else {
							under = KeyPrefixStorage(c03Badger(), fmt.Sprintf("iso%d-%d", c.shard, n))
						}
						st := []Storage{KeyPrefixStorage(under, pr[0]), KeyPrefixStorage(under, pr[1])}
						models := []map[string][]byte{{}, {}}
						cd := code
						for j := 0; j < 3; j++ {
							o := cd % tot
							cd /= tot
							w := o % 2
							if err := c03Apply(x, st[w], models[w], ops[o/2], ""); err != nil {
								x.Fail("step %d: %v", j, err)
								return
							}
							x.Transitions(1)
						}
						x.States(1)
						x.Traces(1)
						for w := range st {
							if !c03Observe(x, st[w], models[w], []string{"k", "k2"}, []string{"", "k", "k2"}, "", fmt.Sprintf("store %s (other %s) code %d", pr[w], pr[1-w], code)) {
								return
							}
						}
					})
				}
			}
		}
	})
}
