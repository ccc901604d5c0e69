package lens

import (
	"fmt"
	"path/filepath"
	"strings"
)

// C03, part "key-shapes": every pair of keys of every shape in one store, stored small and in parts.
func init() {
	vRegister("key-shapes", func(c *vCtx) {
		keys := []string{"", ";", ";;", ";a", "a", "a;", "a;a", "p", "p;", "p;a", "p;p;a", "abadger_split:a", "a-0", "a-1", "a-1-0", "badger_split", ":1:8:8",
			"a\x00", "\x00", "\xff", "a\xff", "é", "%s%d", "a b\n", "ab", "A", strings.Repeat("k", 1000), strings.Repeat("k", 1001), "../a", "*", "aa"}
		shapes := []struct {
			name string
			raw  bool
			mk   func(n int) Storage
		}{
			{"mem", false, func(int) Storage { return NewMemStorage() }},
			{"prefix-mem", false, func(int) Storage { return KeyPrefixStorage(NewMemStorage(), "p") }},
			{"prefix-a-mem", false, func(int) Storage { return KeyPrefixStorage(KeyPrefixStorage(NewMemStorage(), "a"), "a") }},
			{"prefix-badger", false, func(n int) Storage { return KeyPrefixStorage(c03Badger(), fmt.Sprintf("ks%d", n)) }},
			{"badger", true, func(n int) Storage { return c03RawBadger() }},
		}
		v := [][]byte{c03Val('x', 3), c03Val('q', 27)}
		n := 0
		for _, sh := range shapes {
			for i, a := range keys {
				c.Case(fmt.Sprintf("%s %d", sh.name, i), func(x *vCase) {
					if sh.raw && a == "" {
						return // the store refuses the empty key
					}
					for j, b := range keys {
						if i == j || sh.raw && b == "" {
							continue
						}
						n++
						s := sh.mk(int(c.shard)*1000000 + n)
						model := map[string][]byte{}
						obs := []string{a, b}
						pre := append([]string{"", "a", "p", ";", "badger", "b"}, a, b)
						if sh.raw {
							obs = obs[:2]
						}
						ops := []c03Op{{"Sa", a, v[1], 0}, {"Sb", b, v[1], 0}, {"Sa", a, v[0], 0}, {"Db", b, nil, 1}, {"Sb", b, v[0], 0}, {"Da", a, nil, 1}, {"Sa", a, v[1], 0}, {"C", "", nil, 2}}
						for k, op := range ops {
							if err := c03Apply(x, s, model, op, ""); err != nil {
								x.Fail("%s keys %q %q step %d: %v", sh.name, a, b, k, err)
								return
							}
							x.Transitions(1)
							x.States(1)
							if !c03Observe(x, s, model, obs, pre, "", fmt.Sprintf("%s keys %q %q step %d %s", sh.name, a, b, k, op.name)) {
								return
							}
						}
						x.Traces(1)
					}
				})
			}
		}
	})
}

var c03RawBad Storage

func c03RawBadger() Storage {
	if c03RawBad == nil {
		badgerSplitLimit = 8
		s, err := NewBadgerStorage(filepath.Join(vScratch(), "badger-raw"), 64)
		if err != nil {
			panic(err)
		}
		c03RawBad = s
	}
	return c03RawBad
}
