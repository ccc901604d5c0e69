package lens

// C21: copying, walking, limiting and path helpers. The concurrent ones run on real scratch trees under the cooperative
// scheduler (every interleaving to a preemption bound, crossed with faults), the others over all small inputs.

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
)

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

type c21Node struct {
	path, kind, data string // kind: d, f, l
}

var c21N int

// c21Mu guards what the threads of a scenario record (never held at a scheduling point).
var c21Mu sync.Mutex

func c21Sync(f func()) {
	c21Mu.Lock()
	defer c21Mu.Unlock()
	f()
}

var c21Base string

// c21Root is in memory when possible, copies are synced to their device.
func c21Root() string {
	if c21Base == "" {
		c21Base = vScratch()
		if d, err := os.MkdirTemp("/dev/shm", "verif-c21-"); err == nil {
			c21Base = d
		}
	}
	return c21Base
}

func c21Drop() {
	if c21Base != "" && c21Base != vScratch() {
		vMust(os.RemoveAll(c21Base))
	}
	c21Base = ""
}

func c21Dir() string {
	c21N++
	d := filepath.Join(c21Root(), fmt.Sprintf("c21-%d", c21N))
	vMust(os.MkdirAll(d, 0o755))
	return d
}

func c21Make(root string, t []c21Node) {
	vMust(os.MkdirAll(root, 0o755))
	for _, n := range t {
		p := filepath.Join(root, n.path)
		switch n.kind {
		case "d":
			vMust(os.MkdirAll(p, 0o755))
		case "f":
			vMust(os.WriteFile(p, []byte(n.data), 0o644))
		case "l":
			vMust(os.Symlink(n.data, p))
		}
	}
}

// c21Tree lists a tree: path, kind, content or target; with modes when asked.
func c21Tree(root string, modes bool) string {
	var out []string
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		info, err := d.Info()
		vMust(err)
		s := rel
		switch {
		case d.IsDir():
			s += " dir"
		case info.Mode()&fs.ModeSymlink != 0:
			t, err := os.Readlink(p)
			vMust(err)
			s += " -> " + t
		default:
			b, err := os.ReadFile(p)
			vMust(err)
			s += " " + info.Mode().Type().String() + " " + string(b)
		}
		if modes && info.Mode()&fs.ModeSymlink == 0 {
			s += fmt.Sprintf(" %o", info.Mode().Perm())
		}
		out = append(out, s)
		return nil
	})
	if err != nil {
		return "unreadable: " + err.Error()
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

var c21Trees = map[string][]c21Node{
	"empty":  nil,
	"one":    {{"f", "f", "1"}},
	"two":    {{"a", "f", "1"}, {"b", "f", ""}},
	"nested": {{"d", "d", ""}, {"d/e", "d", ""}, {"d/e/f", "f", "deep"}, {"z", "f", "last"}},
	"links":  {{"a", "f", "1"}, {"dangling", "l", "nowhere"}, {"out", "l", "/etc"}, {"rel", "l", "a"}},
	"mixed":  {{".h", "f", "hidden"}, {"d", "d", ""}, {"d/..x", "f", "odd"}, {"e", "d", ""}, {"l", "l", "d"}},
}

var c21TreeNames = []string{"empty", "one", "two", "nested", "links", "mixed"}

type c21Copy struct {
	tree, fault string
	at          int
}

func (f c21Copy) String() string { return fmt.Sprintf("%s %s@%d", f.tree, f.fault, f.at) }

func c21CopyScen(f c21Copy) func() *vScen {
	return func() *vScen {
		root := c21Dir()
		src, dst := filepath.Join(root, "src"), filepath.Join(root, "dst")
		t := c21Trees[f.tree]
		c21Make(src, t)
		ctx, cancel := context.WithCancel(context.Background())
		mustFail := false
		switch f.fault {
		case "cancelled":
			cancel()
			mustFail = true
		case "obstacle": // something of another kind is at the target
			p := filepath.Join(dst, t[f.at].path)
			if t[f.at].kind == "d" {
				vMust(os.MkdirAll(filepath.Dir(p), 0o755))
				vMust(os.WriteFile(p, nil, 0o644))
			} else {
				vMust(os.MkdirAll(filepath.Join(p, "x"), 0o755))
			}
			mustFail = true
		case "exists": // an older copy is in place
			vMust(os.MkdirAll(dst, 0o755))
			for _, n := range t {
				if n.kind == "d" {
					vMust(os.MkdirAll(filepath.Join(dst, n.path), 0o755))
				} else if n.kind == "f" {
					vMust(os.WriteFile(filepath.Join(dst, n.path), []byte("much longer older content"), 0o644))
				}
			}
		case "nosource":
			vMust(os.RemoveAll(src))
			mustFail = true
		case "linked":
			vMust(os.Rename(src, filepath.Join(root, "real")))
			vMust(os.Symlink("real", src))
		}
		before := ""
		if f.fault != "nosource" {
			before = c21Tree(filepath.Join(src)+"/", true)
		}
		var seen []string
		calls, returned, late, finished := 0, false, 0, false
		var err error
		var atReturn string
		sc := &vScen{}
		sc.Threads = append(sc.Threads, func() {
			err = CopyDir(ctx, src, dst, func(p string, info os.FileInfo) {
				c21Mu.Lock()
				defer c21Mu.Unlock()
				if returned {
					late++
				}
				rel, _ := filepath.Rel(dst, p)
				kind := "f"
				if info.IsDir() {
					kind = "d"
				} else if info.Mode()&fs.ModeSymlink != 0 {
					kind = "l"
				}
				seen = append(seen, kind+" "+rel)
				if f.fault == "cancel" && calls == f.at {
					cancel()
				}
				if f.fault == "vanish" && calls == f.at { // a source file is removed meanwhile
					for i := len(t) - 1; i >= 0; i-- {
						if t[i].kind == "f" {
							_ = os.Remove(filepath.Join(src, t[i].path))
							break
						}
					}
				}
				calls++
			})
			c21Sync(func() { returned = true })
			if _, e := os.Lstat(dst); e == nil {
				atReturn = c21Tree(dst, true)
			}
			finished = true
		})
		sc.Check = func() (string, string) {
			if !finished {
				return "the copy never ended", "hang"
			}
			if late > 0 {
				return "progress is reported after the copy returned", "late"
			}
			end := ""
			if _, e := os.Lstat(dst); e == nil {
				end = c21Tree(dst, true)
			}
			if end != atReturn {
				return fmt.Sprintf("files changed after the copy returned:\n%s\nlater:\n%s", atReturn, end), "late"
			}
			if f.fault != "nosource" && f.fault != "vanish" {
				if now := c21Tree(src+"/", true); now != before {
					return fmt.Sprintf("the source changed from\n%s\nto\n%s", before, now), "source"
				}
			}
			if err != nil {
				if f.fault == "" || f.fault == "exists" || f.fault == "linked" {
					return fmt.Sprintf("nothing was wrong, the copy fails: %v", err), "error"
				}
				return "", "error"
			}
			if mustFail {
				return "the copy cannot be complete and no error is reported", "silent"
			}
			want := []string{"d ."}
			for _, n := range t {
				want = append(want, n.kind+" "+n.path)
			}
			ref := filepath.Join(root, "ref")
			c21Make(ref, t)
			if a, b := c21Tree(ref, false), c21Tree(dst, false); f.fault != "vanish" && a != b {
				return fmt.Sprintf("no error, but the source\n%s\nwas copied as\n%s", a, b), "differs"
			} else if f.fault == "vanish" && a != b {
				// files that had gone before they were looked at are missing, the others are complete
				for _, l := range strings.Split(b, "\n") {
					if !strings.Contains("\n"+a+"\n", "\n"+l+"\n") {
						return fmt.Sprintf("no error, but the source\n%s\nwas copied as\n%s", a, b), "differs"
					}
				}
				return "", "gone"
			}
			sort.Strings(want)
			sort.Strings(seen)
			if fmt.Sprint(want) != fmt.Sprint(seen) {
				return fmt.Sprintf("progress was reported for %q, copied were %q", seen, want), "progress"
			}
			return "", "copied"
		}
		sc.Cleanup = func() { cancel(); vMust(os.RemoveAll(root)) }
		return sc
	}
}

type c21Walk struct {
	tree string
	skip bool
	fail int // index of the node whose handler fails, -1 none
	stop int // number of the call that cancels, -1 none
}

func c21WalkScen(f c21Walk) func() *vScen {
	return func() *vScen {
		root := c21Dir()
		src := filepath.Join(root, "src")
		t := c21Trees[f.tree]
		c21Make(src, t)
		ctx, cancel := context.WithCancel(context.Background())
		if f.stop == 0 {
			cancel()
		}
		var seen []string
		running, calls := 0, 0
		returned, late, finished := false, 0, false
		var err error
		boom := errors.New("handler failed")
		failed := false
		sc := &vScen{}
		sc.Threads = append(sc.Threads, func() {
			err = concurrentWalk(ctx, src, f.skip, func(p string, info os.FileInfo) error {
				c21Mu.Lock()
				defer c21Mu.Unlock()
				running++
				if returned {
					late++
				}
				calls++
				if calls == f.stop {
					cancel()
				}
				rel, _ := filepath.Rel(src, p)
				kind := "f"
				if info.IsDir() {
					kind = "d"
				} else if info.Mode()&fs.ModeSymlink != 0 {
					kind = "l"
				}
				seen = append(seen, kind+" "+rel)
				if len(t) <= 2 {
					c21Mu.Unlock()
					vYield()
					c21Mu.Lock()
				}
				running--
				if f.fail >= 0 && rel == t[f.fail].path {
					failed = true
					return boom
				}
				return nil
			})
			c21Sync(func() {
				returned = true
				if running > 0 {
					late++
				}
			})
			finished = true
		})
		sc.Check = func() (string, string) {
			if !finished {
				return "the walk never ended", "hang"
			}
			if late > 0 {
				return "handlers run after the walk returned", "late"
			}
			if failed && !errors.Is(err, boom) {
				return fmt.Sprintf("a handler failed, the walk answers %v", err), "silent"
			}
			if f.stop == 0 && err == nil {
				return "the walk was cancelled before it began and reports success", "silent"
			}
			if !failed && f.stop < 0 && err != nil {
				return fmt.Sprintf("nothing was wrong, the walk fails: %v", err), "error"
			}
			dup := map[string]bool{}
			for _, s := range seen {
				if dup[s] {
					return fmt.Sprintf("%s is visited twice", s), "twice"
				}
				dup[s] = true
				if f.skip && strings.HasPrefix(s, "l ") {
					return fmt.Sprintf("link %s is visited", s), "link"
				}
			}
			if err != nil {
				return "", "error"
			}
			want := []string{"d ."}
			for _, n := range t {
				if !f.skip || n.kind != "l" {
					want = append(want, n.kind+" "+n.path)
				}
			}
			sort.Strings(want)
			sort.Strings(seen)
			if fmt.Sprint(want) != fmt.Sprint(seen) {
				return fmt.Sprintf("visited %q, the tree has %q", seen, want), "missed"
			}
			return "", "visited"
		}
		sc.Cleanup = func() { cancel(); vMust(os.RemoveAll(root)) }
		return sc
	}
}

func init() {
	deep := func(c *vCtx, n int) int {
		if c.Thorough() {
			return n + 1
		}
		return n
	}
	vRegister("copy", func(c *vCtx) {
		defer c21Drop()
		for _, tn := range c21TreeNames {
			t := c21Trees[tn]
			var fs []c21Copy
			for _, k := range []string{"", "cancelled", "exists", "nosource", "linked"} {
				if k == "exists" && (tn == "links" || tn == "mixed") {
					continue // a link cannot replace a link: an error is permitted and checked by "obstacle"
				}
				fs = append(fs, c21Copy{tn, k, 0})
			}
			for i := range t {
				fs = append(fs, c21Copy{tn, "obstacle", i})
			}
			for i := 0; i <= len(t); i++ {
				fs = append(fs, c21Copy{tn, "cancel", i}, c21Copy{tn, "vanish", i})
			}
			for _, f := range fs {
				c.Explore(f.String(), deep(c, 1), 20000, c21CopyScen(f))
			}
		}
	})
	vRegister("walk", func(c *vCtx) {
		defer c21Drop()
		for _, tn := range c21TreeNames {
			for _, skip := range []bool{false, true} {
				for fail := -1; fail < len(c21Trees[tn]); fail++ {
					for _, stop := range []int{-1, 0, 1, 2} {
						f := c21Walk{tn, skip, fail, stop}
						bound := 1
						if len(c21Trees[tn]) > 2 && !c.Thorough() {
							bound = 0
						}
						c.Explore(fmt.Sprintf("%+v", f), bound, 20000, c21WalkScen(f))
					}
				}
			}
		}
	})
	vRegister("limit", func(c *vCtx) {
		defer c21Drop()
		for limit := 1; limit <= 3; limit++ {
			for jobs := 0; jobs <= 4; jobs++ {
				for _, inside := range []bool{false, true} { // who takes: the starter or the worker
					c.Explore(fmt.Sprintf("limit=%d jobs=%d inside=%v", limit, jobs, inside), deep(c, 1), 20000, func() *vScen {
						l := NewLimitingWaitGroup(limit)
						running, most, done, joined := 0, 0, 0, -1
						var wg vWaitGroup
						sc := &vScen{}
						sc.Threads = append(sc.Threads, func() {
							for i := 0; i < jobs; i++ {
								if !inside {
									l.Take()
								}
								wg.Add(1)
								vGo(func() {
									if inside {
										l.Take()
									}
									wg.Done()
									c21Sync(func() { running++; most = max(most, running) })
									vYield()
									c21Sync(func() { running--; done++ })
									l.Release()
								})
							}
							wg.Wait() // Join may only be called once nothing is taken any more
							l.Join()
							c21Sync(func() { joined = done })
						})
						sc.Check = func() (string, string) {
							switch {
							case joined < 0:
								return "Join never returned", "hang"
							case joined != jobs:
								return fmt.Sprintf("Join returned after %d of %d activities", joined, jobs), "early"
							case most > limit:
								return fmt.Sprintf("%d activities at once, the limit is %d", most, limit), "over"
							}
							return "", fmt.Sprint("most ", most)
						}
						return sc
					})
				}
			}
		}
	})
	vRegister("locks", func(c *vCtx) {
		defer c21Drop()
		for _, stripes := range []uint{1, 2, 8} {
			for code := 0; code < 27; code++ {
				keys := []string{"a", "b", "a longer key with more than twenty bytes"}
				use := []string{keys[code%3], keys[code/3%3], keys[code/9]}
				c.Explore(fmt.Sprintf("stripes=%d %q", stripes, use), deep(c, 1), 20000, func() *vScen {
					m := newStripedMutex(stripes)
					in := map[string]int{}
					bad, done := "", 0
					sc := &vScen{}
					for _, k := range use {
						sc.Threads = append(sc.Threads, func() {
							for range 2 {
								l := m.Lock(k)
								c21Sync(func() {
									in[k]++
									if in[k] != 1 {
										bad = fmt.Sprintf("two holders of %q", k)
									}
								})
								vYield()
								c21Sync(func() { in[k]-- })
								l.Unlock()
							}
							c21Sync(func() { done++ })
						})
					}
					sc.Check = func() (string, string) {
						if bad == "" && done != 3 {
							bad = "a lock was never given"
						}
						return bad, "ok"
					}
					return sc
				})
			}
		}
	})
	vRegister("buffer", func(c *vCtx) {
		defer c21Drop()
		for code := 0; code < 8; code++ {
			c.Explore(fmt.Sprintf("writers=%d", code), deep(c, 1), 20000, func() *vScen {
				b := newLockedBuffer()
				chunk := [][]string{{"aa", "bbb"}, {"CC", ""}, {"1", "22", strings.Repeat("3", 100)}}
				var snaps [][]byte
				var copies []string
				bad := ""
				sc := &vScen{}
				for i, w := range chunk {
					if code>>i&1 == 0 {
						continue
					}
					sc.Threads = append(sc.Threads, func() {
						for _, s := range w {
							p := []byte(s)
							if n, err := b.Write(p); n != len(s) || err != nil {
								c21Sync(func() { bad = fmt.Sprintf("write answers %d, %v", n, err) })
							}
							for i := range p {
								p[i] = '#'
							}
						}
					})
				}
				sc.Threads = append(sc.Threads, func() {
					for range 2 {
						s := b.Bytes()
						snaps, copies = append(snaps, s), append(copies, string(s))
						if n := b.Len(); n < len(s) {
							c21Sync(func() { bad = fmt.Sprintf("length %d after %d bytes were seen", n, len(s)) })
						}
					}
				})
				sc.Check = func() (string, string) {
					if bad != "" {
						return bad, "bad"
					}
					all := b.String()
					var parts [][]string
					for i, w := range chunk {
						if code>>i&1 == 1 {
							parts = append(parts, w)
						}
					}
					if !c21Shuffle(all, parts) {
						return fmt.Sprintf("the buffer holds %q", all), "mixed"
					}
					for i, s := range snaps {
						if string(s) != copies[i] {
							return "a snapshot changed later", "snapshot"
						}
						if !strings.HasPrefix(all, copies[i]) {
							return fmt.Sprintf("%q was seen, the buffer holds %q", copies[i], all), "snapshot"
						}
					}
					b.Reset()
					if b.Len() != 0 || b.String() != "" {
						return "not empty after reset", "reset"
					}
					return "", "ok"
				}
				return sc
			})
		}
	})
}

// c21Shuffle tells whether s is made of the chunks of all parts, each part in order.
func c21Shuffle(s string, parts [][]string) bool {
	empty := true
	for i, p := range parts {
		if len(p) == 0 {
			continue
		}
		empty = false
		if strings.HasPrefix(s, p[0]) {
			rest := append([][]string{}, parts...)
			rest[i] = p[1:]
			if c21Shuffle(s[len(p[0]):], rest) {
				return true
			}
		}
	}
	return empty && s == ""
}

func init() {
	vRegister("within", func(c *vCtx) {
		defer c21Drop()
		comps := []string{"", ".", "..", "a", "b", "..a", "a.", "...", "a b"}
		var paths []string
		for _, abs := range []string{"", "/"} {
			for _, p := range comps {
				for _, q := range comps {
					for _, r := range comps {
						paths = append(paths, abs+p+"/"+q+"/"+r)
					}
				}
			}
		}
		wd, err := os.Getwd()
		vMust(err)
		absolute := func(p string) string {
			if !strings.HasPrefix(p, "/") {
				p = wd + "/" + p
			}
			return path.Clean(p)
		}
		var dirs []string
		for i, p := range paths {
			if c.Thorough() || i%9 < 2 || i%7 == 0 {
				dirs = append(dirs, p)
			}
		}
		for i, d := range dirs {
			c.Case(fmt.Sprintf("%d %s", i, d), func(x *vCase) {
				ad := absolute(d)
				for _, p := range paths {
					ap := absolute(p)
					want := ap == ad || strings.HasPrefix(ap, strings.TrimSuffix(ad, "/")+"/")
					got, err := fileWithinDir(p, d)
					if err != nil || got != want {
						x.Fail("%q within %q: %v, %v; want %v", p, d, got, err, want)
						return
					}
					x.Transitions(1)
				}
				x.States(1)
				x.Traces(1)
			})
		}
	})

	vRegister("modes", func(c *vCtx) {
		defer c21Drop()
		for block := 0; block < 32; block++ {
			c.Case(fmt.Sprintf("modes %o..%o", block*16, block*16+15), func(x *vCase) {
				dir := c21Dir()
				root := filepath.Join(dir, "root")
				outside := filepath.Join(dir, "outside")
				vMust(os.MkdirAll(outside, 0o755))
				vMust(os.WriteFile(filepath.Join(outside, "f"), []byte("o"), 0o644))
				vMust(os.Mkdir(root, 0o755))
				var want []string
				for i := 0; i < 16; i++ {
					m := fs.FileMode(block*16 + i)
					f := filepath.Join(root, fmt.Sprintf("f%03o", m))
					d := filepath.Join(root, fmt.Sprintf("d%03o", m))
					vMust(os.WriteFile(f, []byte("c"), 0o644))
					vMust(os.Mkdir(d, 0o755))
					vMust(os.WriteFile(filepath.Join(d, "in"), nil, 0o600))
					vMust(os.Chmod(filepath.Join(d, "in"), m))
					vMust(os.Chmod(f, m))
					vMust(os.Chmod(d, m))
					want = append(want, fmt.Sprintf("f%03o %o", m, m|0o222), fmt.Sprintf("d%03o %o", m, m|0o333), fmt.Sprintf("d%03o/in %o", m, m|0o222))
				}
				vMust(os.Symlink(outside, filepath.Join(root, "linkd")))
				vMust(os.Symlink(filepath.Join(outside, "f"), filepath.Join(root, "linkf")))
				vMust(os.Symlink("nowhere", filepath.Join(root, "linkn")))
				before := c21Tree(outside, true)
				if err := WriteChmod(context.Background(), root); err != nil {
					x.Fail("%v", err)
				}
				for _, w := range want {
					n, m, _ := strings.Cut(w, " ")
					info, err := os.Lstat(filepath.Join(root, n))
					vMust(err)
					if got := fmt.Sprintf("%o", info.Mode().Perm()); got != m {
						x.Fail("%s has mode %s, want %s", n, got, m)
					}
					x.Transitions(1)
				}
				if now := c21Tree(outside, true); now != before {
					x.Fail("files outside changed from\n%s\nto\n%s", before, now)
				}
				x.States(1)
				x.Traces(1)
				vMust(os.RemoveAll(dir))
			})
		}
	})

	vRegister("files", func(c *vCtx) {
		defer c21Drop()
		kinds := []string{"absent", "file", "empty", "readonly", "link", "dangling", "dir", "big"}
		mk := func(p, kind, tag string) {
			switch kind {
			case "file":
				vMust(os.WriteFile(p, []byte("content of "+tag), 0o640))
			case "empty":
				vMust(os.WriteFile(p, nil, 0o644))
			case "readonly":
				vMust(os.WriteFile(p, []byte("protected "+tag), 0o444))
			case "link":
				vMust(os.WriteFile(p+".target", []byte("target of "+tag), 0o644))
				vMust(os.Symlink(filepath.Base(p)+".target", p))
			case "dangling":
				vMust(os.Symlink("nowhere", p))
			case "dir":
				vMust(os.Mkdir(p, 0o755))
			case "big":
				vMust(os.WriteFile(p, []byte(strings.Repeat(tag, 1<<20)), 0o644))
			}
		}
		show := func(p string) string {
			info, err := os.Lstat(p)
			if err != nil {
				return "absent"
			}
			if info.Mode()&fs.ModeSymlink != 0 {
				t, _ := os.Readlink(p)
				return "link " + t
			}
			if info.IsDir() {
				return "dir"
			}
			b, err := os.ReadFile(p)
			vMust(err)
			return fmt.Sprintf("file %o %d %s", info.Mode().Perm(), len(b), vHash(b))
		}
		for _, a := range kinds {
			for _, b := range kinds {
				c.Case("replace "+a+" "+b, func(x *vCase) {
					dir := c21Dir()
					s, d := filepath.Join(dir, "s"), filepath.Join(dir, "d")
					mk(s, a, "s")
					mk(d, b, "d")
					ws, wd := show(s), show(d)
					err := replaceFile(s, d)
					switch {
					case err == nil && (show(d) != ws || show(s) != "absent" || a == "absent"):
						x.Fail("replaced %s by %s: now %s and %s", wd, ws, show(d), show(s))
					case err != nil && (show(d) != wd || show(s) != ws):
						x.Fail("replacing %s by %s fails (%v) and leaves %s and %s", wd, ws, err, show(d), show(s))
					case err != nil && a != "absent" && a != "dir" && b != "dir":
						x.Fail("replacing %s by %s fails: %v", wd, ws, err)
					}
					x.States(1)
					x.Transitions(1)
					vMust(os.RemoveAll(dir))
				})
				c.Case("copy "+a+" "+b, func(x *vCase) {
					dir := c21Dir()
					s, d := filepath.Join(dir, "s"), filepath.Join(dir, "d")
					mk(s, a, "s")
					mk(d, b, "d")
					ws := show(s)
					read := func(p string) string { // content, through links
						bs, err := os.ReadFile(p)
						if err != nil {
							return "unreadable"
						}
						return string(bs)
					}
					content := read(s)
					err := CopyFile(s, d)
					if show(s) != ws {
						x.Fail("copying changes the source from %s to %s", ws, show(s))
					}
					switch {
					case err == nil && a == "absent":
						x.Fail("copying nothing succeeds")
					case err == nil && strings.HasPrefix(ws, "link"):
						if show(d) != ws {
							x.Fail("%s is copied as %s", ws, show(d))
						}
					case err == nil:
						if read(d) != content {
							x.Fail("%s is copied as %s", ws, show(d))
						}
					case err != nil && b == "absent" && a != "absent" && a != "dir":
						x.Fail("copying %s to a new place fails: %v", ws, err)
					}
					x.States(1)
					x.Transitions(1)
					vMust(os.RemoveAll(dir))
				})
			}
			c.Case("exists "+a, func(x *vCase) {
				dir := c21Dir()
				p := filepath.Join(dir, "p")
				mk(p, a, "p")
				if got, want := FileExists(p), a != "absent" && a != "dangling"; got != want {
					x.Fail("%s: %v", a, got)
				}
				x.States(1)
				vMust(os.RemoveAll(dir))
			})
		}
		for _, a := range []string{"file", "readonly", "empty", "link", "dangling", "big"} {
			if !slices.Contains(kinds, a) {
				continue
			}
			c.Case("replace itself "+a, func(x *vCase) { // by every path of it, and by other links of it
				dir := c21Dir()
				p := filepath.Join(dir, "p")
				mk(p, a, "p")
				w := show(p)
				vMust(os.Symlink(".", filepath.Join(dir, "alias")))
				for _, q := range []string{p, dir + "/./p", dir + "//p", filepath.Join(dir, "alias", "p")} {
					for _, pq := range [][2]string{{p, q}, {q, p}} {
						_ = replaceFile(pq[0], pq[1])
						if show(p) != w {
							x.Fail("replacing a file (%s) by itself leaves %s", w, show(p))
						}
					}
				}
				o := filepath.Join(dir, "o")
				vMust(os.Mkdir(filepath.Join(dir, "sub"), 0o755))
				for _, o := range []string{o, filepath.Join(dir, "sub", "p")} {
					if err := os.Link(p, o); err != nil {
						continue
					}
					if err := replaceFile(o, p); err != nil || show(p) != w || show(o) != "absent" {
						x.Fail("replacing %s by another link of it: %v, leaves %s and %s", w, err, show(p), show(o))
					}
				}
				x.States(10)
				x.Transitions(10)
				vMust(os.RemoveAll(dir))
			})
		}
	})
}

func vHash(b []byte) string {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%x", h)
}
