package lens

// C01, part "sent": messages go through the functions instrumented code calls, the real HTTP client and the real server.

import (
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"
)

type c01Recorder struct {
	mu   sync.Mutex
	msgs []any
}

func (r *c01Recorder) add(m any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.msgs = append(r.msgs, m)
}
func (r *c01Recorder) HandleFuncPoint(m LensMonitorMessagePoint)           { r.add(m) }
func (r *c01Recorder) HandleFuncPointState(m LensMonitorMessagePointState) { r.add(m) }
func (r *c01Recorder) HandleFuncPointPanic(m LensMonitorMessagePointPanic) { r.add(m) }

type c01Snd struct {
	kind  string // point, state, panic
	snaps []lensMonitorFieldSnapshot
	value any
}

//go:noinline
func c01SendPoint(id uint32) { sendLensPointMessage(id) }

//go:noinline
func c01SendState(id uint32, s ...lensMonitorFieldSnapshot) { sendLensPointStateMessage(id, s...) }

//go:noinline
func c01SendPanic(id uint32, v any) { sendLensPointRecoveryMessage(id, v) }

//go:noinline
func c01Deep(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	c01Deep(n-1, f)
}

type c01NilErr struct{}

func (*c01NilErr) Error() string { return "never" }

func init() {
	vRegister("sent", func(c *vCtx) {
		rec := &c01Recorder{}
		var srv *astServer
		for try := 0; ; try++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			port := l.Addr().(*net.TCPAddr).Port
			_ = l.Close()
			if srv, err = astExecServerStart("127.0.0.1", port, rec, c01MaxLen); err == nil {
				break
			} else if try > 20 {
				panic(err)
			}
		}
		defer func() { _ = srv.Stop(context.Background()) }()
		tr := http.DefaultTransport.(*http.Transport)
		old := tr.DialContext
		tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, network, fmt.Sprintf("127.0.0.1:%d", srv.Port()))
		}
		defer func() { tr.DialContext = old; tr.CloseIdleConnections() }()

		var snaps []lensMonitorFieldSnapshot
		for _, n := range []string{"a", "nil", "_", "", "ret0", "nilly"} {
			for _, v := range []any{nil, error(nil), 0, "", (*c01NilErr)(nil), []int(nil), map[string]int{}, struct{ X any }{}, "nil", uint64(1 << 63)} {
				snaps = append(snaps, lensMonitorFieldSnapshot{Name: n, Val: v})
			}
		}
		panics := []any{"p", "", errors.New("e"), 5, (*c01NilErr)(nil), struct{ A int }{1}, strings.Repeat("long", 5000), []any{nil, "x"}, "\xff\x00"}
		var prog [][]c01Snd
		for _, a := range snaps {
			prog = append(prog, []c01Snd{{kind: "state", snaps: []lensMonitorFieldSnapshot{a}}})
			for _, b := range snaps {
				prog = append(prog, []c01Snd{{kind: "state", snaps: []lensMonitorFieldSnapshot{a, b}}})
			}
		}
		acts := []c01Snd{{kind: "point"}, {kind: "state"}, {kind: "state", snaps: snaps[:1]}, {kind: "state", snaps: snaps[2:9]}, {kind: "panic", value: nil}}
		for _, p := range panics {
			acts = append(acts, c01Snd{kind: "panic", value: p})
		}
		for _, a := range acts {
			prog = append(prog, []c01Snd{a})
			for _, b := range acts {
				prog = append(prog, []c01Snd{a, b})
				if c.Thorough() {
					for _, d := range acts {
						prog = append(prog, []c01Snd{a, b, d})
					}
				}
			}
		}
		run := func(x *vCase, p []c01Snd, deep int) {
			rec.mu.Lock()
			rec.msgs = nil
			rec.mu.Unlock()
			var want []c01Snd
			var ids []uint32
			for i, s := range p {
				id := uint32(100 + 300*i)
				c01Deep(deep, func() {
					switch s.kind {
					case "point":
						c01SendPoint(id)
					case "state":
						c01SendState(id, s.snaps...)
					default:
						c01SendPanic(id, s.value)
					}
				})
				if s.kind == "panic" && s.value == nil {
					continue // nothing was recovered
				}
				want, ids = append(want, s), append(ids, id)
			}
			rec.mu.Lock()
			got := rec.msgs
			rec.mu.Unlock()
			if len(got) != len(want) {
				x.Fail("%d messages sent, %d arrived: %v", len(want), len(got), got)
				return
			}
			last := int64(-1)
			for i, w := range want {
				var id uint32
				var at int64
				var st []lensMonitorStackFrame
				fn := ""
				switch m := got[i].(type) {
				case LensMonitorMessagePoint:
					id, at, st, fn = m.PointID, m.TimeNS, m.Stack, "c01SendPoint"
					if w.kind != "point" {
						x.Fail("message %d is %+v, sent was a %s", i, m, w.kind)
					}
				case LensMonitorMessagePointState:
					id, at, st, fn = m.PointID, m.TimeNS, m.Stack, "c01SendState"
					if w.kind != "state" {
						x.Fail("message %d is %+v, sent was a %s", i, m, w.kind)
						continue
					}
					var ref []*c01Ref
					for _, s := range w.snaps {
						if s.Name != "nil" { // the literal nil is not a variable
							ref = append(ref, c01Norm(s.Name, reflect.ValueOf(s.Val)))
						}
					}
					if len(ref) != len(m.Fields) {
						x.Fail("message %d has %d fields, %d were captured: %+v", i, len(m.Fields), len(ref), m.Fields)
						continue
					}
					for k := range ref {
						if d := c01Diff(m.Fields[k], ref[k]); d != "" {
							x.Fail("message %d field %d: %s", i, k, d)
						}
					}
				case LensMonitorMessagePointPanic:
					id, at = m.PointID, m.TimeNS
					if w.kind != "panic" || m.Message != fmt.Sprint(w.value) {
						x.Fail("message %d is %+v, sent was %s %v", i, m, w.kind, w.value)
					}
				}
				if id != ids[i] {
					x.Fail("message %d carries id %d, sent was %d", i, id, ids[i])
				}
				if at <= last || time.Duration(at) > time.Hour {
					x.Fail("message %d has time %d, the one before %d", i, at, last)
				}
				last = at
				if fn != "" {
					if len(st) == 0 || !strings.HasSuffix(st[0].Function, "."+fn) || !strings.HasSuffix(st[0].File, "c01_sent_test.go") || st[0].Line == 0 {
						x.Fail("message %d comes from %s, its stack begins with %+v", i, fn, st[:min(2, len(st))])
					}
					n := 0
					for _, f := range st {
						if strings.HasSuffix(f.Function, ".c01Deep") {
							n++
						}
					}
					if n < min(deep+1, 1900) || n > deep+1 {
						x.Fail("message %d shows %d calls of the %d on the stack", i, n, deep+1)
					}
				}
			}
			x.States(1)
			x.Traces(1)
			x.Transitions(len(want))
		}
		for i, p := range prog {
			c.Case(fmt.Sprintf("prog-%d", i), func(x *vCase) { run(x, p, 0) })
		}
		for _, n := range []int{1, 3, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 1023, 1024, 1900, 2040, 2048, 2100, 5000} {
			c.Case(fmt.Sprintf("deep-%d", n), func(x *vCase) {
				run(x, []c01Snd{{kind: "point"}, {kind: "state", snaps: snaps[2:4]}}, n)
			})
		}
	})

	// the order that picks the kept keys of a map, over the extreme values of every kind of key
	vRegister("key-extremes", func(c *vCtx) {
		sets := map[string][]any{
			"uint64":  {uint64(0), uint64(1), uint64(1<<31 - 1), uint64(1 << 31), uint64(1 << 32), uint64(1<<63 - 1), uint64(1 << 63), uint64(1<<64 - 1)},
			"uint":    {uint(0), uint(1), uint(1<<63 - 1), uint(1 << 63), uint(1<<64 - 1)},
			"uintptr": {uintptr(0), uintptr(1 << 63), uintptr(1<<63 - 1)},
			"uint32":  {uint32(0), uint32(1<<31 - 1), uint32(1 << 31), uint32(1<<32 - 1)},
			"uint8":   {uint8(0), uint8(127), uint8(128), uint8(255)},
			"int64":   {int64(-1 << 63), int64(-1 << 32), int64(-1), int64(0), int64(1), int64(1<<63 - 1)},
			"int":     {int(-1 << 63), int(-1), int(0), int(1), int(1<<63 - 1)},
			"int32":   {int32(-1 << 31), int32(-1), int32(0), int32(1<<31 - 1)},
			"int8":    {int8(-128), int8(-1), int8(0), int8(127)},
			"float64": {-1e308, -1.5, -5e-324, 0.0, 5e-324, 0.5, 1.5, 1e308},
			"float32": {float32(-1e38), float32(-0.5), float32(0), float32(1e-45), float32(1e38)},
			"string":  {"", "\x00", "A", "a", "aa", "b", "é", "\xff"},
			"bool":    {false, true},
			"complex": {complex(0, 0), complex(0, 1), complex(0, -1), complex(1, -1), complex(-1, 5), complex(-1, -5)},
		}
		for _, name := range []string{"uint64", "uint", "uintptr", "uint32", "uint8", "int64", "int", "int32", "int8", "float64", "float32", "string", "bool", "complex"} {
			ks := sets[name]
			c.Case("order-"+name, func(x *vCase) {
				for i, a := range ks {
					for j, b := range ks {
						va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
						want := 0
						if c01Less(va, vb) {
							want = -1
						} else if c01Less(vb, va) {
							want = 1
						}
						if got := lensCompareReflectValue(va, vb); (got < 0) != (want < 0) || (got > 0) != (want > 0) {
							x.Fail("keys %v and %v (%d,%d) compare as %d, want %d", a, b, i, j, got, want)
						}
						x.Transitions(1)
					}
				}
				x.States(len(ks))
			})
			// a map that has to be cut right between two of the extreme keys
			for cut := 1; cut < len(ks); cut++ {
				if name == "bool" || name == "uint8" || name == "int8" {
					continue
				}
				c.Case(fmt.Sprintf("cut-%s-%d", name, cut), func(x *vCase) {
					t := reflect.TypeOf(ks[0])
					m := reflect.MakeMap(reflect.MapOf(t, reflect.TypeOf(0)))
					for i, k := range ks {
						m.SetMapIndex(reflect.ValueOf(k), reflect.ValueOf(i))
					}
					// fill with keys next to the smallest until the limit falls inside
					for i := 1; m.Len() < c01MaxLen+cut; i++ {
						k := reflect.New(t).Elem()
						switch t.Kind() {
						case reflect.String:
							k.SetString(fmt.Sprintf("B%05d", i))
						case reflect.Float32, reflect.Float64:
							k.SetFloat(1 + float64(i))
						case reflect.Complex128:
							k.SetComplex(complex(0.5, float64(i)))
						case reflect.Int, reflect.Int64, reflect.Int32:
							k.SetInt(int64(i) + 1)
						default:
							k.SetUint(uint64(i) + 1)
						}
						m.SetMapIndex(k, reflect.ValueOf(-i))
					}
					c01CheckValue(x, c01Of("m", m.Interface()), false)
					x.States(1)
				})
			}
		}
	})
}
