package lens

// C02: malformed monitor messages are rejected and never crash, hang or exhaust the monitor.
// All byte strings of a bounded space are fed to the real decoders and HTTP handlers; the verdict and the decoded
// message are compared with a reference decoder written from the protocol description.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime/metrics"
	"strings"
	"testing/iotest"
)

const (
	c02MaxFrames = 2048
	c02Depth     = 1000
)

type c02Ref struct {
	b     []byte
	p     int
	max   int
	odd   bool // an over-long varint or a similar spelling the client never produces: either verdict is fine
	depth int
}

var errC02 = errors.New("reject")

func (r *c02Ref) byte() byte {
	if r.p >= len(r.b) {
		panic(errC02)
	}
	r.p++
	return r.b[r.p-1]
}

func (r *c02Ref) bytes(n uint64) []byte {
	if n > uint64(len(r.b)-r.p) {
		panic(errC02)
	}
	r.p += int(n)
	return r.b[r.p-int(n) : r.p]
}

func (r *c02Ref) varint() uint64 {
	var v uint64
	for i := 0; ; i++ {
		b := r.byte()
		if i == 9 && b > 1 || i > 0 && b == 0 {
			r.odd = true
		}
		v |= uint64(b&0x7f) << (7 * i)
		if b < 0x80 {
			return v
		}
		if i == 9 {
			panic(errC02)
		}
	}
}

func (r *c02Ref) zig() int64 { v := r.varint(); return int64(v>>1) ^ -int64(v&1) }
func (r *c02Ref) i64() int64 { return int64(binary.LittleEndian.Uint64(r.bytes(8))) }
func (r *c02Ref) f64() float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(r.bytes(8)))
}
func (r *c02Ref) f32() float32 {
	return math.Float32frombits(binary.LittleEndian.Uint32(r.bytes(4)))
}
func (r *c02Ref) str() string { return string(r.bytes(r.varint())) }
func (r *c02Ref) count() int {
	n := r.varint()
	if n > uint64(r.max) {
		panic(errC02)
	}
	return int(n)
}
func (r *c02Ref) stack() []lensMonitorStackFrame {
	n := r.varint()
	if n > c02MaxFrames {
		panic(errC02)
	}
	if n == 0 {
		return nil
	}
	t := r.varint()
	if t > 2*n {
		panic(errC02)
	}
	tab := make([]string, t)
	for i := range tab {
		tab[i] = r.str()
	}
	fs := make([]lensMonitorStackFrame, n)
	for i := range fs {
		a := r.varint()
		if a >= t {
			panic(errC02)
		}
		b := r.varint()
		if b >= t {
			panic(errC02)
		}
		fs[i] = lensMonitorStackFrame{File: tab[a], Function: tab[b], Line: uint(r.varint())}
	}
	return fs
}

func (r *c02Ref) fields(n uint64) []LensMonitorField {
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > c02Depth {
		r.odd = true
	}
	fs := []LensMonitorField{}
	for i := uint64(0); i < n; i++ {
		f := LensMonitorField{Name: r.str(), Type: r.str()}
		f.Value, f.Children = r.value()
		fs = append(fs, f)
	}
	return fs
}

func c02Rep[T any](r *c02Ref, f func() T) []T {
	n := r.count()
	out := make([]T, n)
	for i := range out {
		out[i] = f()
	}
	return out
}

func (r *c02Ref) value() (any, []LensMonitorField) {
	switch tag := r.byte(); tag {
	case 0x00:
		return nil, nil
	case 0x01:
		b := r.byte()
		if b > 1 {
			r.odd = true
		}
		return b != 0, nil
	case 0x02:
		v := r.zig()
		if v != int64(int32(v)) {
			r.odd = true
		}
		return int32(v), nil
	case 0x03:
		return r.zig(), nil
	case 0x04:
		v := r.varint()
		if v > math.MaxUint32 {
			r.odd = true
		}
		return uint32(v), nil
	case 0x05:
		return r.varint(), nil
	case 0x06:
		return r.f32(), nil
	case 0x07:
		return r.f64(), nil
	case 0x08:
		re := r.f64()
		return complex(re, r.f64()), nil
	case 0x09:
		return r.str(), nil
	case 0x20:
		n := r.count()
		out := make([]bool, n)
		for i := 0; i < n; i += 8 {
			b := r.byte()
			for j := 0; j < 8; j++ {
				if i+j < n {
					out[i+j] = b>>j&1 == 1
				} else if b>>j&1 == 1 {
					r.odd = true
				}
			}
		}
		return out, nil
	case 0x21:
		return append([]byte{}, r.bytes(uint64(r.count()))...), nil
	case 0x22:
		return c02Rep(r, func() int32 {
			v := r.zig()
			if v != int64(int32(v)) {
				r.odd = true
			}
			return int32(v)
		}), nil
	case 0x23:
		return c02Rep(r, r.zig), nil
	case 0x24:
		return c02Rep(r, func() uint32 {
			v := r.varint()
			if v > math.MaxUint32 {
				r.odd = true
			}
			return uint32(v)
		}), nil
	case 0x25:
		return c02Rep(r, r.varint), nil
	case 0x26:
		return c02Rep(r, r.f32), nil
	case 0x27:
		return c02Rep(r, r.f64), nil
	case 0x28:
		return c02Rep(r, r.str), nil
	case 0x40, 0x42:
		return nil, r.fields(uint64(r.count()))
	case 0x41:
		return nil, r.fields(r.varint())
	default:
		panic(errC02)
	}
}

// kinds: 0 point, 1 state, 2 panic, 3 error
func c02Reference(kind int, b []byte, maxLen int) (msg any, ok, odd bool, used int) {
	r := &c02Ref{b: b, max: maxLen}
	defer func() {
		used = r.p
		odd = r.odd
		if e := recover(); e != nil {
			if e != errC02 {
				panic(e)
			}
			ok = false
		}
	}()
	id := func() uint32 {
		v := r.varint()
		if v > math.MaxUint32 {
			r.odd = true
		}
		return uint32(v)
	}
	switch kind {
	case 0:
		m := LensMonitorMessagePoint{PointID: id()}
		m.TimeNS = r.i64()
		m.Stack = r.stack()
		msg = m
	case 1:
		m := LensMonitorMessagePointState{PointID: id()}
		m.TimeNS = r.i64()
		m.Stack = r.stack()
		m.Fields = r.fields(r.varint())
		msg = m
	case 2:
		m := LensMonitorMessagePointPanic{PointID: id()}
		m.TimeNS = r.i64()
		m.Message = r.str()
		msg = m
	case 3:
		m := LensMonitorMessageError{PointID: id()}
		m.Message = r.str()
		m.Stack = r.stack()
		msg = m
	}
	return msg, true, r.odd, r.p
}

func c02Decode(kind int, rd io.Reader, maxLen int) (any, error) {
	lr := newLensReader(rd, maxLen)
	switch kind {
	case 0:
		return c02Any(lr.decodeMessagePoint())
	case 1:
		return c02Any(lr.decodeMessagePointState())
	case 2:
		return c02Any(lr.decodeMessagePointPanic())
	default:
		return c02Any(lr.decodeMessageError())
	}
}

func c02Any[T any](m T, err error) (any, error) { return m, err }

var c02Metric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func c02Allocs() uint64 { metrics.Read(c02Metric); return c02Metric[0].Value.Uint64() }

func c02Str(m any) string { // NaN-proof, nil-vs-empty-proof rendering
	return fmt.Sprintf("%#v", m)
}

func c02Equal(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	norm := func(s string) string {
		s = strings.ReplaceAll(s, "[]lens.LensMonitorField(nil)", "[]lens.LensMonitorField{}")
		return strings.ReplaceAll(s, "[]lens.lensMonitorStackFrame(nil)", "[]lens.lensMonitorStackFrame{}")
	}
	return norm(c02Str(a)) == norm(c02Str(b))
}

func c02Check(x *vCase, kind int, b []byte, maxLen int, alloc bool) {
	want, ok, odd, _ := c02Reference(kind, b, maxLen)
	var before uint64
	if alloc {
		before = c02Allocs()
	}
	got, err := c02Decode(kind, bytes.NewReader(b), maxLen)
	if alloc {
		if d := c02Allocs() - before; d > 2<<20+4000*uint64(len(b))+32*uint64(maxLen) {
			x.Fail("kind %d: decoding %d bytes allocated %d bytes: % x", kind, len(b), d, b[:min(len(b), 60)])
			return
		}
	}
	switch {
	case err == nil && !ok && !odd:
		x.Fail("kind %d: malformed message accepted: % x -> %.300v", kind, b[:min(len(b), 100)], got)
	case err != nil && ok && !odd:
		x.Fail("kind %d: well-formed message rejected (%v): % x", kind, err, b[:min(len(b), 100)])
	case err == nil && ok && !odd && !c02Equal(got, want):
		x.Fail("kind %d: % x decoded as %.400s, want %.400s", kind, b[:min(len(b), 100)], c02Str(got), c02Str(want))
	}
}

type c02Handler struct{ got []any }

func (h *c02Handler) HandleFuncPoint(m LensMonitorMessagePoint)           { h.got = append(h.got, m) }
func (h *c02Handler) HandleFuncPointState(m LensMonitorMessagePointState) { h.got = append(h.got, m) }
func (h *c02Handler) HandleFuncPointPanic(m LensMonitorMessagePointPanic) { h.got = append(h.got, m) }

var c02Hdr = []byte{1, 0, 0, 0, 0, 0, 0, 0, 0} // id 1, time 0

func c02Valid() map[string][]byte {
	enc := func(snaps ...any) []byte {
		var b bytes.Buffer
		var s []lensMonitorFieldSnapshot
		for i, v := range snaps {
			s = append(s, lensMonitorFieldSnapshot{Name: fmt.Sprint("v", i), Val: v})
		}
		lensEncodeMessagePointState(&b, 300, 12345, []lensMonitorStackFrame{{File: "f", Function: "g", Line: 200}, {File: "f", Function: "h", Line: 1}}, s)
		return b.Bytes()
	}
	st := []lensMonitorStackFrame{{File: "f", Function: "g", Line: 200}, {File: "g", Function: "h", Line: 1}, {File: "f", Function: "g", Line: 2}}
	m := map[string][]byte{
		"1-prims":  enc(true, int32(-70), int64(-9e15), uint16(7), uint64(1<<60), float32(1.5), 2.5, complex(1, 2), "str", nil),
		"1-slices": enc([]bool{true, false, true}, []byte{0xff, 1}, []int16{-1, 200}, []int{-1, 1 << 40}, []uint32{1, 1 << 30}, []uint64{5}, []float32{1}, []float64{2}, []string{"a", ""}),
		"1-conts":  enc(map[string]int{"k": 3}, struct{ A, B any }{1, []any{"x", nil}}, [][]int{{1}, nil}),
		"1-empty":  enc(),
	}
	var b bytes.Buffer
	lensEncodeMessagePoint(&b, 300, -1, st)
	m["0-point"] = append([]byte(nil), b.Bytes()...)
	b.Reset()
	lensEncodeMessagePointPanic(&b, 300, -1, "message")
	m["2-panic"] = append([]byte(nil), b.Bytes()...)
	b.Reset()
	lensEncodeMessageError(&b, 300, errors.New("message"), st)
	m["3-error"] = append([]byte(nil), b.Bytes()...)
	return m
}

var c02Names = []string{"0-point", "1-conts", "1-empty", "1-prims", "1-slices", "2-panic", "3-error"}

func c02Varint(v uint64) []byte { return binary.AppendUvarint(nil, v) }

func init() {
	alpha := []byte{0x00, 0x01, 0x02, 0x09, 0x21, 0x22, 0x40, 0x41, 0x42, 0x7f, 0x80, 0xff}
	// all strings over the alphabet after a given header, one case per 3-symbol stem
	strs := func(c *vCtx, name string, kind int, header []byte, maxLen int, depth int) {
		var rec func(x *vCase, buf []byte, left int)
		rec = func(x *vCase, buf []byte, left int) {
			c02Check(x, kind, buf, maxLen, false)
			x.States(1)
			if left == 0 || x.failed {
				return
			}
			for _, a := range alpha {
				rec(x, append(buf, a), left-1)
			}
		}
		for _, a := range alpha {
			for _, b := range alpha {
				id := fmt.Sprintf("%s-%02x%02x", name, a, b)
				c.Case(id, func(x *vCase) {
					buf := make([]byte, 0, len(header)+depth+2)
					buf = append(append(buf, header...), a, b)
					c02Check(x, kind, buf[:len(header)+1], maxLen, true)
					rec(x, buf, depth-2)
				})
			}
		}
	}
	vRegister("strings", func(c *vCtx) {
		d := 0
		if c.Thorough() {
			d = 1
		}
		for kind := 0; kind < 4; kind++ {
			strs(c, fmt.Sprintf("raw%d", kind), kind, nil, 3, 4)
			strs(c, fmt.Sprintf("after-header%d", kind), kind, c02Hdr, 3, 5)
		}
		strs(c, "fields", 1, append(append([]byte{}, c02Hdr...), 0), 3, 5+d)
		strs(c, "value", 1, append(append([]byte{}, c02Hdr...), 0, 1, 0, 0), 3, 5+d)
		strs(c, "second-value", 1, append(append([]byte{}, c02Hdr...), 0, 2, 0, 0, 0x40, 1, 0, 0), 2, 5+d)
		strs(c, "struct-child", 1, append(append([]byte{}, c02Hdr...), 0, 1, 0, 0, 0x41, 2, 1, 'n', 0), 2, 5+d)
		strs(c, "stack", 0, append(append([]byte{}, c02Hdr...), 2, 3, 1, 'f', 1, 'g'), 2, 5+d)
	})
	// every tag x every claimed count x little or no data
	vRegister("counts", func(c *vCtx) {
		counts := []uint64{0, 1, 2, 3, 4, 7, 8, 9, 127, 128, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 1 << 16, 1 << 20, 1<<20 + 1, 1 << 24, 1 << 26,
			1 << 28, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1 << 47, 1 << 57, 1 << 62, 1<<63 - 1, 1 << 63, math.MaxUint64}
		fills := []int{0, 1, 2, 40}
		for tag := 0; tag < 256; tag++ {
			for _, n := range counts {
				for _, maxLen := range []int{3, 1024, 1 << 20} {
					c.Case(fmt.Sprintf("tag%02x-%d-max%d", tag, n, maxLen), func(x *vCase) {
						for _, fl := range fills {
							b := append(append([]byte{}, c02Hdr...), 0, 1, 0, 0, byte(tag))
							b = append(append(b, c02Varint(n)...), bytes.Repeat([]byte{1}, fl)...)
							c02Check(x, 1, b, maxLen, true)
						}
					})
				}
			}
		}
		for _, n := range counts {
			for _, fl := range fills {
				for kind := 0; kind < 4; kind++ {
					c.Case(fmt.Sprintf("len-%d-%d-fill%d", kind, n, fl), func(x *vCase) {
						fill := bytes.Repeat([]byte{1}, fl)
						// the count right after the header: frames, message length
						b := append([]byte{}, c02Hdr...)
						if kind == 3 {
							b = b[:1]
						}
						c02Check(x, kind, append(append(b, c02Varint(n)...), fill...), 1024, true)
						if kind == 1 { // number of fields, name length, type length, string length
							for _, mid := range [][]byte{{0}, {0, 1}, {0, 1, 0}, {0, 1, 0, 0, 9}, {0, 1, 0, 0, 0x28, 1}} {
								c02Check(x, kind, append(append(append(append([]byte{}, c02Hdr...), mid...), c02Varint(n)...), fill...), 1024, true)
							}
						}
						if kind == 0 || kind == 1 || kind == 3 { // table size, string length, indices, line
							h := append([]byte{}, c02Hdr...)
							if kind == 3 {
								h = []byte{1, 0}
							}
							for _, mid := range [][]byte{{2}, {2, 1}, {2, 1, 0}, {2, 1, 0, 0}, {2, 1, 0, 0, 0}, {2, 2, 0, 0, 0, 1, 5}} {
								c02Check(x, kind, append(append(append(append([]byte{}, h...), mid...), c02Varint(n)...), fill...), 1024, true)
							}
						}
						// id
						c02Check(x, kind, append(c02Varint(n), fill...), 1024, true)
					})
				}
			}
		}
	})
	// nesting far beyond what the client sends
	vRegister("nesting", func(c *vCtx) {
		for _, tag := range []byte{0x40, 0x41, 0x42} {
			for _, n := range []int{10, 100, 101, 1000, 10000, 100000, 4000000} {
				for _, cnt := range []uint64{1, 3, 1000, 1 << 20} {
					if n == 4000000 && cnt != 1 {
						continue
					}
					c.Case(fmt.Sprintf("tag%02x-depth%d-count%d", tag, n, cnt), func(x *vCase) {
						b := append(append([]byte{}, c02Hdr...), 0, 1)
						for i := 0; i < n; i++ {
							b = append(b, 0, 0, tag)
							b = append(b, c02Varint(cnt)...)
						}
						before := c02Allocs()
						_, err := c02Decode(1, bytes.NewReader(b), 1<<20)
						if err == nil {
							x.Fail("truncated nested message accepted")
						}
						if d := c02Allocs() - before; d > 8<<20+4000*uint64(len(b)) {
							x.Fail("decoding %d bytes allocated %d bytes", len(b), d)
						}
					})
				}
			}
		}
	})
	// valid messages, every byte replaced by every other value; every prefix; trailing bytes; short reads; read errors
	vRegister("corrupt", func(c *vCtx) {
		valid := c02Valid()
		for _, name := range c02Names {
			raw := valid[name]
			kind := int(name[0] - '0')
			for pos := range raw {
				c.Case(fmt.Sprintf("%s-byte%d", name, pos), func(x *vCase) {
					b := append([]byte(nil), raw...)
					for v := 0; v < 256; v++ {
						b[pos] = byte(v)
						c02Check(x, kind, b, 1024, true)
						x.States(1)
						c02Check(x, kind, b, 2, false)
					}
				})
				c.Case(fmt.Sprintf("%s-delete%d", name, pos), func(x *vCase) {
					b := append(append([]byte(nil), raw[:pos]...), raw[pos+1:]...)
					c02Check(x, kind, b, 1024, true)
					for k := 0; k < 4; k++ {
						c02Check(x, k, raw[pos:], 1024, true)
					}
				})
				if c.Thorough() {
					for p2 := pos + 1; p2 < len(raw); p2++ {
						c.Case(fmt.Sprintf("%s-bytes%d,%d", name, pos, p2), func(x *vCase) {
							b := append([]byte(nil), raw...)
							for _, v := range alpha {
								for _, w := range alpha {
									b[pos], b[p2] = v, w
									c02Check(x, kind, b, 1024, false)
								}
							}
						})
					}
				}
			}
			for pos := 0; pos <= len(raw); pos++ {
				c.Case(fmt.Sprintf("%s-cut%d", name, pos), func(x *vCase) {
					c02Check(x, kind, raw[:pos], 1024, true)
					if _, err := c02Decode(kind, bytes.NewReader(raw[:pos]), 1024); (err == nil) != (pos == len(raw)) {
						x.Fail("cut at %d of %d: err %v", pos, len(raw), err)
					}
					boom := errors.New("boom")
					if _, err := c02Decode(kind, io.MultiReader(bytes.NewReader(raw[:pos]), iotest.ErrReader(boom)), 1024); pos < len(raw) && err == nil {
						x.Fail("read error at %d ignored", pos)
					}
					for name, rd := range map[string]io.Reader{"one": iotest.OneByteReader(bytes.NewReader(raw[:pos])), "half": iotest.HalfReader(bytes.NewReader(raw[:pos])), "dataerr": iotest.DataErrReader(bytes.NewReader(raw[:pos]))} {
						m1, e1 := c02Decode(kind, bytes.NewReader(raw[:pos]), 1024)
						m2, e2 := c02Decode(kind, rd, 1024)
						if (e1 == nil) != (e2 == nil) || (e1 == nil && !c02Equal(m1, m2)) {
							x.Fail("%s reads: %v/%v vs %v/%v", name, m1, e1, m2, e2)
						}
					}
				})
			}
			c.Case(name+"-trailing", func(x *vCase) {
				m1, e1 := c02Decode(kind, bytes.NewReader(raw), 1024)
				if e1 != nil {
					x.Fail("%v", e1)
				}
				m2, e2 := c02Decode(kind, bytes.NewReader(append(append([]byte(nil), raw...), 1, 2, 3)), 1024)
				if e2 == nil && !c02Equal(m1, m2) {
					x.Fail("trailing bytes change the message")
				}
			})
		}
	})
	// HTTP handlers: verdict, number of callbacks, method
	vRegister("http", func(c *vCtx) {
		h := &c02Handler{}
		s := &astServer{maxFieldLen: 1024}
		var ph astPointHandler = h
		s.pointHandler.Store(&ph)
		handlers := []http.HandlerFunc{s.handlePoint, s.handlePointState, s.handlePointPanic, s.handleEventError}
		paths := []string{lensMonitorEndpointPathPoint, lensMonitorEndpointPathState, lensMonitorEndpointPathPanic, lensMonitorEndpointPathError}
		post := func(x *vCase, kind int, b []byte) {
			want, ok, odd, _ := c02Reference(kind, b, 1024)
			h.got = nil
			w := httptest.NewRecorder()
			handlers[kind](w, httptest.NewRequest(http.MethodPost, paths[kind], bytes.NewReader(b)))
			if odd {
				ok = w.Code == http.StatusOK
			}
			if ok {
				if w.Code != http.StatusOK {
					x.Fail("kind %d: status %d for a valid message % x", kind, w.Code, b)
				}
				wantN := 1
				if kind == 3 {
					wantN = 0
				}
				if len(h.got) != wantN {
					x.Fail("kind %d: %d callbacks, want %d", kind, len(h.got), wantN)
				} else if wantN == 1 && !odd && !c02Equal(h.got[0], want) {
					x.Fail("kind %d: delivered %v, want %v", kind, h.got[0], want)
				}
			} else {
				if w.Code < 400 || w.Code >= 500 {
					x.Fail("kind %d: status %d for malformed % x", kind, w.Code, b)
				}
				if len(h.got) != 0 {
					x.Fail("kind %d: malformed message delivered: %v (% x)", kind, h.got, b)
				}
			}
		}
		valid := c02Valid()
		for _, name := range c02Names {
			raw := valid[name]
			for kind := 0; kind < 4; kind++ {
				for pos := 0; pos <= len(raw); pos++ {
					c.Case(fmt.Sprintf("%s-to%d-cut%d", name, kind, pos), func(x *vCase) {
						post(x, kind, raw[:pos])
						if pos < len(raw) {
							b := append([]byte(nil), raw...)
							for _, v := range alpha {
								b[pos] = v
								post(x, kind, b)
							}
						}
					})
				}
			}
			for _, meth := range []string{"GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT"} {
				c.Case(name+"-"+meth, func(x *vCase) {
					kind := int(name[0] - '0')
					h.got = nil
					w := httptest.NewRecorder()
					handlers[kind](w, httptest.NewRequest(meth, paths[kind], bytes.NewReader(raw)))
					if w.Code < 400 || len(h.got) != 0 {
						x.Fail("%s: status %d, %d callbacks", meth, w.Code, len(h.got))
					}
				})
			}
		}
	})
}
