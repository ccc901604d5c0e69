package lens

// C01: what an instrumented program reports is what the monitor receives.
// Every value of a bounded grammar of Go values is encoded with the real client encoder and decoded with the
// real server decoder; the decoded tree must equal an independently computed normal form.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
	"unsafe"
)

const (
	c01MaxDepth = 100
	c01MaxLen   = 1024
)

type c01Named int
type c01NamedStr string
type c01Iface interface{ M() }
type c01Impl struct{ V int }

func (c01Impl) M() {}

type c01Err struct{ msg string }

func (e *c01Err) Error() string { return e.msg }

type c01Gen struct {
	id string
	mk func() reflect.Value // a fresh value on every call
}

func c01Of(id string, v any) c01Gen { return c01Gen{id, func() reflect.Value { return reflect.ValueOf(v) }} }

func c01CutString(s string) string {
	if len(s) > c01MaxLen {
		return s[:c01MaxLen] + "…(" + strconv.Itoa(len(s)-c01MaxLen) + " more)"
	}
	return s
}

// c01F is a node of the reference tree. stops lists the references passed on the way to it.
type c01F struct {
	Name, Type string
	Value      any
	Kids       []*c01F
	full       string
	stops      []c01Stop
	isMap      bool
}

type c01Stop struct {
	typ  string
	addr uintptr
}

type c01Ref struct {
	root   *c01F
	visits map[uintptr][]string // every path at which an address is met
}

func c01Norm(name string, v reflect.Value) *c01Ref {
	r := &c01Ref{visits: map[uintptr][]string{}}
	r.root = r.norm(name, v, 0, map[uintptr]string{}, "")
	return r
}

// norm computes the tree a reader of the report should see for v. A reference back to an enclosing value must be
// cut with a marker naming that value's path; one to a value merely seen elsewhere may be expanded or cut.
func (r *c01Ref) norm(name string, v reflect.Value, depth int, outer map[uintptr]string, path string) *c01F {
	full := name
	if path != "" {
		full = path + "." + name
	}
	f := &c01F{Name: name, full: full}
	above := make(map[uintptr]string, len(outer)+1)
	for k, p := range outer {
		above[k] = p
	}
	stop := func(v reflect.Value) bool {
		if p, ok := above[v.Pointer()]; ok {
			f.Type = v.Type().String()
			f.Value = "<cycle:" + p + ">"
			return true
		}
		above[v.Pointer()] = full
		f.stops = append(f.stops, c01Stop{v.Type().String(), v.Pointer()})
		r.visits[v.Pointer()] = append(r.visits[v.Pointer()], full)
		return false
	}
	// strip pointers and interfaces
	for v.IsValid() && (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			f.Type = v.Type().String()
			return f
		}
		if v.Kind() == reflect.Pointer && stop(v) {
			return f
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		f.Type = "invalid"
		return f
	}
	f.Type = v.Type().String()
	if depth >= c01MaxDepth {
		f.Value = "<max-depth>"
		return f
	}
	switch v.Kind() {
	case reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
		if v.IsNil() {
			return f
		}
		if !(v.Kind() == reflect.Slice && v.Len() == 0) && stop(v) {
			return f
		}
	}
	n := 0
	if v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
		n = min(v.Len(), c01MaxLen)
	}
	switch v.Kind() {
	case reflect.Bool:
		f.Value = v.Bool()
	case reflect.Int8, reflect.Int16, reflect.Int32:
		f.Value = int32(v.Int())
	case reflect.Int, reflect.Int64:
		f.Value = v.Int()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		f.Value = uint32(v.Uint())
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		f.Value = v.Uint()
	case reflect.Float32:
		f.Value = float32(v.Float())
	case reflect.Float64:
		f.Value = v.Float()
	case reflect.Complex64, reflect.Complex128:
		f.Value = v.Complex()
	case reflect.String:
		f.Value = c01CutString(v.String())
	case reflect.Func:
		f.Value = "<func>"
	case reflect.Chan:
		f.Value = "<chan>"
	case reflect.UnsafePointer:
		f.Value = c01CutString(fmt.Sprint(v.Interface()))
	case reflect.Slice, reflect.Array:
		switch v.Type().Elem().Kind() {
		case reflect.Bool:
			s := make([]bool, n)
			for i := range s {
				s[i] = v.Index(i).Bool()
			}
			f.Value = s
		case reflect.Int8, reflect.Int16, reflect.Int32:
			s := make([]int32, n)
			for i := range s {
				s[i] = int32(v.Index(i).Int())
			}
			f.Value = s
		case reflect.Int, reflect.Int64:
			s := make([]int64, n)
			for i := range s {
				s[i] = v.Index(i).Int()
			}
			f.Value = s
		case reflect.Uint8:
			s := make([]byte, n)
			for i := range s {
				s[i] = byte(v.Index(i).Uint())
			}
			if utf8.Valid(s) {
				f.Value = string(s)
			} else {
				f.Value = s
			}
		case reflect.Uint16, reflect.Uint32:
			s := make([]uint32, n)
			for i := range s {
				s[i] = uint32(v.Index(i).Uint())
			}
			f.Value = s
		case reflect.Uint, reflect.Uint64, reflect.Uintptr:
			s := make([]uint64, n)
			for i := range s {
				s[i] = v.Index(i).Uint()
			}
			f.Value = s
		case reflect.Float32:
			s := make([]float32, n)
			for i := range s {
				s[i] = float32(v.Index(i).Float())
			}
			f.Value = s
		case reflect.Float64:
			s := make([]float64, n)
			for i := range s {
				s[i] = v.Index(i).Float()
			}
			f.Value = s
		case reflect.String:
			s := make([]string, n)
			for i := range s {
				s[i] = c01CutString(v.Index(i).String())
			}
			f.Value = s
		default:
			
			for i := 0; i < n; i++ {
				f.Kids = append(f.Kids, r.norm("["+strconv.Itoa(i)+"]", v.Index(i), depth+1, above, full))
			}
		}
	case reflect.Map:
		f.isMap = true
		keys := v.MapKeys()
		if len(keys) > c01MaxLen {
			sort.SliceStable(keys, func(i, j int) bool { return c01Less(keys[i], keys[j]) })
			keys = keys[:c01MaxLen]
		}
		for _, k := range keys {
			f.Kids = append(f.Kids, r.norm(fmt.Sprint(k.Interface()), v.MapIndex(k), depth+1, above, full))
		}
	case reflect.Struct:
		if !v.CanAddr() {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			v = t
		}
		
		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			fv = reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
			f.Kids = append(f.Kids, r.norm(v.Type().Field(i).Name, fv, depth+1, above, full))
		}
	}
	return f
}

// c01Less orders keys of the kinds the large-map part uses.
func c01Less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Interface:
		return c01Less(a.Elem(), b.Elem())
	case reflect.String:
		return a.String() < b.String()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return real(x) < real(y) || (real(x) == real(y) && imag(x) < imag(y))
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c01Less(a.Index(i), b.Index(i)) {
				return true
			} else if c01Less(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c01Less(a.Field(i), b.Field(i)) {
				return true
			} else if c01Less(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	default:
		return a.Int() < b.Int()
	}
}

func c01EqVal(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32))
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64))
	case complex128:
		y := b.(complex128)
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	case []float32:
		y := b.([]float32)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if math.Float32bits(x[i]) != math.Float32bits(y[i]) {
				return false
			}
		}
		return true
	case []float64:
		y := b.([]float64)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if math.Float64bits(x[i]) != math.Float64bits(y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// c01Diff returns "" when the decoded field equals the reference. Map entries carry no order.
func c01Diff(got LensMonitorField, ref *c01Ref) string { return ref.diff(got, ref.root) }

func (r *c01Ref) diff(got LensMonitorField, want *c01F) string {
	p := want.full
	if got.Name != want.Name {
		return fmt.Sprintf("%s: name %q, want %q", p, got.Name, want.Name)
	}
	if s, ok := got.Value.(string); ok && strings.HasPrefix(s, "<cycle:") {
		for _, st := range want.stops {
			for _, at := range r.visits[st.addr] {
				if got.Type == st.typ && at != want.full && s == "<cycle:"+at+">" {
					return ""
				}
			}
		}
	}
	if got.Type != want.Type {
		return fmt.Sprintf("%s: type %q, want %q", p, got.Type, want.Type)
	}
	if !c01EqVal(got.Value, want.Value) {
		return fmt.Sprintf("%s (%s): value %T %.200v, want %T %.200v", p, want.Type, got.Value, got.Value, want.Value, want.Value)
	}
	if len(got.Children) != len(want.Kids) {
		return fmt.Sprintf("%s: %d children, want %d", p, len(got.Children), len(want.Kids))
	}
	g, w := got.Children, want.Kids
	if want.isMap {
		g, w = append([]LensMonitorField(nil), g...), append([]*c01F(nil), w...)
		sort.SliceStable(g, func(i, j int) bool { return g[i].Name < g[j].Name })
		sort.SliceStable(w, func(i, j int) bool { return w[i].Name < w[j].Name })
	}
	for i := range w {
		if d := r.diff(g[i], w[i]); d != "" {
			return d
		}
	}
	return ""
}

// c01Same compares two reference trees (value unchanged by encoding).
func c01Same(a, b *c01F) bool {
	if a.Name != b.Name || a.Type != b.Type || !c01EqVal(a.Value, b.Value) || len(a.Kids) != len(b.Kids) {
		return false
	}
	x, y := a.Kids, b.Kids
	if a.isMap {
		x, y = append([]*c01F(nil), x...), append([]*c01F(nil), y...)
		sort.SliceStable(x, func(i, j int) bool { return x[i].Name < x[j].Name })
		sort.SliceStable(y, func(i, j int) bool { return y[i].Name < y[j].Name })
	}
	for i := range x {
		if !c01Same(x[i], y[i]) {
			return false
		}
	}
	return true
}

func c01Atoms() []c01Gen {
	var gs []c01Gen
	add := func(v any) { gs = append(gs, c01Of(fmt.Sprintf("%T(%.40v)", v, v), v)) }
	add(true)
	add(false)
	for _, i := range []int64{0, 1, -1, 63, 64, -64, -65, 127, -128} {
		add(int8(i))
	}
	for _, i := range []int64{0, -1, 8191, 8192, -8192, -8193, math.MaxInt16, math.MinInt16} {
		add(int16(i))
	}
	for _, i := range []int64{0, -1, 64, 1 << 20, 1<<20 - 1, math.MaxInt32, math.MinInt32} {
		add(int32(i))
	}
	for s := uint(0); s < 64; s += 7 {
		add(int64(1) << s)
		add(int64(1)<<s - 1)
		add(-(int64(1) << s))
		add(-(int64(1) << s) - 1)
		add(uint64(1) << s)
		add(uint64(1)<<s - 1)
	}
	add(int64(math.MaxInt64))
	add(int64(math.MinInt64))
	add(uint64(math.MaxUint64))
	add(int(0))
	add(int(-1))
	add(math.MaxInt)
	add(math.MinInt)
	add(uint(math.MaxUint))
	add(uint(0))
	add(uintptr(math.MaxUint))
	add(uintptr(5))
	for _, u := range []uint64{0, 1, 127, 128, 255} {
		add(uint8(u))
	}
	for _, u := range []uint64{0, 16383, 16384, 65535} {
		add(uint16(u))
	}
	for _, u := range []uint64{0, 1 << 21, 1<<21 - 1, math.MaxUint32} {
		add(uint32(u))
	}
	for _, x := range []float64{0, math.Copysign(0, -1), 1.5, -2, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64} {
		add(x)
		if !math.IsNaN(x) {
			add(float32(x))
		}
	}
	add(complex(1, 2))
	add(complex64(complex(3, -4)))
	add(complex(math.NaN(), math.Inf(-1)))
	for _, s := range []string{"", "a", "nil", "\x00", "\xff\xfe", "héé", "\n\t", "…", "<func>", strings.Repeat("x", 127), strings.Repeat("x", 128)} {
		add(s)
	}
	add(c01Named(7))
	add(c01NamedStr("named"))
	add(c01Impl{3})
	gs = append(gs, c01Gen{"func", func() reflect.Value { return reflect.ValueOf(func() {}) }})
	gs = append(gs, c01Gen{"chan", func() reflect.Value { return reflect.ValueOf(make(chan int, 1)) }})
	gs = append(gs, c01Gen{"nilfunc", func() reflect.Value { return reflect.ValueOf((func())(nil)) }})
	gs = append(gs, c01Gen{"nilchan", func() reflect.Value { return reflect.ValueOf((chan string)(nil)) }})
	gs = append(gs, c01Of("unsafeptr", unsafe.Pointer(uintptr(0))))
	gs = append(gs, c01Gen{"errnew", func() reflect.Value { return reflect.ValueOf(errors.New("boom")) }})
	gs = append(gs, c01Gen{"errptr", func() reflect.Value { return reflect.ValueOf(&c01Err{"x"}) }})
	return gs
}

type c01Ctor struct {
	name string
	f    func(g c01Gen) c01Gen
}

const c01Pkg = "github.com/PatchLens/go-update-lens/lens"

func c01Ctors() []c01Ctor {
	anyT := reflect.TypeOf((*any)(nil)).Elem()
	mk := func(name string, f func(mk func() reflect.Value) reflect.Value) c01Ctor {
		return c01Ctor{name, func(g c01Gen) c01Gen {
			return c01Gen{name + "(" + g.id + ")", func() reflect.Value { return f(g.mk) }}
		}}
	}
	ptr := func(v reflect.Value) reflect.Value {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	return []c01Ctor{
		mk("ptr", func(m func() reflect.Value) reflect.Value { return ptr(m()) }),
		mk("ptrptr", func(m func() reflect.Value) reflect.Value { return ptr(ptr(m())) }),
		mk("nilptr", func(m func() reflect.Value) reflect.Value { return reflect.Zero(reflect.PointerTo(m().Type())) }),
		mk("slice0", func(m func() reflect.Value) reflect.Value { return reflect.MakeSlice(reflect.SliceOf(m().Type()), 0, 0) }),
		mk("slice1", func(m func() reflect.Value) reflect.Value {
			v := m()
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 4)
			s.Index(0).Set(v)
			return s
		}),
		mk("slice3", func(m func() reflect.Value) reflect.Value { // value, zero, value
			v := m()
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 3, 3)
			s.Index(0).Set(v)
			s.Index(2).Set(m())
			return s
		}),
		mk("nilslice", func(m func() reflect.Value) reflect.Value { return reflect.Zero(reflect.SliceOf(m().Type())) }),
		mk("array9", func(m func() reflect.Value) reflect.Value { // 9: crosses the packed-bool byte boundary
			v := m()
			a := reflect.New(reflect.ArrayOf(9, v.Type())).Elem()
			a.Index(0).Set(v)
			a.Index(8).Set(m())
			return a
		}),
		mk("array0", func(m func() reflect.Value) reflect.Value { return reflect.New(reflect.ArrayOf(0, m().Type())).Elem() }),
		mk("anyslice", func(m func() reflect.Value) reflect.Value {
			s := reflect.MakeSlice(reflect.SliceOf(anyT), 3, 3)
			s.Index(0).Set(m())
			s.Index(2).Set(ptr(m()))
			return s
		}),
		mk("mapstr", func(m func() reflect.Value) reflect.Value {
			v := m()
			mp := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
			mp.SetMapIndex(reflect.ValueOf("k"), v)
			mp.SetMapIndex(reflect.ValueOf(""), reflect.Zero(v.Type()))
			mp.SetMapIndex(reflect.ValueOf("k.x"), m())
			return mp
		}),
		mk("mapint", func(m func() reflect.Value) reflect.Value {
			v := m()
			mp := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(c01Named(0)), v.Type()))
			mp.SetMapIndex(reflect.ValueOf(c01Named(-3)), v)
			return mp
		}),
		mk("mapany", func(m func() reflect.Value) reflect.Value {
			mp := reflect.MakeMap(reflect.MapOf(anyT, anyT))
			mp.SetMapIndex(reflect.ValueOf(true), m())
			mp.SetMapIndex(reflect.ValueOf(2.5), reflect.ValueOf([]int{1}))
			return mp
		}),
		mk("nilmap", func(m func() reflect.Value) reflect.Value { return reflect.Zero(reflect.MapOf(reflect.TypeOf(""), m().Type())) }),
		mk("struct", func(m func() reflect.Value) reflect.Value { // exported, unexported, interface and pointer fields
			v := m()
			st := reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: v.Type()},
				{Name: "b", PkgPath: c01Pkg, Type: v.Type()},
				{Name: "c", PkgPath: c01Pkg, Type: anyT},
				{Name: "D", Type: reflect.PointerTo(v.Type())},
			})
			s := reflect.New(st).Elem()
			set := func(i int, x reflect.Value) {
				f := s.Field(i)
				reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(x)
			}
			set(0, v)
			set(1, m())
			set(2, m())
			set(3, ptr(m()))
			return reflect.ValueOf(s.Interface()) // not addressable
		}),
		mk("emptystruct", func(m func() reflect.Value) reflect.Value {
			st := reflect.StructOf([]reflect.StructField{{Name: "E", Type: reflect.TypeOf(struct{}{})}, {Name: "F", Type: m().Type()}})
			return reflect.New(st).Elem()
		}),
		mk("ptrany", func(m func() reflect.Value) reflect.Value { // *any
			p := reflect.New(anyT)
			p.Elem().Set(m())
			return p
		}),
	}
}

func c01Roundtrip(x *vCase, snaps []lensMonitorFieldSnapshot, want []*c01Ref) []byte {
	var buf bytes.Buffer
	stack := []lensMonitorStackFrame{{File: "/p/f.go", Function: "p.F", Line: 12}}
	lensEncodeMessagePointState(&buf, 77, -5, stack, snaps)
	raw := append([]byte(nil), buf.Bytes()...)
	r := bytes.NewReader(raw)
	msg, err := newLensReader(r, c01MaxLen).decodeMessagePointState()
	if err != nil {
		x.Fail("decode failed: %v", err)
		return raw
	}
	if r.Len() != 0 {
		x.Fail("%d undecoded bytes left", r.Len())
	}
	if msg.PointID != 77 || msg.TimeNS != -5 || !reflect.DeepEqual(msg.Stack, stack) {
		x.Fail("header %d %d %v", msg.PointID, msg.TimeNS, msg.Stack)
	}
	if len(msg.Fields) != len(want) {
		x.Fail("%d fields, want %d", len(msg.Fields), len(want))
		return raw
	}
	for i := range want {
		if d := c01Diff(msg.Fields[i], want[i]); d != "" {
			x.Fail("%s", d)
			return raw
		}
	}
	return raw
}

func c01CheckValue(x *vCase, g c01Gen, prefixes bool) {
	v := g.mk()
	val := v.Interface()
	want := c01Norm("f", reflect.ValueOf(val))
	two := c01Norm("second", reflect.ValueOf(val))
	raw := c01Roundtrip(x, []lensMonitorFieldSnapshot{{Name: "f", Val: val}, {Name: "second", Val: val}}, []*c01Ref{want, two})
	after := c01Norm("f", reflect.ValueOf(val))
	if !c01Same(after.root, want.root) {
		x.Fail("encoding changed the value")
	}
	if prefixes && !x.failed {
		for i := 0; i < len(raw); i++ {
			if _, err := newLensReader(bytes.NewReader(raw[:i]), c01MaxLen).decodeMessagePointState(); err == nil {
				x.Fail("a message cut after %d of %d bytes is accepted", i, len(raw))
				return
			}
		}
	}
}

func init() {
	vRegister("values", func(c *vCtx) {
		atoms, ctors := c01Atoms(), c01Ctors()
		for _, a := range atoms {
			c.Case(a.id, func(x *vCase) { c01CheckValue(x, a, true) })
		}
		c.Case("untyped-nil", func(x *vCase) {
			c01Roundtrip(x, []lensMonitorFieldSnapshot{{Name: "n", Val: nil}}, []*c01Ref{c01Norm("n", reflect.ValueOf(nil))})
		})
		var lvl1 []c01Gen
		for _, k := range ctors {
			for _, a := range atoms {
				g := k.f(a)
				lvl1 = append(lvl1, g)
				c.Case(g.id, func(x *vCase) { c01CheckValue(x, g, true) })
			}
		}
		for _, k := range ctors {
			for _, g1 := range lvl1 {
				g := k.f(g1)
				c.Case(g.id, func(x *vCase) { c01CheckValue(x, g, false) })
			}
		}
		// depth 3 (4 when thorough) over one representative atom per kind
		reps := map[reflect.Kind]c01Gen{}
		var order []reflect.Kind
		for _, a := range atoms {
			k := a.mk().Kind()
			if _, ok := reps[k]; !ok {
				order = append(order, k)
			}
			reps[k] = a
		}
		var rec func(g c01Gen, d int)
		maxD := 3
		if c.Thorough() {
			maxD = 4
		}
		rec = func(g c01Gen, d int) {
			if d >= 3 {
				c.Case(g.id, func(x *vCase) { c01CheckValue(x, g, false) })
			}
			if d == maxD || c.Stop() {
				return
			}
			for _, k := range ctors {
				rec(k.f(g), d+1)
			}
		}
		for _, k := range order {
			rec(reps[k], 0)
		}
	})

	// pointer graphs: every graph of up to 3 nodes with two out-edges each, for every kind of reference
	vRegister("graphs", func(c *vCtx) {
		type node struct {
			V int
			P *node
			I any
			M map[string]*node
			S []*node
			N **node
		}
		kinds := []string{"P", "I", "M", "S", "N"}
		maxN := 3
		for n := 1; n <= maxN; n++ {
			total := 1
			for i := 0; i < 2*n; i++ {
				total *= n + 1
			}
			for code := 0; code < total; code++ {
				for k1 := range kinds {
					for k2 := range kinds {
						if n == 3 && !c.Thorough() && (k1+k2+code)%3 != 0 && !(k1 == 0 && k2 == 1) {
							continue
						}
						build := func() *node {
							ns := make([]*node, n)
							for i := range ns {
								ns[i] = &node{V: i}
							}
							cd := code
							for i := 0; i < n; i++ {
								for e, kk := range []int{k1, k2} {
									to := cd % (n + 1)
									cd /= n + 1
									if to == n {
										continue
									}
									t := ns[to]
									switch kinds[kk] {
									case "P":
										ns[i].P = t
									case "I":
										ns[i].I = t
									case "M":
										if ns[i].M == nil {
											ns[i].M = map[string]*node{}
										}
										ns[i].M = map[string]*node{strconv.Itoa(e): t}
									case "S":
										ns[i].S = append(ns[i].S, t)
									case "N":
										ns[i].N = &t
									}
								}
							}
							return ns[0]
						}
						id := fmt.Sprintf("n%d-%d-%s%s", n, code, kinds[k1], kinds[k2])
						c.Case(id, func(x *vCase) {
							c01CheckValue(x, c01Of(id, build()), false)
						})
					}
				}
			}
		}
		// reference cycles that pass through pointers and interfaces only
		type P *P
		c.Case("self-pointer", func(x *vCase) {
			var p P
			p = &p
			c01Terminates(x, p)
		})
		c.Case("self-any", func(x *vCase) {
			var a any
			a = &a
			c01Terminates(x, a)
		})
		c.Case("self-any-pair", func(x *vCase) {
			var a, b any
			a, b = &b, &a
			c01Terminates(x, struct{ A, B any }{a, b})
		})
		c.Case("self-any-slice", func(x *vCase) {
			s := make([]any, 1)
			s[0] = s
			c01CheckValue(x, c01Of("", s), false)
		})
		c.Case("self-map", func(x *vCase) {
			m := map[string]any{}
			m["m"] = m
			c01CheckValue(x, c01Of("", m), false)
		})
	})

	// limits: lengths and depths on both sides of every cut
	vRegister("limits", func(c *vCtx) {
		lens := []int{0, 1, 7, 8, 9, 127, 128, c01MaxLen - 1, c01MaxLen, c01MaxLen + 1, c01MaxLen + 2, c01MaxLen + 1000, 70000}
		for _, n := range lens {
			mk := map[string]func() any{
				"string":  func() any { return strings.Repeat("s", n) },
				"mbyte":   func() any { return strings.Repeat("é", n) },
				"mbyte1":  func() any { return "x" + strings.Repeat("é", n) },
				"invalid": func() any { return strings.Repeat("\xff", n) },
				"bytes":   func() any { return bytes.Repeat([]byte("b"), n) },
				"bytesFF": func() any { return bytes.Repeat([]byte{0xff}, n) },
				"bytesé":  func() any { return []byte(strings.Repeat("é", n)) },
				"bools": func() any {
					s := make([]bool, n)
					for i := range s {
						s[i] = i%3 == 0
					}
					return s
				},
				"i8":   func() any { return c01Fill[int8](n) },
				"i16":  func() any { return c01Fill[int16](n) },
				"i32":  func() any { return c01Fill[int32](n) },
				"i64":  func() any { return c01Fill[int64](n) },
				"int":  func() any { return c01Fill[int](n) },
				"u16":  func() any { return c01Fill[uint16](n) },
				"u32":  func() any { return c01Fill[uint32](n) },
				"u64":  func() any { return c01Fill[uint64](n) },
				"uint": func() any { return c01Fill[uint](n) },
				"uptr": func() any { return c01Fill[uintptr](n) },
				"f32":  func() any { return c01Fill[float32](n) },
				"f64":  func() any { return c01Fill[float64](n) },
				"strs": func() any {
					s := make([]string, n)
					for i := range s {
						s[i] = strconv.Itoa(i)
					}
					return s
				},
				"longstrs": func() any { return []string{strings.Repeat("q", n), "z", strings.Repeat("q", n+1)} },
				"structs": func() any {
					s := make([]struct{ A int }, n)
					for i := range s {
						s[i].A = i
					}
					return s
				},
				"anys": func() any {
					s := make([]any, n)
					for i := range s {
						s[i] = i
					}
					return s
				},
				"cplx": func() any { return make([]complex128, n) },
			}
			var names []string
			for k := range mk {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				id := fmt.Sprintf("%s-%d", k, n)
				c.Case(id, func(x *vCase) { c01CheckValue(x, c01Of(id, mk[k]()), false) })
				c.Case("in-struct-"+id, func(x *vCase) {
					c01CheckValue(x, c01Of(id, struct {
						x any
						Y any
					}{mk[k](), mk[k]()}), false)
				})
			}
		}
		// arrays are as limited as slices
		c.Case("array-1025", func(x *vCase) { c01CheckValue(x, c01Of("", [1025]int{1024: 5, 1023: 4}), false) })
		c.Case("bytearray-1025", func(x *vCase) { c01CheckValue(x, c01Of("", [1025]byte{}), false) })
		c.Case("boolarray-1030", func(x *vCase) { c01CheckValue(x, c01Of("", [1030]bool{1023: true, 1024: true}), false) })
		// maps around the limit: the subset kept is the smallest keys, for every key kind
		for _, n := range []int{1, c01MaxLen - 1, c01MaxLen, c01MaxLen + 1, c01MaxLen + 37} {
			mks := map[string]func() any{
				"int":   func() any { return c01FillMap(n, func(i int) int { return (i*7919)%n - n/2 }) },
				"i16":   func() any { return c01FillMap(n, func(i int) int16 { return int16((i*31)%n - n/2) }) },
				"uint":  func() any { return c01FillMap(n, func(i int) uint { return uint((i * 7919) % n) }) },
				"str":   func() any { return c01FillMap(n, func(i int) string { return strconv.Itoa((i * 7919) % n) }) },
				"named": func() any { return c01FillMap(n, func(i int) c01NamedStr { return c01NamedStr(strconv.Itoa((i * 7919) % n)) }) },
				"f64":   func() any { return c01FillMap(n, func(i int) float64 { return float64((i*7919)%n)/2 - 100 }) },
				"cplx":  func() any { return c01FillMap(n, func(i int) complex128 { return complex(float64(i%5), float64(i)) }) },
				"arr":   func() any { return c01FillMap(n, func(i int) [2]int { return [2]int{i % 5, -i} }) },
				"strct": func() any {
					return c01FillMap(n, func(i int) struct {
						A int
						B string
					} {
						return struct {
							A int
							B string
						}{i % 7, strconv.Itoa(i)}
					})
				},
				// keys that only differ in one position, other positions equal
				"strct3a": func() any { return c01FillMap(n, func(i int) c01K3 { return c01K3{(i * 7919) % n, 5, -2} }) },
				"strct3b": func() any { return c01FillMap(n, func(i int) c01K3 { return c01K3{3, (i * 7919) % n, -2} }) },
				"strct3c": func() any { return c01FillMap(n, func(i int) c01K3 { return c01K3{3, 5, -((i * 7919) % n)} }) },
				"nestedkey": func() any {
					return c01FillMap(n, func(i int) c01KN {
						return c01KN{"s", i%2 == 0, 1.5, [3]uint8{1, 2, uint8(i % 251)}, c01K3{0, 0, -((i * 7919) % n)}}
					})
				},
				"arr4": func() any { return c01FillMap(n, func(i int) [4]int { return [4]int{1, 2, 3, (i*7919)%n - 7} }) },
				"f32":  func() any { return c01FillMap(n, func(i int) float32 { return float32((i*7919)%n) - 30 }) },
				"any": func() any { return c01FillMap(n, func(i int) any { return (i*7919)%n - 3 }) },
			}
			var names []string
			for k := range mks {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				if k == "i16" && n > 30000 {
					continue
				}
				id := fmt.Sprintf("map-%s-%d", k, n)
				c.Case(id, func(x *vCase) { c01CheckValue(x, c01Of(id, mks[k]()), false) })
			}
		}
		// every pair of small keys of every shape: the order that picks the kept keys is the natural one
		cmpKeys := func(id string, ks []reflect.Value) {
			c.Case("keyorder-"+id, func(x *vCase) {
				for i, a := range ks {
					for j, b := range ks {
						want := 0
						if c01Less(a, b) {
							want = -1
						} else if c01Less(b, a) {
							want = 1
						}
						got := lensCompareReflectValue(a, b)
						if (got < 0) != (want < 0) || (got > 0) != (want > 0) {
							x.Fail("keys %v and %v (%d,%d) compare as %d, want %d", a, b, i, j, got, want)
							return
						}
					}
				}
			})
		}
		var k3, kn, a3 []reflect.Value
		for i := 0; i < 27; i++ {
			k3 = append(k3, reflect.ValueOf(c01K3{i/9 - 1, i/3%3 - 1, i%3 - 1}))
			a3 = append(a3, reflect.ValueOf([3]string{string(rune('a' + i/9)), string(rune('a' + i/3%3)), strings.Repeat("b", i%3)}))
		}
		for i := 0; i < 64; i++ {
			kn = append(kn, reflect.ValueOf(c01KN{[]string{"", "x"}[i&1], i&2 != 0, float32(i >> 2 & 1), [3]uint8{1, 2, uint8(i >> 3 & 1)}, c01K3{0, i >> 4 & 1, i >> 5 & 1}}))
		}
		cmpKeys("struct3", k3)
		cmpKeys("array3", a3)
		cmpKeys("nested", kn)
		// nesting depth around the cut
		type link struct {
			V    int
			Next *link
		}
		for n := 1; n <= c01MaxDepth+6; n++ {
			c.Case(fmt.Sprintf("list-%d", n), func(x *vCase) {
				var l *link
				for i := 0; i < n; i++ {
					l = &link{i, l}
				}
				c01CheckValue(x, c01Of("", l), false)
			})
			c.Case(fmt.Sprintf("nested-any-%d", n), func(x *vCase) {
				var a any = "leaf"
				for i := 0; i < n; i++ {
					a = []any{a}
				}
				c01CheckValue(x, c01Of("", a), false)
			})
			c.Case(fmt.Sprintf("nested-map-%d", n), func(x *vCase) {
				var a any = 5
				for i := 0; i < n; i++ {
					a = map[string]any{"k": a}
				}
				c01CheckValue(x, c01Of("", a), false)
			})
		}
		// wide structs are never cut
		c.Case("wide-struct-1100", func(x *vCase) {
			fs := make([]reflect.StructField, 1100)
			for i := range fs {
				fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)}
			}
			v := reflect.New(reflect.StructOf(fs)).Elem()
			v.Field(1099).SetInt(9)
			c01CheckValue(x, c01Of("", v.Interface()), false)
		})
	})

	// message headers, stacks, panics and errors
	vRegister("messages", func(c *vCtx) {
		ids := []uint32{0, 1, 127, 128, 16383, 16384, 1 << 21, 1 << 28, math.MaxUint32 - 1, math.MaxUint32}
		times := []int64{0, 1, -1, 127, 1 << 32, math.MaxInt64, math.MinInt64}
		names := []string{"", "a", "/x/y_test.go", "p.(*T).M", strings.Repeat("f", 300)}
		lines := []uint{0, 1, 127, 128, math.MaxUint32, math.MaxUint}
		var stacks [][]lensMonitorStackFrame
		stacks = append(stacks, nil)
		for _, f := range names {
			for _, fn := range names {
				for _, l := range lines {
					stacks = append(stacks, []lensMonitorStackFrame{{File: f, Function: fn, Line: l}})
				}
			}
		}
		for _, a := range names {
			for _, b := range names {
				for _, cc := range names {
					for _, d := range names {
						stacks = append(stacks, []lensMonitorStackFrame{{File: a, Function: b, Line: 3}, {File: cc, Function: d, Line: 3}})
					}
				}
			}
		}
		sub := names[1:4]
		for code := 0; code < 729; code++ {
			var st []lensMonitorStackFrame
			cd := code
			for i := 0; i < 3; i++ {
				st = append(st, lensMonitorStackFrame{File: sub[cd%3], Function: sub[cd/3%3], Line: uint(i)})
				cd /= 9
			}
			stacks = append(stacks, st)
		}
		for _, n := range []int{126, 127, 128, 2047, 2048} {
			same := make([]lensMonitorStackFrame, n)
			diff := make([]lensMonitorStackFrame, n)
			for i := range same {
				same[i] = lensMonitorStackFrame{File: "f", Function: "g", Line: uint(i)}
				diff[i] = lensMonitorStackFrame{File: fmt.Sprint("f", i), Function: fmt.Sprint("g", i), Line: uint(i)}
			}
			stacks = append(stacks, same, diff)
		}
		check := func(x *vCase, id uint32, ts int64, st []lensMonitorStackFrame) {
			var b bytes.Buffer
			lensEncodeMessagePoint(&b, id, ts, st)
			raw := append([]byte(nil), b.Bytes()...)
			m, err := newLensReader(bytes.NewReader(raw), c01MaxLen).decodeMessagePoint()
			if err != nil || m.PointID != id || m.TimeNS != ts || !c01StackEq(m.Stack, st) {
				x.Fail("point: %v err %v", m, err)
			}
			if len(raw) < 2000 {
				for i := range raw {
					if _, err := newLensReader(bytes.NewReader(raw[:i]), c01MaxLen).decodeMessagePoint(); err == nil {
						x.Fail("point message cut after %d of %d bytes is accepted", i, len(raw))
					}
				}
			}
			b.Reset()
			lensEncodeMessagePointState(&b, id, ts, st, []lensMonitorFieldSnapshot{{Name: "v", Val: "tail"}})
			s, err := newLensReader(bytes.NewReader(b.Bytes()), c01MaxLen).decodeMessagePointState()
			if err != nil || s.PointID != id || s.TimeNS != ts || !c01StackEq(s.Stack, st) || len(s.Fields) != 1 || s.Fields[0].Value != "tail" {
				x.Fail("state: %v err %v", s, err)
			}
			b.Reset()
			lensEncodeMessageError(&b, id, errors.New("why"), st)
			e, err := newLensReader(bytes.NewReader(b.Bytes()), c01MaxLen).decodeMessageError()
			if err != nil || e.PointID != id || e.Message != "why" || !c01StackEq(e.Stack, st) {
				x.Fail("error: %v err %v", e, err)
			}
		}
		for i, st := range stacks {
			c.Case(fmt.Sprintf("stack-%d", i), func(x *vCase) { check(x, 9, 10, st) })
		}
		for _, id := range ids {
			for _, ts := range times {
				c.Case(fmt.Sprintf("hdr-%d-%d", id, ts), func(x *vCase) { check(x, id, ts, stacks[7]) })
			}
		}
		vals := []any{"", "p", "\xff\x00", 5, -1.5, errors.New("e"), &c01Err{"ptr"}, []int{1, 2}, struct{ A int }{1}, error(nil), strings.Repeat("long", 5000), fmt.Errorf("w: %w", errors.New("in"))}
		for i, v := range vals {
			for _, id := range ids {
				for _, ts := range times {
					c.Case(fmt.Sprintf("panic-%d-%d-%d", i, id, ts), func(x *vCase) {
						var b bytes.Buffer
						lensEncodeMessagePointPanic(&b, id, ts, v)
						raw := append([]byte(nil), b.Bytes()...)
						m, err := newLensReader(bytes.NewReader(raw), c01MaxLen).decodeMessagePointPanic()
						if err != nil || m.PointID != id || m.TimeNS != ts || m.Message != fmt.Sprint(v) {
							x.Fail("panic: %v err %v", m, err)
						}
						if id == 0 && ts == 0 {
							for i := range raw {
								if _, err := newLensReader(bytes.NewReader(raw[:i]), c01MaxLen).decodeMessagePointPanic(); err == nil {
									x.Fail("cut after %d accepted", i)
								}
							}
						}
					})
				}
			}
		}
		msgs := []string{"", "x", "\xff\x00é", strings.Repeat("m", 127), strings.Repeat("m", 128), strings.Repeat("m", 20000)}
		for i, s := range msgs {
			for _, id := range ids {
				c.Case(fmt.Sprintf("error-%d-%d", i, id), func(x *vCase) {
					var b bytes.Buffer
					lensEncodeMessageError(&b, id, errors.New(s), nil)
					m, err := newLensReader(bytes.NewReader(b.Bytes()), c01MaxLen).decodeMessageError()
					if err != nil || m.PointID != id || m.Message != s || len(m.Stack) != 0 {
						x.Fail("error: %v err %v", m, err)
					}
				})
			}
		}
		// several fields in one message: all ordered pairs and triples of representative kinds keep name, order, value
		reps := []any{nil, true, -3, uint8(4), "s", []string{"a", ""}, []byte{0xff}, map[string]int{"k": 1}, struct{ a, B int }{1, 2}, []any{1, "x"}, 2.5}
		for i, a := range reps {
			for j, b := range reps {
				for k, d := range reps {
					c.Case(fmt.Sprintf("fields-%d-%d-%d", i, j, k), func(x *vCase) {
						var snaps []lensMonitorFieldSnapshot
						var want []*c01Ref
						for n, v := range []any{a, b, d} {
							nm := []string{"x", "ret0", ""}[n]
							snaps = append(snaps, lensMonitorFieldSnapshot{Name: nm, Val: v})
							want = append(want, c01Norm(nm, reflect.ValueOf(v)))
						}
						c01Roundtrip(x, snaps, want)
					})
				}
			}
		}
		c.Case("fields-none", func(x *vCase) { c01Roundtrip(x, nil, nil) })
		c.Case("fields-1500", func(x *vCase) { // the number of fields in a message is not cut by the length limit
			var snaps []lensMonitorFieldSnapshot
			var want []*c01Ref
			for i := 0; i < 1500; i++ {
				snaps = append(snaps, lensMonitorFieldSnapshot{Name: fmt.Sprint("v", i), Val: i})
				want = append(want, c01Norm(fmt.Sprint("v", i), reflect.ValueOf(i)))
			}
			c01Roundtrip(x, snaps, want)
		})
	})
}

func c01StackEq(a, b []lensMonitorStackFrame) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c01Terminates: encoding must finish and decode; the exact place of the cut is not prescribed.
func c01Terminates(x *vCase, v any) {
	var b bytes.Buffer
	lensEncodeMessagePointState(&b, 1, 1, nil, []lensMonitorFieldSnapshot{{Name: "v", Val: v}})
	if b.Len() > 1<<20 {
		x.Fail("%d bytes for a self reference", b.Len())
	}
	m, err := newLensReader(bytes.NewReader(b.Bytes()), c01MaxLen).decodeMessagePointState()
	if err != nil || len(m.Fields) != 1 {
		x.Fail("decode: %v %v", m, err)
	}
	if !strings.Contains(fmt.Sprint(m.Fields), "<cycle:") {
		x.Fail("no cycle marker: %v", m.Fields)
	}
}

func c01Fill[T int8 | int16 | int32 | int64 | int | uint16 | uint32 | uint64 | uint | uintptr | float32 | float64](n int) []T {
	s := make([]T, n)
	for i := range s {
		s[i] = T(i * 7)
		if i%2 == 1 {
			s[i] = -s[i]
		}
	}
	return s
}

type c01K3 struct{ A, B, C int }

type c01KN struct {
	S string
	T bool
	F float32
	A [3]uint8
	K c01K3
}

func c01FillMap[K comparable](n int, key func(i int) K) map[K]int {
	m := make(map[K]int, n)
	for i := 0; len(m) < n && i < 50*n; i++ {
		m[key(i)] = i
	}
	return m
}
