package lens

// Program generator for the instrumentation harness.

import (
	"fmt"
	"strings"
)

type progSig struct {
	name  string
	decl  string
	tp    string   // type parameter list
	res   string   // result list as written
	types []string // result types
	named string   // named results, visible everywhere
	tup   []string // return expressions, ¦-separated; "M:call" one call giving all results; "" naked
	c07   bool
	info  string
}

// every kind of result list and of returned expression
func progSigs() []progSig {
	return []progSig{
		{name: "void", tup: []string{""}},
		{name: "int", res: "int", types: []string{"int"}, tup: []string{"a", "a + 1", "7", "inc(a)", "-3", "(a)", "glob", "Small", "int(NumTwo)", "len(b)", "T{a, b}.N", "func() int { q := a; return q }()", "<-ready(a)", "[]int{1, 2}[a%2]", "'x'", "a<<1 | 1"}},
		{name: "string", res: "string", types: []string{"string"}, tup: []string{"b", "b + \"s\"", "\"lit\"", "`raw`", "Word", "tr(b)", "string(rune(97 + a))", "b[:0]"}},
		{name: "bool", res: "bool", types: []string{"bool"}, tup: []string{"true", "false", "a > 1", "!(a > 1)", "a > 0 && tr(b) != \"\""}},
		{name: "float", res: "float64", types: []string{"float64"}, tup: []string{"3", "1.5", "Ratio", "Small", "float64(a) / 2", "1 / 2.0"}},
		{name: "uint64", res: "uint64", types: []string{"uint64"}, tup: []string{"uint64(a)", "Small", "Big", "1 << 63", "0xFFFFFFFFFFFFFFFF"}},
		{name: "num", res: "Num", types: []string{"Num"}, tup: []string{"Num(a)", "3", "NumTwo", "Small", "NumTwo + 1", "2 * 3"}},
		{name: "txt", res: "Txt", types: []string{"Txt"}, tup: []string{"Txt(b)", "\"t\"", "Word", "\"a\" + Word"}},
		{name: "flag", res: "Flag", types: []string{"Flag"}, tup: []string{"true", "Flag(a > 1)", "a > 1"}},
		{name: "byte", res: "byte", types: []string{"byte"}, tup: []string{"'c'", "byte(a)", "255"}},
		{name: "error", res: "error", types: []string{"error"}, tup: []string{"nil", "errOne", "&E{a}", "error(nil)", "(*E)(nil)", "func() error { return errOne }()"}},
		{name: "any", res: "any", types: []string{"any"}, tup: []string{"nil", "a", "b", "5", "\"s\"", "2.5", "'r'", "true", "T{a, b}", "&T{a, b}", "pick(a)", "Small", "NumTwo", "[]int(nil)", "(*T)(nil)"}},
		{name: "iface", res: "interface{}", types: []string{"interface{}"}, tup: []string{"nil", "a", "5", "pick(a)"}},
		{name: "shape", res: "Shape", types: []string{"Shape"}, tup: []string{"nil", "T{a, b}", "&T{a, b}", "mk(a)"}},
		{name: "ptr", res: "*T", types: []string{"*T"}, tup: []string{"nil", "&T{a, b}", "ptr(a)", "new(T)"}},
		{name: "struct", res: "T", types: []string{"T"}, tup: []string{"T{}", "T{a, b}", "T{N: a}", "*new(T)"}},
		{name: "anonstruct", res: "struct{ N int }", types: []string{"struct{ N int }"}, tup: []string{"struct{ N int }{a}", "T1_§{a}"}, decl: "type T1_§ struct{ N int }"},
		{name: "slice", res: "[]int", types: []string{"[]int"}, tup: []string{"nil", "[]int{a}", "append([]int{1}, a)", "make([]int, a)", "[]int{a, 1, 2}[:2]"}},
		{name: "array", res: "[2]int", types: []string{"[2]int"}, tup: []string{"[2]int{a, 1}", "[...]int{1, 2}", "[2]int{}"}},
		{name: "map", res: "map[string]int", types: []string{"map[string]int"}, tup: []string{"nil", "map[string]int{b: a}", "map[string]int{}"}},
		{name: "generic", res: "G[int]", types: []string{"G[int]"}, tup: []string{"G[int]{a}", "G[int]{}", "G[int]{V: inc(a)}"}},
		{name: "qualified", res: "*G[T]", types: []string{"*G[T]"}, tup: []string{"nil", "&G[T]{T{a, b}}"}},
		{name: "pair", res: "(int, error)", types: []string{"int", "error"}, tup: []string{"a¦nil", "M:two(a)", "inc(a)¦errOne", "0¦&E{a}", "M:func() (int, error) { return a, nil }()", "ti(\"x\", a)¦error(nil)", "Small¦errOne", "M:(two(a))"}},
		{name: "pair2", res: "(a2, b2 int)", types: []string{"int", "int"}, named: "a2,b2", tup: []string{"", "M:two2(a)", "a¦1", "b2¦a2", "inc(a)¦inc(a + 1)"}},
		{name: "triple", res: "(string, Num, any)", types: []string{"string", "Num", "any"}, tup: []string{"b¦1¦nil", "tr(\"1\")¦Num(a)¦tr(\"2\")", "\"\"¦NumTwo¦a"}},
		{name: "named", res: "(r int)", types: []string{"int"}, named: "r", tup: []string{"", "a", "r", "5", "r + inc(a)"}},
		{name: "named2", res: "(r int, err error)", types: []string{"int", "error"}, named: "r,err", tup: []string{"", "a¦err", "M:two(a)", "r¦nil", "9¦errOne"}},
		{name: "blank", res: "(_ int, err error)", types: []string{"int", "error"}, named: "err", tup: []string{"", "a¦err", "M:two(a)"}},
		{name: "blankonly", res: "(_ int)", types: []string{"int"}, tup: []string{"", "a"}},
		{name: "chan", res: "chan int", types: []string{"chan int"}, tup: []string{"nil", "never"}},
		{name: "fun", res: "func() int", types: []string{"func() int"}, tup: []string{"nil", "func() int { x := a; return x }"}},
		{name: "cplx", res: "complex128", types: []string{"complex128"}, tup: []string{"1i", "complex(float64(a), 2)", "3"}},
		{name: "ptrptr", res: "**T", types: []string{"**T"}, tup: []string{"nil", "func() **T { p := ptr(a); return &p }()"}},
	}
}

func (s progSig) site(vis string, k int, fall bool) string {
	if s.named != "" {
		vis += "," + s.named
	}
	t := s.tup[k%len(s.tup)]
	switch {
	case fall:
		return "⟦END:" + vis + "⟧"
	case strings.HasPrefix(t, "M:"):
		return "⟦M:" + vis + "¦" + t[2:] + "⟧"
	case t == "":
		return "⟦" + vis + "⟧"
	}
	return "⟦" + vis + "¦" + t + "⟧"
}

func (s progSig) prog(id, body string, k int) prog {
	// SITE(vis) is a return; TAIL(vis) is the last one, which a function without results may leave out
	n := 0
	body = progExpand(body, "SITE(", func(vis string) string { n++; return s.site(vis, k+n-1, false) })
	fall := len(s.types) == 0
	body = progExpand(body, "TAIL(", func(vis string) string { n++; return s.site(vis, k+n-1, fall) })
	call := "F§(%d, %q)"
	p := prog{id: id, decl: s.decl, types: s.types, mode: s.info}
	p.src = "func F§" + s.tp + "(a int, b string) " + s.res + " {\n" + body + "\n}\n"
	if s.res == "" {
		p.src = "func F§(a int, b string) {\n" + body + "\n}\n"
	}
	var ls []string
	for i := range s.types {
		ls = append(ls, fmt.Sprintf("v%d", i))
	}
	for a := 0; a < 5; a++ {
		c := fmt.Sprintf(call, a, []string{"", "x", "yy"}[a%3])
		if len(ls) > 0 {
			c = strings.Join(ls, ", ") + " := " + c
		}
		p.cases = append(p.cases, c+"; return []any{"+strings.Join(ls, ", ")+"}")
	}
	return p
}

func progExpand(text, mark string, f func(string) string) string {
	for {
		i := strings.Index(text, mark)
		if i < 0 {
			return text
		}
		j := i + strings.Index(text[i:], ")")
		text = text[:i] + f(text[i+len(mark):j]) + text[j+1:]
	}
}

type progCons struct {
	name string
	text string // HOLE is the nested statement; # is the nesting depth
	vars string // variables the construct makes visible in the hole
}

// every statement form that can contain a return statement
func progConstructs() []progCons {
	return []progCons{
		{"if", "if a > 0 {\nHOLE\n}", ""},
		{"else", "if a > 3 {\ntr(\"n\")\n} else {\nHOLE\n}", ""},
		{"elseif", "if a > 3 {\ntr(\"n\")\n} else if x# := a + 1; x# > 1 {\nHOLE\n}", "x#"},
		{"elseifelse", "if y# := a; y# > 3 {\ntr(\"n\")\n} else if x# := y# + 1; x# > 3 {\ntr(\"m\")\n} else {\nHOLE\n}", "x#,y#"},
		{"elseif4", "if a == 4 {\ntr(\"n\")\n} else if a == 3 {\ntr(\"m\")\n} else if a == 2 {\ntr(\"k\")\n} else if a == 1 {\nHOLE\n} else {\ntr(\"z\")\n}", ""},
		{"ifinit", "if x# := a * 3; x# > 2 {\nHOLE\n}", "x#"},
		{"elsenest", "if a > 3 {\nz# := 1\n_ = z#\n} else {\nif a > 2 {\nw# := 1\n_ = w#\n} else {\nHOLE\n}\n}", ""},
		{"for", "for i# := 0; i# < a; i#++ {\ntr(\"f\")\nHOLE\n}", "i#"},
		{"forcond", "k# := 0\nfor k# < a {\nk#++\nHOLE\n}", "k#"},
		{"forever", "n# := 0\nfor {\nn#++\nif n# > 2 {\nbreak\n}\nHOLE\n}", "n#"},
		{"range", "for i#, v# := range []int{a, a + 1} {\n_, _ = i#, v#\nHOLE\n}", "i#,v#"},
		{"rangeint", "for i# := range a {\n_ = i#\nHOLE\n}", "i#"},
		{"rangekey", "for k# := range map[string]int{\"q\": a} {\n_ = k#\nHOLE\n}", "k#"},
		{"rangefunc", "for v# := range seq(a) {\nif v# < 2 {\ncontinue\n}\nHOLE\n}", "v#"},
		{"rangeset", "var v# int\nfor _, v# = range []int{a} {\n_ = v#\nHOLE\n}", "v#"},
		{"rangechan", "for v# := range closedn(a) {\n_ = v#\nHOLE\n}", "v#"},
		{"rangebare", "for range 2 {\nHOLE\n}", ""},
		{"switch", "switch a {\ncase 0:\nx# := 1\ntrn(x#)\ncase 1, 2:\nHOLE\ndefault:\ny# := 2\ntrn(y#)\n}", ""},
		{"switchdef", "switch {\ncase a > 2:\nx# := 1\ntrn(x#)\ndefault:\nHOLE\n}", ""},
		{"switchinit", "switch x# := a % 2; {\ncase x# == 1:\ny# := x#\n_ = y#\nfallthrough\ncase x# == 5:\nHOLE\n}", "x#"},
		{"typeswitch", "switch t# := pick(a).(type) {\ncase string:\nu# := t#\n_ = u#\ncase int:\n_ = t#\nHOLE\n}", "t#"},
		{"typeswitch2", "switch t# := pick(a).(type) {\ncase error, Shape:\n_ = t#\ndefault:\nHOLE\n}", "t#"},
		{"typeswitch0", "switch pick(a).(type) {\ncase string:\nHOLE\n}", ""},
		{"select", "select {\ncase w#, ok# := <-never:\n_, _ = w#, ok#\ncase v# := <-ready(a):\n_ = v#\nHOLE\n}", "v#"},
		{"selectdef", "select {\ncase w# := <-never:\n_ = w#\ndefault:\nHOLE\n}", ""},
		{"selectsend", "c# := make(chan int, 1)\nselect {\ncase c# <- a:\nHOLE\ncase w# := <-never:\n_ = w#\n}", ""},
		{"label", "L#:\nfor i# := 0; i# < 3; i#++ {\nif i# == a {\ncontinue L#\n}\nif a == 4 {\nbreak L#\n}\nHOLE\n}", "i#"},
		{"labelrange", "L#:\nfor i# := range 3 {\n_ = i#\nfor j# := range 2 {\nif j# == a {\ncontinue L#\n}\nHOLE\n}\n}", "i#,j#"},
		{"labelblock", "x# := 0\nL#:\n{\nx#++\nif x# < a {\ngoto L#\n}\nHOLE\n}", "x#"},
		{"labelswitch", "L#:\nswitch {\ncase a > 3:\nbreak L#\ncase a > 1:\nHOLE\n}", ""},
		{"labelselect", "L#:\nselect {\ndefault:\nif a > 3 {\nbreak L#\n}\nHOLE\n}", ""},
		{"goto", "if a > 2 {\ngoto L#\n}\ntr(\"g\")\nL#:\nHOLE", ""},
		{"block", "{\nx# := a\n_ = x#\n{\ny# := 3\n_ = y#\n}\nHOLE\n}", "x#"},
		{"shadow", "x# := a\nif x# := b + \"s\"; len(x#) > 1 {\nHOLE\n}\n_ = x#", "x#"},
		{"closure", "g# := func(k int) int {\nz# := k + a\nif z# > 3 {\nreturn z#\n}\nreturn 0\n}\ntrn(g#(a))\nHOLE", ""},
		{"defer", "defer func() {\nd# := 1\ntrn(d#)\n}()\nHOLE", ""},
		{"go", "done# := make(chan int)\ngo func() {\ndefer close(done#)\ne# := 1\n_ = e#\nreturn\n}()\n<-done#\nHOLE", ""},
		{"oneline", "if a > 0 { q# := a; _ = q#; HOLE }", "q#"},
		{"onelinesw", "switch { case a > 1: q# := a; _ = q#; HOLE; default: w# := 2; _ = w# }", "q#"},
	}
}

func progJoin(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "," + b
}

// local declarations in front of a return
func progLocals() [][3]string { // name, text, visible (required) variables
	return [][3]string{
		{"var", "var x int\nx = a", "x"},
		{"varinit", "var x, y = a, b", "x,y"},
		{"varblock", "var (\nx int = a\ny = b\nz string\n)", "x,y,z"},
		{"define", "x, y := a, b", "x,y"},
		{"redefine", "x, y := a, b\nx, z := a+1, y\n_ = x", "x,y,z"},
		{"blank", "_, x := a, b", "x"},
		{"blankvar", "var _ = a\nvar _, x = 1, b", "x"},
		{"const", "const x = 5\ny := x + a", "y"},
		{"consttyped", "const x Num = 5\ny := x", "y"},
		{"constbig", "const x = 1 << 70\ny := x >> 68", "y"},
		{"constuint", "const x = 1<<64 - 1\ny := uint64(x)", "y"},
		{"constblock", "const (\np = iota\nq\n)\nx := q", "x"},
		{"type", "type L struct{ N int }\nx := L{a}", "x"},
		{"typealias", "type L = int\nvar x L = a", "x"},
		{"ptr", "x := &T{a, b}\nx.N++", "x"},
		{"pointee", "n := a\nx := &n\n*x += 1", "n,x"},
		{"slice", "x := []int{a}\nx = append(x, 4)", "x"},
		{"map", "x := map[string]int{\"k\": a}\nx[\"j\"] = 1", "x"},
		{"nilmap", "var x map[string]int\nvar y []T\nvar z *T\nvar w error", "x,y,z,w"},
		{"struct", "x := struct{ P, q int }{a, 2}", "x"},
		{"generic", "x := G[string]{b}", "x"},
		{"array", "x := [3]int{a}", "x"},
		{"funcval", "f := func() int { return 3 }\nx := f()", "x"},
		{"chan", "c := ready(a)\nx := <-c", "x"},
		{"iface", "var x any = a\nvar y Shape = T{a, b}", "x,y"},
		{"err", "n, err := two(a)", "n,err"},
		{"errshadow", "n, err := two(a)\nif err != nil {\nm, err := two2x(n)\n_, _ = m, err\n}", "n,err"},
		{"paramset", "a = a + 10\nb += \"!\"", "a,b"},
		{"mutated", "x := a\nfunc() { x++ }()", "x"},
		{"complex", "x := complex(float64(a), 1)\ny := float32(a) / 3\nz := 'q'\nw := byte(a)", "x,y,z,w"},
		{"bools", "t, f := a > 1, false", "t,f"},
		{"named types", "x := Num(a)\ny := Txt(b)\nz := Flag(true)", "x,y,z"},
		{"names", "ret, rec, r, tmp := a, 1, 2, 3", "ret,rec,r,tmp"},
		{"keywordish", "len, string, error := a, b, 1\n_, _, _ = len, string, error", "len"},
		{"unicode", "é, 世界 := a, b\n_, _ = é, 世界", "é,世界"},
		{"late", "if a > 1 {\nx := 3\n_ = x\n}\nx := b", "x"},
		{"loopvar", "x := 0\nfor i := 0; i < a; i++ {\nx += i\n}", "x"},
		{"deferred", "x := a\ndefer func() { x = 99 }()", "x"},
		{"gotoloop", "x := 0\nagain:\nx++\nif x < a {\ngoto again\n}", "x"},
	}
}

// bodies with comments around the returns
func progComments() [][2]string {
	return [][2]string{
		{"trailing", "if a > 1 {\nSITE(a,b) // trailing one\n}\nTAIL(a,b) // trailing two"},
		{"above", "// first\nif a > 1 {\n// above\nSITE(a,b)\n// below\n}\n// last\nTAIL(a,b)\n// after"},
		{"block", "/* one */ if a > 1 { /* two */\n/* three */ SITE(a,b) /* four */\n} /* five */\n/* six */ TAIL(a,b) /* seven */"},
		{"else", "if a > 1 { // c1\nx := a // c2\n_ = x\nSITE(a,b,x)\n// c3\n} else { // c4\n// c5\nSITE(a,b)\n} // c6\nTAIL(a,b)"},
		{"switch", "switch a { // s1\n// s2\ncase 1: // s3\n// s4\nSITE(a,b) // s5\n// s6\ncase 2:\n// s7\ndefault: // s8\n}\n// s9\nTAIL(a,b)"},
		{"multiline", "x := map[string]int{ // m1\n\"k\": a, // m2\n// m3\n}\n_ = x\n// m4\nTAIL(a,b,x)"},
		{"docs", "/*\nblock\n*/\nif a > 1 {\n/*\ninner\n*/\nSITE(a,b)\n/*\nouter\n*/\n}\n//\n// go:noinline is not a directive here\nTAIL(a,b)"},
		{"nolint", "for i := range a { //nolint:all\n//nolint\nif i == 1 { //x\nSITE(a,b,i) //nolint\n}\n}\nTAIL(a,b)"},
	}
}

func progAll(thorough bool) []prog {
	var out []prog
	cons := progConstructs()
	sigs := progSigs()
	sub := func(t string, d int) string { return strings.ReplaceAll(t, "#", fmt.Sprint(d)) }
	nest := func(cs []progCons) (string, string) {
		body, vars := "HOLE", ""
		for i, cn := range cs {
			body = strings.Replace(body, "HOLE", sub(cn.text, i+1), 1)
			vars = progJoin(vars, sub(cn.vars, i+1))
		}
		return strings.Replace(body, "HOLE", "SITE("+progJoin("a,b", vars)+")", 1), vars
	}
	// variables that are still visible after the construct
	after := func(cs []progCons) string {
		v := ""
		for _, cn := range cs[:1] {
			switch cn.name {
			case "forcond":
				v = "k1"
			case "forever":
				v = "n1"
			case "rangeset":
				v = "v1"
			}
		}
		return progJoin("a,b", v)
	}
	find := func(n string) progSig {
		for _, s := range sigs {
			if s.name == n {
				return s
			}
		}
		panic(n)
	}
	// A: every result list and expression in a few statement forms
	forms := []string{"elseifelse", "select"}
	for _, s := range sigs {
		for _, cn := range cons {
			use := thorough
			for _, f := range forms {
				use = use || f == cn.name
			}
			if !use {
				continue
			}
			for k := range s.tup {
				body, _ := nest([]progCons{cn})
				out = append(out, s.prog(fmt.Sprintf("sig/%s/%d/%s", s.name, k, cn.name), body+"\nTAIL("+after([]progCons{cn})+")", k))
			}
		}
		for k := range s.tup {
			out = append(out, s.prog(fmt.Sprintf("sig/%s/%d/tail", s.name, k), "TAIL(a,b)", k))
		}
	}
	// B: every statement form around 13 others (in thorough every nesting of two and of three)
	inner := map[string]bool{}
	for _, n := range []string{"elseifelse", "for", "range", "switchinit", "typeswitch", "select", "label", "goto", "block", "shadow", "closure", "defer", "oneline"} {
		inner[n] = true
	}
	for _, sn := range []string{"int", "void", "named2"} {
		s := find(sn)
		for i, c1 := range cons {
			for j, c2 := range cons {
				if !thorough && !(sn == "int" && inner[c2.name] || c2.name == "if") {
					continue
				}
				cs := []progCons{c1, c2}
				body, _ := nest(cs)
				q := s.prog(fmt.Sprintf("nest/%s/%s/%s", sn, c1.name, c2.name), body+"\nTAIL("+after(cs)+")", i+j)
				q.mode = "bare"
				out = append(out, q)
				if thorough && sn == "int" {
					for k, c3 := range cons {
						cs := []progCons{c1, c2, c3}
						body, _ := nest(cs)
						q := s.prog(fmt.Sprintf("nest/%s/%s/%s/%s", sn, c1.name, c2.name, c3.name), body+"\nTAIL("+after(cs)+")", i+j+k)
						q.mode = "bare"
						out = append(out, q)
					}
				}
			}
		}
	}
	// C: local declarations
	for _, l := range progLocals() {
		for si, sn := range []string{"int", "error", "void", "named", "pair", "any"} {
			if si > 2 && !thorough {
				break
			}
			s := find(sn)
			bodies := map[string]string{
				"tail":  l[1] + "\nTAIL(" + progJoin("a,b", l[2]) + ")",
				"if":    l[1] + "\nif a > 1 {\nk := a\n_ = k\nSITE(" + progJoin("a,b,k", l[2]) + ")\n}\nTAIL(" + progJoin("a,b", l[2]) + ")",
				"inner": "if a > 1 {\n" + l[1] + "\nSITE(" + progJoin("a,b", l[2]) + ")\n}\nTAIL(a,b)",
			}
			for bi, bn := range []string{"inner", "tail", "if"} {
				if bi > 1 && !thorough {
					break
				}
				if l[0] == "keywordish" && (sn == "any" || sn == "int") {
					continue // the returned expressions use len
				}
				p := s.prog(fmt.Sprintf("local/%s/%s/%s", l[0], sn, bn), progUse(bodies[bn], l[1]), 0)
				out = append(out, p)
			}
		}
	}
	// D: comments
	for _, cm := range progComments() {
		for _, sn := range []string{"int", "void", "named2", "error"} {
			s := find(sn)
			for k := 0; k < min(3, len(s.tup)); k++ {
				out = append(out, s.prog(fmt.Sprintf("comment/%s/%s/%d", cm[0], sn, k), cm[1], k))
			}
		}
	}
	out = append(out, progSpecials()...)
	// E: entry points (functions of an updated module)
	for _, cn := range cons {
		for si, sn := range []string{"int", "void", "named2"} {
			if si > 0 && !thorough {
				break
			}
			s := find(sn)
			body, _ := nest([]progCons{cn})
			p := s.prog("entry/"+sn+"/"+cn.name, body+"\nTAIL("+after([]progCons{cn})+")", 0)
			p.src = progPlain(p.src)
			p.entry, p.mode = true, "bare"
			out = append(out, p)
		}
	}
	return out
}

// progPlain turns sites into ordinary returns for every rendering.
func progPlain(src string) string {
	var p prog
	return p.sites(src, "orig")
}

// progUse makes every declared name used, so that the original compiles.
func progUse(body, decl string) string {
	// uses are added right after the declarations
	var names []string
	for _, ln := range strings.Split(decl, "\n") {
		ln = strings.TrimSpace(ln)
		if l, _, ok := strings.Cut(ln, ":="); ok && !strings.Contains(l, "{") && !strings.HasPrefix(l, "for ") {
			for _, n := range strings.Split(l, ",") {
				names = append(names, strings.TrimSpace(n))
			}
		}
		if strings.HasPrefix(ln, "var ") && !strings.HasPrefix(ln, "var (") {
			l := strings.TrimPrefix(ln, "var ")
			if i := strings.Index(l, "="); i >= 0 {
				l = l[:i]
			}
			for _, n := range strings.Split(l, ",") {
				names = append(names, strings.Fields(n)[0])
			}
		}
	}
	if strings.Contains(decl, "var (") {
		names = append(names, "x", "y", "z")
	}
	use := ""
	for _, n := range names {
		if n != "_" && n != "m" && !(n == "x" && strings.HasPrefix(decl, "if a")) {
			use += "\n_ = " + n
		}
	}
	if strings.HasPrefix(decl, "if a") {
		use += "\n_ = x"
	}
	return strings.Replace(body, decl, decl+use, 1)
}

// progSpecials are programs about panics, defers, recursion, methods, generics and shadowed names.
func progSpecials() []prog {
	var out []prog
	add := func(id, decl, src string, types []string, cases ...string) *prog {
		out = append(out, prog{id: "special/" + id, decl: decl, src: src, types: types, cases: cases})
		return &out[len(out)-1]
	}
	one := func(n int) []string {
		var cs []string
		for a := 0; a <= n; a++ {
			cs = append(cs, fmt.Sprintf("v := F§(%d); return []any{v}", a))
		}
		return cs
	}
	I := []string{"int"}
	// panics
	for _, pn := range [][2]string{{"string", `panic("p")`}, {"error", `panic(errOne)`}, {"value", `panic(T{a, "v"})`}, {"nilmap", `var m map[string]int; m["k"] = 1`},
		{"index", `s := []int{}; trn(s[a])`}, {"nilptr", `var t *T; trn(t.N)`}, {"div", `z := 0; trn(a / z)`}, {"assert", `trn(pick(1).(int))`}, {"nilpanic", `panic(nil)`}, {"callee", `boom(a)`}, {"closed", `c := closed(); close(c)`}} {
		add("panic/"+pn[0]+"/mid", "", "func F§(a int) int {\nif a > 1 {\n"+pn[1]+"\n}\n⟦a¦a + 1⟧\n}\n", I, one(3)...)
		add("panic/"+pn[0]+"/recovered", "", "func F§(a int) (r int) {\ndefer func() {\nif e := recover(); e != nil {\nr = 42\n}\n}()\nif a > 1 {\n"+pn[1]+"\n}\nr = a\n⟦a,r⟧\n}\n", I, one(3)...)
		add("panic/"+pn[0]+"/rethrown", "", "func F§(a int) (r int) {\ndefer func() {\nif e := recover(); e != nil {\ntr(\"again\")\npanic(\"second\")\n}\n}()\nif a > 1 {\n"+pn[1]+"\n}\n⟦a,r¦a⟧\n}\n", I, one(3)...)
		add("panic/"+pn[0]+"/through", "", "func F§(a int) (r int) {\nr = H§(a)\n⟦a,r⟧\n}\n\nfunc H§(a int) (q int) {\ndefer tr(\"unwind\")\nif a > 1 {\n"+pn[1]+"\n}\n⟦a,q¦a * 2⟧\n}\n", I, one(3)...)
		add("panic/"+pn[0]+"/caught by caller", "", "func F§(a int) (r int) {\ndefer func() {\nif e := recover(); e != nil {\nr = -1\n}\n}()\nr = H§(a)\n⟦a,r⟧\n}\n\nfunc H§(a int) (q int) {\nif a > 1 {\n"+pn[1]+"\n}\n⟦a,q¦a * 2⟧\n}\n", I, one(3)...)
		add("panic/"+pn[0]+"/handler function", "", "func F§(a int) (r int) {\ndefer h§(&r)\nif a > 1 {\n"+pn[1]+"\n}\n⟦a,r¦a⟧\n}\n\nfunc h§(r *int) {\nif e := recover(); e != nil {\ntr(\"h\")\n*r = 7\n⟦r⟧\n}\n⟦END:r⟧\n}\n", I, one(3)...)
		out[len(out)-1].types = nil
		out[len(out)-1].src = strings.Replace(out[len(out)-1].src, "⟦a,r¦a⟧", "r = a\n⟦a,r⟧", 1)
	}
	add("panic/in return", "", "func F§(a int) int {\n⟦a¦boom(a) + inc(a)⟧\n}\n", I, one(3)...)
	add("panic/in return pair", "", "func F§(a int) (int, error) {\n⟦a¦inc(a)¦func() error { boom(a); return nil }()⟧\n}\n", []string{"int", "error"},
		"v, w := F§(0); return []any{v, w}", "v, w := F§(2); return []any{v, w}")
	add("panic/in defer", "", "func F§(a int) (r int) {\ndefer func() {\nif a > 1 {\npanic(\"d\")\n}\n}()\nr = 3\n⟦a,r⟧\n}\n", I, one(3)...)
	add("panic/two defers", "", "func F§(a int) (r int) {\ndefer func() { r++ }()\ndefer func() {\nrecover()\n}()\nboom(a)\n⟦a,r¦a⟧\n}\n", I, one(3)...)
	add("panic/nested function", "", "func F§(a int) (r int) {\nfunc() {\ndefer func() { recover() }()\nboom(a)\n}()\n⟦a,r¦5⟧\n}\n", I, one(3)...)
	add("panic/only", "", "func F§(a int) int {\npanic(a)\n}\n", I, one(1)...)
	out[len(out)-1].src = "func F§(a int) (r int) {\ndefer func() { recover() }()\npanic(a)\n}\n"
	add("panic/goexit", "", "func F§(a int) int {\ndefer tr(\"x\")\nif a > 1 {\nruntime.Goexit()\n}\n⟦a¦a⟧\n}\n", I, one(2)...).imps = []string{"runtime"}
	// defers and named results
	add("defer/modify", "", "func F§(a int) (r int) {\ndefer func() { r *= 2 }()\nif a > 1 {\n⟦a,r¦a + 1⟧\n}\nr = 9\n⟦a,r⟧\n}\n", I, one(3)...)
	add("defer/err", "", "func F§(a int) (r int, err error) {\ndefer func() {\nif err != nil {\nerr = nil\nr = -r\n}\n}()\nif a > 2 {\n⟦M:a,r,err¦two(a)⟧\n}\n⟦a,r,err¦a¦errOne⟧\n}\n", []string{"int", "error"},
		"v, w := F§(1); return []any{v, w}", "v, w := F§(3); return []any{v, w}")
	add("defer/order", "", "func F§(a int) (r int) {\nfor i := range a {\ndefer trn(i)\n}\ndefer func(n int) { r += n }(a)\n⟦a,r¦ti(\"ret\", 1)⟧\n}\n", I, one(3)...)
	add("defer/method", "", "func F§(a int) int {\nt := &T{a, \"\"}\ndefer func() { trn(t.N) }()\nt.N++\n⟦a,t¦t.N⟧\n}\n", I, one(3)...)
	// recursion
	add("recursive/tail", "", "func F§(a int) int {\nif a <= 0 {\n⟦a¦0⟧\n}\n⟦a¦F§(a - 1)⟧\n}\n", I, one(3)...)
	add("recursive/expr", "", "func F§(a int) int {\nif a <= 0 {\n⟦a¦1⟧\n}\n⟦a¦a * F§(a-1)⟧\n}\n", I, one(3)...)
	add("recursive/pair", "", "func F§(a int) (int, error) {\nif a <= 0 {\n⟦a¦0¦nil⟧\n}\n⟦M:a¦F§(a - 1)⟧\n}\n", []string{"int", "error"}, "v, w := F§(2); return []any{v, w}")
	add("recursive/two", "", "func F§(a int) int {\nif a < 2 {\n⟦a¦a⟧\n}\n⟦a¦F§(a-1) + F§(a-2)⟧\n}\n", I, one(4)...)
	add("recursive/method", "type N§ struct {\nV int\nNext *N§\n}\n", "func (n *N§) Sum(acc int) int {\nif n == nil {\n⟦acc¦acc⟧\n}\n⟦acc¦n.Next.Sum(acc + n.V)⟧\n}\n", I,
		"l := &N§{1, &N§{2, nil}}; v := l.Sum(0); return []any{v}")
	add("recursive/mutual", "", "func F§(a int) bool {\nif a == 0 {\n⟦a¦true⟧\n}\n⟦a¦O§(a - 1)⟧\n}\n\nfunc O§(a int) bool {\nif a == 0 {\n⟦a¦false⟧\n}\n⟦a¦F§(a - 1)⟧\n}\n", []string{"bool"}, one(3)...)
	// methods and receivers
	add("method/value", "type V§ struct{ N int }\n", "func (v V§) Get(a int) int {\nif a > v.N {\n⟦a¦v.N⟧\n}\n⟦a¦a⟧\n}\n", I, "x := V§{1}; return []any{x.Get(0), x.Get(5)}")
	add("method/pointer", "type V§ struct{ N int }\n", "func (v *V§) Set(a int) {\nif a == 0 {\n⟦a⟧\n}\nv.N = a\n⟦END:a⟧\n}\n", nil, "x := V§{1}; x.Set(0); n := x.N; x.Set(5); return []any{n, x.N}")
	add("method/unnamed receiver", "type V§ struct{ N int }\n", "func (V§) Get(a int) int {\n⟦a¦a + 1⟧\n}\n", I, "return []any{V§{}.Get(3)}")
	add("method/blank receiver", "type V§ struct{ N int }\n", "func (_ *V§) Get(_ int, a int) int {\n⟦a¦a + 1⟧\n}\n", I, "return []any{(&V§{}).Get(1, 3)}")
	add("method/generic", "type V§[X any] struct{ N X }\n", "func (v *V§[X]) Get(a int) X {\nif a > 1 {\nz := v.N\n⟦a,z¦z⟧\n}\n⟦a¦v.N⟧\n}\n", []string{"X"}, "x := V§[string]{\"q\"}; return []any{x.Get(0), x.Get(5)}").plain = true
	add("method/unnamed params", "", "func F§(int, string) int {\n⟦¦3⟧\n}\n", I, "return []any{F§(1, \"\")}")
	add("method/variadic", "", "func F§(a int, rest ...string) int {\nfor _, s := range rest {\nif s == \"\" {\n⟦a,rest,s¦a⟧\n}\n}\n⟦a,rest¦len(rest)⟧\n}\n", I, "return []any{F§(1), F§(2, \"x\"), F§(3, \"x\", \"\")}")
	// generics
	for _, e := range []string{"x", "y", "*new(X)", "id§(x)"} {
		add("generic/"+e, "func id§[Y any](y Y) Y { return y }\n", "func F§[X any](x, y X, c bool) X {\nif c {\n⟦x,y,c¦"+e+"⟧\n}\nz := x\n⟦x,y,c,z¦z⟧\n}\n", []string{"X"}, "return []any{F§(1, 2, true), F§(\"a\", \"b\", false)}").plain = true
	}
	add("generic/constraint", "type numeric§ interface{ ~int | ~float64 }\n", "func F§[X numeric§](x X) (X, error) {\nif x > 1 {\n⟦x¦x * 2¦nil⟧\n}\n⟦x¦0¦errOne⟧\n}\n", []string{"X", "error"}, "a, b := F§(3); c, d := F§(0.5); return []any{a, b, c, d}").plain = true
	add("generic/slice", "", "func F§[S []X, X any](s S) S {\nif len(s) == 0 {\n⟦s¦nil⟧\n}\n⟦s¦s[1:]⟧\n}\n", []string{"S"}, "return []any{F§([]int{1, 2}), F§([]int{})}").plain = true
	add("generic/lower", "", "func F§[elem any](x elem) elem {\n⟦x¦x⟧\n}\n", []string{"elem"}, "return []any{F§(4)}").plain = true
	add("generic/map", "", "func F§[K comparable, V any](m map[K]V, k K) (V, bool) {\nv, ok := m[k]\nif !ok {\nvar zero V\n⟦m,k,v,ok,zero¦zero¦false⟧\n}\n⟦m,k,v,ok¦v¦ok⟧\n}\n", []string{"V", "bool"},
		"a, b := F§(map[string]int{\"k\": 3}, \"k\"); c, d := F§(map[string]int{\"k\": 3}, \"z\"); return []any{a, b, c, d}").plain = true
	// names that hide the result type
	for _, e := range [][2]string{{"call", "mk§(1)"}, {"nil", "nil"}, {"lit", "mk§(2).self()"}, {"own", "node§"}, {"field", "other§.next"}} {
		d := "type node§ struct {\nN int\nnext *node§\n}\n\nvar other§ = &node§{5, &node§{6, nil}}\n\nfunc mk§(n int) *node§ { return &node§{N: n} }\n\nfunc (n *node§) self() *node§ { return n }\n"
		add("shadow/param/"+e[0], d, "func F§(node§ *node§) *node§ {\n⟦node§¦"+e[1]+"⟧\n}\n", []string{"*node§"}, "return []any{F§(mk§(3))}")
		add("shadow/receiver/"+e[0], d, "func (node§ *node§) M() *node§ {\n⟦¦"+e[1]+"⟧\n}\n", []string{"*node§"}, "return []any{mk§(3).M()}")
		add("shadow/local/"+e[0], d, "func F§(a int) *node§ {\nnode§ := mk§(a)\n_ = node§\nif a > 1 {\n⟦a,node§¦"+e[1]+"⟧\n}\n⟦a,node§¦"+e[1]+"⟧\n}\n", []string{"*node§"}, "return []any{F§(1), F§(2)}")
		add("shadow/inner/"+e[0], d, "func F§(a int) *node§ {\nif node§ := mk§(a); node§.N > 1 {\n⟦a,node§¦"+e[1]+"⟧\n}\n⟦a¦mk§(7)⟧\n}\n", []string{"*node§"}, "return []any{F§(1), F§(2)}")
		add("shadow/result/"+e[0], d, "func F§(a int) (node§ *node§) {\nnode§ = mk§(a)\n⟦a,node§¦"+e[1]+"⟧\n}\n", []string{"*node§"}, "return []any{F§(1), F§(2)}")
	}
	add("shadow/iface", "type shape§ interface{ Area() int }\n", "func F§(shape§ shape§) shape§ {\nif shape§ == nil {\n⟦shape§¦T{1, \"\"}⟧\n}\n⟦shape§¦&T{2, \"\"}⟧\n}\n", []string{"shape§"}, "return []any{F§(nil), F§(T{})}")
	add("shadow/number", "type state§ int\n\nconst idle§ state§ = 4\n", "func F§(state§ state§) state§ {\nif state§ > 3 {\n⟦state§¦3⟧\n}\nif state§ > 2 {\n⟦state§¦1 + 1⟧\n}\nif state§ > 1 {\n⟦state§¦idle§ + 1⟧\n}\n⟦state§¦idle§⟧\n}\n", []string{"state§"}, "return []any{F§(0), F§(2), F§(3), F§(4)}")
	add("shadow/error", "", "func F§(error string) (int, error) {\nif error == \"\" {\n⟦error¦1¦errOne⟧\n}\n⟦error¦2¦&E{2}⟧\n}\n", []string{"int", "error"}, "a, b := F§(\"\"); c, d := F§(\"x\"); return []any{a, b, c, d}")
	add("shadow/error nil", "", "func F§(error string) (int, error) {\n⟦error¦1¦nil⟧\n}\n", []string{"int", "error"}, "a, b := F§(\"\"); return []any{a, b}")
	add("shadow/string", "", "func F§(string string) string {\nif string == \"\" {\n⟦string¦\"empty\"⟧\n}\n⟦string¦string + \"!\"⟧\n}\n", []string{"string"}, "return []any{F§(\"\"), F§(\"x\")}")
	add("shadow/package", "", "func F§(b string) (*bytes.Buffer, error) {\nbytes := bytes.NewBufferString(b)\nif b == \"\" {\n⟦b,bytes¦nil¦errOne⟧\n}\n⟦b,bytes¦bytes¦nil⟧\n}\n", []string{"*bytes.Buffer", "error"}, "x, y := F§(\"\"); z, w := F§(\"q\"); return []any{x == nil, y, z.String(), w}").imps = []string{"bytes"}
	add("shadow/package call", "", "func F§(b string) *bytes.Buffer {\nbytes := bytes.NewBufferString(b)\n⟦b¦func() (q *E) { return nil }2⟧\n}\n", []string{"*bytes.Buffer"}, "return nil")
	out = out[:len(out)-1]
	// standard library types, imports
	add("import/error", "", "func F§(a int) error {\nif a > 1 {\n⟦a¦fmt.Errorf(\"bad %d: %w\", a, io.EOF)⟧\n}\nif a > 0 {\n⟦a¦io.EOF⟧\n}\n⟦a¦nil⟧\n}\n", []string{"error"}, one(3)...).imps = []string{"fmt", "io"}
	add("import/const", "", "func F§(a int) (uint64, float64) {\nif a > 1 {\n⟦a¦math.MaxUint64¦math.Pi⟧\n}\n⟦a¦1¦math.MaxFloat64⟧\n}\n", []string{"uint64", "float64"}, "a, b := F§(0); c, d := F§(2); return []any{a, b, c, d}").imps = []string{"math"}
	add("import/duration", "", "func F§(a int) time.Duration {\nif a > 1 {\n⟦a¦5⟧\n}\nif a > 0 {\n⟦a¦2 * time.Second⟧\n}\n⟦a¦time.Hour⟧\n}\n", []string{"time.Duration"}, one(3)...).imps = []string{"time"}
	add("import/builder", "", "func F§(a int) string {\nvar sb strings.Builder\nfor i := range a {\nfmt.Fprint(&sb, i)\nif sb.Len() > 2 {\n⟦a,i¦sb.String()⟧\n}\n}\n⟦a¦strings.ToUpper(sb.String() + \"z\")⟧\n}\n", []string{"string"}, one(4)...).imps = []string{"fmt", "strings"}
	// returned values are those at the time of the return
	add("value/mutated later", "", "func F§(a int) (*T, []int) {\nt := &T{a, \"\"}\ns := []int{a}\ndefer func() {\nt.N = 100\ns[0] = 100\n}()\n⟦a,t,s¦t¦s⟧\n}\n", []string{"*T", "[]int"}, "x, y := F§(1); return []any{x, y}")
	add("value/order", "", "func F§(a int) (int, int, int) {\n⟦a¦ti(\"1\", a)¦ti(\"2\", 2)¦ti(\"3\", 3)⟧\n}\n", []string{"int", "int", "int"}, "x, y, z := F§(1); return []any{x, y, z}")
	add("value/chan order", "", "func F§(a int) (int, int) {\nc := make(chan int, 2)\nc <- 1\nc <- 2\n⟦a¦<-c¦<-c⟧\n}\n", []string{"int", "int"}, "x, y := F§(1); return []any{x, y}")
	add("value/short circuit", "", "func F§(a int) bool {\n⟦a¦a > 0 && ti(\"c\", a) > 1 || ti(\"d\", a) == 0⟧\n}\n", []string{"bool"}, one(2)...)
	add("value/closure capture", "", "func F§(a int) int {\nx := a\nf := func() int { x++; return x }\nif a > 1 {\n⟦a,x¦f()⟧\n}\n⟦a,x¦f() + f()⟧\n}\n", I, one(2)...)
	out[len(out)-1].src = strings.ReplaceAll(out[len(out)-1].src, "⟦a,x¦", "⟦a¦") // x is captured after the returned call
	add("value/swap", "", "func F§(a, b int) (x, y int) {\nx, y = a, b\n⟦a,b,x,y¦y¦x⟧\n}\n", []string{"int", "int"}, "x, y := F§(1, 2); return []any{x, y}")
	add("value/named swap", "", "func F§(a int) (x, y int) {\nx, y = a, a+1\nif a > 1 {\n⟦a,x,y¦y¦x⟧\n}\n⟦a,x,y¦y + 1¦x + 1⟧\n}\n", []string{"int", "int"}, "x, y := F§(1); z, w := F§(2); return []any{x, y, z, w}")
	add("layout/one line", "", "func F§(a int) int { if a > 1 { ⟦a¦5⟧ }; ⟦a¦a⟧ }\n", I, one(2)...)
	add("layout/one line void", "", "func F§(a int) { if a > 1 { ⟦a⟧ }; trn(a)\n⟦END:a⟧ }\n", nil, "F§(1); F§(2); return nil")
	add("layout/empty", "", "func F§(a int) {\n⟦END:a⟧\n}\n", nil, "F§(1); return nil")
	add("layout/empty line", "", "func F§(a int) {\n⟦END:a⟧}\n", nil, "F§(1); return nil")
	add("layout/no params", "", "func F§() {\n⟦END:⟧\n}\n", nil, "F§(); return nil")
	add("layout/doc", "", "// F§ does things.\n//\n//go:noinline\nfunc F§(a int) int {\n⟦a¦a⟧\n}\n\n// G§ is next.\nfunc G§(a int) int { // brace\n// lead\n⟦a¦a + 1⟧ // tail\n}\n", I, "return []any{F§(1), G§(1)}")
	for _, cm := range [][2]string{{"noinline", "//go:noinline"}, {"doc", "// G§ is next"}, {"block", "/* G§ is next */"}, {"long", "/*\n many\n lines\n*/"}} {
		sep := "\n"
		add("layout/next/"+cm[0], "", "func F§(a int) int {\n⟦a¦a⟧\n}\n\n"+cm[1]+sep+"func G§(a int) int {\n⟦a¦a + 1⟧\n}\n", I, "return []any{F§(1), G§(1)}")
		add("layout/next void/"+cm[0], "", "func F§(a int) {\n⟦END:a⟧\n}\n\n"+cm[1]+sep+"func G§(a int) {\ntrn(a)\n⟦END:a⟧\n}\n"+cm[1]+"\n", nil, "F§(1); G§(1); return nil")
		if cm[0] == "noinline" {
			q := &out[len(out)-1]
			q.src = strings.TrimSuffix(q.src, cm[1]+"\n")
		}
	}
	for _, cm := range [][2]string{{"arg", "x := inc(a /* n */)\n⟦a,x¦inc(x /* m */) /* e */⟧"}, {"args", "x := ti( /* s */ \"q\", a /* n */)\n⟦a,x¦ti(\"q\" /* s */, x)⟧"}, {"first", "/* f */ x := a /* g */\n⟦a,x¦x⟧"}, {"first line", "// f\nx := a // g\n⟦a,x¦x⟧ // h"},
		{"lit", "x := T{ /* n */ a, \"s\" /* s */}\n⟦a,x¦x.N⟧"}, {"multi", "x := ti(\n\"q\", // first\na, // second\n)\n⟦a,x¦ti(\n\"q\", // third\nx,\n)⟧"}, {"if", "if /* c */ a > 1 /* d */ {\n⟦a¦1⟧\n}\n⟦a¦ /* z */ 2⟧"}, {"op", "x := a + /* p */ 1\n⟦a,x¦x + // q\n1⟧"}} {
		add("inline/"+cm[0], "", "func F§(a int) int {\n"+cm[1]+"\n}\n", I, one(2)...)
		add("inline two/"+cm[0], "", "func F§(a int) int {\n"+cm[1]+"\n}\n\n// G§\nfunc G§(a int) int { /* open */\n"+cm[1]+"\n/* close */ }\n", I, append(one(2), "return []any{G§(1), G§(2)}")...)
	}
	add("layout/two functions", "", "func F§(a int) int {\n⟦a¦G§(a)⟧\n}\n\nfunc G§(a int) int {\nif a > 1 {\n⟦a¦1⟧\n}\n⟦a¦2⟧\n}\n", I, one(2)...)
	add("layout/forever", "", "func F§(a int) int {\nfor {\na++\nif a > 3 {\n⟦a¦a⟧\n}\n}\n}\n", I, one(2)...)
	add("layout/terminating switch", "", "func F§(a int) int {\nswitch {\ncase a > 1:\n⟦a¦1⟧\ndefault:\npanic(\"x\")\n}\n}\n", I, one(2)...)
	add("layout/terminating select", "", "func F§(a int) int {\nselect {\ncase v := <-ready(a):\n⟦a,v¦v⟧\ncase <-never:\npanic(\"x\")\n}\n}\n", I, one(2)...)
	add("layout/terminating label", "", "func F§(a int) int {\nL:\nfor {\na++\nif a < 3 {\ncontinue L\n}\n⟦a¦a⟧\n}\n}\n", I, one(2)...)
	add("layout/terminating goto", "", "func F§(a int) int {\nagain:\na++\nif a > 3 {\n⟦a¦a⟧\n}\ngoto again\n}\n", I, one(2)...)
	add("layout/void early", "", "func F§(a int) {\nif a > 1 {\ntr(\"early\")\n⟦a⟧\n}\nx := a\ntrn(x)\n⟦END:a,x⟧\n}\n", nil, "F§(1); F§(2); return nil")
	add("layout/void loop", "", "func F§(a int) {\nfor i := range 5 {\nif i == a {\n⟦a,i⟧\n}\n}\n⟦END:a⟧\n}\n", nil, "F§(1); F§(9); return nil")
	add("layout/void switch end", "", "func F§(a int) {\nswitch {\ncase a > 1:\n⟦a⟧\ncase a > 0:\ntr(\"c\")\n}\n⟦END:a⟧\n}\n", nil, "F§(0); F§(1); F§(2); return nil")
	add("layout/void label end", "", "func F§(a int) {\nif a > 1 {\ngoto end\n}\ntr(\"c\")\nend:\n⟦END:a⟧\n}\n", nil, "F§(0); F§(2); return nil")
	add("layout/void if else return", "", "func F§(a int) {\nif a > 1 {\n⟦a⟧\n} else {\n⟦a⟧\n}\n}\n", nil, "F§(0); F§(2); return nil")
	add("layout/void forever", "", "func F§(a int) {\nfor {\na++\nif a > 3 {\n⟦a⟧\n}\n}\n}\n", nil, "F§(0); return nil")
	add("layout/void panic end", "", "func F§(a int) {\nif a > 1 {\n⟦a⟧\n}\npanic(\"end\")\n}\n", nil, "F§(2); return nil", "F§(1); return nil")
	return out
}
