package cases

import (
	"fmt"
	"strconv"
	"strings"
)

// Types20 are the receiver types functions are registered for.
var Types20 = []string{"str", "arr", "int", "float", "bool"}

// Builtin20 lists the built-in functions per receiver type; rand and shuffle
// are left out of comparisons but never used as fresh names.
var Builtin20 = map[string][]string{
	"str":   {"len", "split", "raw", "trim", "trimRight", "trimLeft", "upper", "lower", "capitalize", "reverse", "contains", "truncate", "decimal", "at", "first", "last", "repeat"},
	"arr":   {"len", "join", "reverse", "slice", "contains", "append", "prepend", "rand", "shuffle"},
	"float": {"int", "str", "abs", "ceil", "floor", "round"},
	"int":   {"float", "abs", "str", "len", "decimal"},
	"bool":  {"binary", "then"},
}

func IsBuiltin20(typ, name string) bool {
	for _, b := range Builtin20[typ] {
		if b == name {
			return true
		}
	}
	return false
}

var names20 = []string{"fn", "Fn", "fN", "fnn", "fn_", "_fn", "f", "fn2", "x1y2", "veryLongFunctionNameForAReceiver", "str", "int", "len", "upper", "abs", "binary", "join", "first", "then", "float", "String", "index", "loop", "nilly", "Equals"}

// LitSrc writes a value as template source.
func LitSrc(v *V) string {
	switch v.K {
	case "n":
		return "nil"
	case "b":
		if v.I != 0 {
			return "true"
		}
		return "false"
	case "i":
		if v.I < 0 {
			return "(" + strconv.FormatInt(v.I, 10) + ")"
		}
		return strconv.FormatInt(v.I, 10)
	case "f":
		if strings.HasPrefix(v.S, "-") {
			return "(" + v.S + ")"
		}
		return v.S
	case "s":
		if v.I == 1 {
			return "'" + v.S + "'"
		}
		return `"` + v.S + `"`
	case "a":
		var p []string
		for i := range v.E {
			p = append(p, LitSrc(&v.E[i]))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case "m":
		var p []string
		for i := range v.E {
			p = append(p, v.N[i]+": "+LitSrc(&v.E[i]))
		}
		return "{ " + strings.Join(p, ", ") + " }"
	}
	panic("no literal for " + v.K)
}

// ExprSrc writes an expression as template source.
func ExprSrc(x *Expr) string {
	list := func(es []*Expr) string {
		var p []string
		for _, e := range es {
			p = append(p, ExprSrc(e))
		}
		return strings.Join(p, ", ")
	}
	switch x.K {
	case "lit":
		return LitSrc(x.V)
	case "var", "known":
		return x.Name
	case "prop":
		return ExprSrc(x.E[0]) + "." + x.Name
	case "idx":
		return ExprSrc(x.E[0]) + "[" + strconv.Itoa(x.I) + "]"
	case "arr":
		return "[" + list(x.E) + "]"
	case "obj":
		var p []string
		for i, e := range x.E {
			p = append(p, x.N[i]+": "+ExprSrc(e))
		}
		return "{ " + strings.Join(p, ", ") + " }"
	case "cond":
		return "(" + ExprSrc(x.E[0]) + " ? " + ExprSrc(x.E[1]) + " : " + ExprSrc(x.E[2]) + ")"
	case "call":
		return ExprSrc(x.E[0]) + "." + x.Name + "(" + list(x.E[1:]) + ")"
	}
	panic("expression kind " + x.K)
}

// Ctx20 tells how an expression is placed. page is the source with %s for the
// expression (and %r for its receiver), ref the same text with the value
// passed as the variable rv. The names in files hold what else the page needs;
// flat is what a reader of ref may assume: the page renders as ref does.
type Ctx20 struct {
	Name string
	Page string
	Ref  string
	On   string // a type: only where the value has it; scalar: no array
	Recv bool   // %r is the receiver, bound to q
	Tpl  bool   // only as a page of the template directory
}

var Ctxs20 = []Ctx20{
	{Name: "print", Page: "a {{ %s }} b", Ref: "a {{ rv }} b"},
	{Name: "assign", Page: "{{ v20 = %s }}[{{ v20 }}]", Ref: "{{ v20 = rv }}[{{ v20 }}]"},
	{Name: "if", Page: "@if(%s)yes@else no@end", Ref: "@if(rv)yes@else no@end"},
	{Name: "elseif", Page: "@if(false)yes@elseif(%s)second@else no@end", Ref: "@if(false)yes@elseif(rv)second@else no@end"},
	{Name: "tern", Page: `{{ %s ? "t" : "f" }}`, Ref: `{{ rv ? "t" : "f" }}`},
	{Name: "each", Page: "@each(e20 in %s)({{ e20 }},{{ loop.index }})@end", Ref: "@each(e20 in rv)({{ e20 }},{{ loop.index }})@end", On: "arr"},
	{Name: "idx", Page: "[{{ %s[0] }}]", Ref: "[{{ rv[0] }}]", On: "arr"},
	{Name: "len", Page: "[{{ %s.len() }}]", Ref: "[{{ rv.len() }}]", On: "arr"},
	{Name: "dump", Page: "@dump(%s)", Ref: "@dump(rv)"},
	{Name: "arr", Page: "{{ [1, %s] }}", Ref: "{{ [1, rv] }}"},
	{Name: "obj", Page: "{{ { k: %s } }}", Ref: "{{ { k: rv } }}"},
	{Name: "objk", Page: "{{ { k: %s }.k }}", Ref: "{{ { k: rv }.k }}"},
	{Name: "eq", Page: "{{ [%s] == [1] }}", Ref: "{{ [rv] == [1] }}"},
	{Name: "for", Page: "@for(i20 = 0; i20 < 2; i20++)<{{ %s }}>@end", Ref: "@for(i20 = 0; i20 < 2; i20++)<{{ rv }}>@end"},
	{Name: "many", Page: "@for(i20 = 0; i20 < 260; i20++){{ %s }},@end", Ref: "@for(i20 = 0; i20 < 260; i20++){{ rv }},@end"},
	{Name: "inner", Page: "@if(true)@each(e20 in [1, 2])<{{ %s }}>@end@end", Ref: "@if(true)@each(e20 in [1, 2])<{{ rv }}>@end@end"},
	{Name: "twice", Page: "{{ %s }}|{{ %s }}", Ref: "{{ rv }}|{{ rv }}"},
	{Name: "loopvar", Page: "@each(q20 in [%r])<{{ %s }}>@end", Ref: "@each(q20 in [1])<{{ rv }}>@end", Recv: true},
	{Name: "local", Page: "{{ q20 = %r; %s }}", Ref: "{{ q20 = 1; rv }}", Recv: true},
	{Name: "not", Page: "{{ !(%s) }}", Ref: "{{ !(rv) }}"},
	{Name: "ifnot", Page: "@if(!(%s))yes@else no@end", Ref: "@if(!(rv))yes@else no@end"},
	{Name: "neg", Page: "{{ -(%s) }}", Ref: "{{ -(rv) }}"},
	{Name: "inc", Page: "{{ v20 = %s; v20++ }}", Ref: "{{ v20 = rv; v20++ }}"},
	{Name: "plus", Page: "{{ %s + %s }}", Ref: "{{ rv + rv }}"},
	{Name: "times", Page: "{{ (%s) * (%s) }}", Ref: "{{ (rv) * (rv) }}"},
	{Name: "minus", Page: "{{ %s - %s }}", Ref: "{{ rv - rv }}"},
	{Name: "breakif", Page: "@each(e20 in [1, 2])<{{ e20 }}@breakIf(%s)>@end", Ref: "@each(e20 in [1, 2])<{{ e20 }}@breakIf(rv)>@end"},
	{Name: "contif", Page: "@each(e20 in [1, 2])<{{ e20 }}@continueIf(%s)>@end", Ref: "@each(e20 in [1, 2])<{{ e20 }}@continueIf(rv)>@end"},
	{Name: "gt", Page: "{{ %s > %s }}", Ref: "{{ rv > rv }}"},
	{Name: "eqsc", Page: "{{ %s == %s }}", Ref: "{{ rv == rv }}", On: "scalar"},
	{Name: "upper", Page: "{{ %s.upper() }}", Ref: "{{ rv.upper() }}", On: "str"},
	{Name: "strlen", Page: "{{ %s.len() }}", Ref: "{{ rv.len() }}", On: "str"},
	{Name: "abs", Page: "{{ %s.abs() }}", Ref: "{{ rv.abs() }}", On: "int"},
	{Name: "fstr", Page: "{{ %s.str() }}", Ref: "{{ rv.str() }}", On: "float"},
	{Name: "binary", Page: "{{ %s.binary() }}", Ref: "{{ rv.binary() }}", On: "bool"},
	{Name: "join", Page: "{{ %s.join('-') }}", Ref: "{{ rv.join('-') }}", On: "arr"},
	{Name: "each2", Page: "@each(e20 in %s)({{ e20 }}@if(loop.last)!@end)@else none@end", Ref: "@each(e20 in rv)({{ e20 }}@if(loop.last)!@end)@else none@end", On: "arr"},
	{Name: "forinit", Page: "@for(i20 = %s; false; i20++)x@else[{{ 1 }}]@end", Ref: "@for(i20 = rv; false; i20++)x@else[{{ 1 }}]@end"},
	{Name: "forcond", Page: "@for(i20 = 0; i20 < 2 ? %s : false; i20++)<{{ i20 }}>@end", Ref: "@for(i20 = 0; i20 < 2 ? rv : false; i20++)<{{ i20 }}>@end"},
	{Name: "index", Page: "[{{ [7, 8, 9][%s] }}]", Ref: "[{{ [7, 8, 9][rv] }}]", On: "int"},
	{Name: "key", Page: `[{{ { abc: 1, a: 2 }[%s] }}]`, Ref: `[{{ { abc: 1, a: 2 }[rv] }}]`, On: "str"},
	{Name: "barg", Page: `[{{ "a0 1.5".contains(%s) }}]`, Ref: `[{{ "a0 1.5".contains(rv) }}]`},
	{Name: "append", Page: `[{{ [1].append(%s, nil, %s) }}]`, Ref: `[{{ [1].append(rv, nil, rv) }}]`},
	{Name: "then", Page: `[{{ true.then(%s) }}{{ false.then(1, %s) }}]`, Ref: `[{{ true.then(rv) }}{{ false.then(1, rv) }}]`},
	{Name: "dump2", Page: "@dump(1, %s, { a: [%s] })", Ref: "@dump(1, rv, { a: [rv] })"},
	{Name: "else", Page: "@if(false)no@else({{ %s }})@end", Ref: "@if(false)no@else({{ rv }})@end"},
	{Name: "eachelse", Page: "@each(e20 in [])no@else({{ %s }})@end", Ref: "@each(e20 in [])no@else({{ rv }})@end"},
	{Name: "stmts", Page: "{{ a20 = 1; %s; a20 }}", Ref: "{{ a20 = 1; rv; a20 }}"},
	{Name: "lines", Page: "{{\n\n  %s\n}}\n", Ref: "{{\n\n  rv\n}}\n"},
	{Name: "reassign", Page: "{{ v20 = %s }}{{ v20 = %s }}{{ v20 }}", Ref: "{{ v20 = rv }}{{ v20 = rv }}{{ v20 }}"},
	{Name: "inloop", Page: "@each(e20 in [1, 2])@if(e20 == 2){{ v20 = %s; v20 }}@end{{ loop.index }}@end", Ref: "@each(e20 in [1, 2])@if(e20 == 2){{ v20 = rv; v20 }}@end{{ loop.index }}@end"},
	{Name: "comps", Page: `<@component("c20/show", { a: [%s] })><@component("c20/show", { a: %s })>`, Ref: "<[{{ [rv] }}]><[{{ rv }}]>", Tpl: true},
	{Name: "complay", Page: `@use("c20/lay")@insert("x")@each(e20 in [0])@component("c20/show", { a: %s })@end@end`, Ref: "<h>[{{ rv }}]</h>", Tpl: true},
	{Name: "comp", Page: `<@component("c20/show", { a: %s })>`, Ref: "<[{{ rv }}]>", Tpl: true},
	{Name: "slot", Page: `<@component("c20/slotted")@slot("s")({{ %s }})@end@end>`, Ref: "<[({{ rv }})]>", Tpl: true},
	{Name: "insarg", Page: `@use("c20/lay")@insert("x", %s)`, Ref: "<h>{{ rv }}</h>", Tpl: true},
	{Name: "insblk", Page: `@use("c20/lay")@insert("x")({{ %s }})@end`, Ref: "<h>({{ rv }})</h>", Tpl: true},
}

func CtxByName(n string) *Ctx20 {
	for i := range Ctxs20 {
		if Ctxs20[i].Name == n {
			return &Ctxs20[i]
		}
	}
	return nil
}

// PageSrc20 is the template an operation evaluates.
func PageSrc20(op *Op) string {
	c := CtxByName(op.Ctx)
	x := op.X
	if c.Recv && x.K == "call" {
		y := *x
		y.E = append([]*Expr{{K: "var", Name: "q20"}}, x.E[1:]...)
		r := strings.ReplaceAll(c.Page, "%r", ExprSrc(x.E[0]))
		return strings.ReplaceAll(r, "%s", ExprSrc(&y))
	}
	if c.Recv {
		return "{{ " + ExprSrc(x) + " }}"
	}
	return strings.ReplaceAll(c.Page, "%s", ExprSrc(x))
}

// RefSrc20 is the same template over the variable rv.
func RefSrc20(op *Op) string {
	c := CtxByName(op.Ctx)
	if c.Recv && op.X.K != "call" {
		return "{{ rv }}"
	}
	return c.Ref
}

// DynOps are the operations that evaluate op.X.
func IsCall20(op *Op) bool { return op.X != nil }

type gen20 struct {
	r     *Rng
	names []string
	data  V
	vars  map[string][]string // type -> variables
	nextF int
	known map[string]bool // "type.name" registered at this point
	count []string        // integer functions that count
	depth int
}

func (g *gen20) scalar(lit bool) V {
	r := g.r
	switch r.N(5) {
	case 0:
		return g.val("str", lit)
	case 1:
		return g.val("int", lit)
	case 2:
		return g.val("float", lit)
	case 3:
		return g.val("bool", lit)
	}
	return VNil()
}

// val makes a value of a type; a literal one can be written in a template.
func (g *gen20) val(typ string, lit bool) V {
	r := g.r
	switch typ {
	case "str":
		ss := []string{"", "a", "abc", "Hello World", "ünïcödé", "漢字", "a b  c", "0", "12", "true", "{single}", "a@b", "x-y_z", "100%", "%d", "line1", "zz top", "@end", "}} ) ]"}
		if !lit {
			ss = append(ss, "<b>&amp;", "\"q\"", "it's", "a\nb", "\xff\xfe", "\x00nul", "{{ x }}", strings.Repeat("long ", 40), "\\")
		}
		v := VStr(ss[r.N(len(ss))])
		if lit && r.P(50) {
			v.I = 1 // single quotes
		}
		return v
	case "int":
		is := []int64{0, 1, 2, 7, 42, 255, 65536, 1000000007, 9007199254740993, 9223372036854775807}
		v := VInt(is[r.N(len(is))])
		if r.P(30) {
			v.I = -v.I
		}
		if !lit {
			if r.P(8) {
				v.I = -9223372036854775808
			}
			if r.P(25) {
				v.K = r.Pick("i8", "i16", "i32", "i64", "u8", "u16", "u32")
				v.I = int64(r.N(100))
			}
		}
		return v
	case "float":
		fs := []string{"0.0", "1.0", "1.5", "2.25", "0.1", "3.14159", "100.0", "123456789.125", "0.000001", "1234567890123.5"}
		s := fs[r.N(len(fs))]
		if r.P(25) && s != "0.0" {
			s = "-" + s
		}
		v := VFloat(s)
		if !lit {
			if r.P(15) {
				v.S = r.Pick("1e21", "1e-9", "NaN", "+Inf", "-Inf", "-0", "1.7976931348623157e308", "5e-324")
			}
			if r.P(15) {
				v = V{K: "f32", S: r.Pick("1.5", "0.1", "-2.25", "16777216")}
			}
		}
		return v
	case "bool":
		return VBool(r.P(50))
	case "nil":
		return VNil()
	case "arr":
		k := []int{0, 1, 2, 3, 5}[r.N(5)]
		if g.depth < 2 && r.P(4) { // long
			v := V{K: "a"}
			for i, n := 0, r.In(10, 300); i < n; i++ {
				v.E = append(v.E, g.scalar(lit))
			}
			return v
		}
		if g.depth < 1 && r.P(5) { // deep
			v := V{K: "a", E: []V{g.scalar(lit)}}
			for i, n := 0, r.In(5, 40); i < n; i++ {
				if r.P(30) {
					v = VMap("deep", v)
				}
				v = VArr(v)
				if r.P(20) {
					v.E = append(v.E, g.scalar(lit))
				}
			}
			return v
		}
		if !lit && r.P(25) {
			v := V{K: r.Pick("as", "ai", "ab", "af")}
			for i := 0; i < k; i++ {
				switch v.K {
				case "as":
					v.E = append(v.E, g.val("str", true))
				case "ai":
					v.E = append(v.E, VInt(int64(r.N(100)-50)))
				case "ab":
					v.E = append(v.E, VBool(r.P(50)))
				case "af":
					v.E = append(v.E, VFloat(r.Pick("1.5", "2.25", "-0.5", "10.0")))
				}
			}
			return v
		}
		v := V{K: "a"}
		for i := 0; i < k; i++ {
			v.E = append(v.E, g.any(lit))
		}
		return v
	case "obj":
		v := V{K: "m"}
		if !lit && r.P(25) {
			v.K = r.Pick("ms", "st")
		}
		if g.depth < 2 && r.P(4) { // many entries
			v := V{K: "m"}
			for i, n := 0, r.In(8, 80); i < n; i++ {
				v.Set("k"+letters(i+1)+r.Pick("", "", "X"), g.scalar(lit))
			}
			return v
		}
		for i, k := 0, r.N(4); i < k; i++ {
			n := r.Pick("a", "b", "Cc", "key_1", "zeta", "name")
			var e V
			if v.K == "ms" {
				e = g.val("str", false)
			} else {
				e = g.any(lit)
			}
			if v.K == "st" && (n == "a" || n == "b") {
				n = strings.ToUpper(n)
			}
			v.Set(n, e)
		}
		if v.K == "st" { // fields are exported names, each once
			w := V{K: "st"}
			for i := range v.N {
				w.Set(strings.ToUpper(v.N[i][:1])+v.N[i][1:], v.E[i])
			}
			v = w
		}
		return v
	}
	panic(typ)
}

func (g *gen20) any(lit bool) V {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth < 4 {
		if g.r.P(18) {
			return g.val("arr", lit)
		}
		if g.r.P(18) {
			return g.val("obj", lit)
		}
	}
	v := g.scalar(lit)
	if !lit && g.r.P(5) && v.K != "n" {
		v = V{K: "p", E: []V{v}}
	}
	return v
}

func (g *gen20) typ() string { return Types20[g.r.N(len(Types20))] }

// known20 are expressions of every type whose value is beyond doubt.
var known20 = map[string][]struct {
	src string
	v   V
}{
	"int":   {{"(1 + 2)", VInt(3)}, {"(2 * 3 - 1)", VInt(5)}, {"[1, 2].len()", VInt(2)}, {"true.binary()", VInt(1)}, {"{ a: { b: 4 } }.a.b", VInt(4)}, {"[[8, 9], 3][0][1]", VInt(9)}, {"((5))", VInt(5)}, {"(true ? 6 : 7)", VInt(6)}, {`"abc".len()`, VInt(3)}, {"(1 ? 2 : 3)", VInt(2)}, {"(7 / 2)", VInt(3)}},
	"float": {{"(1.5 + 1.0)", VFloat("2.5")}, {"7.float()", VFloat("7.0")}, {"[0.5][0]", VFloat("0.5")}, {"(0.5 * 3.0)", VFloat("1.5")}, {"{ f: 2.5 }.f", VFloat("2.5")}},
	"str":   {{`("a" + "b")`, VStr("ab")}, {`"ab".upper()`, VStr("AB")}, {`["x", "y"].join("-")`, VStr("x-y")}, {`"a,b".split(",")[1]`, VStr("b")}, {`{ s: "t" }.s`, VStr("t")}, {`(("p"))`, VStr("p")}, {`5.str()`, VStr("5")}},
	"bool":  {{"(2 > 1)", VBool(true)}, {"(!true)", VBool(false)}, {"(1 == 2)", VBool(false)}, {`("a" == "a")`, VBool(true)}, {"[1, 2].contains(2)", VBool(true)}, {"{ t: true }.t", VBool(true)}, {"(!!true)", VBool(true)}},
	"arr":   {{`"a,b".split(",")`, VArr(VStr("a"), VStr("b"))}, {"[3, 1].reverse()", VArr(VInt(1), VInt(3))}, {"[[1, 2], 3][0]", VArr(VInt(1), VInt(2))}, {"{ l: [nil] }.l", VArr(VNil())}, {"([true])", VArr(VBool(true))}, {"[1].append(2)", VArr(VInt(1), VInt(2))}, {"[1, 2, 3].slice(1)", VArr(VInt(2), VInt(3))}},
}

// term makes an expression of a type without calls.
func (g *gen20) term(typ string) *Expr {
	r := g.r
	if ks := known20[typ]; len(ks) > 0 && r.P(12) {
		k := ks[r.N(len(ks))]
		return &Expr{K: "known", Name: k.src, V: &k.v}
	}
	if vs := g.vars[typ]; len(vs) > 0 && r.P(45) {
		return &Expr{K: "var", Name: vs[r.N(len(vs))]}
	}
	if typ != "nil" && r.P(12) { // an element of a variable array
		return &Expr{K: "idx", I: r.N(2), E: []*Expr{{K: "var", Name: "two" + typ}}}
	}
	if typ != "nil" && r.P(12) {
		return &Expr{K: "prop", Name: "m" + typ, E: []*Expr{{K: "var", Name: "box"}}}
	}
	if r.P(8) {
		b := VBool(r.P(50))
		return &Expr{K: "cond", E: []*Expr{{K: "lit", V: &b}, g.term(typ), g.term(typ)}}
	}
	v := g.val(typ, true)
	return &Expr{K: "lit", V: &v}
}

func (g *gen20) arg(depth int) *Expr {
	r := g.r
	switch {
	case depth > 0 && r.P(25):
		return g.call(g.typ(), depth-1)
	case r.P(12):
		x := &Expr{K: "arr"}
		for i, n := 0, r.N(4); i < n; i++ {
			x.E = append(x.E, g.arg(depth-1))
		}
		return x
	case r.P(12):
		x := &Expr{K: "obj"}
		for i, n := 0, r.N(3); i < n; i++ {
			x.N = append(x.N, "k"+strconv.Itoa(i))
			x.E = append(x.E, g.arg(depth-1))
		}
		return x
	}
	t := r.Pick("str", "arr", "int", "float", "bool", "nil", "obj")
	return g.term(t)
}

// call makes a call whose receiver has type typ; a function returns a value
// of its receiver's type, so chains keep the type.
func (g *gen20) call(typ string, depth int) *Expr {
	r := g.r
	x := &Expr{K: "call", Name: g.names[r.N(len(g.names))]}
	for i := 0; i < 6 && !g.known[typ+"."+x.Name] && r.P(90); i++ {
		x.Name = g.names[r.N(len(g.names))]
	}
	if IsBuiltin20(typ, x.Name) { // only whole expressions call built-ins
		x.Name = "fn"
	}
	if depth > 0 && r.P(25) {
		x.E = append(x.E, g.call(typ, depth-1))
	} else {
		x.E = append(x.E, g.term(typ))
	}
	n := r.N(4)
	if r.P(5) {
		n = r.In(5, 40)
		depth = 0
	}
	for i := 0; i < n; i++ {
		x.E = append(x.E, g.arg(depth))
	}
	return x
}

var behs20 = map[string][]string{
	"str":   {"fmt", "fmt", "id", "const", "empty", "mut", "reent", "reg"},
	"int":   {"fmt", "fmt", "id", "max", "min", "zero", "count", "count"},
	"float": {"fmt", "fmt", "id", "tenth", "huge", "whole"},
	"bool":  {"not", "id", "true", "false"},
	"arr":   {"fmt", "fmt", "id", "nest", "empty", "nil", "typed", "mut", "one", "objs"},
}

func (g *gen20) fn(typ, name string) *FuncSpec {
	g.nextF++
	b := behs20[typ]
	beh := b[g.r.N(len(b))]
	if beh == "typed" || beh == "nest" {
		if x := g.r.Sub(uint64(20200 + g.nextF)); x.P(60) {
			beh = x.Pick("meth", "ptrs", "keys", "tags", "wide")
		}
	}
	if typ == "arr" && beh == "fmt" || typ == "str" && beh == "fmt" {
		if x := g.r.Sub(uint64(20400 + g.nextF)); x.P(50) {
			beh = "grow"
		}
	}
	callable := false
	for _, n := range g.names {
		callable = callable || n == name
	}
	if beh == "count" && callable && !g.known[typ+"."+name] && !IsBuiltin20(typ, name) {
		g.count = append(g.count, name)
	}
	g.known[typ+"."+name] = true
	switch {
	case g.r.P(4):
		beh = "panic"
	case typ == "arr" && g.r.P(3):
		beh = "chan"
	}
	return &FuncSpec{Type: typ, Name: name, Beh: fmt.Sprintf("%s#%d", beh, g.nextF)}
}

// Gen20 makes a history of registrations, loads, calls and faults.
func Gen20(seed uint64) *Case {
	r := NewRng(seed)
	g := &gen20{r: r, vars: map[string][]string{}, known: map[string]bool{}}
	c := &Case{Prop: "C20", Seed: seed}
	w := &c.World
	w.Dir, w.Ext = r.Pick("templates", "t", "views/html"), r.Pick(".tw.html", ".tw", ".html")
	w.Debug = r.P(30)
	// few names, so that histories collide
	perm := r.Perm(len(names20))
	for _, i := range perm[:r.In(2, 5)] {
		g.names = append(g.names, names20[i])
	}
	g.data = V{K: "m"}
	for _, t := range append([]string{"nil", "obj"}, Types20...) {
		for i, n := 0, r.In(1, 2); i < n; i++ {
			nm := "v" + t + strconv.Itoa(i)
			g.data.Set(nm, g.val(t, false))
			g.vars[t] = append(g.vars[t], nm)
		}
	}
	box := V{K: "m"}
	for _, t := range append([]string{"obj"}, Types20...) {
		g.data.Set("two"+t, VArr(g.val(t, false), g.val(t, false)))
		box.Set("m"+t, g.val(t, false))
	}
	g.data.Set("box", box)
	text := func(p, s string) File {
		b := Bytes(s)
		return File{Path: w.Dir + "/" + p + w.Ext, Raw: &b, Role: "other"}
	}
	w.Files = append(w.Files,
		text("c20/show", "[{{ a }}]"), text("c20/slotted", `[@slot("s")]`), text("c20/lay", `<h>@reserve("x")</h>`), text("plain", "plain"))

	var ops []Op
	calls := 0
	addReg := func() {
		t, n := g.typ(), g.names[r.N(len(g.names))]
		ops = append(ops, Op{K: "reg", Func: g.fn(t, n)})
	}
	addCall := func() {
		calls++
		op := Op{}
		t := g.typ()
		switch {
		case r.P(8): // an unregistered name on any kind of value
			tt := r.Pick("str", "arr", "int", "float", "bool", "nil", "obj")
			t = tt
			op.X = &Expr{K: "call", Name: r.Pick("nosuch", "missing_1", "Fnx", "fn9", g.names[0]), E: []*Expr{g.term(tt)}}
			if IsBuiltin20(tt, op.X.Name) {
				op.X.Name = "nosuch"
			}
			for i, n := 0, r.N(3); i < n; i++ {
				op.X.E = append(op.X.E, g.arg(0))
			}
		case r.P(10): // a built-in, maybe one whose name is registered too
			bs := Builtin20[t]
			nm := bs[r.N(len(bs))]
			for _, n := range g.names {
				if IsBuiltin20(t, n) && r.P(70) {
					nm = n
				}
			}
			if nm == "rand" || nm == "shuffle" || nm == "len" && t == "int" {
				nm = bs[0]
			}
			op.X = &Expr{K: "call", Name: nm, E: []*Expr{g.term(t)}}
			for n := []int{0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 12}[r.N(11)]; n > 0; n-- {
				op.X.E = append(op.X.E, g.term(r.Pick("str", "str", "int", "int", "float", "bool", "arr", "nil", "obj")))
			}
			if r.P(50) {
				op.Ctx = "print"
			}
			op.Note = "builtin"
		case len(g.count) > 0 && r.P(12):
			t = "int"
			op.X = &Expr{K: "call", Name: g.count[r.N(len(g.count))], E: []*Expr{g.term(t)}}
			op.Ctx = r.Pick("print", "twice", "for", "inner", "arr")
		default:
			op.X = g.call(t, r.N(3))
		}
		for op.Ctx == "" {
			cx := &Ctxs20[r.N(len(Ctxs20))]
			if cx.On == "scalar" && t == "arr" || cx.On != "" && cx.On != "scalar" && cx.On != t || cx.On != "" && op.Note == "builtin" {
				continue // a built-in may give another type than its receiver's
			}
			if cx.Name == "many" && r.P(80) {
				continue
			}
			op.Ctx = cx.Name
		}
		op.K = r.Pick("evs", "evs", "evf", "string", "resp")
		if CtxByName(op.Ctx).Tpl {
			op.K = r.Pick("string", "resp")
		}
		if op.K == "string" || op.K == "resp" {
			op.Name = "pages/p" + strconv.Itoa(calls)
		}
		if op.K == "evf" {
			op.Name = "loose/f" + strconv.Itoa(calls) + ".tw"
		}
		if r.P(15) {
			op.Rep = r.In(2, 3)
		}
		if r.P(20) {
			op.Shared = r.In(1, 2)
		}
		ops = append(ops, op)
	}
	if r.P(12) { // names no template can call, registered all the same
		for _, nm := range []string{"", "in", "with space", "naïve", "a-b", "1st", strings.Repeat("n", 300), "fn ", " fn", "FN", "nil"} {
			if r.P(50) {
				ops = append(ops, Op{K: "reg", Func: g.fn(g.typ(), nm)})
				if r.P(60) {
					ops = append(ops, ops[len(ops)-1])
					ops[len(ops)-1].Func = g.fn(ops[len(ops)-2].Func.Type, nm)
				}
			}
		}
	}
	if r.P(4) { // a full registry
		for i, n := 0, r.In(20, 150); i < n; i++ {
			nm := "bulk" + letters(i+1)
			if r.P(20) {
				g.names = append(g.names, nm)
			}
			for _, t := range r.Perm(5)[:r.In(1, 5)] {
				ops = append(ops, Op{K: "reg", Func: g.fn(Types20[t], nm)})
			}
		}
	}
	n := len(ops) + r.In(6, 30)
	if r.P(50) {
		ops = append(ops, Op{K: "load"})
	}
	if r.P(60) {
		nm := g.names[r.N(len(g.names))]
		for _, i := range r.Perm(5) {
			ops = append(ops, Op{K: "reg", Func: g.fn(Types20[i], nm)})
		}
	}
	for len(ops) < n {
		switch {
		case r.P(34):
			addReg()
		case r.P(70):
			addCall()
		case r.P(30):
			ops = append(ops, Op{K: "load"})
		case r.P(20):
			ops = append(ops, Op{K: "restart"})
			g.known, g.count = map[string]bool{}, nil
		case r.P(30):
			ops = append(ops, Op{K: "badload", Note: r.Pick("syntax", "gone", "component")})
		case r.P(40):
			ops = append(ops, Op{K: "badrender", Note: r.Pick("evs", "resp", "string", "writer")})
		case r.P(70):
			// the same name for every type, one after another
			nm := g.names[r.N(len(g.names))]
			for _, i := range r.Perm(5) {
				ops = append(ops, Op{K: "reg", Func: g.fn(Types20[i], nm)})
			}
		default:
			ops = append(ops, Op{K: "clock", Rep: r.In(1, 1000000)})
		}
	}
	c.Tasks = [][]Op{ops}
	for i := range c.Tasks[0] {
		if c.Tasks[0][i].X != nil {
			d := g.data
			c.Tasks[0][i].Data = trim20(c.Tasks[0][i].X, &d)
		}
	}
	c.Env = Env{Procs: procs(r), Seed: r.U64(), HashSeed: r.U64(), RandSeed: r.U64(), IterMode: 1, IterSeed: r.U64(), IterInv: 2,
		TimeBase: 1_600_000_000_000_000_000 + int64(r.N(1<<40)), TimeStep: int64(r.In(100, 100000)), DirSeed: r.U64()}
	return c
}

// trim20 keeps the variables the expression uses, and a stray one.
func trim20(x *Expr, d *V) *V {
	out := V{K: "m"}
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x.K == "var" {
			if v, ok := d.Get(x.Name); ok {
				out.Set(x.Name, v)
			}
		}
		for _, e := range x.E {
			walk(e)
		}
	}
	walk(x)
	return &out
}
