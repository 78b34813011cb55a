package cases

import (
	"fmt"
	"strconv"
	"strings"
)

// Gen writes random valid templates. Every expression it makes is typed, so a
// page without an injected fault is expected to render.
type Gen struct {
	R     *Rng
	id    int
	Funcs []FuncSpec
	comps []*compDecl
	used  map[string]bool
	Dups  bool // allow a component to be used twice in a page
	Dump  bool
	// Faulty makes expressions fail at run time with this percentage per
	// statement; used where any outcome is fine.
	Faulty int
	Long   int  // long texts, per thousand
	Short  bool // long texts are not very long
	Plain  bool // no percent signs or exotic text
}

type compDecl struct {
	name  string
	args  []Var
	slots []string
}

type Var struct{ Name, T string }

type scope struct {
	vars   []Var
	inEach bool
	inLoop bool
	page   bool // components allowed
	depth  int
}

func (s scope) with(v ...Var) scope {
	s.vars = append(append([]Var{}, s.vars...), v...)
	return s
}

func (g *Gen) fresh(p string) string {
	g.id++
	return p + letters(g.id)
}

func letters(n int) string {
	s := ""
	for n > 0 {
		n--
		s = string(rune('a'+n%26)) + s
		n /= 26
	}
	return s
}

// DataVars is the shape of the data every generated page may use.
var DataVars = []Var{
	{"title", "str"}, {"name", "str"}, {"n", "int"}, {"k", "int"}, {"f", "float"}, {"ok", "bool"}, {"no", "bool"},
	{"none", "nil"}, {"nums", "[int]"}, {"names", "[str]"}, {"rates", "[float]"}, {"user", "user"},
	{"items", "[item]"}, {"grid", "[[int]]"}, {"empty", "[int]"}, {"bag", "bag"},
	{"misc", "misc"}, {"same", "[int]"}, {"many", "many"},
}

var fieldsOf = map[string][]Var{
	"user": {{"name", "str"}, {"age", "int"}, {"tags", "[str]"}, {"address", "addr"}, {"score", "float"}},
	"addr": {{"city", "str"}, {"zip", "int"}},
	"item": {{"id", "int"}, {"label", "str"}, {"on", "bool"}},
}

// Data makes a value for DataVars.
func (g *Gen) Data() V {
	r := g.R
	m := VMap("title", VStr(g.word()+" "+g.word()), "name", VStr(g.word()), "n", VInt(int64(r.In(0, 9))),
		"k", VInt(int64(r.In(-3, 40))), "f", VFloat(r.Pick("0.5", "1.25", "3", "-2.75", "10.1")), "ok", VBool(true),
		"no", VBool(false), "none", VNil())
	if r.P(20) {
		m.Set("gone", V{K: "np"})
	}
	if r.P(25) {
		m.Set("n", V{K: r.Pick("i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64"), I: int64(r.In(0, 9))})
	}
	nums := V{K: "a"}
	if r.P(50) {
		nums.K = "ai"
	}
	for i, c := 0, r.In(1, 5); i < c; i++ {
		nums.E = append(nums.E, VInt(int64(r.In(0, 99))))
	}
	names := V{K: "a"}
	if r.P(50) {
		names.K = "as"
	}
	for i, c := 0, r.In(1, 4); i < c; i++ {
		names.E = append(names.E, VStr(g.word()))
	}
	m.Set("nums", nums)
	m.Set("names", names)
	m.Set("rates", VArr(VFloat("1.5"), VFloat("2.25")))
	addr := VMap("city", VStr(g.word()), "zip", VInt(int64(r.In(1000, 9999))))
	user := VMap("name", VStr(g.word()), "age", VInt(int64(r.In(1, 90))), "tags", names, "address", addr, "score", VFloat("7.5"))
	if r.P(25) {
		user = V{K: "st", N: user.N, E: user.E}
		if r.P(40) {
			user = V{K: "p", E: []V{user}}
		}
	} else if x := r.Sub(515); x.P(25) {
		user = V{K: "lu", I: int64(x.N(3)), N: user.N, E: user.E}
	}
	m.Set("user", user)
	items := V{K: "a"}
	for i, c := 0, r.In(1, 5); i < c; i++ {
		items.E = append(items.E, VMap("id", VInt(int64(i)), "label", VStr(g.word()), "on", VBool(r.P(50))))
	}
	m.Set("items", items)
	grid := V{K: "a"}
	for i, c := 0, r.In(1, 3); i < c; i++ {
		row := V{K: "a"}
		for j, d := 0, r.In(1, 3); j < d; j++ {
			row.E = append(row.E, VInt(int64(r.In(0, 9))))
		}
		grid.E = append(grid.E, row)
	}
	m.Set("grid", grid)
	m.Set("empty", V{K: "a"})
	bag := V{K: "m"}
	for i, c := 0, r.In(2, 14); i < c; i++ {
		bag.Set(r.Pick("x", "y", "zeta", "al", "Be", "q")+letters(i+1), VInt(int64(r.N(50))))
	}
	if r.P(40) {
		bag.Set("inner", VMap("b", VInt(1), "a", VStr(g.word()), "c", VArr(VInt(1), VMap("z", VNil(), "y", VBool(true)))))
	}
	m.Set("bag", bag)
	m.Set("misc", g.Misc(3))
	m.Set("same", V{K: "=", S: "nums"})
	// many elements, seldom very many
	many := V{K: r.Pick("a", "ai")}
	c := r.In(2, 5)
	if r.P(5) {
		c = []int{17, 33, 64, 65, 100, 129, 257, 300, 513, 1025}[r.N(10)]
	}
	for i := 0; i < c; i++ {
		many.E = append(many.E, VInt(int64(i*7%101)))
	}
	m.Set("many", many)
	if x := r.Sub(91); x.P(15) {
		// strings that are not just words
		odd := func() V {
			return VStr(x.Pick("", " ", "\xff\xfe", "a\xc3", "\xe6\xbc b", "<b>&amp;\"'</b>", "nul\x00nul", "%d %s %!v", "{{ n }}", "@if(", "a\r\n\tb", "\u2028\ufeff\U0001f600", "e\u0301", "\u0130\u01c5", strings.Repeat("ab ", x.In(20, 1200))))
		}
		if x.P(70) {
			m.Set("title", odd())
		}
		if x.P(50) {
			m.Set("name", odd())
		}
		if len(names.E) > 0 && x.P(50) {
			names.E[x.N(len(names.E))] = odd()
		}
		if x.P(40) {
			addr.E[0] = odd()
		}
		if x.P(40) {
			items.E[0].E[1] = odd()
		}
	}
	return m
}

// Long makes a page part that takes many steps or gives much output.
func Long(x *Rng) *Node {
	n := strconv.Itoa([]int{33, 65, 129, 257, 300, 513, 700, 1025, 1500}[x.N(9)] + x.N(3))
	v := "q" + letters(x.N(20)+1)
	switch x.N(6) {
	case 0:
		return &Node{K: "raw", A: "@for(" + v + " = 0; " + v + " < " + n + "; " + v + "++){{ " + v + " }},@end\n"}
	case 1:
		return &Node{K: "raw", A: "@each(" + v + " in many)@each(" + v + "x in many)@if(" + v + "x > " + v + ")+@end@end@breakIf(loop.iter > 30)@end\n"}
	case 2:
		return &Node{K: "raw", A: strings.Repeat("{{ n + 1 }}<i>{{ title }}</i>\n", x.In(40, 200))}
	case 3:
		return &Node{K: "raw", A: "@for(" + v + " = " + n + "; " + v + " > 0; " + v + "--)@breakIf(" + v + " == 5)<td>{{ " + v + ` % 3 == 0 ? "fizz" : "b" }}</td>@end` + "\n"}
	case 4:
		return &Node{K: "raw", A: "{{ " + strings.Repeat("1 + ", x.In(50, 600)) + "1 }}\n"}
	}
	return &Node{K: "raw", A: "@for(" + v + " = 0; " + v + " < " + n + "; " + v + `++){{ ["a", "b"].join(title).len() }}@end` + "\n"}
}

// Misc makes a value of any shape that can be passed as data.
func (g *Gen) Misc(d int) V {
	r := g.R
	if d <= 0 || r.P(20) {
		switch r.N(7) {
		case 0:
			return VNil()
		case 1:
			return VBool(r.P(50))
		case 2:
			return V{K: r.Pick("i", "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64"), I: int64(r.N(100))}
		case 3:
			return V{K: r.Pick("f", "f32"), S: r.Pick("0.5", "-2.25", "3", "1e21", "1e-7")}
		case 4:
			return VStr(r.Pick(g.word(), "", "<b>&amp;</b>", "it's \"q\"", "a\nb", "\x00\u2028é"))
		case 5:
			return V{K: r.Pick("np", "na", "nm")}
		}
		return VStr(g.word())
	}
	if x := r.Sub(516); x.P(12) {
		return V{K: "lt", I: int64(x.N(8)), E: []V{g.Misc(d - 1), VStr(g.word())}}
	}
	n := r.In(0, 3)
	v := V{K: r.Pick("a", "a", "m", "m", "st", "p", "as", "ai", "ab", "af", "mi", "ms", "ma")}
	if v.K == "p" {
		v.E = []V{g.Misc(d - 1)}
		return v
	}
	for i := 0; i < n; i++ {
		var e V
		switch v.K {
		case "as", "ms":
			e = VStr(g.word())
		case "ai":
			e = VInt(int64(r.N(99)))
		case "ab":
			e = VBool(r.P(50))
		case "af":
			e = VFloat("1.5")
		default:
			e = g.Misc(d - 1)
		}
		v.E = append(v.E, e)
		switch v.K {
		case "m", "ms", "st":
			v.N = append(v.N, r.Pick("x", "Y", "zed", "q")+letters(i+1))
		case "mi":
			v.N = append(v.N, strconv.Itoa(i*7-3))
		case "ma":
			v.N = append(v.N, r.Pick("i:", "f:", "8:", "s:")+strconv.Itoa(i))
		}
	}
	return v
}

var words = []string{"alpha", "beta", "Gamma", "delta", "omega", "red", "green", "blue", "cat", "dog", "Ünïcode", "x1", "tree"}

func (g *Gen) word() string { return words[g.R.N(len(words))] }

// Marker returns a token that occurs nowhere else in the world.
func (g *Gen) Marker() string {
	g.id++
	return "Tq" + strconv.Itoa(g.id) + "q"
}

func text(s string) *Node { return &Node{K: "text", A: s} }

// Text makes a text node with a unique marker.
func (g *Gen) Text() *Node {
	r := g.R
	s := r.Pick(" ", "\n", "<p>", "\n  <b>") + g.Marker()
	switch r.N(10) {
	case 0:
		s += " <a href=\"/x?y=1&z=2\">link</a>"
	case 1:
		if !g.Plain {
			s += " 100%d of 50% %s"
		}
	case 2:
		s += " mail: a@ b \\@if(x) \\{{ y }}"
	case 3:
		s += " ünïcödé 漢字"
	case 4:
		s += "\n\n\t}} ) ] \" ' end"
	case 5:
		s += " {single} #$^&|~`"
	}
	if x := r.Sub(92); x.P(3) {
		s += x.Pick(" bytes \xff\xfe", " cut \xc3", " \xe6\xbc", " nul \x00", " \ufeff\u2028", " \x1b[0m \x7f")
	}
	if r.N(1000) < g.Long {
		most := 6000
		if g.Short {
			most = 600
		}
		s += strings.Repeat(r.Pick(" lorem ipsum", "x", "\n<br>", "ü", " @ { } \\ "), r.In(100, most))
	}
	return text(s + r.Pick(" ", "\n", "</p>\n"))
}

// gap is the text every body starts with: the parser does not accept a body
// without any token.
func (g *Gen) gap() *Node { return text(g.R.Pick("\n", " ", "\n  ")) }

func (g *Gen) byType(sc scope, t string) []string {
	var out []string
	for _, v := range sc.vars {
		if v.T == t {
			out = append(out, v.Name)
		}
		if fs, ok := fieldsOf[v.T]; ok {
			for _, f := range fs {
				if f.T == t {
					out = append(out, v.Name+"."+f.Name)
				}
				if f.T == "addr" {
					for _, f2 := range fieldsOf["addr"] {
						if f2.T == t {
							out = append(out, v.Name+"."+f.Name+"."+f2.Name)
						}
					}
				}
			}
		}
	}
	return out
}

func (g *Gen) leaf(sc scope, t string) string {
	r := g.R
	if vs := g.byType(sc, t); len(vs) > 0 && r.P(65) {
		return vs[r.N(len(vs))]
	}
	switch t {
	case "int":
		if sc.inEach && r.P(25) {
			return r.Pick("loop.index", "loop.iter")
		}
		return strconv.Itoa(r.N(50))
	case "float":
		return r.Pick("0.5", "2.25", "1.0", "9.75")
	case "str":
		return g.strLit()
	case "bool":
		if sc.inEach && r.P(25) {
			return r.Pick("loop.first", "loop.last")
		}
		return r.Pick("true", "false")
	case "nil":
		return "nil"
	case "[int]":
		return r.Pick("[1, 2, 3]", "[]", "[7]", "[4, 5, ]")
	case "[str]":
		return r.Pick(`["a", "b"]`, `['x']`, `["one", 'two', "three"]`)
	case "[float]":
		return "[1.5, 2.5]"
	case "[item]":
		return `[{id: 1, label: "one", on: true}, {id: 2, label: "two", on: false}]`
	case "[[int]]":
		return "[[1, 2], [3]]"
	case "user":
		return `{name: "Ann", age: 30, tags: ["t"], address: {city: "Rome", zip: 100}, score: 1.5}`
	case "item":
		return `{id: 3, label: "three", on: true}`
	case "addr":
		return `{city: "Oslo", zip: 22}`
	case "bag":
		return `{b: 1, a: 2, "c d": 3}`
	case "many":
		return "[1, 2]"
	case "misc":
		return `[nil, {m: [1.5, "s", {n: nil}], k: true}, []]`
	}
	panic("leaf " + t)
}

func (g *Gen) strLit() string {
	r := g.R
	w := g.word()
	switch r.N(8) {
	case 0:
		return `""`
	case 1:
		return `'` + w + `'`
	case 2:
		return `"` + w + ` \"q\" }} ) ] ;"`
	case 3:
		if g.Plain {
			return `"` + w + `"`
		}
		return `"<i>` + w + `</i> 5% %d"`
	}
	return `"` + w + `"`
}

// Expr makes an expression of type t.
func (g *Gen) Expr(sc scope, t string, d int) string {
	r := g.R
	if d <= 0 || r.P(30) {
		return g.leaf(sc, t)
	}
	e := func(t string) string { return g.Expr(sc, t, d-1) }
	if r.P(12) && t != "nil" {
		return "(" + e(g.cond()) + " ? " + e(t) + " : " + e(t) + ")"
	}
	if r.P(12) {
		for _, i := range r.Perm(len(g.Funcs)) {
			f := g.Funcs[i]
			ft := map[string]string{"str": "str", "int": "int", "float": "float", "arr": "[int]"}[f.Type]
			if (ft == t || f.Beh == "rev" && t == "[str]") && f.Beh != "panic" {
				return "(" + e(t) + ")." + f.Name + "(" + r.Pick("", e("int"), e("str")+", "+e("bool"), g.leaf(sc, "[int]"), g.leaf(sc, "bag")+", "+g.leaf(sc, "[[int]]")) + ")"
			}
		}
	}
	switch t {
	case "int":
		switch r.N(11) {
		case 9:
			return "[" + e("int") + "].rand()"
		case 10:
			return "(" + e("bool") + ").then(" + e("int") + ", " + e("int") + ")"
		case 0:
			return "(" + e("int") + " + " + e("int") + ")"
		case 1:
			return "(" + e("int") + " - " + e("int") + ")"
		case 2:
			return "(" + e("int") + " * " + e("int") + ")"
		case 3:
			return "(" + e("int") + r.Pick(" / ", " % ") + strconv.Itoa(r.In(1, 9)) + ")"
		case 4:
			return "(" + e("str") + ").len()"
		case 5:
			return "(" + e(r.Pick("[int]", "[str]")) + ").len()"
		case 6:
			return "(" + e("float") + ")." + r.Pick("int", "ceil", "floor", "round") + "()"
		case 7:
			return "(" + e("bool") + ").binary()"
		default:
			return "(" + e("int") + ")." + r.Pick("abs", "len") + "()"
		}
	case "float":
		switch r.N(4) {
		case 0:
			return "(" + e("float") + r.Pick(" + ", " - ", " * ") + e("float") + ")"
		case 1:
			return "(" + e("int") + ").float()"
		case 2:
			return "(" + e("float") + ").abs()"
		default:
			return "(-" + g.leaf(sc, "float") + ")"
		}
	case "str":
		switch r.N(14) {
		case 9:
			return "(" + e("str") + " + \"z\")." + r.Pick("first()", "last()", "at()", "at(0)", "at(-1)")
		case 10:
			return "(" + e("str") + ")." + r.Pick(`trim("ab")`, `trimLeft("gx")`, `trimRight("ea")`)
		case 11:
			return "(" + r.Pick(e("int"), `"`+strconv.Itoa(r.N(99))+`"`, e("str")) + ").decimal(" + r.Pick(`","`, `"."`, `"_", `+strconv.Itoa(r.N(5))) + ")"
		case 12:
			return "(" + e("bool") + ").then(" + e("str") + ", " + e("str") + ")"
		case 13:
			return `("abcdef").truncate(` + strconv.Itoa(r.N(8)) + ", " + e("str") + ")"
		case 0, 1:
			return "(" + e("str") + " + " + e("str") + ")"
		case 2:
			return "(" + e("str") + ")." + r.Pick("upper", "lower", "trim", "reverse", "capitalize", "trimLeft", "trimRight", "raw") + "()"
		case 3:
			return "(" + e("str") + ").repeat(" + strconv.Itoa(r.N(4)) + ")"
		case 4:
			return "(" + e("int") + ").str()"
		case 5:
			return "(" + e(r.Pick("[int]", "[str]")) + ").join(" + r.Pick(`", "`, `"-"`, "") + ")"
		case 6:
			return "(" + e("int") + ").decimal()"
		case 7:
			return "(" + e("float") + ").str()"
		default:
			return `("abcdef").truncate(` + strconv.Itoa(r.N(8)) + ")"
		}
	case "bool":
		switch r.N(8) {
		case 6:
			return "(" + e("[str]") + ").contains(" + e("str") + ")"
		case 7:
			return "([" + e("[int]") + ", " + e("misc") + "]).contains(" + e(r.Pick("misc", "bag", "[int]")) + ")"
		case 0:
			return "(" + e("int") + r.Pick(" == ", " != ", " < ", " > ", " <= ", " >= ") + e("int") + ")"
		case 1:
			return "(" + e("str") + r.Pick(" == ", " != ") + e("str") + ")"
		case 2:
			return "(!(" + e("int") + " < " + e("int") + "))"
		case 3:
			return "(" + e("str") + ").contains(" + e("str") + ")"
		case 4:
			return "(" + e("[int]") + ").contains(" + e("int") + ")"
		default:
			return "(" + e("float") + " < " + e("float") + ")"
		}
	case "[int]", "[str]", "[float]":
		el := t[1 : len(t)-1]
		switch r.N(6) {
		case 0:
			return "[" + e(el) + ", " + e(el) + "]"
		case 1:
			return "(" + e(t) + ").append(" + e(el) + ")"
		case 2:
			return "(" + e(t) + ").prepend(" + e(el) + ")"
		case 3:
			return "(" + e(t) + ").reverse()"
		case 4:
			return "(" + e(t) + ").slice(" + strconv.Itoa(r.N(3)) + ")"
		default:
			if t == "[str]" {
				return "(" + e("str") + ").split(" + r.Pick("", `","`, `"a"`) + ")"
			}
			return "(" + e(t) + ").slice(0, " + strconv.Itoa(r.N(3)) + ")"
		}
	case "[item]":
		return "[{id: " + e("int") + ", label: " + e("str") + ", on: " + e("bool") + "}]"
	case "bag":
		return "{p: " + e("int") + ", q: " + e("str") + ", r: [" + e("int") + ", " + e("int") + "], s: {t: " + e("bool") + ", u: nil } }"
	}
	return g.leaf(sc, t)
}

func (g *Gen) cond() string { return g.R.Pick("bool", "bool", "int", "str") }

var printTypes = []string{"int", "str", "float", "bool", "nil", "[int]", "[str]", "str", "int", "str", "bag", "item", "misc"}

// Print makes a {{ }} node.
func (g *Gen) Print(sc scope) *Node {
	r := g.R
	sp := r.Pick(" ", " ", "  ", "\n")
	e := g.Expr(sc, printTypes[r.N(len(printTypes))], r.N(4))
	switch r.N(14) {
	case 0:
		e = g.Expr(sc, "int", 1)
		if r.P(40) {
			e = g.Expr(sc, "float", 1)
		}
		e = "(" + e + ")" + r.Pick("++", "--")
	case 3:
		e = g.leaf(sc, r.Pick("int", "float", "float")) + r.Pick("++", "--")
	case 1:
		if !g.Plain {
			e = "(" + g.Expr(sc, "[int]", 1) + ").shuffle().len()"
		}
	case 2:
		if len(sc.vars) < len(DataVars) || sc.vars[0].Name != "title" {
			break
		}
		e = r.Pick("nums[0]", "nums[99]", `user["name"]`, "grid[0][0]", "items[0].label")
	}
	if x := r.Sub(611); x.P(9) {
		e = g.edge(sc, x)
	}
	if strings.HasPrefix(e, "{") || strings.HasPrefix(e, "-") {
		sp = " "
	}
	return &Node{K: "code", A: "{{" + sp + e + sp + "}}"}
}

// edge makes an expression at or just past a limit: the ends of an array or
// of a string, nothing at all, the largest number.
func (g *Gen) edge(sc scope, x *Rng) string {
	arr := x.Pick("[1, 2]", "[]", `["a", "b", "c"]`, "[[1], {a: 1}]")
	if vs := g.byType(sc, x.Pick("[int]", "[str]", "[float]", "[item]", "many")); len(vs) > 0 && x.P(70) {
		arr = vs[x.N(len(vs))]
	}
	str := x.Pick(`"abc"`, `""`, `"ü"`, `"漢字"`, "'a'")
	if vs := g.byType(sc, "str"); len(vs) > 0 && x.P(50) {
		str = vs[x.N(len(vs))]
	}
	n := strconv.Itoa(x.N(7))
	i := x.Pick(n, "-"+n, arr+".len()", "("+arr+".len() - 1)", "("+arr+".len() + 1)", "("+arr+".len() - 2)", "9223372036854775807", "-9223372036854775807")
	j := x.Pick(n, str+".len()", "("+str+".len() - 1)", "(0 - "+str+".len())", "(-1 - "+str+".len())", "("+str+".len() + 1)", "-1", "9223372036854775807")
	switch x.N(12) {
	case 0, 1, 2:
		return arr + "[" + i + "]"
	case 3:
		return arr + ".slice(" + i + ")"
	case 4:
		return arr + ".slice(" + i + ", " + strconv.Itoa(x.N(6)) + ")"
	case 5:
		return arr + ".slice(" + n + ", " + i + ")"
	case 6:
		return str + ".at(" + j + ")"
	case 7:
		return str + ".truncate(" + j + ")"
	case 8:
		return str + "." + x.Pick("first", "last", "reverse", "capitalize", "trim", "len", "split", "upper") + "()"
	case 9:
		return arr + "." + x.Pick("reverse()", "len()", "join()", "rand()", "reverse().len()", "slice(1).append(1)", "append(nil)[0]", "prepend(1, 2)")
	case 10:
		return "(" + x.Pick("9223372036854775807 + 1", "-9223372036854775807 - 2", "9223372036854775807 * 3", "1.7 / 0.0", "-9 % 4", "-9 / 4", "0.0 * -1.0") + ")"
	}
	return str + ".contains(" + x.Pick(`""`, str, str+" + \"z\"") + ")"
}

// Fail makes a node whose evaluation is an error, and names the error kind.
// In a scope without data only data-independent kinds are used.
func (g *Gen) Fail() (*Node, string) {
	r := g.R
	v := g.fresh("missing")
	if r.P(8) {
		v += strings.Repeat("LongName", r.In(8, 90))
	}
	kinds := []struct{ kind, e string }{
		{"undefined", v},
		{"undefined-prop", "{a: 1}." + v},
		{"type-mismatch", `(1 + "` + g.word() + `")`},
		{"type-mismatch-eq", `(1.5 == 1)`},
		{"unknown-func", `"x".` + v + `()`},
		{"unknown-func-int", `(5).` + v + `(1, "a")`},
		{"div-zero", "(7 / 0)"},
		{"index-type", `"abc"[0]`},
		{"bad-arg", `"x".repeat("y")`},
		{"bad-arg2", `[1, 2].join(3)`},
		{"missing-arg", `"x".truncate()`},
		{"prefix", `(-"a")`},
		{"bang", `(!5)`},
		{"postfix", `("a")++`},
		{"nil-func", `nil.len()`},
		{"bool-op", `(true == false)`},
		{"str-op", `("a" - "b")`},
		{"mod-zero", "(7 % 0)"},
		{"dot-nonobj", `(5).` + v},
		{"dot-str", `("s").` + v},
		{"empty-prop", `{a: 1}[""]`},
		{"in-array", "[1, 2, " + v + "]"},
		{"in-object", "{a: 1, b: " + v + ", c: 2}"},
		{"in-arg", `"abc".contains(` + v + `)`},
		{"in-ternary", "(true ? " + v + " : 1)"},
		{"neg-count", `"ab".repeat(-` + fmt.Sprint(r.In(1, 9)) + `)`},
		{"huge-count", `"ab".repeat(9223372036854775807)`},
		{"neg-decimals", `(5).decimal(".", -1)`},
		{"prop-markup", `{a: 1}["` + r.Pick("<i>", "a & b", "x > y", "100%d %s", "it's", "ünï") + `"]`},
		{"lines-str-op", "(\"a\n" + g.word() + "\" - 1)"},
		{"lines-func", "'x\n\ny'." + v + "(1,\n2)"},
		{"lines-index", "{a: 1}[\"x\ny\"]"},
		{"lines-expr", "(1 +\n\n\"a\")"},
		{"lines-undefined", "\n" + v + "\n"},
		{"lines-arg", "\"x\".repeat(\"\n\")"},
		{"deep", `[{a: [1, {b: ` + v + `}]}]`},
	}
	k := kinds[r.N(len(kinds))]
	switch r.N(15) {
	case 4:
		return &Node{K: "stmt", A: "@dump(1, " + k.e + ")"}, "dump-" + k.kind
	case 5:
		x := g.fresh("ix")
		return &Node{K: "block", A: "@for(" + x + " = 0; " + x + " < 3; " + k.e + ")", C: []*Node{text("in")}, Z: "@end"}, "for-post-" + k.kind
	case 6:
		x := g.fresh("ix")
		return &Node{K: "block", A: "@for(" + x + " = 0; " + k.e + "; " + x + "++)", C: []*Node{text("in")}, Z: "@end"}, "for-cond-" + k.kind
	case 0:
		x := g.fresh("v")
		return &Node{K: "code", A: "{{ " + x + " = 1; " + x + ` = "s" }}`}, "assign-type"
	case 1:
		return &Node{K: "code", A: "{{ loop = 1 }}"}, "assign-loop"
	case 2:
		return &Node{K: "block", A: "@each(" + g.fresh("el") + " in 5)", C: []*Node{text("in")}, Z: "@end"}, "each-nonarray"
	case 3:
		return &Node{K: "block", A: "@if(" + k.e + ")", C: []*Node{text("in")}, Z: "@end"}, "if-" + k.kind
	}
	return &Node{K: "code", A: "{{ " + k.e + " }}"}, k.kind
}

// Block makes a list of nodes.
func (g *Gen) Block(sc scope, n int) []*Node {
	var out []*Node
	for i := 0; i < n; i++ {
		out = append(out, g.Stmt(&sc)...)
	}
	return out
}

// Stmt makes one statement and may add variables to the scope.
func (g *Gen) Stmt(sc *scope) []*Node {
	r := g.R
	if g.Faulty > 0 && r.P(g.Faulty) {
		f, _ := g.Fail()
		return []*Node{f}
	}
	k := r.N(100)
	if sc.depth <= 0 && k >= 50 {
		k = r.N(50)
	}
	in := *sc
	in.depth--
	switch {
	case k < 22:
		return []*Node{g.Text()}
	case k < 42:
		return []*Node{g.Print(*sc)}
	case k < 47:
		v := g.fresh("v")
		t := r.Pick("int", "str", "bool", "[int]", "float")
		node := &Node{K: "code", A: "{{ " + v + " = " + g.Expr(*sc, t, 2) + " }}"}
		if r.P(20) {
			w := g.fresh("v")
			node.A = "{{ " + v + " = " + g.leaf(*sc, t) + "; " + w + " = " + g.leaf(*sc, "int") + " }}"
			*sc = sc.with(Var{w, "int"})
		}
		*sc = sc.with(Var{v, t})
		return []*Node{node}
	case k < 50:
		return []*Node{{K: "comment", A: "{{-- " + r.Pick("note", "{{ x }}", "@if(a) }}", "multi\nline") + " --}}"}}
	case k < 66: // if
		b := &Node{K: "block", A: "@if(" + g.Expr(*sc, g.cond(), 2) + ")", Z: "@end"}
		b.C = append(append(b.C, g.gap()), g.Block(in, r.In(0, 3))...)
		for r.P(30) {
			b.C = append(b.C, &Node{K: "sep", A: "@elseif(" + g.Expr(*sc, g.cond(), 2) + ")"}, g.gap())
			b.C = append(b.C, g.Block(in, r.In(0, 2))...)
		}
		if r.P(40) {
			b.C = append(b.C, &Node{K: "sep", A: "@else"}, text("\n"))
			b.C = append(b.C, g.Block(in, r.In(0, 2))...)
		}
		return []*Node{b, text("\n")}
	case k < 68: // each over many, with little to do
		v := g.fresh("el")
		sm := sc.with(Var{v, "int"})
		sm.inEach, sm.inLoop, sm.depth, sm.page = true, true, 0, false
		b := &Node{K: "block", A: "@each(" + v + " in " + g.leaf(*sc, "many") + ")", Z: "@end"}
		b.C = []*Node{text(r.Pick(" ", "-", "\n")), {K: "code", A: "{{ " + r.Pick(v, v, "loop.index", "loop.last", "["+v+", loop.iter]", g.Expr(sm, "int", 1), g.Expr(sm, "str", 1)) + " }}"}}
		if r.P(25) {
			b.C = append(b.C, &Node{K: "stmt", A: r.Pick("@breakIf", "@continueIf") + "(" + v + " == " + strconv.Itoa(r.N(120)) + ")"}, text(","))
		}
		if r.P(12) { // fails late, or not at all
			b.C = append(b.C, &Node{K: "code", A: "{{ 5 / (" + v + " - " + strconv.Itoa(r.N(101)) + ") }}"})
		}
		return []*Node{b, text("\n")}
	case k < 80: // each
		v := g.fresh("el")
		at := r.Pick("[int]", "[str]", "[item]", "[int]")
		arr := g.Expr(*sc, at, 1)
		if at == "[int]" && r.P(15) {
			arr = "[]"
		}
		in = in.with(Var{v, at[1 : len(at)-1]})
		in.inEach, in.inLoop = true, true
		b := &Node{K: "block", A: "@each(" + v + " in " + arr + ")", Z: "@end"}
		b.C = append(append(b.C, g.gap()), g.Block(in, r.In(1, 3))...)
		if r.P(25) {
			b.C = append(b.C, &Node{K: "sep", A: "@else"}, text("\n"))
			out := *sc
			out.depth--
			b.C = append(b.C, g.Block(out, r.In(0, 2))...)
		}
		return []*Node{b, text("\n")}
	case k < 88: // for
		v := g.fresh("ix")
		in = in.with(Var{v, "int"})
		in.inLoop = true
		b := &Node{K: "block", A: fmt.Sprintf("@for(%s = 0; %s < %d; %s++)", v, v, r.In(0, 4), v), Z: "@end"}
		b.C = append(append(b.C, g.gap()), g.Block(in, r.In(1, 3))...)
		return []*Node{b, text("\n")}
	case k < 91 && sc.inLoop:
		return []*Node{{K: "stmt", A: r.Pick("@breakIf", "@continueIf") + "(" + g.Expr(*sc, "bool", 2) + ")"}, text("\n")}
	case k < 92 && sc.inLoop:
		return []*Node{{K: "block", A: "@if(" + g.Expr(*sc, "bool", 1) + ")", C: []*Node{{K: "stmt", A: r.Pick("@break", "@continue")}, text("\n")}, Z: "@end"}, text("\n")}
	case k < 94 && g.Dump:
		return []*Node{{K: "stmt", A: "@dump(" + g.Expr(*sc, r.Pick("bag", "[int]", "user", "str", "[item]", "misc"), 1) + r.Pick("", ", "+g.Expr(*sc, "bag", 1)) + ")"}, text("\n")}
	case k < 99 && sc.page && len(g.comps) > 0:
		c := g.comps[r.N(len(g.comps))]
		if g.used[c.name] && !(g.Dups && r.P(30)) {
			return []*Node{g.Text()}
		}
		g.used[c.name] = true
		return []*Node{g.useComp(*sc, c), text("\n")}
	}
	return []*Node{g.Print(*sc)}
}

func (g *Gen) useComp(sc scope, c *compDecl) *Node {
	r := g.R
	name := c.name
	if r.P(50) && strings.HasPrefix(name, "components/") {
		name = "~" + strings.TrimPrefix(name, "components/")
	}
	a := "@component(" + r.Pick(`"`+name+`"`, `'`+name+`'`)
	if len(c.args) > 0 {
		var ps []string
		for _, v := range c.args {
			ps = append(ps, v.Name+": "+g.Expr(sc, v.T, 1))
		}
		a += ", { " + strings.Join(ps, ", ") + " }"
	}
	a += ")"
	n := &Node{K: "stmt", A: a}
	if len(c.slots) > 0 && r.P(80) {
		n.K = "comp"
		sc.page = false
		sc.depth = 1
		for _, s := range c.slots {
			if r.P(85) {
				hd := "@slot"
				if s != "" {
					hd = `@slot("` + s + `")`
				}
				n.C = append(n.C, text("\n"))
				body := append([]*Node{text("\n")}, g.Block(sc, r.In(1, 2))...)
				n.C = append(n.C, &Node{K: "block", A: hd, C: body, Z: "@end"})
			}
		}
		if len(n.C) == 0 {
			n.K = "stmt"
		} else {
			n.C = append(n.C, text("\n"))
			n.Z = "@end"
		}
	}
	return n
}

// Component writes a component file and makes it usable in pages.
func (g *Gen) Component(name string) []*Node {
	r := g.R
	c := &compDecl{name: name}
	for i, n := 0, r.N(4); i < n; i++ {
		c.args = append(c.args, Var{g.fresh("arg"), r.Pick("int", "str", "bool", "[int]")})
	}
	switch r.N(4) {
	case 1:
		c.slots = []string{""}
	case 2:
		c.slots = []string{"header"}
	case 3:
		c.slots = []string{"", "footer"}
	}
	sc := scope{vars: c.args, depth: 2}
	var out []*Node
	out = append(out, g.Text())
	out = append(out, g.Block(sc, r.In(0, 2))...)
	for _, s := range c.slots {
		if s == "" {
			out = append(out, &Node{K: "stmt", A: "@slot"}, text("\n"))
		} else {
			out = append(out, &Node{K: "stmt", A: `@slot("` + s + `")`}, text("\n"))
		}
		out = append(out, g.Text())
	}
	for _, v := range c.args {
		out = append(out, &Node{K: "code", A: "{{ " + v.Name + " }}"})
	}
	g.comps = append(g.comps, c)
	return out
}

// Page writes a page without a layout.
func (g *Gen) Page(n int) []*Node {
	g.used = map[string]bool{}
	sc := scope{vars: DataVars, page: true, depth: 3}
	return append([]*Node{g.Text()}, g.Block(sc, n)...)
}

// Layout writes a layout with the given reserves.
func (g *Gen) Layout(reserves []string) []*Node {
	r := g.R
	sc := scope{vars: DataVars, depth: 1}
	out := []*Node{text("<!DOCTYPE html>\n"), g.Text()}
	for _, n := range reserves {
		out = append(out, g.Text(), g.reserve(n), text("\n"))
		if r.P(40) {
			out = append(out, g.Block(sc, 1)...)
		}
	}
	return append(out, g.Text())
}

// reserve makes a reserve, now and then inside of a block.
func (g *Gen) reserve(n string) *Node {
	r := g.R
	res := &Node{K: "stmt", A: `@reserve("` + n + `")`}
	if !r.P(15) {
		return res
	}
	switch r.N(4) {
	case 0:
		return &Node{K: "block", A: "@if(true)", C: []*Node{text("i"), res, text("\n")}, Z: "@end"}
	case 1:
		return &Node{K: "block", A: "@each(" + g.fresh("el") + " in [1, 2])", C: []*Node{text("e"), res, text("\n")}, Z: "@end"}
	case 2:
		return &Node{K: "block", A: "@if(false)", C: []*Node{text("no"), {K: "sep", A: "@else"}, text("\n"), res, text("\n")}, Z: "@end"}
	}
	x := g.fresh("ix")
	return &Node{K: "block", A: "@for(" + x + " = 0; " + x + " < 2; " + x + "++)", C: []*Node{text("f"), res}, Z: "@end"}
}

// LayoutPage writes a page that uses a layout.
func (g *Gen) LayoutPage(layout string, reserves []string, n int) []*Node {
	r := g.R
	g.used = map[string]bool{}
	if r.P(50) && strings.HasPrefix(layout, "layouts/") {
		layout = "~" + strings.TrimPrefix(layout, "layouts/")
	}
	out := []*Node{{K: "stmt", A: `@use("` + layout + `")`}, text("\n")}
	for _, name := range reserves {
		if !r.P(85) {
			continue
		}
		if r.P(30) {
			sc := scope{vars: DataVars}
			out = append(out, &Node{K: "stmt", A: `@insert("` + name + `", ` + g.Expr(sc, "str", 2) + ")"}, text("\n"))
			continue
		}
		sc := scope{vars: DataVars, page: true, depth: 2}
		body := append([]*Node{g.Text()}, g.Block(sc, n)...)
		out = append(out, &Node{K: "block", A: `@insert("` + name + `")`, C: body, Z: "@end"}, text("\n"))
	}
	return out
}

// StrTpl writes a template for the string and file APIs.
func (g *Gen) StrTpl(n int) []*Node {
	g.used = map[string]bool{}
	sc := scope{vars: DataVars, depth: 2}
	return append([]*Node{g.Text()}, g.Block(sc, n)...)
}

// InsertFail puts a failing node at a random place outside any block that
// might not run, after some output was produced; deep puts it into a loop
// body that certainly runs.
func (g *Gen) InsertFail(body []*Node) ([]*Node, string) {
	r := g.R
	f, kind := g.Fail()
	switch r.N(6) {
	case 0:
		f = &Node{K: "block", A: "@each(" + g.fresh("el") + " in [1, 2, 3])", C: []*Node{g.Text(),
			{K: "block", A: "@if(loop.last)", C: []*Node{f}, Z: "@end"}, text("\n")}, Z: "@end"}
		kind += "+each"
	case 1:
		v := g.fresh("ix")
		f = &Node{K: "block", A: "@for(" + v + " = 0; " + v + " < 3; " + v + "++)", C: []*Node{g.Text(), f}, Z: "@end"}
		kind += "+for"
	case 2:
		f = &Node{K: "block", A: "@if(false)", C: []*Node{text("a"), {K: "sep", A: "@else"}, text("\n"), g.Text(), f}, Z: "@end"}
		kind += "+else"
	}
	pos := 0
	if len(body) > 0 {
		pos = r.In(1, len(body))
	}
	out := append([]*Node{}, body[:pos]...)
	out = append(out, text("\n"), f)
	return append(out, body[pos:]...), kind
}
