package cases

import (
	"strings"
)

// Gen08 makes one C08 case: a valid template and a family of faults on it, or
// a seed for a family of soups. The executor derives the inputs of the case
// from it deterministically.
func Gen08(seed uint64) *Case {
	r := NewRng(seed)
	c := &Case{Prop: "C08", Seed: seed}
	c.Env = Env{Procs: procs(r), Seed: r.U64(), DirSeed: r.U64(), IterMode: 1, IterSeed: r.U64(), IterInv: 2}
	k := r.N(1000)
	switch {
	case k < 330:
		c.Kind = "prefix"
	case k < 480:
		c.Kind = "tokens"
	case k < 660:
		c.Kind = "damage"
	case k < 790:
		c.Kind = "illegal"
	case k < 980:
		c.Kind = "soup"
	case k < 985:
		c.Kind = "counts"
	case k < 989:
		c.Kind = "far"
	default:
		c.Kind = "deep"
	}
	if c.Kind == "soup" || c.Kind == "counts" || c.Kind == "far" || c.Kind == "deep" {
		return c
	}
	c.Tpl = tpl08(r)
	if c.Kind == "damage" && r.P(40) {
		c.World.Files = []File{{Path: "other", Body: tpl08(r)}}
	}
	return c
}

// tpl08 writes one valid template of a random role.
func tpl08(r *Rng) []*Node {
	g := &Gen{R: r.Sub(1), Dump: true}
	if r.P(30) {
		g.Funcs = []FuncSpec{{Type: "str", Name: "shout", Beh: "id"}, {Type: "int", Name: "inc", Beh: "id"}}
	}
	n := r.In(1, 4)
	if r.P(8) {
		n = r.In(8, 30)
	}
	switch r.N(6) {
	case 0, 1:
		return g.StrTpl(n)
	case 2:
		for i := 0; i < 2; i++ {
			g.Component("components/c" + letters(i+1))
		}
		return g.Page(n)
	case 3:
		return g.Layout([]string{"title", "body"}[:r.In(1, 2)])
	case 4:
		g.Component("components/card")
		return g.LayoutPage("layouts/main", []string{"title", "body"}, n)
	default:
		return g.Component("components/card")
	}
}

// optionalParens are the directives that stand without an argument list.
var optionalParens = map[string]bool{"@slot": true, "@break": true, "@continue": true, "@else": true, "@end": true}

// head marks the cuts of a directive header that starts at s. With open set,
// the directive also opens a block.
func markHead(m []byte, s int, a string, force bool) {
	k := 1
	for k < len(a) && (a[k] >= 'a' && a[k] <= 'z' || a[k] >= 'A' && a[k] <= 'Z') {
		k++
	}
	if !optionalParens[a[:k]] {
		m[s+k] = 1
	}
	if k < len(a) && a[k] == '(' {
		for p := s + k + 1; p < s+len(a); p++ {
			m[p] = 1
		}
	}
	if force {
		for p := s + k; p < s+len(a); p++ {
			m[p] = 1
		}
	}
	switch a[:k] { // a proper prefix that is a directive of its own
	case "@breakIf", "@continueIf":
		m[s+k-2] = 0
	case "@elseif":
		m[s+k-2] = 0
	}
}

// Musts tells for every cut position of the template whether the prefix ends
// inside a construct (1), so that it has to be rejected. 0 means unknown.
func Musts(ns []*Node) []byte {
	m := make([]byte, len(Src(ns))+1)
	var walk func(n *Node, s int) int
	fill := func(a, b int) { // cuts a..b-1
		for p := a; p < b; p++ {
			m[p] = 1
		}
	}
	walk = func(n *Node, s int) int {
		p := s + len(n.A)
		if n.K == "stmt" || n.K == "block" || n.K == "sep" || n.K == "comp" {
			markHead(m, s, n.A, n.K == "block")
		}
		open := -1
		for _, c := range n.C {
			if n.K == "comp" && open < 0 && c.K == "block" && strings.HasPrefix(c.A, "@slot") {
				open = p + len("@slot")
			}
			p = walk(c, p)
		}
		e := p + len(n.Z)
		switch n.K {
		case "code", "comment":
			fill(s+2, e)
		case "block":
			k := 1
			for k < len(n.A) && n.A[k] != '(' {
				k++
			}
			fill(s+k, e)
		case "comp":
			if open >= 0 {
				fill(open, e)
			}
		}
		return e
	}
	p := 0
	for _, n := range ns {
		p = walk(n, p)
	}
	return m
}

// Cuts chooses the cut positions of a template: all of them when it is short.
func Cuts(r *Rng, ns []*Node) []int {
	n := len(Src(ns))
	var out []int
	if n <= 700 {
		for p := 0; p <= n; p++ {
			out = append(out, p)
		}
		return out
	}
	pick := make([]bool, n+1)
	var walk func(x *Node, s int) int
	around := func(p int) {
		for q := p - 2; q <= p+2; q++ {
			if q >= 0 && q <= n && r.P(70) {
				pick[q] = true
			}
		}
	}
	walk = func(x *Node, s int) int {
		p := s + len(x.A)
		if x.K != "text" {
			around(s)
			around(p)
		}
		for _, c := range x.C {
			p = walk(c, p)
		}
		p += len(x.Z)
		if x.K != "text" {
			around(p)
		}
		return p
	}
	p := 0
	for _, x := range ns {
		p = walk(x, p)
	}
	for i := 0; i < 200; i++ {
		pick[r.N(n+1)] = true
	}
	for q, on := range pick {
		if on {
			out = append(out, q)
		}
	}
	if len(out) > 900 {
		keep := out[:0]
		for _, q := range out {
			if r.N(len(out)) < 900 {
				keep = append(keep, q)
			}
		}
		out = keep
	}
	return out
}

// CodeSpots lists the positions in embedded code and argument lists, outside
// strings, where an inserted illegal character makes the template illegal.
func CodeSpots(ns []*Node) []int {
	var out []int
	spots := func(s int, t string) { // t is code
		var q byte
		for i := 0; i < len(t); i++ {
			ch := t[i]
			if q == 0 {
				out = append(out, s+i)
			}
			switch {
			case q != 0 && ch == '\\':
				i++
			case q != 0 && ch == q:
				q = 0
			case q == 0 && (ch == '"' || ch == '\''):
				q = ch
			}
		}
		if q == 0 {
			out = append(out, s+len(t))
		}
	}
	var walk func(n *Node, s int) int
	walk = func(n *Node, s int) int {
		switch n.K {
		case "code":
			spots(s+2, n.A[2:len(n.A)-2])
		case "stmt", "block", "sep", "comp":
			if a := strings.IndexByte(n.A, '('); a > 0 {
				if b := strings.LastIndexByte(n.A, ')'); b > a {
					spots(s+a+1, n.A[a+1:b])
				}
			}
		}
		p := s + len(n.A)
		for _, c := range n.C {
			p = walk(c, p)
		}
		return p + len(n.Z)
	}
	p := 0
	for _, n := range ns {
		p = walk(n, p)
	}
	return out
}

// Illegals are characters no token of embedded code starts with or contains.
var Illegals = []string{"#", "$", "^", "&", "|", "\\", "`", "~", "@ ", "\x00", "\x01", "\x07", "\x1b", "\x7f", "\x80", "\xff", "\u00e9", "\u6f22", "\ufeff", "\u00a0", "\u2028", "&&", "||", "#\x00", "=>&"}

// Ends lists the nodes that need an @end. A slot that is followed by another
// one, and what is in it, is not among them: without its @end it ends at the
// @end of the other, which then is a placeholder.
func Ends(ns []*Node) []*Node {
	var out []*Node
	for i, n := range ns {
		amb := false
		for _, m := range ns[i+1:] {
			amb = amb || strings.HasPrefix(n.A, "@slot") && strings.HasPrefix(m.A, "@slot")
		}
		if amb {
			continue
		}
		if n.Z != "" {
			out = append(out, n)
		}
		out = append(out, Ends(n.C)...)
	}
	return out
}

// Lexemes splits a source into tokens, roughly as a template author sees
// them. Joining them gives the source again.
func Lexemes(s string) []string {
	var out []string
	code := false
	word := func(b byte) bool {
		return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b >= 0x80
	}
	for i := 0; i < len(s); {
		j := i + 1
		switch ch := s[i]; {
		case strings.HasPrefix(s[i:], "{{--"), strings.HasPrefix(s[i:], "--}}"):
			j = i + 4
		case strings.HasPrefix(s[i:], "{{"), strings.HasPrefix(s[i:], "}}"):
			j = i + 2
			code = ch == '{'
		case ch == '@':
			for j < len(s) && word(s[j]) {
				j++
			}
		case word(ch):
			for j < len(s) && word(s[j]) {
				j++
			}
		case ch == ' ' || ch == '\n' || ch == '\t':
			for j < len(s) && (s[j] == ' ' || s[j] == '\n' || s[j] == '\t') {
				j++
			}
		case (ch == '"' || ch == '\'') && code:
			for j < len(s) && s[j] != ch && s[j] != '\n' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j < len(s) {
				j++
			} else {
				j = len(s)
			}
		case strings.IndexByte("=!<>+-", ch) >= 0 && j < len(s) && (s[j] == '=' || s[j] == ch && ch != '!'):
			j = i + 2
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// Alphabet is every lexeme of the language, and some that are not.
var Alphabet = []string{
	"{{", "}}", "{{--", "--}}", "{", "}", "(", ")", "[", "]", "<", ">", "<=", ">=", "==", "!=", "=", "!", "+", "-", "*", "/", "%", "++", "--",
	".", ",", ";", ":", "?", "\"", "'", "\"a\"", "'b'", "\"\\\"", "\"\\", "a", "b", "name", "x1", "_u", "loop", "loop.index", "global", "true", "false", "nil", "in",
	"0", "1", "42", "3.14", "1.", ".5", "1.2.3", "9223372036854775807", "9223372036854775808", "99999999999999999999999999", "1e9", "0x1f",
	"@if", "@if(", "@elseif", "@elseif(", "@else", "@end", "@each", "@each(", "@for", "@for(", "@use", "@use(", "@reserve", "@reserve(", "@insert", "@insert(",
	"@component", "@component(", "@slot", "@slot(", "@dump", "@dump(", "@break", "@continue", "@breakIf", "@breakIf(", "@continueIf", "@continueIf(",
	"@", "@@", "@i", "@en", "@endd", "@ElseIf(", "@unknown(", "\\", "\\@", "\\@if(", "\\{{", "\\}}",
	" ", " ", "\n", "\t", "\r\n", "<p>", "text", "</div>", "\u00e9", "\u6f22", "\xff", "\x80", "\x00", "#", "$", "&", "^", "|", "`", "~", "\u00a0",
	"~main", "\"~\"", "\"\"", "''", "a.b", "a[0]", "{a: 1}", "{a", "[1, 2]", "f()", "x.len()", "x++", "a = 1", "a ? b : c", "i = 0; i < 3; i++", "el in [1]",
	"@if(true)", "@each(x in [1, 2])", "@for(i = 0; i < 2; i++)", "@for(;;)", "@insert(\"a\")", "@insert(\"a\", 1)", "@component(\"a\")", "@component(\"a\", {b: 1})", "@slot(\"a\")", "@reserve(\"a\")", "@use(\"a\")",
}

// codeLex and exprLex are the parts of the alphabet that make deeper soups.
var codeLex = Alphabet[4:58]

// Soup makes one soup.
func Soup(r *Rng) string {
	var b strings.Builder
	n := r.In(1, 6)
	switch r.N(10) {
	case 0:
		n = r.In(7, 40)
	case 1:
		n = r.In(40, 300)
	}
	switch r.N(8) {
	case 0: // raw bytes
		for i := 0; i < n*4; i++ {
			b.WriteByte(byte(r.N(256)))
		}
	case 1: // bytes of the language
		const al = "{}()[]@\"'\\<>=!+-*/%.,;:? \n0a1bi_"
		for i := 0; i < n*3; i++ {
			b.WriteByte(al[r.N(len(al))])
		}
	case 2, 3: // code
		b.WriteString("{{" + r.Pick("", " "))
		for i := 0; i < n; i++ {
			b.WriteString(codeLex[r.N(len(codeLex))] + r.Pick("", " "))
		}
		b.WriteString(r.Pick("}}", " }}", "", "}", " }} tail"))
	case 4: // directives
		b.WriteString(r.Pick("@if", "@elseif", "@each", "@for", "@use", "@reserve", "@insert", "@component", "@slot", "@dump", "@breakIf", "@continueIf", "@break", "@else") + r.Pick("(", "(", "(", "", " ("))
		for i := 0; i < n; i++ {
			b.WriteString(codeLex[r.N(len(codeLex))] + r.Pick("", " "))
		}
		b.WriteString(r.Pick(")", ")", ") a @end", ")@end", "", ")) b @end", ") @else b @end"))
	case 5: // nested blocks
		var open []string
		for i := 0; i < n; i++ {
			switch r.N(6) {
			case 0, 1, 2:
				o := r.Pick("@if(true)", "@each(x in [1])", "@for(i = 0; i < 1; i++)", `@insert("a")`, `@component("c")`, "@slot", `@slot("s")`, "{{", "@if(", "{", "(", "[")
				open = append(open, o)
				b.WriteString(o + r.Pick("", " ", "t"))
			case 3:
				b.WriteString(r.Pick("@end", "@else", "@elseif(x)", "}}", ")", "@break", "{{ x }}"))
			case 4:
				b.WriteString(Alphabet[r.N(len(Alphabet))])
			default:
				if len(open) > 0 {
					o := open[len(open)-1]
					open = open[:len(open)-1]
					switch o {
					case "{{":
						b.WriteString("}}")
					case "@if(", "(":
						b.WriteString(")")
					case "{":
						b.WriteString("}")
					case "[":
						b.WriteString("]")
					default:
						b.WriteString("@end")
					}
				}
			}
		}
	default:
		for i := 0; i < n; i++ {
			b.WriteString(Alphabet[r.N(len(Alphabet))] + r.Pick("", "", " "))
		}
	}
	return b.String()
}

// Deep makes a deeply nested input; unclosed ones must be rejected.
func Deep(r *Rng) (s string, must bool) {
	n := []int{50, 300, 2000, 9000, 11000, 30000, 100000}[r.N(7)]
	if r.P(6) {
		n = r.In(400000, 1500000)
	}
	type shape struct{ pre, open, mid, clos, post string }
	shapes := []shape{
		{"{{ ", "(", "1", ")", " }}"},
		{"{{ ", "[", "1", "]", " }}"},
		{"{{ ", "{a: ", "1", "}", " }}"},
		{"{{ ", "-", "1", "", " }}"},
		{"{{ ", "!", "x", "", " }}"},
		{"{{ ", "a ? b : ", "c", "", " }}"},
		{"{{ ", "a[", "1", "]", " }}"},
		{"{{ ", "a.f(", "1", ")", " }}"},
		{"{{ x", "", "", ".a", " }}"},
		{"{{ x", "", "", "[0]", " }}"},
		{"{{ x", "", "", " + 1", " }}"},
		{"{{ x", "", "", "++", " }}"},
		{"", "@if(a)b", "c", "@end", ""},
		{"", "@each(a in b)c", "d", "@end", ""},
		{"", "@for(;;)c", "d", "@end", ""},
		{"", `@insert("a")b`, "d", "@end", ""},
		{"", `@component("a")@slot b`, "d", "@end@end", ""},
		{"@if(a)b", "", "", "@elseif(c)d", "@end"},
		{"", "", "", "{{-- c --}}", ""},
		{"", "", "", "{{----}}", ""},
		{"<p>", "", "", "{{--\n--}} ", ""},
		{"@if(a)b", "", "", "@elseif(1)", "@end"},
		{"", "", "", "{{ 1 }}", ""},
		{"", "", "", "@break", ""},
		{"{{ ", "", "1", "; 1", " }}"},
		{"@dump(", "", "1", ", 1", ")"},
		{"{{ [", "", "1", ", 1", "] }}"},
		{"{{ \"", "", "", "\\\"", "\" }}"},
		{"", "", "", "\\{{ ", ""},
		{"", "", "", "\\@if ", ""},
		{"", "", "", "#", ""},
		{"{{ ", "", "", "#", " }}"},
		{"@if(", "", "", "\x00", ")"},
		{"", "", "", "@", ""},
		{"", "", "", "{", ""},
		{"", "", "", "}", ""},
		{"{{ ", "", "", "}", ""},
		{"@if(", "", "", ")", ""},
	}
	h := shapes[r.N(len(shapes))]
	if x := r.Sub(88); x.P(30) {
		// deeper than any stack, for the shapes that nest
		for h.open == "" {
			h = shapes[x.N(len(shapes))]
		}
		n = x.In(8_000_000, 16_000_000) / (len(h.open) + 2)
	} else if x.P(50) {
		// longer than any stack, for the shapes that do not
		for h.open != "" || h.clos == "" {
			h = shapes[x.N(len(shapes))]
		}
		n = x.In(10_000_000, 18_000_000) / (len(h.clos) + 2)
	}
	s = h.pre + strings.Repeat(h.open, n) + h.mid
	if h.open != "" && r.P(50) {
		return s, true // never closed
	}
	if h.clos != "" {
		s += strings.Repeat(h.clos, n)
	}
	if (strings.HasPrefix(h.pre, "{{ x") || h.pre == "{{ " && h.clos != "}" && h.open == "") && r.P(50) {
		return s, true // no closing braces
	}
	return s + h.post, false
}

// faulty are texts that are wrong whatever stands before and after them.
var faulty = []string{"{{ }}", "{{ 1 + }}", "{{ (1 }}", "{{ [1 }}", "{{ {a: } }}", "{{ 99999999999999999999 }}", "{{ a. }}", "{{ a[1 }}", "{{ 1 ? 2 }}",
	"@each(x of y)z@end", "@each(x in)z@end", "@if()x@end", "{{ # }}", "{{ a = }}", "@for(i = 0)x@end"}

// Count makes a template with the given number of the same fault.
func Count(r *Rng) (unit string, ns []int) {
	unit = faulty[r.N(len(faulty))]
	if r.P(30) {
		unit += r.Pick("\n", " ", "text", "{{ 1 }}", faulty[r.N(len(faulty))])
	}
	for n := 1; n <= 140; n++ {
		ns = append(ns, n)
	}
	for k := 8; k < 17; k++ {
		for d := -2; d <= 2; d++ {
			ns = append(ns, 1<<k+d)
		}
	}
	return unit, ns
}

// Far makes a template with a fault, or an end of the text, that comes late.
func Far(r *Rng) string {
	n := 1<<r.In(3, 17) + r.In(-3, 3)
	if r.P(25) {
		n = r.In(1, 20000)
	}
	rep := func(u string) string {
		if len(u) > 1 && len(u)*n > 300000 {
			n /= len(u)
		}
		return strings.Repeat(u, n)
	}
	if r.P(50) { // far behind
		s := rep(r.Pick("\n", "x", " ", "\r\n", "\n\n", "ab\n", "<b>", "{{ 1 }}", "{{ 1 }}\n", "{{-- c --}}\n", "@if(a)b@end\n", "{{ a\n}}", "\\{{ b }}", "@break", "é", "{", "@"))
		if strings.HasSuffix(s, "@") || strings.HasSuffix(s, "{") {
			s += " "
		}
		return s + r.Pick("{{ ", "{{ 'abc", "@if(true)x", "{{-- ", "@each(x in [1])", "{{ {a: 1", `@component("a")@slot("b")`, "{{ #", `@insert("x")y`, "@if(", "@for(i = 0", "{{ a", "{{ a.b(")
	}
	// much in it
	pre, u := "", ""
	switch r.N(10) {
	case 0:
		pre, u = `{{ "`, r.Pick("x", "\n", `\"`, "é", "}}")
	case 1:
		pre, u = "{{-- ", r.Pick("x", "\n", "}}", "-", "{{")
		if u == "}}" || u == "-" {
			u += " "
		}
	case 2:
		pre, u = "{{ ", r.Pick(" ", "\n", "\t", "a", "1", "_", "1 + ")
	case 3:
		pre, u = "@if(", r.Pick(" ", "\n", "a", "1", "1 + ")
	case 4:
		pre, u = "{{ [", r.Pick("1, ", `"a", `, "a,\n")
	case 5:
		pre, u = "{{ {", r.Pick("a: 1, ", `b: "c",`)
	case 6:
		pre, u = "@if(a)", r.Pick("b", "\n", "{{ 1 }}", "<p>")
	case 7:
		pre, u = `@component("a")@slot("b")`, r.Pick("b", "\n", "{{ 1 }}")
	case 8:
		pre, u = "{{ a", r.Pick(".b", "[0]", ".f()", "++")
	default:
		pre, u = "@dump(", r.Pick("1, ", "a, ", " ")
	}
	return pre + rep(u)
}

// Damage applies one storage fault to the text and names it.
func Damage(r *Rng, s, other string) (string, string) {
	b := []byte(s)
	span := func() (int, int) {
		if len(b) == 0 {
			return 0, 0
		}
		unit := []int{1, 4, 8, 16, 64}[r.N(5)]
		i := r.N(len(b)) / unit * unit
		j := i + unit
		if j > len(b) {
			j = len(b)
		}
		return i, j
	}
	switch r.N(9) {
	case 0: // sector of zeros: allocated, never written
		i, j := span()
		for k := i; k < j; k++ {
			b[k] = 0
		}
		return string(b), "zeroed-sector"
	case 1:
		i, j := span()
		return string(b[:j]) + string(b[i:j]) + string(b[j:]), "repeated-sector"
	case 2:
		i, j := span()
		return string(b[:i]) + string(b[j:]), "lost-sector"
	case 3:
		i, j := span()
		k, l := span()
		if j <= k {
			return string(b[:i]) + string(b[k:l]) + string(b[j:k]) + string(b[i:j]) + string(b[l:]), "swapped-sectors"
		}
		return string(b[:i]) + string(b[k:l]) + string(b[j:]), "misdirected-sector"
	case 4:
		for i := 0; i < r.In(1, 3) && len(b) > 0; i++ {
			b[r.N(len(b))] ^= 1 << r.N(8)
		}
		return string(b), "bit-flips"
	case 5: // torn write of a new version over an old one
		if other == "" {
			other = s + s
		}
		k := 0
		if len(b) > 0 {
			k = r.N(len(b) + 1)
		}
		if k >= len(other) {
			return string(b[:k]), "torn-write"
		}
		return string(b[:k]) + other[k:], "torn-write"
	case 6:
		k := r.N(len(b) + 1)
		return string(b[:k]) + Alphabet[r.N(len(Alphabet))] + string(b[k:]), "stray-bytes"
	case 7:
		k := r.N(len(b) + 1)
		x := make([]byte, r.In(1, 12))
		for i := range x {
			x[i] = byte(r.N(256))
		}
		return string(b[:k]) + string(x) + string(b[k:]), "stray-bytes"
	default:
		lx := Lexemes(s)
		for i, n := 0, r.In(1, 3); i < n && len(lx) > 0; i++ {
			j, k := r.N(len(lx)), r.N(len(lx))
			lx[j], lx[k] = lx[k], lx[j]
		}
		return strings.Join(lx, ""), "swapped-tokens"
	}
}
