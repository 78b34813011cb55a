package cases

import "strconv"

// Varied is the operation's k-th variant, as its note tells.
func Varied(op *Op, k int) *Op {
	m, _ := strconv.Atoi(op.Want)
	if op.Note != "vary" || m <= 0 {
		return op
	}
	x := *op
	n := strconv.Itoa(k % m)
	x.Note, x.Want, x.Rep = "", "", 0
	switch op.K {
	case "evs":
		x.Src = append(CopyNodes(op.Src), text(" v"+n))
	case "evf":
		x.Name = "extra/v" + n + ".html"
	default:
		d := VMap()
		if op.Data != nil {
			d.N, d.E = append(d.N, op.Data.N...), append(d.E, op.Data.E...)
		}
		d.Set("k", VInt(int64(k%m)))
		d.Set("title", VStr("t"+n))
		x.Data = &d
		if k%m > 3 && (k%m)%7 == 0 {
			x.Name = "none/" + n
		}
	}
	return &x
}

// alike makes an operation that differs from op in a trifle: one character of
// the text, or data that prints the same but is other data.
func (g *Gen) alike(op *Op) Op {
	r := g.R
	x := *op
	x.Shared = 0
	if op.Src != nil && (op.Data == nil || r.P(60)) {
		x.Src = CopyNodes(op.Src)
		var all []*string
		var walk func(ns []*Node)
		walk = func(ns []*Node) {
			for _, n := range ns {
				all = append(all, &n.A)
				walk(n.C)
			}
		}
		walk(x.Src)
		for i := 0; i < 20; i++ {
			p := all[r.N(len(all))]
			if len(*p) == 0 {
				continue
			}
			b := []byte(*p)
			j := r.N(len(b))
			switch ch := b[j]; {
			case ch >= '0' && ch <= '9':
				b[j] = '0' + (ch-'0'+byte(r.In(1, 9)))%10
			case ch >= 'a' && ch <= 'z' && i > 4:
				b[j] = 'a' + (ch-'a'+byte(r.In(1, 25)))%26
			default:
				continue
			}
			*p = string(b)
			return x
		}
	}
	if op.Data != nil && len(op.Data.E) > 0 {
		d := V{K: "m", N: append([]string{}, op.Data.N...)}
		for i := range op.Data.E {
			d.E = append(d.E, alikeV(r, op.Data.E[i], r.P(40)))
		}
		x.Data = &d
	}
	return x
}

// alikeV is another value that prints like v, where there is one.
func alikeV(r *Rng, v V, change bool) V {
	if len(v.E) > 0 && (v.K == "a" || v.K == "m" || v.K == "st" || v.K == "p") {
		w := V{K: v.K, N: append([]string{}, v.N...)}
		for i := range v.E {
			w.E = append(w.E, alikeV(r, v.E[i], change && r.P(50)))
		}
		if v.K == "a" && change && r.P(20) && len(w.E) > 1 {
			w.E[0], w.E[1] = w.E[1], w.E[0]
		}
		return w
	}
	if !change {
		return v
	}
	switch v.K {
	case "i":
		if r.P(30) {
			return V{K: "i64", I: v.I}
		}
		if r.P(30) {
			return VFloat(strconv.FormatInt(v.I, 10) + ".0")
		}
		return VStr(strconv.FormatInt(v.I, 10))
	case "f":
		return VStr(v.S)
	case "b":
		return VStr(strconv.FormatBool(v.I != 0))
	case "n":
		return VStr("<nil>")
	case "s":
		if n, err := strconv.ParseInt(v.S, 10, 64); err == nil {
			return VInt(n)
		}
		if len(v.S) > 0 {
			b := []byte(v.S)
			j := r.N(len(b))
			if b[j] >= 'a' && b[j] <= 'z' {
				b[j] = 'a' + (b[j]-'a'+byte(r.In(1, 25)))%26
			}
			return VStr(string(b))
		}
	}
	return v
}

// baseEnv is an environment with every source of nondeterminism pinned.
// procs is the number of processors the simulated process believes in.
func procs(r *Rng) int { return []int{8, 8, 8, 1, 2, 3, 4, 16}[r.Sub(4242).N(8)] }

func baseEnv(r *Rng) Env {
	return Env{Policy: 0, Procs: procs(r), Seed: r.U64(), HashSeed: r.U64() | 1, RandSeed: r.U64(),
		TimeBase: 1_600_000_000_000_000_000 + int64(r.N(1<<30))*1_000_000_000, TimeStep: int64(r.In(100, 100000))}
}

// StrSrc makes a template for the string API: fine, failing at run time or
// not parseable.
func (g *Gen) StrSrc() []*Node {
	r := g.R
	body := g.StrTpl(r.In(1, 4))
	switch r.N(8) {
	case 0, 1:
		body, _ = g.InsertFail(body)
	case 2:
		body = append(body, &Node{K: "raw", A: r.Pick("{{ 1 + }}", "{{ }}", "{{ # }}", "@if(", "{{ (1 }}", `@use("~main")`,
			`@component("~card")`, `@insert("a", "b")`, `@reserve("a")`, "{{ 1 2 }}", "@each(x of y)z@end")})
	}
	return body
}

func dataP(v V) *V { return &v }

// History makes the operation pool shared by C15 and C16.
func (g *Gen) Pool(w *World, wi *WorldInfo, n int, faults bool) []Op {
	r := g.R
	var datas []V
	for i := 0; i < 3; i++ {
		datas = append(datas, g.Data())
	}
	// one variant that misses or mistypes something
	bad := datas[0]
	bad.N = append([]string{}, bad.N...)
	bad.E = append([]V{}, bad.E...)
	switch r.N(3) {
	case 0:
		i := r.N(len(bad.N))
		bad.N = append(bad.N[:i], bad.N[i+1:]...)
		bad.E = append(bad.E[:i], bad.E[i+1:]...)
	case 1:
		bad.Set("nums", VStr("not an array"))
	case 2:
		bad.Set("title", VInt(5))
	}
	datas = append(datas, bad)
	// a map that cannot be converted at all, or uses a reserved name
	if r.P(40) {
		x := VMap("title", VStr("x"), r.Pick("loop", "bad"), V{K: "cplx"})
		if r.P(60) { // everything else in it can
			x = g.Data()
			x.Set(r.Pick("zz", "loop", "zz", "bad"), V{K: "cplx"})
		}
		datas = append(datas, x)
		if r.P(50) {
			datas = append(datas, VMap("k", VInt(3)))
		}
	}
	data := func() *V { return dataP(datas[r.N(len(datas))]) }
	var pool []Op
	for i := 0; i < n; i++ {
		var op Op
		switch k := r.N(100); {
		case k < 30:
			op = Op{K: "string", Name: wi.Pages[r.N(len(wi.Pages))].Name, Data: data()}
		case k < 55:
			op = Op{K: "resp", Name: wi.Pages[r.N(len(wi.Pages))].Name, Data: data()}
			if faults && r.P(30) {
				op.Fault = &Fault{K: r.Pick("werr", "wshort", "wpanic"), N: r.Pick2(0, r.N(200))}
			}
		case k < 62:
			names := append(append([]string{"nope", "pages/none", ""}, wi.Layouts...), wi.Comps...)
			if wi.Err != "" {
				names = append(names, wi.Err)
			}
			op = Op{K: r.Pick("string", "resp"), Name: names[r.N(len(names))], Data: data()}
		case k < 82:
			op = Op{K: "evs", Src: g.StrSrc(), Data: data()}
		case k < 94:
			op = Op{K: "evf", Name: r.Pick("extra/one.html", "extra/two.txt", "three"+w.Ext), Src: g.StrSrc(), Data: data()}
			if r.P(20) {
				op.Src = nil
				op.Name = r.Pick("extra/missing.html", w.Files[r.N(len(w.Files))].Path, ".")
			}
		default:
			t := r.Pick("str", "int", "arr", "float", "bool")
			lit := map[string]string{"str": `"a"`, "int": "5", "arr": "[1, 2]", "float": "1.5", "bool": "true"}[t]
			op = Op{K: "evs", Src: []*Node{g.Text(), {K: "code", A: "{{ (" + lit + ")." + r.Pick("boom", "x"+t) + "(1, \"z\") }}"}, g.Text()}, Data: data()}
			if !faults {
				op.Src[1].A = "{{ (" + lit + ").x" + t + "(1) }}"
			}
		}
		if op.K == "evs" && r.Sub(uint64(1601+i)).N(1000) < 15 {
			op.Src = append(op.Src, Long(r.Sub(uint64(1701+i))))
		}
		if r.P(15) {
			op.Data = nil
		}
		if op.Data != nil && r.P(25) {
			op.Shared = r.In(1, 2)
		}
		pool = append(pool, op)
	}
	return pool
}

func (r *Rng) Pick2(a, b int) int {
	if r.P(30) {
		return a
	}
	return b
}

var errPageKinds = []string{"", "ok", "fail", "data", "leak", "missing"}

func (g *Gen) fixErr(w *World, kind string) {
	if kind == "missing" {
		w.ErrPage = "errors/absent"
	}
}

// Gen16 makes one history.
func Gen16(seed uint64) *Case {
	r := NewRng(seed)
	g := &Gen{R: r, Long: 4, Dump: true, Dups: true, Plain: r.P(50)}
	g.Funcs = StdFuncs(r)
	ek := errPageKinds[r.N(len(errPageKinds))]
	o := WorldOpt{Pages: r.In(1, 4), Size: r.In(1, 6), Failing: 30, Debug: r.P(40)}
	if ek != "missing" {
		o.ErrPage = ek
	}
	w, wi := g.World(o)
	g.fixErr(&w, ek)
	w.Funcs = g.Funcs
	pool := g.Pool(&w, &wi, r.In(3, 9), true)
	for i, n := 0, r.N(4); i < n; i++ {
		pool = append(pool, g.alike(&pool[r.N(len(pool))]))
	}
	c := &Case{Prop: "C16", Seed: seed, World: w, Env: baseEnv(r)}
	var h []Op
	n := r.In(4, 24)
	if r.N(1000) < 15 { // very many calls of one small kind
		op := Op{K: "evs", Src: []*Node{{K: "raw", A: r.Pick("{{ 7 / 0 }}", "{{ missing }}", "{{ 1 + }}", "a{{ 1 + 2 }}", "@each(x in [1])@if(true){{ x.nope }}@end@end", "@for(i = 0; i < 2; i++){{ i }}@break@end", "@if(true){{ v = 1 }}{{ v / 0 }}@end", "{{ [1, [2, {a: 3 / 0}]] }}", "{{ loop = 1 }}")}}}
		switch r.N(4) {
		case 0:
			op = Op{K: "string", Name: r.Pick("no/such/page", wi.Pages[0].Name)}
		case 1:
			op = Op{K: "resp", Name: r.Pick("no/such/page", wi.Pages[0].Name)}
		}
		op.Rep = r.In(300, 2500)
		h = append(h, op)
	}
	for len(h) < n {
		op := pool[r.N(len(pool))]
		switch r.N(20) {
		case 0:
			h = append(h, Op{K: "clock", Fault: &Fault{K: "clock", N: r.In(-100000, 1000000)}})
		case 1:
			op.Rep = r.In(2, 12)
		case 2:
			if r.P(10) {
				op.Rep = r.In(64, 300)
			}
		case 3:
			if r.P(4) { // many that differ a little, then the first of them again
				op.Note, op.Shared = "vary", 0
				m := []int{9, 17, 33, 65, 129, 257}[r.N(6)] + r.N(3)
				op.Want = strconv.Itoa(m)
				op.Rep = m + r.In(1, 12)
			}
		}
		h = append(h, op)
	}
	// final sweep over everything addressable
	d := g.Data()
	for _, p := range wi.Pages {
		h = append(h, Op{K: r.Pick("string", "resp"), Name: p.Name, Data: &d})
	}
	c.Tasks = [][]Op{h}
	return c
}
