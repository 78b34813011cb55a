package cases

import (
	"strconv"
	"strings"
)

// randEnv draws every environment choice a deployment does not control.
func randEnv(r *Rng) Env {
	e := Env{Policy: 1, Seed: r.U64(), PInv: uint64(r.In(3, 60)), RandSeed: r.U64(), HashSeed: r.U64() | 1, HashMode: r.N(2),
		IterMode: 1, IterSeed: r.U64(), IterInv: uint64([]int{1, 1, 1, 2, 4}[r.N(5)]), TimeBase: 1_000_000_000_000_000_000 + int64(r.N(1<<30))*900_000_000,
		TimeStep: int64(r.In(1, 10_000_000)), DirSeed: r.U64(), FileSeed: r.U64(), Vars: r.U64(), Procs: r.In(1, 33)}
	return e
}

// multiFault adds several simultaneous faults to a world.
func (g *Gen) multiFault(w *World, wi *WorldInfo) string {
	r := g.R
	put := func(name string, body ...*Node) {
		f := File{Path: w.Dir + "/" + name + w.Ext, Body: body, Role: "page"}
		for i := range w.Files { // one file per path, whatever order they are written in
			if w.Files[i].Path == f.Path {
				w.Files[i] = f
				return
			}
		}
		w.Files = append(w.Files, f)
	}
	ns := []string{"zz/one", "aa/two", "three", "m/n/four", "five", "aaa", "zzz"}
	p := r.Perm(len(ns))
	n := r.In(2, 5)
	bad := func() *Node {
		return &Node{K: "raw", A: r.Pick("{{ 1 + }}", "{{ }}", "{{ # }}", "@if(", "{{ (1 }}", "{{ 1 2 }}", "@each(x of y)z@end",
			`@component("~nowhere")`, `@use("~nowhere")`, `@component("")`, "{{ a..b }}", "{{ {a: } }}", "@if(true)x@else y@elseif(true)z@end")}
	}
	switch r.N(10) {
	case 0:
		for i := 0; i < n; i++ {
			put(ns[p[i]], g.Text(), bad())
		}
		return "files"
	case 1: // several inserts the layout does not know
		put("layouts/fl", text("<html>"), &Node{K: "stmt", A: `@reserve("known")`}, text("\n"))
		body := []*Node{{K: "stmt", A: `@use("~fl")`}, text("\n")}
		for i := 0; i < n; i++ {
			body = append(body, &Node{K: "stmt", A: `@insert("` + r.Pick("x", "u", "known2", "Z") + letters(i+1) + `", "v")`}, text("\n"))
			if r.P(50) {
				body = append(body, &Node{K: "block", A: `@insert("b` + letters(i+1) + `")`, C: []*Node{g.Text()}, Z: "@end"}, text("\n"))
			}
		}
		put(ns[p[0]], body...)
		return "inserts"
	case 2: // several duplicated or unknown slots
		put("components/fc", g.Text(), &Node{K: "stmt", A: `@slot("a")`}, text("\n"), &Node{K: "stmt", A: `@slot("b")`}, text("\n"))
		c := &Node{K: "comp", A: `@component("~fc")`, Z: "@end"}
		kind := r.N(3)
		for i := 0; i < n; i++ {
			name := r.Pick("a", "b")
			if kind == 1 {
				name = r.Pick("p", "q", "s") + letters(i+1)
			}
			reps := 1
			if kind == 0 {
				reps = r.In(2, 3)
				name = []string{"a", "b", "c", "d", "e"}[i]
			}
			for j := 0; j < reps; j++ {
				c.C = append(c.C, text("\n"), &Node{K: "block", A: `@slot("` + name + `")`, C: []*Node{g.Text()}, Z: "@end"})
			}
		}
		c.C = append(c.C, text("\n"))
		put(ns[p[0]], g.Text(), c)
		return "slots"
	case 3: // one page names several missing components
		body := []*Node{g.Text()}
		for i := 0; i < n; i++ {
			body = append(body, &Node{K: "stmt", A: `@component("gone/` + letters(i+1) + `")`}, text("\n"))
		}
		put(ns[p[0]], body...)
		return "components"
	case 4: // several pages with missing layouts and components
		for i := 0; i < n; i++ {
			put(ns[p[i]], &Node{K: "stmt", A: r.Pick(`@use("`, `@component("`) + "gone/" + letters(i+1) + `")`}, text("\n"))
		}
		return "absent"
	case 5: // unreadable names
		for i := 0; i < n; i++ {
			f := File{Path: w.Dir + "/" + ns[p[i]] + w.Ext, Kind: "symlink", Raw: BytesOf("/nonexistent/verif-" + letters(i+1)), Role: "page"}
			if r.P(30) {
				f = File{Path: w.Dir + "/" + ns[p[i]] + w.Ext, Role: "page", Body: []*Node{bad()}}
			}
			w.Files = append(w.Files, f)
		}
		return "links"
	case 6: // several pages sharing faulty layouts with several faults each
		put("layouts/l1", text("<html>"), &Node{K: "stmt", A: `@reserve("r")`}, text("\n"), bad())
		put("layouts/l2", text("<html>"), &Node{K: "stmt", A: `@reserve("r")`}, text("\n"), &Node{K: "stmt", A: `@use("~l1")`})
		for i := 0; i < n; i++ {
			put(ns[p[i]], &Node{K: "stmt", A: r.Pick(`@use("~l1")`, `@use("~l2")`)}, text("\n"))
		}
		return "layouts"
	case 7: // duplicate inserts, and faults inside one file
		body := []*Node{{K: "stmt", A: `@use("~none")`}, text("\n")}
		for i := 0; i < n; i++ {
			body = append(body, &Node{K: "stmt", A: `@insert("d` + letters(i+1) + `", "v")`}, text("\n"), &Node{K: "stmt", A: `@insert("d` + letters(i+1) + `", "w")`}, text("\n"))
		}
		put(ns[p[0]], body...)
		put(ns[p[1]], g.Text(), bad(), text("\n"), bad(), bad())
		return "dup-inserts"
	case 8: // names that differ only in letter case or by one letter
		as := alike(r, "card")
		switch r.N(4) {
		case 0: // files
			for _, a := range as[1:] {
				put("components/"+a, text("<i>"+g.Marker()))
				put("li/"+a, g.Text())
			}
			put(ns[p[0]], g.Text(), &Node{K: "stmt", A: `@component("` + r.Pick("~", "components/", "li/") + as[0] + `")`}, text("\n"))
		case 1: // slots
			body := []*Node{g.Text()}
			for _, a := range as[1:] {
				body = append(body, &Node{K: "stmt", A: `@slot("` + a + `")`}, text("\n"))
			}
			put("components/fc", body...)
			put(ns[p[0]], g.Text(), &Node{K: "comp", A: `@component("~fc")`, C: []*Node{text("\n"),
				{K: "block", A: `@slot("` + as[0] + `")`, C: []*Node{g.Text()}, Z: "@end"}, text("\n")}, Z: "@end"})
		case 2: // inserts, reserves
			body := []*Node{text("<html>")}
			for _, a := range as[1:] {
				body = append(body, &Node{K: "stmt", A: `@reserve("` + a + `")`}, text("\n"))
			}
			put("layouts/fl", body...)
			put(ns[p[0]], &Node{K: "stmt", A: `@use("~fl")`}, text("\n"), &Node{K: "stmt", A: `@insert("` + as[0] + `", "v")`}, text("\n"))
		default: // component arguments
			put("components/fc", g.Text(), &Node{K: "code", A: "{{ " + as[0] + " }}"})
			o := ""
			for _, a := range as[1:] {
				o += r.Pick(", ", ", ") + a + `: "` + g.Marker() + `"`
			}
			put(ns[p[0]], g.Text(), &Node{K: "stmt", A: `@component("~fc", {` + o[2:] + "})"}, text("\n"))
		}
		return "alike"
	}
	return ""
}

// alike makes several names close to one another; the first is often not
// among the rest.
func alike(r *Rng, base string) []string {
	up := strings.ToUpper(base)
	all := []string{base, up, strings.ToUpper(base[:1]) + base[1:], base[:1] + strings.ToUpper(base[1:2]) + base[2:], base + "s", base + "a",
		base[:len(base)-1], base + "_x", base[:2] + base[3:], base[:2] + up[2:]}
	p := r.Perm(len(all))
	var out []string
	for i, n := 0, r.In(3, 6); i < n; i++ {
		out = append(out, all[p[i]])
	}
	return out
}

// multiExpr makes nodes with several failing or printed map entries at once.
func (g *Gen) multiExpr(comps []string) []*Node {
	r := g.R
	n := r.In(2, 7)
	if r.P(6) {
		n = r.In(8, 80)
	}
	failing := func() string {
		return r.Pick(g.fresh("missing"), `(1 + "a")`, "(7 / 0)", `"x".`+g.fresh("nof")+"()", "(!5)", "nums.nope()")
	}
	entries := func(pfail int) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			v := r.Pick("1", `"s"`, "nums", "[1, 2]", "bag", "title", "{z: 1, y: {q: 2, p: 3}, x: nil}")
			if r.P(pfail) {
				v = failing()
			}
			s += r.Pick("k", "Z", "m_", "a") + letters(i+1) + ": " + v
		}
		return "{" + s + "}"
	}
	list := func(pfail int) string {
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ", "
			}
			if r.P(pfail) {
				s += failing()
			} else {
				s += r.Pick("1", `"s"`, "nums", "title", "bag")
			}
		}
		return s
	}
	switch r.N(13) {
	case 7:
		return []*Node{{K: "code", A: "{{ [" + list(60) + "] }}"}}
	case 8:
		return []*Node{{K: "code", A: "{{ " + r.Pick(`"a,b".split`, `"abc".contains`, "nums.append", "nums.slice", `"x".`+g.fresh("nof"), `"x".xstr`, "(5).xint") + "(" + list(60) + ") }}"}}
	case 9:
		return []*Node{{K: "stmt", A: "@dump(" + list(50) + ")"}, text("\n")}
	case 10, 11: // properties that look alike, in data and in literals
		as := alike(r, "label")
		switch r.N(4) {
		case 0:
			o := ""
			for i, a := range as[1:] {
				o += ", " + a + ": " + strconv.Itoa(i)
			}
			return []*Node{{K: "code", A: "{{ {" + o[2:] + "}" + r.Pick("."+as[0], `["`+as[0]+`"]`) + " }}"}}
		case 1: // an undefined variable close to defined ones
			o := ""
			for i, a := range as[1:] {
				o += a + " = " + strconv.Itoa(i) + "; "
			}
			return []*Node{{K: "code", A: "{{ " + o + as[0] + " }}"}}
		}
		return []*Node{{K: "code", A: "{{ " + r.Pick("kin", "sib") + r.Pick("."+as[0], `["`+as[0]+`"]`) + " }}"}}
	case 0:
		return []*Node{{K: "code", A: "{{ " + entries(70) + " }}"}}
	case 1:
		return []*Node{{K: "code", A: "{{ " + entries(0) + " }}"}}
	case 2:
		return []*Node{{K: "stmt", A: "@dump(" + entries(0) + ", bag, [" + entries(0) + "])"}, text("\n")}
	case 3:
		return []*Node{{K: "code", A: "{{ [" + entries(0) + ", bag, user] }}"}}
	case 4:
		return []*Node{{K: "stmt", A: "@dump(" + entries(50) + ", " + entries(50) + ")"}, text("\n")}
	case 5:
		v := g.fresh("v")
		return []*Node{{K: "code", A: "{{ " + v + " = " + entries(10) + " }}"}, {K: "block", A: "@each(" + v + "x in [" + v + ", bag])", C: []*Node{text(" "), {K: "code", A: "{{ " + v + "x }}"}}, Z: "@end"}, text("\n")}
	case 6:
		return []*Node{{K: "code", A: "{{ bag.zz }}"}, {K: "code", A: "{{ [bag, bag].join(\"|\") }}"}}
	}
	if len(comps) > 0 {
		return []*Node{{K: "stmt", A: `@component("` + comps[r.N(len(comps))] + `", ` + entries(60) + ")"}, text("\n")}
	}
	return []*Node{{K: "code", A: "{{ bag }}"}}
}

// Gen14 makes one world, a list of operations and several environments.
func Gen14(seed uint64) *Case {
	r := NewRng(seed)
	g := &Gen{R: r, Long: 4, Dump: true, Dups: true}
	g.Funcs = StdFuncs(r)
	w, wi := g.World(WorldOpt{Pages: r.In(1, 3), Size: r.In(1, 4), Failing: 30, Debug: r.P(50), ErrPage: []string{"", "ok", "fail"}[r.N(3)]})
	w.Funcs = g.Funcs
	kind := "values"
	if r.P(35) {
		kind = g.multiFault(&w, &wi)
	}
	for i := range w.Files {
		f := &w.Files[i]
		if f.Role == "page" && f.Kind == "" && r.P(40) {
			isUse := len(f.Body) > 0 && len(f.Body[0].A) > 4 && f.Body[0].A[:4] == "@use"
			ns := g.multiExpr(wi.Comps)
			if isUse { // only inserts are evaluated
				for _, b := range f.Body {
					if b.K == "block" {
						b.C = append(b.C, ns...)
						break
					}
				}
			} else {
				f.Body = append(f.Body, ns...)
			}
		}
	}
	c := &Case{Prop: "C14", Seed: seed, Kind: kind, World: w}
	var ops []Op
	bigData := func() *V {
		d := g.Data()
		if r.P(40) {
			big := V{K: r.Pick("m", "m", "ms", "mi", "ma", "mf")}
			for i, n := 0, r.In(2, 30); i < n; i++ {
				v := VInt(int64(i))
				if big.K == "ms" {
					v = VStr(g.word())
				}
				k := r.Pick("k", "a", "Z") + letters(r.N(60)+1)
				if big.K == "mi" {
					k = []string{"1", "2", "30", "-4", "7", "12", "100", "5"}[r.N(8)]
				}
				if big.K == "ma" {
					k = r.Pick("i", "s", "8", "f", "s") + ":" + r.Pick("1", "2", "30", "-4", "7")
					if r.P(20) {
						k = r.Pick("b", "s") + ":" + r.Pick("true", "false")
					}
				}
				if big.K == "mf" {
					k = "f:" + r.Pick("1.5", "2", "NaN", "NaN", "+Inf", "-0.25")
					big.N, big.E = append(big.N, k), append(big.E, v)
					continue
				}
				big.Set(k, v)
			}
			d.Set("bag", big)
		}
		as := alike(r, "label")
		kin := V{K: r.Pick("m", "m", "ms")}
		sib := V{K: "st"}
		seen := map[string]bool{}
		for i, a := range as {
			if i > 0 || r.P(20) {
				kin.Set(a, VStr("v"+letters(i+1)))
			}
			if n := strings.ToUpper(a[:1]) + a[1:]; !seen[n] {
				seen[n] = true
				sib.N, sib.E = append(sib.N, n), append(sib.E, VStr("w"+letters(i+1)))
			}
		}
		d.Set("kin", kin)
		d.Set("sib", sib)
		if r.P(20) {
			for i, a := range as[1:] {
				d.Set(a, VInt(int64(i)))
			}
		}
		if r.P(15) { // several entries that cannot be converted
			d.Set("b1", V{K: "cplx"})
			d.Set("a1", VArr(V{K: "cplx"}))
			if r.P(50) {
				d.Set("loop", VInt(1))
			}
			d.Set("zz", VMap("u", V{K: "u?"}, "v", V{K: "cplx"}))
			if r.P(30) {
				d.Set(r.Pick("a0", "zz"), V{K: r.Pick("chan", "func")})
			}
		}
		// the order of insertion of the caller's map is arbitrary
		return &d
	}
	for _, p := range wi.Pages {
		ops = append(ops, Op{K: r.Pick("string", "resp"), Name: p.Name, Data: bigData()})
	}
	for _, f := range w.Files {
		if f.Role == "page" && r.P(40) {
			ops = append(ops, Op{K: r.Pick("string", "resp"), Name: nameOf(&w, f.Path), Data: bigData()})
		}
	}
	for i, n := 0, r.In(1, 3); i < n; i++ {
		src := append(g.StrSrc(), g.multiExpr(nil)...)
		if r.P(30) {
			src = g.multiExpr(nil)
		}
		op := Op{K: "evs", Src: src, Data: bigData()}
		if r.P(25) {
			op.K, op.Name = "evf", "extra/one.html"
		}
		ops = append(ops, op)
	}
	if x := r.Sub(1401); x.P(4) { // pages that take long
		ops = append(ops, Op{K: "evs", Src: []*Node{text("a"), Long(x), Long(x)}, Data: bigData()})
	}
	if r.P(20) && len(wi.Pages) > 0 { // a name that is nearly one
		a := alike(r, wi.Pages[0].Name)
		ops = append(ops, Op{K: r.Pick("string", "resp"), Name: a[0], Data: bigData()})
	}
	c.Tasks = [][]Op{ops}
	c.Env = baseEnv(r)
	for i, n := 0, r.In(3, 5); i < n; i++ {
		c.Envs = append(c.Envs, randEnv(r))
	}
	return c
}

func nameOf(w *World, path string) string {
	return path[len(w.Dir)+1 : len(path)-len(w.Ext)]
}
