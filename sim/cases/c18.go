package cases

import (
	"path"
	"strings"
)

// garbage18 are pieces no template may contain anywhere.
var garbage18 = []string{
	"{{ 1 + }}", "{{ }}", "{{ # }}", "{{ [1, 2 }}", "{{ {a: 1 }}", "@if(true)open", "@each(zz in [1, 2])open", "@each(", "@if(",
	"@for(zi = 0; zi < 2; zi++)open", `@if("x"`, "{{ (1 + 2 }}", "{{ 1 ? 2 }}", "{{ $x }}", "@for(zi = 0", "{{ a.1b }}", "{{ (1 }}", "{{ 3 ~ }}", "{{-- open", "{{ \"open",
}

type tree18 struct {
	dir, ext  string
	def       bool // dir and ext are the defaults
	files     []int
	refs      map[string]bool // names referenced as layout or component
	vict      []int           // possible fault victims
	spellDirs bool
	notNames  []string
	tangle    bool
}

func (g *Gen) mark(m *[]string) *Node {
	s := "q" // markers have no other q, so none is part of another
	for n := g.idNext(); n > 0; n /= 25 {
		s = string("abcdefghijklmnoprstuvwxyz"[n%25]) + s
	}
	s = "Tq" + s
	*m = append(*m, s)
	return text(g.R.Pick("<p>", "\n", "\r\n<i>", " 100% ", "") + s + g.R.Pick("</p>\n", "\n", " ", "<br>"))
}

// comp18 is a component of a tree: the markers it shows and its slot.
type comp18 struct {
	name, ref string
	marks     []string
	slot      bool
	after     string
	slotted   bool // a page gave its slot a body
}

// ref18 makes a use of a component somewhere in a block that runs or not, and
// adds the markers it shows to the file's.
func (g *Gen) ref18(t *tree18, comps []*comp18, f *File, d int) []*Node {
	r := g.R
	c := comps[r.N(len(comps))]
	t.refs[c.name] = true
	q := r.Pick("\"", "\"", "'")
	n := &Node{K: "stmt", A: "@component(" + q + c.ref + q + r.Pick("", "", ", {a: 1}", ", { zz: \"s\", y: [1, {b: nil}] }") + ")"}
	var marks []string
	marks = append(marks, c.marks...)
	if c.slot && !c.slotted && r.P(60) {
		// a component used twice in one file has one slot body
		c.slotted = true
		n.K, n.Z = "block", "@end"
		in := File{}
		body := []*Node{g.mark(&in.Marks)}
		if d > 0 && r.P(40) {
			body = append(body, g.ref18(t, comps, &in, d-1)...)
			body = append(body, g.mark(&in.Marks))
		}
		n.C = []*Node{{K: "block", A: "@slot", C: body, Z: "@end"}}
		marks = append(marks, in.Marks...)
	} else if c.slot && c.slotted {
		return []*Node{g.mark(&f.Marks)}
	} else if c.slot {
		c.slotted = true
	}
	if c.slot {
		marks = append(marks, c.after)
	}
	shown := true
	gap := func() []*Node {
		if r.P(50) {
			return nil
		}
		return []*Node{text(r.Pick("\n", " ", "x"))}
	}
	blk := func(head string, before ...*Node) []*Node {
		b := &Node{K: "block", A: head, Z: "@end"}
		b.C = append(append(b.C, before...), gap()...)
		b.C = append(append(b.C, n), gap()...)
		return []*Node{b}
	}
	sep := func(s string) []*Node { return []*Node{text("t"), {K: "sep", A: s}} }
	x := g.fresh("el")
	out := []*Node{n}
	switch r.N(14) {
	case 0:
		out = blk("@if(true)")
	case 1:
		out = blk("@if(false)", sep("@else")...)
	case 2:
		out, shown = blk("@if(false)"), false
	case 3:
		out, shown = blk("@if(true)", sep("@else")...), false
	case 4:
		out = blk("@if(false)", sep("@elseif(true)")...)
	case 5:
		out, shown = blk("@if(false)", sep("@elseif(false)")...), false
	case 6:
		out = blk("@each(" + x + " in [1])")
	case 7:
		out = blk("@each("+x+" in [])", sep("@else")...)
	case 8:
		out, shown = blk("@each("+x+" in [1, 2])", sep("@else")...), false
	case 9:
		out = blk("@for(" + x + " = 0; " + x + " < 1; " + x + "++)")
	case 10:
		out, shown = blk("@for("+x+" = 0; "+x+" < 0; "+x+"++)"), false
	case 11:
		out = []*Node{{K: "block", A: "@if(1 < 2)", C: append([]*Node{text("n")}, blk("@each("+x+" in [nil])")...), Z: "@end"}}
	}
	if shown {
		f.Marks = append(f.Marks, marks...)
	}
	return out
}

func (g *Gen) idNext() int { g.id++; return g.id }

// more adds harmless code that shows nothing with a marker.
func (g *Gen) more() []*Node {
	switch g.R.N(7) {
	case 0:
		return []*Node{{K: "code", A: "{{ 1 + 2 }}"}}
	case 1:
		return []*Node{{K: "comment", A: "{{-- note --}}"}}
	case 2:
		return []*Node{{K: "block", A: "@if(true)", C: []*Node{text("yes")}, Z: "@end"}}
	case 3:
		return []*Node{{K: "block", A: "@each(" + g.fresh("el") + " in [1, 2, 3])", C: []*Node{text("z")}, Z: "@end"}}
	}
	return nil
}

func (g *Gen) tree(w *World, n int, single bool) *tree18 {
	r := g.R
	t := &tree18{refs: map[string]bool{}}
	t.ext = r.Pick(".tw.html", ".tw", ".html", ".tpl", "_t.tw", ".x", ".tw.html", "html")
	t.dir = r.Pick("templates", "views/web", "t", "a/b/c/tpl", "site"+t.ext, "my views", "v.1", "tw", "views%20x")
	if x := r.Sub(1818); x.P(12) {
		t.dir = x.Pick("views[1]", "what?/x", "a*b", "{x}", "~tmp", "100%d", "$HOME", "back\\slash", "ünï/çode", "-x", "#1", "a;b&c", "[a-z]/t", "CamelCase", "...", "a.b/..c", "templates"+t.ext+"/templates"+t.ext, "(x|y)", "^a$")
	}
	if single && r.P(12) {
		t.dir = "."
	}
	if n > 0 {
		t.dir = r.Pick("second", "other/tree", "u", "z"+t.ext+"/q")
	}
	if n == 0 && r.P(12) {
		t.dir, t.ext, t.def = "templates", ".tw.html", true
	}
	ext := t.ext
	taken := map[string]bool{}
	// a layout or a component may stand beside the directory
	away := func(x *Rng, name *string) bool {
		if t.dir == "." || !x.P(9) {
			return false
		}
		*name = "../" + x.Pick("", "shared ones/", "away/") + path.Base(*name)
		return true
	}
	place := func(name string, f File) bool {
		p := path.Join(t.dir, name+ext)
		if taken[p] {
			return false
		}
		for o := range taken { // never a file where another needs a directory
			if strings.HasPrefix(o, p+"/") || strings.HasPrefix(p, o+"/") {
				return false
			}
		}
		taken[p] = true
		f.Path = p
		if f.Role != "other" && f.Kind == "" && r.P(12) {
			// the content lives elsewhere, the tree has a link to it
			tgt := "shared/" + g.fresh("file") + ".txt~"
			real := f
			real.Path = tgt
			real.Role, real.Marks = "other", nil
			w.Files = append(w.Files, real)
			up := strings.Repeat("../", strings.Count(p, "/"))
			f.Kind, f.Raw, f.Body = "symlink", BytesOf(up+tgt), nil
		}
		w.Files = append(w.Files, f)
		if f.Role == "page" || f.Role == "layout" || f.Role == "component" {
			t.files = append(t.files, len(w.Files)-1)
		}
		return true
	}
	var comps []*comp18
	for i, k := 0, r.In(0, 3); i < k; i++ {
		c := &comp18{name: r.Pick("components/", "components/", "ui/parts/", "components/deep/") + r.Pick("card", "btn", "my comp", "c.v2") + g.fresh("c")}
		c.ref = c.name
		if strings.HasPrefix(c.name, "components/") && r.P(60) {
			c.ref = "~" + strings.TrimPrefix(c.name, "components/")
		}
		if away(r.Sub(1821), &c.name) {
			c.ref = c.name
		}
		body := append([]*Node{g.mark(&c.marks)}, g.more()...)
		f := File{Role: "component", Body: body, Marks: append([]string{}, c.marks...)}
		if r.P(35) {
			c.slot = true
			var end []string
			f.Body = append(f.Body, &Node{K: "stmt", A: "@slot"}, g.mark(&end))
			c.after = end[0]
			f.Marks = append(f.Marks, end...)
		}
		if place(c.name, f) {
			comps = append(comps, c)
		}
	}
	type ly struct {
		name, ref, pre, post string
		hide                 bool // what is inserted does not show
	}
	var lays []ly
	for i, k := 0, r.In(0, 2); i < k; i++ {
		l := ly{name: r.Pick("layouts/", "layouts/", "base/") + r.Pick("main", "app shell", "l.1") + g.fresh("l")}
		l.ref = l.name
		if strings.HasPrefix(l.name, "layouts/") && r.P(60) {
			l.ref = "~" + strings.TrimPrefix(l.name, "layouts/")
		}
		if away(r.Sub(1822), &l.name) {
			l.ref = l.name
		}
		var m []string
		res := &Node{K: "stmt", A: `@reserve("content")`}
		switch r.N(12) {
		case 0:
			res = &Node{K: "block", A: "@if(true)", C: []*Node{text("a"), res, text("b")}, Z: "@end"}
		case 1:
			res = &Node{K: "block", A: "@each(" + g.fresh("el") + " in [nil])", C: []*Node{text("a"), res}, Z: "@end"}
		case 2:
			res = &Node{K: "block", A: "@if(false)", C: []*Node{text("a"), {K: "sep", A: "@else"}, text("b"), res}, Z: "@end"}
		case 3:
			res, l.hide = &Node{K: "block", A: "@if(false)", C: []*Node{res, text("a")}, Z: "@end"}, true
		case 4:
			res = &Node{K: "block", A: "@if(true)", C: []*Node{{K: "block", A: "@each(" + g.fresh("el") + " in [1, 2])", C: []*Node{text("z"), {K: "stmt", A: "@continue"}, text("n")}, Z: "@end"}, res}, Z: "@end"}
		}
		body := []*Node{g.mark(&m), res, g.mark(&m)}
		if r.P(20) {
			body = append(body, &Node{K: "stmt", A: `@reserve("more")`}, text("\n"))
		}
		body = append(body, g.more()...)
		l.pre, l.post = m[0], m[1]
		if place(l.name, File{Role: "layout", Body: body}) {
			lays = append(lays, l)
		}
	}
	base := t.dir
	if base == "." {
		base = "x"
	}
	odd := []string{"home", "index", "pages/about", "d1/d2/d3/d4/d5/deep", "sp ace", "ünï/çode", "100%", "%d/%s", "a.b.c", ".hidden", "UPPER/Case", "x-y_z",
		"a" + ext + "o", "d" + ext + "/page", "in" + ext + ext + "q", base + "/self", base, "a'b", "~tilde", "0", "x" + strings.TrimPrefix(ext, "."), "日本",
		".well-known/" + g.fresh("w"), ".git/hooks/x", "_partials/row", "_draft", "node_modules/m/page", "vendor/v", "x.test", "page_test", "testdata/t", "tmp/#x#",
		"back\\slash", "q\"uote", "errors/404", "layouts/loose", "components/loose", "Dockerfile", "a+b&c=d", "$HOME/*", "[x]?", " lead", "trail ", "..dots", "...", "-rf",
		strings.Repeat("long", r.In(10, 50)), strings.Repeat("n/", r.In(5, 30)) + "leaf", ""}
	pick := r.Perm(len(odd))
	for i, k := 0, r.In(1, 7); i < k && i < len(pick); i++ {
		name := odd[pick[i]]
		if r.P(50) {
			name += g.fresh("p")
		}
		f := File{Role: "page"}
		for _, c := range comps {
			c.slotted = false
		}
		inner := func() []*Node {
			b := []*Node{g.mark(&f.Marks)}
			b = append(b, g.more()...)
			for len(comps) > 0 && r.P(45) {
				b = append(b, g.ref18(t, comps, &f, 2)...)
				b = append(b, text("\n"))
				if r.P(50) {
					break
				}
			}
			return append(b, g.mark(&f.Marks))
		}
		if len(lays) > 0 && r.P(45) {
			l := lays[r.N(len(lays))]
			t.refs[l.name] = true
			f.Marks = append(f.Marks, l.pre)
			q := r.Pick("\"", "\"", "'")
			f.Body = []*Node{{K: "stmt", A: "@use(" + q + l.ref + q + ")"}, text(r.Pick("\n", "", "\r\n "))}
			if r.P(15) {
				var m []string
				g.mark(&m)
				f.Marks = append(f.Marks, m...)
				f.Body = append(f.Body, &Node{K: "stmt", A: `@insert("content", "` + m[0] + `")`}, text("\n"))
			} else if r.P(80) {
				f.Body = append(f.Body, &Node{K: "block", A: `@insert("content")`, C: inner(), Z: "@end"})
			}
			if l.hide {
				f.Marks = []string{l.pre}
			}
			f.Marks = append(f.Marks, l.post)
		} else {
			f.Body = inner()
		}
		place(name, f)
	}
	// pages with nothing to see
	if r.P(7) {
		place(r.Pick("", "pages/")+g.fresh("void"), File{Role: "page", Body: []*Node{text(r.Pick("", "", "\n", " \t\r\n", "{{-- nothing --}}"))}})
	}
	// many pages
	if r.P(3) {
		k := r.In(30, 250)
		if r.P(8) {
			k = r.In(250, 1300)
		}
		for i := 0; i < k; i++ {
			f := File{Role: "page"}
			f.Body = []*Node{g.mark(&f.Marks)}
			place(r.Pick("many/", "many/", "many/more/", "")+g.fresh("n"), f)
		}
	}
	// a big page
	if r.P(6) {
		f := File{Role: "page"}
		k := r.In(100, 3000)
		if r.P(10) {
			k = r.In(3000, 70000)
		}
		f.Body = []*Node{g.mark(&f.Marks), text(strings.Repeat(r.Pick("long line of text\n", "x", "ü", "<b>{ } @</b>\r\n"), k)), g.mark(&f.Marks)}
		place(g.fresh("big"), f)
	}
	// files that use one another in a circle or in ways not supported
	if r.P(8) {
		t.tangle = true
		a, b, d := "tangle/"+g.fresh("a"), "tangle/"+g.fresh("b"), "tangle/"+g.fresh("d")
		put := func(name, src string) {
			place(name, File{Role: "tangle", Body: []*Node{{K: "raw", A: src}}})
		}
		use := func(n string) string { return `@use("` + n + `")` }
		comp := func(n string) string {
			switch r.N(4) {
			case 0:
				return `@component("` + n + `", {a: 1})`
			case 1:
				return `@if(true)@component("` + n + `")@end`
			}
			return `@component("` + n + `")`
		}
		ins := `@insert("x")I@end`
		res := `@reserve("x")`
		switch r.N(12) {
		case 0:
			put(a, "s"+comp(a))
		case 1:
			put(a, "s"+comp(b))
			put(b, comp(a)+"t")
		case 2:
			put(a, comp(b))
			put(b, comp(d))
			put(d, comp(a))
		case 3:
			put(a, use(a)+ins)
		case 4:
			put(a, use(a)+res+ins)
		case 5:
			put(a, use(b)+ins)
			put(b, use(b)+res)
		case 6:
			put(a, use(b)+ins)
			put(b, use(d)+res+ins)
			put(d, use(b)+res+ins)
		case 7:
			put(a, use(b)+`@insert("x")`+comp(a)+"@end")
			put(b, "l"+res+comp(a))
		case 8:
			put(a, comp(b))
			put(b, use(d)+ins)
			put(d, "l"+res+comp(a))
		case 9:
			put(a, comp(b)+comp(b)+comp(d))
			put(b, comp(d)+"u")
			put(d, comp(a)+comp(b))
		case 10:
			put(a, `@component("`+a+`")@slot`+comp(a)+`@end@end@slot`)
		case 11:
			put(a, comp(b)+use(b)+ins)
			put(b, res+comp(b))
		}
	}
	// a page that is empty
	if r.P(10) {
		place(g.fresh("blank"), File{Role: "page", Raw: BytesOf("")})
	}
	// things that are no templates although their names come close
	up := strings.ToUpper(ext)
	near := []string{"readme.txt", "a" + ext + ".bak", "home" + ext + "x", "d" + ext + "/note.txt", "e" + ext + "~", "f" + ext[:len(ext)-1],
		"G" + up, ".gitkeep", "sub/h" + ext + ".orig", "deep" + ext + "/er" + ext + "/i.md"}
	if len(ext) > 1 {
		near = append(near, "j"+strings.Replace(ext, ".", "-", -1))
	}
	for _, i := range r.Perm(len(near))[:r.In(0, 6)] {
		nm := near[i]
		if strings.HasSuffix(nm, ext) {
			continue
		}
		p := path.Join(t.dir, nm)
		clash := false
		for o := range taken {
			if o == p || strings.HasPrefix(o, p+"/") || strings.HasPrefix(p, o+"/") {
				clash = true
			}
		}
		if clash {
			continue
		}
		taken[p] = true
		w.Files = append(w.Files, File{Path: p, Role: "other", Raw: BytesOf(r.Pick("@if({{ #", "", "{{ 1 }}", "binary\x00\xff", `@component("gone")`, "@if(true)"))})
		for _, s := range []string{nm, strings.Replace(nm, ext, "", 1), strings.TrimSuffix(nm, path.Ext(nm))} {
			t.notNames = append(t.notNames, s)
		}
	}
	for i := 0; i < 2; i++ {
		if r.P(40) {
			d := r.Pick("emptydir", "e/e", "dir"+g.fresh("d")+ext)
			p := path.Join(t.dir, d)
			clash := false
			for o := range taken {
				if o == p || strings.HasPrefix(p, o+"/") {
					clash = true
				}
			}
			if !clash {
				w.Files = append(w.Files, File{Path: p, Role: "other", Kind: "dir"})
				t.notNames = append(t.notNames, d, strings.TrimSuffix(d, ext))
			}
		}
	}
	t.notNames = append(t.notNames, "nope", "no/such/page", strings.TrimSuffix(t.dir, "/")+"/", "")
	return t
}

// spelling writes the tree's directory in one of many ways.
func (g *Gen) spelling(w *World, t *tree18) string {
	r := g.R
	d := t.dir
	mk := func(p string) { w.Files = append(w.Files, File{Path: p, Role: "other", Kind: "dir"}) }
	switch k := r.N(12); {
	case k == 0:
		return d + "/"
	case k == 1:
		return d + "///"
	case k == 2:
		return "./" + d
	case k == 3:
		return "../w/" + d
	case k == 4:
		mk("zz")
		return "zz/../" + d
	case k == 5:
		return strings.ReplaceAll(d, "/", "//")
	case k == 6:
		return strings.ReplaceAll(d, "/", "/./") + "/."
	case k == 7 && d != ".":
		return d + "/../" + path.Base(d) + "/"
	case k == 8:
		return "././" + d + "/"
	}
	return d
}

// Gen18 makes a history of loads of one or two trees, some with a fault.
func Gen18(seed uint64) *Case {
	r := NewRng(seed)
	g := &Gen{R: r}
	c := &Case{Prop: "C18", Seed: seed, Env: baseEnv(r)}
	c.Env.IterMode, c.Env.IterSeed, c.Env.IterInv = 1, r.Sub(77).U64(), 2
	c.Env.DirSeed = r.U64()
	w := World{Debug: r.P(30)}
	trees := []*tree18{}
	single := r.P(70)
	trees = append(trees, g.tree(&w, 0, single))
	if !single {
		trees = append(trees, g.tree(&w, 1, false))
	}
	w.Dir, w.Ext = trees[0].dir, trees[0].ext
	oddPaths := []string{}
	for i, k := 0, r.In(0, 3); i < k; i++ {
		p := "odd/" + g.fresh("f") + r.Pick(".txt~", ".bin~", "")
		src := r.Pick("", "\xef\xbb\xbfhi {{ 1 }}", "a\r\nb {{ 1 }}\r\n{{ \"x\r\ny\" }}", "nul \x00 end {{ 2 }}", "\xff\xfe{{ 3 }}\xff", "plain", "{{ 1 / 0 }}", "TqO"+g.fresh("")+"{{ 1 }}TqP"+g.fresh(""), "{{ \"TqO\" + 1 }}",
			"{{ }}", "@if(true)x", strings.Repeat("long text ", r.In(1, 2000))+"{{ 4 }}", "%d %s %!", "\n\n\n", "@if(false)a@else{{ 1 + 1 }}@end")
		w.Files = append(w.Files, File{Path: p, Role: "other", Raw: BytesOf(src)})
		oddPaths = append(oddPaths, p)
	}
	var h []Op
	load := func(t *tree18, first bool) Op {
		op := Op{K: "load", Name: g.spelling(&w, t), Note: t.ext, Want: t.dir}
		if t.def && first && r.P(60) {
			op.Name = r.Pick("", op.Name)
			op.Note = r.Pick("", op.Note)
		}
		op.Rich = r.Sub(1823).P(15)
		return op
	}
	evf := func(t *tree18) Op {
		p := ""
		switch {
		case len(oddPaths) > 0 && r.P(50):
			p = oddPaths[r.N(len(oddPaths))]
		default:
			p = w.Files[r.N(len(w.Files))].Path
		}
		op := Op{K: "evf", Name: p}
		if r.P(40) {
			op.Fault = &Fault{K: r.Pick("eio-read", "short-read", "eintr-open", "eacces-open", "eintr-read", "eio-fstat", "enoent-open"), Path: p, M: r.In(1, 7)}
		}
		if r.P(30) {
			op.Want = "relative"
		}
		return op
	}
	for i, k := 0, r.In(1, 4); i < k; i++ {
		t := trees[r.N(len(trees))]
		op := load(t, len(h) == 0)
		if r.P(65) && len(t.files) > 0 {
			f := g.fault18(&w, t)
			op.Fault = &f
			h = append(h, op)
			for r.P(20) { // the fault comes back, perhaps somewhere else
				f := g.fault18(&w, t)
				op := load(t, false)
				op.Fault = &f
				h = append(h, op)
			}
			op = load(t, false)
		}
		h = append(h, op)
		for r.P(45) {
			h = append(h, evf(t))
		}
		// a file changes, its name, size and modification time stay
		for r.P(25) {
			rw := Op{K: "rewrite", Note: r.Pick("inplace", "rename", "fresh")}
			if len(oddPaths) > 0 && r.P(40) {
				rw.Name = oddPaths[r.N(len(oddPaths))]
			} else {
				rw.Name = w.Files[r.N(len(w.Files))].Path
			}
			h = append(h, rw)
			if r.P(60) {
				ev := evf(t)
				if r.P(70) {
					ev.Name = rw.Name
				}
				h = append(h, ev)
			}
			if r.P(50) {
				h = append(h, load(t, false))
			}
		}
	}
	seen := map[string]bool{}
	for _, t := range trees {
		for _, n := range t.notNames {
			if !seen[n] {
				seen[n] = true
				c.Names = append(c.Names, n)
			}
		}
	}
	c.World = w
	c.Tasks = [][]Op{h}
	return c
}

func (g *Gen) fault18(w *World, t *tree18) Fault {
	r := g.R
	f := Fault{}
	v := &w.Files[t.files[r.N(len(t.files))]]
	f.Path = v.Path
	name := strings.TrimSuffix(strings.TrimPrefix(v.Path, t.dir+"/"), t.ext)
	if up := path.Dir(t.dir); t.dir != "." && !strings.HasPrefix(v.Path, t.dir+"/") {
		name = "../" + strings.TrimPrefix(name, up+"/")
	}
	if t.refs[name] && r.P(25) {
		f.K = "del"
		return f
	}
	f.K = r.Pick("dangling", "loop", "dir", "garbage", "garbage", "garbage", "truncate", "truncate", "eacces-open", "eio-open", "emfile-open", "enoent-open", "eio-read", "eio-read",
		"eio-lstat", "eio-dirent", "eio-fstat", "short-read", "eintr-open", "eintr-read", "eacces-dirent", "zeroes", "vanish")
	f.N = r.Pick3(0, 1, 2)
	switch f.K {
	case "garbage":
		f.S = Bytes(garbage18[r.N(len(garbage18))])
		f.M = r.N(2) // 0: behind the content, 1: instead of it
	case "truncate", "zeroes":
		f.M = r.N(1 << 16)
	case "short-read":
		f.M = r.In(1, 9)
	case "eio-read":
		f.M = r.N(3) // after that many reads
	}
	return f
}

func (r *Rng) Pick3(a, b, c int) int { return []int{a, b, c}[r.N(3)] }
