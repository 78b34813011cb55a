package cases

// PageInfo is what the generator knows about one addressable template.
type PageInfo struct {
	Name  string
	Fails string // error kind, "" when the page is expected to render
	Body  []*Node
}

// WorldInfo accompanies a generated world.
type WorldInfo struct {
	Pages   []PageInfo
	Layouts []string
	Comps   []string
	Err     string
}

var dirNames = []string{"templates", "views/tpl", "t", "resources/views/web", "tpl.d"}
var extNames = []string{".tw.html", ".tw", ".html", ".tpl", ".tw.html"}
var pageNames = []string{"home", "pages/about", "admin/users/list", "index", "shop/cart", "a/b/c/deep", "blog-post", "x_1"}

type WorldOpt struct {
	Pages   int // number of pages
	Size    int // statements per page
	Failing int // percent of pages with an injected run-time error
	ErrPage string
	Debug   bool
}

// World generates a tree of layouts, components and pages.
func (g *Gen) World(o WorldOpt) (World, WorldInfo) {
	r := g.R
	w := World{Dir: dirNames[r.N(len(dirNames))], Ext: extNames[r.N(len(extNames))], Debug: o.Debug}
	var wi WorldInfo
	g.comps = nil
	put := func(name, role string, body []*Node) {
		w.Files = append(w.Files, File{Path: w.Dir + "/" + name + w.Ext, Body: body, Role: role})
	}
	for i, n := 0, r.In(0, 3); i < n; i++ {
		name := r.Pick("components/", "components/", "ui/") + r.Pick("card", "btn", "row") + letters(i+1)
		put(name, "component", g.Component(name))
		wi.Comps = append(wi.Comps, name)
	}
	type lay struct {
		name string
		res  []string
	}
	var lays []lay
	for i, n := 0, r.In(0, 2); i < n; i++ {
		l := lay{name: r.Pick("layouts/", "layouts/", "base/") + r.Pick("main", "app") + letters(i+1)}
		for j, m := 0, r.In(1, 3); j < m; j++ {
			l.res = append(l.res, r.Pick("title", "content", "side")+letters(j+1))
		}
		lays = append(lays, l)
		wi.Layouts = append(wi.Layouts, l.name)
		put(l.name, "layout", g.Layout(l.res))
	}
	names := r.Perm(len(pageNames))
	for i := 0; i < o.Pages; i++ {
		name := pageNames[names[i%len(names)]]
		if i >= len(names) {
			name += letters(i)
		}
		var body []*Node
		if len(lays) > 0 && r.P(50) {
			l := lays[r.N(len(lays))]
			body = g.LayoutPage(l.name, l.res, r.In(1, o.Size))
		} else {
			body = g.Page(r.In(1, o.Size))
		}
		fails := ""
		if r.P(o.Failing) {
			body, fails = g.failPage(body)
		}
		put(name, "page", body)
		wi.Pages = append(wi.Pages, PageInfo{Name: name, Fails: fails, Body: body})
	}
	if o.ErrPage != "" {
		w.ErrPage = "errors/" + r.Pick("500", "oops")
		wi.Err = w.ErrPage
		switch o.ErrPage {
		case "ok":
			sc := scope{depth: 1}
			put(w.ErrPage, "error", append([]*Node{text("<h1>custom "), g.Text()}, g.Block(sc, r.In(0, 2))...))
		case "fail":
			f, _ := g.Fail()
			put(w.ErrPage, "error", []*Node{text("<h1>custom "), g.Text(), f})
		case "leak": // would show the failure if it were told of it
			e := "{{ " + r.Pick("message", "path", "line", "error", "err", "filename", "debugMode", "template", "e.message", "error.message", "message + path") + " }}"
			n := &Node{K: "code", A: e}
			if r.P(25) {
				n = &Node{K: "block", A: "@if(" + r.Pick("message", "debugMode", "path", "error") + ")", C: []*Node{text(" "), n}, Z: "@end"}
			}
			put(w.ErrPage, "error", []*Node{text("<h1>custom "), g.Text(), n})
		case "data": // needs data it is never given
			put(w.ErrPage, "error", []*Node{text("<h1>custom "), g.Text(), {K: "code", A: "{{ title }}"}})
		}
	}
	// the order of files on the simulated disk is arbitrary
	p := r.Perm(len(w.Files))
	fs := make([]File, len(p))
	for i, j := range p {
		fs[i] = w.Files[j]
	}
	w.Files = fs
	return w, wi
}

// failPage injects a run-time error into a page: top level, or inside an
// insert block when the page uses a layout.
func (g *Gen) failPage(body []*Node) ([]*Node, string) {
	for _, n := range body {
		if n.K == "stmt" && len(n.A) > 4 && n.A[:4] == "@use" {
			var ins []*Node
			for _, m := range body {
				if m.K == "block" {
					ins = append(ins, m)
				}
			}
			if len(ins) == 0 {
				return body, ""
			}
			t := ins[g.R.N(len(ins))]
			var kind string
			t.C, kind = g.InsertFail(t.C)
			return body, "insert:" + kind
		}
	}
	return g.InsertFail(body)
}

// StdFuncs are custom functions usable in generated templates.
func StdFuncs(r *Rng) []FuncSpec {
	var out []FuncSpec
	for _, t := range []string{"str", "int", "float", "arr", "bool"} {
		if r.P(50) {
			f := FuncSpec{Type: t, Name: "x" + t, Beh: "id"}
			if t == "arr" && r.P(60) {
				f.Beh = "rev"
			}
			out = append(out, f)
		}
		if r.P(30) {
			out = append(out, FuncSpec{Type: t, Name: "boom", Beh: "panic"})
		}
	}
	return out
}
