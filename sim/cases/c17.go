package cases

import (
	"fmt"
	"strings"
)

// Gen17 makes a history of Response calls with writer faults, reloads and
// configuration changes.
func Gen17(seed uint64) *Case {
	r := NewRng(seed)
	g := &Gen{R: r, Long: 4, Dump: r.P(50), Dups: true, Plain: r.P(50)}
	for _, f := range StdFuncs(r) {
		if f.Beh != "panic" {
			g.Funcs = append(g.Funcs, f)
		}
	}
	ek := errPageKinds[r.N(len(errPageKinds))]
	o := WorldOpt{Pages: r.In(1, 4), Size: r.In(1, 5), Failing: 60, Debug: r.P(40)}
	if ek != "missing" {
		o.ErrPage = ek
	}
	w, wi := g.World(o)
	g.fixErr(&w, ek)
	w.Funcs = g.Funcs
	c := &Case{Prop: "C17", Seed: seed, Kind: "err=" + ek, Env: baseEnv(r)}
	if r.P(50) {
		c.Env.IterMode, c.Env.IterSeed, c.Env.IterInv = 1, r.U64(), 2
	}
	// a second error page to switch to
	second := ""
	if r.P(30) {
		second = "errors/other"
		body := []*Node{text("<h2>second "), g.Text()}
		if r.P(30) {
			f, _ := g.Fail()
			body = append(body, f)
		}
		w.Files = append(w.Files, File{Path: w.Dir + "/" + second + w.Ext, Body: body, Role: "error"})
	}
	if r.P(4) && len(wi.Pages) > 0 { // a page of hundreds of KiB
		n := r.In(1000, 60000)
		for i := range w.Files {
			f := &w.Files[i]
			if f.Role == "page" && f.Kind == "" && len(f.Body) > 0 && !(f.Body[0].K == "stmt" && strings.HasPrefix(f.Body[0].A, "@use")) {
				big := &Node{K: "code", A: fmt.Sprintf(`{{ "%s".repeat(%d) }}`, r.Pick("0123456789", "ab\n", "ü", "x"), n)}
				at := r.N(len(f.Body) + 1)
				f.Body = append(append(append([]*Node{}, f.Body[:at]...), big), f.Body[at:]...)
				break
			}
		}
	}
	if x := r.Sub(1717); x.P(4) {
		for i := range w.Files {
			f := &w.Files[i]
			if f.Role == "page" && f.Kind == "" && len(f.Body) > 0 && !(f.Body[0].K == "stmt" && strings.HasPrefix(f.Body[0].A, "@use")) {
				at := x.N(len(f.Body) + 1)
				f.Body = append(append(append([]*Node{}, f.Body[:at]...), Long(x)), f.Body[at:]...)
				break
			}
		}
	}
	c.World = w
	good := g.Data()
	bad := VMap("title", VStr("only"), "n", VStr("no number"))
	conv := []V{VMap("title", VStr("x"), "loop", VInt(1)), VMap("name", V{K: "cplx"}), VMap("user", VMap("a", VArr(V{K: "cplx"})), "loop", VStr("s")), VMap("title", V{K: "st", N: []string{"A", "B"}, E: []V{VInt(1), {K: "chan"}}}), VMap("none", V{K: "np"}, "title", VStr("t"))}
	var h []Op
	for i, n := 0, r.In(3, 10); i < n; i++ {
		op := Op{K: "resp", Name: wi.Pages[r.N(len(wi.Pages))].Name, Data: &good}
		switch k := r.N(100); {
		case k < 8:
			op.Name = r.Pick("nope", "", "pages/"+g.fresh("gone"), "../"+wi.Pages[0].Name)
		case k < 14 && len(wi.Layouts) > 0:
			op.Name = wi.Layouts[r.N(len(wi.Layouts))]
		case k < 20 && len(wi.Comps) > 0:
			op.Name = wi.Comps[r.N(len(wi.Comps))]
		case k < 25 && wi.Err != "":
			op.Name = wi.Err
		case k < 33:
			op.Data = &bad
		case k < 39:
			op.Data = &conv[r.N(len(conv))]
		case k < 43:
			op.Data = nil
		case k < 51:
			op = Op{K: r.Pick("load", "conf"), Debug: r.In(1, 2)}
			if second != "" && r.P(50) {
				op.Name = second
			}
		case k < 55:
			op = Op{K: "evs", Src: g.StrSrc(), Data: &good}
		}
		if op.K == "resp" {
			op.Rich = r.P(40)
			if r.P(20) {
				op.Fault = &Fault{K: r.Pick("werr", "wshort", "wpanic", "wonce"), N: r.Pick2(0, r.N(300))}
			}
			op.Want = r.Pick("", "after") // take the reference before or after
		}
		h = append(h, op)
	}
	c.Tasks = [][]Op{h}
	return c
}
