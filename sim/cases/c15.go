package cases

// Gen15 makes concurrent histories against one loaded Template.
func Gen15(seed uint64) *Case {
	r := NewRng(seed)
	g := &Gen{R: r, Long: 4, Dump: true, Dups: true, Plain: r.P(50)}
	if r.Sub(15).P(12) { // long pages
		g.Long, g.Short = 300, true
	}
	for _, f := range StdFuncs(r) {
		if f.Beh != "panic" {
			g.Funcs = append(g.Funcs, f)
		}
	}
	ek := errPageKinds[r.N(len(errPageKinds))]
	o := WorldOpt{Pages: r.In(1, 3), Size: r.In(1, 4), Failing: 35, Debug: r.P(40)}
	alike := "" // every caller does the same kind of thing
	if r.P(25) {
		alike = r.Pick("resp", "resp", "resp", "string", "evs", "evf")
		if alike == "resp" && r.P(60) {
			o.Failing, o.Size = 90, 1
		}
	}
	if ek != "missing" {
		o.ErrPage = ek
	}
	w, wi := g.World(o)
	g.fixErr(&w, ek)
	w.Funcs = g.Funcs
	pool := g.Pool(&w, &wi, r.In(2, 6), false)
	for i := range pool { // every evaluated file has one content
		if pool[i].K == "evf" && pool[i].Src != nil {
			pool[i].Name = "extra/f" + letters(i+1) + ".html"
		}
	}
	if alike != "" {
		var same []Op
		for _, op := range pool {
			if op.K == alike {
				same = append(same, op)
			}
		}
		if len(same) > 0 {
			pool = same
		}
	}
	c := &Case{Prop: "C15", Seed: seed, World: w, Env: baseEnv(r)}
	nt, no := r.In(2, 5), 5
	crowd := r.P(3)
	if crowd { // very many callers with little to do each
		nt, no = r.In(20, 160), 1
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, m := 0, r.In(1, no); i < m; i++ {
			op := pool[r.N(len(pool))]
			op.Shared = 0
			if op.K == "resp" && r.P(10) {
				op.Fault = &Fault{K: r.Pick("werr", "wshort"), N: r.N(200)}
			}
			if op.K == "resp" && op.Fault == nil && r.P(30) {
				op.Fault = &Fault{K: "slow", N: r.N(60)}
			}
			if op.K == "resp" {
				op.Rich = r.P(30)
			}
			ops = append(ops, op)
		}
		c.Tasks = append(c.Tasks, ops)
	}
	e := &c.Env
	e.HotMode = r.N(4)
	k := r.N(5)
	if crowd && r.P(80) {
		k = 2
	}
	switch k {
	case 0: // mostly one after the other with a few switches anywhere
		e.Policy, e.PInv, e.HotInv = 1, uint64(r.In(500, 20000)), uint64(r.In(20, 2000))
	case 1:
		e.Policy, e.PInv, e.HotInv = 1, uint64(r.In(50, 1000)), uint64(r.In(2, 20))
	case 2:
		e.Policy, e.PInv, e.HotInv = 1, uint64(r.In(5, 60)), uint64(r.In(1, 5))
	case 3:
		e.Policy, e.PInv, e.HotInv = 1, 1<<40, uint64(r.In(1, 8)) // only at hot points
		if e.HotMode == 0 {
			e.HotMode = 2
		}
	case 4:
		e.Policy = 2
		span := uint64([]int{300, 3000, 30000, 200000}[r.N(4)])
		for i, n := 0, r.In(1, 6); i < n; i++ {
			e.PCT = append(e.PCT, r.U64()%span+1)
		}
		sortU64(e.PCT)
	}
	return c
}

func sortU64(a []uint64) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
